"""Models of std::string and std::vector (assumed contracts of the standard library)."""
from fractions import Fraction
import z3
from terms import *
from values import *
from program import Ty

_SS = z3.StringSort()
INTOK, INTV, INTEND = z3.Function('intok', _SS, z3.BoolSort()), z3.Function('intv', _SS, z3.IntSort()), z3.Function('intend', _SS, z3.IntSort())
REALOK, REALEND = z3.Function('realok', _SS, z3.BoolSort()), z3.Function('realend', _SS, z3.IntSort())
REALV, REALRANGE = z3.Function('realv', _SS, z3.IntSort(), z3.RealSort()), z3.Function('realrange', _SS, z3.IntSort(), z3.BoolSort())
CHAR = Ty('int', 'char', bits=8, signed=True)


# ------------------------------------------------------------------ strings
def sval(ex, v):
    """string value (python str or z3 String) of an argument: std::string object, char pointer or literal"""
    if isinstance(v, (str,)) or (isinstance(v, Z) and v.sort() == z3.StringSort()):
        return v
    if isinstance(v, LV):
        nd = ex.node(v.rid)
        if v.idx is not None:
            w = ex.read(v)
            return sval(ex, w) if not isinstance(w, (int, Z)) or (isinstance(w, Z) and w.sort() == z3.StringSort()) else char_str(w)
        if isinstance(nd, Lib) and nd.kind == 'string':
            return nd.p['s']
        if isinstance(nd, Cell):
            return sval(ex, ex.read(v))
        if isinstance(nd, Arr):
            return cstr(ex, Ptr(v.rid, 0))
    if isinstance(v, Ptr):
        return cstr(ex, v)
    if is_conc(v) or isinstance(v, Z) and v.sort() == z3.IntSort():
        return char_str(v)
    raise Unsupported('string value of %r' % (v,))


def char_str(c):
    return chr(int(c)) if is_conc(c) else z3.StrFromCode(c)


def cstr(ex, p):
    if p.rid is None:
        ex.oblige(False, 'no null dereference')
    nd = ex.node(p.rid)
    if isinstance(nd, Lib) and nd.kind == 'string':
        return nd.p['s']
    s = ex.S.ghost.get(('str', p.rid))
    off = (p.off if p.off is not None else 0)
    if s is not None and is_conc(off) and off == 0:
        return s
    if isinstance(nd, Arr) and isinstance(nd.n, int) and is_conc(off):
        out = ''
        for i in range(off, nd.n):
            c = nd.a.get(i)
            if not is_conc(c):
                break
            if c == 0:
                return out
            out += chr(c)
    raise Unsupported('contents of char array')


def slen(s):
    return len(s) if isinstance(s, str) else z3.Length(s)


def seq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return toz(a) == toz(b)


def scat(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, str) and a == '':
        return b
    if isinstance(b, str) and b == '':
        return a
    return z3.Concat(toz(a), toz(b))


def mkstr(ex, s, ty=None):
    return LV(ex.put(Lib('string', {'s': s}, ty)))


def is_stringty(ty):
    return ty.k == 'lib' and ('basic_string' in ty.name or ty.name in ('string', 'std::string'))


def install(L):
    def d_string(ex, ty, init, name):
        if init == 'sym':
            ex.ncon += 1
            return Lib('string', {'s': z3.Const('%s!%d' % (name, ex.ncon), z3.StringSort())}, ty)
        if ex.opts.get('charstrings'):      # a string built character by character
            return Lib('string', {'s': None, 'arr': ex.put(Arr(2 ** 62, UninitArr(), CHAR)), 'len': 0}, ty)
        return Lib('string', {'s': ''}, ty)
    L.defaults['string'] = d_string

    def push_char(ex, lv, v):
        nd = ex.node(lv.rid) if isinstance(lv, LV) and lv.idx is None else None
        if isinstance(nd, Lib) and 'arr' in nd.p and (is_conc(v) or isinstance(v, Z) and v.sort() == z3.IntSort()):
            ex.write(LV(nd.p['arr'], nd.p['len']), v)
            ex.setnode(lv.rid, nd.w(len=add(nd.p['len'], 1), s=None))
            return True
        return False

    def share_chars(ex, lv, v):
        nd = ex.S.mem.get(v.rid) if isinstance(v, LV) and v.idx is None else None
        if isinstance(nd, Lib) and nd.kind == 'string' and 'arr' in nd.p and nd.p['s'] is None:
            a = ex.node(nd.p['arr'])
            ex.setnode(lv.rid, Lib('string', {'s': None, 'arr': ex.put(Arr(a.n, a.a, a.ty)), 'len': nd.p['len']}, ex.node(lv.rid).ty))
            return True
        return False

    def from_chars(ex, p, ln=None):
        """string made of an array of characters, up to the first zero or of the length given"""
        nd = ex.S.mem.get(p.rid) if isinstance(p, Ptr) and p.rid is not None else None
        if not isinstance(nd, Arr) or nd.ty.k != 'int' or nd.ty.bits != 8:
            return None
        if p.rid in ex.S.freed:
            ex.oblige(False, 'no use after free')
        off = p.off if p.off is not None else 0
        cp = ex.put(Arr(nd.n, nd.a, nd.ty))
        if not (is_conc(off) and off == 0):
            return None
        if ln is not None:
            ex.oblige(le(ln, nd.n), 'characters of a string are within the array')
            return Lib('string', {'s': None, 'arr': cp, 'len': ln})
        last = sub(nd.n, 1)
        if ex.decide(and_(le(0, last), eq(ex.read(LV(cp, last)), 0))) is not True:
            raise Unsupported('end of a text')
        m = ex.fint('textlen', 0)
        ex.assume(le(m, last))
        ex.assume(eq(ex.read(LV(cp, m)), 0))
        ex.S.ghost[('textlen', cp)] = (m, last)      # no zero before m: instances as needed
        return Lib('string', {'s': None, 'arr': cp, 'len': m, 'first': last})

    def argv(ex, node):
        v = ex.ev(node)
        return v

    def c_string(ex, ty, nodes, n):
        nodes = [a for a in nodes if a['kind'] != 'CXXDefaultArgExpr']
        if not nodes:
            return LV(ex.put(d_string(ex, ty, 'ctor', 's')))
        vs = [argv(ex, a) for a in nodes]
        vs = [ex.read(v) if isinstance(v, LV) and isinstance(ex.S.mem.get(v.rid), Cell) else v for v in vs]
        if isinstance(vs[0], Ptr) and len(vs) < 3:
            try:
                sval(ex, vs[0])
            except Unsupported:
                fc = from_chars(ex, *vs)
                if fc is not None:
                    return LV(ex.put(Lib('string', fc.p, ty)))
        if len(vs) == 1:
            nd = ex.S.mem.get(vs[0].rid) if isinstance(vs[0], LV) and vs[0].idx is None else None
            if isinstance(nd, Lib) and nd.kind == 'string' and 'arr' in nd.p and nd.p['s'] is None:
                return LV(ex.put(copy_string(ex, nd)))
            return mkstr(ex, sval(ex, vs[0]), ty)
        if len(vs) == 2 and is_conc(vs[1]) and not is_conc(vs[0]):
            s = sval(ex, vs[0])
            if isinstance(s, str):
                return mkstr(ex, s[:int(vs[1])], ty)
        if len(vs) == 2 and is_conc(vs[0]) and is_conc(vs[1]):
            return mkstr(ex, chr(int(vs[1])) * int(vs[0]), ty)
        raise Unsupported('string constructor')
    L.ctors['string'] = c_string

    def s_of(ex, this):
        return sval(ex, this)

    def setstr(ex, lv, s):
        if lv.idx is not None:
            raise Unsupported('string element')
        nd = ex.node(lv.rid)
        if nd.p.get('ro'):
            raise Unsupported('change of a vector element')
        if 'chars' in nd.p:
            raise Unsupported('change of an abstract string')
        ex.setnode(lv.rid, Lib('string', {'s': s}, nd.ty) if 'arr' in nd.p else nd.w(s=s))

    @L.meth('string', 'size', 'length')
    def _(ex, this, nodes, n):
        nd = ex.node(this.rid) if isinstance(this, LV) and this.idx is None else None
        if isinstance(nd, Lib) and 'len' in nd.p:
            return nd.p['len']
        return slen(s_of(ex, this))

    @L.meth('string', 'empty')
    def _(ex, this, nodes, n):
        return eq(slen(s_of(ex, this)), 0)

    @L.meth('string', 'begin', 'cbegin')
    def _(ex, this, nodes, n):
        return Ptr(this.rid, 0)

    @L.meth('string', 'end', 'cend')
    def _(ex, this, nodes, n):
        nd = ex.node(this.rid)
        return Ptr(this.rid, nd.p['len'] if 'len' in nd.p else slen(nd.p['s']))

    @L.meth('string', 'clear')
    def _(ex, this, nodes, n):
        setstr(ex, this, '')

    @L.meth('string', 'c_str', 'data')
    def _(ex, this, nodes, n):
        s = s_of(ex, this)
        if isinstance(s, str):
            return Ptr(ex.strlit(s), 0)

        def get(k):
            return z3.If(toz(k) < z3.Length(s), z3.StrToCode(z3.SubString(s, toz(k), 1)), z3.IntVal(0))
        r = ex.put(Arr(add(slen(s), 1), BaseArr(get), CHAR), 'static')
        ex.S.ghost[('str', r)] = s
        return Ptr(r, 0)

    @L.meth('string', 'append', 'push_back')
    def _(ex, this, nodes, n):
        v = ex.ev(nodes[0])
        if isinstance(v, LV) and isinstance(ex.S.mem.get(v.rid), Cell):
            v = ex.read(v)
        if push_char(ex, this, v):
            return this
        setstr(ex, this, scat(s_of(ex, this), sval(ex, v)))
        return this

    @L.meth('string', 'assign')
    def _(ex, this, nodes, n):
        vs = [ex.ev(x) for x in nodes]
        vs = [ex.read(v) if isinstance(v, LV) and isinstance(ex.S.mem.get(v.rid), Cell) else v for v in vs]
        if len(vs) == 1:
            setstr(ex, this, sval(ex, vs[0]))
        elif len(vs) == 2 and is_conc(vs[0]) and vs[0] == 1:
            setstr(ex, this, char_str(vs[1]))
        elif len(vs) == 2 and isinstance(vs[0], Ptr) and from_chars(ex, *vs) is not None:
            ex.setnode(this.rid, Lib('string', from_chars(ex, *vs).p, ex.node(this.rid).ty))
        else:
            raise Unsupported('string::assign')
        return this

    @L.meth('string', 'compare')
    def _(ex, this, nodes, n):
        if len(nodes) != 1:
            raise Unsupported('compare')
        a, b = s_of(ex, this), sval(ex, ex.ev(nodes[0]))
        if isinstance(a, str) and isinstance(b, str):
            return (a > b) - (a < b)
        return z3.If(toz(a) == toz(b), z3.IntVal(0), z3.If(toz(a) < toz(b), z3.IntVal(-1), z3.IntVal(1)))

    @L.meth('string', 'substr')
    def _(ex, this, nodes, n):
        a = L.args(ex, [x for x in nodes if x['kind'] != 'CXXDefaultArgExpr'])
        s = s_of(ex, this)
        i = a[0] if a else 0
        if isinstance(s, str) and all(is_conc(x) for x in a):
            return mkstr(ex, s[int(i):] if len(a) < 2 else s[int(i):int(i) + int(a[1])])
        return mkstr(ex, z3.SubString(toz(s), toz(i), toz(a[1]) if len(a) > 1 else z3.Length(toz(s)) - toz(i)))

    def o_assign(ex, nodes, n):
        v = ex.ev(nodes[1])
        lv = ex.lval(nodes[0])
        nd = ex.node(lv.rid)
        if lv.idx is None and isinstance(nd, Lib) and nd.kind == 'string':
            if share_chars(ex, lv, v):
                return lv
            if isinstance(v, LV) and isinstance(ex.S.mem.get(v.rid), Cell):
                v = ex.read(v)
            try:
                s_ = sval(ex, v)
            except Unsupported:
                fc = from_chars(ex, v)
                if fc is None:
                    raise
                ex.setnode(lv.rid, Lib('string', fc.p, nd.ty))
                return lv
            setstr(ex, lv, s_)
            return lv
        if lv.idx is None and isinstance(nd, Lib) and isinstance(v, LV) and v.idx is None and isinstance(ex.node(v.rid), Lib):
            ex.setnode(lv.rid, L.copy(ex, ex.node(v.rid)))
            return lv
        if isinstance(v, LV):
            v = ex.read(v)
        if isinstance(v, Ptr) or is_conc(v) or isinstance(v, Z):
            ex.write(lv, v)
            return lv
        raise Unsupported('library assignment')
    L.ops['operator='] = o_assign

    def strcmp_op(neg_):
        def f(ex, nodes, n):
            a, b = ex.ev(nodes[0]), ex.ev(nodes[1])
            ta, tb = [ex.S.mem.get(x.rid) if isinstance(x, LV) else None for x in (a, b)]
            if isinstance(ta, Lib) and ta.kind == 'typeinfo' and isinstance(tb, Lib) and tb.kind == 'typeinfo':
                r = ta.p['t'] == tb.p['t']
                return not r if neg_ else r
            pa, pb = iterval(ex, a), iterval(ex, b)
            if pa is not None and pb is not None:
                r = ex.ptr_eq(pa, pb)
            else:
                r = seq(sval(ex, a), sval(ex, b))
            return not_(r) if neg_ else r
        return f
    L.ops['operator=='] = strcmp_op(False)
    L.ops['operator!='] = strcmp_op(True)

    def o_plus(ex, nodes, n):
        a, b = ex.ev(nodes[0]), ex.ev(nodes[1])
        ia = iterval(ex, a)
        if ia is not None and not is_stringty(ex.prog.ty(n['type'])):
            if isinstance(b, LV):
                b = ex.read(b)
            return ex.padd(ia, b)
        a = ex.read(a) if isinstance(a, LV) and isinstance(ex.S.mem.get(a.rid), Cell) else a
        b = ex.read(b) if isinstance(b, LV) and isinstance(ex.S.mem.get(b.rid), Cell) else b
        return mkstr(ex, scat(sval(ex, a), sval(ex, b)))
    L.ops['operator+'] = o_plus

    def o_pluseq(ex, nodes, n):
        b = ex.ev(nodes[1])
        lv = ex.lval(nodes[0])
        b = ex.read(b) if isinstance(b, LV) and isinstance(ex.S.mem.get(b.rid), Cell) else b
        nd = ex.node(lv.rid)
        if isinstance(nd, Lib) and nd.kind == 'string':
            if push_char(ex, lv, b):
                return lv
            setstr(ex, lv, scat(nd.p['s'], sval(ex, b)))
            return lv
        it = iterval(ex, lv)
        if it is not None:
            ex.write(lv, ex.padd(it, b))
            return lv
        raise Unsupported('library operator+=')
    L.ops['operator+='] = o_pluseq

    def o_index(ex, nodes, n):
        lv = ex.lval(nodes[0])
        i = ex.ev(nodes[1])
        if isinstance(i, LV):
            i = ex.read(i)
        nd = ex.node(lv.rid)
        if isinstance(nd, Lib):
            e = L.elem_lv(ex, lv.rid, nd, i)
            if e is not None:
                return e
            return LV(lv.rid, i)
        raise Unsupported('library operator[]')
    L.ops['operator[]'] = o_index

    @L.fn('to_string')
    def _(ex, nodes, n):
        a = L.args(ex, nodes)[0]
        if isinstance(a, int) and not isinstance(a, bool):
            return mkstr(ex, str(a))
        if isinstance(a, Z) and a.sort() == z3.IntSort():
            return mkstr(ex, z3.If(a >= 0, z3.IntToStr(a), z3.Concat(z3.StringVal('-'), z3.IntToStr(-a))))
        raise Unsupported('to_string')

    @L.meth('string', 'at')
    def _(ex, this, nodes, n):
        i = L.args(ex, nodes)[0]
        nd = ex.node(this.rid)
        ln = nd.p['len'] if 'len' in nd.p else (len(nd.p['s']) if isinstance(nd.p['s'], str) else z3.Length(nd.p['s']))
        ok = and_(le(0, i), lt(i, ln))
        if ex.decide(ok) is not True and not ex.branch(ok):
            from interp import CxxThrow
            raise CxxThrow('std::out_of_range', None)
        e = L.elem_lv(ex, this.rid, nd, i)
        return e if e is not None else LV(this.rid, i)

    @L.meth('string', 'find')
    def _(ex, this, nodes, n):
        nodes = [x for x in nodes if x['kind'] != 'CXXDefaultArgExpr']
        v = ex.ev(nodes[0])
        if isinstance(v, LV) and isinstance(ex.S.mem.get(v.rid), Cell):
            v = ex.read(v)
        if len(nodes) > 1:
            raise Unsupported('string::find from a position')
        s, t = s_of(ex, this), sval(ex, v)
        if isinstance(s, str) and isinstance(t, str):
            return s.find(t) if t in s else 2 ** 64 - 1
        r = ex.fint('find', 0, 2 ** 64 - 1)
        ex.assume(z3.If(z3.Contains(toz(s), toz(t)), z3.And(toz(r) == z3.IndexOf(toz(s), toz(t), 0), toz(r) < z3.Length(toz(s)) + 1, toz(r) < 2 ** 62), toz(r) == 2 ** 64 - 1))
        return r

    def last_of(ex, this, nodes, n):
        nodes = [x for x in nodes if x['kind'] != 'CXXDefaultArgExpr']
        v = ex.ev(nodes[0])
        if isinstance(v, LV) and isinstance(ex.S.mem.get(v.rid), Cell):
            v = ex.read(v)
        s, t = s_of(ex, this), chr(v) if isinstance(v, int) else sval(ex, v)
        if len(nodes) > 1 or not isinstance(t, str) or len(t) != 1:
            raise Unsupported('string::find_last_of')
        if isinstance(s, str):
            return s.rfind(t) if t in s else 2 ** 64 - 1
        z = toz(s)
        if ex.branch(z3.Contains(z, z3.StringVal(t))):
            a, b = ex.fresh('before', z3.StringSort()), ex.fresh('after', z3.StringSort())
            ex.assume(z3.And(z == z3.Concat(a, z3.StringVal(t), b), z3.Not(z3.Contains(b, z3.StringVal(t))), z3.Length(z) < 2 ** 40))
            return z3.Length(a)
        return 2 ** 64 - 1
    L.methods[('string', 'find_last_of')] = L.methods[('string', 'rfind')] = last_of

    # numbers in strings: the C library's conversion of the longest numeric prefix
    def conv_common(ex, nodes):
        nodes = [x for x in nodes if x['kind'] != 'CXXDefaultArgExpr']
        s = toz(sval(ex, ex.ev(nodes[0])))
        end = None
        if len(nodes) > 1:
            end = ex.ev(nodes[1])
            if isinstance(end, LV):
                end = ex.read(end)
        if len(nodes) > 2:
            b = L.args(ex, nodes[2:])[0]
            if not (is_conc(b) and b == 10):
                raise Unsupported('base of a number')
        return s, end

    def conv_end(ex, p, e, s):
        ex.assume(z3.And(e >= 1, e <= z3.Length(s)))
        if isinstance(p, Ptr) and p.rid is not None:
            ex.write(ex.deref(p), e)

    def sto_int(bits, signed):
        def f(ex, nodes, n):
            from interp import CxxThrow
            s, end = conv_common(ex, nodes)
            if not ex.branch(INTOK(s)):
                raise CxxThrow('std::invalid_argument', None)
            v = INTV(s)
            ex.assume(z3.Implies(v < 0, z3.Contains(s, z3.StringVal('-'))))
            if signed:
                ok = z3.And(v >= -2 ** (bits - 1), v < 2 ** (bits - 1))
            else:
                ok = z3.And(v > -2 ** bits, v < 2 ** bits)
            if not ex.branch(ok):
                raise CxxThrow('std::out_of_range', None)
            conv_end(ex, end, INTEND(s), s)
            return v if signed else z3.If(v < 0, v + 2 ** bits, v)
        return f
    L.fn('stoi')(sto_int(32, True))
    L.fn('stol', 'stoll')(sto_int(64, True))
    L.fn('stoul', 'stoull')(sto_int(64, False))

    def sto_real(kind):
        def f(ex, nodes, n):
            from interp import CxxThrow
            s, end = conv_common(ex, nodes)
            if not ex.branch(REALOK(s)):
                raise CxxThrow('std::invalid_argument', None)
            if ex.branch(REALRANGE(s, kind)):
                raise CxxThrow('std::out_of_range', None)
            conv_end(ex, end, REALEND(s), s)
            return REALV(s, kind)
        return f
    L.fn('stod')(sto_real(8))
    L.fn('stof')(sto_real(4))
    L.fn('stold')(sto_real(10))

    # -------------------------------------------------------------- vectors
    def ety(ex, ty):
        return ex.prog._ty(L.targs(ty)[0])

    def d_vector(ex, ty, init, name):
        e = ety(ex, ty)
        vl = ex.opts.get('veclog')          # vectors of objects seen as an abstract sequence
        if vl and e.k == 'ptr' and e.sub.name == vl.cls:
            return Lib('vector', {'size': 0, 'log': vl.empty, 'ety': e}, ty)
        if e.k in ('int', 'real', 'bool', 'ptr') or L.is_str(e):
            if init == 'sym' and e.k != 'ptr':
                n = ex.fint(name + '.size', 0)
                ex.assume(le(n, 2 ** 40))
                return Lib('vector', {'size': n, 'a': ex.sym_arr(e, name), 'ety': e}, ty)
            return Lib('vector', {'size': 0, 'a': UninitArr(), 'ety': e}, ty)
        return Lib('vector', {'els': (), 'ety': e}, ty)
    L.defaults['vector'] = d_vector

    def zero_of(e):
        return {'int': 0, 'bool': False, 'real': Fraction(0)}.get(e.k, NULL)

    def c_vector(ex, ty, nodes, n):
        nodes = [a for a in nodes if a['kind'] != 'CXXDefaultArgExpr']
        e = ety(ex, ty)
        if not nodes:
            return LV(ex.put(d_vector(ex, ty, 'ctor', 'v')))
        vs = [ex.ev(a) for a in nodes]
        v0 = vs[0]
        if isinstance(v0, LV) and isinstance(ex.node(v0.rid), Lib) and ex.node(v0.rid).kind == 'vector':
            return LV(ex.put(L.copy(ex, ex.node(v0.rid))))
        vs = [ex.read(v) if isinstance(v, LV) else v for v in vs]
        if e.k in ('int', 'real', 'bool', 'ptr') and (is_conc(vs[0]) or isinstance(vs[0], Z)):
            z = vs[1] if len(vs) > 1 else zero_of(e)
            return LV(ex.put(Lib('vector', {'size': vs[0], 'a': BaseArr(lambda k, z=z: z), 'ety': e}, ty)))
        raise Unsupported('vector constructor')
    L.ctors['vector'] = c_vector

    def c_iter(ex, ty, nodes, n):       # conversion of iterator to const_iterator
        if not nodes:
            return UNINIT
        v = ex.ev(nodes[0])
        v = ex.read(v) if isinstance(v, LV) else v
        if not isinstance(v, Ptr):
            raise Unsupported('iterator conversion')
        return v
    L.ctors['__gnu_cxx::__normal_iterator'] = c_iter

    def copy_string(ex, nd):
        if 'arr' in nd.p and nd.p['s'] is None:
            a = ex.node(nd.p['arr'])
            q = {'s': None, 'arr': ex.put(Arr(a.n, a.a, a.ty)), 'len': nd.p['len']}
            if 'first' in nd.p:
                q['first'] = nd.p['first']
            return Lib('string', q, nd.ty)
        return Lib('string', {'s': nd.p['s']}, nd.ty)
    L.copy_string = copy_string

    def copy_vector(ex, nd):
        if 'els' in nd.p:
            return nd.w(els=tuple(ex.clone_region(r) for r in nd.p['els']))
        return nd
    L.copy_vector = copy_vector

    def vsize(nd):
        return len(nd.p['els']) if 'els' in nd.p else nd.p['size']

    @L.meth('vector', 'size')
    def _(ex, this, nodes, n):
        return vsize(ex.node(this.rid))

    @L.meth('vector', 'empty')
    def _(ex, this, nodes, n):
        return eq(vsize(ex.node(this.rid)), 0)

    @L.meth('vector', 'push_back', 'emplace_back')
    def _(ex, this, nodes, n):
        v = ex.ev(nodes[0])
        nd = ex.node(this.rid)
        if 'log' in nd.p:
            v = ex.read(v) if isinstance(v, LV) else v
            ex.setnode(this.rid, nd.w(size=add(nd.p['size'], 1), log=ex.opts['veclog'].push(ex, nd, v)))
            return None
        if 'els' in nd.p:
            r = v.rid if ex.is_temp(nodes[0]) else ex.clone_region(v.rid)
            ex.setnode(this.rid, nd.w(els=nd.p['els'] + (r,)))
            return None
        if L.is_str(nd.p['ety']):
            ex.setnode(this.rid, nd.w(size=add(nd.p['size'], 1), a=nd.p['a'].store(nd.p['size'], sval(ex, v))))
            return None
        if isinstance(v, LV):
            v = ex.read(v)
        ex.setnode(this.rid, nd.w(size=add(nd.p['size'], 1), a=nd.p['a'].store(nd.p['size'], ex.conv(v, nd.p['ety']))))

    @L.meth('vector', 'pop_back')
    def _(ex, this, nodes, n):
        nd = ex.node(this.rid)
        ex.oblige(lt(0, vsize(nd)), 'vector is not empty')
        if 'log' in nd.p:
            ex.setnode(this.rid, nd.w(size=sub(nd.p['size'], 1), log=ex.opts['veclog'].pop(ex, nd)))
            return
        if 'els' in nd.p:
            ex.setnode(this.rid, nd.w(els=nd.p['els'][:-1]))
        else:
            ex.setnode(this.rid, nd.w(size=sub(nd.p['size'], 1)))

    @L.meth('vector', 'clear')
    def _(ex, this, nodes, n):
        nd = ex.node(this.rid)
        if 'log' in nd.p:
            ex.setnode(this.rid, nd.w(size=0, log=ex.opts['veclog'].empty))
            return
        ex.setnode(this.rid, nd.w(els=()) if 'els' in nd.p else nd.w(size=0, a=UninitArr()))

    @L.meth('vector', 'reserve', 'shrink_to_fit')
    def _(ex, this, nodes, n):
        return None

    @L.meth('vector', 'at')
    def _(ex, this, nodes, n):
        i = L.args(ex, nodes)[0]
        nd = ex.node(this.rid)
        if not ex.branch(and_(le(0, i), lt(i, vsize(nd)))):
            from interp import CxxThrow
            raise CxxThrow('std::out_of_range', None)
        return elem(ex, this, i)

    def elem(ex, this, i):
        nd = ex.node(this.rid)
        e = L.elem_lv(ex, this.rid, nd, i)
        return e if e is not None else LV(this.rid, i)

    @L.meth('vector', 'back')
    def _(ex, this, nodes, n):
        nd = ex.node(this.rid)
        if 'log' in nd.p:
            ex.oblige(lt(0, nd.p['size']), 'vector is not empty')
            return LV(ex.put(Cell(ex.opts['veclog'].back(ex, nd), nd.p['ety'])))
        return elem(ex, this, sub(vsize(nd), 1))

    @L.meth('vector', 'front')
    def _(ex, this, nodes, n):
        return elem(ex, this, 0)

    @L.meth('vector', 'data')
    def _(ex, this, nodes, n):
        return Ptr(this.rid, 0)

    @L.meth('vector', 'begin', 'cbegin')
    def _(ex, this, nodes, n):
        return Ptr(this.rid, 0)

    @L.meth('vector', 'end', 'cend')
    def _(ex, this, nodes, n):
        return Ptr(this.rid, vsize(ex.node(this.rid)))

    @L.meth('vector', 'resize')
    def _(ex, this, nodes, n):
        a = L.args(ex, [x for x in nodes if x['kind'] != 'CXXDefaultArgExpr'])
        nd = ex.node(this.rid)
        if 'els' in nd.p:
            raise Unsupported('resize')
        z = a[1] if len(a) > 1 else zero_of(nd.p['ety'])
        old = nd.p['size']
        ex.setnode(this.rid, nd.w(size=a[0], a=MapArr(old, a[0], lambda k: z, nd.p['a'])))

    @L.meth('vector', 'insert')
    def _(ex, this, nodes, n):
        it = iterval(ex, ex.ev(nodes[0]))
        nd = ex.node(this.rid)
        if len(nodes) == 3 and it is not None and it.rid == this.rid and 'els' not in nd.p:
            b, e = iterval(ex, ex.ev(nodes[1])), iterval(ex, ex.ev(nodes[2]))
            if b is None or e is None or b.rid != e.rid or b.rid == this.rid:
                raise Unsupported('vector::insert of a range')
            src = ex.node(b.rid)
            if 'log' in nd.p and 'log' in src.p:
                whole = [x.off if x.off is not None else 0 for x in (it, b, e)]
                ex.oblige(and_(eq(whole[0], nd.p['size']), eq(whole[1], 0), eq(whole[2], src.p['size'])), 'whole vector is inserted at the end')
                ex.setnode(this.rid, nd.w(size=add(nd.p['size'], src.p['size']), log=ex.opts['veclog'].cat(ex, nd, src)))
                return Ptr(this.rid, whole[0])
            sz, a, k0 = nd.p['size'], nd.p['a'], it.off if it.off is not None else 0
            b0, e0 = [x.off if x.off is not None else 0 for x in (b, e)]
            ex.oblige(eq(k0, sz), 'range is inserted at the end')
            ex.oblige(and_(le(0, b0), le(b0, e0), le(e0, src.p['size'])), 'inserted range is valid')
            cnt = sub(e0, b0)
            ex.setnode(this.rid, nd.w(size=add(sz, cnt), a=MapArr(sz, add(sz, cnt), lambda k: src.p['a'].get(add(sub(k, sz), b0)), a)))
            return Ptr(this.rid, k0)
        if 'els' in nd.p or it is None or it.rid != this.rid or len(nodes) != 2:
            raise Unsupported('vector::insert')
        v = ex.ev(nodes[1])
        if isinstance(v, LV):
            v = ex.read(v)
        k0 = it.off if it.off is not None else 0
        sz, a = nd.p['size'], nd.p['a']
        ex.oblige(and_(le(0, k0), le(k0, sz)), 'insert position within the vector')
        v = ex.conv(v, nd.p['ety'])
        from loops import DECIDED
        sh = MapArr(add(k0, 1), add(sz, 1), lambda k: DECIDED(ex, a, sub(k, 1)), a)
        ex.setnode(this.rid, nd.w(size=add(sz, 1), a=sh.store(k0, v)))
        return Ptr(this.rid, k0)

    @L.meth('vector', 'erase')
    def _(ex, this, nodes, n):
        it = iterval(ex, ex.ev(nodes[0]))
        nd = ex.node(this.rid)
        if it is None or it.rid != this.rid or len(nodes) != 1:
            raise Unsupported('vector::erase')
        k0 = it.off if it.off is not None else 0
        if 'els' in nd.p:
            if not isinstance(k0, int):
                raise Unsupported('erase')
            els = nd.p['els']
            ex.setnode(this.rid, nd.w(els=els[:k0] + els[k0 + 1:]))
            return Ptr(this.rid, k0)
        sz, a = nd.p['size'], nd.p['a']
        ex.oblige(and_(le(0, k0), lt(k0, sz)), 'erase position within the vector')
        from loops import DECIDED
        ex.setnode(this.rid, nd.w(size=sub(sz, 1), a=MapArr(k0, sub(sz, 1), lambda k: DECIDED(ex, a, add(k, 1)), a)))
        return Ptr(this.rid, k0)

    def iterval(ex, v):
        if isinstance(v, LV) and v.idx is None:
            nd = ex.S.mem.get(v.rid)
            if isinstance(nd, Cell):
                v = nd.v
        return v if isinstance(v, Ptr) else None

    def o_inc(d):
        def f(ex, nodes, n):
            lv = ex.lval(nodes[0])
            old = ex.read(lv)
            if not isinstance(old, Ptr):
                raise Unsupported('library operator++')
            ex.write(lv, ex.padd(old, d))
            return old if len(nodes) > 1 else lv
        return f
    L.ops['operator++'] = o_inc(1)
    L.ops['operator--'] = o_inc(-1)

    def o_deref(ex, nodes, n):
        if len(nodes) == 1:
            p = iterval(ex, ex.ev(nodes[0]))
            if p is not None:
                return ex.deref(p)
        raise Unsupported('library operator*')
    L.ops['operator*'] = o_deref

    def o_arrow(ex, nodes, n):
        p = iterval(ex, ex.ev(nodes[0]))
        if p is not None:
            lv = ex.deref(p)
            return Ptr(lv.rid, lv.idx)
        raise Unsupported('library operator->')
    L.ops['operator->'] = o_arrow

    def o_minus(ex, nodes, n):
        a, b = ex.ev(nodes[0]), ex.ev(nodes[1])
        pa, pb = iterval(ex, a), iterval(ex, b)
        if pa is None:
            raise Unsupported('library operator-')
        if pb is not None:
            return ex.ptrop('-', pa, pb)
        if isinstance(b, LV):
            b = ex.read(b)
        return ex.padd(pa, neg(b))
    L.ops['operator-'] = o_minus

    L.iterval = iterval
    L.sval = sval

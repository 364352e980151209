"""Text files as std::fstream writes and reads them, and std::map with string keys (assumed contracts of the standard library).

Output is a sequence of tokens: words, numbers and line ends.  Input is a sequence of lines of tokens separated by white space.
"""
from fractions import Fraction
import z3
from terms import *
from values import *
from program import Ty
from stdlib import sval, mkstr, scat, slen

IS, RS, SS, BS = z3.IntSort(), z3.RealSort(), z3.StringSort(), z3.BoolSort()
NL, NUM, WORD = 0, 1, 2
INT = Ty('int', 'int', bits=32, signed=True)
REAL = Ty('real', 'double')
ROUND = z3.Function('rounded', RS, IS, RS)          # value that a number printed with so many digits is read as
NLINES = z3.Int('lines')
NTOK = z3.Function('tokens', IS, IS)                # of a line
TWORD = z3.Function('word', IS, IS, SS)             # token of a line
ISNUM, TNUM = z3.Function('is_number', IS, IS, BS), z3.Function('number', IS, IS, RS)
ISINT, TINT = z3.Function('is_integer', IS, IS, BS), z3.Function('integer', IS, IS, IS)
LTEXT = z3.Function('text_of_line', IS, SS)
CANOPEN = z3.Function('can_open', SS, IS, BS)
MODES = {'in': 8, 'out': 16, 'trunc': 32, 'app': 1, 'ate': 2, 'binary': 4}


def install(L):
    def d_fstream(ex, ty, init, name):
        if init == 'sym':
            n0 = ex.fint('written', 0)
            ex.assume(le(n0, 2 ** 60))
            a = [ex.put(Arr(2 ** 62, ex.sym_arr(t, 't'), t)) for t in (INT, REAL)]
            a.append(ex.put(Arr(2 ** 62, UninitArr(), Ty('lib', 'std::string'))))
            return Lib('fstream', {'tk': a[0], 'tn': a[1], 'ts': a[2], 'size': n0, 'unfinished': False, 'prec': ex.fint('digits', 1, 100), 'lno': ex.fint('line', 0), 'ok': True, 'open': True, 'mode': 0, 'name': ''}, ty)
        return Lib('opaque', {'kindname': 'fstream'}, ty)
    L.defaults['basic_fstream'] = L.defaults['fstream'] = d_fstream

    def c_ofstream(ex, ty, nodes, n):
        nodes = [x for x in nodes if x['kind'] != 'CXXDefaultArgExpr']
        a = [ex.put(Arr(2 ** 62, ex.sym_arr(t, 't'), t)) for t in (INT, REAL)] + [ex.put(Arr(2 ** 62, UninitArr(), Ty('lib', 'std::string')))]
        nd = Lib('fstream', {'tk': a[0], 'tn': a[1], 'ts': a[2], 'size': 0, 'unfinished': False, 'prec': 6, 'lno': 0, 'ok': True, 'open': False, 'mode': 0, 'name': '', 'omode': 16}, ty)
        if nodes:
            v = sval(ex, ex.ev(nodes[0]))
            if len(nodes) > 1:
                raise Unsupported('mode of a file')
            nd = nd.w(open=CANOPEN(toz(v), z3.IntVal(16)), mode=16, name=v)
        rid = ex.put(nd)
        ex.S.ghost['ofstream'] = ex.S.ghost.get('ofstream', ()) + (rid,)
        return LV(rid)
    L.ctors['basic_ofstream'] = L.ctors['ofstream'] = c_ofstream

    def put(ex, lv, kind, num=None, s=None):
        nd = ex.node(lv.rid)
        if nd.p['open'] is not True:
            ex.oblige(nd.p['open'], 'file is open when it is written')
        p, n = nd.p, nd.p['size']
        ex.write(LV(p['tk'], n), kind)
        if num is not None:
            ex.write(LV(p['tn'], n), num)
        if s is not None:
            a = ex.node(p['ts'])
            ex.setnode(p['ts'], Arr(a.n, a.a.store(n, s), a.ty))
        ex.setnode(lv.rid, ex.node(lv.rid).w(size=add(n, 1), unfinished=kind != NL))

    def text(ex, lv, s):
        """a literal"""
        cur = ''
        for ch in s:
            if ch in ' \t\n\r':
                if cur:
                    word(ex, lv, cur)
                    cur = ''
                ex.setnode(lv.rid, ex.node(lv.rid).w(unfinished=False))
                if ch == '\n':
                    put(ex, lv, NL)
            else:
                cur += ch
        if cur:
            word(ex, lv, cur)

    def word(ex, lv, s):
        if isinstance(s, str) and s.isdigit():
            return number(ex, lv, int(s), False)
        ex.oblige(not_(ex.node(lv.rid).p['unfinished']), 'text written is separated from what precedes it')
        put(ex, lv, WORD, s=s)

    def number(ex, lv, v, real):
        nd = ex.node(lv.rid)
        ex.oblige(not_(nd.p['unfinished']), 'number written is separated from what precedes it')
        z = toz(v, True)
        if real:
            pr = nd.p['prec']
            if ex.decide(le(17, pr)) is not True:
                z = z3.If(toz(pr) >= 17, z, ROUND(z, toz(pr)))
        put(ex, lv, NUM, num=z)

    old = L.ops.get('operator<<')

    def is_endl(node):
        x = node
        while x.get('inner') and x['kind'] != 'DeclRefExpr':
            x = x['inner'][0]
        return x['kind'] == 'DeclRefExpr' and x['referencedDecl']['name'] in ('endl',)

    def o_shl(ex, nodes, n):
        a = ex.ev(nodes[0])
        nd = ex.S.mem.get(a.rid) if isinstance(a, LV) else None
        if not (isinstance(nd, Lib) and nd.kind == 'fstream'):
            return old(ex, nodes, n, a)
        x = nodes[1]
        if is_endl(x):
            put(ex, a, NL)
            return a
        ty = ex.prog.ty(x['type'])
        v = ex.ev(x)
        w = ex.S.mem.get(v.rid) if isinstance(v, LV) and v.idx is None else None
        if isinstance(v, LV) and not (isinstance(w, Lib) and w.kind == 'string') and not isinstance(w, Arr):
            v = ex.read(v)
        if ty.k == 'real':
            number(ex, a, v, True)
        elif ty.k == 'int' and ty.bits == 8:
            if not is_conc(v):
                raise Unsupported('character written')
            text(ex, a, chr(int(v)))
        elif ty.k == 'int':
            number(ex, a, v, False)
        elif isinstance(v, Ptr) or isinstance(v, LV):
            s = sval(ex, v)
            if isinstance(s, str):
                text(ex, a, s)
            else:
                word(ex, a, s)          # variable names: not empty, without white space
        else:
            raise Unsupported('formatted output')
        return a
    L.ops['operator<<'] = o_shl

    @L.meth('fstream', 'put')
    def _(ex, this, nodes, n):
        v = L.args(ex, nodes)[0]
        if not is_conc(v):
            raise Unsupported('character written')
        text(ex, this, chr(int(v)))
        return this

    @L.meth('fstream', 'flush')
    def _(ex, this, nodes, n):
        return this

    @L.meth('fstream', 'precision')
    def _(ex, this, nodes, n):
        nd = ex.node(this.rid)
        if nodes:
            v = L.args(ex, nodes)[0]
            ex.setnode(this.rid, nd.w(prec=v))
        return nd.p['prec']

    @L.meth('fstream', 'is_open', 'good')
    def _(ex, this, nodes, n):
        return ex.node(this.rid).p['open']

    @L.meth('fstream', 'open')
    def _(ex, this, nodes, n):
        nodes = [x for x in nodes if x['kind'] != 'CXXDefaultArgExpr']
        s = sval(ex, ex.ev(nodes[0]))
        m = L.args(ex, nodes[1:])[0] if len(nodes) > 1 else ex.node(this.rid).p.get('omode', MODES['in'] | MODES['out'])
        if not is_conc(m):
            raise Unsupported('mode of a file')
        nd = ex.node(this.rid)
        ex.oblige(not_(nd.p['open']), 'stream is not open already')
        ex.setnode(this.rid, nd.w(open=CANOPEN(toz(s), z3.IntVal(int(m))), mode=int(m), name=s))

    @L.meth('fstream', 'close')
    def _(ex, this, nodes, n):
        ex.setnode(this.rid, ex.node(this.rid).w(open=False))

    def mode_op(ex, nodes, n):
        a, b = L.args(ex, nodes)
        if is_conc(a) and is_conc(b):
            return int(a) | int(b)
        raise Unsupported('library operator |')
    L.ops['operator|'] = mode_op
    for k, v in MODES.items():
        def gl(ex, v=v):
            key = ('g', 'openmode', v)
            if key not in ex.S.ghost:
                ex.S.ghost[key] = LV(ex.put(Cell(v, INT), 'static'))
            return ex.S.ghost[key]
        L.globals.setdefault(k, gl)
        L.globals.setdefault('_S_' + k, gl)

    # ---------------------------------------------------------------- input
    def getline(ex, nodes, n):
        a = ex.ev(nodes[0])
        s = ex.lval(nodes[1])
        nd = ex.node(a.rid)
        if len(nodes) > 2 or nd.kind != 'fstream':
            raise Unsupported('getline')
        l = nd.p['lno']
        st = ex.node(s.rid)
        if ex.branch(and_(nd.p['ok'], lt(l, NLINES))):
            ex.setnode(s.rid, Lib('string', {'s': LTEXT(toz(l))}, st.ty))
            ex.assume(z3.And(NTOK(toz(l)) >= 0, z3.Implies(z3.Length(LTEXT(toz(l))) == 0, NTOK(toz(l)) == 0)))
            ex.setnode(a.rid, nd.w(lno=add(l, 1)))
        else:
            ex.setnode(a.rid, nd.w(ok=False))
            ex.setnode(s.rid, Lib('string', {'s': ''}, st.ty) if _empty(st) else Lib('string', {'s': st.p['s']}, st.ty))
        return a
    L.fns['getline'] = getline

    def _empty(st):
        return 'arr' in st.p or isinstance(st.p['s'], str) and st.p['s'] == ''

    oldss = L.ctors['basic_stringstream']

    def c_sstream(ex, ty, nodes, n):
        nodes = [a for a in nodes if a['kind'] != 'CXXDefaultArgExpr']
        if not nodes:
            return oldss(ex, ty, nodes, n)
        v = ex.ev(nodes[0])
        nd = ex.node(v.rid)
        t = nd.p.get('s') if isinstance(nd, Lib) and nd.kind == 'string' else None
        if isinstance(t, Z) and z3.is_app(t) and t.decl().eq(LTEXT):
            l = t.arg(0)
        elif isinstance(t, str) and t == '':
            l = -1
        else:
            raise Unsupported('stringstream of a text')
        if is_conc(l) and l == -1:
            ex.assume(NTOK(z3.IntVal(-1)) == 0)
        return LV(ex.put(Lib('tstream', {'line': l, 'tok': 0, 'ok': True}, ty)))
    for k in ('basic_stringstream', 'stringstream', 'basic_istringstream', 'istringstream'):
        L.ctors[k] = c_sstream

    def ready(ex, a):
        nd = ex.S.mem.get(a.rid) if isinstance(a, LV) else None
        if not isinstance(nd, Lib) or nd.kind not in ('tstream', 'fstream'):
            raise Unsupported('state of a stream')
        return nd.p['ok']

    def o_shr(ex, nodes, n):
        a = ex.ev(nodes[0])
        nd = ex.S.mem.get(a.rid) if isinstance(a, LV) else None
        if not (isinstance(nd, Lib) and nd.kind == 'tstream'):
            raise Unsupported('library operator>>')
        dst = ex.lval(nodes[1])
        ty = ex.prog.ty(nodes[1]['type'])
        l, t = toz(nd.p['line']), toz(nd.p['tok'])
        if not ex.branch(nd.p['ok']):
            return a
        more = lt(t, NTOK(l))
        nx = nd.w(tok=add(nd.p['tok'], 1))
        bad = nd.w(ok=False)
        if ty.k == 'lib' and L.kind(ty) == 'string':
            if ex.branch(more):
                ex.setnode(a.rid, nx)
                ex.setnode(dst.rid, Lib('string', {'s': TWORD(l, t)}, ex.node(dst.rid).ty))
                ex.assume(z3.Length(TWORD(l, t)) >= 1)
            else:
                ex.setnode(a.rid, bad)
        elif ty.k == 'real':
            if ex.branch(and_(more, ISNUM(l, t))):
                ex.setnode(a.rid, nx)
                ex.write(dst, TNUM(l, t))
            else:
                ex.setnode(a.rid, bad)
                ex.write(dst, Fraction(0))
        elif ty.k == 'int' and ty.bits > 8:
            from interp import int_range
            lo, hi = int_range(ty)
            fit = z3.And(TINT(l, t) >= lo, TINT(l, t) <= hi)
            if ex.branch(and_(more, ISINT(l, t), fit)):
                ex.setnode(a.rid, nx)
                ex.write(dst, TINT(l, t))
            else:
                ex.setnode(a.rid, bad)
                v = ex.fint('garbage', lo, hi)
                ex.write(dst, v)
        else:
            raise Unsupported('library operator>>')
        return a
    L.ops['operator>>'] = o_shr

    def o_not(ex, nodes, n):
        return not_(ready(ex, ex.ev(nodes[0])))
    L.ops['operator!'] = o_not

    def m_bool(ex, this, nodes, n):
        return ready(ex, this)

    def m_fail(ex, this, nodes, n):
        return not_(ready(ex, this))
    for k in ('tstream', 'fstream'):
        L.methods[(k, 'operator bool')] = m_bool
        L.methods[(k, 'fail')] = m_fail

    # ------------------------------------------------------------------ maps
    # an unknown map: has(key) tells which keys it holds, and each key has one entry
    def d_map(ex, ty, init, name):
        if init != 'sym':
            raise Unsupported('map')
        ex.ncon += 1
        end = ex.put(Arr(0, UninitArr(), INT))
        return Lib('map', {'has': z3.Function('%s_has!%d' % (name, ex.ncon), SS, BS), 'name': name, 'end': end, 'ents': (), 'new': ()}, ty)
    L.defaults['map'] = d_map

    def entry(ex, this, key):
        nd = ex.node(this.rid)
        for k, r in nd.p['ents']:
            if k.eq(key):
                return r
        ts = L.targs(nd.ty)
        vt = ex.prog._ty(ts[1])
        mk = ex.opts.get('mapentry')
        if mk is None:
            raise Unsupported('map')
        r = ex.put(Lib('pair', {'first': mkstr(ex, key), 'second': mk(ex, nd.p['name'], vt, key)}))
        ex.setnode(this.rid, nd.w(ents=nd.p['ents'] + ((key, r),)))
        return r

    def has(ex, this, key):
        return ex.node(this.rid).p['has'](key)

    @L.meth('map', 'find')
    def _(ex, this, nodes, n):
        key = toz(sval(ex, ex.ev(nodes[0])))
        if ex.node(this.rid).p['new']:
            raise Unsupported('changed map')
        if ex.branch(has(ex, this, key)):
            return Ptr(entry(ex, this, key), 0)
        return Ptr(ex.node(this.rid).p['end'], 0)

    @L.meth('map', 'count')
    def _(ex, this, nodes, n):
        key = toz(sval(ex, ex.ev(nodes[0])))
        if ex.node(this.rid).p['new']:
            raise Unsupported('changed map')
        return z3.If(has(ex, this, key), z3.IntVal(1), z3.IntVal(0))

    @L.meth('map', 'end', 'cend')
    def _(ex, this, nodes, n):
        return Ptr(ex.node(this.rid).p['end'], 0)

    @L.meth('map', 'at')
    def _(ex, this, nodes, n):
        key = toz(sval(ex, ex.ev(nodes[0])))
        if not ex.branch(has(ex, this, key)):
            from interp import CxxThrow
            raise CxxThrow('std::out_of_range', None)
        return ex.node(entry(ex, this, key)).p['second']

    @L.meth('map', 'emplace')
    def _(ex, this, nodes, n):
        key = toz(sval(ex, ex.ev(nodes[0])))
        v = ex.ev(nodes[1])
        nd = ex.node(this.rid)
        ex.setnode(this.rid, nd.w(new=nd.p['new'] + ((key, ex.clone_region(v.rid)),)))
        return None

    for f in ('first', 'second'):
        L.members[('pair', f)] = lambda ex, lv, nd, f=f: nd.p[f]

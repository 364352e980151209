from frame import *
from P08 import cell, PT, inst_foralls
from P12 import fn
import loops
from stdlib import mkstr, sval

TITLE = 'Configuration tree'
HARNESS = dict(src='P14.cpp', link='all')
D = 'src/Configuration/'
CB = 'ConfigBlock'
SS = z3.StringSort()
NAME = z3.Function('name', z3.IntSort(), SS)          # of setting number k
BNAME = z3.Function('bname', z3.IntSort(), SS)        # of sub-block number k
BTYPE = z3.Function('btype', z3.IntSort(), z3.IntSort())
NVAL = z3.Function('nvalues', z3.IntSort(), z3.IntSort())
CNT = z3.Function('count', z3.IntSort(), z3.IntSort())
NM, NM2 = z3.Const('nm', SS), z3.Const('nm2', SS)
SIZET = Ty('int', 'unsigned long', bits=64, signed=False)
BOOLT = Ty('bool', 'bool')
X = z3.Int('X!')


def load(b):
    b.load([D + 'ConfigBlock.cpp', D + 'Setting.cpp', D + 'Configuration.cpp', D + 'Script/SettingScript.cpp'])


def off(p):
    return p.off if p.off is not None else 0


def truth_is(ex, v, f, label):
    ex.oblige(z3.And(z3.Implies(toz(truth(v)), toz(f)), z3.Implies(toz(f), toz(truth(v)))), label, 'post')


def strarg_(ex, s):
    return mkstr(ex, s)


def instk(ex, *js):
    """instances of the universal facts known, which are kept"""
    new = []
    for p in ex.S.pc:
        if isinstance(p, Z) and z3.is_quantifier(p) and p.is_forall() and p.num_vars() == 1 and p.var_sort(0) == z3.IntSort():
            new += [z3.substitute_vars(p.body(), toz(j)) for j in js]
    ex.S.pc = ex.S.pc + new


def units(b):
    out = []

    def meth(cls, name, np_=None, sig=None):
        r = [d for d in b.prog.find_fn(cls + '::' + name) if (b.prog.body(d) or cls == 'Setting') and (np_ is None or len(params(d)) == np_) and (sig is None or sig in d['type']['qualType'])]
        if not r:
            raise Unsupported('no %s::%s' % (cls, name))
        return r[0]

    class World:
        """a block with n settings and m sub-blocks, known by number"""

        def __init__(s, ex, n=None, m=None):
            s.o = LV(ex.alloc_rec(CB, 'sym', name='block'))
            s.par = ex.alloc_rec(CB, 'sym', name='parent')
            f = ex.fld(s.o, 'parent')
            s.hasparent = ex.branch(ex.fbool('hasparent'))
            ex.setnode(f.rid, Cell(Ptr(s.par) if s.hasparent else NULL, ex.node(f.rid).ty))
            s.n = ex.fint('n', 0, 2 ** 30) if n is None else n
            s.m = ex.fint('m', 0, 2 ** 30) if m is None else m
            s.sp = ex.put(Arr(2 ** 40, BaseArr(lambda k: 0), UINT))
            s.bp = ex.put(Arr(2 ** 40, BaseArr(lambda k: 0), UINT))
            s.touched = ex.put(Arr(2 ** 40, ex.sym_arr(BOOLT, 'touched'), BOOLT))
            s.over = ex.put(Arr(2 ** 40, BaseArr(lambda k: 0), UINT))     # 1 + what a setting was overwritten with
            for w, n_, r in (('settings', s.n, s.sp), ('subblocks', s.m, s.bp)):
                v = ex.fld(s.o, w)
                ex.setnode(v.rid, ex.node(v.rid).w(size=n_, a=BaseArr(lambda k, r=r: Ptr(r, k))))
            s.uniq(ex)
            ex.contracts = s.contracts()
            ex.S.ghost['deleted'] = ()

        def uniq(s, ex):
            # class invariant: names of settings, and of sub-blocks of a type, are unique
            I, J = z3.Ints('I! J!')
            ex.assume(z3.ForAll([I, J], z3.Implies(z3.And(0 <= I, I < J, J < toz(s.n)), NAME(I) != NAME(J)), patterns=[z3.MultiPattern(NAME(I), NAME(J))]))

        def nameof(s, ex, this):
            if this.rid == s.sp:
                return NAME(toz(this.idx))
            if this.rid == s.bp:
                return BNAME(toz(this.idx))
            return sval(ex, ex.fld(LV(this.rid), 'name'))

        def contracts(s):
            def hasname(ex, f, this, args):
                return toz(s.nameof(ex, this)) == toz(sval(ex, args[0]))

            def getname(ex, f, this, args):
                return mkstr(ex, s.nameof(ex, this))

            def touch(ex, f, this, args):
                ex.oblige(this.rid == s.sp, 'a setting of the block is touched', 'safety')
                ex.write(LV(s.touched, this.idx), True)

            def touched(ex, f, this, args):
                return ex.read(LV(s.touched, this.idx))

            def over(ex, f, this, args):
                a = ex.read(args[0])
                ex.oblige(this.rid == s.sp, 'a setting of the block is given the new values', 'post')
                w = s.newval(ex, a)
                ex.write(LV(s.over, this.idx), w)

            def hastype(ex, f, this, args):
                return s.typeof(ex, this) == toz(ex.read(args[0]))

            def hastn(ex, f, this, args):
                return z3.And(s.typeof(ex, this) == toz(ex.read(args[0])), toz(s.nameof(ex, this)) == toz(sval(ex, args[1])))

            def gettype(ex, f, this, args):
                return s.typeof(ex, this)

            def nval(ex, f, this, args):
                v = NVAL(toz(this.idx if this.idx is not None else -1))
                ex.assume(v >= 0)
                return v
            c = {meth('Setting', 'HasName')['_m']: hasname, meth('Setting', 'GetName')['_m']: getname, meth('Setting', 'Touch')['_m']: touch,
                 meth('Setting', 'Touched')['_m']: touched, meth('Setting', 'OverwriteValues')['_m']: over,
                 meth(CB, 'HasType')['_m']: hastype, meth(CB, 'HasTypeAndName')['_m']: hastn, meth(CB, 'GetType')['_m']: gettype,
                 meth(CB, 'GetName')['_m']: getname, meth('Setting', 'GetNumberOfValues')['_m']: nval}
            return c

        def newval(s, ex, a):
            if a.rid == s.sp:
                raise Unsupported('setting overwritten with itself')
            return 1

        def typeof(s, ex, this):
            if this.rid == s.bp:
                return BTYPE(toz(this.idx))
            return toz(ex.getf(LV(this.rid), 'type'))

    def absent(ex, n, f, label):
        """for all k in [0, n): not f(k)"""
        j = ex.fint('j', 0)
        ex.assume(lt(j, n))
        inst_foralls_keep(ex, j)
        ex.oblige(not_(f(toz(j))), label, 'post')

    def inst_foralls_keep(ex, *js):
        new = []
        for p in ex.S.pc:
            if isinstance(p, Z) and z3.is_quantifier(p) and p.is_forall() and p.num_vars() == 1 and p.var_sort(0) == z3.IntSort():
                new += [z3.substitute_vars(p.body(), toz(j)) for j in js]
        ex.S.pc = ex.S.pc + new

    def found(ex, w, pool, n, v, f, what):
        """v is the first element for which f holds, or null if there is none; returns its number"""
        ex.oblige(isinstance(v, Ptr) and (v.rid is None or v.rid == pool), what + ' returned is one of the block', 'post')
        if v.rid is None:
            absent(ex, n, f, what + ' is reported missing only if there is none')
            return None
        i = off(v)
        ex.oblige(and_(le(0, i), lt(i, n), f(toz(i))), what + ' returned is the one asked for', 'post')
        return i

    strarg = lambda ex, s: mkstr(ex, s)

    def u_getsetting(ex, ch):
        w = World(ex)
        T0 = ex.node(w.touched).a
        S0 = ex.S.copy()
        if ch:
            r = ex.put(Arr(add(z3.Length(NM), 1), BaseArr(lambda k: z3.If(toz(k) < z3.Length(NM), z3.StrToCode(z3.SubString(NM, toz(k), 1)), 0)), Ty('int', 'char', bits=8, signed=True)))
            ex.S.ghost[('str', r)] = NM
            k, v = run_fn(ex, meth(CB, 'GetSetting', 1, 'char'), w.o, [cell(ex, Ptr(r, 0), PT)])
        else:
            k, v = run_fn(ex, meth(CB, 'GetSetting', 1, 'string'), w.o, [strarg(ex, NM)])
        ex.oblige(k == 'ret', 'look-up terminates normally', 'post')
        i = found(ex, w, w.sp, w.n, v, lambda j: NAME(j) == NM, 'setting')
        q = ex.fint('q', 0)
        ex.assume(lt(q, w.n))
        T1 = ex.node(w.touched).a
        want = T0.get(q) if i is None else or_(T0.get(q), eq(q, i))
        truth_is(ex, T1.get(q), want, 'exactly the setting returned is marked as used')
        frame(ex, S0, ex.S, (w.touched,))
    out.append(('look-up of a setting', lambda ex: u_getsetting(ex, False)))
    out.append(('look-up of a setting by C string', lambda ex: u_getsetting(ex, True)))

    def u_has(ex, name, pool, cond, args, n):
        w = World(ex)
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CB, name, len(args(ex))), w.o, args(ex))
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        if ex.branch(truth(v)):
            kk = ex.S.ghost.get('exit_k', 0)
            ex.oblige(or_(*[and_(le(0, i), lt(i, n(w)), cond(toz(i))) for i in (kk, 0)]), 'reported present only if it is', 'post')
        else:
            absent(ex, n(w), cond, 'reported absent only if it is')
        frame(ex, S0, ex.S)
    T = z3.Int('t')
    targ = lambda ex: cell(ex, T, SIZET)
    out.append(('presence of a setting', lambda ex: u_has(ex, 'HasSetting', None, lambda j: NAME(j) == NM, lambda ex: [strarg(ex, NM)], lambda w: w.n)))
    out.append(('presence of a sub-block', lambda ex: u_has(ex, 'HasSubBlock', None, lambda j: z3.And(BTYPE(j) == T, BNAME(j) == NM), lambda ex: [targ(ex), strarg(ex, NM)], lambda w: w.m)))
    out.append(('presence of a sub-block of a type', lambda ex: u_has(ex, 'HasSubBlocks', None, lambda j: BTYPE(j) == T, lambda ex: [targ(ex)], lambda w: w.m)))
    out.append(('presence of any sub-block', lambda ex: u_has(ex, 'HasSubBlocks', None, lambda j: z3.BoolVal(True), lambda ex: [], lambda w: w.m)))

    def u_untouched(ex):
        w = World(ex)
        S0 = ex.S.copy()
        T0 = ex.node(w.touched).a
        k, v = run_fn(ex, meth(CB, 'HasUntouchedSettings', 0), w.o, [])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        f = lambda j: z3.Not(toz(truth(T0.get(j))))
        if ex.branch(truth(v)):
            kk = ex.S.ghost.get('exit_k', 0)
            ex.oblige(and_(le(0, kk), lt(kk, w.n), f(toz(kk))), 'unused settings are reported only if there are any', 'post')
        else:
            absent(ex, w.n, f, 'no unused settings are reported only if there are none')
        frame(ex, S0, ex.S)
    out.append(('presence of unused settings', u_untouched))

    def u_getblock(ex):
        w = World(ex)
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CB, 'GetConfigBlock', 2), w.o, [targ(ex), strarg(ex, NM)])
        ex.oblige(k == 'ret', 'look-up terminates normally', 'post')
        found(ex, w, w.bp, w.m, v, lambda j: z3.And(BTYPE(j) == T, BNAME(j) == NM), 'sub-block')
        frame(ex, S0, ex.S)
    out.append(('look-up of a sub-block', u_getblock))

    # lists of those settings or sub-blocks that have a property
    def u_filter(ex, name, args, pool, n, cond):
        w = World(ex)
        ex.opts['ptrpool'] = pool(w)
        c = lambda j: cond(ex, w, j)
        T0 = ex.node(w.touched).a
        # count(k): how many of the first k have the property (definition, and the lemma that it grows)
        ex.assume(CNT(0) == 0)
        I, J = z3.Ints('I! J!')
        cI = toz(c(I))
        ex.assume(z3.ForAll([I], z3.Implies(I >= 0, CNT(I + 1) == CNT(I) + z3.If(cI, 1, 0)), patterns=[CNT(I + 1)]))
        ex.assume(z3.ForAll([I], z3.Implies(I >= 0, z3.And(CNT(I) >= 0, CNT(I) <= I)), patterns=[CNT(I)]))
        ex.assume(z3.ForAll([I, J], z3.Implies(z3.And(0 <= I, I < J), CNT(I) + z3.If(cI, 1, 0) <= CNT(J)), patterns=[z3.MultiPattern(CNT(I), CNT(J))]))

        def g(ex, info):
            out = []
            for key in info.left:
                nd = info.base.mem[key[0]]
                if key[1] == 'size':
                    def sz(S, k, key=key):
                        return z3.And(toz(loops.getc(S, key)) == CNT(toz(k)), CNT(toz(k) + 1) == CNT(toz(k)) + z3.If(toz(c(toz(k))), 1, 0))
                    sz.wantsk = True
                    out.append(sz)
                if key[1] == 'a':
                    def el(S, k, key=key):
                        a = loops.getc(S, key)
                        if isinstance(a, UninitArr):
                            return True
                        Q = z3.Int('Q!')
                        return z3.ForAll([Q], z3.Implies(z3.And(0 <= Q, Q < toz(k), toz(c(Q))), toz(off(a.get(CNT(Q)))) == Q), patterns=[CNT(Q)])
                    el.wantsk = True
                    out.append(el)
            return out
        ex.loop_inv = [g]
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CB, name, len(args(ex))), w.o, args(ex))
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        nd = ex.node(v.rid)
        ex.oblige(eq(nd.p['size'], CNT(toz(n(w)))), 'the list has as many elements as have the property', 'post')
        j = ex.fint('j', 0)
        ex.assume(and_(lt(j, n(w)), c(toz(j))))
        e = nd.p['a'].get(CNT(toz(j)))
        if isinstance(e, Uninit) and not isinstance(e, GuardedUninit):
            ex.oblige(False, 'elements are listed', 'post')
        ex.oblige(isinstance(e, Ptr) and e.rid == pool(w), 'elements of the block are listed', 'post')
        ex.oblige(eq(off(e), j), 'every element with the property is listed, in order', 'post')
        frame(ex, S0, ex.S)
    out.append(('sub-blocks of a type', lambda ex: u_filter(ex, 'GetAllSubBlocksOfType', lambda ex: [targ(ex)], lambda w: w.bp, lambda w: w.m, lambda ex, w, j: BTYPE(j) == T)))
    out.append(('unused settings', lambda ex: u_filter(ex, 'GetUntouchedSettings', lambda ex: [], lambda w: w.sp, lambda w: w.n, lambda ex, w, j: z3.Not(toz(truth(ex.node(w.touched).a.get(j)))))))

    def u_count(ex):
        """the lemma about count, by induction on J"""
        I, J = z3.Ints('I J')
        c = z3.Function('c', z3.IntSort(), z3.BoolSort())
        ex.assume(z3.And(0 <= I, I < J, CNT(J + 1) == CNT(J) + z3.If(c(J), 1, 0), CNT(I + 1) == CNT(I) + z3.If(c(I), 1, 0), CNT(0) == 0))
        ex.oblige(CNT(I) + z3.If(c(I), 1, 0) <= CNT(I + 1), 'count grows: base', 'post')
        ex.assume(CNT(I) + z3.If(c(I), 1, 0) <= CNT(J))
        ex.oblige(CNT(I) + z3.If(c(I), 1, 0) <= CNT(J + 1), 'count grows: step', 'post')
        ex.assume(z3.And(CNT(J) >= 0, CNT(J) <= J))
        ex.oblige(z3.And(CNT(J + 1) >= 0, CNT(J + 1) <= J + 1), 'count is bounded: step', 'post')
    out.append(('lemma: counting', u_count))

    # ------------------------------------------------------------ elementary functions
    def settingname(ex, o):
        return sval(ex, ex.fld(o, 'name'))

    def u_setting(ex):
        o = LV(ex.alloc_rec('SettingScript', 'sym', name='s'))
        nm = settingname(ex, o)
        t0 = truth(ex.getf(o, 'touched'))
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth('Setting', 'HasName'), o, [strarg(ex, NM)])
        truth_is(ex, v, toz(nm) == NM, 'a setting has its own name and no other')
        k, v = run_fn(ex, meth('Setting', 'GetName'), o, [])
        ex.oblige(toz(sval(ex, v)) == toz(nm), 'name of a setting', 'post')
        k, v = run_fn(ex, meth('Setting', 'Touched'), o, [])
        truth_is(ex, v, toz(t0), 'whether a setting was used')
        frame(ex, S0, ex.S)
        k, v = run_fn(ex, meth('Setting', 'Touch'), o, [])
        k, v = run_fn(ex, meth('Setting', 'Touched'), o, [])
        truth_is(ex, v, z3.BoolVal(True), 'a setting is used after it was touched')
        frame(ex, S0, ex.S, (ex.fld(o, 'touched').rid,))
    out.append(('name and use of a setting', u_setting))

    def u_block(ex):
        w = World(ex)
        ex.contracts = {}
        o = w.o
        nm, st, ty = sval(ex, ex.fld(o, 'name')), sval(ex, ex.fld(o, 'secondary_type')), ex.getf(o, 'type')
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CB, 'GetName'), o, [])
        ex.oblige(toz(sval(ex, v)) == toz(nm), 'name of a block', 'post')
        k, v = run_fn(ex, meth(CB, 'GetType'), o, [])
        ex.oblige(eq(v, ty), 'type of a block', 'post')
        k, v = run_fn(ex, meth(CB, 'GetSecondaryType'), o, [])
        ex.oblige(toz(sval(ex, v)) == z3.If(z3.Length(toz(st)) == 0, toz(nm), toz(st)), 'secondary type of a block, by default its name', 'post')
        k, v = run_fn(ex, meth(CB, 'HasType'), o, [targ(ex)])
        truth_is(ex, v, toz(ty) == T, 'a block has its own type and no other')
        k, v = run_fn(ex, meth(CB, 'HasTypeAndName'), o, [targ(ex), strarg(ex, NM)])
        truth_is(ex, v, z3.And(toz(ty) == T, toz(nm) == NM), 'a block has its own type and name and no other')
        k, v = run_fn(ex, meth(CB, 'HasParent'), o, [])
        truth_is(ex, v, z3.BoolVal(w.hasparent), 'a block has a parent iff one was set')
        k, v = run_fn(ex, meth(CB, 'GetParent'), o, [])
        ex.oblige(isinstance(v, Ptr) and v.rid == (w.par if w.hasparent else None), 'parent of a block', 'post')
        for f, pool, n in (('GetAllSettings', w.sp, w.n), ('GetAllSubBlocks', w.bp, w.m)):
            k, v = run_fn(ex, meth(CB, f), o, [])
            nd = ex.node(v.rid)
            j = ex.fint('j', 0)
            if ex.branch(lt(j, n)):
                e = nd.p['a'].get(j)
                ex.oblige(isinstance(e, Ptr) and e.rid == pool, 'elements of the list', 'post')
                ex.oblige(eq(off(e), j), 'all settings and sub-blocks are listed in order', 'post')
            ex.oblige(eq(nd.p['size'], n), 'all settings and sub-blocks are listed', 'post')
        other = LV(ex.alloc_rec(CB, 'sym', name='other'))
        k, v = run_fn(ex, meth(CB, 'operator=='), o, [other])
        truth_is(ex, v, z3.And(toz(ty) == toz(ex.getf(other, 'type')), toz(nm) == toz(sval(ex, ex.fld(other, 'name')))), 'blocks are equal iff type and name are')
        frame(ex, S0, ex.S)
        k, v = run_fn(ex, meth(CB, 'SetParent'), o, [cell(ex, Ptr(other.rid), PT)])
        k, v = run_fn(ex, meth(CB, 'GetParent'), o, [])
        ex.oblige(isinstance(v, Ptr) and v.rid == other.rid, 'parent is the one that was set', 'post')
    out.append(('name, type, parent and contents of a block', u_block))

    def u_newblock(ex):
        o = LV(ex.alloc_rec(CB, 'uninit'))
        par = ex.alloc_rec(CB, 'sym', name='parent')
        ct = b.prog.definition([c for c in b.prog.classes[CB]['ctors'] if len(params(c)) == 4][0])
        run_fn(ex, ct, o, [targ(ex), strarg(ex, NM), strarg(ex, NM2), cell(ex, Ptr(par), PT)])
        ex.oblige(eq(ex.getf(o, 'type'), T), 'type of a new block', 'post')
        ex.oblige(and_(toz(sval(ex, ex.fld(o, 'name'))) == NM, toz(sval(ex, ex.fld(o, 'secondary_type'))) == NM2), 'name and secondary type of a new block', 'post')
        p = ex.getf(o, 'parent')
        ex.oblige(isinstance(p, Ptr) and p.rid == par, 'parent of a new block', 'post')
        ex.oblige(and_(eq(ex.node(ex.fld(o, 'settings').rid).p['size'], 0), eq(ex.node(ex.fld(o, 'subblocks').rid).p['size'], 0)), 'a new block is empty', 'post')
    out.append(('new block', u_newblock))

    # ------------------------------------------------------------ building the tree
    def newsetting(ex):
        r = ex.alloc_rec('SettingScript', 'sym', name='new')
        ex.S.alloc[r] = 'new'
        return r

    def u_addsetting(ex):
        w = World(ex)
        r = newsetting(ex)
        nm = settingname(ex, LV(r))
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CB, 'AddSetting'), w.o, [cell(ex, Ptr(r), PT)])
        ex.oblige(k == 'ret' and isinstance(v, Ptr) and v.rid in (r, w.sp), 'a setting of the block is returned', 'post')
        st = ex.node(ex.fld(w.o, 'settings').rid)
        q = ex.fint('q', 0)
        ex.assume(lt(q, w.n))
        e = loops.DECIDED(ex, st.p['a'], q)
        ex.oblige(isinstance(e, Ptr) and e.rid == w.sp, 'settings stay', 'post')
        ex.oblige(eq(off(e), q), 'settings stay where they are', 'post')
        if v.rid == r:
            inst_foralls_keep(ex, q)
            ex.oblige(NAME(toz(q)) != toz(nm), 'a setting is added only if there is none of its name', 'post')
            ex.oblige(eq(st.p['size'], add(w.n, 1)), 'one setting more', 'post')
            e = loops.DECIDED(ex, st.p['a'], w.n)
            ex.oblige(isinstance(e, Ptr) and e.rid == r, 'the new setting is the last one', 'post')
            ex.oblige(r not in ex.S.freed, 'the new setting is kept', 'post')
            ex.oblige(eq(ex.read(LV(w.over, q)), 0), 'no setting gets other values', 'post')
        else:
            ex.oblige(eq(st.p['size'], w.n), 'no setting is added', 'post')
            i = off(v)
            ex.oblige(and_(le(0, i), lt(i, w.n), NAME(toz(i)) == toz(nm)), 'the setting of that name is returned', 'post')
            ex.oblige(eq(ex.read(LV(w.over, q)), ite(eq(q, i), 1, 0)), 'exactly the setting of that name gets the new values', 'post')
        frame_(ex, S0, (w.over, ex.fld(w.o, 'settings').rid), r)
    out.append(('adding a setting', u_addsetting))

    def frame_(ex, S0, exc, freed):
        sv = ex.S.freed
        ex.S.freed = S0.freed
        try:
            frame(ex, S0, ex.S, tuple(exc) + tuple(r for r in S0.mem if r == freed or (isinstance(S0.mem.get(freed), Rec) and r in S0.mem[freed].f.values())))
        finally:
            ex.S.freed = sv

    def u_mergesetting(ex):
        w = World(ex)
        r = newsetting(ex)
        nm = settingname(ex, LV(r))
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CB, 'MergeSetting'), w.o, [cell(ex, Ptr(r), PT)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        q = ex.fint('q', 0)
        ex.assume(lt(q, w.n))
        inst_foralls_keep(ex, q)
        truth_is(ex, eq(ex.read(LV(w.over, q)), 1), NAME(toz(q)) == toz(nm), 'exactly the setting of that name gets the new values')
        ex.oblige(or_(eq(ex.read(LV(w.over, q)), 1), eq(ex.read(LV(w.over, q)), 0)), 'new values are those given', 'post')
        frame(ex, S0, ex.S, (w.over,))
    out.append(('merging a setting', u_mergesetting))

    def u_addblock(ex, given):
        w = World(ex)
        S0 = ex.S.copy()
        if given:
            r = ex.alloc_rec(CB, 'sym', name='new')
            ex.S.alloc[r] = 'new'
            nm, ty, st = sval(ex, ex.fld(LV(r), 'name')), ex.getf(LV(r), 'type'), sval(ex, ex.fld(LV(r), 'secondary_type'))
            S0 = ex.S.copy()
            k, v = run_fn(ex, meth(CB, 'AddSubBlock', 1), w.o, [cell(ex, Ptr(r), PT)])
        else:
            nm, ty, st = NM, T, NM2
            ex.assume(T >= 0)
            k, v = run_fn(ex, meth(CB, 'AddSubBlock', 3), w.o, [targ(ex), strarg(ex, NM), strarg(ex, NM2)])
        ex.oblige(k == 'ret' and isinstance(v, Ptr) and v.rid is not None, 'a sub-block is returned', 'post')
        f = lambda j: z3.And(BTYPE(j) == toz(ty), BNAME(j) == toz(nm))
        sb = ex.node(ex.fld(w.o, 'subblocks').rid)
        q = ex.fint('q', 0)
        ex.assume(lt(q, w.m))
        e = loops.DECIDED(ex, sb.p['a'], q)
        ex.oblige(isinstance(e, Ptr) and e.rid == w.bp, 'sub-blocks stay', 'post')
        ex.oblige(eq(off(e), q), 'sub-blocks stay where they are', 'post')
        if v.rid == w.bp:
            ex.oblige(and_(le(0, off(v)), lt(off(v), w.m), f(toz(off(v)))), 'an existing sub-block of that type and name is returned', 'post')
            ex.oblige(eq(sb.p['size'], w.m), 'no sub-block is added', 'post')
        else:
            ex.oblige((v.rid == r) if given else v.rid not in S0.mem, 'the new sub-block is returned', 'post')
            inst_foralls_keep(ex, q)
            ex.oblige(not_(f(toz(q))), 'a sub-block is added only if there is none of that type and name', 'post')
            ex.oblige(eq(sb.p['size'], add(w.m, 1)), 'one sub-block more', 'post')
            e = loops.DECIDED(ex, sb.p['a'], w.m)
            ex.oblige(isinstance(e, Ptr) and e.rid == v.rid, 'the new sub-block is the last one', 'post')
            c = LV(v.rid)
            p = ex.getf(c, 'parent')
            ex.oblige(isinstance(p, Ptr) and p.rid == w.o.rid, 'the block is the parent of the new sub-block', 'post')
            ex.oblige(and_(eq(ex.getf(c, 'type'), ty), toz(sval(ex, ex.fld(c, 'name'))) == toz(nm), toz(sval(ex, ex.fld(c, 'secondary_type'))) == toz(st)), 'the new sub-block is the one given', 'post')
        frame(ex, S0, ex.S, (ex.fld(w.o, 'subblocks').rid,) + ((ex.fld(LV(r), 'parent').rid,) if given else ()))
    out.append(('adding a sub-block', lambda ex: u_addblock(ex, False)))
    out.append(('adding an existing sub-block', lambda ex: u_addblock(ex, True)))

    def u_index(ex):
        w = World(ex)
        VAL = z3.Function('value', z3.IntSort(), SS)
        ex.contracts[meth('Setting', 'GetString')['_m']] = lambda ex, f, this, args: mkstr(ex, VAL(toz(this.idx)))

        def get(ex, f, this, args):
            if ex.branch(ex.fbool('present')):
                i = ex.fint('i', 0)
                ex.assume(and_(lt(i, w.n), NAME(toz(i)) == toz(sval(ex, args[0]))))
                return Ptr(w.sp, i)
            ex.S.ghost['absent'] = sval(ex, args[0])
            return NULL
        ex.contracts[meth(CB, 'GetSetting', 1, 'string')['_m']] = get
        k, v = run_fn(ex, meth(CB, 'operator[]'), w.o, [strarg(ex, NM)])
        if k == 'throw':
            ex.oblige(ex.S.ghost.get('absent') is not None and ex.S.ghost['absent'].eq(NM), 'an error is raised only if there is no such setting', 'post')
            return
        ex.oblige(ex.S.ghost.get('absent') is None, 'an error is raised if there is no such setting', 'post')
        i = ex.fint('i2', 0)
        ex.assume(and_(lt(i, w.n), NAME(toz(i)) == NM))
        for q in [p for p in ex.S.pc if isinstance(p, Z)]:
            pass
        ex.oblige(toz(sval(ex, v)) == VAL(toz(i)), 'first value of the setting of that name', 'post')
    out.append(('value of a setting by name', u_index))

    # ------------------------------------------------------------ copying and merging trees
    class Copies:
        def __init__(s, ex, w):
            s.sc = ex.put(Arr(2 ** 40, BaseArr(lambda k: 0), UINT))
            s.bc = ex.put(Arr(2 ** 40, BaseArr(lambda k: 0), UINT))
            s.par = ex.put(Arr(2 ** 40, BaseArr(lambda k: 0), UINT))      # 1: parent is the new block
            s.new = None

            def copy(ex, f, this, args):
                ex.oblige(this.rid == w.sp, 'a setting of the original is copied', 'safety')
                return Ptr(s.sc, this.idx)

            def new(ex, args):
                if len(args) != 1:
                    return None
                p = ex.read(args[0]) if isinstance(args[0], LV) else args[0]
                ex.oblige(isinstance(p, Ptr) and p.rid == w.bp, 'a sub-block of the original is copied', 'safety')
                return Ptr(s.bc, off(p))

            def setpar(ex, f, this, args):
                p = ex.read(args[0])
                ex.oblige(this.rid == s.bc, 'only copies get a new parent', 'post')
                ex.write(LV(s.par, this.idx), 1 if p.rid == s.new else 2)
            ex.newhook = {CB: new}
            ex.contracts[meth('Setting', 'Copy')['_m']] = copy
            ex.contracts[meth(CB, 'SetParent')['_m']] = setpar

    def u_copy(ex):
        w = World(ex)
        c = Copies(ex, w)
        ex.contracts[meth(CB, 'GetType')['_m']] = None
        for nm in ('GetType', 'GetName'):
            ex.contracts.pop(meth(CB, nm)['_m'])
        o = LV(ex.alloc_rec(CB, 'uninit'))
        c.new = o.rid
        ct = b.prog.definition([d for d in b.prog.classes[CB]['ctors'] if len(params(d)) == 1 and '*' in d['type']['qualType']][0])
        ex.opts['ptrpool'] = c.bc
        S0 = ex.S.copy()
        k, v = run_fn(ex, ct, o, [cell(ex, Ptr(w.o.rid), PT)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        ex.oblige(eq(ex.getf(o, 'type'), ex.getf(w.o, 'type')), 'copy has the same type', 'post')
        g = lambda q, n: toz(sval(ex, ex.fld(q, n)))
        ex.oblige(g(o, 'name') == g(w.o, 'name'), 'copy has the same name', 'post')
        eff = lambda q: z3.If(z3.Length(g(q, 'secondary_type')) == 0, g(q, 'name'), g(q, 'secondary_type'))
        ex.oblige(eff(o) == eff(w.o), 'copy has the same secondary type', 'post')
        p = ex.getf(o, 'parent')
        ex.oblige(isinstance(p, Ptr) and p.rid == (w.par if w.hasparent else None), 'copy has the same parent', 'post')
        st, sb = ex.node(ex.fld(o, 'settings').rid), ex.node(ex.fld(o, 'subblocks').rid)
        ex.oblige(and_(eq(st.p['size'], w.n), eq(sb.p['size'], w.m)), 'copy has as many settings and sub-blocks', 'post')
        j = ex.fint('j', 0)
        if ex.branch(lt(j, w.n)):
            e = loops.DECIDED(ex, st.p['a'], j)
            ex.oblige(isinstance(e, Ptr) and e.rid == c.sc, 'settings of the copy are copies', 'post')
            ex.oblige(eq(off(e), j), 'settings of the copy are in the same order', 'post')
        j = ex.fint('i', 0)
        if ex.branch(lt(j, w.m)):
            e = loops.DECIDED(ex, sb.p['a'], j)
            ex.oblige(isinstance(e, Ptr) and e.rid == c.bc, 'sub-blocks of the copy are copies', 'post')
            ex.oblige(eq(off(e), j), 'sub-blocks of the copy are in the same order', 'post')
            ex.oblige(eq(ex.read(LV(c.par, j)), 1), 'the copy is the parent of its sub-blocks', 'post')
        frame(ex, S0, ex.S, (c.par, o.rid) + tuple(ex.node(o.rid).f.values()))
    out.append(('copy of a block', u_copy))

    def u_merge(ex, new):
        """w is the block merged in; the receiving block is known by the contracts of its methods"""
        w = World(ex)
        c = Copies(ex, w)
        HAS = z3.Function('has', SS, z3.BoolSort())
        HASB = z3.Function('hasb', z3.IntSort(), SS, z3.BoolSort())
        WHICH = z3.Function('which', z3.IntSort(), SS, z3.IntSort())
        o = LV(ex.alloc_rec(CB, 'sym', name='target'))
        tb = ex.put(Arr(2 ** 40, BaseArr(lambda k: 0), UINT))
        done = {n: ex.put(Arr(2 ** 40, BaseArr(lambda k: 0), UINT)) for n in ('merged', 'added', 'bmerged', 'badded')}
        I, J = z3.Ints('I! J!')
        ex.assume(z3.ForAll([I, J], z3.Implies(z3.And(0 <= I, I < J, J < toz(w.m)), z3.Or(BTYPE(I) != BTYPE(J), BNAME(I) != BNAME(J))), patterns=[z3.MultiPattern(BNAME(I), BNAME(J))]))
        if not new:
            ex.assume(z3.ForAll([I], z3.Implies(z3.And(0 <= I, I < toz(w.n)), HAS(NAME(I))), patterns=[NAME(I)]))
            ex.assume(z3.ForAll([I], z3.Implies(z3.And(0 <= I, I < toz(w.m)), HASB(BTYPE(I), BNAME(I))), patterns=[BNAME(I)]))

        def target(this):
            ex.oblige(this.rid == o.rid, 'the block merged into is the one asked', 'safety')

        def number(ex, s, f):
            if not (isinstance(s, Z) and z3.is_app(s) and s.decl().eq(f)):
                raise Unsupported('name of unknown origin')
            return unz(s.arg(0))

        def has(ex, f, this, args):
            s = sval(ex, args[0])
            k = number(ex, s, NAME)
            ex.oblige(eq(ex.read(LV(done['added'], k)), 0), 'a setting is looked up before it is added', 'post')
            return HAS(s)

        def mergeset(ex, f, this, args):
            p = ex.read(args[0])
            ex.oblige(this.rid == o.rid and p.rid == w.sp, 'settings are merged into the block', 'post')
            ex.oblige(HAS(NAME(toz(off(p)))), 'only existing settings are overwritten', 'post')
            ex.write(LV(done['merged'], off(p)), 1)

        def addset(ex, f, this, args):
            p = ex.read(args[0])
            ex.oblige(this.rid == o.rid and p.rid == c.sc, 'copies of settings are added to the block', 'post')
            ex.oblige(not_(HAS(NAME(toz(off(p))))), 'only new settings are added', 'post')
            ex.write(LV(done['added'], off(p)), 1)
            return p

        def hasb(ex, f, this, args):
            s = sval(ex, args[1])
            k = number(ex, s, BNAME)
            ex.oblige(eq(ex.read(LV(done['badded'], k)), 0), 'a sub-block is looked up before it is added', 'post')
            return HASB(toz(ex.read(args[0])), s)

        def getb(ex, f, this, args):
            s, t = sval(ex, args[1]), toz(ex.read(args[0]))
            if ex.branch(HASB(t, s)):
                return Ptr(tb, WHICH(t, s))
            return NULL

        def mergeb(ex, f, this, args):
            p, a = ex.read(args[0]), truth(ex.read(args[1]))
            ex.oblige(this.rid == tb and p.rid == w.bp, 'sub-blocks are merged into those of the block', 'post')
            ex.oblige(eq(this.idx, WHICH(BTYPE(toz(off(p))), BNAME(toz(off(p))))), 'a sub-block is merged into the one of its type and name', 'post')
            ex.oblige(toz(a) == z3.BoolVal(new), 'permission to add is passed on', 'post')
            ex.write(LV(done['bmerged'], off(p)), 1)
            return NULL

        def addb(ex, f, this, args):
            p = ex.read(args[0])
            ex.oblige(this.rid == o.rid and p.rid == c.bc, 'copies of sub-blocks are added to the block', 'post')
            ex.write(LV(done['badded'], off(p)), 1)
            return p
        C = ex.contracts
        C[meth(CB, 'HasSetting')['_m']] = has
        C[meth(CB, 'MergeSetting')['_m']] = mergeset
        C[meth(CB, 'AddSetting')['_m']] = addset
        C[meth(CB, 'HasSubBlock')['_m']] = hasb
        C[meth(CB, 'GetConfigBlock')['_m']] = getb
        C[meth(CB, 'AddSubBlock', 1)['_m']] = addb
        mg = meth(CB, 'Merge', 2)
        C[mg['_m']] = mergeb
        S0 = ex.S.copy()
        k, v = run_fn(ex, mg, o, [cell(ex, Ptr(w.o.rid), PT), cell(ex, new, BOOLT)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        ex.oblige(isinstance(v, Ptr) and v.rid is None, 'nothing is reported as unknown', 'post')
        j = ex.fint('j', 0)
        if ex.branch(lt(j, w.n)):
            h = HAS(NAME(toz(j)))
            inst_foralls_keep(ex, j)
            ex.oblige(eq(ex.read(LV(done['merged'], j)), ite(h, 1, 0)), 'every setting known to the block gets the new values', 'post')
            ex.oblige(eq(ex.read(LV(done['added'], j)), ite(h, 0, 1)), 'every other setting is added', 'post')
        j = ex.fint('i', 0)
        if ex.branch(lt(j, w.m)):
            h = HASB(BTYPE(toz(j)), BNAME(toz(j)))
            inst_foralls_keep(ex, j)
            ex.oblige(eq(ex.read(LV(done['bmerged'], j)), ite(h, 1, 0)), 'every sub-block known to the block is merged', 'post')
            ex.oblige(eq(ex.read(LV(done['badded'], j)), ite(h, 0, 1)), 'every other sub-block is added', 'post')
        frame(ex, S0, ex.S, tuple(done.values()) + (c.par,))
    out.append(('merging, new settings permitted', lambda ex: u_merge(ex, True)))
    out.append(('merging, no new settings', lambda ex: u_merge(ex, False)))

    # ------------------------------------------------------------ block types
    CF = 'Configuration'
    BT = z3.Function('blocktype', z3.IntSort(), SS)

    def conf(ex):
        o = LV(ex.alloc_rec(CF, 'sym', name='conf'))
        n = ex.fint('nt', 0, 2 ** 30)
        v = ex.fld(o, 'blocktypes')
        ex.setnode(v.rid, ex.node(v.rid).w(size=n, a=BaseArr(lambda k: BT(toz(k)))))
        I, J = z3.Ints('I! J!')
        ex.assume(z3.ForAll([I, J], z3.Implies(z3.And(0 <= I, I < J, J < toz(n)), BT(I) != BT(J)), patterns=[z3.MultiPattern(BT(I), BT(J))]))
        return o, n

    def u_istype(ex):
        o, n = conf(ex)
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CF, 'IsBlockType'), o, [strarg(ex, NM)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        if ex.branch(truth(v)):
            kk = ex.S.ghost.get('exit_k', 0)
            ex.oblige(and_(le(0, kk), lt(kk, n), BT(toz(kk)) == NM), 'a block type is known only if it was registered', 'post')
        else:
            absent(ex, n, lambda j: BT(j) == NM, 'a block type is unknown only if it was not registered')
        frame(ex, S0, ex.S)
    out.append(('presence of a block type', u_istype))

    def u_totype(ex):
        o, n = conf(ex)
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CF, 'StringToBlockType'), o, [strarg(ex, NM)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        j = ex.fint('j', 0)
        ex.assume(lt(j, n))
        inst_foralls_keep(ex, j)
        ex.oblige(implies(BT(toz(j)) == NM, eq(v, j)), 'number of a block type is that of its registration', 'post')
        frame(ex, S0, ex.S)
    out.append(('number of a block type', u_totype))

    def u_register(ex):
        o, n = conf(ex)
        ist = ex.fbool('registered')

        def istype(ex, f, this, args):
            ex.oblige(this.rid == o.rid and eq(toz(sval(ex, args[0])), NM), 'the new type is looked up', 'safety')
            return ist
        ex.contracts = {meth(CF, 'IsBlockType')['_m']: istype}
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CF, 'RegisterBlockType'), o, [strarg(ex, NM)])
        bt = ex.fld(o, 'blocktypes')
        if k == 'throw':
            ex.oblige(ist, 'an error is raised only if the type was registered before', 'post')
            frame(ex, S0, ex.S)
            return
        ex.oblige(not_(ist), 'an error is raised if the type was registered before', 'post')
        ex.oblige(eq(v, n), 'block types are numbered in the order of registration', 'post')
        nd = ex.node(bt.rid)
        ex.oblige(eq(nd.p['size'], add(n, 1)), 'one block type more', 'post')
        q = ex.fint('q', 0)
        ex.assume(le(q, n))
        ex.oblige(toz(nd.p['a'].get(q)) == z3.If(toz(q) == toz(n), NM, BT(toz(q))), 'the new type is the last one', 'post')
        frame(ex, S0, ex.S, (bt.rid,))
    out.append(('registering a block type', u_register))

    def u_confcopy(ex):
        c, n = conf(ex)
        root = ex.alloc_rec(CB, 'sym', name='root')
        cp = ex.alloc_rec(CB, 'sym', name='rootcopy')
        ex.setnode(ex.fld(c, 'root').rid, Cell(Ptr(root), ex.node(ex.fld(c, 'root').rid).ty))

        def new(ex, args):
            p = ex.read(args[0]) if isinstance(args[0], LV) else args[0]
            ex.oblige(isinstance(p, Ptr) and p.rid == root, 'the tree is copied', 'post')
            return Ptr(cp)
        ex.newhook = {CB: new}
        o = LV(ex.alloc_rec(CF, 'uninit'))
        ct = b.prog.definition([d for d in b.prog.classes[CF]['ctors'] if len(params(d)) == 1 and 'const Configuration &' in d['type']['qualType']][0])
        k, v = run_fn(ex, ct, o, [c])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        r = ex.getf(o, 'root')
        ex.oblige(isinstance(r, Ptr) and r.rid == cp, 'the copy has a tree of its own', 'post')
        ex.oblige(toz(sval(ex, ex.fld(o, 'filename'))) == toz(sval(ex, ex.fld(c, 'filename'))), 'the copy has the same file name', 'post')
        truth_is(ex, ex.getf(o, 'errorflag'), toz(truth(ex.getf(c, 'errorflag'))), 'the copy has the same error flag')
        nd = ex.node(ex.fld(o, 'blocktypes').rid)
        q = ex.fint('q', 0)
        ex.assume(lt(q, n))
        ex.oblige(and_(eq(nd.p['size'], n), toz(nd.p['a'].get(q)) == BT(toz(q))), 'the copy knows the same block types', 'post')
    out.append(('copy of a configuration', u_confcopy))

    def u_confmerge(ex):
        a, na = conf(ex)
        c, n = conf(ex)
        ra, rc = ex.alloc_rec(CB, 'sym', name='ra'), ex.alloc_rec(CB, 'sym', name='rc')
        for o, r in ((a, ra), (c, rc)):
            ex.setnode(ex.fld(o, 'root').rid, Cell(Ptr(r), ex.node(ex.fld(o, 'root').rid).ty))
        un = ex.put(Arr(1, BaseArr(lambda k: 0), UINT))
        al = z3.Bool('allow')

        def merge(ex, f, this, args):
            p = ex.read(args[0])
            ex.oblige(this.rid == ra and p.rid == rc, 'the tree given is merged into that of the configuration', 'post')
            ex.oblige(toz(truth(ex.read(args[1]))) == al, 'permission to add is passed on', 'post')
            ex.S.ghost['done'] = True
            return Ptr(un, 0)
        ex.contracts = {meth(CB, 'Merge', 2)['_m']: merge}
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CF, 'Merge', 2), a, [c, cell(ex, al, BOOLT)])
        ex.oblige(k == 'ret' and ex.S.ghost.get('done') and isinstance(v, Ptr) and v.rid == un, 'names unknown are reported', 'post')
        frame(ex, S0, ex.S)
    out.append(('merging configurations', u_confmerge))

    def u_newconf(ex):
        o = LV(ex.alloc_rec(CF, 'uninit'))
        ct = b.prog.definition([d for d in b.prog.classes[CF]['ctors'] if len(params(d)) == 0][0])
        k, v = run_fn(ex, ct, o, [])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        r = ex.getf(o, 'root')
        ex.oblige(isinstance(r, Ptr) and r.rid is not None, 'a new configuration has a root block', 'post')
        r = LV(r.rid)
        ex.oblige(and_(eq(ex.getf(r, 'type'), 0), eq(ex.node(ex.fld(r, 'settings').rid).p['size'], 0), eq(ex.node(ex.fld(r, 'subblocks').rid).p['size'], 0)), 'the root block is empty and of the first type', 'post')
        p = ex.getf(r, 'parent')
        ex.oblige(isinstance(p, Ptr) and p.rid is None, 'the root block has no parent', 'post')
        ex.oblige(eq(ex.node(ex.fld(o, 'blocktypes').rid).p['size'], 1), 'one block type is known', 'post')
        truth_is(ex, ex.getf(o, 'errorflag'), z3.BoolVal(False), 'no error is flagged')
        k, v = run_fn(ex, meth(CF, 'SetErrorFlag'), o, [])
        k, v = run_fn(ex, meth(CF, 'HasError'), o, [])
        truth_is(ex, v, z3.BoolVal(True), 'errors are flagged')
    out.append(('new configuration', u_newconf))
    return out

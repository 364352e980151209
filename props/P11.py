from frame import *
from P08 import cell, PT
from P12 import fn, req
import loops

TITLE = 'Numeric distribution functions'
HARNESS = dict(src='P11.cpp', link='all')
D = 'src/DistributionFunction/'
NM, ND = 'NumericMomentumSpaceDistributionFunction', 'NumericDistributionFunction'
P, XI, RHO, SHIFT = z3.Reals('p xi r shift')
RS = z3.RealSort()
BOOLT = Ty('bool', 'bool')
SP2 = z3.Function('spline', RS, RS, RS)
EXP = FN('exp')
FM = z3.Function('fm', z3.IntSort(), RS, RS, RS)     # momentum-space function number i


def load(b):
    b.load([D + NM + '.cpp', D + ND + '.cpp'])


def setc_(ex, o, name, v):
    f = ex.fld(o, name)
    ex.setnode(f.rid, Cell(v, ex.node(f.rid).ty))


def units(b):
    out = []

    # ------------------------------------------------------------ momentum space
    def gsl(ex):
        ex.S.ghost['gsl'] = ()

        def acc(ex, f, this, args):
            return Ptr(ex.put(Cell(0, UINT)), 0)

        def alloc(ex, f, this, args):
            a = [ex.read(x) for x in args]
            r = ex.put(Cell(0, UINT))
            ex.S.ghost['gsl'] = ex.S.ghost['gsl'] + (('spl', r) + tuple(a),)
            return Ptr(r, 0)

        def init(ex, f, this, args):
            a = [ex.read(x) for x in args]
            h = [t for t in ex.S.ghost['gsl'] if t[0] == 'spl' and t[1] == a[0].rid]
            ex.oblige(len(h) == 1, 'spline allocated before it is initialised', 'safety')
            ex.oblige(and_(eq(h[0][3], a[4]), eq(h[0][4], a[5])), 'spline initialised with the size it was allocated for', 'safety')
            ex.S.ghost['gsl'] = ex.S.ghost['gsl'] + (('init', a[0].rid) + tuple(a[1:]),)
            return 0
        return {'gsl_interp_accel_alloc': acc, 'gsl_spline2d_alloc': alloc, 'gsl_spline2d_init': init}

    def grids(ex, mono=True):
        np_, nx = ex.fint('np', 2, 2 ** 12), ex.fint('nxi', 2, 2 ** 12)
        p = Ptr(ex.put(Arr(np_, ex.sym_arr(REALT, 'p'), REALT), 'new[]'), 0)
        x = Ptr(ex.put(Arr(nx, ex.sym_arr(REALT, 'xi'), REALT), 'new[]'), 0)
        f = Ptr(ex.put(Arr(mul(np_, nx), ex.sym_arr(REALT, 'f'), REALT), 'new[]'), 0)
        return np_, nx, p, x, f

    def el(ex, p, i):
        return ex.read(LV(p.rid, i))

    def u_ms_init(ex, cubic):
        o = LV(ex.alloc_rec(NM, 'sym', name='f'))
        np_, nx, p, x, f = grids(ex)
        ex.contracts = gsl(ex)
        lg = ex.getf(o, 'logarithmic')
        fl = ex.getf(o, 'flipPitchSign')
        bad = or_(lt(el(ex, p, sub(np_, 1)), el(ex, p, 0)), lt(el(ex, x, sub(nx, 1)), el(ex, x, 0)))
        mem0 = {q.rid: ex.node(q.rid).a for q in (p, x, f)}
        k, v = run_fn(ex, fn(b, 'Initialize', 6, NM), o, [cell(ex, np_, UINT), cell(ex, nx, UINT), cell(ex, p, PT), cell(ex, x, PT), cell(ex, f, PT), cell(ex, 1 if cubic else 0, UINT)])
        ex.oblige(implies(bad, k == 'throw'), 'decreasing grids are refused', 'post')
        ex.oblige(implies(not_(bad), k == 'ret'), 'increasing grids are accepted', 'post')
        if k == 'throw':
            return
        for n, w in (('p', p), ('xi', x), ('f', f)):
            g = ex.getf(o, n)
            ex.oblige(isinstance(g, Ptr) and g.rid == w.rid, n + ' is the table given', 'post')
        ex.oblige(and_(eq(ex.getf(o, 'np'), np_), eq(ex.getf(o, 'nxi'), nx)), 'sizes', 'post')
        for n, w in (('pmin', el(ex, p, 0)), ('pmax', el(ex, p, sub(np_, 1))), ('ximin', el(ex, x, 0)), ('ximax', el(ex, x, sub(nx, 1)))):
            req(ex, ex.getf(o, n), w, n + ' is the end of the grid')
        h = ex.getf(o, 'fspline')
        gh = ex.S.ghost['gsl']
        i = [t for t in gh if t[0] == 'init' and t[1] == h.rid]
        a = [t for t in gh if t[0] == 'spl' and t[1] == h.rid]
        ex.oblige(len(i) == 1 and len(a) == 1, 'interpolation is initialised once', 'post')
        want = ex.read(ex.lib.global_var(ex, 'gsl_interp2d_bicubic' if cubic else 'gsl_interp2d_bilinear'))
        ex.oblige(a[0][2].rid == want.rid, 'interpolation is of the kind asked for', 'post')
        t = i[0]
        ex.oblige(t[2].rid == p.rid and t[3].rid == x.rid and t[4].rid == f.rid, 'interpolation uses the tables given', 'post')
        ex.oblige(and_(eq((t[2].off if t[2].off is not None else 0), 0), eq((t[3].off if t[3].off is not None else 0), 0), eq((t[4].off if t[4].off is not None else 0), 0), eq(t[5], np_), eq(t[6], nx)), 'interpolation has the size of the tables', 'post')
        ex.oblige(eq(ex.getf(o, 'interptype'), 1 if cubic else 0), 'kind of interpolation is remembered', 'post')
        ex.oblige(ex.getf(o, 'pa').rid != ex.getf(o, 'xia').rid, 'each coordinate has a search accelerator of its own', 'post')
        ex.oblige(eqv_(ex.getf(o, 'logarithmic'), lg), 'logarithmic setting is not changed', 'post')
        ex.oblige(eqv_(ex.getf(o, 'flipPitchSign'), fl), 'pitch sign setting is not changed', 'post')
        for r, a in mem0.items():
            ex.oblige(ex.node(r).a is a, 'tables are not modified', 'post')

    def eqv_(a, c):
        return toz(truth(a)) == toz(truth(c))
    out.append(('momentum space: linear interpolation set up', lambda ex: u_ms_init(ex, False)))
    out.append(('momentum space: cubic interpolation set up', lambda ex: u_ms_init(ex, True)))

    def u_ms_eval(ex):
        o = LV(ex.alloc_rec(NM, 'sym', name='f'))
        hs = {}
        for n in ('fspline', 'pa', 'xia'):
            hs[n] = Ptr(ex.put(Cell(0, UINT)), 0)
            setc_(ex, o, n, hs[n])
        g = {n: ex.getf(o, n) for n in ('pmin', 'pmax', 'ximin', 'ximax')}
        ex.assume(z3.And(g['pmin'] <= g['pmax'], g['ximin'] <= g['ximax']))
        fl, lg = truth(ex.getf(o, 'flipPitchSign')), truth(ex.getf(o, 'logarithmic'))

        def ev(ex, f, this, args):
            a = [ex.read(x) for x in args]
            ex.oblige(a[0].rid == hs['fspline'].rid, 'the spline of the object is evaluated', 'safety')
            ex.oblige(a[3].rid in (None, hs['pa'].rid) and a[4].rid in (None, hs['xia'].rid), 'accelerator belongs to the grid it is used with', 'safety')
            ex.oblige(and_(le(g['pmin'], a[1]), le(a[1], g['pmax']), le(g['ximin'], a[2]), le(a[2], g['ximax'])), 'interpolation only within the table', 'safety')
            return SP2(toz(a[1], True), toz(a[2], True))
        ex.contracts = {'gsl_spline2d_eval': ev}
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, 'Eval', 2, NM), o, [cell(ex, P), cell(ex, XI)])
        ex.oblige(k == 'ret', 'evaluation terminates normally', 'post')
        x = z3.If(toz(fl), -XI, XI)
        ins = z3.And(P >= g['pmin'], P <= g['pmax'], x >= g['ximin'], x <= g['ximax'])
        ex.oblige(implies(not_(ins), eq(v, 0)), 'zero outside the table', 'post')
        w = z3.If(toz(lg), EXP(SP2(P, x)), SP2(P, x))
        ex.oblige(implies(ins, eq(toz(v, True), w)), 'interpolated value (of the exponent, for tables of logarithms), with the pitch sign of the table', 'post')
        frame(ex, S0, ex.S)
    out.append(('momentum space: evaluation', u_ms_eval))

    def u_ms_log(ex):
        o = LV(ex.alloc_rec(NM, 'sym', name='f'))
        np_, nx, p, x, f = grids(ex)

        def spec(ex, fd, this, args):
            ex.S.ghost['a'] = tuple(ex.read(a) for a in args)
            ex.S.ghost['this'] = this.rid
        ex.contracts = {fn(b, 'Initialize', 6, NM)['_m']: spec}
        A = ex.node(f.rid).a
        it = ex.fint('interp')
        J = z3.Int('J')
        neg = z3.Exists([J], z3.And(J >= 0, J < toz(mul(np_, nx)), toz(A.get(J), True) < 0))
        k, v = run_fn(ex, fn(b, 'InitializeLog', 6, NM), o, [cell(ex, np_, UINT), cell(ex, nx, UINT), cell(ex, p, PT), cell(ex, x, PT), cell(ex, f, PT), cell(ex, it, UINT)])
        if k == 'throw':
            kk = ex.S.ghost['exit_k']
            ex.oblige(and_(le(0, kk), lt(kk, mul(np_, nx)), lt(A.get(kk), 0)), 'a table is refused only if it has a negative value', 'post')
            return
        j = ex.fint('j', 0)
        ex.assume(lt(j, mul(np_, nx)))
        g = ex.S.ghost.get('a')
        ex.oblige(g is not None and ex.S.ghost['this'] == o.rid, 'table is set up', 'post')
        ex.oblige(and_(eq(g[0], np_), eq(g[1], nx), eq(g[5], it)), 'sizes and kind of interpolation are passed on', 'post')
        ex.oblige(g[2].rid == p.rid and g[3].rid == x.rid and g[4].rid != f.rid, 'grids are passed on', 'post')
        ex.oblige(and_(eq((g[2].off if g[2].off is not None else 0), 0), eq((g[3].off if g[3].off is not None else 0), 0), eq((g[4].off if g[4].off is not None else 0), 0), le(mul(np_, nx), ex.node(g[4].rid).n)), 'table of logarithms is complete', 'post')
        P08_inst(ex, j)
        ex.oblige(not_(lt(A.get(j), 0)), 'a table with a negative value is refused', 'post')
        req(ex, el(ex, g[4], j), FN('log')(toz(A.get(j), True)), 'table set up is that of the logarithms')
        ex.oblige(ex.node(f.rid).a is A, 'the table given is not modified', 'post')
        ex.oblige(truth(ex.getf(o, 'logarithmic')), 'the table is marked as logarithmic', 'post')
    from P08 import inst_foralls as P08_inst
    out.append(('momentum space: table of logarithms', u_ms_log))

    def u_ms_clone(ex):
        o = LV(ex.alloc_rec(NM, 'sym', name='f'))
        np_, nx, p, x, f = grids(ex)
        for n, w in (('np', np_), ('nxi', nx), ('p', p), ('xi', x), ('f', f)):
            setc_(ex, o, n, w)

        def spec(ex, fd, this, args):
            ex.S.ghost['a'] = tuple(ex.read(a) for a in args)
            ex.S.ghost['this'] = this.rid
        ex.contracts = {fn(b, 'Initialize', 6, NM)['_m']: spec}
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, 'MinClone', 0, NM), o, [])
        ex.oblige(k == 'ret' and isinstance(v, Ptr) and v.rid is not None and v.rid not in S0.mem, 'copy is a new object', 'post')
        c, g = LV(v.rid), ex.S.ghost.get('a')
        ex.oblige(g is not None and ex.S.ghost['this'] == v.rid, 'copy is set up', 'post')
        ex.oblige(and_(eq(g[0], np_), eq(g[1], nx), eq(g[5], ex.getf(o, 'interptype'))), 'copy has the same size and kind of interpolation', 'post')
        ex.oblige(g[2].rid == p.rid and g[3].rid == x.rid and g[4].rid == f.rid, 'copy uses the same tables', 'post')
        ex.oblige(eqv_(ex.getf(c, 'logarithmic'), ex.getf(o, 'logarithmic')), 'copy is logarithmic iff the original is', 'post')
        ex.oblige(eqv_(ex.getf(c, 'flipPitchSign'), ex.getf(o, 'flipPitchSign')), 'copy has the same pitch sign', 'post')
        frame(ex, S0, ex.S)
    out.append(('momentum space: copy', u_ms_clone))

    # ------------------------------------------------------------ radial grid
    def mk(ex, asc, n0=2, n=None):
        """distribution with n radii, strictly monotonic; momentum-space functions known by number"""
        o = LV(ex.alloc_rec(ND, 'sym', name='F'))
        if n is None:
            n = ex.fint('n', n0, 2 ** 30)
        R = z3.Function('R', z3.IntSort(), RS)
        pool = ex.put(Arr(2 ** 40, BaseArr(lambda k: 0), UINT))
        vr = ex.fld(o, 'r')
        vm = ex.fld(o, 'msdf')
        ex.setnode(vr.rid, ex.node(vr.rid).w(size=n, a=BaseArr(lambda k: R(toz(k)))))
        ex.setnode(vm.rid, ex.node(vm.rid).w(size=n, a=BaseArr(lambda k: Ptr(pool, k))))
        I_, J_ = z3.Ints('I! J!')
        q = (lambda a, c: a < c) if asc else (lambda a, c: a > c)
        ex.assume(z3.ForAll([I_, J_], z3.Implies(z3.And(0 <= I_, I_ < J_, J_ < toz(n)), q(R(I_), R(J_))), patterns=[z3.MultiPattern(R(I_), R(J_))]))
        lo, hi = (R(0), R(toz(sub(n, 1)))) if asc else (R(toz(sub(n, 1))), R(0))
        setc_(ex, o, 'rmin', lo)
        setc_(ex, o, 'rmax', hi)
        return o, n, R, pool

    def inv_search(R, rho, n, asc):
        def g(ex, info):
            ints = [key for key in info.left if isinstance(info.base.mem[key[0]], Cell) and info.base.mem[key[0]].ty.k == 'int']
            out = []
            ge = (lambda i: R(toz(i)) <= rho) if asc else (lambda i: R(toz(i)) > rho)
            for a in ints:
                out.append(lambda S, a=a: and_(le(0, loops.getc(S, a)), lt(loops.getc(S, a), n)) if not isinstance(loops.getc(S, a), Uninit) else False)
                out.append(lambda S, a=a: or_(eq(loops.getc(S, a), 0), ge(loops.getc(S, a))) if not isinstance(loops.getc(S, a), Uninit) else False)
                out.append(lambda S, a=a: or_(eq(loops.getc(S, a), sub(n, 1)), not_(ge(loops.getc(S, a)))) if not isinstance(loops.getc(S, a), Uninit) else False)
                for c in ints:
                    if a != c:
                        out.append(lambda S, a=a, c=c: lt(loops.getc(S, a), loops.getc(S, c)) if not isinstance(loops.getc(S, a), Uninit) and not isinstance(loops.getc(S, c), Uninit) else False)
            return out
        return g

    def nearest_ok(R, n, rho, i, asc):
        """i is the position of rho in the grid"""
        lt_ = (lambda a, c: a < c) if asc else (lambda a, c: a > c)
        le_ = (lambda a, c: a <= c) if asc else (lambda a, c: a >= c)
        i = toz(i)
        last = toz(sub(n, 1))
        return z3.And(i >= -1, i <= last,
                      z3.Implies(i == -1, lt_(rho, R(0))),
                      z3.Implies(z3.And(i >= 0, i < last), z3.And(le_(R(i), rho), le_(rho, R(i + 1)))),
                      z3.Implies(i == last, le_(R(last), rho)))

    def u_near(ex, asc):
        o, n, R, pool = mk(ex, asc, 1)
        ex.contracts = {}
        ex.loop_inv = [inv_search(R, RHO, n, asc)]
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, '__FindNearestR', 1, ND), o, [cell(ex, RHO)])
        ex.oblige(k == 'ret', 'search terminates normally', 'post')
        if not asc:
            # a single radius is neither increasing nor decreasing
            ex.assume(lt(1, n))
        ex.oblige(nearest_ok(R, n, RHO, v, asc), 'search finds the interval of the grid that contains the radius', 'post')
        frame(ex, S0, ex.S)
    out.append(('search in an increasing radial grid', lambda ex: u_near(ex, True)))
    out.append(('search in a decreasing radial grid', lambda ex: u_near(ex, False)))

    def u_near0(ex):
        o, n, R, pool = mk(ex, True, n=0)
        k, v = run_fn(ex, fn(b, '__FindNearestR', 1, ND), o, [cell(ex, RHO)])
        ex.oblige(k == 'ret', 'search terminates normally', 'post')
        ex.oblige(eq(v, -1), 'nothing is found in an empty grid', 'post')
    out.append(('search in an empty radial grid', u_near0))

    def near_contract(R, n, asc):
        def s(ex, f, this, args):
            i = ex.fint('ir')
            ex.assume(nearest_ok(R, n, toz(ex.read(args[0]), True), i, asc))
            ex.S.ghost['ir'] = i
            return i
        return s

    def ms_eval(pool):
        def s(ex, f, this, args):
            ex.oblige(this.rid == pool, 'momentum-space function is one of those of the object', 'safety')
            a = [ex.read(x) for x in args]
            return FM(toz(this.idx if this.idx is not None else 0), toz(a[0], True), toz(a[1], True))
        return s

    def u_eval(ex, asc):
        o, n, R, pool = mk(ex, asc, 1)
        if not asc:
            ex.assume(lt(1, n))
        ex.contracts = {fn(b, '__FindNearestR', 1, ND)['_m']: near_contract(R, n, asc), fn(b, 'Eval', 2, NM)['_m']: ms_eval(pool)}
        al = truth(ex.getf(o, 'allowExtrapolation'))
        rho = RHO - SHIFT
        lo, hi = ex.getf(o, 'rmin'), ex.getf(o, 'rmax')
        out_ = z3.And(z3.Not(toz(al)), z3.Or(rho < lo, rho > hi))
        S0 = ex.S.copy()
        ex.opts['nomerge'] = True
        k, v = run_fn(ex, fn(b, 'Eval', 4, ND), o, [cell(ex, RHO), cell(ex, P), cell(ex, XI), cell(ex, SHIFT)])
        ex.oblige(implies(out_, k == 'throw'), 'radii outside the grid are refused unless extrapolation is permitted', 'post')
        ex.oblige(implies(not_(out_), k == 'ret'), 'all other radii are accepted', 'post')
        frame(ex, S0, ex.S)
        if k == 'throw':
            return
        v = toz(v, True)
        last = toz(sub(n, 1))

        def line(i):
            return FM(i, P, XI) + (FM(i + 1, P, XI) - FM(i, P, XI)) * (rho - R(i)) / (R(i + 1) - R(i))
        bt = (lambda a, c: a < c) if asc else (lambda a, c: a > c)
        i = ex.fint('i', 0)
        ex.assume(lt(i, last))
        strict = z3.And(bt(R(i), rho), bt(rho, R(i + 1)))
        ex.oblige(implies(eq(n, 1), v == FM(0, P, XI)), 'a single radius: the same everywhere', 'post')
        ex.assume(lt(1, n))
        d = [(0, 1), (last - 1, last), (i, i + 1)]
        for a, c in d:
            ex.assume(z3.Implies(z3.And(toz(a) >= 0, toz(c) <= last), bt(R(toz(a)), R(toz(c)))))
        ex.oblige(implies(z3.And(R(i) == rho), v == FM(i, P, XI)), 'at a grid point: the function of that radius', 'post')
        ex.oblige(implies(R(last) == rho, v == FM(last, P, XI)), 'at the last grid point: the function of that radius', 'post')
        if ex.branch(strict):
            if 'ir' not in ex.S.ghost or ex.branch(eq(i, ex.S.ghost['ir'])):
                req(ex, v, line(i), 'between grid points: linear interpolation in radius')
            else:
                req(ex, v, line(i), 'between grid points: linear interpolation in radius')
            return
        ex.oblige(implies(bt(rho, R(0)), v == line(z3.IntVal(0))), 'before the first radius: linear extrapolation of the first two', 'post')
        if ex.branch(bt(R(last), rho)):
            req(ex, v, line(last - 1), 'beyond the last radius: linear extrapolation of the last two')
    out.append(('evaluation, increasing grid', lambda ex: u_eval(ex, True)))
    out.append(('evaluation, decreasing grid', lambda ex: u_eval(ex, False)))

    def u_insert(ex, w):
        asc = w != 'dec'
        o, n, R, pool = mk(ex, asc, 1 if asc else 2, 0 if w == 'empty' else None)
        ex.contracts = {fn(b, '__FindNearestR', 1, ND)['_m']: near_contract(R, n, asc) if w != 'empty' else (lambda ex, f, this, args: -1)}
        J = z3.Int('J!')
        ex.assume(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < toz(n)), R(J) != RHO), patterns=[R(J)]))
        new = ex.put(Cell(0, UINT))
        m0 = ex.node(ex.fld(o, 'msdf').rid).p['a']
        lo, hi = ex.getf(o, 'rmin'), ex.getf(o, 'rmax')
        k, v = run_fn(ex, [d for d in b.prog.find_fn(ND + '::InsertMomentumSpaceDistribution') if b.prog.body(d) and len(params(d)) == 2][0], o, [cell(ex, RHO), cell(ex, Ptr(new, 0), PT)])
        ex.oblige(k == 'ret', 'insertion terminates normally', 'post')
        vr, vm = ex.node(ex.fld(o, 'r').rid), ex.node(ex.fld(o, 'msdf').rid)
        ex.oblige(and_(eq(vr.p['size'], add(n, 1)), eq(vm.p['size'], add(n, 1))), 'one radius and one function more', 'post')
        ex.oblige(and_(le(0, v), le(v, n)), 'position of the new radius', 'post')
        req(ex, ex.read(LV(ex.fld(o, 'r').rid, v)), RHO, 'the new radius is at the position returned')
        j = ex.fint('j', 0)
        ex.assume(le(j, n))
        bt = (lambda a, c: a < c) if asc else (lambda a, c: a > c)
        old = sub(j, 1) if ex.branch(lt(v, j)) else j
        nm = ex.read(LV(ex.fld(o, 'msdf').rid, j))
        if ex.branch(eq(j, v)):
            ex.oblige(isinstance(nm, Ptr) and nm.rid == new, 'the new function belongs to the new radius', 'post')
        else:
            req(ex, ex.read(LV(ex.fld(o, 'r').rid, j)), R(toz(old)), 'all other radii are kept, in order')
            ex.oblige(isinstance(nm, Ptr) and nm.rid == pool, 'all other functions are kept', 'post')
            ex.oblige(eq(nm.off if nm.off is not None else 0, old), 'all other functions stay with their radius', 'post')
            ex.oblige(bt(R(toz(old)), RHO) if ex.branch(lt(j, v)) else bt(RHO, R(toz(old))), 'grid stays sorted', 'post')
        if w == 'empty':
            ex.oblige(and_(eq(ex.getf(o, 'rmin'), RHO), eq(ex.getf(o, 'rmax'), RHO)), 'limits of the grid', 'post')
        else:
            req(ex, ex.getf(o, 'rmin'), z3.If(RHO < lo, RHO, lo), 'lower limit of the grid')
            req(ex, ex.getf(o, 'rmax'), z3.If(RHO > hi, RHO, hi), 'upper limit of the grid')
    for w, t in (('empty', 'an empty'), ('inc', 'an increasing'), ('dec', 'a decreasing')):
        out.append(('insertion into %s grid' % t, lambda ex, w=w: u_insert(ex, w)))

    def u_new(ex):
        c = ex.construct(b.prog.ty(NM), [], None, 'new')
        ex.oblige(not_(truth(ex.getf(c, 'logarithmic'))), 'a new momentum-space function holds values, not logarithms', 'post')
        ex.oblige(not_(truth(ex.getf(c, 'flipPitchSign'))), 'a new momentum-space function keeps the sign of the pitch', 'post')
    out.append(('momentum space: new', u_new))

    # ------------------------------------------------------------ set up from tables
    class Pool:
        """momentum-space functions made by the code under proof, known by number; what they were told"""

        def __init__(s, ex, np_, nx, p, x):
            s.rid = ex.put(Arr(2 ** 40, BaseArr(lambda k: 0), UINT))
            s.cnt = ex.put(Cell(0, UINT))
            s.off = ex.put(Arr(2 ** 40, UninitArr(), UINT))
            s.src = ex.put(Arr(2 ** 40, UninitArr(), PT))
            s.kind = ex.put(Arr(2 ** 40, UninitArr(), UINT))
            s.log = ex.put(Arr(2 ** 40, UninitArr(), UINT))
            s.args = np_, nx, p, x
            ex.newhook = {NM: s.new}
            ex.opts['ptrpool'] = s.rid

        def new(s, ex, args):
            if args:
                raise Unsupported('constructor')
            c = ex.node(s.cnt).v
            ex.setnode(s.cnt, Cell(add(c, 1), UINT))
            ex.write(LV(s.log, c), 0)
            return Ptr(s.rid, c)

        def init(s, ex, f, this, args):
            np_, nx, p, x = s.args
            a = [ex.read(q) for q in args]
            ex.oblige(this.rid == s.rid, 'momentum-space function is a new one', 'safety')
            ex.oblige(and_(eq(a[0], np_), eq(a[1], nx)), 'momentum-space functions have the size of the tables', 'post')
            ex.oblige(a[2].rid == p.rid and a[3].rid == x.rid, 'momentum-space functions have the grids given', 'post')
            ex.oblige(and_(eq(off(a[2]), 0), eq(off(a[3]), 0)), 'momentum-space functions have the whole grids given', 'post')
            ex.write(LV(s.off, this.idx), off(a[4]))
            ex.write(LV(s.src, this.idx), Ptr(a[4].rid, 0))
            ex.write(LV(s.kind, this.idx), a[5])

        def setlog(s, ex, f, this, args):
            ex.oblige(this.rid == s.rid, 'momentum-space function is a new one', 'safety')
            ex.write(LV(s.log, this.idx), ite(truth(ex.read(args[0])), 1, 0))

        def contracts(s):
            return {fn(b, 'Initialize', 6, NM)['_m']: s.init, fn(b, 'SetLogarithmic', 1, NM)['_m']: s.setlog}

    def off(p):
        return p.off if p.off is not None else 0

    def tables(ex):
        np_, nx, nr = ex.fint('np', 2, 2 ** 10), ex.fint('nxi', 2, 2 ** 10), ex.fint('nr', 1, 2 ** 10)
        p = Ptr(ex.put(Arr(np_, ex.sym_arr(REALT, 'p'), REALT), 'new[]'), 0)
        x = Ptr(ex.put(Arr(nx, ex.sym_arr(REALT, 'xi'), REALT), 'new[]'), 0)
        r = Ptr(ex.put(Arr(nr, ex.sym_arr(REALT, 'r'), REALT), 'new[]'), 0)
        f = Ptr(ex.put(Arr(mul(nr, mul(np_, nx)), ex.sym_arr(REALT, 'f'), REALT), 'new[]'), 0)
        ex.assume(z3.And(toz(np_) * toz(nx) <= 2 ** 20, toz(np_) * toz(nx) >= 4))
        return nr, np_, nx, r, p, x, f

    def u_init(ex, cubic):
        o = LV(ex.alloc_rec(ND, 'sym', name='F'))
        old = ex.fint('n0', 0, 2 ** 30)
        for w in ('r', 'msdf'):         # whatever was there before
            v = ex.fld(o, w)
            ex.setnode(v.rid, ex.node(v.rid).w(size=old, a=ex.sym_arr(REALT, 'old') if w == 'r' else BaseArr(lambda k: NULL)))
        nr, np_, nx, r, p, x, f = tables(ex)
        pool = Pool(ex, np_, nx, p, x)
        ex.contracts = pool.contracts()
        R = ex.node(r.rid).a
        k, v = run_fn(ex, fn(b, 'Initialize', 8, ND), o, [cell(ex, nr, UINT), cell(ex, np_, UINT), cell(ex, nx, UINT), cell(ex, r, PT), cell(ex, p, PT), cell(ex, x, PT), cell(ex, f, PT), cell(ex, 1 if cubic else 0, UINT)])
        j = ex.fint('j', 0)
        if k == 'throw':
            kk = ex.S.ghost.get('exit_k')
            ex.oblige(lt(1, nr), 'a single radius is not refused', 'post')
            if kk is None:
                raise Unsupported('refusal outside the loop')
            up = lt(R.get(0), R.get(1))
            c = or_(*[and_(le(0, i), lt(add(i, 1), nr), or_(and_(le(R.get(0), R.get(1)), le(R.get(add(i, 1)), R.get(i))), and_(le(R.get(1), R.get(0)), le(R.get(i), R.get(add(i, 1)))))) for i in (kk, sub(kk, 1))])
            ex.oblige(c, 'a radial grid is refused only if it is not strictly monotonic', 'post')
            return
        ex.assume(lt(j, nr))
        j1 = add(j, 1)
        P08_inst(ex, j, sub(j, 1), 0)
        ex.oblige(implies(lt(j1, nr), or_(and_(lt(R.get(0), R.get(1)), lt(R.get(j), R.get(j1))), and_(lt(R.get(1), R.get(0)), lt(R.get(j1), R.get(j))))), 'a radial grid that is not strictly monotonic is refused', 'post')
        vr, vm = ex.node(ex.fld(o, 'r').rid), ex.node(ex.fld(o, 'msdf').rid)
        ex.oblige(and_(eq(vr.p['size'], nr), eq(vm.p['size'], nr)), 'one function for each radius', 'post')
        req(ex, ex.read(LV(ex.fld(o, 'r').rid, j)), R.get(j), 'radii are those given, in order')
        last = R.get(sub(nr, 1))
        req(ex, ex.getf(o, 'rmin'), z3.If(toz(le(R.get(0), last)), toz(R.get(0), True), toz(last, True)), 'lower limit of the grid')
        req(ex, ex.getf(o, 'rmax'), z3.If(toz(le(R.get(0), last)), toz(last, True), toz(R.get(0), True)), 'upper limit of the grid')
        told(ex, o, pool, j, f, mul(j, mul(np_, nx)), cubic, 0)
    def told(ex, o, pool, j, f, of, cubic, log):
        m = ex.read(LV(ex.fld(o, 'msdf').rid, j))
        ex.oblige(isinstance(m, Ptr) and m.rid == pool.rid, 'functions are new ones', 'post')
        i = off(m)
        s = ex.read(LV(pool.src, i))
        ex.oblige(isinstance(s, Ptr) and s.rid == f.rid, 'functions are set up from the table given', 'post')
        ex.oblige(eq(ex.read(LV(pool.off, i)), of), 'each radius has its own part of the table', 'post')
        ex.oblige(eq(ex.read(LV(pool.kind, i)), 1 if cubic else 0), 'interpolation is of the kind asked for', 'post')
        ex.oblige(eq(ex.read(LV(pool.log, i)), log), 'the table is treated as logarithms iff it consists of them', 'post')
    out.append(('set up, linear', lambda ex: u_init(ex, False)))
    out.append(('set up, cubic', lambda ex: u_init(ex, True)))

    def u_initlog(ex, alloc):
        o = LV(ex.alloc_rec(ND, 'sym', name='F'))
        nr, np_, nx, r, p, x, f = tables(ex)
        ex.assume(z3.And(toz(nr) * toz(np_) >= 2, toz(nr) * toz(np_) <= 2 ** 20, toz(nr) * toz(np_) * toz(nx) >= 4, toz(nr) * toz(np_) * toz(nx) <= 2 ** 30))
        pool = Pool(ex, np_, nx, p, x)
        A = ex.node(f.rid).a
        J = z3.Int('J!')
        ex.assume(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < toz(nr) * toz(np_) * toz(nx)), toz(A.get(J), True) > 0), patterns=[toz(A.get(J), True)]))
        it = ex.fint('interp')

        def spec(ex, fd, this, args):
            a = tuple(ex.read(q) for q in args)
            ex.oblige(this.rid == o.rid and 'a' not in ex.S.ghost, 'the object is set up once', 'post')
            ex.S.ghost['a'] = a
            v = ex.fld(o, 'msdf')
            ex.setnode(v.rid, ex.node(v.rid).w(size=a[0], a=BaseArr(lambda k: Ptr(pool.rid, k))))
            v = ex.fld(o, 'r')
            ex.setnode(v.rid, ex.node(v.rid).w(size=a[0], a=ex.node(a[3].rid).a))
            ex.setnode(pool.log, Arr(2 ** 40, BaseArr(lambda k: 0), UINT))
        ex.contracts = {fn(b, 'Initialize', 8, ND)['_m']: spec, fn(b, 'SetLogarithmic', 1, NM)['_m']: pool.setlog}
        k, v = run_fn(ex, fn(b, 'InitializeLog', 9, ND), o, [cell(ex, nr, UINT), cell(ex, np_, UINT), cell(ex, nx, UINT), cell(ex, r, PT), cell(ex, p, PT), cell(ex, x, PT), cell(ex, f, PT), cell(ex, it, UINT), cell(ex, alloc, BOOLT)])
        ex.oblige(k == 'ret', 'set up terminates normally', 'post')
        g = ex.S.ghost.get('a')
        ex.oblige(g is not None, 'the object is set up', 'post')
        ex.oblige(and_(eq(g[0], nr), eq(g[1], np_), eq(g[2], nx), eq(g[7], it)), 'sizes and kind of interpolation are passed on', 'post')
        ex.oblige(g[3].rid == r.rid and g[4].rid == p.rid and g[5].rid == x.rid and (g[6].rid != f.rid) == alloc, 'grids are passed on', 'post')
        ex.oblige(and_(*[eq(off(g[i]), 0) for i in (3, 4, 5, 6)]), 'grids are passed on whole', 'post')
        j = ex.fint('j', 0)
        ex.assume(lt(j, mul(mul(nr, np_), nx)))
        req(ex, el(ex, g[6], j), FN('log')(toz(A.get(j), True)), 'table set up is that of the logarithms')
        if alloc:
            ex.oblige(ex.node(f.rid).a is A, 'the table given is not modified', 'post')
        i = ex.fint('i', 0)
        ex.assume(lt(i, nr))
        ex.oblige(eq(ex.read(LV(pool.log, i)), 1), 'every function is marked as logarithmic', 'post')
    out.append(('set up from logarithms, table replaced', lambda ex: u_initlog(ex, False)))
    out.append(('set up from logarithms, new table', lambda ex: u_initlog(ex, True)))

    def u_insert7(ex, log, alloc, cubic):
        o, n, R, pool0 = mk(ex, True, 1)
        J = z3.Int('J!')
        ex.assume(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < toz(n)), R(J) != RHO), patterns=[R(J)]))
        nr, np_, nx, r, p, x, f = tables(ex)
        pool = Pool(ex, np_, nx, p, x)
        A = ex.node(f.rid).a
        ex.assume(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < toz(np_) * toz(nx)), toz(A.get(J), True) > 0), patterns=[toz(A.get(J), True)]))
        ex.contracts = pool.contracts()
        ex.contracts[fn(b, '__FindNearestR', 1, ND)['_m']] = near_contract(R, n, True)
        args = [cell(ex, np_, UINT), cell(ex, nx, UINT), cell(ex, RHO), cell(ex, p, PT), cell(ex, x, PT), cell(ex, f, PT), cell(ex, 1 if cubic else 0, UINT)]
        nm = 'InsertMomentumSpaceDistribution'
        if log:
            nm += 'Log'
            args.append(cell(ex, alloc, BOOLT))
        k, v = run_fn(ex, [d for d in b.prog.find_fn(ND + '::' + nm) if b.prog.body(d) and len(params(d)) == len(args)][0], o, args)
        ex.oblige(k == 'ret', 'insertion terminates normally', 'post')
        ex.oblige(and_(le(0, v), le(v, n)), 'position of the new radius', 'post')
        req(ex, ex.read(LV(ex.fld(o, 'r').rid, v)), RHO, 'the new radius is at the position returned')
        ex.oblige(and_(eq(ex.node(ex.fld(o, 'r').rid).p['size'], add(n, 1)), eq(ex.node(ex.fld(o, 'msdf').rid).p['size'], add(n, 1))), 'one radius and one function more', 'post')
        m = ex.read(LV(ex.fld(o, 'msdf').rid, v))
        ex.oblige(isinstance(m, Ptr) and m.rid == pool.rid, 'the new function belongs to the new radius', 'post')
        s = ex.read(LV(pool.src, off(m)))
        ex.oblige(isinstance(s, Ptr) and (s.rid == f.rid) == (not alloc), 'it is set up from the table given', 'post')
        ex.oblige(eq(ex.read(LV(pool.off, off(m))), 0), 'it is set up from the whole table', 'post')
        ex.oblige(eq(ex.read(LV(pool.kind, off(m))), 1 if cubic else 0), 'interpolation is of the kind asked for', 'post')
        ex.oblige(eq(ex.read(LV(pool.log, off(m))), 1 if log else 0), 'the table is treated as logarithms iff it consists of them', 'post')
        j = ex.fint('j', 0)
        ex.assume(lt(j, mul(np_, nx)))
        req(ex, el(ex, s, j), FN('log')(toz(A.get(j), True)) if log else A.get(j), 'table set up is the one given, or that of its logarithms')
        if alloc:
            ex.oblige(ex.node(f.rid).a is A, 'the table given is not modified', 'post')
    out.append(('insertion of a table, linear', lambda ex: u_insert7(ex, False, False, False)))
    out.append(('insertion of a table, cubic', lambda ex: u_insert7(ex, False, False, True)))
    out.append(('insertion of logarithms, table replaced', lambda ex: u_insert7(ex, True, False, True)))
    out.append(('insertion of logarithms, new table', lambda ex: u_insert7(ex, True, True, False)))

    def u_clone(ex, asc):
        o, n, R, pool = mk(ex, asc, 1)
        ins = dict(cnt=ex.put(Cell(0, UINT)), r=ex.put(Arr(2 ** 40, UninitArr(), REALT)), m=ex.put(Arr(2 ** 40, UninitArr(), UINT)))
        copies = ex.put(Arr(2 ** 40, BaseArr(lambda k: 0), UINT))

        def clone(ex, f, this, args):
            ex.oblige(this.rid == pool, 'a function of the original is copied', 'safety')
            return Ptr(copies, this.idx)

        def insert(ex, f, this, args):
            rho, m = ex.read(args[0]), ex.read(args[1])
            ex.oblige(this.rid != o.rid, 'the original is not changed', 'post')
            ex.oblige(m.rid == copies, 'copies of the functions are inserted', 'post')
            c = ex.node(ins['cnt']).v
            ex.write(LV(ins['r'], c), rho)
            ex.write(LV(ins['m'], c), off(m))
            ex.setnode(ins['cnt'], Cell(add(c, 1), UINT))
            return c
        i2 = [d for d in b.prog.find_fn(ND + '::InsertMomentumSpaceDistribution') if b.prog.body(d) and len(params(d)) == 2][0]
        ex.contracts = {i2['_m']: insert, fn(b, 'MinClone', 0, NM)['_m']: clone}
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, 'MinClone', 0, ND), o, [])
        ex.oblige(k == 'ret' and isinstance(v, Ptr) and v.rid is not None and v.rid not in S0.mem, 'copy is a new object', 'post')
        ex.oblige(eq(ex.node(ins['cnt']).v, n), 'copy has as many radii', 'post')
        j = ex.fint('j', 0)
        ex.assume(lt(j, n))
        req(ex, ex.read(LV(ins['r'], j)), R(toz(j)), 'copy has the same radii')
        ex.oblige(eq(ex.read(LV(ins['m'], j)), j), 'copy has the function of the original at each radius', 'post')
        c = LV(v.rid)
        ex.oblige(eqv_(ex.getf(c, 'allowExtrapolation'), ex.getf(o, 'allowExtrapolation')), 'copy permits extrapolation iff the original does', 'post')
        ex.oblige(eqv_(ex.getf(c, 'logarithmic'), ex.getf(o, 'logarithmic')), 'copy is logarithmic iff the original is', 'post')
        frame(ex, S0, ex.S, tuple(ins.values()))
    out.append(('copy', lambda ex: u_clone(ex, True)))

    def u_flip(ex):
        o, n, R, pool = mk(ex, True, 0)
        fl = ex.put(Arr(2 ** 40, UninitArr(), UINT))
        val = ex.fbool('flip')

        def flip(ex, f, this, args):
            ex.oblige(this.rid == pool, 'a function of the object is changed', 'safety')
            ex.write(LV(fl, this.idx), ite(truth(ex.read(args[0])), 1, 0))
        ex.contracts = {fn(b, 'FlipPitchSign', 1, NM)['_m']: flip}
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, 'FlipPitchSign', 1, ND), o, [cell(ex, val, BOOLT)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        j = ex.fint('j', 0)
        ex.assume(lt(j, n))
        ex.oblige(eq(ex.read(LV(fl, j)), ite(val, 1, 0)), 'every function gets the pitch sign', 'post')
        frame(ex, S0, ex.S, (fl,))
    out.append(('pitch sign of all radii', u_flip))
    return out

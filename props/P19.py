from frame import *
from P08 import cell, PT
from P12 import req
import P10
from P10 import File, VAL, HAS, ROWS, COLS, lenof, islist, has, OPENS, TEXT
import loops, prove, math
from stdlib import mkstr, sval

TITLE = 'Legendre-mode distributions'
HARNESS = dict(src='P19.cpp', link='all')
D = 'src/DistributionFunction/'
CD, GC, NM = 'CODEDistributionFunction', 'GOCODEDistributionFunction', 'NumericMomentumSpaceDistributionFunction'
IS, RS = z3.IntSort(), z3.RealSort()
P, XI, RHO, SHIFT = z3.Reals('p xi r shift')
IT = Ty('int', 'int', bits=32, signed=True)
BT = Ty('bool', 'bool')
LEG = z3.Function('legendre', IS, RS, RS)
ITP = z3.Function('interpolated_mode', IS, RS, RS)
FM = z3.Function('fm', IS, RS, RS, RS)


def legdef(a):
    """P_0 = 1, P_1 = x, n P_n = (2n-1) x P_{n-1} - (n-1) P_{n-2}"""
    n, x = a.arg(0), a.arg(1)
    r = z3.ToReal(n)
    return z3.And(z3.Implies(n == 0, a == 1), z3.Implies(n == 1, a == x),
                  z3.Implies(n >= 2, a == (2 * r - 1) / r * x * LEG(n - 1, x) - (r - 1) / r * LEG(n - 2, x)))


def load(b):
    b.load([D + CD + '.cpp', D + GC + '.cpp', 'src/SFile/SFile.cpp'])


def fn(b, name, n=None, cls=CD, pred=lambda d: True):
    c = [d for d in b.prog.find_fn(cls + '::' + name) if b.prog.body(d) and (n is None or len(params(d)) == n) and pred(d)]
    if len(c) != 1:
        raise Unsupported('%s::%s: %d candidates' % (cls, name, len(c)))
    return c[0]


def off(p):
    return 0 if p.off is None else p.off


def setf(ex, o, n, v):
    f = ex.fld(o, n)
    ex.setnode(f.rid, Cell(v, ex.node(f.rid).ty))


def sgn(k):
    return z3.If(toz(k) % 2 == 0, z3.RealVal(1), z3.RealVal(-1))


def units(b):
    U = []
    prove.DEFS['legendre'] = legdef

    # ------------------------------------------------------------ Legendre polynomials
    def u_leg(ex, n):
        o = LV(ex.alloc_rec(CD, 'sym', name='c'))
        if n is None:
            n = ex.fint('n', 3, 2 ** 30)
        a = ex.put(Arr(n, ex.sym_arr(REALT, 'old'), REALT), 'new[]')

        def inv(ex, info):
            out = []
            if (a, 'a') not in info.left:
                return out
            for d in (3, 2, 1, 0):
                def g(S, k, d=d):
                    q = z3.Int('q!')
                    e = loops.getc(S, (a, 'a')).get(q)
                    return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < toz(k) + d, q < toz(n)), toz(e, True) == LEG(q, XI)))
                g.wantsk = True
                out.append(g)
            return out
        ex.loop_inv = [inv]
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, 'ComputeLegendrePolynomials'), o, [cell(ex, Ptr(a, 0), PT), cell(ex, XI), cell(ex, n, IT)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        j = ex.fint('j', 0)
        ex.assume(lt(j, n))
        from P08 import inst_foralls
        inst_foralls(ex, j)
        req(ex, ex.read(LV(a, j)), LEG(toz(j), XI), 'Legendre polynomials by their recurrence')
        frame(ex, S0, ex.S, except_=(a,))
    for n in (1, 2, None):
        U.append(('Legendre polynomials, %s' % ('any number' if n is None else n), lambda ex, n=n: u_leg(ex, n)))

    def leg_contract(ex, f, this, args):
        p, x, n = (ex.read(q) for q in args)
        x = toz(x, True)
        ex.oblige(le(1, n), 'at least one polynomial', 'safety')
        ex.oblige(isinstance(p, Ptr) and p.rid is not None, 'room for the polynomials', 'safety')
        ex.oblige(and_(eq(off(p), 0), eq(n, ex.node(p.rid).n)), 'room for the polynomials', 'safety')
        nd = ex.node(p.rid)
        ex.setnode(p.rid, Arr(nd.n, BaseArr(lambda k: LEG(toz(k), x)), REALT))

    # ------------------------------------------------------------ the object
    def mk(ex, cached=None):
        """cached: None (never evaluated) or the pitch for which the polynomials are stored"""
        o = LV(ex.alloc_rec(CD, 'sym', name='c'))
        np_, nl = ex.fint('np', 2, 2 ** 14), ex.fint('nleg', 1, 2 ** 14)
        ex.assume(z3.And(toz(np_) * toz(nl) >= 2, toz(np_) * toz(nl) < 2 ** 28))
        pr = Ptr(ex.put(Arr(np_, ex.sym_arr(REALT, 'p'), REALT), 'new[]'), 0)
        f = Ptr(ex.put(Arr(mul(np_, nl), ex.sym_arr(REALT, 'f'), REALT), 'new[]'), 0)
        nan = ex.lib.nan(ex)
        lg = ex.put(Arr(nl, ex.sym_arr(REALT, 'leg') if cached is None else BaseArr(lambda k: LEG(toz(k), cached)), REALT), 'new[]')
        pool = ex.put(Arr(2 ** 40, BaseArr(lambda k: 0), UINT))
        it = ex.put(Arr(nl, BaseArr(lambda k: Ptr(pool, k)), PT), 'new[]')
        acc = ex.put(Cell(0, UINT))
        for n, v in (('np', np_), ('nleg', nl), ('p', pr), ('f', f), ('legendre', Ptr(lg, 0)), ('xileg', nan if cached is None else cached), ('interp', Ptr(it, 0)), ('interp_accel', Ptr(acc, 0))):
            setf(ex, o, n, v)
        return o, np_, nl, pr, f, lg, pool, acc

    def u_eval(ex, cached):
        c = z3.Real('xi_before') if cached else None
        o, np_, nl, pr, f, lg, pool, acc = mk(ex, c)
        ex.assume(XI != ex.lib.nan(ex))
        A = ex.node(pr.rid).a
        first, last = toz(A.get(0), True), toz(A.get(sub(np_, 1)), True)
        ex.assume(first < last)

        def ev(ex, fd, this, args):
            a = [ex.read(q) if isinstance(q, LV) else q for q in args]
            ex.oblige(isinstance(a[0], Ptr) and a[0].rid == pool, 'interpolation is one of those of the object', 'safety')
            i = off(a[0])
            ex.oblige(and_(le(0, i), lt(i, nl)), 'interpolation is one of those of the object', 'safety')
            ex.oblige(a[1].rid == pr.rid and a[2].rid == f.rid and a[4].rid == acc, 'interpolation uses the tables of the object', 'safety')
            ex.oblige(and_(eq(off(a[1]), 0), eq(off(a[2]), mul(i, np_))), 'each mode is interpolated in its own part of the table', 'safety')
            ex.oblige(and_(le(first, a[3]), le(a[3], last)), 'interpolation only within the table', 'safety')
            return ITP(toz(i), toz(a[3], True))
        ex.contracts = {'gsl_interp_eval': ev, fn(b, 'ComputeLegendrePolynomials')['_m']: leg_contract}
        S0 = ex.S.copy()
        xl = ex.fld(o, 'xileg').rid
        k, v = run_fn(ex, fn(b, 'Eval', 2), o, [cell(ex, P), cell(ex, XI)])
        ex.oblige(k == 'ret', 'evaluation terminates normally', 'post')
        ins = z3.And(P >= first, P <= last)
        kk = ex.fresh('k', IS)
        s = toz(Sums.mk(kk, ITP(kk, P) * LEG(kk, XI) * sgn(kk), nl), True)
        ex.oblige(implies(not_(ins), eq(v, 0)), 'zero outside the table', 'post')
        ex.assume(ins)
        req(ex, v, z3.If(s > 0, s, z3.RealVal(0)), 'sum of the modes times the Legendre polynomials of the reversed pitch, never negative')
        # what is stored for the next evaluation
        x1 = toz(ex.getf(o, 'xileg'), True)
        j = ex.fint('j', 0)
        ex.assume(lt(j, nl))
        if ex.branch(x1 != ex.lib.nan(ex)):
            req(ex, ex.read(LV(lg, j)), LEG(toz(j), x1), 'stored polynomials are those of the stored pitch')
        lv = ex.getf(o, 'legendre')
        ex.oblige(lv.rid == lg, 'polynomials stay where they are', 'post')
        frame(ex, S0, ex.S, except_=(lg, xl))
    U.append(('evaluation, first', lambda ex: u_eval(ex, False)))
    U.append(('evaluation, polynomials of an earlier one stored', lambda ex: u_eval(ex, True)))

    KINDS = ('linear', 'polynomial', 'cspline', 'cspline_periodic', 'akima', 'akima_periodic', 'steffen')

    def u_init(ex, kind):
        """Initialize and InitInterpolation"""
        o = LV(ex.alloc_rec(CD, 'sym', name='c'))
        np_, nl = ex.fint('np', 2, 2 ** 14), ex.fint('nleg', 1, 2 ** 14)
        ex.assume(z3.And(toz(np_) * toz(nl) >= 2, toz(np_) * toz(nl) < 2 ** 28))
        pr = Ptr(ex.put(Arr(np_, ex.sym_arr(REALT, 'p'), REALT), 'new[]'), 0)
        f = Ptr(ex.put(Arr(mul(np_, nl), ex.sym_arr(REALT, 'f'), REALT), 'new[]'), 0)
        pool = ex.put(Arr(2 ** 40, BaseArr(lambda k: 0), UINT))
        ex.opts['ptrpool'] = pool
        cnt = ex.put(Cell(0, UINT))
        of = ex.put(Arr(2 ** 40, UninitArr(), UINT))
        acc = ex.put(Cell(0, UINT))
        want = ex.read(ex.lib.global_var(ex, 'gsl_interp_' + KINDS[kind])) if kind is not None else None

        def alloc(ex, fd, this, args):
            t = ex.read(args[0]) if isinstance(args[0], LV) else args[0]
            ex.oblige(want is not None and isinstance(t, Ptr) and t.rid == want.rid, 'interpolation is of the kind asked for', 'post')
            ex.oblige(eq(ex.read(args[1]), np_), 'size of the interpolation', 'post')
            c = ex.node(cnt).v
            ex.setnode(cnt, Cell(add(c, 1), UINT))
            return Ptr(pool, c)

        def init(ex, fd, this, args):
            a = [ex.read(q) if isinstance(q, LV) else q for q in args]
            ex.oblige(isinstance(a[0], Ptr) and a[0].rid == pool, 'interpolation allocated before it is initialised', 'safety')
            ex.oblige(a[1].rid == pr.rid and a[2].rid == f.rid, 'interpolation uses the tables given', 'post')
            ex.oblige(and_(eq(off(a[1]), 0), eq(a[3], np_)), 'interpolation uses the whole grid', 'post')
            ex.oblige(and_(le(0, off(a[2])), le(add(off(a[2]), np_), mul(np_, nl))), 'interpolation within the table', 'safety')
            ex.write(LV(of, off(a[0])), off(a[2]))
            return 0
        ex.contracts = {'gsl_interp_accel_alloc': lambda ex, fd, this, args: Ptr(acc, 0), 'gsl_interp_alloc': alloc, 'gsl_interp_init': init}
        m0 = {q.rid: ex.node(q.rid).a for q in (pr, f)}
        ity = kind if kind is not None else ex.fint('kind')
        if kind is None:
            ex.assume(z3.Or(ity < 0, ity > 6))
        k, v = run_fn(ex, fn(b, 'Initialize'), o, [cell(ex, np_, UINT), cell(ex, nl, UINT), cell(ex, pr, PT), cell(ex, f, PT), cell(ex, ity, IT)])
        if kind is None:
            ex.oblige(k == 'throw' and v == 'SOFTLibException', 'unknown kinds of interpolation are refused', 'post')
            return
        ex.oblige(k == 'ret', 'set up terminates normally', 'post')
        ex.oblige(and_(eq(ex.getf(o, 'np'), np_), eq(ex.getf(o, 'nleg'), nl), eq(ex.getf(o, 'interptype'), kind)), 'sizes and kind are stored', 'post')
        for n, w in (('p', pr), ('f', f)):
            g = ex.getf(o, n)
            ex.oblige(isinstance(g, Ptr) and g.rid == w.rid and off(g) == 0, n + ' is the table given', 'post')
        ex.oblige(eq(ex.getf(o, 'xileg'), ex.lib.nan(ex)), 'no polynomials are stored yet', 'post')
        lg = ex.getf(o, 'legendre')
        ex.oblige(isinstance(lg, Ptr) and lg.rid is not None and eq(ex.node(lg.rid).n, nl), 'room for the polynomials', 'post')
        ex.oblige(eq(ex.node(lg.rid).n, nl), 'room for the polynomials', 'post')
        ex.oblige(ex.getf(o, 'interp_accel').rid == acc, 'search accelerator', 'post')
        it = ex.getf(o, 'interp')
        ex.oblige(isinstance(it, Ptr) and it.rid is not None, 'one interpolation for each mode', 'post')
        ex.oblige(le(nl, ex.node(it.rid).n), 'one interpolation for each mode', 'post')
        j = ex.fint('j', 0)
        ex.assume(lt(j, nl))
        h = loops.DECIDED(ex, ex.node(it.rid).a, j)
        ex.oblige(isinstance(h, Ptr) and h.rid == pool, 'interpolations are new ones', 'post')
        ex.oblige(eq(ex.read(LV(of, off(h))), mul(j, np_)), 'each mode has its own part of the table', 'post')
        for r, a in m0.items():
            ex.oblige(ex.node(r).a is a, 'tables are not modified', 'post')
    for i in list(range(7)) + [None]:
        U.append(('set up, %s' % (KINDS[i] if i is not None else 'unknown kind'), lambda ex, i=i: u_init(ex, i)))

    def u_clone(ex):
        o, np_, nl, pr, f, lg, pool, acc = mk(ex, z3.Real('xi_before'))

        def spec(ex, fd, this, args):
            ex.oblige('a' not in ex.S.ghost, 'set up once', 'post')
            ex.S.ghost['a'] = (this.rid,) + tuple(ex.read(q) for q in args)
        ex.contracts = {fn(b, 'Initialize')['_m']: spec}
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, 'MinClone', 0), o, [])
        ex.oblige(k == 'ret' and isinstance(v, Ptr) and v.rid is not None and v.rid not in S0.mem, 'copy is a new object', 'post')
        g = ex.S.ghost.get('a')
        ex.oblige(g is not None and g[0] == v.rid, 'copy is set up', 'post')
        ex.oblige(and_(eq(g[1], np_), eq(g[2], nl), eq(g[5], ex.getf(o, 'interptype'))), 'copy has the same size and kind', 'post')
        ex.oblige(g[3].rid == pr.rid and g[4].rid == f.rid and off(g[3]) == 0 and off(g[4]) == 0, 'copy uses the same tables', 'post')
        frame(ex, S0, ex.S)
    U.append(('copy', u_clone))

    # ------------------------------------------------------------ conversion
    def u_conv(ex, log, theta):
        o, np_, nl, pr, f, lg, pool, acc = mk(ex, z3.Real('xi_before'))
        nx = ex.fint('nxi', 2, 2 ** 14)
        ex.assume(z3.And(toz(np_) * toz(nx) >= 4, toz(np_) * toz(nx) < 2 ** 28))
        A = ex.node(f.rid).a

        def spec(which):
            def s(ex, fd, this, args):
                ex.oblige('a' not in ex.S.ghost, 'set up once', 'post')
                ex.S.ghost['a'] = (which, this.rid) + tuple(ex.read(q) for q in args)
            return s
        msd = [d for d in b.prog.find_fn(NM + '::Initialize') if len(params(d)) == 6][0]
        msl = [d for d in b.prog.find_fn(NM + '::InitializeLog') if len(params(d)) == 6][0]
        new = ex.put(Cell(0, UINT))
        ex.newhook = {NM: lambda ex, args: Ptr(new, 0)}
        ex.contracts = {b.prog.definition(msd)['_m']: spec('plain'), b.prog.definition(msl)['_m']: spec('log'), fn(b, 'ComputeLegendrePolynomials')['_m']: leg_contract}
        S0 = ex.S.copy()
        xl = ex.fld(o, 'xileg').rid
        it = ex.fint('kind')
        k, v = run_fn(ex, fn(b, 'ToMomentumSpace'), o, [cell(ex, 1 if log else 0, BT), cell(ex, 1 if theta else 0, BT), cell(ex, nx, UINT), cell(ex, it, IT)])
        ex.oblige(k == 'ret' and isinstance(v, Ptr) and v.rid == new, 'a new momentum-space function is returned', 'post')
        g = ex.S.ghost.get('a')
        ex.oblige(g is not None and g[1] == new and g[0] == ('log' if log else 'plain'), 'the function is set up as logarithms iff asked for', 'post')
        ex.oblige(and_(eq(g[2], np_), eq(g[3], nx), eq(g[7], it)), 'sizes and kind of interpolation', 'post')
        ex.oblige(g[4].rid == pr.rid and off(g[4]) == 0, 'momentum grid is that of the modes', 'post')
        i, j = ex.fint('i', 0), ex.fint('j', 0)
        ex.assume(and_(lt(i, nx), lt(j, np_), z3.And(toz(i) * toz(np_) + toz(j) < toz(np_) * toz(nx), toz(i) * toz(np_) >= 0)))
        x = toz(ex.read(LV(g[5].rid, i)), True)
        ri, rn = z3.ToReal(toz(i)), z3.ToReal(toz(nx))
        if theta:
            req(ex, x, FN('cos')(z3.RealVal(Fraction(repr(math.pi))) * (rn - ri - 1) / (rn - 1)), 'pitch grid uniform in angle, from -1 to 1')
        else:
            req(ex, x, -1 + 2 * ri / (rn - 1), 'pitch grid uniform from -1 to 1')
        kk = ex.fresh('k', IS)
        s = toz(Sums.mk(kk, toz(A.get(add(mul(kk, np_), j)), True) * LEG(kk, x) * sgn(kk), nl), True)
        if log:
            s = z3.If(s < 0, z3.RealVal(0), s)
        req(ex, ex.read(LV(g[6].rid, add(mul(i, np_), j))), s, 'table is the sum of the modes at the grid point')
        ex.oblige(and_(eq(ex.node(g[5].rid).n, nx), eq(ex.node(g[6].rid).n, mul(nx, np_))), 'sizes of the tables', 'post')
        x1 = toz(ex.getf(o, 'xileg'), True)
        q = ex.fint('q', 0)
        ex.assume(lt(q, nl))
        if ex.branch(x1 != ex.lib.nan(ex)):
            req(ex, ex.read(LV(lg, q)), LEG(toz(q), x1), 'stored polynomials are those of the stored pitch')
        frame(ex, S0, ex.S, except_=(lg, xl))
    for lg in (False, True):
        for th in (False, True):
            U.append(('conversion to %s, grid uniform in %s' % ('logarithms' if lg else 'values', 'angle' if th else 'pitch'), lambda ex, lg=lg, th=th: u_conv(ex, lg, th)))
    return U


ASSUME = ['double arithmetic treated as real arithmetic', 'nan compares different from every pitch']

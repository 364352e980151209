from frame import *
from P08 import cell, PT

TITLE = 'Radial profiles'
HARNESS = dict(src='P12.cpp', link='all')
D = 'src/DistributionFunction/'
PROF = {'Linear': 2, 'Power': 3, 'Gaussian': 5, 'Bessel': 2}
J0 = z3.Function('J0', z3.RealSort(), z3.RealSort())
J0_ZERO = Fraction('2.40482555769577')


def load(b):
    b.load([D + n + 'RadialProfile.cpp' for n in PROF] + [D + 'RadialDistributionFunction.cpp', D + 'MomentumSpaceDistributionFunction.cpp', D + 'UnitDistributionFunction.cpp'])


def fn(b, name, n, cls):
    c = [d for d in b.prog.find_fn(cls + '::' + name) if b.prog.body(d) and len(params(d)) == n]
    if len(c) != 1:
        raise Unsupported('%s::%s: %d candidates' % (cls, name, len(c)))
    return c[0]


def decl(b, name, n, cls):
    c = [d for d in b.prog.find_fn(cls + '::' + name) if len(params(d)) == n]
    if not c:
        raise Unsupported('%s::%s' % (cls, name))
    return b.prog.definition(c[0])


def req(ex, a, c, label):
    ex.oblige(eq(toz(a, True), toz(c, True)), label, 'post')


def j0(ex, f, this, args):
    return J0(toz(ex.read(args[0]), True))


PAR = [z3.Real(n) for n in ('rmin', 'rmax', 'p1', 'p2', 'p3')]
RHO, SHIFT = z3.Reals('r shift')


def shape(ex, kind, rmin, rmax, q, rho):
    x = (rho - rmin) / (rmax - rmin)
    if kind == 'Linear':
        return 1 - x
    if kind == 'Power':
        return 1 - FN('pow', 2)(x, q[0])
    if kind == 'Gaussian':
        return q[0] * FN('exp')(-((rho - q[1]) * (rho - q[1])) / (q[2] * q[2]))
    return J0(x * z3.RealVal(str(J0_ZERO)))


def ctor(ex, b, kind):
    cls = kind + 'RadialProfile'
    n = PROF[kind]
    o = LV(ex.alloc_rec(cls, 'uninit', name='prof'))
    k, v = run_fn(ex, fn(b, cls, n, cls), o, [cell(ex, p) for p in PAR[:n]])
    bad = PAR[0] >= PAR[1]
    if kind == 'Gaussian':
        bad = z3.Or(bad, *[p <= 0 for p in PAR[2:5]])
    ex.oblige(implies(bad, k == 'throw'), 'parameters that make no sense are refused', 'post')
    ex.oblige(implies(not_(bad), k == 'ret'), 'all other parameters are accepted', 'post')
    return o, k


def check_eval(ex, b, kind, o, label):
    cls = kind + 'RadialProfile'
    rho = RHO - SHIFT
    S0 = ex.S.copy()
    k, v = run_fn(ex, fn(b, 'Eval', 2, cls), o, [cell(ex, RHO), cell(ex, SHIFT)])
    ex.oblige(k == 'ret', label + 'evaluation terminates normally', 'post')
    inside = z3.And(rho >= PAR[0], rho < PAR[1])
    ex.oblige(implies(not_(inside), eq(v, 0)), label + 'profile is zero outside its interval', 'post')
    ex.oblige(implies(inside, eq(toz(v, True), shape(ex, kind, PAR[0], PAR[1], PAR[2:], rho))), label + 'profile has the documented shape at the radius corrected for the drift', 'post')
    frame(ex, S0, ex.S)


def units(b):
    out = []

    def u_prof(ex, kind):
        ex.contracts = {'gsl_sf_bessel_J0': j0}
        o, k = ctor(ex, b, kind)
        if k == 'throw':
            return
        check_eval(ex, b, kind, o, '')

    def u_clone(ex, kind):
        ex.contracts = {'gsl_sf_bessel_J0': j0}
        o, k = ctor(ex, b, kind)
        if k == 'throw':
            return
        S0 = ex.S.copy()
        cls = kind + 'RadialProfile'
        k, v = run_fn(ex, fn(b, 'MinClone', 0, cls), o, [])
        ex.oblige(k == 'ret' and isinstance(v, Ptr) and v.rid is not None and v.rid not in S0.mem, 'copy is a new object', 'post')
        ex.oblige(ex.node(v.rid).cls == cls, 'copy is of the same kind', 'post')
        frame(ex, S0, ex.S)
        check_eval(ex, b, kind, LV(v.rid), 'copy: ')
    for kind in PROF:
        out.append((kind + ' profile', lambda ex, kind=kind: u_prof(ex, kind)))
        out.append((kind + ' profile: copy', lambda ex, kind=kind: u_clone(ex, kind)))

    def u_uniform(ex):
        o = LV(ex.alloc_rec('UniformRadialProfile', 'sym', name='prof'))
        k, v = run_fn(ex, fn(b, 'Eval', 2, 'UniformRadialProfile'), o, [cell(ex, RHO), cell(ex, SHIFT)])
        ex.oblige(k == 'ret', 'terminates', 'post')
        req(ex, v, 1, 'uniform profile is one everywhere')
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, 'MinClone', 0, 'UniformRadialProfile'), o, [])
        ex.oblige(k == 'ret' and v.rid not in S0.mem and ex.node(v.rid).cls == 'UniformRadialProfile', 'copy is a new uniform profile', 'post')
    out.append(('Uniform profile', u_uniform))

    # ------------------------------------------------------------ product
    P, XI = z3.Reals('p xi')
    RP = z3.Function('profile', z3.RealSort(), z3.RealSort(), z3.RealSort())
    MS = z3.Function('momentum', z3.RealSort(), z3.RealSort(), z3.RealSort())

    def abstract(ex):
        """profile and momentum-space function of any kind, known by their contracts only"""
        rp = ex.alloc_rec('RadialProfile', 'sym', name='rp')
        ms = ex.alloc_rec('MomentumSpaceDistributionFunction', 'sym', name='ms')

        def e_rp(ex, f, this, args):
            ex.oblige(this.rid in ex.S.ghost['rps'], 'profile evaluated is one of those given', 'safety')
            a = [ex.read(x) for x in args]
            return RP(toz(a[0], True), toz(a[1], True))

        def e_ms(ex, f, this, args):
            ex.oblige(this.rid in ex.S.ghost['mss'], 'momentum-space function evaluated is one of those given', 'safety')
            a = [ex.read(x) for x in args]
            return MS(toz(a[0], True), toz(a[1], True))

        def c_rp(ex, f, this, args):
            r = ex.alloc_rec('RadialProfile', 'sym', name='rpc')
            ex.S.ghost['rps'] = ex.S.ghost['rps'] + (r,)
            return Ptr(r)

        def c_ms(ex, f, this, args):
            r = ex.alloc_rec('MomentumSpaceDistributionFunction', 'sym', name='msc')
            ex.S.ghost['mss'] = ex.S.ghost['mss'] + (r,)
            return Ptr(r)
        ex.S.ghost['rps'], ex.S.ghost['mss'] = (rp,), (ms,)
        ex.contracts = {decl(b, 'Eval', 2, 'RadialProfile')['_m']: e_rp, decl(b, 'MinClone', 0, 'RadialProfile')['_m']: c_rp,
                        decl(b, 'Eval', 2, 'MomentumSpaceDistributionFunction')['_m']: e_ms, decl(b, 'MinClone', 0, 'MomentumSpaceDistributionFunction')['_m']: c_ms}
        return rp, ms

    R = 'RadialDistributionFunction'

    def product(ex, o, label, prof=True):
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, 'Eval', 4, R), o, [cell(ex, RHO), cell(ex, P), cell(ex, XI), cell(ex, SHIFT)])
        ex.oblige(k == 'ret', label + 'terminates normally', 'post')
        req(ex, v, (RP(RHO, SHIFT) if prof else 1) * MS(P, XI), label + 'value is the profile times the momentum-space function')
        frame(ex, S0, ex.S)

    def u_prod(ex):
        rp, ms = abstract(ex)
        w = ex.choose(3)
        if w == 0:
            o = LV(ex.alloc_rec(R, 'uninit', name='f'))
            k, v = run_fn(ex, fn(b, R, 2, R), o, [cell(ex, Ptr(rp), PT), cell(ex, Ptr(ms), PT)])
        elif w == 1:
            k, v = run_fn(ex, fn(b, 'ToRadialDistribution', 1, 'MomentumSpaceDistributionFunction'), LV(ms), [cell(ex, Ptr(rp), PT)])
            o = LV(v.rid)
        else:
            k, v = run_fn(ex, fn(b, 'ToRadialDistribution', 0, 'MomentumSpaceDistributionFunction'), LV(ms), [])
            o = LV(v.rid)
        ex.oblige(k == 'ret', 'construction terminates normally', 'post')
        product(ex, o, '', w != 2)
    out.append(('product with a momentum-space function', u_prod))

    def u_pclone(ex):
        rp, ms = abstract(ex)
        o = LV(ex.alloc_rec(R, 'uninit', name='f'))
        run_fn(ex, fn(b, R, 2, R), o, [cell(ex, Ptr(rp), PT), cell(ex, Ptr(ms), PT)])
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, 'MinClone', 0, R), o, [])
        ex.oblige(k == 'ret' and isinstance(v, Ptr) and v.rid is not None and v.rid not in S0.mem, 'copy is a new object', 'post')
        frame(ex, S0, ex.S)
        product(ex, LV(v.rid), 'copy: ')
    out.append(('product: copy', u_pclone))

    def u_msfull(ex):
        rp, ms = abstract(ex)
        k, v = run_fn(ex, fn(b, 'Eval', 4, 'MomentumSpaceDistributionFunction'), LV(ms), [cell(ex, RHO), cell(ex, P), cell(ex, XI), cell(ex, SHIFT)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        req(ex, v, MS(P, XI), 'a momentum-space function does not depend on radius')
    out.append(('momentum-space function at any radius', u_msfull))
    return out

from frame import *
from P08 import cell, PT
from P12 import fn, req

TITLE = 'Analytic momentum-space distributions'
HARNESS = dict(src='P13.cpp', link='all')
D = 'src/DistributionFunction/'
EXP, SQ = FN('exp'), FN('sqrt')
P, XI = z3.Reals('p xi')
KINDS = {'AnalyticalAvalanche': 3, 'ConnorHastieDistribution': 4, 'ExponentialPitch': 1}


def load(b):
    b.load([D + n + '.cpp' for n in KINDS] + [D + 'UnitDistributionFunction.cpp'])


def ab(t):
    return z3.If(t >= 0, t, -t)


def spec(kind, q, c):
    """formula of the distribution, parameters q; c: constants (m_e c, pi)"""
    if kind == 'AnalyticalAvalanche':
        E, L, Z = q
        g = SQ(P * P + 1)
        A, g0 = (E + 1) / (Z + 1) * g, L * SQ(Z + 5)
        return c[0] * A / (2 * c[1] * g0 * P * P) * EXP(-g / g0 - A * (1 - ab(XI))) / (1 - EXP(-2 * A))
    if kind == 'ConnorHastieDistribution':
        E, Z, pm, dp = q
        arg = -(E + 1) / (2 * (Z + 1)) * P * (1 - XI * XI) / ab(XI)
        cut = (P - pm) / dp
        return z3.If(z3.Or(dp == 0, P < pm), EXP(arg), EXP(arg - cut * cut)) / (P * ab(XI))
    return EXP(q[0] * ab(XI))


def pre(kind, q):
    if kind == 'AnalyticalAvalanche':
        return [P > 0, q[0] > -1, q[2] > -1, q[1] > 0]
    if kind == 'ConnorHastieDistribution':
        return [P > 0, XI != 0, q[1] > -1]
    return []




def units(b):
    out = []

    def mk(ex, kind, how):
        n = KINDS[kind]
        q = [z3.Real('q%d' % i) for i in range(n)]
        for f in pre(kind, q):
            ex.assume(f)
        o = LV(ex.alloc_rec(kind, 'uninit', name='f'))
        if how == 'ctor':
            k, v = run_fn(ex, fn(b, kind, n, kind), o, [cell(ex, x) for x in q])
        else:
            k, v = run_fn(ex, fn(b, kind, 0, kind), o, [])
            ex.oblige(k == 'ret', 'construction terminates normally', 'post')
            if how == 'twice':
                z = [z3.Real('z%d' % i) for i in range(n)]
                for x in z:
                    ex.assume(x > 0)
                run_fn(ex, fn(b, 'Initialize', n, kind), o, [cell(ex, x) for x in z])
            k, v = run_fn(ex, fn(b, 'Initialize', n, kind), o, [cell(ex, x) for x in q])
        ex.oblige(k == 'ret', 'construction terminates normally', 'post')
        return o, q

    MC = z3.RealVal('9.10938356e-31') * z3.RealVal('299792458')
    PIv = z3.RealVal('3.141592653589793')     # the double nearest to pi

    def check(ex, kind, o, q, label):
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, 'Eval', 2, kind), o, [cell(ex, P), cell(ex, XI)])
        ex.oblige(k == 'ret', label + 'evaluation terminates normally', 'post')
        req(ex, v, spec(kind, q, (MC, PIv)), label + 'value is that of the documented formula')
        frame(ex, S0, ex.S)

    def u(ex, kind, how):
        o, q = mk(ex, kind, how)
        check(ex, kind, o, q, '')

    def u_clone(ex, kind):
        o, q = mk(ex, kind, 'ctor')
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, 'MinClone', 0, kind), o, [])
        ex.oblige(k == 'ret' and isinstance(v, Ptr) and v.rid is not None and v.rid not in S0.mem, 'copy is a new object', 'post')
        ex.oblige(ex.node(v.rid).cls == kind, 'copy is of the same kind', 'post')
        frame(ex, S0, ex.S)
        check(ex, kind, LV(v.rid), q, 'copy: ')
    for kind in KINDS:
        for how, t in (('ctor', 'constructed'), ('init', 'initialised later'), ('twice', 'initialised again')):
            out.append(('%s %s' % (kind, t), lambda ex, kind=kind, how=how: u(ex, kind, how)))
        out.append((kind + ': copy', lambda ex, kind=kind: u_clone(ex, kind)))

    def u_unit(ex):
        o = LV(ex.alloc_rec('UnitDistributionFunction', 'sym', name='f'))
        k, v = run_fn(ex, fn(b, 'Eval', 2, 'UnitDistributionFunction'), o, [cell(ex, P), cell(ex, XI)])
        ex.oblige(k == 'ret', 'terminates', 'post')
        req(ex, v, 1, 'unit distribution is one everywhere')
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, 'MinClone', 0, 'UnitDistributionFunction'), o, [])
        ex.oblige(k == 'ret' and v.rid not in S0.mem and ex.node(v.rid).cls == 'UnitDistributionFunction', 'copy is a new unit distribution', 'post')
    out.append(('UnitDistributionFunction', u_unit))
    return out

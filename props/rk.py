"""Shared parts of the integrator properties (P03 history, P04 steps, P05 dense output)."""
from frame import *
from P08 import cell
import vecspec as V, loops, prove

NV, N = V.NV, V.N
RS, IS, BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()
INT, RKT, DP = 'Integrator<9973>', 'RungeKutta<9973>', 'RKDP45<9973>'
UI = UINT
INST = V.INST + '''
#include <softlib/RKDP45.h>
#include <softlib/GeneralEquation.h>
template class RKDP45<9973>; template class RKDP45<1>; template class RKDP45<2>; template class RKDP45<3>;
template class GeneralEquation<9973>;
void g(RKDP45<9973> &q, GeneralEquation<9973> &e, V &a, double s, double *p) {
    q.SetEquation(&e); q.InitialValue(a); q.Step(); q.LastTime(); q.LastSolution(); q.LastDerivative(); q.StepsTaken(); q.TimeAt(0); q.SolutionAt(0); q.DerivativeAt(0);
    q.OutputDense(1u, s, s, p, p); q.OutputDense(1u, p, p); q.SetSafetyFactor(s); q.SetMaxScaleFactor(s); q.SetMinScaleFactor(s); q.SetExponentAlpha(s); q.SetExponentBeta(s); q.ToggleDenseOutput(true); q.HasDenseOutput();
    q.Integrator<9973>::InitialValue(a);
}
'''
# Dormand and Prince, J. Comp. Appl. Math. 6 (1980); dense output: Hairer, Norsett, Wanner, Solving ODEs I, II.6
F = Fraction
C = [F(0), F(1, 5), F(3, 10), F(4, 5), F(8, 9), F(1), F(1)]
A = [[], [F(1, 5)], [F(3, 40), F(9, 40)], [F(44, 45), F(-56, 15), F(32, 9)], [F(19372, 6561), F(-25360, 2187), F(64448, 6561), F(-212, 729)],
     [F(9017, 3168), F(-355, 33), F(46732, 5247), F(49, 176), F(-5103, 18656)], [F(35, 384), F(0), F(500, 1113), F(125, 192), F(-2187, 6784), F(11, 84)]]
B = A[6] + [F(0)]
BH = [F(5179, 57600), F(0), F(7571, 16695), F(393, 640), F(-92097, 339200), F(187, 2100), F(1, 40)]
D = [F(-12715105075, 11282082432), F(0), F(87487479700, 32700410799), F(-10690763975, 1880347072), F(701980252875, 199316789632), F(-1453857185, 822651844), F(69997945, 29380423)]

TIME, SOL, DER = z3.Function('time_stored', IS, RS), z3.Function('solution_stored', IS, RS), z3.Function('derivative_stored', IS, RS)


def load(b):
    b.load([], {'rk.cpp': INST})
    b.symconst = {NV: N}


def fn(b, q, n=None, kinds=None):
    c = [d for d in b.prog.find_fn(q) if b.prog.body(d) and (n is None or len(params(d)) == n)]
    if kinds:
        c = [d for d in c if [V.pkind(b.prog, p) for p in params(d)] == kinds]
    if len({d['_m'] for d in c}) != 1:
        raise Unsupported('%s: %d candidates' % (q, len(c)))
    return c[0]


def fld(ex, o, name):
    f = ex.node(o.rid).f
    c = [r for k, r in f.items() if k.split('.')[-1] == name]
    if len(c) != 1:
        raise Unsupported('member %s (%d)' % (name, len(c)))
    return LV(c[0])


def dims(ex):
    ex.assume(N >= 1)
    ex.assume(N < 2 ** 20)


def vec(ex, name):
    o = LV(ex.alloc_rec(V.VEC, 'sym', name=name))
    V.setn(ex, o)
    return o


def realloc(ex, f, this, args):
    p, nb = args[0], args[1]
    p = ex.read(p) if isinstance(p, LV) else p
    nb = ex.read(nb) if isinstance(nb, LV) else nb
    n = ex.fint('elements', 0)
    ex.assume(and_(le(mul(8, n), nb), lt(nb, add(mul(8, n), 8))))
    if p.rid is None:
        return Ptr(ex.put(Arr(n, UninitArr(), REALT), 'malloc'), 0)
    ex.oblige(and_(eq(p.off, 0), p.rid not in ex.S.freed), 'realloc of a live block')
    nd = ex.node(p.rid)
    ex.S.freed = ex.S.freed | {p.rid}
    old = nd.a
    ex.oblige(le(nd.n, n), 'blocks grow')
    return Ptr(ex.put(Arr(n, MapArr(0, nd.n, lambda i: loops.DECIDED(ex, old, i), UninitArr()), REALT), 'malloc'), 0)


def history(ex, o, nt, al, empty=False):
    """an integrator with nt steps stored in room for al"""
    for nm, v in (('ntimesteps', nt), ('ntsallocated', al)):
        ex.write(fld(ex, o, nm), v)
    for nm, g, w in (('time', TIME, None), ('solution', SOL, N), ('derivative', DER, N)):
        if empty:
            ex.write(fld(ex, o, nm), NULL)
            continue
        r = ex.put(Arr(al if w is None else al * w, MapArr(0, nt if w is None else nt * w, lambda i, g=g: g(toz(i)), UninitArr()), REALT), 'malloc')
        ex.write(fld(ex, o, nm), Ptr(r, 0))


def obj(ex, cls=DP):
    dims(ex)
    o = LV(ex.alloc_rec(cls, 'sym', name='solver'))
    for k, r in ex.node(o.rid).f.items():
        nd = ex.S.mem.get(r)
        if isinstance(nd, Rec) and nd.cls == V.VEC:
            V.setn(ex, LV(r))
    # constant members have the values given by the constructor
    t = ex.alloc_rec(cls, 'uninit')
    c = [d for d in ex.prog.classes[cls]['ctors'] if len(params(d)) == 1 and not d.get('isImplicit')]
    ex.run_ctor(ex.prog.definition(c[0]), LV(t), [cell(ex, ex.freal('tol'), REALT)])
    for k, r in ex.node(t).f.items():
        if isinstance(ex.S.mem[r], Cell) and isinstance(ex.S.mem[r].v, Fraction) and k in CONSTS(ex.prog, cls):
            ex.setnode(ex.node(o.rid).f[k], ex.S.mem[r])
    return o


def CONSTS(prog, cls):
    out = set()
    for c in (INT, RKT, DP):
        for nm, t, d, tu in prog.classes[c]['fields']:
            if t['qualType'].startswith('const '):
                out.add('%s.%s' % (c, nm))
    return out


def some(ex):
    """an arbitrary history: nothing stored yet, room left, or room used up"""
    nt, al = ex.fint('steps', 0), ex.fint('room', 0)
    ex.assume(z3.And(nt <= al, al >= 1, (al + 1000) * N < 2 ** 31, al < 2 ** 31, nt * N >= 0, nt * N <= al * N, (nt + 1) * N == nt * N + N))
    return nt, al


def rd(ex, p, i):
    """element i of the block p points to"""
    nd = ex.node(p.rid)
    i = add(p.off, i)
    ex.oblige(and_(le(0, i), lt(i, nd.n)), 'within the block', 'post')
    return ex.chk_init(loops.DECIDED(ex, nd.a, i))

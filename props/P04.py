from rk import *
import rk, functools
from P14 import truth_is

TITLE = 'Runge-Kutta steps'
HARNESS = dict(src='P04.cpp', link=['src/General/SOFTLibException.cpp'])
load = rk.load


def units(b):
    U = []
    V.install(b, V.VEC)

    # ---- one step of the method
    def u_inner(ex):
        o = obj(ex)
        log = []
        FV = z3.Function('rhs', IS, IS, RS)
        d = [d for d in b.prog.find_fn('IntegratorEquation<9973>::Evaluate')][0]

        def c(ex, f, this, args):
            n = len(log) + 1
            log.append((ex.read(args[0]), V.at(ex, args[1]), args[2].rid))
            V.setall(ex, args[2], lambda k, n=n: FV(n, toz(k)))
            return args[2]
        ex.contracts[d['_m']] = c
        ex.write(fld(ex, o, 'eqn'), Ptr(ex.put(Rec('IntegratorEquation<9973>', {}), 'new')))
        y, dy = LV(fld(ex, o, 'y').rid), LV(fld(ex, o, 'dydx').rid)
        Y, K0 = V.at(ex, y), V.at(ex, dy)
        T, h = ex.freal('T'), ex.freal('h')
        k, v = run_fn(ex, fn(b, DP + '::InnerStep', 4), o, [cell(ex, T, REALT), cell(ex, h, REALT), y, dy])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        ex.oblige(len(log) == 6, 'six evaluations', 'post')
        j = ex.fint('j', 0)
        ex.assume(j < N)
        K = [K0(j)] + [FV(n, j) for n in range(1, 7)]
        dot = lambda w: z3.Sum([z3.RealVal(str(a)) * toz(x, True) for a, x in zip(w, K)])
        for n in range(1, 7):
            t, a, r = log[n - 1]
            ex.oblige(eq(t, add(T, mul(C[n], h))), 'time of stage %d' % (n + 1), 'post')
            ex.oblige(eq(a(j), toz(Y(j)) + h * dot(rk.A[n])), 'argument of stage %d' % (n + 1), 'post')
        at = lambda nm: V.at(ex, LV(fld(ex, o, nm).rid))(j)
        ex.oblige(eq(at('yout'), toz(Y(j)) + h * dot(B)), 'new solution', 'post')
        ex.oblige(isinstance(v, LV) and v.rid == fld(ex, o, 'yout').rid, 'returned', 'post')
        ex.oblige(eq(at('dydxout'), FV(6, j)), 'derivative at the new solution', 'post')
        ex.oblige(eq(at('yerr'), h * dot([x - z for x, z in zip(B, BH)])), 'difference from the embedded solution', 'post')
        for n in range(2, 6):
            ex.oblige(eq(at('k%d' % (n + 1)), FV(n, j)), 'stage %d is kept for dense output' % (n + 1), 'post')
        ex.oblige(and_(eq(at('y'), Y(j)), eq(at('dydx'), K0(j))), 'start of the step is kept', 'post')
    U.append(('one step of the method', u_inner))

    def u_order(ex):
        full = [list(a) + [F(0)] * (7 - len(a)) for a in rk.A]
        dot = lambda w, x: sum(a * c for a, c in zip(w, x))
        mv = lambda x: [dot(r, x) for r in full]
        pw = lambda x, n: [c ** n for c in x]
        had = lambda *xs: [functools.reduce(lambda p, q: p * q, t) for t in zip(*xs)]
        c, one = C, [F(1)] * 7
        ac, ac2, ac3, aac = mv(c), mv(pw(c, 2)), mv(pw(c, 3)), mv(mv(c))
        trees = [(1, one, 1), (2, c, 2), (3, pw(c, 2), 3), (3, ac, 6), (4, pw(c, 3), 4), (4, had(c, ac), 8), (4, ac2, 12), (4, aac, 24),
                 (5, pw(c, 4), 5), (5, had(pw(c, 2), ac), 10), (5, had(ac, ac), 20), (5, had(c, ac2), 15), (5, ac3, 20), (5, had(c, aac), 30), (5, mv(had(c, ac)), 40), (5, mv(ac2), 60), (5, mv(aac), 120)]
        ex.oblige(all(sum(r) == ci for r, ci in zip(full, c)), 'row sums', 'post')
        ex.oblige(all(dot(B, t) == F(1, g) for o, t, g in trees), 'all 17 conditions of order 5', 'post')
        ex.oblige(all(dot(BH, t) == F(1, g) for o, t, g in trees if o <= 4), 'all 8 conditions of order 4 of the embedded solution', 'post')
        ex.oblige(any(dot(BH, t) != F(1, g) for o, t, g in trees if o == 5), 'the embedded solution is of order 4 only', 'post')
    U.append(('order of the method', u_order))

    # ---- error estimate
    def u_err(ex):
        o = obj(ex)
        y1, y2 = vec(ex, 'y1'), vec(ex, 'y2')
        at, rt = ex.read(fld(ex, o, 'atol')), ex.read(fld(ex, o, 'rtol'))
        ex.assume(and_(lt(0, at), le(0, rt)))
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, RKT + '::EstimateError', 2), o, [y1, y2])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        a, c, e = V.at(ex, y1), V.at(ex, y2), V.at(ex, LV(fld(ex, o, 'yerr').rid))
        ab = lambda x: z3.If(toz(x) >= 0, toz(x), -toz(x))
        mx = lambda x, y: z3.If(x >= y, x, y)
        g = lambda i: (lambda q: q * q)(toz(e(i)) / (toz(at) + toz(rt) * mx(ab(a(i)), ab(c(i)))))
        s = V.vsum(ex, N, g)
        ex.oblige(eq(v, lib.rsqrt(ex, div(s, z3.ToReal(N)))), 'root mean square of the error in units of the tolerance', 'post')
        frame(ex, S0, ex.S)
    U.append(('error estimate', u_err))

    # ---- step control
    CTL = ('safe', 'alpha', 'beta', 'minscale', 'maxscale')

    def control(ex, o):
        v = {nm: ex.read(fld(ex, o, nm)) for nm in CTL + ('errold', 'h', 'previous_step_rejected')}
        ex.assume(and_(lt(0, v['safe']), lt(v['safe'], 1), lt(0, v['alpha']), le(0, v['beta']), lt(0, v['minscale']), lt(v['minscale'], 1), lt(1, v['maxscale']), lt(0, v['errold']), lt(0, v['h'])))
        return v

    def u_upd(ex):
        o = obj(ex)
        v = control(ex, o)
        err = ex.freal('err')
        ex.assume(err >= 0)
        nan = z3.Bool('err_is_nan')
        ex.contracts['isnan'] = lambda ex, f, this, args: nan
        k, r = run_fn(ex, fn(b, RKT + '::UpdateTimestep', 1), o, [cell(ex, err, REALT)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        truth_is(ex, r, z3.And(z3.Not(nan), err <= 1), 'accepted exactly if the error is within the tolerance')
        n = {nm: ex.read(fld(ex, o, nm)) for nm in ('optimal_step', 'errold', 'previous_step_rejected', 'h')}
        h, op = toz(v['h']), toz(n['optimal_step'])
        ex.oblige(eq(n['h'], v['h']), 'the step just taken is not changed', 'post')
        ex.oblige(op > 0, 'the next step goes forward', 'post')
        ok = z3.And(z3.Not(nan), err <= 1)
        ex.oblige(z3.Implies(z3.Not(ok), op < h), 'a rejected step is repeated with a smaller one', 'post')
        ex.oblige(z3.Implies(z3.And(z3.Not(nan), err > 1), op >= h * toz(v['minscale'])), 'a step is not reduced by more than the factor allowed', 'post')
        ex.oblige(z3.Implies(ok, z3.And(op <= h * toz(v['maxscale']), op >= h * toz(v['minscale']))), 'the next step is within the factors allowed', 'post')
        ex.oblige(z3.Implies(z3.And(ok, toz(truth(v['previous_step_rejected']))), op <= h), 'no increase right after a rejected step', 'post')
        ex.oblige(toz(truth(n['previous_step_rejected'])) == z3.Not(ok), 'rejections are remembered', 'post')
        ex.oblige(z3.Implies(ok, eq(n['errold'], z3.If(err >= z3.RealVal('1/10000'), err, z3.RealVal('1/10000')))), 'the error is remembered', 'post')
        # the controller itself
        P = lib.FN('pow', 2)
        sc = toz(v['safe']) * P(err, -toz(v['alpha'])) * P(toz(v['errold']), toz(v['beta']))
        cl = z3.If(sc < toz(v['minscale']), toz(v['minscale']), z3.If(sc > toz(v['maxscale']), toz(v['maxscale']), sc))
        ex.oblige(z3.Implies(z3.And(ok, err > 0, z3.Not(toz(truth(v['previous_step_rejected'])))), op == h * cl), 'the next step follows from the error', 'post')
        s2 = toz(v['safe']) * P(err, -toz(v['alpha']))
        ex.oblige(z3.Implies(z3.And(z3.Not(nan), err > 1), op == h * z3.If(s2 > toz(v['minscale']), s2, toz(v['minscale']))), 'the reduced step follows from the error', 'post')
    U.append(('step control', u_upd))

    # ---- a step
    YO, DO, EO = z3.Function('step_solution', RS, IS, RS), z3.Function('step_derivative', RS, IS, RS), z3.Function('step_error', RS, RS)

    def u_step(ex):
        o = obj(ex)
        nt, al = some(ex)
        ex.opts['nomerge'] = ex.opts['symwhile'] = True
        history(ex, o, nt, al)
        ex.assume(z3.And(nt >= 1, (nt - 1) * N >= 0, (nt - 1) * N + N == nt * N))
        OS = ex.read(fld(ex, o, 'optimal_step'))
        ex.assume(lt(0, OS))
        calls = []
        ACC = z3.Function('accepted', RS, BS)
        j0 = ex.fint('j', 0)
        ex.assume(j0 < N)

        def inner(ex, f, this, args):
            T, h = ex.read(args[0]), ex.read(args[1])
            ex.oblige(eq(T, TIME(nt - 1)), 'a step starts at the last time', 'post')
            ex.oblige(and_(eq(V.at(ex, args[2])(j0), SOL((nt - 1) * N + j0)), eq(V.at(ex, args[3])(j0), DER((nt - 1) * N + j0))), 'a step starts at the last solution', 'post')
            h = toz(h, True)
            for nm, g in (('yout', YO), ('dydxout', DO)):
                V.setall(ex, LV(fld(ex, this, nm).rid), lambda k, g=g, h=h: g(h, toz(k)))
            e = LV(fld(ex, this, 'yerr').rid)
            V.setall(ex, e, lambda k, h=h: z3.Function('yerr', RS, IS, RS)(h, toz(k)))
            for nm in ('k2', 'k3', 'k4', 'k5', 'k6'):
                V.setall(ex, LV(fld(ex, this, nm).rid), lambda k, h=h, nm=nm: z3.Function('stage_' + nm, RS, IS, RS)(h, toz(k)))
            return LV(fld(ex, this, 'yout').rid)
        ex.contracts[b.prog.definition(fn(b, DP + '::InnerStep', 4))['_m']] = inner

        def est(ex, f, this, args):
            h = toz(ex.read(fld(ex, this, 'h')), True)
            ex.oblige(and_(eq(V.at(ex, args[0])(j0), SOL((nt - 1) * N + j0)), eq(V.at(ex, args[1])(j0), YO(h, j0))), 'the error is estimated for the step just computed', 'post')
            return EO(h)
        ex.contracts[fn(b, RKT + '::EstimateError', 2)['_m']] = est

        def upd(ex, f, this, args):
            e = ex.read(args[0])
            h = ex.read(fld(ex, this, 'h'))
            ex.oblige(eq(e, EO(toz(h, True))), 'the step is judged by its error', 'post')
            n = ex.freal('next_step')
            acc = ex.fresh('accept', BS)
            ex.assume(z3.And(n > 0, acc == ACC(toz(h, True)), z3.Implies(z3.Not(acc), n < toz(h))))
            ex.write(fld(ex, this, 'optimal_step'), n)
            return acc
        ex.contracts[fn(b, RKT + '::UpdateTimestep', 1)['_m']] = upd
        kept = []

        def store(ex, f, this, args):
            kept.append(1)
            h = ex.read(fld(ex, o, 'h'))
            hz = toz(h, True)
            t = ex.read(args[0])
            ex.oblige(hz > 0, 'steps go forward', 'post')
            ex.oblige(eq(t, add(TIME(nt - 1), h)), 'time of the step stored', 'post')
            ex.oblige(ACC(hz), 'only accepted steps are stored', 'post')
            ex.oblige(and_(eq(V.at(ex, args[1])(j0), YO(hz, j0)), eq(V.at(ex, args[2])(j0), DO(hz, j0))), 'solution and derivative stored', 'post')
            ex.oblige(eq(ex.read(fld(ex, o, 'timestep')), h), 'length of the step', 'post')
            ex.oblige(and_(eq(V.at(ex, LV(fld(ex, o, 'yold').rid))(j0), SOL((nt - 1) * N + j0)), eq(V.at(ex, LV(fld(ex, o, 'dydxold').rid))(j0), DER((nt - 1) * N + j0))), 'start of the step is known to dense output', 'post')
            for nm in ('k3', 'k4', 'k5', 'k6'):
                ex.oblige(eq(V.at(ex, LV(fld(ex, o, nm).rid))(j0), z3.Function('stage_' + nm, RS, IS, RS)(hz, j0)), 'stages are those of the step stored', 'post')
            ex.S.ghost['stored'] = ex.S.ghost.get('stored', 0) + 1
        ex.contracts[fn(b, RKT + '::StoreSolution', 3)['_m']] = store

        def inv(ex, info):
            h, op = fld(ex, o, 'h').rid, fld(ex, o, 'optimal_step').rid
            out = [lambda S: lt(0, loops.getc(S, (h, 'v'))), lambda S: lt(0, loops.getc(S, (op, 'v'))), lambda S: eq(loops.getc(S, (h, 'v')), loops.getc(S, (op, 'v')))]
            return out
        ex.loop_inv = [inv]
        k, v = run_fn(ex, fn(b, RKT + '::Step', 0), o, [])
        if k == 'throw':
            ex.oblige(v == 'SOFTLibException', 'errors are reported by the exception of the library', 'post')
            ex.oblige(not ex.S.ghost.get('stored'), 'nothing is stored when a step fails', 'post')
            h = toz(ex.read(fld(ex, o, 'h')))
            T = TIME(nt - 1)
            ex.oblige(h <= z3.If(T >= 0, T, -T) * z3.RealVal('1/1000000000000000'), 'fails only if the step is negligible', 'post')
            return
        ex.oblige(eq(ex.S.ghost.get('stored', 0), 1), 'one step is stored', 'post')
        ex.oblige(eq(v, add(TIME(nt - 1), ex.read(fld(ex, o, 'h')))), 'time reached is returned', 'post')
        ex.oblige(toz(v) > TIME(nt - 1), 'time increases', 'post')
    U.append(('a step', u_step))

    for nm, m in (('SetExponentAlpha', 'alpha'), ('SetExponentBeta', 'beta'), ('SetMaxScaleFactor', 'maxscale'), ('SetMinScaleFactor', 'minscale'), ('SetSafetyFactor', 'safe')):
        def u_set(ex, nm=nm, m=m):
            o = obj(ex)
            x = ex.freal('x')
            old = {q: ex.read(fld(ex, o, q)) for q in CTL}
            run_fn(ex, fn(b, RKT + '::' + nm, 1), o, [cell(ex, x, REALT)])
            for q in CTL:
                ex.oblige(eq(ex.read(fld(ex, o, q)), x if q == m else old[q]), '%s after %s' % (q, nm), 'post')
        U.append((nm, u_set))
    return U


ASSUME = ['double arithmetic treated as real arithmetic', 'the equation fills the vector it is given and nothing else', 'NaN errors enter only through isnan']

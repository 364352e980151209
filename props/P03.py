from rk import *
import rk

TITLE = 'Integrator history'
HARNESS = dict(src='P03.cpp', link=['src/General/SOFTLibException.cpp'])
load = rk.load


def units(b):
    U = []
    V.install(b, V.VEC)

    def stored(ex, o, nt, t, y, yp, prefix=''):
        ex.oblige(eq(ex.read(fld(ex, o, 'ntimesteps')), add(nt, 1)), 'one more step', 'post')
        al = ex.read(fld(ex, o, 'ntsallocated'))
        ex.oblige(lt(nt, al), 'room for the step', 'post')
        for nm, g, w in (('time', TIME, None), ('solution', SOL, N), ('derivative', DER, N)):
            p = ex.read(fld(ex, o, nm))
            ex.oblige(isinstance(p, Ptr) and p.rid is not None and p.rid not in ex.S.freed, nm + ' is stored', 'post')
            ex.oblige(eq(p.off, 0), nm + ' is stored', 'post')
            nd = ex.node(p.rid)
            ex.oblige(eq(nd.n, al if w is None else mul(al, w)), nm + ': room for all steps', 'post')
            i = ex.fint('i', 0)
            sv = ex.S.copy()
            ex.assume(i < (nt if w is None else nt * w))
            ex.oblige(eq(rd(ex, p, i), g(i)), nm + ': earlier steps are kept', 'post')
            ex.S = sv
            if w is None:
                ex.oblige(eq(rd(ex, p, nt), t), 'time of the step', 'post')
            else:
                ex.assume(i < N)
                ex.oblige(eq(rd(ex, p, add(mul(nt, w), i)), V.at(ex, y if nm == 'solution' else yp)(i)), nm + ' of the step', 'post')
                ex.S = sv

    def u_store(ex, empty):
        o = obj(ex)
        ex.contracts['realloc'] = realloc
        ex.opts['nomerge'] = True
        if empty:
            nt, al = 0, 0
            history(ex, o, 0, 0, True)
            ex.assume(1000 * N < 2 ** 31)
        else:
            nt, al = some(ex)
            history(ex, o, nt, al)
        t = ex.freal('t')
        y, yp = vec(ex, 'y'), vec(ex, 'yp')
        k, v = run_fn(ex, fn(b, INT + '::StoreSolution', 3), o, [cell(ex, t, REALT), y, yp])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        stored(ex, o, nt, t, y, yp)
    def evaluate(ex, log):
        d = [d for d in b.prog.find_fn('IntegratorEquation<9973>::Evaluate')][0]
        FV = z3.Function('rhs', IS, IS, RS)

        def c(ex, f, this, args):
            t = ex.read(args[0])
            n = len(log)
            log.append((t, V.at(ex, args[1]), ex.S.copy()))
            V.setall(ex, args[2], lambda k, n=n: FV(n, toz(k)))
            return args[2]
        ex.contracts[d['_m']] = c
        return FV

    def u_init(ex, cls, fresh):
        o = obj(ex)
        ex.opts['nomerge'] = True
        ex.contracts['realloc'] = realloc
        log = []
        FV = evaluate(ex, log)
        eqn = ex.put(Rec('IntegratorEquation<9973>', {}), 'new')
        ex.write(fld(ex, o, 'eqn'), Ptr(eqn))
        if fresh:
            history(ex, o, 0, 0, True)
            ex.assume(1000 * N < 2 ** 31)
        else:
            nt, al = some(ex)
            history(ex, o, nt, al)
        y = vec(ex, 'y0')
        a = V.at(ex, y)
        k, v = run_fn(ex, fn(b, cls + '::InitialValue', 1), o, [y])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        i = ex.fint('i', 0)
        ex.assume(i < N)
        ex.oblige(len(log) == 1, 'one evaluation', 'post')
        ex.oblige(and_(eq(log[0][0], 0), eq(log[0][1](i), a(i))), 'derivative is evaluated at the initial value', 'post')
        ex.oblige(eq(ex.read(fld(ex, o, 'ntimesteps')), 1), 'the initial value is the only step', 'post')
        P = {nm: ex.read(fld(ex, o, nm)) for nm in ('time', 'solution', 'derivative')}
        ex.oblige(and_(*[p.rid is not None and p.rid not in ex.S.freed for p in P.values()]), 'stored', 'post')
        ex.oblige(eq(ex.read(LV(P['time'].rid, P['time'].off)), 0), 'time starts at zero', 'post')
        ex.oblige(eq(ex.read(LV(P['solution'].rid, add(P['solution'].off, i))), a(i)), 'the initial value', 'post')
        ex.oblige(eq(ex.read(LV(P['derivative'].rid, add(P['derivative'].off, i))), FV(0, i)), 'its derivative', 'post')
        al = ex.read(fld(ex, o, 'ntsallocated'))
        ex.oblige(and_(le(1, al), *[eq(ex.node(p.rid).n, al if nm == 'time' else mul(al, N)) for nm, p in P.items()]), 'room for all steps', 'post')
    for cls in (INT, RKT):
        U.append(('initial value of a new %s' % cls.split('<')[0], lambda ex, cls=cls: u_init(ex, cls, True)))
        U.append(('initial value of a used %s' % cls.split('<')[0], lambda ex, cls=cls: u_init(ex, cls, False)))

    def u_get(ex):
        o = obj(ex)
        nt, al = some(ex)
        history(ex, o, nt, al)
        P = {nm: ex.read(fld(ex, o, nm)) for nm in ('time', 'solution', 'derivative')}
        S0 = ex.S.copy()
        _, v = run_fn(ex, fn(b, INT + '::StepsTaken'), o, [])
        ex.oblige(eq(v, nt), 'number of steps', 'post')
        i = ex.fint('i', 0)
        ex.assume(z3.And(i < nt, (i + 1) * N <= nt * N, i * N >= 0, (i + 1) * N == i * N + N))
        _, v = run_fn(ex, fn(b, INT + '::TimeAt'), o, [cell(ex, i, UI)])
        ex.oblige(eq(v, TIME(i)), 'time of a step', 'post')
        j = ex.fint('j', 0)
        ex.assume(j < N)
        for nm, g in (('Solution', SOL), ('Derivative', DER)):
            _, v = run_fn(ex, fn(b, INT + '::%sAt' % nm), o, [cell(ex, i, UI)])
            ex.oblige(eq(ex.read(LV(v.rid, add(v.off, j))), g(i * N + j)), nm + ' of a step', 'post')
        frame(ex, S0, ex.S)
    U.append(('looking up a step', u_get))

    def u_last(ex):
        o = obj(ex)
        nt, al = some(ex)
        history(ex, o, nt, al)
        ex.assume(z3.And(nt >= 1, (nt - 1) * N >= 0, (nt - 1) * N + N == nt * N))
        j = ex.fint('j', 0)
        ex.assume(j < N)
        _, v = run_fn(ex, fn(b, INT + '::LastTime'), o, [])
        ex.oblige(eq(v, TIME(nt - 1)), 'last time', 'post')
        for nm, g in (('Solution', SOL), ('Derivative', DER)):
            _, v = run_fn(ex, fn(b, INT + '::Last%s' % nm), o, [])
            ex.oblige(isinstance(v, Ptr) and v.rid is not None, 'last %s is there' % nm.lower(), 'post')
            ex.oblige(eq(ex.read(LV(v.rid, add(v.off, j))), g((nt - 1) * N + j)), 'last ' + nm.lower(), 'post')
    U.append(('the last step', u_last))

    def u_none(ex):
        o = obj(ex)
        history(ex, o, 0, 0, True)
        _, v = run_fn(ex, fn(b, INT + '::LastTime'), o, [])
        ex.oblige(eq(v, 0), 'time before the first step', 'post')
        for nm in ('Solution', 'Derivative'):
            _, v = run_fn(ex, fn(b, INT + '::Last%s' % nm), o, [])
            ex.oblige(isinstance(v, Ptr) and v.rid is None, 'nothing before the first step', 'post')
    U.append(('no step yet', u_none))

    def u_ctor(ex):
        dims(ex)
        rid = ex.alloc_rec(DP, 'uninit', 'new')
        tol = ex.freal('tol')
        c = [d for d in b.prog.classes[DP]['ctors'] if len(params(d)) == 1 and b.prog.body(b.prog.definition(d))  and not d.get('isImplicit')]
        ex.run_ctor(b.prog.definition(c[0]), LV(rid), [cell(ex, tol, REALT)])
        o = LV(rid)
        for nm in ('ntimesteps', 'ntsallocated', 'nrcontallocated'):
            ex.oblige(eq(ex.read(fld(ex, o, nm)), 0), 'nothing is stored at first: ' + nm, 'post')
        for nm in ('time', 'solution', 'derivative', 'rcont1', 'rcont2', 'rcont3', 'rcont4', 'rcont5'):
            p = ex.read(fld(ex, o, nm))
            ex.oblige(isinstance(p, Ptr) and p.rid is None, 'nothing is stored at first: ' + nm, 'post')
        ex.oblige(and_(eq(ex.read(fld(ex, o, 'atol')), tol), eq(ex.read(fld(ex, o, 'rtol')), tol)), 'tolerance', 'post')
        ex.oblige(and_(lt(0, ex.read(fld(ex, o, 'optimal_step'))), not_(truth(ex.read(fld(ex, o, 'previous_step_rejected')))), truth(ex.read(fld(ex, o, 'store_dense_coeffs')))), 'initial state of the step control', 'post')
        sc = {nm: ex.read(fld(ex, o, nm)) for nm in ('safe', 'alpha', 'beta', 'minscale', 'maxscale', 'errold')}
        ex.oblige(and_(lt(0, sc['safe']), lt(sc['safe'], 1), lt(0, sc['alpha']), eq(sc['beta'], 0), lt(0, sc['minscale']), lt(sc['minscale'], 1), lt(1, sc['maxscale']), lt(0, sc['errold'])), 'default step control', 'post')
    U.append(('new integrator', u_ctor))

    def u_eqn(ex):
        o = obj(ex)
        e = ex.put(Rec('IntegratorEquation<9973>', {}), 'new')
        run_fn(ex, fn(b, INT + '::SetEquation'), o, [cell(ex, Ptr(e))])
        p = ex.read(fld(ex, o, 'eqn'))
        ex.oblige(p.rid == e, 'equation is set', 'post')
    U.append(('setting the equation', u_eqn))
    U.append(('storing the first step', lambda ex: u_store(ex, True)))
    U.append(('storing a step', lambda ex: u_store(ex, False)))
    return U

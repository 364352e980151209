from rk import *
import rk

TITLE = 'Dense output'
HARNESS = dict(src='P05.cpp', link=['src/General/SOFTLibException.cpp'])
load = rk.load
RC = [None] + [z3.Function('dense%d' % i, IS, RS) for i in range(1, 6)]


def units(b):
    U = []
    V.install(b, V.VEC)

    def dense(ex, o, n, room):
        """coefficients of n steps in room for as many as given"""
        ex.write(fld(ex, o, 'nrcontallocated'), room)
        for i in range(1, 6):
            if is_conc(room) and room == 0:
                ex.write(fld(ex, o, 'rcont%d' % i), NULL)
                continue
            r = ex.put(Arr(room * N, MapArr(0, n * N, lambda j, i=i: RC[i](toz(j)), UninitArr()), REALT), 'malloc')
            ex.write(fld(ex, o, 'rcont%d' % i), Ptr(r, 0))

    # ---- coefficients
    def u_prep(ex, mode):
        o = obj(ex)
        ex.opts['nomerge'] = True
        ex.contracts['realloc'] = realloc
        s, al = ex.fint('step', 0), ex.fint('room', 2)
        nt = s + 2
        ex.assume(z3.And(nt <= al, al < 2 ** 31, al * N + 1000 * N < 2 ** 31, s * N >= 0, s * N + 2 * N <= al * N))
        ex.write(fld(ex, o, 'ntimesteps'), nt)
        ex.write(fld(ex, o, 'ntsallocated'), al)
        if mode == 'first':
            dense(ex, o, 0, 0)
        elif mode == 'room':
            dense(ex, o, s, al)
        else:
            rm = ex.fint('dense_room', 1)
            ex.assume(z3.And(rm < al, rm * N < al * N, rm * N >= N, s <= rm, s * N <= rm * N))
            dense(ex, o, s, rm)
        h = ex.freal('h')
        y1, y2, d1, d2 = [vec(ex, x) for x in ('y1', 'y2', 'dydx1', 'dydx2')]
        K = {n: V.at(ex, LV(fld(ex, o, 'k%d' % n).rid)) for n in (3, 4, 5, 6)}
        P0 = {nm: Ptr(ex.put(Arr(1, UninitArr(), REALT), 'malloc'), 0) for nm in ('time', 'solution', 'derivative')}
        for nm in P0:
            ex.write(fld(ex, o, nm), P0[nm])
        k, v = run_fn(ex, fn(b, DP + '::PrepareDense', 5), o, [cell(ex, h, REALT), y1, y2, d1, d2])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        R = [None] + [ex.read(fld(ex, o, 'rcont%d' % i)) for i in range(1, 6)]
        ra = ex.read(fld(ex, o, 'nrcontallocated'))
        ex.oblige(le(add(s, 1), ra), 'room for the step', 'post')
        ex.oblige(and_(*[p.rid is not None and p.rid not in ex.S.freed for p in R[1:]]), 'stored', 'post')
        ex.oblige(and_(*[eq(ex.node(p.rid).n, mul(ra, N)) for p in R[1:]]), 'room for all steps', 'post')
        ex.oblige(and_(*[eq(ex.read(fld(ex, o, nm)).rid, P0[nm].rid) for nm in P0]), 'history is left alone', 'post')
        sv = ex.S.copy()
        j = ex.fint('j', 0)
        if mode != 'first':
            ex.assume(j < s * N)
            for i in range(1, 6):
                ex.oblige(eq(rd(ex, R[i], j), RC[i](j)), 'coefficients of earlier steps are kept', 'post')
            ex.S = sv
        ex.assume(z3.And(j < N, j >= 0))
        c = [None] + [rd(ex, R[i], s * N + j) for i in range(1, 6)]
        a, z, p, q = [toz(V.at(ex, x)(j)) for x in (y1, y2, d1, d2)]
        ks = [p, z3.RealVal(0)] + [toz(K[n](j)) for n in (3, 4, 5, 6)] + [q]
        th = ex.freal('theta')
        val = poly(th, *c[1:])
        want = poly(th, a, z - a, h * p - (z - a), (z - a) - h * q - (h * p - (z - a)), h * z3.Sum([z3.RealVal(str(w)) * x for w, x in zip(D, ks)]))
        ex.oblige(eq(val, want), 'interpolant of the step', 'post')
    U.append(('coefficients of the first step', lambda ex: u_prep(ex, 'first')))
    U.append(('coefficients of a step', lambda ex: u_prep(ex, 'room')))
    U.append(('coefficients of a step, more room needed', lambda ex: u_prep(ex, 'grow')))

    def poly(s, c1, c2, c3, c4, c5):
        s1 = 1 - s
        return toz(c1) + s * (toz(c2) + s1 * (toz(c3) + s * (toz(c4) + s1 * toz(c5))))

    # ---- the interpolant agrees with the steps and is of order four
    def u_lemma(ex):
        import sympy as sp
        th = sp.symbols('t')
        w = []
        e = sp.symbols('k0:7')
        h = sp.symbols('h')
        R = lambda f: sp.Rational(f.numerator, f.denominator)
        y = h * sum(R(c) * x for c, x in zip(B, e))
        c2 = y
        c3 = h * e[0] - y
        c4 = y - h * e[6] - c3
        c5 = h * sum(R(d) * x for d, x in zip(D, e))
        u = sp.expand((th * (c2 + (1 - th) * (c3 + th * (c4 + (1 - th) * c5)))) / h)
        w = [sp.Poly(u.coeff(x), th) for x in e]
        full = [list(a) + [F(0)] * (7 - len(a)) for a in rk.A]
        dot = lambda x: sum(((wi * R(xi)) for wi, xi in zip(w, x)), sp.Poly(0, th))
        mv = lambda x: [sum(p * q for p, q in zip(r, x)) for r in full]
        c = C
        one = [F(1)] * 7
        ac = mv(c)
        T = sp.Poly(th, th)
        conds = [(one, T), (c, T ** 2 * sp.Rational(1, 2)), ([x * x for x in c], T ** 3 * sp.Rational(1, 3)), (ac, T ** 3 * sp.Rational(1, 6)), ([x ** 3 for x in c], T ** 4 * sp.Rational(1, 4)),
                 ([x * z for x, z in zip(c, ac)], T ** 4 * sp.Rational(1, 8)), (mv([x * x for x in c]), T ** 4 * sp.Rational(1, 12)), (mv(ac), T ** 4 * sp.Rational(1, 24))]
        ex.oblige(all((dot(x) - r).is_zero for x, r in conds), 'all 8 conditions of order 4, at every point of a step', 'post')
        ex.oblige(all(wi.eval(0) == 0 for wi in w), 'interpolant starts at the old solution', 'post')
        ex.oblige(all(wi.eval(1) == R(bi) for wi, bi in zip(w, B)), 'interpolant ends at the new solution', 'post')
        ex.oblige(all(wi.diff(th).eval(0) == (1 if i == 0 else 0) and wi.diff(th).eval(1) == (1 if i == 6 else 0) for i, wi in enumerate(w)), 'slopes at the ends', 'post')
    U.append(('order of the interpolant', u_lemma))

    # ---- storing a step
    def u_store(ex):
        o = obj(ex)
        nt, al = some(ex)
        history(ex, o, nt, al)
        got = []
        t = ex.freal('t')
        y, yp = vec(ex, 'y'), vec(ex, 'yp')

        def base(ex, f, this, args):
            ex.oblige(and_(eq(ex.read(args[0]), t), args[1].rid == y.rid, args[2].rid == yp.rid), 'the step itself is stored', 'post')
            ex.write(fld(ex, o, 'ntimesteps'), nt + 1)
            ex.S.ghost['ev'] = ex.S.ghost.get('ev', ()) + ('store',)

        def prep(ex, f, this, args):
            ex.oblige(eq(ex.read(args[0]), ex.read(fld(ex, o, 'timestep'))), 'length of the step', 'post')
            ex.oblige([a.rid for a in args[1:]] == [fld(ex, o, 'yold').rid, y.rid, fld(ex, o, 'dydxold').rid, yp.rid], 'ends of the step', 'post')
            ex.S.ghost['ev'] = ex.S.ghost.get('ev', ()) + ('dense',)
        ex.contracts[fn(b, INT + '::StoreSolution', 3)['_m']] = base
        ex.contracts[fn(b, DP + '::PrepareDense', 5)['_m']] = prep
        ex.opts['nomerge'] = True
        on = toz(truth(ex.read(fld(ex, o, 'store_dense_coeffs'))))
        k, v = run_fn(ex, fn(b, RKT + '::StoreSolution', 3), o, [cell(ex, t, REALT), y, yp])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        ev = ex.S.ghost.get('ev', ())
        ex.oblige(ev[:1] == ('store',) and len(ev) <= 2, 'the step is stored first', 'post')
        ex.oblige(z3.And(on, nt >= 1) if len(ev) == 2 else z3.Not(z3.And(on, nt >= 1)), 'every step but the initial value is prepared for dense output, if enabled', 'post')
    U.append(('storing a step', u_store))

    # ---- output
    def u_out(ex, D_, valid=False):
        cls = 'RKDP45<%d>' % D_
        o = LV(ex.alloc_rec(cls, 'sym', name='solver'))
        nt, al = ex.fint('steps', 0), ex.fint('room', 1)
        ex.assume(z3.And(nt <= al, al < 2 ** 25))
        ex.opts['nomerge'] = True
        ex.write(fld(ex, o, 'ntimesteps'), nt)
        ex.write(fld(ex, o, 'ntsallocated'), al)
        ex.write(fld(ex, o, 'time'), Ptr(ex.put(Arr(al, MapArr(0, nt, lambda i: TIME(toz(i)), UninitArr()), REALT), 'malloc'), 0))
        q = z3.Int('q!')
        q2 = z3.Int('r!')
        ex.assume(z3.ForAll([q, q2], z3.Implies(z3.And(q >= 0, q < q2, q2 < nt), TIME(q) < TIME(q2)), patterns=[z3.MultiPattern(TIME(q), TIME(q2))]))
        none = False if valid else ex.branch(z3.Bool('dense_output_disabled'))
        for i in range(1, 6):
            r = ex.put(Arr(al * D_, MapArr(0, (nt - 1) * D_, lambda j, i=i: RC[i](toz(j)), UninitArr()), REALT), 'malloc')
            ex.write(fld(ex, o, 'rcont%d' % i), NULL if none else Ptr(r, 0))
        m = ex.fint('n', 0)
        TT = z3.Function('wanted', IS, RS)
        tm = ex.put(Arr(m, BaseArr(lambda i: TT(toz(i))), REALT))
        ex.assume(m < 2 ** 25)
        if valid:
            ex.assume(nt >= 2)
            ex.assume(z3.ForAll([q], z3.And(TT(q) >= TIME(0), TT(q) <= TIME(nt - 1)), patterns=[TT(q)]))
        out = ex.put(Arr(m * D_, UninitArr(), REALT))
        m0 = ex.fint('m', 0)
        ex.assume(m0 < m)

        # v is the value, at the time wanted, of the interpolant of a step that contains it: the definition is the axiom
        OKF = [z3.Function('is_value_%d' % j, IS, RS, BS) for j in range(D_)]
        p, i_ = z3.Ints('p! i!')
        sp_ = (TT(i_) - TIME(p)) / (TIME(1 + p) - TIME(p))
        for j in range(D_):
            ex.assume(z3.ForAll([p, i_], z3.Implies(z3.And(p >= 0, p + 1 < nt, TIME(p) <= TT(i_), TT(i_) <= TIME(1 + p)), OKF[j](i_, poly(sp_, *[RC[i](p * D_ + j) for i in range(1, 6)]))), patterns=[z3.MultiPattern(TIME(p), TT(i_))]))

        def ok(v, i, j0):
            return OKF[j0](i, toz(v))
        ex.opts['noguess'] = True
        last = TIME(nt - 1)

        def inv(ex, info):
            r = []
            reals = []
            for did, lv in info.base.frames[-1].items():
                nd = info.base.mem.get(lv.rid) if isinstance(lv, LV) and lv.idx is None else None
                if isinstance(nd, Cell) and nd.ty is not None and nd.ty.k == 'real' and isinstance(nd.v, (Fraction, Z)) and (lv.rid, 'v') not in info.W:
                    reals.append(nd.v)
            for key in info.allcells('int'):
                r.append(lambda S, key=key: and_(le(0, loops.getc(S, key)), lt(add(loops.getc(S, key), 1), nt)))
                for x in reals:
                    r.append(lambda S, key=key, x=x: TIME(toz(loops.getc(S, key))) <= toz(x))
            if (out, 'a') in info.W:
                for j in range(D_):
                    def g(S, k, j=j):
                        v = loops.DECIDED(ex, loops.getc(S, (out, 'a')), m0 * D_ + j)
                        if isinstance(v, GuardedUninit):
                            return z3.Implies(toz(k) > m0, z3.And(toz(v.cond), ok(v.val, m0, j)))
                        return not_(lt(m0, k)) if isinstance(v, Uninit) else z3.Implies(toz(k) > m0, ok(v, m0, j))
                    g.wantsk = True
                    r.append(g)

                def h(S, k):
                    return z3.Implies(toz(k) > m0, z3.And(TT(m0) >= TIME(0), TT(m0) <= last))
                h.wantsk = True
                r.append(h)
            return r
        ex.loop_inv = [inv]
        k, v = run_fn(ex, fn(b, cls + '::OutputDense', 3), o, [cell(ex, m, UI), cell(ex, Ptr(tm, 0)), cell(ex, Ptr(out, 0))])
        if k == 'throw':
            ex.oblige(v == 'SOFTLibException', 'errors are reported by the exception of the library', 'post')
            ex.oblige(not valid, 'times within the range are served', 'post')
            return
        if valid:
            ex.oblige(k == 'ret', 'terminates normally', 'post')
            return
        ex.oblige(z3.And(nt >= 2, not none), 'refused if nothing is stored', 'post')
        ex.oblige(z3.And(TT(m0) >= TIME(0), TT(m0) <= last), 'no extrapolation', 'post')
        for j in range(D_):
            ex.oblige(ok(rd(ex, Ptr(out, 0), m0 * D_ + j), m0, j), 'value of the interpolant of the step that contains the time', 'post')
    U.append(('dense output within the range', lambda ex: u_out(ex, 1, True)))
    for n in (1, 2, 3):
        U.append(('dense output, %d dimension%s' % (n, 's'[:n > 1]), lambda ex, n=n: u_out(ex, n)))

    def u_grid(ex):
        o = obj(ex)
        n = ex.fint('n', 0)
        ex.assume(n < 2 ** 25)
        a, z = ex.freal('tmin'), ex.freal('tmax')
        outt = ex.put(Arr(n, UninitArr(), REALT))
        out = ex.put(Arr(n * N, UninitArr(), REALT))
        ex.assume(n * N >= 0)

        def od(ex, f, this, args):
            p, q = ex.read(args[1]), ex.read(args[2])
            ex.oblige(and_(eq(ex.read(args[0]), n), p.rid == outt, q.rid == out, eq(p.off, 0), eq(q.off, 0)), 'the solution is asked for at these times', 'post')
            ex.S.ghost['od'] = ex.S.ghost.get('od', 0) + 1
        ex.contracts[fn(b, DP + '::OutputDense', 3)['_m']] = od
        for d in b.prog.find_fn(INT + '::OutputDense'):
            if len(params(d)) == 3:
                ex.contracts[d['_m']] = od
        k, v = run_fn(ex, fn(b, INT + '::OutputDense', 5), o, [cell(ex, n, UI), cell(ex, a, REALT), cell(ex, z, REALT), cell(ex, Ptr(out, 0)), cell(ex, Ptr(outt, 0))])
        okay = z3.Or(n >= 2, z3.And(n == 1, a == z))
        if k == 'throw':
            ex.oblige(v == 'SOFTLibException', 'errors are reported by the exception of the library', 'post')
            ex.oblige(z3.Not(okay), 'refused only if no such times exist', 'post')
            return
        ex.oblige(okay, 'no times, or one time for two ends, are refused', 'post')
        ex.oblige(eq(ex.S.ghost.get('od', 0), 1), 'the solution is computed', 'post')
        i = ex.fint('i', 0)
        ex.assume(i < n)
        t = rd(ex, Ptr(outt, 0), i)
        ex.oblige(z3.Implies(n >= 2, toz(t) * (z3.ToReal(n) - 1) == a * (z3.ToReal(n) - 1) + (z - a) * z3.ToReal(i)), 'times are equidistant', 'post')
        ex.oblige(z3.Implies(i == n - 1, toz(t) == z), 'the last time is the end', 'post')
    U.append(('dense output at equidistant times', u_grid))
    return U


ASSUME = ['double arithmetic treated as real arithmetic', 'dense output has been enabled for all steps stored', 'times stored increase (P04)']

from frame import *
from P08 import CLS, PT, SQ, cell, sym_obj, args3, arr3, fns, one, nxt, inst_foralls

TITLE = 'Line of sight against the wall of revolution'
HARNESS = dict(src='P09.cpp', link='all')


def load(b):
    b.load(['src/MagneticField/MagneticField2D.cpp'])


def units(b):
    out = []
    xnp, znp, xn, zn, xp, yp, zp, xc, yc, zc = A10 = z3.Reals('xnp znp xn zn xp yp zp xc yc zc')

    def hitat(t, s):
        """point t of the line is point s of the tile (rotated about the axis)"""
        X, Y, Z = xp + (xc - xp) * t, yp + (yc - yp) * t, zp + (zc - zp) * t
        r = xn + s * (xnp - xn)
        return [t >= 0, t <= 1, s >= 0, s <= 1, X * X + Y * Y == r * r, Z == zn + s * (znp - zn)]

    def tile(ex, lo=True):
        o, n, r, z = sym_obj(ex)
        ex.assume(z3.And(xn >= 0, xnp >= 0))
        S0 = ex.S.copy()
        k, v = run_fn(ex, one(b, '__IntersectsDomain3D', 10), o, args3(ex, A10))
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        frame(ex, S0, ex.S, label='line-of-sight test changes nothing')
        return truth(v)

    def quot(ex, a, d):
        x = ex.freal('q')
        ex.assume(x * d == a)
        th = lambda x, d, a: z3.Implies(z3.And(x * d == a, d != 0), z3.And(x == (1 / d) * a, x == a / d))
        ex.theorem(th, x, d, a)
        return x

    def u_flat(ex):
        ex.assume(znp == zn)
        hit = ex.branch(tile(ex))
        if hit:
            lab = 'hit on a horizontal tile: the line meets the tile'
            ex.oblige(zc != zp, 'no hit for a line in the plane of the tile', 'post')
            t = quot(ex, zn - zp, zc - zp)
            r = SQ((xp + (xc - xp) * t) * (xp + (xc - xp) * t) + (yp + (yc - yp) * t) * (yp + (yc - yp) * t))
            if ex.branch(xnp != xn):
                s = quot(ex, r - xn, xnp - xn)
            else:
                s = z3.RealVal(0)
            X, Y = xp + (xc - xp) * t, yp + (yc - yp) * t
            ex.lemma(r * r == X * X + Y * Y)
            ex.lemma(xn + s * (xnp - xn) == r)
            for g in hitat(t, s):
                ex.oblige(g, lab, 'post')
        else:
            ex.assume(zc != zp)
            t, s = ex.freal('t'), ex.freal('s')
            for g in hitat(t, s):
                ex.assume(g)
            ex.lemma(t * (zc - zp) == zn - zp)
            ex.theorem(lambda x, d, a: z3.Implies(z3.And(x * d == a, d != 0), x == a / d), t, zc - zp, zn - zp)
            ex.lemma(t == (zn - zp) / (zc - zp))
            ex.oblige(False, 'no hit on a horizontal tile: the line does not meet the tile', 'post')
    out.append(('horizontal tile', u_flat))

    # ------------------------------------------------------------ slanted tile: quadratic in t
    def cone(ex):
        """coefficients of  |(x,y)(t)|^2 - r(t)^2 = A t^2 + 2 B t + C,  s(t) = mz + kz t"""
        iz = quot(ex, z3.RealVal(1), znp - zn)
        kz, mz = (zc - zp) * iz, (zp - zn) * iz
        a, b_, c = xc - xp, yc - yp, (xnp - xn) * kz
        m = xn + mz * (xnp - xn)
        return a * a + b_ * b_ - c * c, a * xp + b_ * yp - c * m, xp * xp + yp * yp - m * m, mz, kz

    def u_slant(ex):
        ex.assume(znp != zn)
        ex.opts['nomerge'] = True
        hit = ex.branch(tile(ex))
        iz = ex.freal('iz')
        kz, mz = (zc - zp) / (znp - zn), (zp - zn) / (znp - zn)
        a, b_, c = xc - xp, yc - yp, (xnp - xn) * kz
        m = xn + mz * (xnp - xn)
        A, B, C = a * a + b_ * b_ - c * c, a * xp + b_ * yp - c * m, xp * xp + yp * yp - m * m
        nA, nB, nC, nk, nm = [ex.freal('h0' + x) for x in ('A', 'B', 'C', 'kz', 'mz')]
        T, iA = -B / A, 1 / A
        D = T * T - C / A
        Q = SQ(D)
        nT, niA, nD, nQ, nP, nN, nL = [ex.freal('h0' + x) for x in ('T', 'iA', 'D', 'Q', 'tp', 'tm', 'tl')]
        sP, sN, sL, s1 = [ex.freal('h0' + x) for x in ('sp', 'sm', 'sl', 's1')]
        defs = [(sP, mz + kz * (T + Q)), (sN, mz + kz * (T - Q)), (nP, T + Q), (nN, T - Q), (nQ, Q), (nD, D),
                (sL, mz - kz * C / (2 * B)), (nL, -C / (2 * B)), (nT, T), (niA, iA), (nA, A), (nB, B), (nC, C),
                (s1, mz + kz), (nk, kz), (nm, mz)]
        # a line within the cone meets the tile iff the ranges of the heights overlap
        deg = lambda C, mz, kz: z3.And(C == 0, z3.Or(mz >= 0, mz + kz >= 0), z3.Or(mz <= 1, mz + kz <= 1))
        if ex.branch(A == 0) and ex.branch(B == 0):
            pc0 = ex.S.pc
            n0, n1, n2, n3 = ns = [ex.freal('h0'), ex.freal('h0'), ex.freal('h0'), ex.freal('h0')]
            ex.S.pc = [p for p in cut(ex, [(n2, A), (n3, B), (n0, C), (n1, 1 / (znp - zn))]) if isinstance(p, Z) and only(p, ns + [zp, zn, zc, znp])]
            g = deg(n0, (zp - zn) * n1, (zc - zp) * n1)
            ex.lemma(g if hit else z3.Not(g))
            ex.S.pc = pc0 + [deg(C, mz, kz) if hit else z3.Not(deg(C, mz, kz))]
        # from here on: reasoning about the named quantities
        pc = cut(ex, defs)
        names = [v for v, t in defs]
        pc = [p for p in pc if isinstance(p, Z) and only(p, names)]
        t, s = ex.freal('t'), ex.freal('s')
        # the point of the line at t, the height of the tile there, and the squared distance to the cone
        alg = [nm + nk == s1, nT * nA == -nB]
        X, Y = xp + a * t, yp + b_ * t
        sx = mz + kz * t
        ex.oblige(X * X + Y * Y - (xn + sx * (xnp - xn)) * (xn + sx * (xnp - xn)) == A * t * t + 2 * B * t + C,
                  'lemma: distance to the cone is quadratic along the line', 'lemma')
        ex.oblige(zp + (zc - zp) * t == zn + sx * (znp - zn), 'lemma: position on the tile is linear along the line', 'lemma')
        ex.theorem(lambda z0, z1, z2, z3_, t, s: z3.Implies(z3.And(z3_ != z2, z0 + (z1 - z0) * t == z2 + s * (z3_ - z2)), s == (z0 - z2) / (z3_ - z2) + (z1 - z0) / (z3_ - z2) * t), zp, zc, zn, znp, t, s)
        ex.S.pc = pc
        F = lambda t: nA * t * t + 2 * nB * t + nC == 0
        at = lambda t: nm + nk * t
        if hit:
            lab = 'hit on a slanted tile: the line meets the tile'

            def ok(t):
                for g in (t >= 0, t <= 1, at(t) >= 0, at(t) <= 1, F(t)):
                    ex.oblige(g, lab, 'post')
            if ex.branch(nA != 0):
                for f in (niA * nA == 1, nT * nA == -nB, nD == nT * nT - nC * niA, z3.Implies(nD >= 0, z3.And(nQ >= 0, nQ * nQ == nD)),
                          nP == nT + nQ, nN == nT - nQ, sP == nm + nk * nP, sN == nm + nk * nN):
                    ex.assume(f)
                ex.oblige(nD >= 0, lab + ' (discriminant)', 'post')
                if ex.branch(z3.And(nP >= 0, nP <= 1, sP >= 0, sP <= 1)):
                    ok(nP)
                else:
                    ok(nN)
            elif ex.branch(nB != 0):
                for f in (2 * nB * nL == -nC, sL == nm + nk * nL):
                    ex.assume(f)
                ok(nL)
            else:
                ex.assume(s1 == nm + nk)
                if ex.branch(z3.And(nm >= 0, nm <= 1)):
                    ok(z3.RealVal(0))
                elif ex.branch(z3.And(s1 >= 0, s1 <= 1)):
                    ok(z3.RealVal(1))
                else:
                    x = ex.freal('x')
                    ex.oblige(nk != 0, lab, 'post')
                    ex.assume(x * nk == -nm)
                    ok(x)
        else:
            for g in (t >= 0, t <= 1, at(t) >= 0, at(t) <= 1, F(t)):
                ex.assume(g)
            lab = 'no hit on a slanted tile: the line does not meet the tile'
            if ex.branch(nA != 0):
                for f in (niA * nA == 1, nT * nA == -nB, nD == nT * nT - nC * niA, z3.Implies(nD >= 0, z3.And(nQ >= 0, nQ * nQ == nD)),
                          nP == nT + nQ, nN == nT - nQ, sP == nm + nk * nP, sN == nm + nk * nN):
                    ex.assume(f)
                ex.lemma((t - nT) * (t - nT) == nD)
                ex.lemma(nD >= 0)
                ex.lemma((t - nP) * (t - nN) == 0)
                ex.lemma(z3.Or(t == nP, t == nN))
                ex.oblige(False, lab, 'post')
            elif ex.branch(nB != 0):
                for f in (2 * nB * nL == -nC, sL == nm + nk * nL):
                    ex.assume(f)
                ex.lemma(t == nL)
                ex.oblige(False, lab, 'post')
            else:
                ex.assume(s1 == nm + nk)
                ex.oblige(False, lab + ' (line in the cone)', 'post')
    out.append(('slanted tile', u_slant))

    def u_range(ex):
        t, s = ex.freal('t'), ex.freal('s')
        ex.assume(z3.And(t >= 0, t <= 1, s >= 0, s <= 1, zp + (zc - zp) * t == zn + s * (znp - zn)))
        ex.oblige(z3.Not(z3.Or(z3.And(zn < zp, znp < zp, zn < zc, znp < zc), z3.And(zn > zp, znp > zp, zn > zc, znp > zc))),
                  'lemma: a line can only hit a tile whose height range overlaps its own', 'post')
    out.append(('lemma: height ranges', u_range))

    # ------------------------------------------------------------ all tiles
    x0, y0, z0, x1, y1, z1 = L6 = z3.Reals('x0 y0 z0 x1 y1 z1')
    HF = z3.Function('tile_hit', *([z3.RealSort()] * 10 + [z3.BoolSort()]))

    def canon(a):
        """a line and a tile may be named from either end"""
        a = [toz(v, True) for v in a]
        if all(p.eq(q) for p, q in zip(a[4:], L6)):
            a = a[:4] + a[7:] + a[4:7]
        return a

    def tile_spec(ex, f, this, args):
        a = canon([ex.read(x) for x in args])
        ex.assume(overlap(a))
        return HF(*a)

    def overlap(a):
        xnp, znp, xn, zn, xp, yp, zp, xc, yc, zc = a
        return z3.Implies(HF(*a), z3.Not(z3.Or(z3.And(zn < zp, znp < zp, zn < zc, znp < zc), z3.And(zn > zp, znp > zp, zn > zc, znp > zc))))

    def u_all(ex):
        o, n, r, z = sym_obj(ex)
        R0 = z3.Real('R0')
        ex.setnode(ex.fld(o, 'magnetic_axis').rid, Arr(2, UninitArr().store(0, R0).store(1, z3.Real('Z0')), REALT))
        ow = ex.fbool('has_outer_wall')
        ex.contracts = {one(b, '__IntersectsDomain3D', 10)['_m']: tile_spec}
        S0 = ex.S.copy()
        f = one(b, 'IntersectsDomain3D', 7)
        k, v = run_fn(ex, f, o, args3(ex, L6) + [cell(ex, ow, Ty("bool"))])
        ex.oblige(k == 'ret', 'line-of-sight test terminates normally', 'post')
        v = toz(truth(v))

        def hit(j):
            jp = nxt(j, n)
            rj, rp, zj, zp_ = [toz(q, True) for q in (r.get(j), r.get(jp), z.get(j), z.get(jp))]
            a = [rp, zp_, rj, zj, x1, y1, z1, x0, y0, z0]
            return z3.And(z3.Not(z3.And(z3.Not(ow), rj > R0, rp > R0)), HF(*a)), overlap(a)
        j = ex.fint('j', 0)
        ex.assume(lt(j, n))
        h, ov = hit(j)
        if ex.branch(v):
            J = z3.Int('J!w')
            k = ex.S.ghost.get('exit_k')
            ex.oblige(z3.Exists([J], z3.And(J >= 0, J < toz(n), hit(J)[0])), 'blocked: the line hits some wall tile that is not left out', 'post')
        else:
            ex.assume(ov)
            inst_foralls(ex, j)
            ex.oblige(z3.Not(h), 'not blocked: the line hits no wall tile', 'post')
        frame(ex, S0, ex.S, label='line-of-sight test changes nothing')
    out.append(('IntersectsDomain3D: true iff some tile is hit', u_all))

    def u_short(ex):
        o, n, r, z = sym_obj(ex)
        res, ow = ex.fbool('res'), ex.fbool('ow')
        tgt = one(b, 'IntersectsDomain3D', 7)

        def spec(ex, f, this, args):
            ex.S.ghost['a'] = tuple(ex.read(a) for a in args)
            ex.S.ghost['this'] = this.rid
            return res
        ex.contracts = {tgt['_m']: spec}
        S0 = ex.S.copy()
        k, v = run_fn(ex, one(b, 'IntersectsDomain3D', 3), o, [arr3(ex, (x0, y0, z0)), arr3(ex, (x1, y1, z1)), cell(ex, ow, Ty("bool"))])
        got = ex.S.ghost.get('a')
        ex.oblige(got is not None and k == 'ret' and ex.S.ghost.get('this') == o.rid, 'array form tests the line', 'post')
        ex.oblige(and_(*[eq(g, w) for g, w in zip(got[:6], L6)]), 'array form tests the line between the points given', 'post')
        ex.oblige(eqval(ex, got[6], ow), 'array form passes the outer-wall choice', 'post')
        ex.oblige(eqval(ex, v, res), 'array form returns the result', 'post')
        frame(ex, S0, ex.S)
    out.append(('IntersectsDomain3D array form', u_short))
    return out


def only(p, names):
    """formula over the given names only"""
    ids = {n.get_id() for n in names}
    st, seen = [p], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in ids:
            return False
        st.extend(x.children())
    return True

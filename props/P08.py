from frame import *

TITLE = 'Two-dimensional domain geometry'
HARNESS = dict(src='P08.cpp', link='all')
CLS = 'MagneticField2D'
PT = Ty('ptr', sub=REALT)
SQ = prove.FN('sqrt')


def load(b):
    b.load(['src/MagneticField/MagneticField2D.cpp'])


def fns(b, name, n=None):
    return [d for d in b.prog.find_fn(CLS + '::' + name) if b.prog.body(d) and (n is None or len(params(d)) == n)]


def one(b, name, n=None, pred=None):
    c = [d for d in fns(b, name, n) if pred is None or pred(d)]
    if len(c) != 1:
        raise Unsupported('%s: %d candidates' % (name, len(c)))
    return c[0]


def cell(ex, v, ty=REALT):
    return LV(ex.put(Cell(v, ty)))


def sym_obj(ex, dom=True):
    o = LV(ex.alloc_rec(CLS, 'sym', name='B'))
    n = ex.fint('n', 1, 2 ** 31)
    A = []
    for nm in ('rdomain', 'zdomain'):
        r = ex.put(Arr(n, ex.sym_arr(REALT, nm), REALT), 'new[]')
        ex.setnode(ex.fld(o, nm).rid, Cell(Ptr(r, 0), PT))
        A.append(ex.node(r).a)
    ex.setnode(ex.fld(o, 'ndomain').rid, Cell(n, UINT))
    return o, n, A[0], A[1]


def nxt(j, n):
    return ite(lt(add(j, 1), n), add(j, 1), 0)


def args3(ex, vs):
    return [cell(ex, v) for v in vs]


def arr3(ex, vs, ro=True):
    a = UninitArr()
    for i, v in enumerate(vs):
        a = a.store(i, v)
    return cell(ex, Ptr(ex.put(Arr(len(vs), a, REALT)), 0), PT)


def units(b):
    out = []
    x1, y1, z1, x2, y2, z2 = z3.Reals('x1 y1 z1 x2 y2 z2')

    # ------------------------------------------------------------ crossing
    def setup(ex):
        o, n, r, z = sym_obj(ex)
        ra, rb = SQ(x1 * x1 + y1 * y1), SQ(x2 * x2 + y2 * y2)
        S0 = ex.S.copy()
        k, v = run_fn(ex, one(b, 'CrossesDomain', 6), o, args3(ex, (x1, y1, z1, x2, y2, z2)))
        ex.oblige(k == 'ret', 'CrossesDomain terminates normally', 'post')
        frame(ex, S0, ex.S, label='CrossesDomain changes nothing')
        return o, n, r, z, ra, rb, v

    def seg(n, r, z, j):
        jp = nxt(j, n)
        return r.get(j), z.get(j), r.get(jp), z.get(jp)

    def meets(P, Q, s, t):
        """points of segment P and Q coincide at parameters t, s"""
        (px, pz, qx, qz), (rx, rz, sx, sz) = P, Q
        return z3.And(s >= 0, s <= 1, t >= 0, t <= 1,
                      px + t * (qx - px) == rx + s * (sx - rx), pz + t * (qz - pz) == rz + s * (sz - rz))

    def u_cross(ex):
        o, n, r, z, ra, rb, v = setup(ex)
        hit = ex.branch(truth(v))
        P = (ra, z1, rb, z2)
        if hit:
            k = ex.S.ghost.get('exit_k')
            if k is None:
                raise Unsupported('no witness for the crossing')
            ex.oblige(and_(le(0, k), lt(k, n)), 'crossing found on a segment of the contour', 'post')
            # abstract the coordinates of the segment
            Q = tuple(toz(q, True) for q in seg(n, r, z, k))
            exists_meeting(ex, P, Q)
        else:
            j = ex.fint('j', 0)
            ex.assume(lt(j, n))
            inst_foralls(ex, j)
            Q = tuple(toz(q, True) for q in seg(n, r, z, j))
            s, t = ex.freal('s'), ex.freal('t')
            no_meeting(ex, P, Q, s, t)
    out.append(('CrossesDomain: true iff the line meets a segment of the closed contour', u_cross))

    def exists_meeting(ex, P, Q):
        p, q, D = gen(ex, P, Q)
        (px, pz, dx, dz), (rx, rz, ex_, ez) = p, q
        det = ex_ * dz - dx * ez
        wx, wz = px - rx, pz - rz
        lab = 'crossing reported: the line meets the segment'

        def ok(s, t, lab=lab):
            for g in (s >= 0, s <= 1, t >= 0, t <= 1, wx + t * dx == s * ex_, wz + t * dz == s * ez):
                ex.oblige(g, lab, 'post')

        def quot(a, d):                   # d != 0 on this path
            x = ex.freal('q')
            ex.assume(x * d == a)
            return x
        if ex.branch(det != 0):
            s, t = quot(wx * dz - wz * dx, det), quot(-(wz * ex_ - wx * ez), det)
            th = lambda x, d, a: z3.Implies(z3.And(x * d == a, d != 0), x == (1 / d) * a)
            ex.theorem(th, s, det, wx * dz - wz * dx)
            ex.theorem(th, t, det, -(wz * ex_ - wx * ez))
            ex.lemma(s == (1 / det) * (wx * dz - wz * dx))
            ex.lemma(t == -(1 / det) * (wz * ex_ - wx * ez))
            ex.lemma(det * (wx + t * dx - s * ex_) == 0)
            ex.lemma(det * (wz + t * dz - s * ez) == 0)
            ok(s, t)
            return
        # parallel: one of the four end points lies on the other segment
        lab += ' (parallel)'
        ux = ex.branch(ex_ != 0)
        uz = ux or ex.branch(ez != 0)
        vx = ex.branch(dx != 0)
        vz = vx or ex.branch(dz != 0)
        Z, O = z3.RealVal(0), z3.RealVal(1)
        if not uz and not vz:
            ok(Z, Z, lab)
        elif not vz:                      # the line is a point
            ok(quot(wx, ex_) if ux else quot(wz, ez), Z, lab)
        elif not uz:                      # the segment is a point
            ok(Z, quot(-wx, dx) if vx else quot(-wz, dz), lab)
        else:
            w, d, e = (wx, dx, ex_) if ux else (wz, dz, ez)
            tl = Z if ex.branch(d >= 0) else O      # lowest end of the line
            sl = Z if ex.branch(e >= 0) else O
            if ex.branch(w + tl * d >= sl * e):     # it is not below that of the segment
                ok(quot(w + tl * d, e), tl, lab)
            else:
                ok(sl, quot(sl * e - w, d), lab)

    def no_meeting(ex, P, Q, s, t):
        p, q, D = gen(ex, P, Q)
        (px, pz, dx, dz), (rx, rz, ex_, ez) = p, q
        ex.assume(z3.And(s >= 0, s <= 1, t >= 0, t <= 1))
        ex.assume(px + t * dx == rx + s * ex_)
        ex.assume(pz + t * dz == rz + s * ez)
        det = ex_ * dz - dx * ez
        wx, wz = px - rx, pz - rz
        ex.lemma(s * det == wx * dz - wz * dx)
        ex.lemma(t * det == -(wz * ex_ - wx * ez))
        lab = 'no crossing reported: the line meets no segment'
        if ex.branch(det != 0):
            ex.lemma(s == (wx * dz - wz * dx) / det)
            ex.lemma(t == -(wz * ex_ - wx * ez) / det)
            ex.oblige(False, lab, 'post')
        else:
            ex.lemma(wx * ez == wz * ex_)
            ex.lemma(wx * dz == wz * dx)
            ex.oblige(False, lab + ' (parallel)', 'post')

    def gen(ex, P, Q):
        (px, pz, qx, qz), (rx, rz, sx, sz) = P, Q
        return (px, pz, qx - px, qz - pz), (rx, rz, sx - rx, sz - rz), None

    # ------------------------------------------------------------ short-hands
    def u_short(ex, which):
        o, n, r, z = sym_obj(ex)
        ma = ex.fld(o, 'magnetic_axis')
        R0, Z0 = z3.Reals('R0 Z0')
        ex.setnode(ma.rid, Arr(2, UninitArr().store(0, R0).store(1, Z0), REALT))
        res = ex.fbool('res')
        tgt = one(b, 'CrossesDomain', 6)

        def spec(ex, f, this, args):
            ex.S.ghost['a'] = tuple(ex.read(a) for a in args)
            ex.S.ghost['this'] = this.rid
            return res
        ex.contracts = {tgt['_m']: spec}
        P, Q = (x1, y1, z1), (x2, y2, z2)
        if which == 'ptr':
            f = one(b, 'CrossesDomain', 1)
            a, want = [arr3(ex, Q)], (R0, 0, Z0) + Q
        elif which == 'ptr2':
            f = one(b, 'CrossesDomain', 2)
            a, want = [arr3(ex, P), arr3(ex, Q)], P + Q
        else:
            f = one(b, 'CrossesDomain', 3)
            a, want = args3(ex, Q), (R0, 0, Z0) + Q
        S0 = ex.S.copy()
        k, v = run_fn(ex, f, o, a)
        got = ex.S.ghost.get('a')
        ex.oblige(got is not None and k == 'ret' and ex.S.ghost.get('this') == o.rid, 'short-hand tests the line', 'post')
        ex.oblige(and_(*[eq(g, w) for g, w in zip(got, want)]), 'short-hand tests the line from the magnetic axis / first point to the point given', 'post')
        ex.oblige(eqval(ex, v, res), 'short-hand returns the result', 'post')
        frame(ex, S0, ex.S)
    for w in ('ptr', 'ptr2', 'xyz'):
        out.append(('CrossesDomain short-hand (%s)' % w, lambda ex, w=w: u_short(ex, w)))

    # ------------------------------------------------------------ extents
    UF = {}

    def crossing(n, x, y, a, j):
        """as functions of the segment number (defined by cdef)"""
        I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
        return z3.Function('CR', I_, B_)(toz(j)), z3.Function('LO', I_, R_)(toz(j)), z3.Function('HI', I_, R_)(toz(j))

    def cdef(n, x, y, a, j):
        u, v = crossing(n, x, y, a, j), crossing0(n, x, y, a, j)
        return z3.And(*[p == q for p, q in zip(u, v)])

    def crossing0(n, x, y, a, j):
        """(does segment j reach the level y=a, lowest and highest x there)"""
        jp = nxt(j, n)
        xj, yj, xp, yp = [toz(v, True) for v in (x.get(j), y.get(j), x.get(jp), y.get(jp))]
        c = z3.Or(z3.And(yj >= a, yp <= a), z3.And(yj <= a, yp >= a))
        it = xj + (xp - xj) * (a - yj) / (yp - yj)
        hi = z3.If(yp == yj, z3.If(xj > xp, xj, xp), it)
        lo = z3.If(yp == yj, z3.If(xj < xp, xj, xp), it)
        return c, lo, hi

    def inv_extent(n, x, y, a):
        def g(ex, info):
            out = []
            reals = [key for key in info.left if isinstance(info.base.mem[key[0]], Cell) and info.base.mem[key[0]].ty.k == 'real']
            cnts = [key for key in info.left if isinstance(info.base.mem[key[0]], Cell) and info.base.mem[key[0]].ty.k in ('int', 'bool')]
            J = z3.Int('J!%s' % info.k)
            info.base.pc.append(cdef(n, x, y, a, info.k))      # definition of CR, LO, HI

            def pos(S, c):
                v = loops.getc(S, c)
                return truth(v) if is_bool(v) else lt(0, v)
            for c in cnts:
                def some(S, k, c=c):
                    cr, lo, hi = crossing(n, x, y, a, J)
                    return z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < toz(k), cr), toz(pos(S, c))))
                some.wantsk = True
                out.append(some)
                for rkey in reals:
                    for w in (0, 1):
                        def ext(S, k, c=c, rkey=rkey, w=w):
                            cr, lo, hi = crossing(n, x, y, a, J)
                            v = loops.getc(S, rkey)
                            if isinstance(v, Uninit):
                                return implies(pos(S, c), False)
                            v = toz(v, True)
                            return z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < toz(k), cr), (v <= lo) if w == 0 else (v >= hi)))

                        def att(S, k, c=c, rkey=rkey, w=w):
                            cr, lo, hi = crossing(n, x, y, a, J)
                            v = loops.getc(S, rkey)
                            if isinstance(v, Uninit):
                                return not_(pos(S, c))
                            v = toz(v, True)
                            return implies(pos(S, c), z3.Exists([J], z3.And(J >= 0, J < toz(k), cr, v == (lo if w == 0 else hi))))
                        ext.wantsk = att.wantsk = True
                        out += [ext, att]
            return out
        return g

    def extent_post(ex, n, x, y, a, mn, mx, lab):
        J = z3.Int('J!post')
        cr, lo, hi = crossing(n, x, y, a, J)
        j = ex.fint('j', 0)
        ex.assume(lt(j, n))
        c2, l2, h2 = crossing(n, x, y, a, j)
        ex.assume(cdef(n, x, y, a, j))
        ex.oblige(implies(c2, and_(le(mn, l2), le(h2, mx))), lab + ': no point of the contour at that level lies outside', 'post')
        ex.oblige(z3.Exists([J], z3.And(J >= 0, J < n, cr, lo == mn)), lab + ': minimum is attained on the contour', 'post')
        ex.oblige(z3.Exists([J], z3.And(J >= 0, J < n, cr, hi == mx)), lab + ': maximum is attained on the contour', 'post')

    def u_maxmin(ex):
        o, n, x, y = sym_obj(ex)
        rp, zp = ex.getf(o, 'rdomain'), ex.getf(o, 'zdomain')
        a = z3.Real('a')
        ex.loop_inv = [inv_extent(n, x, y, a)]
        mn, mx = cell(ex, ex.freal('mn')), cell(ex, ex.freal('mx'))
        S0 = ex.S.copy()
        f = one(b, 'FindMaxMin', 6)
        k, v = run_fn(ex, f, o, [cell(ex, n, UINT), cell(ex, rp, PT), cell(ex, zp, PT), cell(ex, a), mn, mx])
        if k == 'ret':
            extent_post(ex, n, x, y, a, ex.read(mn), ex.read(mx), 'extent')
        else:
            j = ex.fint('j', 0)
            ex.assume(lt(j, n))
            ex.oblige(not_(crossing(n, x, y, a, j)[0]), 'refused only if the contour does not reach that level', 'post')
        frame(ex, S0, ex.S, except_=(mn.rid, mx.rid))
    out.append(('extent of the contour at a level', u_maxmin))

    def u_maxrad(ex, which):
        o, n, r, z = sym_obj(ex)
        ma = ex.fld(o, 'magnetic_axis')
        Z0 = z3.Real('Z0')
        ex.setnode(ma.rid, Arr(2, UninitArr().store(0, z3.Real('R0')).store(1, Z0), REALT))
        ex.loop_inv = [inv_extent(n, r, z, Z0)]
        S0 = ex.S.copy()
        f = one(b, which, 3)
        k, v = run_fn(ex, f, o, [cell(ex, n, UINT), cell(ex, ex.getf(o, 'rdomain'), PT), cell(ex, ex.getf(o, 'zdomain'), PT)])
        mxr, mnr = ex.fld(o, 'maxradius'), ex.fld(o, 'minradius')
        if k == 'ret':
            ex.oblige(eq(v, ex.read(mxr if which == 'FindMaxRadius' else mnr)), 'returns the recorded extreme', 'post')
            extent_post(ex, n, r, z, Z0, ex.read(mnr), ex.read(mxr), 'radial extent at the level of the magnetic axis')
        else:
            j = ex.fint('j', 0)
            ex.assume(lt(j, n))
            ex.oblige(not_(crossing(n, r, z, Z0, j)[0]), 'refused only if the contour does not reach the level of the axis', 'post')
        frame(ex, S0, ex.S, except_=(mxr.rid, mnr.rid))
    for w in ('FindMaxRadius', 'FindMinRadius'):
        out.append((w + ' over a contour', lambda ex, w=w: u_maxrad(ex, w)))

    def u_lemma(ex):
        """lo/hi above are the extreme x over the points of the segment at the level"""
        xj, yj, xp, yp, a, s = z3.Reals('xj yj xp yp a s')

        class A:
            def __init__(self, u, v): self.u, self.v = u, v
            def get(self, i): return self.u if is_conc(i) and i == 0 else self.v
        c, lo, hi = crossing0(2, A(xj, xp), A(yj, yp), a, 0)
        on = z3.And(s >= 0, s <= 1, yj + s * (yp - yj) == a)
        X = xj + s * (xp - xj)
        ex.oblige(z3.Implies(z3.And(on, yp != yj), X == lo), 'lemma: interpolated crossing', 'post')
        ex.oblige(z3.Implies(on, z3.And(c, lo <= X, X <= hi)), 'lemma: every point of the segment at the level lies between', 'post')
        w = (a - yj) / (yp - yj)
        for nm, e in (('lo', lo), ('hi', hi)):
            ex.oblige(z3.Implies(z3.And(c, yp != yj), z3.And(w >= 0, w <= 1, yj + w * (yp - yj) == a, xj + w * (xp - xj) == e)), 'lemma: %s attained' % nm, 'post')
            ex.oblige(z3.Implies(z3.And(c, yp == yj), z3.And(yj == a, z3.Or(e == xj, e == xp))), 'lemma: %s attained (level segment)' % nm, 'post')
    out.append(('lemma: extent of one segment', u_lemma))

    # ------------------------------------------------------------ dispatchers
    def u_get(ex, which):
        """GetMaxRadius / GetMinRadius: cached value or recomputed"""
        o, n, r, z = sym_obj(ex)
        res = ex.freal('res')
        nm = 'Find' + which[3:]

        def spec(ex, f, this, args):
            ex.S.ghost['find'] = this.rid
            return res
        ex.contracts = {one(b, nm, 0)['_m']: spec}
        fld = 'maxradius' if 'Max' in which else 'minradius'
        cached = ex.getf(o, fld)
        S0 = ex.S.copy()
        k, v = run_fn(ex, one(b, which, 0), o, [])
        c = (cached > 0) if 'Max' in which else (cached >= 0)
        ex.oblige(eq(v, z3.If(c, cached, res)), which + ' returns the recorded extreme, or computes it', 'post')
        frame(ex, S0, ex.S)
    for w in ('GetMaxRadius', 'GetMinRadius'):
        out.append((w, lambda ex, w=w: u_get(ex, w)))

    def u_disp(ex, nm):
        o, n, r, z = sym_obj(ex)
        res = ex.freal('res')
        np = {'FindMaxRadius': 3, 'FindMinRadius': 3, 'FindMaxZ': 6}[nm]
        tgt = one(b, nm, np)

        def spec(ex, f, this, args):
            ex.S.ghost['a'] = tuple(ex.read(a) for a in args[:np if nm != 'FindMaxZ' else 4])
            ex.S.ghost['o'] = tuple(a.rid for a in args[4:])
            return res
        ex.contracts = {tgt['_m']: spec}
        a = []
        if nm == 'FindMaxZ':
            a = [cell(ex, z3.Real('R')), cell(ex, ex.freal('mn')), cell(ex, ex.freal('mx'))]
        S0 = ex.S.copy()
        k, v = run_fn(ex, one(b, nm, len(a)), o, a)
        g = ex.S.ghost.get('a')
        ex.oblige(g is not None, 'searches the contour of the domain', 'post')
        ex.oblige(and_(eq(g[0], n), ex.ptr_eq(g[1], ex.getf(o, 'rdomain')), ex.ptr_eq(g[2], ex.getf(o, 'zdomain'))), 'searches the contour of the domain', 'post')
        if a:
            ex.oblige(and_(eq(g[3], z3.Real('R')), ex.S.ghost['o'] == (a[1].rid, a[2].rid)), 'at the radius given, into the arguments given', 'post')
        else:
            ex.oblige(eqval(ex, v, res), 'returns what the search returns', 'post')
        frame(ex, S0, ex.S)
    for w in ('FindMaxRadius', 'FindMinRadius', 'FindMaxZ'):
        out.append((w + ' of the domain', lambda ex, w=w: u_disp(ex, w)))

    def u_maxz(ex):
        o, n, r, z = sym_obj(ex)
        tgt = one(b, 'FindMaxMin', 6)

        def spec(ex, f, this, args):
            ex.S.ghost['a'] = tuple(ex.read(a) for a in args[:4])
            ex.S.ghost['o'] = tuple(a.rid for a in args[4:])
        ex.contracts = {tgt['_m']: spec}
        rp, zp = ex.getf(o, 'rdomain'), ex.getf(o, 'zdomain')
        R = z3.Real('R')
        mn, mx = cell(ex, ex.freal('mn')), cell(ex, ex.freal('mx'))
        S0 = ex.S.copy()
        run_fn(ex, one(b, 'FindMaxZ', 6), o, [cell(ex, n, UINT), cell(ex, rp, PT), cell(ex, zp, PT), cell(ex, R), mn, mx])
        g = ex.S.ghost.get('a')
        ex.oblige(g is not None, 'vertical extent: extreme Z at radius R', 'post')
        ex.oblige(and_(eq(g[0], n), ex.ptr_eq(g[1], zp), ex.ptr_eq(g[2], rp), eq(g[3], R), ex.S.ghost['o'] == (mn.rid, mx.rid)), 'vertical extent: extreme Z at radius R', 'post')
        frame(ex, S0, ex.S)
    out.append(('FindMaxZ over a contour', u_maxz))

    # ------------------------------------------------------------ bounding box
    def u_bounds(ex):
        o, n, r, z = sym_obj(ex)
        ma = ex.fld(o, 'magnetic_axis')
        R0, Z0 = z3.Reals('R0 Z0')
        ex.setnode(ma.rid, Arr(2, UninitArr().store(0, R0).store(1, Z0), REALT))
        outc = [cell(ex, ex.freal(x)) for x in ('rmin', 'rmax', 'zmin', 'zmax')]
        bs = ex.fld(o, 'bounds_set')
        cached = ex.choose(2) == 1
        ex.setnode(bs.rid, Cell(cached, ex.node(bs.rid).ty))
        bo = ex.fld(o, 'bounds')
        bf = {nm: ex.fld(bo, nm) for nm in ('rmin', 'rmax', 'zmin', 'zmax')}
        old = [ex.read(bf[nm]) for nm in ('rmin', 'rmax', 'zmin', 'zmax')]

        def inv(ex, info):
            out = []
            J = z3.Int('J!%s' % info.k)
            for key in info.left:
                nd = info.base.mem[key[0]]
                if not (isinstance(nd, Cell) and nd.ty is not None and nd.ty.k == 'real'):
                    continue
                for A, ax in ((r, R0), (z, Z0)):
                    def up(S, k, key=key, A=A):
                        return z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < toz(k)), toz(A.get(J), True) <= toz(loops.getc(S, key), True)))

                    def dn(S, k, key=key, A=A):
                        return z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < toz(k)), toz(A.get(J), True) >= toz(loops.getc(S, key), True)))

                    def at(S, k, key=key, A=A, ax=ax):
                        v = toz(loops.getc(S, key), True)
                        return z3.Or(v == ax, z3.Exists([J], z3.And(J >= 0, J < toz(k), v == toz(A.get(J), True))))

                    def lo(S, k, key=key, ax=ax):
                        return toz(loops.getc(S, key), True) <= ax

                    def hi(S, k, key=key, ax=ax):
                        return toz(loops.getc(S, key), True) >= ax
                    for f in (up, dn, at, lo, hi):
                        f.wantsk = True
                        out.append(f)
            return out
        ex.loop_inv = [inv]
        S0 = ex.S.copy()
        k, v = run_fn(ex, one(b, 'GetDomainBounds', 4), o, outc)
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        got = [ex.read(c) for c in outc]
        if cached:
            ex.oblige(and_(*[eq(a, c) for a, c in zip(got, old)]), 'recorded bounds are returned', 'post')
            frame(ex, S0, ex.S, except_=[c.rid for c in outc])
            return
        j = ex.fint('j', 0)
        ex.assume(lt(j, n))
        for A, ax, mn, mx, nm in ((r, R0, got[0], got[1], 'R'), (z, Z0, got[2], got[3], 'Z')):
            ex.oblige(and_(le(mn, A.get(j)), le(A.get(j), mx)), nm + ' bounds contain every point of the contour', 'post')
            ex.oblige(and_(le(mn, ax), le(ax, mx)), nm + ' bounds contain the magnetic axis', 'post')
            J = z3.Int('J!post')
            for e, l in ((mn, 'lower'), (mx, 'upper')):
                ex.oblige(z3.Or(toz(e, True) == ax, z3.Exists([J], z3.And(J >= 0, J < n, toz(e, True) == toz(A.get(J), True)))), '%s %s bound is attained' % (l, nm), 'post')
        ex.oblige(ex.read(bs) is True or eqval(ex, ex.read(bs), True), 'bounds are marked as recorded', 'post')
        ex.oblige(and_(*[eq(ex.read(bf[nm]), g) for nm, g in zip(('rmin', 'rmax', 'zmin', 'zmax'), got)]), 'bounds are recorded', 'post')
        frame(ex, S0, ex.S, except_=[c.rid for c in outc] + [f.rid for f in bf.values()] + [bs.rid])
    out.append(('bounding box', u_bounds))

    def u_set(ex):
        o, n, r, z = sym_obj(ex)
        m = ex.fint('m', 1, 2 ** 31)
        rp, zp = [Ptr(ex.put(Arr(m, ex.sym_arr(REALT, nm), REALT), 'new[]'), 0) for nm in ('rn', 'zn')]

        def spec(ex, f, this, args):
            ex.oblige(and_(eq(ex.getf(this, 'ndomain'), m), ex.ptr_eq(ex.getf(this, 'rdomain'), rp), ex.ptr_eq(ex.getf(this, 'zdomain'), zp)), 'extent recomputed for the new contour', 'post')
            ex.S.ghost['find'] = this.rid
            return ex.freal('mx')
        ex.contracts = {one(b, 'FindMaxRadius', 0)['_m']: spec}
        S0 = ex.S.copy()
        k, v = run_fn(ex, one(b, 'SetDomain', 3), o, [cell(ex, rp, PT), cell(ex, zp, PT), cell(ex, m, UINT)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        ex.oblige(and_(eq(ex.getf(o, 'ndomain'), m), ex.ptr_eq(ex.getf(o, 'rdomain'), rp), ex.ptr_eq(ex.getf(o, 'zdomain'), zp)), 'the domain is the new contour', 'post')
        ex.oblige(ex.S.ghost.get('find') == o.rid, 'extent of the new contour is computed', 'post')
        ex.oblige(not_(truth(ex.getf(o, 'bounds_set'))), 'bounds of the old contour are discarded', 'post')
        frame(ex, S0, ex.S, except_=[ex.fld(o, f).rid for f in ('rdomain', 'zdomain', 'ndomain', 'bounds_set')])
    out.append(('SetDomain', u_set))

    def u_sep(ex):
        o, n, r, z = sym_obj(ex)
        m = ex.fint('m', 0, 2 ** 31)
        null = ex.choose(4)
        ps = [NULL if null & (1 << i) else Ptr(ex.put(Arr(m, ex.sym_arr(REALT, nm), REALT), 'new[]'), 0) for i, nm in enumerate(('rs', 'zs'))]
        S0 = ex.S.copy()
        run_fn(ex, one(b, 'SetSeparatrix', 3), o, [cell(ex, ps[0], PT), cell(ex, ps[1], PT), cell(ex, m, UINT)])
        ex.oblige(and_(eq(ex.getf(o, 'nseparatrix'), 0 if null else m), ex.ptr_eq(ex.getf(o, 'rseparatrix'), ps[0]), ex.ptr_eq(ex.getf(o, 'zseparatrix'), ps[1])), 'separatrix recorded (empty unless both coordinates are given)', 'post')
        frame(ex, S0, ex.S, except_=[ex.fld(o, f).rid for f in ('rseparatrix', 'zseparatrix', 'nseparatrix')])
    out.append(('SetSeparatrix', u_sep))

    for nm, what in (('GetMagneticAxisR', 0), ('GetMagneticAxisZ', 1), ('GetMagneticAxis', 'ptr'), ('GetRDomain', 'rdomain'), ('GetZDomain', 'zdomain'),
                     ('GetNDomain', 'ndomain'), ('GetRSeparatrix', 'rseparatrix'), ('GetZSeparatrix', 'zseparatrix'), ('GetNSeparatrix', 'nseparatrix')):
        def u_acc(ex, nm=nm, what=what):
            o, n, r, z = sym_obj(ex)
            ex.setf(o, 'rseparatrix', Ptr(ex.put(Arr(3, ex.sym_arr(REALT, 'a'), REALT)), 0))
            ex.setf(o, 'zseparatrix', Ptr(ex.put(Arr(3, ex.sym_arr(REALT, 'b'), REALT)), 0))
            ma = ex.fld(o, 'magnetic_axis')
            S0 = ex.S.copy()
            k, v = run_fn(ex, one(b, nm, 0), o, [])
            if isinstance(what, int):
                ex.oblige(eq(v, ex.read(LV(ma.rid, what))), 'accessor', 'post')
            elif what == 'ptr':
                ex.oblige(v.rid == ma.rid and eq((v.off if v.off is not None else 0), 0) is True, 'accessor', 'post')
            else:
                ex.oblige(eqval(ex, v, ex.getf(o, what)), 'accessor', 'post')
            frame(ex, S0, ex.S)
        out.append((nm, u_acc))
    return out


def inst_foralls(ex, *js):
    """instances of the 'no earlier iteration left the loop' facts at the js"""
    new = []
    for p in ex.S.pc:
        if isinstance(p, Z) and z3.is_quantifier(p) and p.is_forall() and p.num_vars() == 1 and p.var_sort(0) == z3.IntSort():
            new += [z3.substitute_vars(p.body(), toz(j)) for j in js]
    keep = [p for p in ex.S.pc if not (isinstance(p, Z) and z3.is_quantifier(p))]
    ex.S.pc = keep + new


ASSUME = ['real arithmetic', 'contour of 1 to 2^31 points']

from frame import *
from calc import diff, PARTIALS
from P08 import cell, args3, PT, SQ

TITLE = 'Gridded magnetic field'
HARNESS = dict(src='P07.cpp', link='all')
CLS = 'MagneticFieldNumeric2D'
X, Y, ZZ = z3.Reals('x y z')
SPL = {}
R2 = z3.RealSort()
for _n in ('Br', 'Bphi', 'Bz', 'Psi'):
    f = [z3.Function('S_%s%s' % (_n, s), R2, R2, R2) for s in ('', '_r', '_z')]
    SPL[_n] = f
    PARTIALS['S_' + _n] = f[1:]


def load(b):
    b.load(['src/MagneticField/MagneticFieldNumeric2D.cpp', 'src/MagneticField/MagneticField2D.cpp'])


def fn(b, name, n, cls=CLS, pred=None):
    c = [d for d in b.prog.find_fn(cls + '::' + name) if b.prog.body(d) and len(params(d)) == n and (pred is None or pred(d))]
    if len(c) != 1:
        raise Unsupported('%s: %d candidates' % (name, len(c)))
    return c[0]


def opaque(ex, ty):
    return Ptr(ex.put(Cell(ex.fint('handle'), UINT)), 0)


def mk(ex, flux=True):
    """object after initialisation: spline handles, bounds of the grid, work arrays"""
    o = LV(ex.alloc_rec(CLS, 'sym', name='B'))
    h = {}

    def setp(name, p):
        f = ex.fld(o, name)
        ex.setnode(f.rid, Cell(p, ex.node(f.rid).ty))
    for n in ('Br', 'Bphi', 'Bz', 'Psi'):
        h[n] = opaque(ex, None)
        setp('s' + n, h[n])
    for n in ('ra', 'za'):
        h[n] = opaque(ex, None)
        setp(n, h[n])
    setp('interpval', Ptr(ex.put(Arr(3, UninitArr(), REALT), 'new[]'), 0))
    j0 = ex.put(Arr(12, UninitArr(), REALT), 'new[]')
    jj = UninitArr()
    for i in range(4):
        jj = jj.store(i, Ptr(j0, 3 * i))
    setp('jacobian', Ptr(ex.put(Arr(4, jj, PT), 'new[]'), 0))
    g = {n: ex.getf(o, n) for n in ('rmin', 'rmax', 'zmin', 'zmax')}
    ex.assume(z3.And(g['rmin'] < g['rmax'], g['zmin'] < g['zmax'], g['rmin'] >= 0))
    f = ex.fld(o, 'hasFluxCoordinates')
    ex.setnode(f.rid, Cell(flux, ex.node(f.rid).ty))

    def spec(which):
        def s(ex, f, this, args):
            a = [ex.read(x) for x in args]
            nm = [n for n in SPL if isinstance(a[0], Ptr) and a[0].rid == h[n].rid]
            if len(nm) != 1:
                ex.oblige(False, 'interpolation uses an initialised spline', 'safety')
            for p, w in ((a[3], 'ra'), (a[4], 'za')):
                ok = isinstance(p, Ptr) and (p.rid is None or p.rid == h[w].rid)
                ex.oblige(ok, 'accelerator belongs to the grid it is used with', 'safety')
            ex.oblige(and_(le(g['rmin'], a[1]), le(a[1], g['rmax']), le(g['zmin'], a[2]), le(a[2], g['zmax'])),
                      'interpolation only within the grid', 'safety')
            return SPL[nm[0]][which](toz(a[1], True), toz(a[2], True))
        return s
    ex.contracts = {'gsl_spline2d_eval': spec(0), 'gsl_spline2d_eval_deriv_x': spec(1), 'gsl_spline2d_eval_deriv_y': spec(2)}
    return o, g


def region(ex, g):
    """(clamped radius, clamped height, inside?) on the current path"""
    R = SQ(X * X + Y * Y)
    ex.assume(X * X + Y * Y > 0)
    ex.assume(R > 0)
    ex.assume(R * R == X * X + Y * Y)
    ins = True
    rc, zc = R, ZZ
    if ex.branch(R < g['rmin']):
        rc, ins = g['rmin'], False
    elif ex.branch(R > g['rmax']):
        rc, ins = g['rmax'], False
    if ex.branch(ZZ < g['zmin']):
        zc, ins = g['zmin'], False
    elif ex.branch(ZZ > g['zmax']):
        zc, ins = g['zmax'], False
    return R, rc, zc, ins


def bspec(R, rc, zc):
    br, bp, bz = [SPL[n][0](rc, zc) for n in ('Br', 'Bphi', 'Bz')]
    s, c = Y / R, X / R
    return [br * c - bp * s, br * s + bp * c, bz]


def jspec(R, rc, zc):
    """Jacobian of the axisymmetric field at (rc, phi, zc), in Cartesian components"""
    s, c = Y / R, X / R
    v = {n: [f(rc, zc) for f in SPL[n]] for n in ('Br', 'Bphi', 'Bz')}
    er, ep = (c, s), (-s, c)
    out = []
    # dB = e_r dBr + e_phi dBphi + (Br e_phi - Bphi e_r) dphi;  dr = er.dx, dphi = ep.dx / r
    for i in range(2):
        row = []
        for j in range(2):
            row.append(er[i] * v['Br'][1] * er[j] + ep[i] * v['Bphi'][1] * er[j] + (v['Br'][0] * ep[i] - v['Bphi'][0] * er[i]) * ep[j] / rc)
        row.append(er[i] * v['Br'][2] + ep[i] * v['Bphi'][2])
        out.append(row)
    out.append([v['Bz'][1] * er[0], v['Bz'][1] * er[1], v['Bz'][2]])
    return out


def vec(ex, p, n=3):
    if isinstance(p, LV):
        p = Ptr(p.rid, 0)
    return [ex.read(LV(p.rid, add((p.off if p.off is not None else 0), i))) for i in range(n)]


def req(ex, a, c, label):
    ex.oblige(eq(toz(a, True), toz(c, True)), label, 'post')


def units(b):
    out = []

    def u_eval(ex):
        o, g = mk(ex)
        R, rc, zc, ins = region(ex, g)
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, 'Eval', 3), o, args3(ex, (X, Y, ZZ)))
        ex.oblige(k == 'ret', 'Eval terminates normally', 'post')
        for i, (p, q) in enumerate(zip(vec(ex, v), bspec(R, rc, zc))):
            req(ex, p, q, 'Eval: component %d is the interpolated field at the nearest grid point, rotated to the toroidal angle' % i)
        frame(ex, S0, ex.S, except_=(v.rid,))
    out.append(('field vector', u_eval))

    def u_lemma(ex):
        R = SQ(X * X + Y * Y)
        ex.assume(X * X + Y * Y > 0)
        B, J = bspec(R, R, ZZ), jspec(R, R, ZZ)
        for i in range(3):
            for j, w in enumerate((X, Y, ZZ)):
                req(ex, diff(B[i], w), J[i][j], 'lemma: Jacobian used in the contract is the derivative of the field [%d][%d]' % (i, j))
    out.append(('lemma: derivative of an axisymmetric field', u_lemma))

    def u_der(ex):
        o, g = mk(ex)
        R, rc, zc, ins = region(ex, g)
        ex.assume(rc > 0)
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, 'EvalDerivatives', 3), o, args3(ex, (X, Y, ZZ)))
        ex.oblige(k == 'ret', 'EvalDerivatives terminates normally', 'post')
        md = v
        B = vec(ex, ex.fld(md, 'B'))
        for i, q in enumerate(bspec(R, rc, zc)):
            req(ex, B[i], q, 'EvalDerivatives: B[%d]' % i)
        Jp = ex.getf(md, 'J')
        J = [vec(ex, ex.read(LV(Jp.rid, add((Jp.off if Jp.off is not None else 0), i)))) for i in range(3)]
        for i in range(3):
            for j in range(3):
                req(ex, J[i][j], jspec(R, rc, zc)[i][j], 'EvalDerivatives: J[%d][%d]' % (i, j))
        # the rest is stated in terms of these
        cur = vec(ex, ex.fld(md, 'curlB'))
        req(ex, cur[0], sub(J[2][1], J[1][2]), 'curl x')
        req(ex, cur[1], sub(J[0][2], J[2][0]), 'curl y')
        req(ex, cur[2], sub(J[1][0], J[0][1]), 'curl z')
        Ba = ex.getf(md, 'Babs')
        gr = vec(ex, ex.fld(md, 'gradB'))
        nb = [ex.freal('h0B') for i in range(3)]
        nj = [[ex.freal('h0J') for i in range(3)] for j in range(3)]
        defs = [(n, toz(t, True)) for n, t in zip(nb, B)] + [(n, toz(t, True)) for a, c in zip(nj, J) for n, t in zip(a, c)]
        na, ng = ex.freal('h0A'), [ex.freal('h0g') for i in range(3)]
        pc = cut(ex, defs, [na == toz(Ba, True)] + [n == toz(t, True) for n, t in zip(ng, gr)])
        names = nb + [n for a in nj for n in a] + [na] + ng
        ex.S.pc = [p for p in pc if isinstance(p, Z) and only(p, names)]
        ex.assume(z3.Or(*[n != 0 for n in nb]))
        ex.assume(z3.And(*[z3.Implies(n >= 0, z3.BoolVal(True)) for n in nb]))
        ex.oblige(na > 0, 'field strength is positive where the field does not vanish', 'post')
        ex.oblige(na * na == nb[0] * nb[0] + nb[1] * nb[1] + nb[2] * nb[2], 'field strength is the length of the field vector', 'post')
        for j in range(3):
            ex.oblige(ng[j] * na == nb[0] * nj[0][j] + nb[1] * nj[1][j] + nb[2] * nj[2][j], 'gradB[%d] is the derivative of the field strength' % j, 'post')
    out.append(('derivatives of the field', u_der))

    # ------------------------------------------------------------ flux
    def u_flux(ex, which):
        o, g = mk(ex, flux=which != 'none')
        R, rc, zc, ins = region(ex, g)
        S0 = ex.S.copy()
        nm = 'EvalFluxDerivatives' if which == 'der' or (which == 'none' and ex.choose(2)) else 'EvalFlux'
        k, v = run_fn(ex, fn(b, nm, 3), o, args3(ex, (X, Y, ZZ)))
        if which == 'none':
            ex.oblige(k == 'throw', 'flux of a field without flux is refused', 'post')
            return
        ex.oblige(k == 'ret', nm + ' terminates normally', 'post')
        P = [f(rc, zc) for f in SPL['Psi']]
        if which == 'val':
            req(ex, v, P[0], 'flux is the interpolated flux at the nearest grid point')
            frame(ex, S0, ex.S)
        else:
            ex.oblige(isinstance(v, Ptr) and v.rid is not None, 'flux derivatives are returned', 'post')
            lv = LV(v.rid, v.off) if False else LV(v.rid)
            for f, w in zip(('psi', 'dpsi_dR', 'dpsi_dZ'), P):
                req(ex, ex.getf(lv, f), w, f)
            frame(ex, S0, ex.S, except_=(v.rid,) + tuple(ex.fld(lv, f).rid for f in ('psi', 'dpsi_dR', 'dpsi_dZ')))
    for w, t in (('val', 'flux'), ('der', 'flux derivatives'), ('none', 'flux not available')):
        out.append((t, lambda ex, w=w: u_flux(ex, w)))

    # ------------------------------------------------------------ short-hands taking a vector
    def u_short(ex, name, cls, kind):
        o, g = mk(ex)
        tgt = fn(b, name, 3)
        res = ex.freal('res')
        rv = ex.put(Cell(res, REALT))

        def spec(ex, f, this, args):
            ex.S.ghost['a'] = tuple(ex.read(a) for a in args)
            ex.S.ghost['this'] = this.rid
            return res if name == 'EvalFlux' else (LV(rv) if name == 'EvalDerivatives' else Ptr(rv, 0))
        ex.contracts = dict(ex.contracts)
        ex.contracts[tgt['_m']] = spec
        f = fn(b, name, 1, cls, pred=lambda d: ('Vector' in d['type']['qualType']) == (kind == 'vector'))
        if kind == 'vector':
            raise Unsupported('vector argument')
        else:
            ar = UninitArr()
            for i, v in enumerate((X, Y, ZZ)):
                ar = ar.store(i, v)
            a = cell(ex, Ptr(ex.put(Arr(3, ar, REALT)), 0), PT)
        S0 = ex.S.copy()
        k, v = run_fn(ex, f, o, [a])
        got = ex.S.ghost.get('a')
        ex.oblige(got is not None and k == 'ret' and ex.S.ghost.get('this') == o.rid, 'short-hand evaluates the field', 'post')
        ex.oblige(and_(*[eq(p, q) for p, q in zip(got, (X, Y, ZZ))]), 'short-hand evaluates at the point given', 'post')
        if name == 'EvalFlux':
            req(ex, v, res, 'short-hand returns the result')
        else:
            ex.oblige(v.rid == rv, 'short-hand returns the result', 'post')
    for nm in ('Eval', 'EvalDerivatives'):
        out.append((nm + ' short-hand (array)', lambda ex, nm=nm: u_short(ex, nm, CLS, 'array')))
    for nm in ('Eval', 'EvalDerivatives', 'EvalFlux', 'EvalFluxDerivatives'):
        out.append((nm + ' base short-hand (array)', lambda ex, nm=nm: u_short(ex, nm, 'MagneticField2D', 'array')))

    # ------------------------------------------------------------ radii of the plasma
    def u_rad(ex, name):
        o, g = mk(ex)
        tgt = fn(b, name, 3, 'MagneticField2D')
        res = ex.freal('res')

        def spec(ex, f, this, args):
            ex.S.ghost['a'] = tuple(ex.read(a) for a in args)
            return res
        ex.contracts = {tgt['_m']: spec}
        want = {}
        for n in ('rsep', 'zsep', 'rwall', 'zwall'):
            want[n] = Ptr(ex.put(Arr(ex.fint('n', 1), ex.sym_arr(REALT, n), REALT), 'new[]'), 0)
            f = ex.fld(o, n)
            ex.setnode(f.rid, Cell(want[n], ex.node(f.rid).ty))
        ns, nw = ex.getf(o, 'nsep'), ex.getf(o, 'nwall')
        sep = ex.branch(lt(0, ns))
        S0 = ex.S.copy()
        k, v = run_fn(ex, fn(b, name, 0), o, [])
        got = ex.S.ghost.get('a')
        ex.oblige(got is not None and k == 'ret', 'extent of the plasma is that of a contour', 'post')
        ex.oblige(eq(got[0], ns if sep else nw), 'number of points of the separatrix if there is one, else of the wall', 'post')
        w = ('rsep', 'zsep') if sep else ('rwall', 'zwall')
        ex.oblige(got[1].rid == want[w[0]].rid and got[2].rid == want[w[1]].rid, 'separatrix if there is one, else the wall', 'post')
        req(ex, v, res, 'returns the extreme')
        frame(ex, S0, ex.S)
    for nm in ('FindMaxRadius', 'FindMinRadius'):
        out.append((nm + ' of the plasma', lambda ex, nm=nm: u_rad(ex, nm)))

    # ------------------------------------------------------------ construction
    ARR = ('R', 'Z', 'Br', 'Bphi', 'Bz', 'Psi', 'rsep', 'zsep', 'rwall', 'zwall')

    def gsl_init(ex):
        """gsl: allocation returns a new handle, init records the data it was given"""
        tab = ex.S.ghost['gsl'] = ()

        def acc(ex, f, this, args):
            r = ex.put(Cell(ex.fint('acc'), UINT))
            ex.S.ghost['gsl'] = ex.S.ghost['gsl'] + (('acc', r),)
            return Ptr(r, 0)

        def alloc(ex, f, this, args):
            a = [ex.read(x) for x in args[1:]]
            bc = ex.read(ex.lib.global_var(ex, 'gsl_interp2d_bicubic'))
            t = ex.read(args[0]) if isinstance(args[0], LV) else args[0]
            ex.oblige(isinstance(t, Ptr) and t.rid == bc.rid, 'interpolation is bicubic', 'post')
            r = ex.put(Cell(ex.fint('spl'), UINT))
            ex.S.ghost['gsl'] = ex.S.ghost['gsl'] + (('spl', r) + tuple(a),)
            return Ptr(r, 0)

        def init(ex, f, this, args):
            a = [ex.read(x) for x in args]
            h = [t for t in ex.S.ghost['gsl'] if t[0] == 'spl' and t[1] == a[0].rid]
            ex.oblige(len(h) == 1, 'spline allocated before it is initialised', 'safety')
            ex.oblige(and_(eq(h[0][2], a[4]), eq(h[0][3], a[5])), 'spline initialised with the size it was allocated for', 'safety')
            for p, ln in ((a[1], a[4]), (a[2], a[5]), (a[3], mul(a[4], a[5]))):
                ok = isinstance(p, Ptr) and p.rid is not None
                ex.oblige(ok, 'spline data exist', 'safety')
                ex.oblige(le(add((p.off if p.off is not None else 0), ln), ex.node(p.rid).n), 'spline data are complete', 'safety')
            ex.S.ghost['gsl'] = ex.S.ghost['gsl'] + (('init', a[0].rid) + tuple(a[1:]),)
            return 0
        return {'gsl_interp_accel_alloc': acc, 'gsl_spline2d_alloc': alloc, 'gsl_spline2d_init': init}

    def data(ex, sep, wall, psi):
        nr, nz = ex.fint('nr', 4, 2 ** 12), ex.fint('nz', 4, 2 ** 12)
        ns, nw = (ex.fint('ns', 1, 2 ** 20) if sep else 0), (ex.fint('nw', 1, 2 ** 20) if wall else 0)
        ln = dict(R=nr, Z=nz, Br=mul(nr, nz), Bphi=mul(nr, nz), Bz=mul(nr, nz), Psi=mul(nr, nz), rsep=ns, zsep=ns, rwall=nw, zwall=nw)
        p = {}
        for n in ARR:
            none = (n == 'Psi' and not psi) or ('sep' in n and not sep) or ('wall' in n and not wall)
            p[n] = NULL if none else Ptr(ex.put(Arr(ln[n], ex.sym_arr(REALT, n), REALT), 'new[]'), 0)
        return nr, nz, ns, nw, p

    def check_spline(ex, o, p, nr, nz, psi):
        gh = ex.S.ghost['gsl']
        acc = [t[1] for t in gh if t[0] == 'acc']
        ra, za = ex.getf(o, 'ra'), ex.getf(o, 'za')
        ex.oblige(ra.rid in acc and za.rid in acc, 'search accelerators are allocated', 'post')
        ex.oblige(ra.rid != za.rid, 'each coordinate has a search accelerator of its own', 'post')
        for n in ('Br', 'Bphi', 'Bz') + (('Psi',) if psi else ()):
            h = ex.getf(o, 's' + n)
            i = [t for t in gh if t[0] == 'init' and isinstance(h, Ptr) and t[1] == h.rid]
            ex.oblige(len(i) == 1, 'interpolation of %s is initialised once' % n, 'post')
            t = i[0]
            ex.oblige(t[2].rid == p['R'].rid and t[3].rid == p['Z'].rid and t[4].rid == p[n].rid, 'interpolation of %s uses the grid and the data of %s' % (n, n), 'post')
            ex.oblige(and_(eq((t[2].off if t[2].off is not None else 0), 0), eq((t[3].off if t[3].off is not None else 0), 0), eq((t[4].off if t[4].off is not None else 0), 0), eq(t[5], nr), eq(t[6], nz)), 'interpolation of %s has the size of the grid' % n, 'post')
        for n, q, i in (('rmin', 'R', 0), ('rmax', 'R', sub(nr, 1)), ('zmin', 'Z', 0), ('zmax', 'Z', sub(nz, 1))):
            req(ex, ex.getf(o, n), ex.node(p[q].rid).a.get(i), n + ' is the end of the grid')

    def strv(ex, n):
        return LV(ex.put(Lib('string', {'s': z3.String(n)})))

    def init_args(ex, p, nr, nz, ns, nw, ra, za):
        return [strv(ex, 'name'), strv(ex, 'desc')] + [cell(ex, p['R'], PT), cell(ex, p['Z'], PT), cell(ex, nr, UINT), cell(ex, nz, UINT)] + \
            [cell(ex, p[n], PT) for n in ('Br', 'Bphi', 'Bz', 'Psi')] + [cell(ex, ra), cell(ex, za)] + \
            [cell(ex, p['rsep'], PT), cell(ex, p['zsep'], PT), cell(ex, ns, UINT), cell(ex, p['rwall'], PT), cell(ex, p['zwall'], PT), cell(ex, nw, UINT)]

    def argval(ex, a):
        n = ex.node(a.rid) if isinstance(a, LV) else None
        return n.p['s'] if isinstance(n, Lib) else ex.read(a)

    def u_init(ex, sep, wall, psi):
        o = LV(ex.alloc_rec(CLS, 'sym', name='B'))
        nr, nz, ns, nw, p = data(ex, sep, wall, psi)
        ex.contracts = gsl_init(ex)
        dom = []
        tgt = fn(b, 'SetDomain', 3, 'MagneticField2D')

        def setdom(ex, f, this, args):
            ex.S.ghost['dom'] = tuple(ex.read(a) for a in args)
            return None
        ex.contracts[tgt['_m']] = setdom
        f = fn(b, 'Init', 18)
        ra, za = z3.Reals('raxis zaxis')
        vals = init_args(ex, p, nr, nz, ns, nw, ra, za)
        mem0 = {n: ex.node(q.rid).a for n, q in p.items() if q.rid is not None}
        k, v = run_fn(ex, f, o, vals)
        if not sep and not wall:
            ex.oblige(k == 'throw', 'a field without wall and separatrix is refused', 'post')
            return
        ex.oblige(k == 'ret', 'Init terminates normally', 'post')
        for n in ARR:
            q = ex.getf(o, n)
            ex.oblige(isinstance(q, Ptr) and q.rid == p[n].rid, n + ' is the array given', 'post')
        ex.oblige(and_(eq(ex.getf(o, 'nr'), nr), eq(ex.getf(o, 'nz'), nz), eq(ex.getf(o, 'nsep'), ns), eq(ex.getf(o, 'nwall'), nw)), 'sizes are those given', 'post')
        ma = vec(ex, ex.fld(o, 'magnetic_axis'), 2)
        ex.oblige(and_(eq(ma[0], ra), eq(ma[1], za)), 'magnetic axis is the one given', 'post')
        ex.oblige(eq(toz(truth(ex.getf(o, 'hasFluxCoordinates'))), psi), 'flux is available iff it was given', 'post')
        d = ex.S.ghost.get('dom')
        ex.oblige(d is not None, 'domain is set', 'post')
        w = ('rwall', 'zwall', nw) if wall else ('rsep', 'zsep', ns)
        ex.oblige(d[0].rid == p[w[0]].rid and d[1].rid == p[w[1]].rid, 'domain is the wall if there is one, else the separatrix', 'post')
        ex.oblige(eq(d[2], w[2]), 'domain has all points', 'post')
        sp = ex.getf(o, 'rseparatrix'), ex.getf(o, 'zseparatrix')
        ex.oblige(sp[0].rid == p['rsep'].rid and sp[1].rid == p['zsep'].rid, 'separatrix is the one given', 'post')
        ex.oblige(eq(ex.getf(o, 'nseparatrix'), ns), 'separatrix has all points', 'post')
        check_spline(ex, o, p, nr, nz, psi)
        for n, a in mem0.items():
            ex.oblige(ex.node(p[n].rid).a is a, n + ' is not modified', 'post')
    for sep in (0, 1):
        for wall in (0, 1):
            for psi in (0, 1):
                out.append(('Init (separatrix %d, wall %d, flux %d)' % (sep, wall, psi), lambda ex, a=bool(sep), c=bool(wall), d=bool(psi): u_init(ex, a, c, d)))

    def ctor(ex):
        return fn(b, CLS, 18)

    def u_ctor(ex):
        nr, nz, ns, nw, p = data(ex, True, True, True)
        ra, za = z3.Reals('raxis zaxis')
        o = LV(ex.alloc_rec(CLS, 'uninit', name='B'))
        vals = init_args(ex, p, nr, nz, ns, nw, ra, za)
        want = [argval(ex, a) for a in vals]

        def spec(ex, f, this, args):
            ex.S.ghost['a'] = tuple(argval(ex, a) for a in args)
            ex.S.ghost['this'] = this.rid
        ex.contracts = {fn(b, 'Init', 18)['_m']: spec}
        k, v = run_fn(ex, ctor(ex), o, vals)
        ex.oblige(k == 'ret' and ex.S.ghost.get('this') == o.rid, 'constructor initialises the object', 'post')
        same_args(ex, ex.S.ghost['a'], want, 'constructor')
        work(ex, o)
    out.append(('constructor from data', u_ctor))

    def same_args(ex, got, want, who):
        for i, (g, w) in enumerate(zip(got, want)):
            if isinstance(w, Ptr):
                ex.oblige(isinstance(g, Ptr) and g.rid == w.rid, '%s passes on argument %d' % (who, i), 'post')
                if w.rid is not None:
                    ex.oblige(eq((g.off if g.off is not None else 0), (w.off if w.off is not None else 0)), '%s passes on argument %d' % (who, i), 'post')
            else:
                ex.oblige(eq(g, w), '%s passes on argument %d' % (who, i), 'post')

    def work(ex, o):
        """what mk() assumes about the work arrays"""
        iv, jc = ex.getf(o, 'interpval'), ex.getf(o, 'jacobian')
        ok = isinstance(iv, Ptr) and isinstance(jc, Ptr) and iv.rid is not None and jc.rid is not None
        ex.oblige(ok, 'work arrays are allocated', 'post')
        ex.oblige(le(3, ex.node(iv.rid).n), 'field vector has room for three components', 'post')
        rows = [ex.read(LV(jc.rid, add((jc.off if jc.off is not None else 0), i))) for i in range(4)]
        ex.oblige(len(set(r.rid for r in rows)) == 1 and rows[0].rid != iv.rid, 'rows of the Jacobian are one block', 'post')
        for i, r in enumerate(rows):
            ex.oblige(eq((r.off if r.off is not None else 0), 3 * i), 'row %d of the Jacobian follows the ones before it' % i, 'post')
        ex.oblige(le(12, ex.node(rows[0].rid).n), 'block of the Jacobian is large enough', 'post')

    def u_base(ex):
        o = LV(ex.alloc_rec(CLS, 'sym', name='B'))
        ex.contracts = {}
        k, v = run_fn(ex, fn(b, 'BaseInit', 0), o, [])
        ex.oblige(k == 'ret', 'BaseInit terminates normally', 'post')
        work(ex, o)
    out.append(('BaseInit', u_base))

    def u_clone(ex, sep, wall, psi):
        o = LV(ex.alloc_rec(CLS, 'sym', name='B'))
        nr, nz, ns, nw, p = data(ex, sep, wall, psi)
        for n in ARR:
            f = ex.fld(o, n)
            ex.setnode(f.rid, Cell(p[n], ex.node(f.rid).ty))
        for n, v in (('nr', nr), ('nz', nz), ('nsep', ns), ('nwall', nw)):
            f = ex.fld(o, n)
            ex.setnode(f.rid, Cell(v, ex.node(f.rid).ty))

        def spec(ex, f, this, args):
            ex.S.ghost['a'] = tuple(argval(ex, a) for a in args)
            ex.S.ghost['new'] = this.rid
        ex.contracts = {ctor(ex)['_m']: spec}
        S0 = ex.S.copy()
        ma = vec(ex, ex.fld(o, 'magnetic_axis'), 2)
        nm, ds = [ex.node(ex.fld(o, n).rid).p['s'] for n in ('name', 'description')]
        k, v = run_fn(ex, fn(b, 'Clone', 0), o, [])
        g = ex.S.ghost.get('a')
        ex.oblige(k == 'ret' and g is not None and isinstance(v, Ptr) and v.rid == ex.S.ghost['new'], 'Clone constructs a field', 'post')
        ex.oblige(and_(eq(g[0], nm), eq(g[1], ds)), 'clone has the name and description of the original', 'post')
        for i, w, t in ((4, nr, 'nr'), (5, nz, 'nz'), (10, ma[0], 'axis R'), (11, ma[1], 'axis Z'), (14, ns, 'nsep'), (17, nw, 'nwall')):
            ex.oblige(eq(g[i], w), 'clone has the same ' + t, 'post')
        seen = set()
        for i, n in ((2, 'R'), (3, 'Z'), (6, 'Br'), (7, 'Bphi'), (8, 'Bz'), (9, 'Psi'), (12, 'rsep'), (13, 'zsep'), (15, 'rwall'), (16, 'zwall')):
            q = g[i]
            if p[n].rid is None:
                ex.oblige(isinstance(q, Ptr) and q.rid is None, 'clone has no %s if there is none' % n, 'post')
                continue
            ex.oblige(isinstance(q, Ptr) and q.rid is not None and q.rid not in S0.mem and q.rid not in seen, 'clone has a %s of its own' % n, 'post')
            seen.add(q.rid)
            ln = ex.node(p[n].rid).n
            ex.oblige(and_(eq((q.off if q.off is not None else 0), 0), eq(ex.node(q.rid).n, ln)), '%s of the clone has the same size' % n, 'post')
            j = ex.fint('j', 0)
            ex.assume(lt(j, ln))
            ex.oblige(eq(ex.read(LV(q.rid, j)), ex.read(LV(p[n].rid, j))), '%s of the clone is a copy' % n, 'post')
        frame(ex, S0, ex.S)
    for sep in (0, 1):
        for wall in (0, 1):
            for psi in (0, 1):
                if sep or wall:
                    out.append(('Clone (separatrix %d, wall %d, flux %d)' % (sep, wall, psi), lambda ex, a=bool(sep), c=bool(wall), d=bool(psi): u_clone(ex, a, c, d)))
    return out


from P09 import only

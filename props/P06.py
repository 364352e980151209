from frame import *
from calc import diff

TITLE = 'Analytical magnetic field'
HARNESS = dict(src='P06.cpp', link='all')
CLS = 'MagneticFieldAnalytical2D'
QT = ['constant', 'linear', 'quadratic', 'exponential', 'current', 'current (infinite exponent)']
X, Y, ZZ = z3.Reals('x y z')
SQ = prove.FN('sqrt')


def load(b):
    b.load(['src/MagneticField/MagneticFieldAnalytical2D.cpp', 'src/MagneticField/MagneticFieldAnalytical2D.q.cpp',
            'src/MagneticField/MagneticField2D.cpp'])


def mk(ex, qt, signs=True):
    """a field object satisfying the class invariant"""
    o = LV(ex.alloc_rec(CLS, 'sym', name='B'))
    j0 = ex.put(Arr(9, UninitArr(), REALT), 'new[]')
    jj = UninitArr()
    for i in range(3):
        jj = jj.store(i, Ptr(j0, 3 * i))
    jr = ex.put(Arr(3, jj, Ty('ptr', sub=REALT)), 'new[]')
    ex.setnode(ex.fld(o, 'jacobian').rid, Cell(Ptr(jr, 0), Ty('ptr', sub=Ty('ptr', sub=REALT))))
    g = {}
    for n in ('B0', 'Rm', 'rminor', 'maxis_z', 'safety_factor_param1', 'safety_factor_param2'):
        g[n] = ex.getf(o, n)
    for n in ('B0', 'Rm', 'rminor'):
        ex.assume(g[n] > 0)
    for n in ('sigmaB', 'sigmaI'):
        s = Fraction(1 if ex.choose(2) == 0 else -1) if signs else ex.getf(o, n)
        f = ex.fld(o, n)
        ex.setnode(f.rid, Cell(s, REALT))
        g[n] = s
    f = ex.fld(o, 'safety_factor_type')
    ex.setnode(f.rid, Cell(min(qt, 4), ex.node(f.rid).ty))
    if qt == 5:
        f = ex.fld(o, 'safety_factor_param2')
        ex.setnode(f.rid, Cell(lib.INF, REALT))
        g['safety_factor_param2'] = lib.INF
    else:
        ex.assume(g['safety_factor_param2'] != lib.INF)
    return o, g


def cyl(g):
    R = SQ(X * X + Y * Y)
    r = SQ((g['Rm'] - R) * (g['Rm'] - R) + (ZZ - g['maxis_z']) * (ZZ - g['maxis_z']))
    return R, r


def domain(ex, g):
    """a point off the symmetry axis and off the magnetic axis"""
    R, r = cyl(g)
    ex.assume(X * X + Y * Y > 0)
    ex.assume(R > 0)
    ex.assume(R * R == X * X + Y * Y)
    ex.assume(r > 0)
    ex.assume(r * r == (g['Rm'] - R) * (g['Rm'] - R) + (ZZ - g['maxis_z']) * (ZZ - g['maxis_z']))


def qspec(g, qt, r):
    a, p2 = g['safety_factor_param1'], g['safety_factor_param2']
    rn = r / g['rminor']
    return [a, a * rn + p2, a * rn * rn + p2, prove.FN('exp')(a * rn) + p2,
            a / (1 - 2 / (p2 + 2) * prove.FN('pow', 2)(rn, p2)), a][qt]


def xyz(ex):
    return [LV(ex.put(Cell(v, REALT))) for v in (X, Y, ZZ)]


def bspec(g, qt):
    """B_phi = sB B0 Rm/R; poloidal B0 r/(q R) along the circles around the magnetic axis"""
    R, r = cyl(g)
    q = qspec(g, qt, r)
    st, ct = (ZZ - g['maxis_z']) / r, (g['Rm'] - R) / r
    bp = toz(g['sigmaI'], True) * g['B0'] * r / (q * R)
    bt = toz(g['sigmaB'], True) * g['B0'] * g['Rm'] / R
    return [bp * st * X / R - bt * Y / R, bp * st * Y / R + bt * X / R, bp * ct]


def fnN(b, name, n=3):
    c = [d for d in b.prog.find_fn(CLS + '::' + name) if b.prog.body(d) and len(params(d)) == n]
    if len(c) != 1:
        raise Unsupported('%s: %d candidates' % (name, len(c)))
    return c[0]


def vec(ex, p, n=3):
    if isinstance(p, LV):
        p = Ptr(p.rid, 0)
    return [ex.read(LV(p.rid, add((p.off if p.off is not None else 0), i))) for i in range(n)]


def call(ex, b, name, o, args, n=3):
    k, v = run_fn(ex, fnN(b, name, n), o, args)
    ex.oblige(k == 'ret', name + ' terminates normally', 'post')
    return v


def req(ex, a, c, label):
    ex.oblige(eq(toz(a, True), toz(c, True)), label, 'post')


def units(b):
    out = []
    for qt, qn in enumerate(QT):
        def u_q(ex, qt=qt):
            o, g = mk(ex, qt, False)
            r = z3.Real('r')
            ex.assume(r > 0)
            a = LV(ex.put(Cell(r, REALT)))
            S0 = ex.S.copy()
            q = call(ex, b, '__GetSafetyFactor', o, [a], 1)
            req(ex, q, qspec(g, qt, r), 'safety factor profile')
            dq = call(ex, b, '__GetrDqDr', o, [a], 1)
            if qt == 5:
                req(ex, dq, Fraction(0), 'r dq/dr')
            else:
                req(ex, dq, mul(r, diff(toz(q, True), r)), 'r dq/dr is the derivative of the safety factor')
            frame(ex, S0, ex.S)
        out.append(('safety factor: ' + qn, u_q))

        def u_eval(ex, qt=qt):
            o, g = mk(ex, qt)
            domain(ex, g)
            B = vec(ex, call(ex, b, 'Eval', o, xyz(ex)))
            sp = bspec(g, qt)
            for i in range(3):
                req(ex, B[i], sp[i], 'Eval: B[%d]' % i)
        out.append(('field: ' + qn, u_eval))

        def u_der(ex, qt=qt):
            o, g = mk(ex, qt)
            domain(ex, g)
            R, r = cyl(g)
            q = qspec(g, qt, r)
            ex.assume(q != 0)
            m = call(ex, b, 'EvalDerivatives', o, xyz(ex))
            sp = bspec(g, qt)
            B = vec(ex, ex.fld(m, 'B'))
            for i in range(3):
                req(ex, B[i], sp[i], 'EvalDerivatives: B[%d]' % i)
            Jp = ex.getf(m, 'J')
            J = [vec(ex, ex.read(LV(Jp.rid, add((Jp.off if Jp.off is not None else 0), i)))) for i in range(3)]
            for i in range(3):
                for j, v in enumerate((X, Y, ZZ)):
                    req(ex, J[i][j], diff(toz(sp[i], True), v), 'J[%d][%d] is dB[%d]/dx[%d]' % (i, j, i, j))
            cu = vec(ex, ex.fld(m, 'curlB'))
            req(ex, cu[0], sub(diff(sp[2], Y), diff(sp[1], ZZ)), 'curl B, x')
            req(ex, cu[1], sub(diff(sp[0], ZZ), diff(sp[2], X)), 'curl B, y')
            req(ex, cu[2], sub(diff(sp[1], X), diff(sp[0], Y)), 'curl B, z')
            req(ex, add(add(J[0][0], J[1][1]), J[2][2]), Fraction(0), 'div B = 0')
            ba = ex.getf(m, 'Babs')
            req(ex, mul(ba, ba), sp[0] * sp[0] + sp[1] * sp[1] + sp[2] * sp[2], '|B|^2 = B.B')
            # sign of |B|: B0 Rm/R sqrt(1+..)
            t = r / (q * g['Rm'])
            S = SQ(t * t + 1)
            ex.assume(z3.And(S >= 0, S * S == t * t + 1))      # square root
            ex.lemma(S > 0)
            req(ex, ba, g['B0'] * g['Rm'] / R * S, '|B| is the positive root')
            bs = g['B0'] * g['Rm'] / R * S
            gb = vec(ex, ex.fld(m, 'gradB'))
            for j, v in enumerate((X, Y, ZZ)):
                req(ex, gb[j], diff(bs, v), 'gradB[%d] is d|B|/dx[%d]' % (j, j))
        out.append(('derivatives: ' + qn, u_der))

        def u_flux(ex, qt=qt):
            o, g = mk(ex, qt)
            domain(ex, g)
            R, r = cyl(g)
            q = qspec(g, qt, r)
            psi = call(ex, b, 'EvalFlux', o, xyz(ex))
            fd = call(ex, b, 'EvalFluxDerivatives', o, xyz(ex))
            fd = LV(fd.rid)
            req(ex, ex.getf(fd, 'psi'), psi, 'flux returned with the derivatives is the flux')
            # in terms of R, Z
            Rc, Zc = z3.Reals('Rc Zc')
            rr = SQ((g['Rm'] - Rc) * (g['Rm'] - Rc) + (Zc - g['maxis_z']) * (Zc - g['maxis_z']))
            qq = qspec(g, qt, rr)
            ps = toz(g['sigmaI'], True) * toz(PIREF(ex, b), True) * g['B0'] * rr * rr / qq
            back = [(Rc, R), (Zc, ZZ)]
            req(ex, psi, subst(ps, back), 'flux value')
            dR, dZ = subst(toz(diff(ps, Rc), True), back), subst(toz(diff(ps, Zc), True), back)
            req(ex, ex.getf(fd, 'dpsi_dR'), dR, 'dpsi_dR is the radial derivative of the flux')
            req(ex, ex.getf(fd, 'dpsi_dZ'), dZ, 'dpsi_dZ is the vertical derivative of the flux')
            # consequence: B is tangential to the flux surfaces
            sp = bspec(g, qt)
            br = (sp[0] * X + sp[1] * Y) / R
            req(ex, add(mul(br, ex.getf(fd, 'dpsi_dR')), mul(sp[2], ex.getf(fd, 'dpsi_dZ'))), Fraction(0), 'B . grad psi = 0')
        out.append(('flux: ' + qn, u_flux))

    def u_axis(ex):
        o, g = mk(ex, 0)
        ex.assume(X * X + Y * Y > 0)
        R = SQ(X * X + Y * Y)
        ex.assume(z3.And(R > 0, R * R == X * X + Y * Y))
        ex.assume(R == g['Rm'])
        ex.assume(ZZ == g['maxis_z'])
        ex.assume(g['safety_factor_param1'] != 0)
        rz = SQ((g['Rm'] - R) * (g['Rm'] - R) + (ZZ - g['maxis_z']) * (ZZ - g['maxis_z']))
        ex.assume(rz == 0)       # sqrt(0)
        B = vec(ex, call(ex, b, 'Eval', o, xyz(ex)))
        bt = toz(g['sigmaB'], True) * g['B0']
        ex.oblige(and_(eq(B[0], -bt * Y / R), eq(B[1], bt * X / R), eq(B[2], 0)), 'purely toroidal field of strength B0 on the magnetic axis', 'post')
    out.append(('field on the magnetic axis', u_axis))
    out += wrappers(b)
    out += build(b)
    return out


def PIREF(ex, b):
    import math
    return Fraction(repr(math.pi))


def wrappers(b):
    out = []
    for nm in ('Eval', 'EvalDerivatives', 'EvalFlux', 'EvalFluxDerivatives'):
        for kind in ('ptr', 'vec'):
            def u(ex, nm=nm, kind=kind):
                c = [d for d in b.prog.find_fn('MagneticField2D::' + nm) if b.prog.body(d) and len(params(d)) == 1
                     and (b.prog.ty(params(d)[0]['type']).k == 'ptr') == (kind == 'ptr')]
                if len(c) != 1:
                    raise Unsupported('%s(%s): %d candidates' % (nm, kind, len(c)))
                seen = []
                target = fnN(b, nm)

                def spec(ex, f, this, args):
                    seen.append([ex.read(a) for a in args])
                    ex.S.ghost['called'] = tuple(seen[-1])
                    return RES[0]
                ex.contracts = {target['_m']: spec}
                o, g = mk(ex, 0, False)
                RES = [z3.Real('res') if nm == 'EvalFlux' else LV(ex.put(Cell(Fraction(0), REALT)))]
                if nm in ('Eval', 'EvalFluxDerivatives'):
                    RES[0] = Ptr(RES[0].rid, 0)
                if kind == 'ptr':
                    a = BaseArr(lambda k: None)
                    a = UninitArr().store(0, X).store(1, Y).store(2, ZZ)
                    arg = LV(ex.put(Cell(Ptr(ex.put(Arr(3, a, REALT)), 0), Ty('ptr', sub=REALT))))
                else:
                    arg = LV(ex.alloc_rec('Vector<3>', 'sym'))
                    for k, r in ex.node(arg.rid).f.items():
                        nd = ex.node(r)
                        if isinstance(nd, Arr):
                            ex.setnode(r, Arr(3, UninitArr().store(0, X).store(1, Y).store(2, ZZ), REALT))
                            ar = r
                    for k, r in ex.node(arg.rid).f.items():
                        nd = ex.node(r)
                        if isinstance(nd, Cell) and nd.ty.k == 'int':
                            ex.setnode(r, Cell(3, nd.ty))
                        if isinstance(nd, Cell) and nd.ty.k == 'ptr':
                            rr = ex.put(Arr(3, UninitArr().store(0, X).store(1, Y).store(2, ZZ), REALT), 'new[]')
                            ex.setnode(r, Cell(Ptr(rr, 0), nd.ty))
                S0 = ex.S.copy()
                k, v = run_fn(ex, c[0], o, [arg])
                got = ex.S.ghost.get('called')
                ex.oblige(got is not None, 'short-hand evaluates at the point given', 'post')
                ex.oblige(and_(eq(got[0], X), eq(got[1], Y), eq(got[2], ZZ)), 'short-hand evaluates at the point given', 'post')
                ex.oblige(eqval(ex, v, RES[0]), 'short-hand returns what the evaluation returns', 'post')
                frame(ex, S0, ex.S)
            out.append(('short-hand %s(%s)' % (nm, kind), u))
    return out


def strs(ex, n):
    return LV(ex.put(Lib('string', {'s': z3.String(n)})))


PT = Ty('ptr', sub=REALT)


def cell(ex, v, ty=REALT):
    return LV(ex.put(Cell(v, ty)))


def domspec(ex, this, Rm, zm, a):
    """contract of ConstructDomain, recorded"""
    ex.S.ghost['domain'] = (Rm, zm, a)


def build(b):
    out = []
    ENUM = Ty('int', 'int', bits=32, signed=False)
    V = {n: z3.Real('a_' + n) for n in ('B0', 'Rm', 'maxis_z', 'rminor', 'qa1', 'qa2')}

    def ctor(ex, np, sb, si, qt):
        f = [c for c in b.prog.find_fn(CLS + '::' + CLS) if b.prog.body(c) and len(params(c)) == np]
        if len(f) != 1:
            raise Unsupported('constructor')
        cd = [d for d in b.prog.find_fn(CLS + '::ConstructDomain') if b.prog.body(d)][0]

        def cdspec(ex, d, this, args):
            domspec(ex, this, *[ex.read(a) for a in args])
        ex.contracts = {cd['_m']: cdspec}
        args = [cell(ex, V[n]) for n in ('B0', 'Rm', 'maxis_z', 'rminor')] + [cell(ex, sb, ENUM), cell(ex, si, ENUM), cell(ex, qt, ENUM), cell(ex, V['qa1']), cell(ex, V['qa2'])]
        if np == 11:
            args += [strs(ex, 'nm'), strs(ex, 'ds')]
        o = LV(ex.alloc_rec(CLS, 'uninit'))
        run_fn(ex, f[0], o, args)
        return o

    def state(ex, o, sb, si, qt, label):
        """the object is what mk() assumes"""
        for n, v in (('B0', V['B0']), ('Rm', V['Rm']), ('maxis_z', V['maxis_z']), ('rminor', V['rminor']),
                     ('safety_factor_param1', V['qa1']), ('safety_factor_param2', V['qa2'])):
            ex.oblige(eq(ex.getf(o, n), v), '%s: %s' % (label, n), 'post')
        ex.oblige(eq(ex.getf(o, 'sigmaB'), ite(eq(sb, 0), Fraction(-1), Fraction(1))), label + ': sign of the toroidal field', 'post')
        ex.oblige(eq(ex.getf(o, 'sigmaI'), ite(eq(si, 0), Fraction(-1), Fraction(1))), label + ': sign of the current', 'post')
        ex.oblige(eq(ex.getf(o, 'safety_factor_type'), qt), label + ': type of safety factor', 'post')
        ma = ex.fld(o, 'magnetic_axis')
        ex.oblige(and_(eq(ex.read(LV(ma.rid, 0)), V['Rm']), eq(ex.read(LV(ma.rid, 1)), V['maxis_z'])), label + ': magnetic axis', 'post')
        J = ex.getf(o, 'jacobian')
        ps = [ex.read(LV(J.rid, add((J.off if J.off is not None else 0), i))) for i in range(3)]
        for i in range(3):
            nd = ex.node(ps[i].rid)
            ex.oblige(isinstance(nd, Arr), label + ': Jacobian rows', 'post')
            ex.oblige(and_(le(0, ps[i].off), le(add(ps[i].off, 3), nd.n)), label + ': Jacobian row holds 3 numbers', 'post')
            for j in range(i):
                if ps[i].rid == ps[j].rid:
                    ex.oblige(or_(le(add(ps[i].off, 3), ps[j].off), le(add(ps[j].off, 3), ps[i].off)), label + ': Jacobian rows do not overlap', 'post')
        d = ex.S.ghost.get('domain')
        ex.oblige(d is not None, label + ': domain set', 'post')
        ex.oblige(and_(eq(d[0], V['Rm']), eq(d[1], V['maxis_z']), eq(d[2], V['rminor'])), label + ': domain is the circle around the magnetic axis', 'post')

    def enums(ex):
        sb, si, qt = z3.Ints('e_sb e_si e_qt')
        ex.assume(z3.And(sb >= 0, sb <= 1, si >= 0, si <= 1, qt >= 0, qt <= 4))
        return sb, si, qt

    for np in (9, 11):
        def u(ex, np=np):
            e = enums(ex)
            o = ctor(ex, np, *e)
            state(ex, o, *e, label='constructor')
            if np == 11:
                ex.oblige(toz(ex.node(ex.fld(o, 'name').rid).p['s']) == z3.String('nm'), 'name', 'post')
                ex.oblige(toz(ex.node(ex.fld(o, 'description').rid).p['s']) == z3.String('ds'), 'description', 'post')
        out.append(('constructor with %d arguments' % np, u))

    def u_clone(ex):
        e = enums(ex)
        o = ctor(ex, 11, *e)
        ex.S.ghost.pop('domain')
        f = [c for c in b.prog.find_fn(CLS + '::Clone') if b.prog.body(c)]
        S0 = ex.S.copy()
        k, v = run_fn(ex, f[0], o, [])
        ex.oblige(k == 'ret' and v.rid is not None and v.rid not in S0.mem, 'clone is a new object', 'post')
        c = LV(v.rid)
        state(ex, c, *e, label='clone')
        for n in ('name', 'description'):
            ex.oblige(toz(ex.node(ex.fld(c, n).rid).p['s']) == toz(ex.node(ex.fld(o, n).rid).p['s']), 'clone: ' + n, 'post')
        ex.oblige(ex.getf(c, 'jacobian').rid != ex.getf(o, 'jacobian').rid, 'clone has its own Jacobian', 'post')
        frame(ex, S0, ex.S, label='clone leaves the original unchanged')
    out.append(('Clone', u_clone))

    def u_dom(ex):
        f = [c for c in b.prog.find_fn(CLS + '::ConstructDomain') if b.prog.body(c)]
        rec = {}
        for nm in ('SetDomain', 'SetSeparatrix'):
            t = [c for c in b.prog.find_fn('MagneticField2D::' + nm) if b.prog.body(c)][0]

            def sp(ex, d, this, args, nm=nm):
                ex.S.ghost[nm] = tuple(ex.read(a) for a in args)
            rec[t['_m']] = sp
        ex.contracts = rec
        o = LV(ex.alloc_rec(CLS, 'sym'))
        run_fn(ex, f[0], o, [cell(ex, V['Rm']), cell(ex, V['maxis_z']), cell(ex, V['rminor'])])
        for nm in ('SetDomain', 'SetSeparatrix'):
            a = ex.S.ghost.get(nm)
            ex.oblige(a is not None, nm + ' called', 'post')
            rp, zp, N = a
            ex.oblige(is_conc(N) and N >= 4 and eq(ex.node(rp.rid).n, N) is True and eq(ex.node(zp.rid).n, N) is True, nm + ': lengths', 'post')
            c, si = prove.FN('cos'), prove.FN('sin')
            for i in range(N - 1):
                th = toz(Fraction(2) * PIREF(ex, b) * Fraction(i, N - 1), True)
                r, z = ex.read(LV(rp.rid, i)), ex.read(LV(zp.rid, i))
                co, s_ = (Fraction(1), Fraction(0)) if i == 0 else (c(th), si(th))
                ex.oblige(and_(eq(r, add(V['Rm'], mul(V['rminor'], co))), eq(z, add(V['maxis_z'], mul(V['rminor'], s_)))), nm + ': points on the circle, equally spaced', 'post')
            ex.oblige(and_(eq(ex.read(LV(rp.rid, N - 1)), ex.read(LV(rp.rid, 0))), eq(ex.read(LV(zp.rid, N - 1)), ex.read(LV(zp.rid, 0)))), nm + ': last point closes the contour', 'post')
    out.append(('ConstructDomain', u_dom))

    def u_num(ex):
        f = [c for c in b.prog.find_fn(CLS + '::ToNumeric2D') if b.prog.body(c)]
        o, g = mk(ex, 0, False)
        ma = ex.fld(o, 'magnetic_axis')
        ex.setnode(ma.rid, Arr(2, UninitArr().store(0, g['Rm']).store(1, g['maxis_z']), REALT))
        nr, nz, nd = ex.fint('nr', 2, 60000), ex.fint('nz', 2, 60000), ex.fint('nd', 3, 100000)
        ex.assume(nr * nz <= 2 ** 32 - 1)
        for n in ('rdomain', 'zdomain'):
            r = ex.put(Arr(nd, ex.sym_arr(REALT, n), REALT), 'new[]')
            ex.setnode(ex.fld(o, n).rid, Cell(Ptr(r, 0), PT))
        ex.setnode(ex.fld(o, 'ndomain').rid, Cell(nd, UINT))
        EV = [z3.Function('B%d' % i, z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort()) for i in range(3)]
        PS = z3.Function('psi', z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())

        def evs(ex, d, this, args):
            p = [toz(ex.read(a), True) for a in args]
            r = ex.fld(this, 'retval').rid
            a = ex.node(r).a
            for i in range(3):
                a = a.store(i, EV[i](*p))
            ex.setnode(r, Arr(3, a, REALT))
            return Ptr(r, 0)

        def psi(ex, d, this, args):
            return PS(*[toz(ex.read(a), True) for a in args])
        NUM = 'MagneticFieldNumeric2D'

        def numctor(ex, d, this, args):
            ex.S.ghost['num'] = ([p.get('name') for p in params(d)], args)
        ex.contracts = {fnN(b, 'Eval')['_m']: evs, fnN(b, 'EvalFlux')['_m']: psi}
        for c in b.prog.classes[NUM]['ctors']:
            if len(params(c)) >= 12:
                ex.contracts[c['_m']] = numctor
        S0 = ex.S.copy()
        k, v = run_fn(ex, f[0], o, [cell(ex, nr, UINT), cell(ex, nz, UINT)])
        got = ex.S.ghost.get('num')
        ex.oblige(got is not None, 'a numeric field is constructed', 'post')
        a = [ex.read(x) if isinstance(ex.S.mem[x.rid], Cell) else x for x in got[1]]
        ex.oblige(and_(eqval(ex, a[0].rid, ex.fld(o, 'name').rid) if False else True), 'name', 'post')
        R, Z, n1, n2, Br, Bphi, Bz, Psi, ar, az, rs, zs, ns, rw, zw, nw = a[2:18]
        ex.oblige(and_(eq(n1, nr), eq(n2, nz), eq(nw, nd)), 'grid sizes', 'post')
        ex.oblige(and_(eq(ar, g['Rm']), eq(az, g['maxis_z'])), 'magnetic axis', 'post')
        i, j, k = ex.fint('i', 0), ex.fint('j', 0), ex.fint('k', 0)
        ex.assume(and_(lt(i, nr), lt(j, nz), lt(k, nd)))
        fr = lambda c, w, n, m: c - w + 2 * w * z3.ToReal(n) / (z3.ToReal(m) - 1)
        Ri, Zj = fr(g['Rm'], g['rminor'], i, nr), fr(g['maxis_z'], g['rminor'], j, nz)
        RI, ZJ = ex.read(LV(R.rid, i)), ex.read(LV(Z.rid, j))
        ex.oblige(eq(RI, Ri), 'radial grid', 'post')
        ex.oblige(eq(ZJ, Zj), 'vertical grid', 'post')
        ex.lemma(i + j * nr < nr * nz)
        ex.lemma(i + j * nr >= 0)
        for nm, arr, fn in (('Br', Br, EV[0]), ('Bphi', Bphi, EV[1]), ('Bz', Bz, EV[2]), ('Psi', Psi, PS)):
            v = loops.DECIDED(ex, ex.S.mem[arr.rid].a, i + j * nr)
            v = ex.chk_init(v)
            ex.oblige(eq(v, fn(toz(RI, True), z3.RealVal(0), toz(ZJ, True))), nm + ' on the grid is the analytical value', 'post')
        for nm, arr, src in (('rwall', rw, 'rdomain'), ('zwall', zw, 'zdomain')):
            s = ex.getf(o, src)
            ex.oblige(eq(ex.read(LV(arr.rid, k)), ex.read(LV(s.rid, k))), nm + ' is the domain', 'post')
        frame(ex, S0, ex.S, except_=(ex.fld(o, 'retval').rid,))
    # (loop nest with column-major writes: outside the loop rule; covered by the bounded driver)
    return out


ASSUME = ['differentiation rules for +,-,*,/,sqrt,exp,pow are trusted', 'B0, Rm, rminor > 0; point off the axes']

from frame import *
from P08 import cell, PT
import loops, prove, math
from stdlib import mkstr, sval

TITLE = 'Magnetic field files'
HARNESS = dict(src='P10.cpp', link='all')
CLS, LK = 'MagneticFieldNumeric2D', 'MagneticFieldLUKE'
IS, RS, SS = z3.IntSort(), z3.RealSort(), z3.StringSort()
NAME = z3.String('filename')
_F = {}


def VAL(s, i):
    """elements of the variables of the file, row by row"""
    if s not in _F:
        _F[s] = z3.Function('content_' + s, IS, RS)
    return _F[s](toz(i))


def TEXT(s):
    return z3.String('text_' + s)


def HAS(s):
    return z3.Bool('has_' + s)


def ROWS(s):
    return z3.Int('rows_' + s)


def COLS(s):
    return z3.Int('cols_' + s)


OPENS = z3.Bool('file_can_be_opened')
AXIS_INSIDE = z3.Bool('contour_crosses_the_height_of_the_axis')
SZ = Ty('int', 'unsigned long', bits=64, signed=False)
N1 = 2 ** 15


def load(b):
    b.load(['src/MagneticField/MagneticFieldNumeric2D.cpp', 'src/MagneticField/MagneticFieldLUKE.cpp', 'src/MagneticField/MagneticField2D.cpp', 'src/SFile/SFile.cpp'])


def fn(b, name, n=None, cls=CLS, pred=lambda d: True):
    c = [d for d in b.prog.find_fn(cls + '::' + name) if b.prog.body(d) and (n is None or len(params(d)) == n) and pred(d)]
    if len(c) != 1:
        raise Unsupported('%s::%s: %d candidates' % (cls, name, len(c)))
    return c[0]


def decl(b, name, n, pred=lambda d: True):
    c = [d for d in b.prog.find_fn('SFile::' + name) if len(params(d)) == n and pred(d)]
    if not c:
        raise Unsupported('SFile::%s' % name)
    return b.prog.definition(c[0])


def S(x):
    return x


def off(p):
    return 0 if p.off is None else p.off


def fieldlv(ex, o, name):
    return ex.fld(o, name)


class File:
    """contracts of the file interface (proved or assumed under P17, P18, P24) over a file with symbolic content"""

    def __init__(self, b, ex, mode=0, name=NAME):
        self.b, self.ex, self.mode, self.name = b, ex, mode, name
        self.know = {}          # variable -> 'none' | 'list' | 'matrix': decided outside, None: branch
        C = ex.contracts
        ex.S.ghost['file'] = ()
        self.dims = {}

        def create(ex, f, this, args):
            ex.oblige(toz(sval(ex, args[0])) == self.name, 'name of the file', 'post')
            ex.oblige(eq(ex.read(args[1]), self.mode), 'the file is opened for the purpose', 'post')
            if len(args) > 2:
                ex.S.ghost['ftype'] = ex.read(args[2])
            if not ex.branch(OPENS):
                raise CxxThrow('SFileException', None)
            self.log('open')
            return Ptr(ex.put(Rec('SFile', {}), 'new'))
        for d in self.b.prog.find_fn('SFile::Create'):
            C[self.b.prog.definition(d)['_m']] = create

        def close(ex, f, this, args):
            self.log('close')
        C[decl(b, 'Close', 0)['_m']] = close

    def log(self, *x):
        self.ex.S.ghost['file'] = self.ex.S.ghost['file'] + (x,)

    def reading(self, every=None):
        ex, b, C = self.ex, self.b, self.ex.contracts

        def nm(args):
            s = sval(ex, args[0])
            ex.oblige(isinstance(s, str), 'name of a variable', 'post')
            ex.oblige([x[0] for x in ex.S.ghost['file'] if x[0] in ('open', 'close')] == ['open'], 'variables are read while the file is open', 'safety')
            return s

        def there(s):
            if not ex.branch(HAS(S(s))):
                raise CxxThrow('SFileException', None)

        def string(ex, f, this, args):
            s = nm(args)
            there(s)
            return mkstr(ex, TEXT(S(s)))
        C[decl(b, 'GetString', 1)['_m']] = string

        def lst(ex, f, this, args):
            s = nm(args)
            there(s)
            if not ex.branch(z3.Or(ROWS(S(s)) == 1, COLS(S(s)) == 1)):
                raise CxxThrow('SFileException', None)
            n = lenof(s)
            p = ex.read(args[1])
            ex.write(LV(p.rid, off(p)), n)
            return Ptr(ex.put(Arr(n, BaseArr(lambda i: VAL(S(s), toz(i))), REALT), 'new[]'), 0)
        C[decl(b, 'GetList', 2)['_m']] = lst

        def mat(ex, f, this, args):
            s = nm(args)
            there(s)
            p = ex.read(args[1])
            m, n = self.dims.get(s, (ROWS(s), COLS(s)))
            ex.write(LV(p.rid, off(p)), m)
            ex.write(LV(p.rid, add(off(p), 1)), n)
            d = ex.put(Arr(m * n, BaseArr(lambda i: VAL(S(s), toz(i))), REALT), 'new[]')
            return Ptr(ex.put(Arr(m, BaseArr(lambda i: Ptr(d, toz(i) * n)), PT), 'new[]'), 0)
        C[decl(b, 'GetDoubles', 2)['_m']] = mat

        def scal(ex, f, this, args):
            s = nm(args)
            there(s)
            if not ex.branch(z3.And(ROWS(S(s)) == 1, COLS(S(s)) == 1)):
                raise CxxThrow('SFileException', None)
            return VAL(S(s), 0)
        C[decl(b, 'GetScalar', 1)['_m']] = scal
        for v in every or ALL:
            ex.assume(z3.And(ROWS(S(v)) >= 1, COLS(S(v)) >= 0, ROWS(S(v)) < N1, COLS(S(v)) < N1))
            ex.assume(z3.Implies(z3.Or(ROWS(v) == 1, COLS(v) == 1), lenof(v) == z3.If(ROWS(v) == 1, COLS(v), ROWS(v))))

    def closed(self):
        ex = self.ex
        ex.oblige([x[0] for x in ex.S.ghost['file'] if x[0] in ('open', 'close')] == ['open', 'close'], 'the file is closed', 'post')


ALL = ('name', 'desc', 'maxis', 'r', 'z', 'Br', 'Bphi', 'Bz', 'Psi', 'verBr', 'verBphi', 'verBz', 'wall', 'separatrix')


def has(ex, s, yes=True):
    ex.assume(HAS(S(s)) if yes else z3.Not(HAS(S(s))))


def islist(s, n=None):
    m, k = ROWS(S(s)), COLS(S(s))
    return z3.And(HAS(S(s)), z3.Or(m == 1, k == 1), *([] if n is None else [lenof(s) == n]))


def lenof(s):
    return z3.Int('length_' + s)


def domain(b, ex):
    def rec(which):
        def g(ex, f, this, args):
            ex.S.ghost[which] = tuple(ex.read(a) for a in args) + (this.rid,)
            if which == 'SetDomain' and not ex.branch(AXIS_INSIDE):
                raise CxxThrow('SOFTLibException', None)
        return g
    for w in ('SetDomain', 'SetSeparatrix'):
        ex.contracts[fn(b, w, 3, 'MagneticField2D')['_m']] = rec(w)


def units(b):
    U = []
    ld = fn(b, 'Load', 2)

    def grid(ex):
        nr, nz = lenof('r'), lenof('z')
        ex.assume(z3.And(islist('r', nr), islist('z', nz), nr >= 1, nz >= 1, nr < N1, nz < N1, nr * nz < 2 ** 30))
        return nr, nz

    def goodfield(ex, F, s, nr, nz, plain=True):
        has(ex, s)
        F.dims[s] = (nz, nr) if plain else (nr, nz)
        ex.assume(z3.And(ROWS(S(s)) == (nz if plain else nr), COLS(S(s)) == (nr if plain else nz)))

    def obj(ex, cls=CLS):
        return LV(ex.alloc_rec(cls, 'sym', name='B'))

    def contour(ex, s, kind):
        """kind: none, rows (2xN), cols (Nx2), bad"""
        if kind == 'none':
            has(ex, s, False)
            return
        has(ex, s)
        m, n = ROWS(S(s)), COLS(S(s))
        ex.assume({'rows': z3.And(m == 2, n >= 1), 'cols': z3.And(m != 2, n == 2), 'bad': z3.And(m != 2, n != 2)}[kind])

    def run(ex, fields=None, wall='rows', sep='none', psi='none', ver=(), vary=None):
        """load a file; fields: layout of each ('plain', 'transposed', 'bad'); returns what is needed for the postconditions"""
        F = File(b, ex)
        F.reading()
        domain(b, ex)
        nr, nz = grid(ex)
        for s in ('name', 'desc'):
            has(ex, s)
        ex.assume(islist('maxis', 2))
        lay = dict(Br='plain', Bphi='plain', Bz='plain')
        lay.update(fields or {})
        lay['Psi'] = psi
        bad = False
        for s, l in lay.items():
            if l == 'none':
                has(ex, s, False)
            elif l == 'bad':
                has(ex, s)
                m, n = ROWS(S(s)), COLS(S(s))
                ex.assume(z3.Not(z3.Or(z3.And(m == nz, n == nr), z3.And(m == nr, n == nz))))
                bad = True
            else:
                if l == 'transposed':
                    ex.assume(nr != nz)
                goodfield(ex, F, s, nr, nz, l == 'plain')
        contour(ex, 'wall', wall)
        contour(ex, 'separatrix', sep)
        for s in ('verBr', 'verBphi', 'verBz'):
            if s not in ver:
                has(ex, s, False)
        o = obj(ex)
        ft = ex.fint('ftype', 0, 2 ** 31)
        ARRN = ('R', 'Z', 'Br', 'Bphi', 'Bz', 'Psi', 'rsep', 'zsep', 'rwall', 'zwall')
        k, v = run_fn(ex, ld, o, [LV(mkstr(ex, NAME).rid), cell(ex, ft, Ty('int', 'int', bits=32, signed=True))])
        return F, o, nr, nz, lay, bad, k, v, ft

    def elem(ex, p, i, n, what):
        ok = isinstance(p, Ptr) and p.rid is not None
        ex.oblige(ok, what + ' exists', 'post')
        if not ok:
            raise PathEnd
        ex.oblige(eq(ex.node(p.rid).n, n), what + ' has the right size', 'post')
        return loops.DECIDED(ex, ex.node(p.rid).a, add(off(p), i))

    def post(ex, F, o, nr, nz, lay, wall, sep, ft):
        F.closed()
        ex.oblige(eq(ex.S.ghost.get('ftype'), ft), 'type of the file', 'post')
        for n, s in (('name', 'name'), ('description', 'desc')):
            ex.oblige(toz(sval(ex, ex.fld(o, n))) == TEXT(S(s)), n + ' of the field', 'post')
        ex.oblige(and_(eq(ex.getf(o, 'nr'), nr), eq(ex.getf(o, 'nz'), nz)), 'size of the grid', 'post')
        ma = ex.fld(o, 'magnetic_axis')
        for i in range(2):
            ex.oblige(eq(ex.read(ex.elem(ma.rid, i)), VAL(S('maxis'), i)), 'magnetic axis', 'post')
        i, j = ex.fint('i', 0), ex.fint('j', 0)
        ex.assume(z3.And(i < nr, j < nz, i + j * nr < nr * nz, j * nr >= 0, i * nz >= 0))
        ex.oblige(eq(elem(ex, ex.getf(o, 'R'), i, nr, 'radial grid'), VAL(S('r'), i)), 'radial grid', 'post')
        ex.oblige(eq(elem(ex, ex.getf(o, 'Z'), j, nz, 'vertical grid'), VAL(S('z'), j)), 'vertical grid', 'post')
        for s, l in lay.items():
            if l == 'none':
                p = ex.getf(o, s)
                ex.oblige(isinstance(p, Ptr) and p.rid is None, 'no flux if the file has none', 'post')
                continue
            want = VAL(S(s), j * nr + i) if l == 'plain' else VAL(S(s), i * nz + j)
            ex.oblige(eq(elem(ex, ex.getf(o, s), i + j * nr, nr * nz, s), want), s + ' is the field of the file at the grid point', 'post')
        ex.oblige(eq(toz(truth(ex.getf(o, 'hasFluxCoordinates'))), lay['Psi'] != 'none'), 'flux is available iff the file has it', 'post')
        sizes = {}
        for s, w, kd in (('wall', 'wall', wall), ('separatrix', 'sep', sep)):
            n = 0 if kd == 'none' else COLS(S(s)) if kd == 'rows' else ROWS(S(s))
            sizes[w] = n
            ex.oblige(eq(ex.getf(o, 'n' + w), n), 'number of points of the ' + s, 'post')
            if kd == 'none':
                ex.oblige(all(ex.getf(o, q + w).rid is None for q in 'rz'), 'no %s if the file has none' % s, 'post')
                continue
            q = ex.fint('q', 0)
            ex.assume(q < n)
            for c, g in enumerate('rz'):
                want = VAL(S(s), c * n + q) if kd == 'rows' else VAL(S(s), 2 * q + c)
                ex.oblige(eq(elem(ex, ex.getf(o, g + w), q, n, s), want), 'points of the ' + s, 'post')
        d = ex.S.ghost.get('SetDomain')
        w = 'wall' if wall != 'none' else 'sep'
        ex.oblige(d is not None and d[3] == o.rid and d[0].rid == ex.getf(o, 'r' + w).rid and d[1].rid == ex.getf(o, 'z' + w).rid and d[0].rid is not None, 'domain is the wall if there is one, else the separatrix', 'post')
        ex.oblige(eq(d[2], sizes[w]), 'domain has all points', 'post')
        d = ex.S.ghost.get('SetSeparatrix')
        ex.oblige(d is not None and d[3] == o.rid and d[0].rid == ex.getf(o, 'rsep').rid and d[1].rid == ex.getf(o, 'zsep').rid, 'separatrix is set', 'post')
        ex.oblige(eq(d[2], sizes['sep']), 'separatrix has all points', 'post')

    def u_load(ex, fields=None, wall='rows', sep='none', psi='none'):
        F, o, nr, nz, lay, bad, k, v, ft = run(ex, fields, wall, sep, psi)
        refuse = bad or 'bad' in (wall, sep) or (wall == 'none' and sep == 'none')
        if k == 'throw':
            ex.oblige(v in ('SFileException', 'SOFTLibException'), 'errors are reported by the exception of the library', 'post')
            ex.oblige(z3.Or(z3.Not(OPENS), z3.Not(AXIS_INSIDE)) if not refuse else True, 'fails only if the file cannot be read or its contour is not around the axis', 'post')
            return
        ex.oblige(not refuse, 'ill-formed files are refused', 'post')
        if refuse:
            return
        ex.oblige(OPENS, 'a file that cannot be opened is an error', 'post')
        post(ex, F, o, nr, nz, lay, wall, sep, ft)
    for w in ('none', 'rows', 'cols', 'bad'):
        for s in ('none', 'rows', 'cols', 'bad'):
            U.append(('load: wall %s, separatrix %s' % (w, s), lambda ex, w=w, s=s: u_load(ex, None, w, s)))
    for s in ('Br', 'Bphi', 'Bz'):
        for l in ('transposed', 'bad'):
            U.append(('load: %s %s' % (s, l), lambda ex, s=s, l=l: u_load(ex, {s: l})))
    for l in ('plain', 'transposed', 'bad'):
        U.append(('load: flux %s' % l, lambda ex, l=l: u_load(ex, None, psi=l)))

    def u_ver(ex, s):
        f = s[3:]
        F, o, nr, nz, lay, bad, k, v, ft = run(ex, ver=(s,))
        n = lenof(s)
        q = z3.Int('q!')
        valid = z3.Or(z3.Not(islist(s)), z3.And(n <= nr, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), VAL(S(s), q) == VAL(S(f), q)))))
        if k == 'throw':
            ex.oblige(v in ('SFileException', 'SOFTLibException'), 'errors are reported by the exception of the library', 'post')
            ex.oblige(z3.Or(z3.Not(OPENS), z3.Not(AXIS_INSIDE), z3.Not(valid)), 'a field is refused only if it differs from its verification vector', 'post')
            return
        ex.oblige(z3.Implies(islist(s), n <= nr), 'a verification vector that is too long is refused', 'post')
        i = ex.fint('i', 0)
        ex.assume(z3.And(islist(s), i < n))
        ex.oblige(VAL(S(s), i) == VAL(S(f), i), 'a field that differs from its verification vector is refused', 'post')
    for s in ('verBr', 'verBphi', 'verBz'):
        U.append(('load: verification vector ' + s, lambda ex, s=s: u_ver(ex, s)))

    def u_missing(ex, s):
        F = File(b, ex)
        F.reading()
        domain(b, ex)
        nr, nz = lenof('r'), lenof('z')
        ex.assume(OPENS)
        for q in ALL[:8]:
            if q == s:
                ok = z3.Not(HAS(S(q))) if q in ('name', 'desc', 'Br', 'Bphi', 'Bz') else z3.Not(islist(q, 2) if q == 'maxis' else islist(q))
                ex.assume(ok)
            elif q in ('r', 'z'):
                ex.assume(islist(q, nr if q == 'r' else nz))
            elif q == 'maxis':
                ex.assume(islist(q, 2))
            else:
                has(ex, q)
                if q[0] == 'B' and s not in ('r', 'z'):
                    ex.assume(z3.And(ROWS(S(q)) == nz, COLS(S(q)) == nr))
        o = obj(ex)
        k, v = run_fn(ex, ld, o, [LV(mkstr(ex, NAME).rid), cell(ex, ex.fint('ftype', 0, 2 ** 31), Ty('int', 'int', bits=32, signed=True))])
        ex.oblige(k == 'throw', 'a file without %s is refused' % s, 'post')
        ex.oblige(v in ('SFileException', 'SOFTLibException'), 'errors are reported by the exception of the library', 'post')
    for s in ALL[:8]:
        U.append(('load: no valid ' + s, lambda ex, s=s: u_missing(ex, s)))

    # ---- saving
    WA = lambda d: 'double' in d['type']['qualType']

    def u_save(ex, sep, wall, psi):
        F = File(b, ex, mode=None)
        o = obj(ex)
        nr, nz = ex.fint('nr', 1, N1), ex.fint('nz', 1, N1)
        ns, nw = (ex.fint('ns', 1, N1) if sep else 0), (ex.fint('nw', 1, N1) if wall else 0)
        ex.assume(nr * nz < 2 ** 30)
        arr = {}

        def setf(n, v):
            f = ex.fld(o, n)
            ex.setnode(f.rid, Cell(v, ex.node(f.rid).ty))
        for n, ln, on in (('R', nr, 1), ('Z', nz, 1), ('Br', nr * nz, 1), ('Bphi', nr * nz, 1), ('Bz', nr * nz, 1), ('Psi', nr * nz, psi), ('rsep', ns, sep), ('zsep', ns, sep), ('rwall', nw, wall), ('zwall', nw, wall)):
            arr[n] = Ptr(ex.put(Arr(ln, ex.sym_arr(REALT, n), REALT), 'new[]'), 0) if on else NULL
            setf(n, arr[n])
        for n, v in (('nr', nr), ('nz', nz), ('nsep', ns), ('nwall', nw), ('hasFluxCoordinates', psi)):
            setf(n, v)
        F.mode = mode_write
        C = ex.contracts
        ma = ex.fld(o, 'magnetic_axis')
        axis = [ex.read(ex.elem(ma.rid, i)) for i in range(2)]
        txt = {'name': toz(sval(ex, ex.fld(o, 'name'))), 'desc': toz(sval(ex, ex.fld(o, 'description')))}
        S0 = ex.S.copy()

        def nm(args):
            s = sval(ex, args[0])
            ex.oblige([x[0] for x in ex.S.ghost['file'] if x[0] in ('open', 'close')] == ['open'], 'variables are written while the file is open', 'safety')
            F.log('w', s)
            return s

        def isarr(p, q, what):
            ex.oblige(isinstance(p, Ptr) and p.rid == q.rid, what, 'post')
            ex.oblige(eq(off(p), 0), what, 'post')

        def multi(ex, f, this, args):
            s = nm(args)
            d = ex.read(args[3])
            ex.oblige(s in ('Br', 'Bphi', 'Bz', 'Psi'), 'known variable', 'post')
            if s not in ('Br', 'Bphi', 'Bz', 'Psi'):
                raise PathEnd
            ex.oblige(and_(eq(ex.read(args[2]), 2), eq(ex.read(LV(d.rid, off(d))), nz), eq(ex.read(LV(d.rid, add(off(d), 1))), nr)), 'size of the field', 'post')
            isarr(ex.read(args[1]), arr[s], 'values of the field')
        C[decl(b, 'WriteMultiArray', 4)['_m']] = multi

        def string(ex, f, this, args):
            s = nm(args)
            ex.oblige(s in txt, 'known variable', 'post')
            ex.oblige(toz(sval(ex, args[1])) == txt.get(s, z3.StringVal('')), 'text of ' + s, 'post')
        C[decl(b, 'WriteString', 2)['_m']] = string

        def lst(ex, f, this, args):
            s = nm(args)
            p, n = ex.read(args[1]), ex.read(args[2])
            if s == 'maxis':
                ex.oblige(eq(n, 2), 'two coordinates', 'post')
                for i in range(2):
                    ex.oblige(eq(ex.read(ex.elem(p.rid, add(off(p), i)) if not isinstance(ex.node(p.rid), Arr) else LV(p.rid, add(off(p), i))), axis[i]), 'magnetic axis', 'post')
                return
            want = {'r': ('R', nr), 'z': ('Z', nz), 'verBr': ('Br', nr), 'verBphi': ('Bphi', nr), 'verBz': ('Bz', nr)}.get(s)
            ex.oblige(want is not None, 'known variable', 'post')
            if want is None:
                raise PathEnd
            isarr(p, arr[want[0]], 'values of ' + s)
            ex.oblige(eq(n, want[1]), 'length of ' + s, 'post')
        C[decl(b, 'WriteList', 3, WA)['_m']] = lst

        def mat(ex, f, this, args):
            s = nm(args)
            w = {'separatrix': 'sep', 'wall': 'wall'}.get(s)
            ex.oblige(w is not None, 'known variable', 'post')
            if w is None:
                raise PathEnd
            n = ns if w == 'sep' else nw
            ex.oblige(and_(eq(ex.read(args[2]), 2), eq(ex.read(args[3]), n)), 'size of the ' + s, 'post')
            p = ex.read(args[1])
            q = ex.fint('q', 0)
            sv = ex.S.copy()
            ex.assume(lt(q, n))
            for c, g in enumerate('rz'):
                row = ex.read(LV(p.rid, add(off(p), c)))
                ex.oblige(eq(ex.read(LV(row.rid, add(off(row), q))), ex.read(LV(arr[g + w].rid, q))), 'points of the ' + s, 'post')
            ex.S = sv
        C[decl(b, 'WriteArray', 4, WA)['_m']] = mat
        ft = ex.fint('ftype', 0, 2 ** 31)
        k, v = run_fn(ex, fn(b, 'Save', 2), o, [LV(mkstr(ex, NAME).rid), cell(ex, ft, Ty('int', 'int', bits=32, signed=True))])
        if k == 'throw':
            ex.oblige(v == 'SFileException', 'errors are reported by the exception of the library', 'post')
            ex.oblige(z3.Not(OPENS), 'fails only if the file cannot be created', 'post')
            return
        F.closed()
        ex.oblige(eq(ex.S.ghost.get('ftype'), ft), 'type of the file', 'post')
        want = sorted(['name', 'desc', 'maxis', 'r', 'z', 'Br', 'Bphi', 'Bz', 'verBr', 'verBphi', 'verBz'] + (['Psi'] if psi else []) + (['separatrix'] if sep else []) + (['wall'] if wall else []))
        ex.oblige(sorted(x[1] for x in ex.S.ghost['file'] if x[0] == 'w') == want, 'every variable is written once', 'post')
        frame(ex, S0, ex.S)
    mode_write = 2
    for sep in (0, 1):
        for wall in (0, 1):
            for psi in (0, 1):
                if sep or wall:
                    U.append(('save (separatrix %d, wall %d, flux %d)' % (sep, wall, psi), lambda ex, a=bool(sep), c=bool(wall), d=bool(psi): u_save(ex, a, c, d)))
    # ---- fields of LUKE
    E = 'equil/'
    LALL = tuple(E + x for x in ('id', 'Rp', 'Zp', 'eqdsk/x', 'eqdsk/y', 'eqdsk/xypsin', 'eqdsk/psia', 'psi_apRp', 'theta', 'ptBx', 'ptBy', 'ptBPHI', 'ptx', 'pty'))
    X, Y, PN, PA, PSI, TH = (E + x for x in ('eqdsk/x', 'eqdsk/y', 'eqdsk/xypsin', 'eqdsk/psia', 'psi_apRp', 'theta'))

    def BIL(s, x, y):
        """bilinear interpolation of the variable s of the file, given at |psi/psi_a| and theta"""
        return z3.Function('bilinear_' + s, RS, RS, RS)(toz(x, True), toz(y, True))

    def gsl(ex):
        """assumed contracts of the interpolation routines of GSL"""
        C = ex.contracts
        ex.S.ghost['gsl'] = ()
        npsi, nth = lenof(PSI), lenof(TH)

        def push(*x):
            ex.S.ghost['gsl'] = ex.S.ghost['gsl'] + (x,)

        def acc(ex, f, this, args):
            r = ex.put(Cell(ex.fint('acc'), UINT))
            push('acc', r)
            return Ptr(r, 0)

        def alloc(ex, f, this, args):
            t = ex.read(args[0]) if isinstance(args[0], LV) else args[0]
            bl = ex.read(ex.lib.global_var(ex, 'gsl_interp2d_bilinear'))
            ex.oblige(isinstance(t, Ptr) and t.rid == bl.rid, 'interpolation is bilinear', 'post')
            r = ex.put(Cell(ex.fint('itp'), UINT))
            push('itp', r, ex.read(args[1]), ex.read(args[2]))
            return Ptr(r, 0)

        def grids(a):
            q = ex.fint('q', 0)
            sv = ex.S.copy()
            for p, n, want in ((a[0], npsi, lambda q: absz(VAL(PSI, q) / VAL(PSI, npsi - 1))), (a[1], nth, lambda q: VAL(TH, q))):
                ex.S = sv.copy()
                ok = isinstance(p, Ptr) and p.rid is not None
                ex.oblige(ok, 'grid of the interpolation exists', 'safety')
                if not ok:
                    raise PathEnd
                ex.oblige(le(add(off(p), n), ex.node(p.rid).n), 'grid of the interpolation is complete', 'safety')
                ex.assume(lt(q, n))
                ex.oblige(eq(loops.DECIDED(ex, ex.node(p.rid).a, add(off(p), q)), want(q)), 'grid of the interpolation: normalised flux and angle', 'post')
            ex.S = sv

        def init(ex, f, this, args):
            a = [ex.read(x) for x in args]
            h = [t for t in ex.S.ghost['gsl'] if t[0] == 'itp' and t[1] == a[0].rid]
            ex.oblige(len(h) == 1, 'interpolation allocated before it is initialised', 'safety')
            ex.oblige(and_(eq(h[0][2], a[4]), eq(h[0][3], a[5])), 'interpolation initialised with the size it was allocated for', 'safety')
            ex.oblige(and_(eq(a[4], npsi), eq(a[5], nth)), 'size of the interpolation', 'post')
            grids(a[1:3])
            push('init', a[0].rid)
            return 0

        def ev(ex, f, this, args):
            a = [ex.read(x) if isinstance(x, LV) else x for x in args]
            gh = ex.S.ghost['gsl']
            ex.oblige(('init', a[0].rid) in gh, 'interpolation initialised before it is used', 'safety')
            ex.oblige(all(('acc', x.rid) in gh for x in a[6:8]) and a[6].rid != a[7].rid, 'each coordinate has a search accelerator of its own', 'safety')
            ex.oblige(not any(('free', x.rid) in gh for x in (a[0], a[6], a[7])), 'interpolation used after it is released', 'safety')
            grids(a[1:3])
            s = ex.S.ghost['of'].get(a[3].rid)
            ex.oblige(s is not None, 'interpolated data come from the file', 'post')
            if s is None:
                raise PathEnd
            ex.oblige(eq(off(a[3]), 0), 'all data are interpolated', 'post')
            return BIL(s, a[4], a[5])

        def free(ex, f, this, args):
            r = ex.read(args[0]).rid if isinstance(args[0], LV) else args[0].rid
            ex.oblige(('free', r) not in ex.S.ghost['gsl'], 'released once', 'safety')
            push('free', r)
        C.update({'gsl_interp_accel_alloc': acc, 'gsl_interp2d_alloc': alloc, 'gsl_interp2d_init': init, 'gsl_interp2d_eval_extrap': ev, 'gsl_interp2d_free': free, 'gsl_interp_accel_free': free})

    def absz(x):
        return z3.If(x >= 0, x, -x)
    LOAD4 = lambda: fn(b, 'Load', 4, LK)
    WNAME = z3.String('wallname')

    def u_luke(ex, bad=None):
        F = File(b, ex)
        F.reading(LALL)
        nx, ny, npsi, nth = lenof(X), lenof(Y), lenof(PSI), lenof(TH)
        ex.S.ghost['of'] = {}
        for s, m, n in ((PN, ny, nx),) + tuple((E + x, nth, npsi) for x in ('ptBx', 'ptBy', 'ptBPHI', 'ptx', 'pty')):
            if bad == s:
                ex.assume(z3.Or(z3.Not(HAS(s)), ROWS(s) != m, COLS(s) != n))
                continue
            has(ex, s)
            F.dims[s] = (m, n)
            ex.assume(z3.And(ROWS(s) == m, COLS(s) == n))
        for s, n in ((X, nx), (Y, ny), (PSI, npsi), (TH, nth)):
            ex.assume(z3.And(islist(s, n), n >= 2, n < N1) if bad != s else z3.Not(islist(s)))
        for s in (E + 'Rp', E + 'Zp', PA):
            ok = z3.And(HAS(s), ROWS(s) == 1, COLS(s) == 1)
            ex.assume(ok if bad != s else z3.Not(ok))
        ex.assume(HAS(E + 'id') if bad != E + 'id' else z3.Not(HAS(E + 'id')))
        ex.assume(z3.And(nx * ny < 2 ** 30, npsi * nth < 2 ** 30, nx >= 2, ny >= 2, npsi >= 2, nth >= 2, VAL(PSI, npsi - 1) != 0))
        old = F.ex.contracts[decl(b, 'GetDoubles', 2)['_m']]

        def mat(ex, f, this, args):
            s = sval(ex, args[0])
            p = old(ex, f, this, args)
            row = loops.DECIDED(ex, ex.node(p.rid).a, 0)
            ex.S.ghost['of'] = dict(ex.S.ghost['of'], **{}) | {row.rid: s}
            return p
        ex.contracts[decl(b, 'GetDoubles', 2)['_m']] = mat
        gsl(ex)

        def wall(ex, f, this, args):
            ex.S.ghost['wall'] = (sval(ex, args[0]), ex.read(args[1]), this.rid)
        ex.contracts[fn(b, 'LoadWall', 2, LK)['_m']] = wall
        o = obj(ex, LK)
        ft, wt = ex.fint('ftype', 0, 2 ** 31), ex.fint('wtype', 0, 2 ** 31)
        IT = Ty('int', 'int', bits=32, signed=True)
        k, v = run_fn(ex, LOAD4(), o, [LV(mkstr(ex, NAME).rid), cell(ex, ft, IT), LV(mkstr(ex, WNAME).rid), cell(ex, wt, IT)])
        if k == 'throw':
            ex.oblige(v in ('SFileException', 'SOFTLibException'), 'errors are reported by the exception of the library', 'post')
            ex.oblige(z3.Not(OPENS) if bad is None else True, 'fails only if the file cannot be read', 'post')
            return
        ex.oblige(bad is None, 'ill-formed files are refused', 'post')
        if bad is not None:
            return
        ex.oblige(OPENS, 'a file that cannot be opened is an error', 'post')
        F.closed()
        ex.oblige(eq(ex.S.ghost.get('ftype'), ft), 'type of the file', 'post')
        for n in ('name', 'description'):
            ex.oblige(toz(sval(ex, ex.fld(o, n))) == TEXT(E + 'id'), n + ' of the field', 'post')
        ex.oblige(and_(eq(ex.getf(o, 'nr'), nx), eq(ex.getf(o, 'nz'), ny)), 'size of the grid', 'post')
        ax = [VAL(E + 'Rp', 0), VAL(E + 'Zp', 0)]
        ma = ex.fld(o, 'magnetic_axis')
        for i in range(2):
            ex.oblige(eq(ex.read(ex.elem(ma.rid, i)), ax[i]), 'magnetic axis', 'post')
        i, j = ex.fint('i', 0), ex.fint('j', 0)
        ex.assume(z3.And(i < nx, j < ny, i + j * nx < nx * ny, j * nx >= 0))
        ex.oblige(eq(elem(ex, ex.getf(o, 'R'), i, nx, 'radial grid'), VAL(X, i) + ax[0]), 'radial grid: relative to the axis in the file', 'post')
        ex.oblige(eq(elem(ex, ex.getf(o, 'Z'), j, ny, 'vertical grid'), VAL(Y, j) + ax[1]), 'vertical grid: relative to the axis in the file', 'post')
        ps = VAL(PN, j * nx + i)
        ex.oblige(eq(elem(ex, ex.getf(o, 'Psi'), i + j * nx, nx * ny, 'Psi'), ps * VAL(PA, 0)), 'flux', 'post')
        a = FN('atan2', 2)(VAL(Y, j), VAL(X, i))
        th = z3.If(a < 0, a + 2 * z3.RealVal(Fraction(repr(math.pi))), a)
        for n, s in (('Br', 'ptBx'), ('Bz', 'ptBy'), ('Bphi', 'ptBPHI')):
            ex.oblige(eq(elem(ex, ex.getf(o, n), i + j * nx, nx * ny, n), BIL(E + s, absz(ps), th)), n + ': field of the file at the flux and angle of the grid point', 'post')
        ex.oblige(truth(ex.getf(o, 'hasFluxCoordinates')), 'flux is available', 'post')
        ex.oblige(eq(ex.getf(o, 'nsep'), nth), 'number of points of the separatrix', 'post')
        q = ex.fint('q', 0)
        ex.assume(z3.And(q < nth, q * npsi + npsi - 1 < npsi * nth, q * npsi >= 0))
        for c, (n, s) in enumerate((('rsep', 'ptx'), ('zsep', 'pty'))):
            ex.oblige(eq(elem(ex, ex.getf(o, n), q, nth, n), VAL(E + s, q * npsi + npsi - 1) + ax[c]), 'separatrix is the outermost flux surface', 'post')
        w = ex.S.ghost.get('wall')
        ex.oblige(w is not None and w[2] == o.rid, 'wall is loaded', 'post')
        ex.oblige(and_(toz(w[0]) == WNAME, eq(w[1], wt)), 'wall is read from the file given', 'post')
    U.append(('LUKE: load', u_luke))
    for s in LALL:
        U.append(('LUKE: no valid ' + s, lambda ex, s=s: u_luke(ex, s)))

    def u_lwall(ex, kind):
        F = File(b, ex, name=WNAME)
        F.reading(('wall',))
        domain(b, ex)
        if kind == 'nofile':
            ex.assume(WNAME == z3.StringVal(''))
        else:
            ex.assume(WNAME != z3.StringVal(''))
            contour(ex, 'wall', kind)
        o = obj(ex, LK)
        ns = ex.fint('ns', 0, N1)
        for n, v in (('nsep', ns), ('rsep', Ptr(ex.put(Arr(ns, ex.sym_arr(REALT, 'rsep'), REALT), 'new[]'), 0)), ('zsep', Ptr(ex.put(Arr(ns, ex.sym_arr(REALT, 'zsep'), REALT), 'new[]'), 0))):
            f = ex.fld(o, n)
            ex.setnode(f.rid, Cell(v, ex.node(f.rid).ty))
        ft = ex.fint('ftype', 0, 2 ** 31)
        k, v = run_fn(ex, fn(b, 'LoadWall', 2, LK), o, [LV(mkstr(ex, WNAME).rid), cell(ex, ft, Ty('int', 'int', bits=32, signed=True))])
        refuse = kind in ('none', 'bad')
        if k == 'throw':
            ex.oblige(v in ('SFileException', 'SOFTLibException'), 'errors are reported by the exception of the library', 'post')
            ex.oblige(z3.Or(kind != 'nofile', z3.Not(AXIS_INSIDE)), 'no wall is not an error', 'post')
            ex.oblige(z3.Or(z3.Not(OPENS), z3.Not(AXIS_INSIDE)) if not refuse else True, 'fails only if the file cannot be read or its contour is not around the axis', 'post')
            return
        ex.oblige(not refuse, 'ill-formed walls are refused', 'post')
        if refuse:
            return
        n = 0 if kind == 'nofile' else COLS('wall') if kind == 'rows' else ROWS('wall')
        ex.oblige(eq(ex.getf(o, 'nwall'), n), 'number of points of the wall', 'post')
        if kind != 'nofile':
            ex.oblige(OPENS, 'a file that cannot be opened is an error', 'post')
            F.closed()
            ex.oblige(eq(ex.S.ghost.get('ftype'), ft), 'type of the file', 'post')
            q = ex.fint('q', 0)
            ex.assume(q < n)
            for c, g in enumerate('rz'):
                want = VAL('wall', c * n + q) if kind == 'rows' else VAL('wall', 2 * q + c)
                ex.oblige(eq(elem(ex, ex.getf(o, g + 'wall'), q, n, 'wall'), want), 'points of the wall', 'post')
        else:
            ex.oblige(all(ex.getf(o, g + 'wall').rid is None for g in 'rz'), 'no wall if no file is given', 'post')
            ex.oblige(ex.S.ghost['file'] == (), 'no file is opened if none is given', 'post')
        d = ex.S.ghost.get('SetDomain')
        w = 'sep' if kind == 'nofile' else 'wall'
        ex.oblige(d is not None and d[3] == o.rid and d[0].rid == ex.getf(o, 'r' + w).rid and d[1].rid == ex.getf(o, 'z' + w).rid and d[0].rid is not None, 'domain is the wall if there is one, else the separatrix', 'post')
        ex.oblige(eq(d[2], ns if w == 'sep' else n), 'domain has all points', 'post')
        d = ex.S.ghost.get('SetSeparatrix')
        ex.oblige(d is not None and d[3] == o.rid and d[0].rid == ex.getf(o, 'rsep').rid and d[1].rid == ex.getf(o, 'zsep').rid, 'separatrix is set', 'post')
        ex.oblige(eq(d[2], ns), 'separatrix has all points', 'post')
    for kd in ('nofile', 'none', 'rows', 'cols', 'bad'):
        U.append(('LUKE: wall %s' % kd, lambda ex, kd=kd: u_lwall(ex, kd)))
    return U


ASSUME = ['double arithmetic treated as real arithmetic', 'the readers and writers of files satisfy their contracts (P17, P18, P24)']

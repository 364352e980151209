import re
from frame import *
from P08 import cell, PT
from P14 import truth_is
import loops, prove, hdf5 as h5
from stdlib import mkstr, sval

TITLE = 'HDF5 and MAT files'
HARNESS = dict(src='P18.cpp', link='all')
HF, MF = 'SFile_HDF5', 'SFile_MAT'
IS, RS, SS = z3.IntSort(), z3.RealSort(), z3.StringSort()
NAME, DSET, ATT, TXT = z3.Strings('name dataset attribute text')
SZ = Ty('int', 'unsigned long long', bits=64, signed=False)
TYPES = {'double': ('', 1, 'GetDoubles', 'GetDoubles1D', 'double'), 'int': ('Int32', 2, 'GetInt32_2D', 'GetInt32_1D', 'int32'), 'long': ('Int64', 3, 'GetInt64_2D', 'GetInt64_1D', 'int64'),
         'unsigned int': ('UInt32', 4, 'GetUInt32_2D', 'GetUInt32_1D', 'uint32'), 'unsigned long': ('UInt64', 5, 'GetUInt64_2D', 'GetUInt64_1D', 'uint64')}


def load(b):
    b.load(['src/SFile/SFile_HDF5.cpp', 'src/SFile/SFile_MAT.HDF5.cpp'])


def fn(b, name, n=None, cls=HF):
    c = [d for d in b.prog.find_fn(cls + '::' + name) if b.prog.body(d) and (n is None or len(params(d)) == n)]
    if len(c) != 1:
        raise Unsupported('%s::%s: %d candidates' % (cls, name, len(c)))
    return c[0]


def field(ex, o, name):
    f = ex.node(o.rid).f
    c = [r for k, r in f.items() if k.split('.')[-1] == name]
    if len(c) != 1:
        raise Unsupported('member ' + name)
    return LV(c[0])


def units(b):
    U = []

    def obj(ex, cls=HF):
        o = LV(ex.alloc_rec(cls, 'sym', name='file'))
        f = ex.put(Lib('h5file', {'name': z3.String('filename'), 'mode': 0, 'open': True}), 'new')
        ex.write(field(ex, o, 'file'), Ptr(f))
        return o

    def strv(ex, s):
        return LV(mkstr(ex, s).rid)

    def lenptr(ex, n):
        return cell(ex, Ptr(ex.put(Arr(n, UninitArr(), SZ)), 0))

    nd, d0, d1 = h5.NDIMS(NAME), h5.DIM(NAME, 0), h5.DIM(NAME, 1)
    MAXR = 2 ** 31

    # ---- reading
    for t, (sfx, code, g2, g1, mc) in TYPES.items():
        def u_2d(ex, code=code, g2=g2):
            o = obj(ex)
            dm = lenptr(ex, 2)
            k, v = run_fn(ex, fn(b, g2, 2), o, [strv(ex, NAME), dm])
            ok = z3.And(h5.HAS(NAME), nd <= 2)
            if k == 'throw':
                ex.oblige(v == 'SFileException', 'errors are reported by the exception of the library', 'post')
                ex.oblige(z3.Not(ok), 'matrices, vectors and single numbers are returned', 'post')
                return
            ex.oblige(ok, 'missing variables and such with more than two dimensions are refused', 'post')
            d = ex.read(dm)
            R, C = z3.If(nd == 2, d0, 1), z3.If(nd == 2, d1, z3.If(nd == 1, d0, 1))
            r, c = ex.read(LV(d.rid, 0)), ex.read(LV(d.rid, 1))
            ex.oblige(and_(eq(r, R), eq(c, C)), 'dimensions', 'post')
            i, j = ex.fint('i', 0), ex.fint('j', 0)
            ex.assume(z3.And(i < toz(r), j < toz(c)))
            ex.assume(z3.And(i * toz(c) + j < toz(r) * toz(c), i * toz(c) >= 0))
            row = ex.read(LV(v.rid, add(v.off, i)))
            ex.oblige(eq(ex.read(LV(row.rid, add(row.off, j))), h5.val(code, NAME, i * toz(c) + j)), 'elements in their place', 'post')
            ex.oblige(eq(row.off, i * toz(c)), 'rows are contiguous', 'post')
            ex.oblige(all(q not in ex.S.freed and ex.S.alloc[q] == 'new[]' for q in (v.rid, row.rid)), 'the array belongs to the caller', 'post')
        U.append(('reading a matrix: ' + t, u_2d))

        def u_1d(ex, code=code, g1=g1):
            o = obj(ex)
            dm = lenptr(ex, 1)
            k, v = run_fn(ex, fn(b, g1, 2), o, [strv(ex, NAME), dm])
            ok = z3.And(h5.HAS(NAME), nd <= 2)
            if k == 'throw':
                ex.oblige(v == 'SFileException', 'errors are reported by the exception of the library', 'post')
                ex.oblige(z3.Not(ok), 'matrices, vectors and single numbers are returned', 'post')
                return
            ex.oblige(ok, 'missing variables and such with more than two dimensions are refused', 'post')
            n = ex.read(LV(ex.read(dm).rid, 0))
            ex.oblige(eq(n, h5.PROD(NAME, nd)), 'number of elements', 'post')
            i = ex.fint('i', 0)
            ex.assume(i < toz(n))
            ex.oblige(eq(ex.read(LV(v.rid, add(v.off, i))), h5.val(code, NAME, i)), 'elements in their order', 'post')
            ex.oblige(v.off == 0 and v.rid not in ex.S.freed and ex.S.alloc[v.rid] == 'new[]', 'the list belongs to the caller', 'post')
        U.append(('reading a list: ' + t, u_1d))

    def u_null(ex, g):
        o = obj(ex)
        k, v = run_fn(ex, fn(b, g, 2), o, [strv(ex, NAME), cell(ex, NULL)])
        ex.oblige(k == 'throw' and v == 'SFileException', 'reading without room for the dimensions is refused', 'post')
    U.append(('no room for dimensions: matrix', lambda ex: u_null(ex, 'GetDoubles')))
    U.append(('no room for dimensions: list', lambda ex: u_null(ex, 'GetDoubles1D')))

    def u_has(ex):
        o = obj(ex)
        k, v = run_fn(ex, fn(b, 'HasVariable', 1), o, [strv(ex, NAME)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        truth_is(ex, v, h5.HAS(NAME), 'exactly the variables in the file exist')
    U.append(('existence', u_has))

    def u_type(ex):
        o = obj(ex)
        hint = ex.fint('hint', 0, 6)
        k, v = run_fn(ex, fn(b, 'GetDataType', 2), o, [strv(ex, NAME), cell(ex, hint)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        T = h5.TYPE(NAME)
        w = z3.IntVal(0)
        for c, e in ((1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (7, 6)):
            w = z3.If(T == c, e, w)
        ex.oblige(eq(v, z3.If(h5.HAS(NAME), w, 0)), 'type of the variable, whatever is hoped for', 'post')
    U.append(('type of a variable', u_type))

    def u_string(ex):
        o = obj(ex)
        k, v = run_fn(ex, fn(b, 'GetString', 1), o, [strv(ex, NAME)])
        if k == 'throw':
            ex.oblige(v == 'SFileException', 'errors are reported by the exception of the library', 'post')
            ex.oblige(z3.Not(h5.HAS(NAME)), 'strings are returned', 'post')
            return
        ex.oblige(h5.HAS(NAME), 'missing strings are refused', 'post')
        ex.oblige(toz(sval(ex, v)) == h5.TEXT(NAME), 'the text stored', 'post')
    U.append(('reading a string', u_string))

    def u_att(ex, what):
        o = obj(ex)
        f = h5.ATYPE(DSET, ATT)
        ex.assume(f == (1 if what == 'Scalar' else 6))
        k, v = run_fn(ex, fn(b, 'GetAttribute' + what, 2), o, [strv(ex, DSET), strv(ex, ATT)])
        ok = z3.And(h5.HAS(DSET), h5.HASATT(DSET, ATT))
        if k == 'throw':
            ex.oblige(v == 'SFileException', 'errors are reported by the exception of the library', 'post')
            ex.oblige(z3.Not(ok), 'attributes are returned', 'post')
            return
        ex.oblige(ok, 'missing attributes are refused', 'post')
        if what == 'Scalar':
            ex.oblige(eq(v, h5.AREAL(DSET, ATT)), 'the number stored', 'post')
        else:
            ex.oblige(toz(sval(ex, v)) == h5.ATEXT(DSET, ATT), 'the text stored', 'post')
    U.append(('reading a scalar attribute', lambda ex: u_att(ex, 'Scalar')))
    U.append(('reading a string attribute', lambda ex: u_att(ex, 'String')))

    def u_multi(ex):
        o = obj(ex)
        room = ex.fint('room', 0, 100)
        dm = cell(ex, Ptr(ex.put(Arr(room, UninitArr(), SZ)), 0))
        nds = cell(ex, UNINIT, SZ)
        q = z3.Int('q!')
        ex.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nd), z3.And(h5.PROD(NAME, q + 1) == h5.PROD(NAME, q) * h5.DIM(NAME, q), h5.PROD(NAME, q) >= 0, h5.PROD(NAME, q) < h5.MAXEL)), patterns=[h5.DIM(NAME, q)]))
        def prod(ex, info):
            out = []
            for key in info.left:
                f = lambda S, k, key=key: eq(loops.getc(S, key), h5.PROD(NAME, toz(k)))
                f.wantsk = True
                out.append(f)
            return out
        ex.loop_inv = [prod]
        k, v = run_fn(ex, fn(b, 'GetMultiArray_linear', 4), o, [strv(ex, NAME), cell(ex, room, SZ), nds, dm])
        if k == 'throw':
            ex.oblige(v == 'SFileException', 'errors are reported by the exception of the library', 'post')
            ex.oblige(z3.Not(h5.HAS(NAME)), 'variables are returned', 'post')
            return
        ex.oblige(h5.HAS(NAME), 'missing variables are refused', 'post')
        ex.oblige(eq(ex.read(nds), nd), 'number of dimensions', 'post')
        if v.rid is None:
            ex.oblige(nd > room, 'nothing is returned only if there are more dimensions than room for them', 'post')
            return
        ex.oblige(nd <= room, 'an array is returned only if there is room for its dimensions', 'post')
        i, j = ex.fint('i', 0), ex.fint('j', 0)
        ex.assume(z3.And(i < nd, j < h5.PROD(NAME, nd)))
        ex.oblige(eq(ex.read(LV(ex.read(dm).rid, i)), h5.DIM(NAME, i)), 'dimensions', 'post')
        ex.oblige(eq(ex.read(LV(v.rid, add(v.off, j))), h5.VR(NAME, j)), 'elements in their order', 'post')
        ex.oblige(v.off == 0 and v.rid not in ex.S.freed and ex.S.alloc[v.rid] == 'new[]', 'the array belongs to the caller', 'post')

    U.append(('reading an array of several dimensions', u_multi))

    # ---- writing
    WR, WI = z3.Function('value', IS, RS), z3.Function('ivalue', IS, IS)

    def data(ex, t, n):
        ty = b.prog._ty(t)
        if t != 'double':
            lo, hi = int_range(ty)
            p = z3.Int('p!')
            ex.assume(z3.ForAll([p], z3.And(WI(p) >= lo, WI(p) <= hi), patterns=[WI(p)]))
        V = WR if t == 'double' else WI
        return ex.put(Arr(n, BaseArr(lambda i: V(toz(i))), ty)), V

    def ghost(ex, kinds):
        return [e for e in ex.S.ghost.get('h5', ()) if e[0] in kinds]

    def written(ex, code, dims, V, n):
        ev = ghost(ex, ('create', 'write', 'writetext'))
        ex.oblige(len(ev) == 2 and ev[0][0] == 'create' and ev[1][0] == 'write', 'one variable is created and written', 'post')
        c, w = ev
        ex.oblige(and_(toz(c[1]) == NAME, toz(w[1]) == NAME), 'name of the variable', 'post')
        ex.oblige(and_(eq(c[2], code), eq(w[2], code)), 'type of the variable', 'post')
        ex.oblige(and_(eq(c[3]['rank'], len(dims)), *[eq(c[3]['dim'](i), d) for i, d in enumerate(dims)]), 'dimensions of the variable', 'post')
        i = ex.fint('e', 0)
        ex.assume(i < toz(n))
        ex.oblige(eq(ex.read(LV(w[3][0], add(w[3][1], i))), V(i)), 'elements of the variable', 'post')

    def nofail(ex, k):
        if k == 'throw':
            ex.oblige(h5.HAS(NAME), 'fails only if the variable exists already', 'post')
            return True
        return False

    for t, (sfx, code, g2, g1, mc) in TYPES.items():
        for cls in (HF, MF):
            def u_warr(ex, t=t, sfx=sfx, code=code, cls=cls, mc=mc, image=False):
                o = obj(ex, cls)
                nr, nc = ex.fint('rows', 0), ex.fint('cols', 0)
                ex.assume(z3.And(nr < MAXR, nc < MAXR, nr * nc < 2 ** 50, nr * nc >= 0))
                if image:
                    ex.assume(nr == nc)
                d, V = data(ex, t, nr * nc)
                PERM = z3.Function('place', IS, IS)     # rows anywhere in memory
                q = z3.Int('q!')
                ex.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nr), z3.And(PERM(q) >= 0, PERM(q) + nc <= nr * nc)), patterns=[PERM(q)]))
                rows = ex.put(Arr(nr, BaseArr(lambda i: Ptr(d, PERM(toz(i)))), Ty('ptr', '', sub=b.prog._ty(t))))
                a = [strv(ex, NAME), cell(ex, Ptr(rows, 0)), cell(ex, nr, SZ)] + ([] if image else [cell(ex, nc, SZ)])
                k, v = run_fn(ex, fn(b, 'WriteImage', 3) if image else fn(b, 'Write%sArray' % sfx, 4, cls), o, a)
                if nofail(ex, k):
                    return
                ev = ghost(ex, ('create', 'write', 'writetext'))
                ex.oblige(len(ev) == 2 and ev[0][0] == 'create' and ev[1][0] == 'write', 'one variable is created and written', 'post')
                c, w = ev
                ex.oblige(and_(toz(c[1]) == NAME, toz(w[1]) == NAME), 'name of the variable', 'post')
                ex.oblige(and_(eq(c[2], code), eq(w[2], code)), 'type of the variable', 'post')
                ex.oblige(and_(eq(c[3]['rank'], 2), eq(c[3]['dim'](0), nr), eq(c[3]['dim'](1), nc)), 'dimensions of the variable', 'post')
                i, j = ex.fint('i', 0), ex.fint('j', 0)
                ex.assume(z3.And(i < nr, j < nc, i * nc + j < nr * nc, i * nc >= 0))
                ex.oblige(eq(ex.read(LV(w[3][0], add(w[3][1], i * nc + j))), V(PERM(i) + j)), 'elements of the variable', 'post')
                leak = [r for r, al in ex.S.alloc.items() if al == 'new[]' and r not in ex.S.freed]
                ex.oblige(not leak, 'memory is released', 'post')
                matclass(ex, cls, mc)
            U.append(('writing a matrix: %s%s' % (t, ', MAT' if cls == MF else ''), u_warr))
            if t == 'double' and cls == HF:
                U.append(('writing an image', lambda ex, f=u_warr: f(ex, image=True)))

            def u_wmulti(ex, t=t, sfx=sfx, code=code, cls=cls, mc=mc):
                o = obj(ex, cls)
                rk, tot = ex.fint('rank', 1, 32), ex.fint('total', 0)
                ex.assume(tot < 2 ** 50)
                D = z3.Function('dims', IS, IS)
                q = z3.Int('q!')
                ex.assume(z3.ForAll([q], z3.And(D(q) >= 0, D(q) < 2 ** 50), patterns=[D(q)]))
                ex.opts['h5nel'] = tot
                d, V = data(ex, t, tot)
                dm = ex.put(Arr(rk, BaseArr(lambda i: D(toz(i))), SZ))
                k, v = run_fn(ex, fn(b, 'WriteMulti%sArray' % sfx, 4, cls), o, [strv(ex, NAME), cell(ex, Ptr(d, 0)), cell(ex, rk, SZ), cell(ex, Ptr(dm, 0))])
                if nofail(ex, k):
                    return
                ev = ghost(ex, ('create', 'write', 'writetext'))
                ex.oblige(len(ev) == 2 and ev[0][0] == 'create' and ev[1][0] == 'write', 'one variable is created and written', 'post')
                c, w = ev
                ex.oblige(and_(toz(c[1]) == NAME, toz(w[1]) == NAME), 'name of the variable', 'post')
                ex.oblige(and_(eq(c[2], code), eq(w[2], code)), 'type of the variable', 'post')
                i = ex.fint('i', 0)
                ex.assume(i < rk)
                ex.oblige(and_(eq(c[3]['rank'], rk), eq(c[3]['dim'](i), D(i))), 'dimensions of the variable', 'post')
                j = ex.fint('j', 0)
                ex.assume(j < tot)
                ex.oblige(eq(ex.read(LV(w[3][0], add(w[3][1], j))), V(j)), 'elements of the variable', 'post')
                matclass(ex, cls, mc)
            U.append(('writing an array of several dimensions: %s%s' % (t, ', MAT' if cls == MF else ''), u_wmulti))

        def u_wlist(ex, t=t, sfx=sfx, code=code):
            o = obj(ex)
            n = ex.fint('n', 0)
            ex.assume(n < 2 ** 50)
            d, V = data(ex, t, n)
            k, v = run_fn(ex, fn(b, 'Write%sList' % sfx, 3), o, [strv(ex, NAME), cell(ex, Ptr(d, 0)), cell(ex, n, SZ)])
            if not nofail(ex, k):
                written(ex, code, [n], V, n)
        U.append(('writing a list: ' + t, u_wlist))

    def matclass(ex, cls, want):
        at = ghost(ex, ('createatt', 'writeatt', 'writeatttext'))
        if cls == HF:
            ex.oblige(not at, 'no attributes are written', 'post')
            return
        c = [e for e in at if e[0] == 'createatt' and e[2].eq(z3.StringVal('MATLAB_class'))]
        w = [e for e in at if e[0] == 'writeatttext' and e[2].eq(z3.StringVal('MATLAB_class'))]
        ex.oblige(len(c) == 1 and len(w) == 1, 'the MATLAB class is written once', 'post')
        c, w = c[0], w[0]
        ex.oblige(and_(c[1] == NAME, w[1] == NAME), 'the MATLAB class belongs to the variable', 'post')
        ex.oblige(toz(w[4].p['s']) == z3.StringVal(want), 'name of the MATLAB class', 'post')
        ex.oblige(and_(c[3]['code'] == 6 and w[3]['code'] == 6, eq(c[3].get('size', 1), len(want)), eq(w[3].get('size', 1), len(want)), eq(c[4]['rank'], 0)), 'stored as text of its length', 'post')

    # ---- strings
    CH = z3.Function('character', IS, IS)

    def chars(ex, lo=-128):
        n = ex.fint('length', 0)
        q = z3.Int('q!')
        ex.assume(n < 2 ** 40)
        ex.assume(z3.ForAll([q], z3.And(CH(q) >= lo, CH(q) <= 127), patterns=[CH(q)]))
        return LV(ex.put(Lib('string', {'s': TXT, 'chars': lambda i: CH(toz(i)), 'len': n}, None))), n

    def u_wstr(ex):
        o = obj(ex)
        s, n = chars(ex)
        k, v = run_fn(ex, fn(b, 'WriteString', 2), o, [strv(ex, NAME), s])
        if nofail(ex, k):
            return
        ev = ghost(ex, ('create', 'write', 'writetext'))
        ex.oblige(len(ev) == 2 and ev[0][0] == 'create' and ev[1][0] == 'writetext', 'one variable is created and written', 'post')
        c, w = ev
        ex.oblige(and_(toz(c[1]) == NAME, toz(w[1]) == NAME), 'name of the variable', 'post')
        ex.oblige(and_(eq(c[2], 6), eq(w[2], 6)), 'type of the variable', 'post')
        ex.oblige(and_(eq(c[3]['rank'], 1), eq(c[3]['dim'](0), n)), 'one character for each of the text', 'post')
        ex.oblige(w[3].p['s'] is TXT or toz(w[3].p['s']).eq(TXT), 'the text itself', 'post')
    U.append(('writing a string', u_wstr))

    def u_watts(ex):
        o = obj(ex)
        s, n = chars(ex)
        ex.assume(h5.HAS(DSET))
        k, v = run_fn(ex, fn(b, 'WriteAttribute_string', 3), o, [strv(ex, DSET), strv(ex, ATT), s])
        ex.oblige(k == 'ret', 'attributes are written', 'post')
        ev = ghost(ex, ('create', 'write', 'writetext', 'createatt', 'writeatt', 'writeatttext'))
        ex.oblige(len(ev) == 2 and ev[0][0] == 'createatt' and ev[1][0] == 'writeatttext', 'one attribute is created and written', 'post')
        c, w = ev
        ex.oblige(and_(c[1] == DSET, w[1] == DSET, c[2] == ATT, w[2] == ATT), 'name of the attribute', 'post')
        ex.oblige(and_(eq(c[3]['code'], 6), eq(w[3]['code'], 6), eq(c[3].get('size', 1), 1)), 'type of the attribute', 'post')
        ex.oblige(and_(eq(c[4]['rank'], 1), eq(c[4]['dim'](0), n)), 'one character for each of the text', 'post')
        ex.oblige(toz(w[4].p['s']).eq(TXT), 'the text itself', 'post')
    U.append(('writing a string attribute', u_watts))

    def u_wattn(ex):
        o = obj(ex)
        x = z3.Real('x')
        ex.assume(h5.HAS(DSET))
        k, v = run_fn(ex, fn(b, 'WriteAttribute_scalar', 3), o, [strv(ex, DSET), strv(ex, ATT), cell(ex, x, REALT)])
        ex.oblige(k == 'ret', 'attributes are written', 'post')
        ev = ghost(ex, ('create', 'write', 'writetext', 'createatt', 'writeatt', 'writeatttext'))
        ex.oblige(len(ev) == 2 and ev[0][0] == 'createatt' and ev[1][0] == 'writeatt', 'one attribute is created and written', 'post')
        c, w = ev
        ex.oblige(and_(c[1] == DSET, w[1] == DSET, c[2] == ATT, w[2] == ATT), 'name of the attribute', 'post')
        ex.oblige(and_(eq(c[3]['code'], 1), eq(c[4]['rank'], 0), eq(w[3]['code'], 1)), 'type of the attribute', 'post')
        ex.oblige(eq(w[4], x), 'value of the attribute', 'post')
    U.append(('writing a scalar attribute', u_wattn))

    def u_struct(ex, cls):
        o = obj(ex, cls)
        k, v = run_fn(ex, fn(b, 'CreateStruct', 1, cls), o, [strv(ex, NAME)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        g = ghost(ex, ('group', 'create'))
        ex.oblige(len(g) == 1 and g[0][0] == 'group', 'one group is created', 'post')
        ex.oblige(g[0][1] == NAME, 'name of the group', 'post')
        ex.oblige(not [r for r, al in ex.S.alloc.items() if al in ('new', 'new[]') and r not in ex.S.freed and r != ex.read(field(ex, o, 'file')).rid], 'memory is released', 'post')
        matclass(ex, cls, 'struct')
    U.append(('creating a group', lambda ex: u_struct(ex, HF)))
    U.append(('creating a group, MAT', lambda ex: u_struct(ex, MF)))

    # ---- MAT
    def u_mwstr(ex):
        o = obj(ex, MF)
        s, n = chars(ex)
        k, v = run_fn(ex, fn(b, 'WriteString', 2, MF), o, [strv(ex, NAME), s])
        if nofail(ex, k):
            return
        ev = ghost(ex, ('create', 'write', 'writetext'))
        ex.oblige(len(ev) == 2 and ev[0][0] == 'create' and ev[1][0] == 'write', 'one variable is created and written', 'post')
        c, w = ev
        ex.oblige(and_(toz(c[1]) == NAME, toz(w[1]) == NAME), 'name of the variable', 'post')
        ex.oblige(and_(eq(c[2], 7), eq(w[2], 7)), 'type of the variable', 'post')
        ex.oblige(and_(eq(c[3]['rank'], 2), eq(c[3]['dim'](0), n), eq(c[3]['dim'](1), 1)), 'one number for each character of the text', 'post')
        i = ex.fint('i', 0)
        ex.assume(i < toz(n))
        x = ex.read(LV(w[3][0], add(w[3][1], i)))
        ex.oblige(z3.And(toz(x) >= 0, toz(x) < 65536, (toz(x) - CH(i)) % 256 == 0), 'characters of the text, in their order', 'post')
        ex.oblige(not [r for r, al in ex.S.alloc.items() if al == 'new[]' and r not in ex.S.freed], 'memory is released', 'post')
        matclass(ex, MF, 'char')
        at = [e for e in ghost(ex, ('createatt', 'writeatt')) if e[2].eq(z3.StringVal('MATLAB_int_decode'))]
        ex.oblige(len(at) == 2, 'numbers are marked as characters', 'post')
        ex.oblige(and_(at[0][1] == NAME, at[0][0] == 'createatt' and at[0][3]['code'] == 2, eq(at[0][4]['rank'], 0), at[1][0] == 'writeatt' and at[1][3]['code'] == 2, eq(at[1][4], 2)), 'numbers are marked as characters of two bytes', 'post')
    U.append(('writing a string, MAT', u_mwstr))

    def u_mrstr(ex):
        o = obj(ex, MF)
        T = h5.TYPE(NAME)
        ex.assume(T == 7)
        V = h5.VI[7]
        q = z3.Int('q!')
        ex.assume(z3.ForAll([q], V(NAME, q) % 256 != 0, patterns=[V(NAME, q)]))
        k, v = run_fn(ex, fn(b, 'GetString', 1, MF), o, [strv(ex, NAME)])
        ok = z3.And(h5.HAS(NAME), nd >= 1, nd <= 2)
        if k == 'throw':
            ex.oblige(v == 'SFileException', 'errors are reported by the exception of the library', 'post')
            ex.oblige(z3.Not(ok), 'strings are returned', 'post')
            return
        ex.oblige(ok, 'missing strings and such of more than two dimensions are refused', 'post')
        s = ex.node(v.rid)
        if s.p.get('s') is not None or 'arr' not in s.p:
            raise Unsupported('text returned')
        n = h5.PROD(NAME, nd)
        i = ex.fint('i', 0)
        ex.assume(i < n)
        x = toz(ex.read(LV(s.p['arr'], i)))
        ex.oblige(z3.And(x >= -128, x <= 127, (x - V(NAME, i)) % 256 == 0), 'characters of the text, in their order', 'post')
        if 'first' in s.p:
            # the length is that of the text before the first zero: instance of "no zero character"
            ln = toz(s.p['len'])
            ex.oblige(eq(s.p['first'], n), 'room for the text', 'post')
            y = toz(ex.read(LV(s.p['arr'], ln)))
            ex.oblige(ln == n, 'length of the text', 'post')
        else:
            ex.oblige(eq(s.p['len'], n), 'length of the text', 'post')
        ex.oblige(not [r for r, al in ex.S.alloc.items() if al == 'new[]' and r not in ex.S.freed], 'memory is released', 'post')
    U.append(('reading a string, MAT', u_mrstr))

    def u_mrtext(ex):
        o = obj(ex, MF)
        T = h5.TYPE(NAME)
        ex.assume(T != 7)
        k, v = run_fn(ex, fn(b, 'GetString', 1, MF), o, [strv(ex, NAME)])
        cls = z3.Or(T == 6, z3.And(T > 7, h5.STRCLASS(T)))
        ok = z3.And(h5.HAS(NAME), nd >= 1, nd <= 2, cls)
        if k == 'throw':
            ex.oblige(v == 'SFileException', 'errors are reported by the exception of the library', 'post')
            ex.oblige(z3.Not(ok), 'strings are returned', 'post')
            return
        ex.oblige(ok, 'what is not a string is refused', 'post')
        ex.oblige(toz(sval(ex, v)) == h5.TEXT(NAME), 'the text stored', 'post')
    U.append(('reading a text of HDF5, MAT', u_mrtext))

    def u_chars(ex):
        c, u = z3.Ints('c u')
        ex.assume(z3.And(c >= -128, c <= 127, u >= 0, u < 65536, (u - c) % 256 == 0))
        d = z3.Int('d')
        ex.assume(z3.And(d >= -128, d <= 127, (d - u) % 256 == 0))
        ex.oblige(d == c, "a character written is read back as the same one", "post")
    U.append(('characters, MAT', u_chars))
    FULL = z3.Concat(DSET, z3.StringVal('_'), ATT)

    def u_matt(ex, what):
        o = obj(ex, MF)
        got = []
        x = z3.Real('x')
        if what == 'Scalar':
            d = [d for d in b.prog.find_fn('SFile::GetScalar')][0]
            ex.contracts[d['_m']] = lambda ex, f, this, args: (got.append(toz(sval(ex, args[0]))), x)[1]
        else:
            ex.contracts[fn(b, 'GetString', 1, MF)['_m']] = lambda ex, f, this, args: (got.append(toz(sval(ex, args[0]))), mkstr(ex, TXT))[1]
        k, v = run_fn(ex, fn(b, 'GetAttribute' + what, 2, MF), o, [strv(ex, DSET), strv(ex, ATT)])
        ex.oblige(k == 'ret' and len(got) == 1, 'an attribute is a variable of its own', 'post')
        ex.oblige(got[0] == FULL, 'name of the variable of an attribute', 'post')
        ex.oblige(eq(v, x) if what == 'Scalar' else toz(sval(ex, v)) == TXT, 'value of the attribute', 'post')
    U.append(('reading a scalar attribute, MAT', lambda ex: u_matt(ex, 'Scalar')))
    U.append(('reading a string attribute, MAT', lambda ex: u_matt(ex, 'String')))

    def u_mwatt(ex, what):
        o = obj(ex, MF)
        got = []
        x = z3.Real('x')

        def wl(ex, f, this, args):
            p, n = ex.read(args[1]), ex.read(args[2])
            got.append((toz(sval(ex, args[0])), ex.read(LV(p.rid, p.off)), n))
        if what == 'scalar':
            d = [d for d in b.prog.find_fn(HF + '::WriteList') if 'const double *' in d['type']['qualType']]
            ex.contracts[b.prog.definition(d[0])['_m']] = wl
            a = cell(ex, x, REALT)
        else:
            ex.contracts[fn(b, 'WriteString', 2, MF)['_m']] = lambda ex, f, this, args: got.append((toz(sval(ex, args[0])), toz(sval(ex, args[1])), 1))
            a = strv(ex, TXT)
        k, v = run_fn(ex, fn(b, 'WriteAttribute_' + what, 3, MF), o, [strv(ex, DSET), strv(ex, ATT), a])
        ex.oblige(k == 'ret' and len(got) == 1, 'an attribute is a variable of its own', 'post')
        ex.oblige(got[0][0] == FULL, 'name of the variable of an attribute', 'post')
        ex.oblige(and_(eq(got[0][1], x) if what == 'scalar' else got[0][1] == TXT, eq(got[0][2], 1)), 'value of the attribute', 'post')
    U.append(('writing a scalar attribute, MAT', lambda ex: u_mwatt(ex, 'scalar')))
    U.append(('writing a string attribute, MAT', lambda ex: u_mwatt(ex, 'string')))

    # ---- opening and closing
    def u_open(ex, cls):
        o = LV(ex.alloc_rec(cls, 'sym', name='file'))
        ex.write(field(ex, o, 'file'), NULL)
        mode = ex.fint('mode', 0, 10)
        made = []

        def mat(ex, f, this, args):
            s = toz(sval(ex, args[0]))
            if not ex.branch(h5.CANOPEN(s, z3.IntVal(2))):
                h5.throw('FileIException')
            h5.log(ex, 'open', s, 2, 512)
            return Ptr(ex.put(Lib('h5file', {'name': s, 'mode': 2, 'open': True}), 'new'))
        if cls == MF:
            ex.contracts[fn(b, 'CreateMAT', 1, MF)['_m']] = mat
        k, v = run_fn(ex, fn(b, 'Open', 2, cls), o, [strv(ex, NAME), cell(ex, mode)])
        m = z3.If(mode == 0, 0, z3.If(mode == 1, 1, 2))
        can = z3.Or(*[z3.And(mode == i, h5.CANOPEN(NAME, f)) for i, f in ((0, 0), (1, 1), (2, 2))])
        if k == 'throw':
            ex.oblige(v == 'SFileException', 'errors are reported by the exception of the library', 'post')
            ex.oblige(z3.Not(can), 'files that can be opened are', 'post')
            return
        ex.oblige(can, 'files that cannot be opened are refused', 'post')
        op = ghost(ex, ('open',))
        ex.oblige(len(op) == 1, 'opened once', 'post')
        ex.oblige(and_(toz(op[0][1]) == NAME, eq(op[0][2], m)), 'opened for what was asked for', 'post')
        p = ex.read(field(ex, o, 'file'))
        ex.oblige(p.rid is not None and ex.node(p.rid).p['open'] and p.rid not in ex.S.freed, 'file is open', 'post')
        ex.oblige(and_(eq(ex.read(field(ex, o, 'mode')), mode), toz(sval(ex, field(ex, o, 'filename'))) == NAME), 'mode and name are remembered', 'post')
    U.append(('opening a file', lambda ex: u_open(ex, HF)))
    U.append(('opening a file, MAT', lambda ex: u_open(ex, MF)))

    def u_close(ex):
        o = obj(ex)
        p = ex.read(field(ex, o, 'file'))
        k, v = run_fn(ex, fn(b, 'Close', 0), o, [])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        ex.oblige(len(ghost(ex, ('close',))) == 1, 'the file is closed', 'post')
        ex.oblige(p.rid in ex.S.freed and ex.read(field(ex, o, 'file')).rid is None, 'the handle is released and forgotten', 'post')
    U.append(('closing a file', u_close))

    def u_ctor(ex):
        L = ex.lib.fns
        ex.contracts['dontPrint'] = lambda ex, f, this, args: None
        c = [d for d in b.prog.classes[HF]['ctors'] if len(params(d)) == 0]
        rid = ex.alloc_rec(HF, 'uninit', 'new')
        ex.run_ctor(b.prog.definition(c[0]), LV(rid), [])
        p = ex.read(field(ex, LV(rid), 'file'))
        ex.oblige(isinstance(p, Ptr) and p.rid is None, 'no file is open at first', 'post')
    U.append(('new file object', u_ctor))
    return U

from frame import *
from P08 import cell, PT
from P14 import truth_is, strarg_
import loops, prove
from stdlib import mkstr, sval

TITLE = 'File interface'
HARNESS = dict(src='P24.cpp', link='all')
SF = 'SFile'
TYPES = {'double': ('Double', 'GetDoubles', None), 'int': ('Int32', 'GetInt32_2D', 'GetInt32_1D'), 'long': ('Int64', 'GetInt64_2D', 'GetInt64_1D'),
         'unsigned int': ('UInt32', 'GetUInt32_2D', 'GetUInt32_1D'), 'unsigned long': ('UInt64', 'GetUInt64_2D', 'GetUInt64_1D')}
IS, RS, SS = z3.IntSort(), z3.RealSort(), z3.StringSort()
NAME = z3.String('name')
MAXEL = 2 ** 40


def load(b):
    b.load(['src/SFile/SFile.cpp'])


def fn(b, name, n=None, cls=SF, k=0):
    c = [d for d in b.prog.find_fn(cls + '::' + name) if b.prog.body(d) and (n is None or len(params(d)) == n)]
    if len(c) <= k:
        raise Unsupported('%s::%s: %d candidates' % (cls, name, len(c)))
    return c[k]


def decl(b, name, n, cls=SF, k=0):
    c = [d for d in b.prog.find_fn(cls + '::' + name) if len(params(d)) == n]
    if not c:
        raise Unsupported('%s::%s' % (cls, name))
    return b.prog.definition(c[k])


ROWS, COLS = z3.Int('rows'), z3.Int('cols')
VAL = {'int': z3.Function('content', SS, IS, IS), 'real': z3.Function('contentr', SS, IS, RS)}


def table(ex, ty, nm, rows, cols, val=None):
    """an array of row pointers into one block, as the readers of matrices return it"""
    v = val or (lambda i: VAL[ty.k](nm, toz(i)))
    d = ex.put(Arr(rows * cols, BaseArr(lambda i: v(i)), ty), 'new[]')
    return Ptr(ex.put(Arr(rows, BaseArr(lambda i: Ptr(d, toz(i) * cols)), Ty('ptr', '', sub=ty)), 'new[]'), 0), d


def bounds(ex):
    ex.assume(z3.And(ROWS >= 1, COLS >= 0, ROWS < 2 ** 30, COLS < 2 ** 30, ROWS * COLS < MAXEL))


def get2d(ex, f, this, args):
    nm = sval(ex, args[0])
    ty = ex.prog.ty(dict(qualType=f['type']['qualType'].split('(')[0].replace('*', '').strip()))
    p = ex.read(args[1])
    ex.write(LV(p.rid, add((0 if p.off is None else p.off), 0)), ROWS)
    ex.write(LV(p.rid, add((0 if p.off is None else p.off), 1)), COLS)
    r, d = table(ex, ty, toz(nm), ROWS, COLS)
    if ty.k == 'int':
        lo, hi = int_range(ty)
        q = z3.Int('q!')
        ex.assume(z3.ForAll([q], z3.And(VAL['int'](toz(nm), q) >= lo, VAL['int'](toz(nm), q) <= hi), patterns=[VAL['int'](toz(nm), q)]))
    return r


def obj(ex):
    return LV(ex.alloc_rec(SF, 'sym', name='file'))


def lenptr(ex, n=1):
    return cell(ex, Ptr(ex.put(Arr(n, UninitArr(), Ty('int', 'unsigned long', bits=64, signed=False))), 0))


def units(b):
    U = []
    CON = {}
    for t, (nm, g2, g1) in TYPES.items():
        d = decl(b, g2, 2)
        CON[d['_m']] = get2d

    def u_list(ex):
        ex.contracts.update(CON)
        bounds(ex)
        o = obj(ex)
        ln = lenptr(ex)
        k, v = run_fn(ex, fn(b, 'GetList', 2), o, [LV(mkstr(ex, NAME).rid), ln])
        vec = z3.Or(ROWS == 1, COLS == 1)
        if k == 'throw':
            ex.oblige(z3.Not(vec), 'a variable with one row or one column is returned as list', 'post')
            return
        ex.oblige(vec, 'a matrix is not returned as list', 'post')
        n = ex.read(LV(ex.read(ln).rid, 0))
        ex.oblige(eq(n, ROWS * COLS), 'length of the list', 'post')
        i = ex.fint('i', 0)
        ex.assume(i < ROWS * COLS)
        ex.oblige(eq(ex.read(LV(v.rid, add(v.off, i))), VAL['real'](NAME, i)), 'elements of the list in their order', 'post')
        ex.oblige(v.rid not in ex.S.freed and ex.S.alloc[v.rid] == 'new[]' and v.off == 0, 'the list belongs to the caller', 'post')
    U.append(('list', u_list))

    DT = z3.Int('datatype')
    enum = ('UNDEFINED', 'DOUBLE', 'INT32', 'INT64', 'UINT32', 'UINT64', 'STRING')
    E = {n: i for i, n in enumerate(enum)}
    CON[decl(b, 'GetDataType', 2)['_m']] = lambda ex, f, this, args: DT
    INTS = [E[n] for n in ('INT32', 'INT64', 'UINT32', 'UINT64')]

    def get1d(ex, f, this, args):
        nm = toz(sval(ex, args[0]))
        ty = ex.prog.ty(dict(qualType=f['type']['qualType'].split('(')[0].replace('*', '').strip()))
        p = ex.read(args[1])
        ex.write(LV(p.rid, (0 if p.off is None else p.off)), ROWS * COLS)
        lo, hi = int_range(ty)
        q = z3.Int('q!')
        ex.assume(z3.ForAll([q], z3.And(VAL['int'](nm, q) >= lo, VAL['int'](nm, q) <= hi), patterns=[VAL['int'](nm, q)]))
        return Ptr(ex.put(Arr(ROWS * COLS, BaseArr(lambda i: VAL['int'](nm, toz(i))), ty), 'new[]'), 0)
    for t, (nm, g2, g1) in TYPES.items():
        if g1:
            CON[decl(b, g1, 2)['_m']] = get1d

    def trunc(x):
        return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

    def wanted(ex, i):
        """64-bit integer that element i is read as"""
        w = VAL['int'](NAME, i)
        m = z3.If(w >= 2 ** 63, w - 2 ** 64, w)
        return z3.If(DT == E['DOUBLE'], trunc(VAL['real'](NAME, i)), m)

    def setup(ex):
        ex.contracts.update(CON)
        bounds(ex)
        ex.assume(z3.And(DT >= 0, DT < len(enum)))
        q = z3.Int('q!')
        ex.assume(z3.ForAll([q], z3.And(VAL['real'](NAME, q) > -2 ** 63, VAL['real'](NAME, q) < 2 ** 63), patterns=[VAL['real'](NAME, q)]))
        return obj(ex)

    def numeric():
        return z3.And(DT != E['UNDEFINED'], DT != E['STRING'])

    def u_intarr(ex):
        o = setup(ex)
        dm = lenptr(ex, 2)
        k, v = run_fn(ex, fn(b, 'GetIntArray', 2), o, [LV(mkstr(ex, NAME).rid), dm])
        if k == 'throw':
            ex.oblige(z3.Not(numeric()), 'numeric variables are returned', 'post')
            return
        ex.oblige(numeric(), 'other variables are refused', 'post')
        d = ex.read(dm)
        ex.oblige(and_(eq(ex.read(LV(d.rid, 0)), ROWS), eq(ex.read(LV(d.rid, 1)), COLS)), 'dimensions', 'post')
        i, j = ex.fint('i', 0), ex.fint('j', 0)
        ex.assume(z3.And(i < ROWS, j < COLS))
        ex.assume(z3.And(i * COLS + j < ROWS * COLS))
        row = ex.read(LV(v.rid, add(v.off, i)))
        ex.oblige(eq(ex.read(LV(row.rid, add(row.off, j))), wanted(ex, i * COLS + j)), 'elements converted to integers, in their place', 'post')
        ex.oblige(eq(row.off, i * COLS), 'rows are contiguous', 'post')
        ex.oblige(all(r not in ex.S.freed and ex.S.alloc[r] == 'new[]' for r in (v.rid, row.rid)), 'the array belongs to the caller', 'post')
    U.append(('array of integers', u_intarr))

    def u_intlist(ex):
        o = setup(ex)
        dm = lenptr(ex, 1)
        k, v = run_fn(ex, fn(b, 'GetIntList', 2), o, [LV(mkstr(ex, NAME).rid), dm])
        vec = z3.Or(ROWS == 1, COLS == 1)
        if k == 'throw':
            ex.oblige(z3.Not(z3.And(numeric(), vec)), 'numeric variables are returned', 'post')
            return
        ex.oblige(numeric(), 'other variables are refused', 'post')
        ex.oblige(eq(ex.read(LV(ex.read(dm).rid, 0)), ROWS * COLS), 'length of the list', 'post')
        i = ex.fint('i', 0)
        ex.assume(i < ROWS * COLS)
        ex.oblige(eq(ex.read(LV(v.rid, add(v.off, i))), wanted(ex, i)), 'elements converted to integers, in their order', 'post')
        ex.oblige(v.rid not in ex.S.freed and ex.S.alloc[v.rid] == 'new[]' and v.off == 0, 'the list belongs to the caller', 'post')
    U.append(('list of integers', u_intlist))

    def u_int(ex):
        o = setup(ex)
        k, v = run_fn(ex, fn(b, 'GetInt', 1), o, [LV(mkstr(ex, NAME).rid)])
        one = z3.And(ROWS == 1, COLS == 1)
        if k == 'throw':
            ex.oblige(z3.Not(z3.And(numeric(), one)), 'a single number is returned', 'post')
            return
        ex.oblige(z3.And(numeric(), one), 'other variables are refused', 'post')
        ex.oblige(eq(v, wanted(ex, z3.IntVal(0))), 'the number converted to an integer', 'post')
    U.append(('integer', u_int))

    for t, (nm, g2, g1) in TYPES.items():
        def u_single(ex, t=t, nm=nm):
            ex.contracts.update(CON)
            bounds(ex)
            o = obj(ex)
            k, v = run_fn(ex, fn(b, 'GetScalar' if t == 'double' else 'Get' + nm, 1), o, [LV(mkstr(ex, NAME).rid)])
            one = z3.And(ROWS == 1, COLS == 1)
            if k == 'throw':
                ex.oblige(z3.Not(one), 'a single number is returned', 'post')
                return
            ex.oblige(one, 'other variables are refused', 'post')
            ex.oblige(eq(v, VAL['real' if t == 'double' else 'int'](NAME, 0)), 'the number', 'post')
        U.append(('single number: ' + nm, u_single))

    # ---- arrays of several dimensions
    DIMS = z3.Ints('d0 d1 d2')
    SZ = Ty('int', 'unsigned long', bits=64, signed=False)

    def u_multi(ex, nd):
        NND = z3.Int('room')
        tot = 1
        for x in DIMS[:nd]:
            ex.assume(z3.And(x >= 1, x < 2 ** 15))
            tot = tot * x
        ex.assume(z3.And(NND >= 0, NND < 100))
        ex.assume(z3.And(tot >= 1, tot < 2 ** 50))
        reg = {}

        def linear(ex, f, this, args):
            ex.write(args[2], nd)
            if not ex.branch(nd <= toz(ex.read(args[1]))):
                return NULL
            p = ex.read(args[3])
            for i in range(nd):
                ex.write(LV(p.rid, add((0 if p.off is None else p.off), i)), DIMS[i])
            reg['d'] = ex.put(Arr(tot, BaseArr(lambda i: VAL['real'](NAME, toz(i))), REALT), 'new[]')
            return Ptr(reg['d'], 0)
        ex.contracts[decl(b, 'GetMultiArray_linear', 4)['_m']] = linear
        o = obj(ex)
        nds = cell(ex, UNINIT, SZ)
        dm = cell(ex, Ptr(ex.put(Arr(NND, UninitArr(), SZ)), 0))
        k, v = run_fn(ex, fn(b, 'GetMultiArray', 4), o, [LV(mkstr(ex, NAME).rid), cell(ex, NND, SZ), nds, dm])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        ex.oblige(eq(ex.read(nds), nd), 'number of dimensions', 'post')
        if v.rid is None:
            ex.oblige(nd > NND, 'nothing is returned only if there are more dimensions than room for them', 'post')
            return
        ex.oblige(nd <= NND, 'an array is returned only if there is room for its dimensions', 'post')
        idx = [ex.fint('i%d' % i, 0) for i in range(nd)]
        lin = 0
        p = v
        for i in range(nd):
            ex.assume(idx[i] < DIMS[i])
            lin = lin * DIMS[i] + idx[i]
            if i + 1 < nd:
                sub_ = 1
                for x in DIMS[:i + 1]:
                    sub_ = sub_ * x
                ex.oblige(eq(ex.node(p.rid).n, sub_), 'one pointer for each partial index', 'post')
                ex.assume(z3.And(lin < sub_))
                p = ex.read(LV(p.rid, add((0 if p.off is None else p.off), idx[i])))
        ex.oblige(p.rid == reg['d'], 'innermost pointers lead to the data', 'post')
        ex.oblige(eq(add((0 if p.off is None else p.off), idx[-1]), lin), 'elements in their place', 'post')
        ex.oblige(reg['d'] not in ex.S.freed, 'the data belong to the caller', 'post')
    for nd in (1, 2, 3):
        U.append(('array of %d dimensions' % nd, lambda ex, nd=nd: u_multi(ex, nd)))

    # ---- writing
    def u_scalar(ex):
        got = []

        def wl(ex, f, this, args):
            p, n = ex.read(args[1]), ex.read(args[2])
            got.append((sval(ex, args[0]), ex.read(LV(p.rid, p.off)), n))
        d = [d for d in b.prog.find_fn('SFile::WriteList') if 'const double *' in d['type']['qualType']]
        ex.contracts[d[0]['_m']] = wl
        x = z3.Real('x')
        k, v = run_fn(ex, fn(b, 'WriteScalar', 2), obj(ex), [LV(mkstr(ex, NAME).rid), cell(ex, x, REALT)])
        ex.oblige(k == 'ret' and len(got) == 1, 'terminates normally', 'post')
        ex.oblige(and_(eq(toz(got[0][0]), NAME), eq(got[0][1], x), eq(got[0][2], 1)), 'written as a list of this one number', 'post')
    U.append(('writing a number', u_scalar))
    for what, np_ in (('List', 3), ('Array', 4)):
        for t, (nm, g2, g1) in TYPES.items():
            if t == 'double':
                continue

            def u_fwd(ex, what=what, np_=np_, t=t, nm=nm):
                got = []

                def w(ex, f, this, args):
                    got.append([sval(ex, args[0])] + [ex.read(a) for a in args[1:]])
                ex.contracts[decl(b, 'Write%s%s' % (nm, what), np_)['_m']] = w
                ty = {'int': 'int32_t', 'long': 'int64_t', 'unsigned int': 'uint32_t', 'unsigned long': 'uint64_t'}[t]
                import re
                d = [d for d in b.prog.find_fn('SFile::Write' + what) if re.search(r'const %s\b' % ty, d['type']['qualType'])]
                if len(d) != 1:
                    raise Unsupported('overload')
                p = Ptr(ex.put(Arr(1, UninitArr(), SZ)), 0)
                ns = [ex.fint('n%d' % i, 0, 2 ** 60) for i in range(np_ - 2)]
                k, v = run_fn(ex, d[0], obj(ex), [LV(mkstr(ex, NAME).rid), cell(ex, p)] + [cell(ex, x, SZ) for x in ns])
                ex.oblige(k == 'ret' and len(got) == 1, 'handed on once', 'post')
                g = got[0]
                ex.oblige(and_(eq(toz(g[0]), NAME), g[1].rid == p.rid and g[1].off == 0, *[eq(x, y) for x, y in zip(g[2:], ns)]), 'handed on unchanged', 'post')
            U.append(('writing: %s of %s' % (what, nm), u_fwd))

    # ---- type of a file
    def u_type(ex):
        k, v = run_fn(ex, fn(b, 'GetFileType', 1), None, [LV(mkstr(ex, NAME).rid)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        W = z3.If(z3.Or(NAME == z3.StringVal('h5'), NAME == z3.StringVal('hdf5')), 1, z3.If(NAME == z3.StringVal('mat'), 2, z3.If(z3.Or(NAME == z3.StringVal('sdt'), NAME == z3.StringVal('out')), 3, 0)))
        ex.oblige(eq(v, W), 'type by name', 'post')
    U.append(('type by name', u_type))
    TYPEOF = z3.Function('type_of', SS, IS)

    def u_typeof(ex):
        ex.contracts[fn(b, 'GetFileType', 1)['_m']] = lambda ex, f, this, args: TYPEOF(toz(sval(ex, args[0])))
        k, v = run_fn(ex, fn(b, 'TypeOfFile', 1), None, [LV(mkstr(ex, NAME).rid)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        pre, ext = z3.Strings('stem ext')
        ex.oblige(z3.Implies(z3.And(NAME == z3.Concat(pre, z3.StringVal('.'), ext), z3.Not(z3.Contains(ext, z3.StringVal('.')))), toz(v) == TYPEOF(ext)), 'type by the text after the last dot', 'post')
        ex.oblige(z3.Implies(z3.Not(z3.Contains(NAME, z3.StringVal('.'))), toz(v) == 0), 'unknown without a dot', 'post')
    U.append(('type of a file', u_typeof))
    return U

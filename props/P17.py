import re
from frame import *
from P08 import cell, PT
from P14 import strarg_
import loops, prove, textfiles as tf
from stdlib import mkstr, sval

TITLE = 'SDT text files'
HARNESS = dict(src='P17.cpp', link='all')
SF = 'SFile_SDT'
IS, RS, SS = z3.IntSort(), z3.RealSort(), z3.StringSort()
NAME, DSET, ATT = z3.Strings('name dataset attribute')
SZ = Ty('int', 'unsigned long', bits=64, signed=False)
TYPES = {'double': 'double', 'int': 'int32_t', 'long': 'int64_t', 'unsigned int': 'uint32_t', 'unsigned long': 'uint64_t'}
SUFFIX = {'double': '', 'int': 'Int32', 'long': 'Int64', 'unsigned int': 'UInt32', 'unsigned long': 'UInt64'}
GET2 = {'double': 'GetDoubles', 'int': 'GetInt32_2D', 'long': 'GetInt64_2D', 'unsigned int': 'GetUInt32_2D', 'unsigned long': 'GetUInt64_2D'}
GET1 = {'double': 'GetDoubles1D', 'int': 'GetInt32_1D', 'long': 'GetInt64_1D', 'unsigned int': 'GetUInt32_1D', 'unsigned long': 'GetUInt64_1D'}


def load(b):
    b.load(['src/SFile/SFile_SDT.cpp', 'src/SFile/SFile_SDT.load.cpp'])


def fn(b, name, n=None):
    c = [d for d in b.prog.find_fn(SF + '::' + name) if b.prog.body(d) and (n is None or len(params(d)) == n)]
    if len(c) != 1:
        raise Unsupported('%s: %d candidates' % (name, len(c)))
    return c[0]


def field(ex, o, name):
    f = ex.node(o.rid).f
    c = [r for k, r in f.items() if k.split('.')[-1] == name]
    if len(c) != 1:
        raise Unsupported('member ' + name)
    return LV(c[0])


def units(b):
    U = []

    def obj(ex):
        return LV(ex.alloc_rec(SF, 'sym', name='file'))

    def stream(ex, o):
        return ex.node(field(ex, o, 'sdtfile').rid)

    # ------------------------------------------------------------- writing
    VR, VI = z3.Function('value', IS, RS), z3.Function('ivalue', IS, IS)

    def tok(ex, nd, i):
        """(kind, number, word) of token i of the text written"""
        k = loops.DECIDED(ex, ex.node(nd.p['tk']).a, i)
        return k

    def oblige_tok(ex, nd, i, kind, v=None, what=''):
        ex.oblige(eq(loops.DECIDED(ex, ex.node(nd.p['tk']).a, i), kind), what + ' (kind of text)', 'post')
        if kind == tf.NUM:
            ex.oblige(eq(toz(loops.DECIDED(ex, ex.node(nd.p['tn']).a, i), True), toz(v, True)), what + ' (value)', 'post')
        elif kind == tf.WORD:
            w = loops.DECIDED(ex, ex.node(nd.p['ts']).a, i)
            ex.oblige(toz(w) == toz(v), what + ' (word)', 'post')

    def begin(ex, o):
        nd = stream(ex, o)
        return nd.p['size'], [ex.node(nd.p[k]).a for k in ('tk', 'tn')]

    def layout(ex, start, nd, name, nr, nc, val):
        n0, old = start
        for i, (k, v) in enumerate(((tf.WORD, '@matrix'), (tf.WORD, name), (tf.NUM, nr), (tf.NUM, nc), (tf.NL, None))):
            oblige_tok(ex, nd, add(n0, i), k, v, 'header of a matrix')
        b0 = add(n0, 5)
        i, j = ex.fint('i', 0), ex.fint('j', 0)
        ex.assume(z3.And(i < toz(nr), j < toz(nc)))
        ex.assume(z3.And(i * (toz(nc) + 1) + j < toz(nr) * (toz(nc) + 1), i * (toz(nc) + 1) + toz(nc) < toz(nr) * (toz(nc) + 1)))
        oblige_tok(ex, nd, add(b0, i * (toz(nc) + 1) + j), tf.NUM, val(i, j), 'element of a matrix')
        oblige_tok(ex, nd, add(b0, i * (toz(nc) + 1) + toz(nc)), tf.NL, None, 'end of a row')
        oblige_tok(ex, nd, add(b0, toz(nr) * (toz(nc) + 1)), tf.NL, None, 'empty line after a matrix')
        ex.oblige(eq(nd.p['size'], add(b0, toz(nr) * (toz(nc) + 1) + 1)), 'nothing else is written', 'post')
        ex.oblige(not_(nd.p['unfinished']), 'nothing is left on the last line', 'post')
        q = ex.fint('q', 0)
        ex.assume(q < toz(n0))
        for k, a in zip(('tk', 'tn'), old):
            ex.oblige(eq(loops.DECIDED(ex, ex.node(nd.p[k]).a, q), a.get(q)), 'what was written before is kept', 'post')

    def size(ex, lo=0):
        nr, nc = ex.fint('rows', lo), ex.fint('cols', 0)
        ex.assume(z3.And(nr < 2 ** 30, nc < 2 ** 30, nr * nc < 2 ** 50, nr * (nc + 1) < 2 ** 51, nr * (nc + 1) >= 0))
        return nr, nc

    def matrix_arg(ex, t, nr, nc):
        """rows anywhere in memory"""
        ty = b.prog._ty(t)
        if t != 'double':
            lo, hi = int_range(ty)
            p = z3.Int('p!')
            ex.assume(z3.ForAll([p], z3.And(VI(p) >= lo, VI(p) <= hi), patterns=[VI(p)]))
        V = VR if t == 'double' else VI
        d = ex.put(Arr(nr * nc, BaseArr(lambda i: V(toz(i))), ty))
        rows = ex.put(Arr(nr, BaseArr(lambda i: Ptr(d, toz(i) * toz(nc))), Ty('ptr', '', sub=ty)))
        return Ptr(rows, 0), lambda i, j: V(i * nc + j)

    for t in TYPES:
        def u_write(ex, t=t):
            o = obj(ex)
            nr, nc = size(ex)
            a, val = matrix_arg(ex, t, nr, nc)
            nd0 = begin(ex, o)
            k, v = run_fn(ex, fn(b, 'Write%sArray' % SUFFIX[t], 4), o, [LV(mkstr(ex, NAME).rid), cell(ex, a), cell(ex, nr, SZ), cell(ex, nc, SZ)])
            ex.oblige(k == 'ret', 'terminates normally', 'post')
            layout(ex, nd0, stream(ex, o), NAME, nr, nc, val)
        U.append(('writing a matrix: ' + TYPES[t], u_write))

    # lists and images are matrices
    for t in TYPES:
        def u_wlist(ex, t=t, image=False):
            o = obj(ex)
            got = []

            def w(ex, f, this, args):
                p, nr, nc = [ex.read(a) for a in args[1:]]
                r0 = ex.read(ex.deref(p))
                got.append((toz(sval(ex, args[0])), r0, nr, nc, p))
            ex.contracts[fn(b, 'Write%sArray' % SUFFIX[t], 4)['_m']] = w
            n = ex.fint('n', 0, 2 ** 60)
            if image:
                ex.assume(n >= 1)
                a = Ptr(ex.put(Arr(n, BaseArr(lambda i: Ptr(0, toz(i))), Ty('ptr', '', sub=REALT))), 0)
                k, v = run_fn(ex, fn(b, 'WriteImage', 3), o, [LV(mkstr(ex, NAME).rid), cell(ex, a), cell(ex, n, SZ)])
            else:
                a = Ptr(ex.put(Arr(n, UninitArr(), b.prog._ty(t))), 0)
                k, v = run_fn(ex, fn(b, 'Write%sList' % SUFFIX[t], 3), o, [LV(mkstr(ex, NAME).rid), cell(ex, a), cell(ex, n, SZ)])
            ex.oblige(k == 'ret' and len(got) == 1, 'one matrix is written', 'post')
            g = got[0]
            ex.oblige(z3.And(g[0] == NAME, toz(g[3]) == n), 'name and length', 'post')
            if image:
                ex.oblige(and_(eq(g[2], n), g[4].rid == a.rid and g[4].off == 0), 'rows of the image', 'post')
            else:
                ex.oblige(and_(eq(g[2], 1), g[1].rid == a.rid and g[1].off == 0), 'one row, the list', 'post')
        U.append(('writing a list: ' + TYPES[t], u_wlist))
        if t == 'double':
            U.append(('writing an image', lambda ex, u=u_wlist: u(ex, 'double', True)))

    def u_watt(ex):
        o = obj(ex)
        x = z3.Real('x')
        nd0 = begin(ex, o)
        k, v = run_fn(ex, fn(b, 'WriteAttribute_scalar', 3), o, [LV(mkstr(ex, DSET).rid), LV(mkstr(ex, ATT).rid), cell(ex, x, REALT)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        layout(ex, nd0, stream(ex, o), z3.Concat(DSET, z3.StringVal('_'), ATT), 1, 1, lambda i, j: x)
    U.append(('writing a scalar attribute', u_watt))

    def astring(ex, nm='text'):
        """a string of arbitrary characters"""
        ch = z3.Function('character', IS, IS)
        n = ex.fint('length', 0, 2 ** 40)
        q = z3.Int('q!')
        ex.assume(z3.ForAll([q], z3.And(ch(q) >= -128, ch(q) <= 127), patterns=[ch(q)]))
        return LV(ex.put(Lib('string', {'s': z3.String(nm), 'chars': lambda i: ch(toz(i)), 'len': n}, None))), n, ch

    def u_wstr(ex):
        o = obj(ex)
        sv, n, ch = astring(ex)
        n0, old = begin(ex, o)
        k, v = run_fn(ex, fn(b, 'WriteString', 2), o, [LV(mkstr(ex, NAME).rid), sv])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        nd = stream(ex, o)
        for i, (kk, v) in enumerate(((tf.WORD, '@string'), (tf.WORD, NAME), (tf.NUM, n), (tf.NL, None))):
            oblige_tok(ex, nd, add(n0, i), kk, v, 'header of a string')
        i = ex.fint('i', 0)
        ex.assume(i < n)
        oblige_tok(ex, nd, add(n0, 4 + i), tf.NUM, ch(i), 'character of a string')
        oblige_tok(ex, nd, add(n0, 4 + n), tf.NL, None, 'end of a string')
        oblige_tok(ex, nd, add(n0, 5 + n), tf.NL, None, 'empty line after a string')
        ex.oblige(eq(nd.p['size'], add(n0, 6 + n)), 'nothing else is written', 'post')
        q = ex.fint('q', 0)
        ex.assume(q < toz(n0))
        for kk, a in zip(('tk', 'tn'), old):
            ex.oblige(eq(loops.DECIDED(ex, ex.node(nd.p[kk]).a, q), a.get(q)), 'what was written before is kept', 'post')
    U.append(('writing a string', u_wstr))

    def u_wattstr(ex):
        o = obj(ex)
        got = []
        ex.contracts[fn(b, 'WriteString', 2)['_m']] = lambda ex, f, this, args: got.append([toz(sval(ex, a)) for a in args])
        T = z3.String('text')
        k, v = run_fn(ex, fn(b, 'WriteAttribute_string', 3), o, [LV(mkstr(ex, s).rid) for s in (DSET, ATT, T)])
        ex.oblige(k == 'ret' and len(got) == 1, 'one string is written', 'post')
        ex.oblige(z3.And(got[0][0] == z3.Concat(DSET, z3.StringVal('_'), ATT), got[0][1] == T), 'name and value of the attribute', 'post')
    U.append(('writing a string attribute', u_wattstr))

    for nm in ('WriteMultiArray', 'WriteMultiInt32Array', 'WriteMultiInt64Array', 'WriteMultiUInt32Array', 'WriteMultiUInt64Array', 'GetMultiArray_linear'):
        def u_multi(ex, nm=nm):
            o = obj(ex)
            f = fn(b, nm, 4)
            n0, old = begin(ex, o)
            p = [cell(ex, Ptr(ex.put(Arr(ex.fint('n', 0), UninitArr(), SZ)), 0)), cell(ex, ex.fint('nd', 0, 100), SZ)]
            args = [LV(mkstr(ex, NAME).rid)] + [p[0] if 'ptr' == b.prog.ty(q['type']).k else p[1] for q in params(f)[1:]]
            k, v = run_fn(ex, f, o, args)
            ex.oblige(k == 'throw' and 'SFileException' in v, 'refused', 'post')
            ex.oblige(eq(stream(ex, o).p['size'], n0), 'nothing is written', 'post')
        U.append(('several dimensions are refused: ' + nm, u_multi))

    # ------------------------------------------------------------- reading what was loaded
    NR, NC = z3.Ints('rows cols')
    MV = z3.Function('element', SS, IS, RS)
    TV = z3.Function('text', SS, SS)

    def mapentry(ex, name, vt, key):
        r = ex.alloc_rec(vt.name, 'uninit')
        f = ex.node(r).f
        g = lambda n: [x for k, x in f.items() if k.split('.')[-1] == n][0]
        ex.setnode(g('name'), Lib('string', {'s': key}, ex.node(g('name')).ty))
        if 'matri' in vt.name:
            ex.assume(z3.And(NR >= 1, NC >= 0, NR < 2 ** 30, NC < 2 ** 30, NR * NC < 2 ** 50, NR * NC >= 0))
            d = ex.put(Arr(NR * NC, BaseArr(lambda i: MV(key, toz(i))), REALT), 'new[]')
            ex.S.ghost['stored'] = d
            rows = ex.put(Arr(NR, BaseArr(lambda i: Ptr(d, toz(i) * NC)), PT), 'new[]')
            ex.S.ghost['storedrows'] = rows
            for n, v in (('nrows', NR), ('ncols', NC), ('value', Ptr(rows, 0))):
                ex.write(LV(g(n)), v)
        else:
            ex.setnode(g('value'), Lib('string', {'s': TV(key)}, ex.node(g('value')).ty))
        return LV(r)

    def robj(ex):
        ex.opts['mapentry'] = mapentry
        o = obj(ex)
        hm = ex.node(field(ex, o, 'matrices').rid).p['has']
        hs = ex.node(field(ex, o, 'strings').rid).p['has']
        return o, hm, hs

    def untouched(ex):
        d, r = ex.S.ghost.get('stored'), ex.S.ghost.get('storedrows')
        ex.oblige(d not in ex.S.freed and r not in ex.S.freed, 'the stored matrix stays', 'post')

    def trunc(x):
        return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

    def fits(ex, t, key):
        """the numbers read as integers fit the type"""
        if t != 'double':
            lo, hi = int_range(b.prog._ty(t))
            q = z3.Int('q!')
            ex.assume(z3.ForAll([q], z3.And(MV(key, q) > lo - 1, MV(key, q) < hi + 1), patterns=[MV(key, q)]))

    def doubles2(ex, f, this, args):
        key = toz(sval(ex, args[0]))
        o = ex.opts['this']
        hm = ex.node(field(ex, o, 'matrices').rid).p['has']
        if not ex.branch(hm(key)):
            from interp import CxxThrow
            raise CxxThrow('SFileException', None)
        p = ex.read(args[1])
        ex.assume(z3.And(NR >= 1, NC >= 0, NR < 2 ** 30, NC < 2 ** 30, NR * NC < 2 ** 50, NR * NC >= 0))
        ex.write(LV(p.rid, 0), NR)
        ex.write(LV(p.rid, 1), NC)
        d = ex.put(Arr(NR * NC, BaseArr(lambda i: MV(key, toz(i))), REALT), 'new[]')
        ex.S.ghost['tmp'] = [d]
        r = ex.put(Arr(NR, BaseArr(lambda i: Ptr(d, toz(i) * NC)), PT), 'new[]')
        ex.S.ghost['tmp'] = [d, r]
        return Ptr(r, 0)

    def doubles1(ex, f, this, args):
        key = toz(sval(ex, args[0]))
        o = ex.opts['this']
        hm = ex.node(field(ex, o, 'matrices').rid).p['has']
        if not ex.branch(z3.And(hm(key), z3.Or(NR == 1, NC == 1))):
            from interp import CxxThrow
            raise CxxThrow('SFileException', None)
        p = ex.read(args[1])
        ex.assume(z3.And(NR >= 1, NC >= 0, NR < 2 ** 30, NC < 2 ** 30, NR * NC < 2 ** 50, NR * NC >= 0))
        ex.write(ex.deref(p), NR * NC)
        d = ex.put(Arr(NR * NC, BaseArr(lambda i: MV(key, toz(i))), REALT), 'new[]')
        ex.S.ghost['tmp'] = [d]
        return Ptr(d, 0)

    for t in TYPES:
        def u_get2(ex, t=t):
            o, hm, hs = robj(ex)
            fits(ex, t, NAME)
            if t != 'double':
                ex.opts['this'] = o
                ex.contracts[fn(b, 'GetDoubles', 2)['_m']] = doubles2
            dm = cell(ex, Ptr(ex.put(Arr(2, UninitArr(), SZ)), 0))
            k, v = run_fn(ex, fn(b, GET2[t], 2), o, [LV(mkstr(ex, NAME).rid), dm])
            if k == 'throw':
                ex.oblige('SFileException' in v, 'kind of exception', 'post')
                ex.oblige(z3.Not(hm(NAME)), 'a matrix of the file is returned', 'post')
                return
            ex.oblige(hm(NAME), 'only matrices of the file are returned', 'post')
            d = ex.read(dm)
            ex.oblige(and_(eq(ex.read(LV(d.rid, 0)), NR), eq(ex.read(LV(d.rid, 1)), NC)), 'dimensions', 'post')
            i, j = ex.fint('i', 0), ex.fint('j', 0)
            ex.assume(z3.And(i < NR, j < NC, i * NC + j < NR * NC))
            row = ex.read(LV(v.rid, add(v.off, i)))
            w = MV(NAME, i * NC + j)
            ex.oblige(eq(ex.read(LV(row.rid, add(row.off, j))), w if t == 'double' else trunc(w)), 'every element in its place', 'post')
            ex.oblige(eq(row.off, i * NC), 'rows follow each other in memory', 'post')
            ex.oblige(all(r not in ex.S.freed and ex.S.alloc[r] == 'new[]' for r in (v.rid, row.rid)), 'the array belongs to the caller', 'post')
            if t == 'double':
                untouched(ex)
                ex.oblige(row.rid != ex.S.ghost['stored'] and v.rid != ex.S.ghost['storedrows'], 'the caller gets a copy', 'post')
            else:
                ex.oblige(all(r in ex.S.freed for r in ex.S.ghost['tmp']), 'no memory is lost', 'post')
        U.append(('reading a matrix: ' + TYPES[t], u_get2))

        def u_get1(ex, t=t):
            o, hm, hs = robj(ex)
            fits(ex, t, NAME)
            if t != 'double':
                ex.opts['this'] = o
                ex.contracts[fn(b, 'GetDoubles1D', 2)['_m']] = doubles1
            dm = cell(ex, Ptr(ex.put(Arr(1, UninitArr(), SZ)), 0))
            k, v = run_fn(ex, fn(b, GET1[t], 2), o, [LV(mkstr(ex, NAME).rid), dm])
            vec = z3.And(hm(NAME), z3.Or(NR == 1, NC == 1))
            if k == 'throw':
                ex.oblige('SFileException' in v, 'kind of exception', 'post')
                ex.oblige(z3.Not(vec), 'a vector of the file is returned', 'post')
                return
            ex.oblige(vec, 'only vectors of the file are returned', 'post')
            ex.oblige(eq(ex.read(LV(ex.read(dm).rid, 0)), NR * NC), 'length', 'post')
            i = ex.fint('i', 0)
            ex.assume(z3.And(i < NR * NC))
            w = MV(NAME, i)
            ex.oblige(eq(ex.read(LV(v.rid, add(v.off, i))), w if t == 'double' else trunc(w)), 'every element in its place', 'post')
            ex.oblige(v.rid not in ex.S.freed and ex.S.alloc[v.rid] == 'new[]' and v.off == 0, 'the array belongs to the caller', 'post')
            if t == 'double':
                untouched(ex)
            else:
                ex.oblige(all(r in ex.S.freed for r in ex.S.ghost['tmp']), 'no memory is lost', 'post')
        U.append(('reading a vector: ' + TYPES[t], u_get1))

    def u_string(ex, att):
        o, hm, hs = robj(ex)
        key = z3.Concat(DSET, z3.StringVal('_'), ATT) if att else NAME
        if att:
            k, v = run_fn(ex, fn(b, 'GetAttributeString', 2), o, [LV(mkstr(ex, s).rid) for s in (DSET, ATT)])
        else:
            k, v = run_fn(ex, fn(b, 'GetString', 1), o, [LV(mkstr(ex, NAME).rid)])
        if k == 'throw':
            ex.oblige('SFileException' in v, 'kind of exception', 'post')
            ex.oblige(z3.Not(hs(key)), 'a string of the file is returned', 'post')
            return
        ex.oblige(hs(key), 'only strings of the file are returned', 'post')
        ex.oblige(toz(sval(ex, v)) == TV(key), 'text', 'post')
    U.append(('reading a string', lambda ex: u_string(ex, False)))
    U.append(('reading a string attribute', lambda ex: u_string(ex, True)))

    def u_scalaratt(ex):
        o, hm, hs = robj(ex)
        key = z3.Concat(DSET, z3.StringVal('_'), ATT)
        k, v = run_fn(ex, fn(b, 'GetAttributeScalar', 2), o, [LV(mkstr(ex, s).rid) for s in (DSET, ATT)])
        one = z3.And(hm(key), NR == 1, NC == 1)
        if k == 'throw':
            ex.oblige('SFileException' in v, 'kind of exception', 'post')
            ex.oblige(z3.Not(one), 'a number of the file is returned', 'post')
            return
        ex.oblige(one, 'only single numbers are returned', 'post')
        ex.oblige(eq(v, MV(key, 0)), 'number', 'post')
        untouched(ex)
    U.append(('reading a scalar attribute', u_scalaratt))

    def u_has(ex):
        o, hm, hs = robj(ex)
        k, v = run_fn(ex, fn(b, 'HasVariable', 1), o, [LV(mkstr(ex, NAME).rid)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        ex.oblige(toz(v) == z3.Or(hm(NAME), hs(NAME)), 'a variable exists iff it was loaded', 'post')
    U.append(('existence of a variable', u_has))

    def u_dtype(ex):
        o, hm, hs = robj(ex)
        h = ex.fint('hint', 0, 6)
        k, v = run_fn(ex, fn(b, 'GetDataType', 2), o, [LV(mkstr(ex, NAME).rid), cell(ex, h)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        ex.oblige(eq(v, z3.If(hm(NAME), z3.If(z3.Or(h == 0, h == 6), z3.IntVal(1), h), z3.If(hs(NAME), z3.IntVal(6), z3.IntVal(0)))), 'type of a variable', 'post')
    U.append(('type of a variable', u_dtype))

    # ------------------------------------------------------------- loading
    def mapnew(ex, o, which):
        return ex.node(field(ex, o, which).rid).p['new']

    def fld(ex, r, n):
        return LV([x for k, x in ex.node(r).f.items() if k.split('.')[-1] == n][0])

    def u_loadmatrix(ex, enough):
        o = obj(ex)
        nr, nc = ex.fint('rows', 0, 2 ** 64 - 1), ex.fint('cols', 0, 2 ** 64 - 1)
        ex.assume(z3.And(z3.Implies(nr > 0, nr * nc < 2 ** 50), nr < 2 ** 50, nc < 2 ** 50, nr * nc >= 0))
        L0 = stream(ex, o).p['lno']
        good = lambda i, j: z3.And(j < tf.NTOK(toz(L0) + i), tf.ISNUM(toz(L0) + i, j))
        if enough:
            ex.assume(toz(L0) + nr <= tf.NLINES)
        else:
            ex.assume(z3.And(toz(L0) + nr > tf.NLINES, toz(L0) <= tf.NLINES, nc >= 1))
        k, v = run_fn(ex, fn(b, 'LoadMatrix', 3), o, [LV(mkstr(ex, NAME).rid), cell(ex, nr, SZ), cell(ex, nc, SZ)])
        if k == 'throw':
            ex.oblige('SFileException' in v, 'kind of exception', 'post')
            ex.oblige(not mapnew(ex, o, 'matrices'), 'no matrix is added', 'post')
            if enough:
                I, J = z3.Ints('I! J!')
                ok = z3.ForAll([I, J], z3.Implies(z3.And(0 <= I, I < nr, 0 <= J, J < nc), good(I, J)))
                ex.oblige(z3.Not(z3.And(nr > 0, ok)), 'a matrix with all its numbers is loaded', 'post')
            return
        ex.oblige(enough, 'a matrix that is cut off is refused', 'post')
        i, j = ex.fint('i', 0), ex.fint('j', 0)
        ex.assume(z3.And(i < nr, j < nc, i * nc + j < nr * nc))
        ex.oblige(good(i, j), 'a matrix with missing numbers is refused', 'post')
        new = mapnew(ex, o, 'matrices')
        ex.oblige(len(new) == 1 and not mapnew(ex, o, 'strings'), 'one matrix is added', 'post')
        key, r = new[0]
        ex.oblige(key == NAME, 'name of the matrix', 'post')
        ex.oblige(and_(eq(ex.read(fld(ex, r, 'nrows')), nr), eq(ex.read(fld(ex, r, 'ncols')), nc)), 'size of the matrix', 'post')
        p = ex.read(fld(ex, r, 'value'))
        row = ex.read(LV(p.rid, add(p.off, i)))
        ex.oblige(eq(row.off, i * nc), 'rows follow each other in memory', 'post')
        ex.oblige(eq(ex.read(LV(row.rid, add(row.off, j))), tf.TNUM(toz(L0) + i, j)), 'every number in its place', 'post')
        ex.oblige(all(x not in ex.S.freed and ex.S.alloc[x] == 'new[]' for x in (p.rid, row.rid)), 'the matrix stays', 'post')
        ex.oblige(and_(stream(ex, o).p['ok'], eq(stream(ex, o).p['lno'], toz(L0) + nr)), 'one line is read for each row', 'post')
    U.append(('loading a matrix', lambda ex: u_loadmatrix(ex, True)))
    U.append(('loading a matrix that is cut off', lambda ex: u_loadmatrix(ex, False)))

    def u_loadstring(ex):
        o = obj(ex)
        L0 = stream(ex, o).p['lno']
        ex.assume(toz(L0) < tf.NLINES)
        # what is written as a string: nothing but characters
        n = tf.NTOK(toz(L0))
        q = z3.Int('q!')
        ex.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(tf.ISINT(toz(L0), q), tf.TINT(toz(L0), q) >= -128, tf.TINT(toz(L0), q) <= 127)), patterns=[tf.TINT(toz(L0), q)]))
        ex.assume(z3.And(n >= 0, n < 2 ** 40))
        ex.opts['charstrings'] = True

        def g(ex, info):
            for key in info.left:
                if key[1] == 'tok':
                    def f(S, k, key=key):
                        return z3.And(toz(loops.getc(S, key)) == toz(k), toz(k) <= n)
                    f.wantsk = True
                    yield f
        ex.loop_inv = [g]
        k, v = run_fn(ex, fn(b, 'LoadString', 2), o, [LV(mkstr(ex, NAME).rid), cell(ex, ex.fint('n', 0, 2 ** 64 - 1), SZ)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        new = mapnew(ex, o, 'strings')
        ex.oblige(len(new) == 1 and not mapnew(ex, o, 'matrices'), 'one string is added', 'post')
        key, r = new[0]
        ex.oblige(key == NAME, 'name of the string', 'post')
        sv = ex.node(fld(ex, r, 'value').rid)
        i = ex.fint('i', 0)
        ex.assume(i < n)
        ex.oblige('arr' in sv.p, 'text is made of the numbers', 'post')
        ex.oblige(eq(sv.p['len'], n), 'length of the string', 'post')
        ex.oblige(eq(ex.read(LV(sv.p['arr'], i)), tf.TINT(toz(L0), i)), 'every character in its place', 'post')
        ex.oblige(eq(stream(ex, o).p['lno'], toz(L0) + 1), 'one line is read', 'post')
    U.append(('loading a string', u_loadstring))

    # the whole file: every block is loaded, once, in order
    REST = z3.Function('blocks_from_line', IS, IS)

    def isu(l, t):
        return z3.And(tf.ISINT(l, t), tf.TINT(l, t) >= 0, tf.TINT(l, t) < 2 ** 64)

    def blank(l):
        return tf.NTOK(l) == 0

    def mat(l):
        return z3.And(tf.NTOK(l) >= 4, tf.TWORD(l, 0) == z3.StringVal('@matrix'), isu(l, 2), isu(l, 3))

    def strg(l):
        return z3.And(tf.NTOK(l) >= 3, tf.TWORD(l, 0) == z3.StringVal('@string'), isu(l, 2))

    def u_load(ex):
        o = obj(ex)
        st = field(ex, o, 'sdtfile').rid
        L0 = toz(stream(ex, o).p['lno'])
        ex.assume(L0 <= tf.NLINES)
        calls = cell(ex, 0, SZ)
        # definition, from the end of the file: number of blocks from a line on
        ex.assume(REST(tf.NLINES) == 0)

        def rest(l):
            return z3.Implies(z3.And(l >= 0, l < tf.NLINES), z3.And(z3.Implies(blank(l), REST(l) == REST(l + 1)),
                              z3.Implies(mat(l), REST(l) == 1 + REST(l + 1 + tf.TINT(l, 2))), z3.Implies(strg(l), REST(l) == 1 + REST(l + 2))))
        bad = []

        def loader(kind):
            def f(ex, fd, this, args):
                nd = ex.node(st)
                l = toz(nd.p['lno']) - 1
                ex.oblige(toz(sval(ex, args[0])) == tf.TWORD(l, 1), 'a variable is loaded under its name', 'post')
                nums = [ex.read(a) for a in args[1:]]
                if kind == 'matrix':
                    ex.oblige(and_(mat(l), eq(nums[0], tf.TINT(l, 2)), eq(nums[1], tf.TINT(l, 3))), 'a matrix is loaded with its size', 'post')
                    n = tf.TINT(l, 2)
                else:
                    ex.oblige(strg(l), 'a string is loaded where there is one', 'post')
                    n = 1
                if ex.branch(ex.fbool('loads')):
                    ex.assume(l + 1 + n <= tf.NLINES)
                    ex.setnode(st, ex.node(st).w(lno=l + 1 + n))
                    ex.write(calls, add(ex.read(calls), 1))
                    ex.assume(ex.read(calls) < 2 ** 60)
                    return
                from interp import CxxThrow
                ex.S.ghost['callee threw'] = True
                raise CxxThrow('SFileException', None)
            return f
        ex.contracts[fn(b, 'LoadMatrix', 3)['_m']] = loader('matrix')
        ex.contracts[fn(b, 'LoadString', 2)['_m']] = loader('string')

        def g(ex, info):
            def f(S):
                l = toz(loops.getc(S, (st, 'lno')))
                return z3.And(toz(loops.getc(S, (calls.rid, 'v'))) + REST(l) == REST(L0), l <= tf.NLINES, l >= L0, rest(l))
            yield f
        ex.assume(rest(L0))
        q = z3.Int('q!')
        ex.assume(z3.ForAll([q], rest(q), patterns=[REST(q)]))
        ex.loop_inv = [g]
        k, v = run_fn(ex, fn(b, 'Load', 0), o, [])
        if k == 'throw':
            ex.oblige('SFileException' in v, 'kind of exception', 'post')
            l = toz(stream(ex, o).p['lno']) - 1
            ex.oblige(bool(ex.S.ghost.get('callee threw')) or z3.Not(z3.Or(blank(l), mat(l), strg(l))), 'only files that are ill-formed are refused', 'post')
            return
        ex.oblige(eq(ex.read(calls), REST(L0)), 'every block of the file is loaded once', 'post')
        ex.oblige(eq(stream(ex, o).p['lno'], tf.NLINES), 'the file is read to its end', 'post')
    U.append(('loading a file', u_load))

    def u_open(ex):
        o = obj(ex)
        st = field(ex, o, 'sdtfile').rid
        ex.setnode(st, ex.node(st).w(open=False))
        loaded = []

        def ld(ex, f, this, args):
            nd = ex.node(st)
            ex.oblige(nd.p['open'], 'file is open while it is loaded', 'post')
            loaded.append((nd.p['name'], nd.p['mode']))
            ex.S.ghost['loaded'] = ex.S.ghost.get('loaded', 0) + 1
        ex.contracts[fn(b, 'Load', 0)['_m']] = ld
        m = ex.fint('mode', 0, 2)
        k, v = run_fn(ex, fn(b, 'Open', 2), o, [LV(mkstr(ex, NAME).rid), cell(ex, m)])
        nd = stream(ex, o)
        can = {x: tf.CANOPEN(NAME, z3.IntVal(x)) for x in (8, 48, 17, 16)}
        E = {'READ': 0, 'UPDATE': 1, 'WRITE': 2}
        if k == 'throw':
            ex.oblige('SFileException' in v, 'kind of exception', 'post')
            ok = z3.If(m == E['READ'], can[8], z3.If(m == E['WRITE'], z3.And(can[48], can[16]), z3.And(can[8], can[17])))
            ex.oblige(z3.Not(ok), 'a file that can be opened is not refused', 'post')
            return
        ex.oblige(toz(sval(ex, field(ex, o, 'filename'))) == NAME, 'name of the file is kept', 'post')
        nl = ex.S.ghost.get('loaded', 0)
        ex.oblige(z3.Implies(m == E['READ'], z3.And(can[8], z3.BoolVal(nl == 1 and nd.p['mode'] == 8))), 'a file opened for reading is loaded', 'post')
        ex.oblige(z3.Implies(m == E['WRITE'], z3.And(toz(nd.p['open']), z3.BoolVal(nl == 0 and nd.p['mode'] in (48, 16)))), 'a file opened for writing is empty', 'post')
        ex.oblige(z3.Implies(m == E['UPDATE'], z3.And(can[8], toz(nd.p['open']), z3.BoolVal(nl == 1 and nd.p['mode'] == 17))), 'a file opened for update is loaded and appended to', 'post')
        ex.oblige(toz(nd.p['name']) == NAME, 'name of the file', 'post')
    U.append(('opening a file', u_open))

    # lemma: the lines of what is written (by the contracts of writing) are what loading expects
    def u_lines(ex, what):
        TK = z3.Function('kind', IS, IS)
        LS, LE = z3.Function('line_start', IS, IS), z3.Function('line_end', IS, IS)
        l0, nr, nc = ex.fint('l0', 0), ex.fint('rows', 0), ex.fint('cols', 0)
        l, q, i, j = z3.Ints('l! q! i! j!')

        def line(l):        # definition of lines
            return z3.And(LS(l) <= LE(l), TK(LE(l)) == tf.NL, LS(l + 1) == LE(l) + 1, z3.ForAll([q], z3.Implies(z3.And(LS(l) <= q, q < LE(l)), TK(q) != tf.NL), patterns=[TK(q)]))
        B = LS(l0)
        matrix = what == 'matrix'
        head = 4 if matrix else 3
        b0 = B + head + 1
        W, R = nc + 1, nr if matrix else 1
        row = (lambda i: b0 + i * W) if matrix else (lambda i: b0 + W if i else b0)
        k = ex.fint('k', 0) if matrix else 0
        ex.assume(z3.And(*[TK(B + q) != tf.NL for q in range(head)], TK(B + head) == tf.NL))
        ex.assume(TK(row(R)) == tf.NL)

        def rowfact(i):
            return z3.And(TK(row(i) + nc) == tf.NL, z3.ForAll([j], z3.Implies(z3.And(row(i) <= j, j < row(i) + nc), TK(j) == tf.NUM), patterns=[TK(j)]))
        ex.assume(line(l0))
        ex.oblige(z3.And(LE(l0) - LS(l0) == head, LS(l0 + 1) == b0), 'the header is a line of its own', 'post')
        S = ex.S.copy()
        ex.assume(z3.And(toz(k) < toz(R), LS(l0 + 1 + k) == row(k), rowfact(k), line(l0 + 1 + k)))
        if matrix:
            ex.assume((k + 1) * W == k * W + W)
        ex.oblige(z3.And(LE(l0 + 1 + k) - LS(l0 + 1 + k) == nc, LS(l0 + 2 + k) == row(k + 1)), 'a row is a line of its own (induction step)', 'post')
        ex.S = S
        ex.assume(z3.And(LS(l0 + 1 + R) == row(R), line(l0 + 1 + R)))
        ex.oblige(z3.And(LE(l0 + 1 + R) == LS(l0 + 1 + R), LS(l0 + 2 + R) == row(R) + 1), 'an empty line ends it, and the next variable begins a line', 'post')
    U.append(('lines of a matrix', lambda ex: u_lines(ex, 'matrix')))
    U.append(('lines of a string', lambda ex: u_lines(ex, 'string')))
    return U

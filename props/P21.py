import re
from frame import *
from P08 import cell, PT
import loops, prove, textfiles as tf
from stdlib import mkstr, sval

TITLE = 'Images'
HARNESS = dict(src='P21.cpp', link='all')
IS, RS, SS = z3.IntSort(), z3.RealSort(), z3.StringSort()
NAME = z3.String('name')
UI = Ty('int', 'unsigned int', bits=32, signed=False)
CM = 'ImageColormap'
CR, CG, CB = [z3.Function('table_' + c, IS, IS) for c in ('red', 'green', 'blue')]
VR = [z3.Function('colour_' + c, RS, IS) for c in ('red', 'green', 'blue')]
IMG = z3.Function('image', IS, RS)
INT_ = Ty('int', 'int', bits=32, signed=True)
COL = ('red', 'green', 'blue')


def load(b):
    b.load(['src/ImageGenerator/ImageGenerator.cpp', 'src/ImageGenerator/ImageGeneratorPPM.cpp', 'src/ImageGenerator/ImageGeneratorPNG.cpp'])


def fn(b, name, n=None, pred=lambda d: True):
    c = [d for d in b.prog.find_fn(name) if b.prog.body(d) and (n is None or len(params(d)) == n) and pred(d)]
    if len(c) != 1:
        raise Unsupported('%s: %d candidates' % (name, len(c)))
    return c[0]


def field(ex, o, name):
    f = ex.node(o.rid).f
    c = [r for k, r in f.items() if k.split('.')[-1] == name]
    if len(c) != 1:
        raise Unsupported('member ' + name)
    return LV(c[0])



def units(b):
    U = []
    ev = fn(b, CM + '::Eval', 1)
    sc = [n for n in b.prog.classes if n.startswith(CM + '::')][0]
    fs = {m: o + '.' + m for o, m, t, _, _ in b.prog.all_fields(sc)}

    def table(ex, n):
        i = z3.Int('i!')
        for f in (CR, CG, CB):
            ex.assume(z3.ForAll([i], z3.And(f(i) >= 0, f(i) <= 255), patterns=[f(i)]))
        return ex.put(SoA(sc, n, {fs[c]: ex.put(Arr(n, BaseArr(lambda i, g=g: g(toz(i))), UI), 'sub') for c, g in zip(COL, (CR, CG, CB))}), 'new[]')

    def cmap(ex):
        n = ex.fint('colours', 1)
        ex.assume(n < 2 ** 31)
        o = LV(ex.alloc_rec(CM, 'sym'))
        ex.write(field(ex, o, 'ncolors'), n)
        ex.write(field(ex, o, 'colors'), Ptr(table(ex, n), 0))
        return o, n

    def u_ctor(ex):
        n = ex.fint('colours', 0)
        ex.assume(n < 2 ** 31)
        t = table(ex, n)
        S0 = ex.S.copy()
        rid = ex.alloc_rec(CM, 'uninit', 'new')
        lo, hi = ex.freal('vmin'), ex.freal('vmax')
        c = [d for d in b.prog.classes[CM]['ctors'] if len(params(d)) == 4]
        ex.run_ctor(b.prog.definition(c[0]), LV(rid), [cell(ex, Ptr(t, 0)), cell(ex, n, UI), cell(ex, lo, REALT), cell(ex, hi, REALT)])
        o = LV(rid)
        ex.oblige(and_(eq(ex.read(field(ex, o, 'ncolors')), n), eq(ex.read(field(ex, o, 'vmin')), lo), eq(ex.read(field(ex, o, 'vmax')), hi)), 'number of colours and range', 'post')
        p = ex.read(field(ex, o, 'colors'))
        ex.oblige(p.rid != t, 'the colours are copied', 'post')
        i = ex.fint('i', 0)
        ex.assume(i < n)
        for c, g in zip(COL, (CR, CG, CB)):
            ex.oblige(eq(ex.read(LV(ex.node(p.rid).f[fs[c]], add(p.off, i))), g(i)), 'colours of the table', 'post')
        frame(ex, S0, ex.S)
    U.append(('a colormap holds its colours', u_ctor))

    def u_eval(ex):
        o, n = cmap(ex)
        lo, hi = [ex.read(field(ex, o, q)) for q in ('vmin', 'vmax')]
        ex.assume(lt(lo, hi))
        v = ex.freal('v')
        S0 = ex.S.copy()
        k, r = run_fn(ex, ev, o, [cell(ex, v, REALT)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        out = {c: toz(ex.read(field(ex, r, c))) for c in COL}
        lo, hi, v = toz(lo), toz(hi), toz(v)
        # a colour of the table on either side, in proportion to the distance
        l = ex.fint('l', 0)
        f = ex.freal('f')
        sv = ex.S.copy()
        for c, g in zip(COL, (CR, CG, CB)):
            ex.oblige(z3.Implies(v <= lo, out[c] == g(0)), 'lower end of the range', 'post')
            ex.oblige(z3.Implies(v >= hi, out[c] == g(n - 1)), 'upper end of the range', 'post')
            ex.oblige(z3.And(out[c] >= 0, out[c] <= 255), 'colours are within the range of the table', 'post')
        ex.assume(z3.And(lo < v, v < hi, n >= 2, l <= n - 2, f >= 0, f < 1, (v - lo) * (n - 1) == (l + f) * (hi - lo)))
        q = (v - lo) / (hi - lo)
        ex.lemma(z3.And(q * (hi - lo) == v - lo))
        ex.lemma(q * (n - 1) == l + f)
        ex.lemma(z3.ToInt(q * (n - 1)) == l)
        for c, g in zip(COL, (CR, CG, CB)):
            w = (1 - f) * g(l) + f * g(l + 1)
            ex.oblige(z3.And(out[c] <= w, w < out[c] + 1), 'linear between the two colours', 'post')
        ex.S = sv
        frame(ex, S0, ex.S)
    U.append(('colour of a value', u_eval))

    # ---- files
    def colour(ex, f, this, args):
        v = toz(ex.read(args[0]), True)
        r = LV(ex.alloc_rec(sc, 'uninit'))
        for c, g in zip(COL, VR):
            ex.write(field(ex, r, c), g(v))
        return r

    def image(ex):
        m, n = ex.fint('rows', 0), ex.fint('cols', 0)
        ex.assume(z3.And(m < 2 ** 31, n < 2 ** 31, m * n < 2 ** 32, m * n >= 0))
        p = z3.Real('x!')
        for g in VR:
            ex.assume(z3.ForAll([p], z3.And(g(p) >= 0, g(p) <= 255), patterns=[g(p)]))
        a = Ptr(ex.put(Arr(m * n, BaseArr(lambda i: IMG(toz(i))), REALT)), 0)
        ex.contracts[ev['_m']] = colour
        return m, n, a

    def u_ppm(ex):
        m, n, a = image(ex)
        o = LV(ex.alloc_rec('ImageGeneratorPPM', 'sym'))
        cm = ex.put(Rec(CM, {}), 'new')
        ex.S.ghost['ofstream'] = ()
        k, v = run_fn(ex, fn(b, 'ImageGeneratorPPM::SaveImage', 5), o, [LV(mkstr(ex, NAME).rid), cell(ex, a), cell(ex, m, UI), cell(ex, n, UI), cell(ex, Ptr(cm))])
        fs = ex.S.ghost['ofstream']
        ex.oblige(len(fs) == 1, 'one file is written', 'post')
        if len(fs) != 1:
            return
        nd = ex.S.mem[fs[0]]
        can = tf.CANOPEN(NAME, 16)
        if k == 'throw':
            ex.oblige(v == 'SOFTLibException', 'errors are reported by the exception of the library', 'post')
            ex.oblige(not_(can), 'fails only if the file cannot be written', 'post')
            return
        ex.oblige(can, 'a file that cannot be written is an error', 'post')
        ex.oblige(toz(nd.p['name']) == NAME, 'name of the file', 'post')

        def tok(i, kind, v, what):
            ex.oblige(eq(loops.DECIDED(ex, ex.node(nd.p['tk']).a, i), kind), what + ' (kind of text)', 'post')
            if kind == tf.NUM:
                ex.oblige(eq(toz(loops.DECIDED(ex, ex.node(nd.p['tn']).a, i), True), toz(v, True)), what + ' (value)', 'post')
            elif kind == tf.WORD:
                ex.oblige(toz(loops.DECIDED(ex, ex.node(nd.p['ts']).a, i)) == toz(v), what, 'post')
        for i, (kd, v, w) in enumerate(((tf.WORD, 'P3', 'signature'), (tf.NL, None, 'signature'), (tf.NUM, m, 'width'), (tf.NUM, n, 'height'), (tf.NL, None, 'size'), (tf.NUM, 255, 'largest colour value'), (tf.NL, None, 'largest colour value'))):
            tok(i, kd, v, w)
        i, j = ex.fint('i', 0), ex.fint('j', 0)
        W = 3 * m + 1
        ex.assume(z3.And(i < n, j < m, i * W + 3 * j + 2 < n * W, i * W + 3 * m < n * W, i * W >= 0, j * n + i < m * n))
        for c in range(3):
            tok(7 + i * W + 3 * j + c, tf.NUM, VR[c](IMG(j * n + i)), 'colour of a pixel')
        ex.oblige(eq(nd.p['size'], 7 + n * W), 'nothing else is written', 'post')
        ex.oblige(not_(nd.p['open']), 'the file is closed', 'post')
    U.append(('PPM file', u_ppm))

    def u_png(ex):
        m, n, a = image(ex)
        C = ex.contracts
        log = []
        ex.S.ghost['png'] = ()
        OPENS = z3.Bool('file_can_be_created')

        def ev_(nm, *x):
            ex.S.ghost['png'] = ex.S.ghost['png'] + ((nm,) + x,)
        pst, inf, fil, jb = [ex.put(Lib('opaque', {'kindname': q}), 'new') for q in ('png', 'info', 'FILE', 'jmp')]

        def fopen(ex, f, this, args):
            s = sval(ex, ex.read(args[0]))
            mode = sval(ex, ex.read(args[1]))
            ex.oblige(toz(s) == NAME, 'name of the file', 'post')
            ex.oblige(mode == 'wb', 'file is written as binary data', 'post')
            return Ptr(fil) if ex.branch(OPENS) else NULL
        C['fopen'] = fopen
        C['png_create_write_struct'] = lambda ex, f, this, args: Ptr(pst)
        C['png_create_info_struct'] = lambda ex, f, this, args: Ptr(inf)
        C['png_set_longjmp_fn'] = lambda ex, f, this, args: Ptr(jb)
        C['_setjmp'] = C['setjmp'] = lambda ex, f, this, args: 0

        def ihdr(ex, f, this, args):
            ev_('size', *[ex.read(q) for q in args[2:9]])
        C['png_set_IHDR'] = ihdr
        U8 = Ty('int', 'unsigned char', bits=8, signed=False)
        tab = ex.put(Arr(n, UninitArr(), Ty('ptr', '', sub=U8)), 'new')
        pool = ex.put(Arr(3 * m * n, UninitArr(), U8), 'new')
        used = ex.put(Cell(0, Ty('int', 'unsigned long', bits=64, signed=False)), 'static')
        first = ex.put(Cell(0, INT_), 'static')

        def malloc(ex, f, this, args):
            sz = ex.read(args[1])
            if ex.read(LV(first)) == 0:
                ex.write(LV(first), 1)
                ex.oblige(le(mul(8, n), sz), 'room for the rows', 'post')
                return Ptr(tab, 0)
            ex.oblige(le(mul(3, m), sz), 'room for a row', 'post')
            off = ex.read(LV(used))
            ex.write(LV(used), add(off, mul(3, m)))
            return Ptr(pool, off)
        C['png_malloc'] = malloc
        C['png_init_io'] = lambda ex, f, this, args: ev_('io', ex.read(args[1]))
        C['png_set_rows'] = lambda ex, f, this, args: ev_('rows', ex.read(args[2]))

        def write(ex, f, this, args):
            ev = dict((x[0], x[1:]) for x in ex.S.ghost['png'])
            ex.oblige(all(q in ev for q in ('size', 'io', 'rows')), 'size, file and rows are set before writing', 'post')
            if not all(q in ev for q in ('size', 'io', 'rows')):
                return
            w, h, depth, ct, il, _, _ = ev['size']
            ex.oblige(and_(eq(w, m), eq(h, n), eq(depth, 8), eq(ct, 2), eq(il, 0)), 'size and kind of the image', 'post')
            ex.oblige(ev['io'][0].rid == fil, 'written to the file', 'post')
            p = ev['rows'][0]
            ex.oblige(p.rid == tab, 'rows of the image', 'post')
            i, j = ex.fint('i', 0), ex.fint('j', 0)
            sv = ex.S.copy()
            ex.assume(z3.And(i < n, j < m, i * m + j < m * n, i * m + m <= m * n, i * m >= 0, j * n + i < m * n, j * n >= 0))
            q = ex.read(LV(p.rid, add(p.off, i)))
            for c in range(3):
                ex.oblige(eq(ex.read(LV(q.rid, add(q.off, 3 * j + c))), VR[c](IMG(j * n + i))), 'colour of a pixel', 'post')
            ex.S = sv
            ev_('written')
        C['png_write_png'] = write
        C['png_free'] = lambda ex, f, this, args: None
        C['png_destroy_write_struct'] = lambda ex, f, this, args: None

        def fclose(ex, f, this, args):
            ev_('closed', ex.read(args[0]))
            return 0
        C['fclose'] = fclose
        o = LV(ex.alloc_rec('ImageGeneratorPNG', 'sym'))
        cm = ex.put(Rec(CM, {}), 'new')
        k, v = run_fn(ex, fn(b, 'ImageGeneratorPNG::SaveImage', 5), o, [LV(mkstr(ex, NAME).rid), cell(ex, a), cell(ex, m, UI), cell(ex, n, UI), cell(ex, Ptr(cm))])
        if k == 'throw':
            ex.oblige(v == 'SOFTLibException', 'errors are reported by the exception of the library', 'post')
            ex.oblige(not_(OPENS), 'fails only if the file cannot be written', 'post')
            return
        ex.oblige(OPENS, 'a file that cannot be written is an error', 'post')
        ex.oblige([x[0] for x in ex.S.ghost['png'] if x[0] in ('written', 'closed')] == ['written', 'closed'], 'the image is written once and the file closed', 'post')
    U.append(('PNG file', u_png))

    # ---- selecting format and colours
    def u_gen(ex, byname):
        o = []
        kind = ex.fint('type', 0, 2 ** 31)
        cmv = ex.put(Rec(CM, {}), 'new') if not byname else None
        made = []
        for cl in ('ImageGeneratorPNG', 'ImageGeneratorPPM'):
            f = fn(b, cl + '::SaveImage', 5)

            def save(ex, f, this, args, cl=cl):
                ex.S.ghost['saved'] = ex.S.ghost.get('saved', ()) + ((cl, sval(ex, args[0]), [ex.read(q) for q in args[1:]], this.rid, {q: ex.read(field(ex, this, q)) for q in ('cmap_gerimap', 'cmap_gray')}),)
            ex.contracts[f['_m']] = save
        m, n = ex.fint('m', 0, 2 ** 31), ex.fint('n', 0, 2 ** 31)
        img = Ptr(ex.put(Arr(m * n, UninitArr(), REALT)), 0)
        f = fn(b, 'ImageGenerator::gen', 6, lambda d: ('ImageColormap *' in d['type']['qualType']) == (not byname))
        cm = ex.fint('colormap', 0, 2 ** 31) if byname else (Ptr(cmv) if ex.branch(z3.Bool('given')) else NULL)
        k, v = run_fn(ex, f, None, [cell(ex, kind, INT_), LV(mkstr(ex, NAME).rid), cell(ex, img), cell(ex, m, UI), cell(ex, n, UI), cell(ex, cm)])
        good = z3.Or(kind == 0, kind == 1)
        if byname:
            good = z3.And(good, z3.Or(cm == 0, cm == 1))
        if k == 'throw':
            ex.oblige(v == 'SOFTLibException', 'errors are reported by the exception of the library', 'post')
            ex.oblige(z3.Not(good), 'fails only for an unknown format or colormap', 'post')
            return
        ex.oblige(good, 'an unknown format or colormap is an error', 'post')
        s = ex.S.ghost.get('saved', ())
        ex.oblige(len(s) == 1, 'one image is saved', 'post')
        if len(s) != 1:
            return
        cl, nm, (im, rm, rn, rc), oid, maps = s[0]
        ex.oblige(kind == (0 if cl.endswith('PNG') else 1), 'format requested', 'post')
        ex.oblige(toz(nm) == NAME, 'name of the file', 'post')
        ex.oblige(and_(im.rid == img.rid, eq(im.off, 0), eq(rm, m), eq(rn, n)), 'the image given', 'post')
        if byname:
            ex.oblige(z3.Or(z3.And(cm == 0, rc.rid == maps['cmap_gerimap'].rid), z3.And(cm == 1, rc.rid == maps['cmap_gray'].rid)), 'the colormap requested', 'post')
        else:
            ex.oblige(rc.rid == (cmv if cm.rid is not None else maps['cmap_gerimap'].rid), 'the colormap given', 'post')
        if not byname and cm.rid is not None:
            return
        for q, tabl in (('cmap_gerimap', [(0, 0, 0), (38, 38, 128), (76, 38, 191), (153, 51, 128), (255, 64, 38), (230, 128, 0), (230, 191, 26), (230, 230, 128), (255, 255, 255)]), ('cmap_gray', [(0, 0, 0), (255, 255, 255)])):
            o = LV(maps[q].rid)
            ex.oblige(and_(eq(ex.read(field(ex, o, 'ncolors')), len(tabl)), eq(ex.read(field(ex, o, 'vmin')), 0), eq(ex.read(field(ex, o, 'vmax')), 1)), 'colormap %s' % q, 'post')
            p = ex.read(field(ex, o, 'colors'))
            for i, t in enumerate(tabl):
                e = ex.elem(p.rid, add(p.off, i))
                ex.oblige(and_(*[eq(ex.read(field(ex, e, c)), x) for c, x in zip(COL, t)]), 'colours of ' + q, 'post')
    U.append(('generating an image, colormap by name', lambda ex: u_gen(ex, True)))
    U.append(('generating an image, colormap given', lambda ex: u_gen(ex, False)))
    return U


ASSUME = ['double arithmetic treated as real arithmetic', 'libpng writes the rows it is given and does not report errors by longjmp', 'the stream library writes the text it is given']

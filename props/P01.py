from frame import *
import vecspec as V

TITLE = 'Vector algebra'
FILES = []
HARNESS = dict(src='P01.cpp', link=['src/General/SOFTLibException.cpp'])


def load(b):
    b.load([], {'p01.cpp': V.INST})
    b.symconst = {V.NV: V.N}


def setup(ex, b, f, kinds, cls, alias):
    ex.assume(V.N >= 1)
    ex.assume(V.N < 2 ** 31)
    this = None
    if f['_cls']:
        if f['kind'] == 'CXXConstructorDecl':
            this = LV(ex.alloc_rec(cls, 'uninit'))
        elif f.get('storageClass') == 'static':
            this = None
        else:
            this = LV(ex.alloc_rec(cls, 'sym', name='a'))
            V.setn(ex, this)
    args = []
    n = ex.symlen(int(cls.split('<')[1][:-1]))
    for i, (k, p) in enumerate(zip(kinds, params(f))):
        if k == 'v':
            if alias and i in alias:
                tgt = alias[i]
                args.append(this if tgt == 'this' else args[tgt])
                continue
            o = LV(ex.alloc_rec(cls, 'sym', name='b%d' % i))
            V.setn(ex, o)
            args.append(o)
        elif k == 'p':
            ty = REALT
            ln = ex.fint('plen', 0)
            off = ex.fint('poff', 0)
            ex.assume(le(add(off, n), ln))
            r = ex.put(Arr(ln, ex.sym_arr(ty, 'p'), ty), 'new[]')
            args.append(LV(ex.put(Cell(Ptr(r, off), Ty('ptr', sub=ty)))))
        elif k == 's':
            if alias and i in alias:
                # scalar argument aliases an element of the object
                j = ex.fint('alias_j', 0)
                ex.assume(lt(j, n))
                args.append(LV(V.el(ex, this), j))
                continue
            args.append(LV(ex.put(Cell(ex.freal('s'), REALT))))
    return this, args


def units(b):
    out = []
    for cls in (V.VEC, 'Vector<3>'):
        for label, q, kinds, spec in V.table(cls):
            if cls == 'Vector<3>' and 'Cross' not in label:
                continue
            if cls == 'Vector<3>':
                aliases = [None, {1: 0}] if len(kinds) == 2 else [None, {1: 0}, {2: 0}, {2: 1}, {1: 0, 2: 0}]
            else:
                aliases = [None]
                if kinds == ['v'] and q.startswith(cls) and '::Vector' not in q:
                    aliases.append({0: 'this'})
                if kinds == ['v', 'v']:
                    aliases.append({1: 0})
                if kinds == ['s'] and q.startswith(cls) and '::Vector' not in q and 'assignment' not in label:
                    aliases.append({0: 'this'})
            for al in aliases:
                def u(ex, q=q, kinds=kinds, spec=spec, al=al, cls=cls, label=label):
                    c = V.find(b, q, kinds, cls)
                    if len(c) != 1:
                        raise Unsupported('%s: %d candidates' % (label, len(c)))
                    f = c[0]
                    this, args = setup(ex, b, f, kinds, cls, al)
                    # callers use callee contracts except for the function itself
                    ex.contracts = {k: v for k, v in ex.contracts.items() if k != f['_m']}
                    refine(ex, f, this, args, spec, label)
                out.append(('%s [%s]%s' % (label, cls.replace('9973', 'N'), ' alias %s' % al if al else ''), u))
    # element access
    def acc(ex):
        for f in [d for d in b.prog.find_fn(V.VEC + '::operator[]') if b.prog.body(d)]:
            ex.assume(V.N >= 1)
            this = LV(ex.alloc_rec(V.VEC, 'sym', name='a'))
            V.setn(ex, this)
            i = ex.fint('i', 0)
            ex.assume(lt(i, V.N))
            S0 = ex.S.copy()
            k, v = run_fn(ex, f, this, [LV(ex.put(Cell(i, UINT)))])
            ex.oblige(k == 'ret' and isinstance(v, LV) and v.rid == V.el(ex, this), 'operator[] refers to an element of the vector', 'post')
            ex.oblige(eq(v.idx, i), 'operator[](i) is element i', 'post')
            frame(ex, S0, ex.S)
    out.append(('v[i] [Vector<N>]', acc))

    def size(ex):
        this = LV(ex.alloc_rec(V.VEC, 'uninit'))
        ex.assume(V.N >= 1)
        ex.assume(V.N < 2 ** 31)
        f = V.find(b, V.VEC + '::Vector', [], V.VEC)[0]
        run_fn(ex, f, this, [])
        k, v = run_fn(ex, b.fn(V.VEC + '::size'), this, [])
        ex.oblige(eq(v, V.N), 'size() is the dimension', 'post')
    out.append(('size() after construction [Vector<N>]', size))
    V.install(b, V.VEC)
    V.install(b, 'Vector<3>')
    return out


ASSUME = ['Vector element type double treated as mathematical reals', 'dimension N >= 1 and below 2^31']

from frame import *
import vecspec as V

TITLE = 'Matrix algebra'
HARNESS = dict(src='P02.cpp', link=['src/General/SOFTLibException.cpp'])
PM, PN, PK = 9973, 9967, 9949
M, N, K = z3.Int('M'), z3.Int('N'), z3.Int('K')
MN = 'Matrix<%d, %d>' % (PM, PN)
NK = 'Matrix<%d, %d>' % (PN, PK)
MK = 'Matrix<%d, %d>' % (PM, PK)
NN = 'Matrix<%d, %d>' % (PN, PN)
VM, VN = 'Vector<%d>' % PM, 'Vector<%d>' % PN
INST = '''
#include <softlib/Matrix.h>
typedef Matrix<9973,9967> A; typedef Matrix<9967,9949> B; typedef Matrix<9967,9967> Q;
typedef Vector<9973> VM; typedef Vector<9967> VN;
void h(A &a, A &b, const A &c, B &r, Q &q, VM &x, VN &y, double s, const double *p, const double **pp) {
  A a0; A a1(p); A a2(pp); A a3(c); A a4(x, y);
  a(0)=c(0); a(0,1)=c(0,1); a=b; a+=b; a+=s; a-=b; a-=s; a*=q; a*=s; A n = -a;
  A t1(a+b), t2(a+s), t3(s+a), t4(a-b), t5(a-s), t6(s-a), t7(a*s), t8(s*a);
  Matrix<9973,9949> t9(a*r); VM u(a*y); VN v(x*a); s = a.Rows()+a.Cols();
  q*=q; Q q2(q*q); q2=q;
}
'''


def load(b):
    b.load([], {'p02.cpp': INST})
    b.symconst = {PM: M, PN: N, PK: K, PM * PN: M * N, PN * PK: N * K, PM * PK: M * K, PN * PN: N * N}


def dims(ex):
    for x in (M, N, K):
        ex.assume(x >= 1)
        ex.assume(x < 65536)
    for x, y in ((M, N), (N, K), (M, K), (N, N)):
        ex.assume(x * y >= 1)
        ex.assume(x * y < 2 ** 32)


DIM = {MN: (M, N), NK: (N, K), MK: (M, K), NN: (N, N)}


def kind(prog, p):
    ty = prog.ty(p['type'])
    t = ty.sub if ty.k == 'ref' else ty
    if t.k == 'rec':
        return t.name
    if t.k == 'ptr':
        return 'pp' if t.sub.k == 'ptr' else 'p'
    return {'real': 's', 'int': 'i'}.get(t.k, '?')


def find(b, qual, kinds):
    c = [d for d in b.prog.find_fn(qual) if b.prog.body(d) and [kind(b.prog, p) for p in params(d)] == kinds]
    return c


def newobj(ex, cls, name, init='sym'):
    o = LV(ex.alloc_rec(cls, init, name=name))
    fix(ex, o)
    return o


def fix(ex, o):
    """dimension members"""
    nd = ex.node(o.rid)
    if nd.cls.startswith('Vector'):
        V.setn(ex, o)
        return
    m, n = DIM[nd.cls]
    for k, r in nd.f.items():
        if k.endswith('.m'):
            ex.setnode(r, Cell(m, UINT))
        if k.endswith('.n'):
            ex.setnode(r, Cell(n, UINT))


def mkargs(ex, f, kinds, this, alias):
    args = []
    for i, k in enumerate(kinds):
        if alias and i in alias:
            args.append(this if alias[i] == 'this' else args[alias[i]])
        elif k == 's':
            args.append(LV(ex.put(Cell(ex.freal('s'), REALT))))
        elif k == 'p':
            r = ex.put(Arr(M * N, ex.sym_arr(REALT, 'p'), REALT), 'new[]')
            args.append(LV(ex.put(Cell(Ptr(r, 0), Ty('ptr', sub=REALT)))))
        else:
            args.append(newobj(ex, k, 'b%d' % i))
    return args


# elementwise contracts, flat index p
def el(op):
    return lambda a, b: (lambda p: op(a(p), b(p)))


EW = [
    # label, function, kinds, target ('this' | result), element(p) from readers
    ('A = B', MN + '::operator=', [MN], 'this', lambda r: lambda p: r[0](p)),
    ('A += B', MN + '::operator+=', [MN], 'this', lambda r: lambda p: add(r['t'](p), r[0](p))),
    ('A += s', MN + '::operator+=', ['s'], 'this', lambda r: lambda p: add(r['t'](p), r[0])),
    ('A -= B', MN + '::operator-=', [MN], 'this', lambda r: lambda p: sub(r['t'](p), r[0](p))),
    ('A -= s', MN + '::operator-=', ['s'], 'this', lambda r: lambda p: sub(r['t'](p), r[0])),
    ('A *= s', MN + '::operator*=', ['s'], 'this', lambda r: lambda p: mul(r['t'](p), r[0])),
    ('zero constructor', MN + '::Matrix', [], 'ctor', lambda r: lambda p: Fraction(0)),
    ('constructor from flat array', MN + '::Matrix', ['p'], 'ctor', lambda r: lambda p: r[0](p)),
    ('copy constructor', MN + '::Matrix', [MN], 'ctor', lambda r: lambda p: r[0](p)),
    ('-A', MN + '::operator-', [], 'res', lambda r: lambda p: neg(r['t'](p))),
    ('A + B', 'operator+', [MN, MN], 'res', lambda r: lambda p: add(r[0](p), r[1](p))),
    ('A + s', 'operator+', [MN, 's'], 'res', lambda r: lambda p: add(r[0](p), r[1])),
    ('s + A', 'operator+', ['s', MN], 'res', lambda r: lambda p: add(r[0], r[1](p))),
    ('A - B', 'operator-', [MN, MN], 'res', lambda r: lambda p: sub(r[0](p), r[1](p))),
    ('A - s', 'operator-', [MN, 's'], 'res', lambda r: lambda p: sub(r[0](p), r[1])),
    ('s - A', 'operator-', ['s', MN], 'res', lambda r: lambda p: sub(r[0], r[1](p))),
    ('A * s', 'operator*', [MN, 's'], 'res', lambda r: lambda p: mul(r[0](p), r[1])),
    ('s * A', 'operator*', ['s', MN], 'res', lambda r: lambda p: mul(r[0], r[1](p))),
]


def readers(ex, this, args, kinds):
    r = {}
    if this is not None:
        r['t'] = V.at(ex, this)
    for i, k in enumerate(kinds):
        if k == 's':
            r[i] = ex.read(args[i])
        elif k == 'p':
            p = ex.read(args[i])
            a = ex.S.mem[p.rid].a
            r[i] = (lambda a, p: lambda j: loops.DECIDED(ex, a, add(p.off, j)))(a, p)
        elif k != 'pp':
            r[i] = V.at(ex, args[i])
    return r


def units(b):
    out = []

    def unit(label, q, kinds, tgt, elem, alias=None, rescls=None):
        def u(ex):
            dims(ex)
            c = find(b, q, kinds)
            if len(c) != 1:
                raise Unsupported('%s: %d candidates' % (label, len(c)))
            f = c[0]
            this = None
            if q.startswith('Matrix'):
                cls = q.split('::')[0]
                this = LV(ex.alloc_rec(cls, 'uninit')) if tgt == 'ctor' else newobj(ex, cls, 'a')
            args = mkargs(ex, f, kinds, this, alias)
            r = readers(ex, this, args, kinds) if tgt != 'ctor' else readers(ex, None, args, kinds)
            want = elem(r)
            S0 = ex.S.copy()
            k, v = run_fn(ex, f, this, args)
            ex.oblige(k == 'ret', '%s: returns normally' % label, 'post')
            target = v if tgt == 'res' else this
            if tgt == 'this':
                ex.oblige(isinstance(v, LV) and v.rid == this.rid, '%s: returns the object itself' % label, 'post')
            chg = [] if tgt == 'res' else [V.el(ex, this)] + ([] if tgt == 'this' else [x for kk, x in ex.node(this.rid).f.items()])
            i, j = ex.fint('i', 0), ex.fint('j', 0)
            cls = ex.node(target.rid).cls
            m, n = DIM[cls] if cls in DIM else (DIMV[cls], 1)
            ex.assume(lt(i, m))
            ex.assume(lt(j, n))
            p = add(mul(i, n), j)
            # a consequence of i<m, j<n (integer arithmetic): stated so that the solver need not find it
            ex.lemma(and_(le(0, mul(i, n)), le(add(mul(i, n), n), mul(m, n)))) if cls in DIM else None
            if cls not in DIM:
                p = i
            got = V.at(ex, target)(p)
            w = want(p) if not getattr(elem, 'two', False) else want(i, j)
            ex.oblige(eqval(ex, got, w), '%s: element (i,j) for every i,j' % label, 'post')
            if tgt != 'ctor':
                frame(ex, S0, ex.S, chg, '%s: nothing else changes' % label)
        out.append((label + (' alias %s' % alias if alias else ''), u))

    DIMV = {VM: M, VN: N}
    for label, q, kinds, tgt, elem in EW:
        unit(label, q, kinds, tgt, elem)
        if tgt == 'this' and kinds == [MN]:
            unit(label, q, kinds, tgt, elem, {0: 'this'})
        if tgt == 'res' and kinds == [MN, MN]:
            unit(label, q, kinds, tgt, elem, {1: 0})

    def two(f):
        f.two = True
        return f

    def outer(r):
        return lambda i, j: mul(r[0](i), r[1](j))

    unit('constructor A = x y^T', MN + '::Matrix', [VM, VN], 'ctor', two(outer))
    ctr = [0]

    def prod(cols_l, cols_r):
        def g(r):
            def h(i, j):
                k = z3.Int('kprod')
                return Sums.mk(k, mul(r[0](add(mul(i, cols_l), k)), r[1](add(mul(k, cols_r), j))), cols_l)
            return h
        return two(g)

    def matvec(r):
        def h(p):
            k = z3.Int('kprod')
            return Sums.mk(k, mul(r[0](add(mul(p, N), k)), r[1](k)), N)
        return h

    def vecmat(r):
        def h(p):
            k = z3.Int('kprod')
            return Sums.mk(k, mul(r[0](k), r[1](add(mul(k, N), p))), M)
        return h
    unit('A * B', 'operator*', [MN, NK], 'res', prod(N, K))
    unit('A * Q', 'operator*', [MN, NN], 'res', prod(N, N))
    unit('Q * R (square)', 'operator*', [NN, NN], 'res', prod(N, N))
    unit('Q * Q (square)', 'operator*', [NN, NN], 'res', prod(N, N), {1: 0})
    unit('A * x', 'operator*', [MN, VN], 'res', matvec)
    unit('x * A', 'operator*', [VM, MN], 'res', vecmat)

    def s_prod(ex, f, this, args):
        """callee contract of the matrix product (proved by the units above)"""
        l, r = V.at(ex, args[0]), V.at(ex, args[1])
        (m, n), (_, c) = DIM[ex.node(args[0].rid).cls], DIM[ex.node(args[1].rid).cls]
        res = [k for k, d in DIM.items() if d[0] is m and d[1] is c][0]
        o = newobj(ex, res, 'prod', 'uninit')

        def f(p):
            q = loops.sdiv(ex, p, c)
            k = z3.Int('kprod')
            return Sums.mk(k, mul(l(add(mul(q, n), k)), r(add(mul(k, c), sub(p, mul(q, c))))), n)
        nd = V.A(ex, o)
        ex.setnode(V.el(ex, o), Arr(nd.n, MapArr(0, nd.n, f, nd.a), nd.ty))
        return o
    for kk in ([MN, NN], [NN, NN]):
        for d in find(b, 'operator*', kk):
            b.contracts[d['_m']] = s_prod

    def prodassign(r):
        def h(i, j):
            k = z3.Int('kprod')
            return Sums.mk(k, mul(r['t'](add(mul(i, N), k)), r[0](add(mul(k, N), j))), N)
        return h
    unit('A *= Q', MN + '::operator*=', [NN], 'this', two(prodassign))
    unit('Q *= R (square)', NN + '::operator*=', [NN], 'this', two(prodassign))
    unit('Q *= Q (square)', NN + '::operator*=', [NN], 'this', two(prodassign), {0: 'this'})

    def acc(ex):
        dims(ex)
        for q, np in ((MN + '::operator()', 1), (MN + '::operator()', 2)):
            for f in [d for d in b.prog.find_fn(q, np) if b.prog.body(d)]:
                this = newobj(ex, MN, 'a')
                i, j = ex.fint('i', 0), ex.fint('j', 0)
                if np == 1:
                    ex.assume(lt(i, M * N))
                    args, want = [i], i
                else:
                    ex.assume(lt(i, M))
                    ex.assume(lt(j, N))
                    ex.lemma(and_(le(0, mul(i, N)), le(add(mul(i, N), N), mul(M, N))))
                    args, want = [i, j], add(mul(i, N), j)
                S0 = ex.S.copy()
                k, v = run_fn(ex, f, this, [LV(ex.put(Cell(x, UINT))) for x in args])
                ex.oblige(k == 'ret' and isinstance(v, LV) and v.rid == V.el(ex, this), 'A(i,j) refers to an element of the matrix', 'post')
                ex.oblige(eq(v.idx, want), 'A(i,j) is the element in row i and column j', 'post')
                frame(ex, S0, ex.S)
    out.append(('A(i,j), A(i)', acc))

    def rc(ex):
        dims(ex)
        this = newobj(ex, MN, 'a')
        ex.oblige(eq(run_fn(ex, b.fn(MN + '::Rows'), this, [])[1], M), 'Rows() is M', 'post')
        ex.oblige(eq(run_fn(ex, b.fn(MN + '::Cols'), this, [])[1], N), 'Cols() is N', 'post')
    out.append(('Rows/Cols', rc))
    return out


ASSUME = ['matrix elements (double) are mathematical reals', '1 <= M,N,K < 65536 (so that M*N fits an unsigned int)',
          'vector functions used here are taken at their bodies (inlined); their contracts are property P01']

"""Contracts of the Vector class template (all dimensions N), written as executable
specifications over abstract states.  Used (a) as postconditions of the real bodies
(property P01) and (b) as the callee contracts at call sites in other properties."""
import z3
from frame import *

NV = 9973
N = z3.Int('N')
VEC = 'Vector<%d>' % NV
INST = '''
#include <softlib/Vector.h>
typedef Vector<9973> V;
void h(V &a, V &b, const V &cc, double s, double *p) {
    V v0; V v1(p); V v2(a); a[0]=b[0]; s=cc[0]; a=b; a=p; a=s; a+=b; a+=s; a-=b; a-=s; a*=s; a/=s; V v3=-a;
    s=a.Dot(b)+a.Norm(); a.Normalize(); a.ToArray(p); s+=a.size();
    V w; w=a+b; w=a+s; w=s+a; w=a-b; w=a-s; w=s-a; w=a*s; w=s*a; w=a/s;
}
typedef Vector<3> V3;
void h3(V3 &a, V3 &b, V3 &c, double s, double *p) {
    V3 v0; V3 v1(p); V3 v2(a); a[0]=b[0]; a=b; a=p; a=s; a+=b; a+=s; a-=b; a-=s; a*=s; a/=s; V3 v3=-a;
    s=a.Dot(b)+a.Norm(); a.Normalize(); a.ToArray(p);
    V3 w; w=a+b; w=a+s; w=s+a; w=a-b; w=a-s; w=s-a; w=a*s; w=s*a; w=a/s;
    c = V3::Cross(a,b); V3::Cross(a,b,c);
}
void h2(Vector<2> &a, Vector<2> &b, Vector<2> &c) { }
'''


def el(ex, v):
    """rid of the elems array"""
    return ex.fld(v, 'elems').rid


def A(ex, v):
    nd = ex.S.mem[el(ex, v)]
    return nd


def at(ex, v):
    """function k -> element of v in the current state"""
    a = A(ex, v).a
    return lambda k: loops.DECIDED(ex, a, k)


def setall(ex, v, f):
    nd = A(ex, v)
    base = nd.a
    ex.setnode(el(ex, v), Arr(nd.n, MapArr(0, nd.n, f, base), nd.ty))


def lazy(f):
    return f


def newvec(ex, cls, f):
    rid = ex.alloc_rec(cls, 'uninit')
    nd = ex.node(rid)
    ln = A(ex, LV(rid)).n
    for k, r in nd.f.items():
        if k.endswith('.n'):
            ex.S.mem[r] = Cell(ln, UINT)
    setall(ex, LV(rid), f)
    return LV(rid)


def clsof(ex, v):
    return ex.node(v.rid).cls


def rd(ex, a):
    """scalar argument"""
    return ex.read(a)


def dim(ex, v):
    return A(ex, v).n


# ------------------------------------------------------------------ specs
def s_ctor0(ex, f, this, args):
    setn(ex, this)
    setall(ex, this, lambda k: Fraction(0))
    return this


def setn(ex, this):
    nd = ex.node(this.rid)
    for k, r in nd.f.items():
        if k.endswith('.n'):
            ex.setnode(r, Cell(dim(ex, this), UINT))


def s_ctor_ptr(ex, f, this, args):
    p = rd(ex, args[0])
    need(ex, p, dim(ex, this))
    src = ex.S.mem[p.rid].a
    off = p.off
    setn(ex, this)
    setall(ex, this, lambda k: loops.DECIDED(ex, src, add(off, k)))
    return this


def need(ex, p, n):
    """precondition: p points at n readable elements"""
    if p.rid is None:
        ex.oblige(False, 'argument is not null', 'pre')
    nd = ex.S.mem[p.rid]
    ex.oblige(and_(le(0, p.off), le(add(p.off, n), nd.n)), 'callee precondition: array long enough', 'pre')


def s_copy(ex, f, this, args):
    a = at(ex, args[0])
    setn(ex, this)
    setall(ex, this, a)
    return this


def s_assign(ex, f, this, args):
    a = at(ex, args[0])
    setall(ex, this, a)
    return this


def s_assign_ptr(ex, f, this, args):
    p = rd(ex, args[0])
    need(ex, p, dim(ex, this))
    src, off = ex.S.mem[p.rid].a, p.off
    setall(ex, this, lambda k: loops.DECIDED(ex, src, add(off, k)))
    return this


def s_assign_s(ex, f, this, args):
    s = rd(ex, args[0])
    setall(ex, this, lambda k: s)
    return this


def s_opassign(op):
    def g(ex, f, this, args):
        a = at(ex, this)
        b = at(ex, args[0])
        setall(ex, this, lambda k: op(a(k), b(k)))
        return this
    return g


def s_opassign_s(op):
    def g(ex, f, this, args):
        a = at(ex, this)
        s = rd(ex, args[0])
        setall(ex, this, lambda k: op(a(k), s))
        return this
    return g


def s_neg(ex, f, this, args):
    a = at(ex, this)
    return newvec(ex, clsof(ex, this), lambda k: neg(a(k)))


def vsum(ex, n, g):
    if isinstance(n, int):
        r = Fraction(0)
        for i in range(n):
            r = add(r, g(i))
        return r
    k = ex.fresh('ks', z3.IntSort())
    return Sums.mk(k, g(k), n)


def s_dot(ex, f, this, args):
    a, b = at(ex, this), at(ex, args[0])
    return vsum(ex, dim(ex, this), lambda k: mul(a(k), b(k)))


def s_norm(ex, f, this, args):
    a = at(ex, this)
    s = vsum(ex, dim(ex, this), lambda k: mul(a(k), a(k)))
    if isinstance(s, Z):
        ex.assume(toz(s, True) >= 0)      # sum of squares (checked: every summand is a square)
    return lib.rsqrt(ex, s)


def s_normalize(ex, f, this, args):
    nrm = s_norm(ex, f, this, args)
    a = at(ex, this)
    setall(ex, this, lambda k: div(a(k), nrm))
    return None


def s_toarray(ex, f, this, args):
    p = rd(ex, args[0])
    need(ex, p, dim(ex, this))
    a = at(ex, this)
    nd = ex.S.mem[p.rid]
    n = dim(ex, this)
    off = p.off
    ex.setnode(p.rid, Arr(nd.n, MapArr(off, add(off, n), lambda k: a(sub(k, off)), nd.a), nd.ty))
    return None


def s_size(ex, f, this, args):
    return dim(ex, this)


def s_bin(op):
    def g(ex, f, this, args):
        a, b = at(ex, args[0]), at(ex, args[1])
        return newvec(ex, clsof(ex, args[0]), lambda k: op(a(k), b(k)))
    return g


def s_bin_vs(op):
    def g(ex, f, this, args):
        a = at(ex, args[0])
        s = rd(ex, args[1])
        return newvec(ex, clsof(ex, args[0]), lambda k: op(a(k), s))
    return g


def s_bin_sv(op):
    def g(ex, f, this, args):
        s = rd(ex, args[0])
        b = at(ex, args[1])
        return newvec(ex, clsof(ex, args[1]), lambda k: op(s, b(k)))
    return g


def cross(a, b):
    return [sub(mul(a(1), b(2)), mul(a(2), b(1))), sub(mul(a(2), b(0)), mul(a(0), b(2))), sub(mul(a(0), b(1)), mul(a(1), b(0)))]


def pick(c):
    return lambda k: c[k] if isinstance(k, int) else ite(eq(k, 0), c[0], ite(eq(k, 1), c[1], c[2]))


def s_cross2(ex, f, this, args):
    c = cross(at(ex, args[0]), at(ex, args[1]))
    return newvec(ex, clsof(ex, args[0]), pick(c))


def s_cross3(ex, f, this, args):
    c = cross(at(ex, args[0]), at(ex, args[1]))
    setall(ex, args[2], pick(c))
    return args[2]


def vdiv(a, s):
    return div(a, s)


def table(V):
    """[(label, qualified name, signature test, spec)]"""
    n = V.split('<')[1][:-1]
    W = 'Vector<%sU,double>' % n
    isV = lambda t: t.replace(' ', '').replace('const', '').startswith('Vector<')
    out = [
        ('default constructor', V + '::Vector', [], s_ctor0),
        ('constructor from array', V + '::Vector', ['p'], s_ctor_ptr),
        ('copy constructor', V + '::Vector', ['v'], s_copy),
        ('assignment', V + '::operator=', ['v'], s_assign),
        ('assignment from array', V + '::operator=', ['p'], s_assign_ptr),
        ('assignment of scalar', V + '::operator=', ['s'], s_assign_s),
        ('v += w', V + '::operator+=', ['v'], s_opassign(add)),
        ('v += s', V + '::operator+=', ['s'], s_opassign_s(add)),
        ('v -= w', V + '::operator-=', ['v'], s_opassign(sub)),
        ('v -= s', V + '::operator-=', ['s'], s_opassign_s(sub)),
        ('v *= s', V + '::operator*=', ['s'], s_opassign_s(mul)),
        ('v /= s', V + '::operator/=', ['s'], s_opassign_s(div)),
        ('-v', V + '::operator-', [], s_neg),
        ('v.Dot(w)', V + '::Dot', ['v'], s_dot),
        ('v.Norm()', V + '::Norm', [], s_norm),
        ('v.Normalize()', V + '::Normalize', [], s_normalize),
        ('v.ToArray(a)', V + '::ToArray', ['p'], s_toarray),
        ('v + w', 'operator+', ['v', 'v'], s_bin(add)),
        ('v + s', 'operator+', ['v', 's'], s_bin_vs(add)),
        ('s + v', 'operator+', ['s', 'v'], s_bin_sv(add)),
        ('v - w', 'operator-', ['v', 'v'], s_bin(sub)),
        ('v - s', 'operator-', ['v', 's'], s_bin_vs(sub)),
        ('s - v', 'operator-', ['s', 'v'], s_bin_sv(sub)),
        ('v * s', 'operator*', ['v', 's'], s_bin_vs(mul)),
        ('s * v', 'operator*', ['s', 'v'], s_bin_sv(mul)),
        ('v / s', 'operator/', ['v', 's'], s_bin_vs(div)),
    ]
    if n == '3':
        out += [('Cross(a,b)', V + '::Cross', ['v', 'v'], s_cross2), ('Cross(a,b,c)', V + '::Cross', ['v', 'v', 'v'], s_cross3)]
    return out


def pkind(prog, p):
    ty = prog.ty(p['type'])
    t = ty.sub if ty.k == 'ref' else ty
    return {'ptr': 'p', 'rec': 'v', 'real': 's', 'int': 'i'}.get(t.k, '?')


def find(b, qual, kinds, V):
    out = []
    for d in b.prog.find_fn(qual):
        if not b.prog.body(d):
            continue
        ps = params(d)
        if [pkind(b.prog, p) for p in ps] != kinds:
            continue
        # free operators: instantiation for this class
        vs = [b.prog.ty(p['type']) for p in ps]
        vs = [(t.sub if t.k == 'ref' else t).name for t in vs if (t.sub if t.k == 'ref' else t).k == 'rec']
        if not qual.startswith(V) and any(x != V for x in vs):
            continue
        out.append(d)
    return out


def install(b, V):
    """register the contracts for call sites"""
    for label, q, kinds, spec in table(V):
        for d in find(b, q, kinds, V):
            b.contracts[d['_m']] = spec

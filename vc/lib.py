"""Models (assumed contracts) of library functions and classes."""
import re
from fractions import Fraction
import z3
from terms import *
from values import *
from program import Ty
import prove
from prove import FN

REAL1 = {'sin', 'cos', 'tan', 'exp', 'log', 'atan', 'asin', 'acos', 'sinh', 'cosh', 'tanh', 'log10', 'cbrt', 'expm1', 'log1p',
         'gsl_sf_bessel_J0', 'tgamma', 'lgamma', 'erf', 'floor', 'ceil', 'round'}


INF = z3.Real('+infinity')


class LibModel:
    def __init__(self):
        self.fns = {}
        self.methods = {}
        self.ops = {}
        self.ctors = {}
        self.defaults = {}
        self.members = {}
        self.globals = {}

    # ---- registration
    def fn(self, *names):
        def deco(f):
            for n in names:
                self.fns[n] = f
            return f
        return deco

    def meth(self, kind, *names):
        def deco(f):
            for n in names:
                self.methods[(kind, n)] = f
            return f
        return deco

    # ---- kinds
    @staticmethod
    def kind(ty):
        s = ty.name if isinstance(ty, Ty) else ty
        s = s.replace('std::', '').replace('__cxx11::', '')
        if s.startswith('basic_string<char') or s == 'string':
            return 'string'
        m = re.match(r'^(\w+(::\w+)*)', s)
        base = m.group(1)
        return base

    @staticmethod
    def targs(ty):
        s = ty.name
        i = s.find('<')
        if i < 0:
            return []
        body = s[i + 1:s.rindex('>')]
        out, d, cur = [], 0, ''
        for ch in body:
            if ch == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
                continue
            if ch in '<(':
                d += 1
            elif ch in '>)':
                d -= 1
            cur += ch
        out.append(cur.strip())
        return out

    def default(self, ex, ty, init, name):
        k = self.kind(ty)
        f = self.defaults.get(k)
        if f is None:
            return Lib('opaque', {'kindname': k}, ty)
        return f(ex, ty, init, name)

    def copy(self, ex, nd):
        f = getattr(self, 'copy_' + nd.kind, None)
        return f(ex, nd) if f else nd

    # ---- dispatch
    def args(self, ex, nodes):
        out = []
        for a in nodes:
            v = ex.ev(a)
            if isinstance(v, LV):
                w = ex.S.mem.get(v.rid)
                if isinstance(w, Cell) or v.idx is not None:
                    v = ex.read(v)
            out.append(v)
        return out

    def call(self, ex, name, nodes, n, rd):
        c = ex.contracts.get(name)
        if c is not None:
            ex.used_contracts.add(name + ' (external, assumed)')
            return c(ex, rd, None, [LV(ex.put(Cell(v, None))) if not isinstance(v, LV) else v for v in self.args(ex, nodes)])
        f = self.fns.get(name)
        if f is not None:
            return f(ex, nodes, n)
        if name in REAL1:
            a = self.args(ex, nodes)
            return real1(ex, name, a[0])
        raise Unsupported('library function ' + name)

    def method(self, ex, this, name, nodes, n):
        nd = ex.node(this.rid)
        if this.idx is not None:
            # element of a container: value model
            k = 'elem'
        elif isinstance(nd, Lib):
            k = nd.kind
        elif isinstance(nd, Cell):
            k = 'cell'
        elif isinstance(nd, Rec):
            k = 'rec'
        else:
            k = type(nd).__name__
        f = self.methods.get((k, name)) or self.methods.get(('*', name))
        if f is None:
            raise Unsupported('library method %s::%s' % (k, name))
        ex.used_lib.add('%s::%s' % (k, name))
        return f(ex, this, nodes, n)

    def operator(self, ex, name, nodes, n, rd):
        f = self.ops.get(name)
        if f is None:
            raise Unsupported('library operator ' + name)
        return f(ex, nodes, n)

    def construct(self, ex, ty, nodes, n):
        k = self.kind(ty)
        f = self.ctors.get(k)
        if f is None:
            raise Unsupported('library constructor ' + k)
        ex.used_lib.add(k + ' ctor')
        return f(ex, ty, nodes, n)

    def member(self, ex, lv, name):
        nd = ex.node(lv.rid)
        if isinstance(nd, Lib):
            f = self.members.get((nd.kind, name))
            if f:
                return f(ex, lv, nd)
        return None

    def nan(self, ex):
        """a value of its own; properties assume of the numbers they speak about that they differ from it"""
        return z3.Real('not_a_number')

    def global_var(self, ex, name):
        f = self.globals.get(name)
        if f is None and name.startswith('gsl_'):       # library constant: an opaque handle
            key = ('g', name)
            if key not in ex.S.ghost:
                ti = Ty('int', 'int', bits=32, signed=True)
                h = ex.put(Cell(0, ti), 'static')
                ex.S.ghost[key] = LV(ex.put(Cell(Ptr(h, 0), Ty('ptr', sub=ti)), 'static'))
            return ex.S.ghost[key]
        return f(ex) if f else None

    def read_elem(self, ex, lv, nd):
        if nd.kind in ('vector', 'string'):
            return read_seq(ex, lv, nd)
        raise Unsupported('element of ' + nd.kind)

    def write_elem(self, ex, lv, nd, v):
        if nd.kind == 'vector':
            ex.oblige(and_(le(0, lv.idx), lt(lv.idx, nd.p['size'])), 'vector index within bounds (write)')
            ex.setnode(lv.rid, nd.w(a=nd.p['a'].store(lv.idx, ex.conv(v, self.elem_ty(nd)))))
            return
        if nd.kind == 'string':
            raise Unsupported('string element write')
        raise Unsupported('element of ' + nd.kind)

    def elem_ty(self, nd):
        return nd.p['ety']

    def elem_lv(self, ex, rid, nd, idx):
        if nd.kind == 'vector' and 'els' in nd.p:
            i = simp(idx)
            els = nd.p['els']
            if isinstance(i, int):
                if not 0 <= i < len(els):
                    ex.oblige(False, 'vector index within bounds')
                return LV(els[i])
            for j in range(len(els)):
                if ex.branch(eq(i, j)):
                    return LV(els[j])
            ex.oblige(False, 'vector index within bounds')
        if nd.kind == 'vector' and self.is_str(nd.p['ety']):
            # an element of a vector of strings: readable only
            ex.oblige(and_(le(0, idx), lt(idx, nd.p['size'])), 'vector index within bounds')
            v = nd.p['a'].get(idx)
            if isinstance(v, Uninit):
                raise Unsupported('vector element')
            return LV(ex.put(Lib('string', {'s': v, 'ro': True}, nd.p['ety'])))
        return None

    @staticmethod
    def is_str(ty):
        return ty.k == 'lib' and LibModel.kind(ty) == 'string'

    def elem_field(self, ex, lv, nd, fo):
        raise Unsupported('field of container element')

    def new_array(self, ex, ty, ln):
        return None


def int_range(ty):
    if ty.signed:
        return -(1 << (ty.bits - 1)), (1 << (ty.bits - 1)) - 1
    return 0, (1 << ty.bits) - 1


def read_seq(ex, lv, nd):
    if nd.kind == 'vector':
        ex.oblige(and_(le(0, lv.idx), lt(lv.idx, nd.p['size'])), 'vector index within bounds (read)')
        return ex.chk_init(ex.aget(nd.p['a'], lv.idx))
    if 'chars' in nd.p:
        ex.oblige(and_(le(0, lv.idx), le(lv.idx, nd.p['len'])), 'string index within bounds')
        return ite(lt(lv.idx, nd.p['len']), nd.p['chars'](lv.idx), 0)
    s = toz(nd.p['s'])
    ex.oblige(and_(le(0, lv.idx), le(lv.idx, z3.Length(s))), 'string index within bounds')
    return z3.If(toz(lv.idx) < z3.Length(s), z3.StrToCode(z3.SubString(s, toz(lv.idx), 1)), z3.IntVal(0))


# --------------------------------------------------------------- real functions
def real1(ex, name, x):
    if is_conc(x):
        x = Fraction(x)
        if x == 0:
            c = {'sin': 0, 'tan': 0, 'cos': 1, 'exp': 1, 'sinh': 0, 'cosh': 1, 'tanh': 0, 'atan': 0, 'asin': 0, 'gsl_sf_bessel_J0': 1, 'expm1': 0, 'log1p': 0, 'floor': 0, 'ceil': 0, 'round': 0}.get(name)
            if c is not None:
                return Fraction(c)
        if name == 'log' and x == 1:
            return Fraction(0)
    z = toz(x, True)
    if name == 'floor':
        return z3.ToReal(z3.ToInt(z)) if not is_conc(x) else Fraction(x.numerator // x.denominator)
    if name == 'ceil':
        return -z3.ToReal(z3.ToInt(-z)) if not is_conc(x) else Fraction(-((-x.numerator) // x.denominator))
    if name == 'round':
        return z3.If(z >= 0, z3.ToReal(z3.ToInt(z + z3.Q(1, 2))), -z3.ToReal(z3.ToInt(-z + z3.Q(1, 2))))
    r = FN(name)(z)
    if name == 'sin' or name == 'cos':
        s, c = FN('sin')(z), FN('cos')(z)
        ex.assume(s * s + c * c == 1)
    elif name == 'exp':
        ex.assume(r > 0)
        ex.assume(z3.And(z3.Implies(z < 0, r < 1), z3.Implies(z > 0, r > 1), z3.Implies(z == 0, r == 1)))
    elif name == 'cosh':
        ex.assume(r >= 1)
    elif name == 'asin' or name == 'atan':
        ex.assume(z3.And(r >= z3.Q(-158, 100), r <= z3.Q(158, 100)))
    elif name == 'acos':
        ex.assume(z3.And(r >= 0, r <= z3.Q(315, 100)))
    return r


def rsqrt(ex, x):
    if is_conc(x):
        import math
        f = Fraction(x)
        if f >= 0:
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return Fraction(a, b)
    z = toz(x, True)
    r = FN('sqrt')(z)
    ex.assume(z3.Implies(z >= 0, z3.And(r >= 0, r * r == z)))
    return r


def make_lib():
    L = LibModel()

    @L.fn('sqrt', 'sqrtf')
    def _(ex, nodes, n):
        return rsqrt(ex, L.args(ex, nodes)[0])

    @L.fn('hypot')
    def _(ex, nodes, n):
        a = L.args(ex, nodes)
        return rsqrt(ex, add(mul(a[0], a[0]), mul(a[1], a[1])))

    @L.fn('fabs', 'abs', 'labs')
    def _(ex, nodes, n):
        x = L.args(ex, nodes)[0]
        ty = ex.prog.ty(n['type'])
        if is_conc(x):
            return abs(x)
        return z3.If(toz(x) >= 0, toz(x), -toz(x))

    @L.fn('norm')
    def _(ex, nodes, n):
        x = L.args(ex, nodes)[0]
        if not isinstance(x, (int, Fraction, Z)):
            raise Unsupported('norm')
        return mul(x, x)

    @L.fn('pow')
    def _(ex, nodes, n):
        a, b = L.args(ex, nodes)
        if is_conc(b) and Fraction(b).denominator == 1 and abs(b) <= 12:
            e = int(b)
            r = Fraction(1)
            for _ in range(abs(e)):
                r = mul(r, a)
            return r if e >= 0 else div(Fraction(1), r)
        if is_conc(b) and Fraction(b) == Fraction(1, 2):
            return rsqrt(ex, a)
        x, y = toz(a, True), toz(b, True)
        r = FN('pow', 2)(x, y)
        ex.assume(z3.Implies(x > 0, r > 0))
        ex.assume(z3.Implies(x >= 0, r >= 0))
        ex.assume(z3.Implies(y == 0, r == 1))
        ex.assume(z3.Implies(y == 1, r == x))
        ex.assume(z3.Implies(z3.And(x >= 0, x <= 1, y >= 0), r <= 1))
        ex.assume(z3.Implies(z3.And(x >= 1, y >= 0), r >= 1))
        ex.assume(z3.Implies(z3.And(x == 0, y > 0), r == 0))
        ex.assume(z3.Implies(z3.And(x > 0, x <= 1, y <= 0), r >= 1))
        ex.assume(z3.Implies(z3.And(x >= 1, y <= 0), r <= 1))
        return r

    @L.fn('atan2')
    def _(ex, nodes, n):
        a, b = L.args(ex, nodes)
        return FN('atan2', 2)(toz(a, True), toz(b, True))

    @L.fn('fmod')
    def _(ex, nodes, n):
        a, b = L.args(ex, nodes)
        return FN('fmod', 2)(toz(a, True), toz(b, True))

    @L.fn('nan', 'nanf')
    def _(ex, nodes, n):
        return L.nan(ex)

    @L.fn('infinity')
    def _(ex, nodes, n):
        return INF

    @L.fn('isnan', 'isinf', '__isnan')
    def _(ex, nodes, n):
        L.args(ex, nodes)
        return False

    @L.fn('epsilon')
    def _(ex, nodes, n):
        return Fraction(1, 2 ** 52)

    @L.fn('max', 'min', 'fmax', 'fmin')
    def _(ex, nodes, n):
        if not nodes:
            ty = ex.prog.ty(n['type'])
            if ty.k != 'int':
                raise Unsupported('numeric_limits of %r' % ty)
            nm = n['inner'][0]
            while nm['kind'] != 'DeclRefExpr':
                nm = nm['inner'][0]
            lo, hi = int_range(ty)
            return hi if nm['referencedDecl']['name'] == 'max' else lo
        x = [ex.read(ex.lval(a)) if a.get('valueCategory') in ('lvalue', 'xvalue') else ex.ev(a) for a in nodes]
        x = [ex.read(v) if isinstance(v, LV) else v for v in x]
        nm = n['inner'][0]
        while nm['kind'] != 'DeclRefExpr':
            nm = nm['inner'][0]
        nm = nm['referencedDecl']['name']
        a, b = x
        return ite(lt(a, b), b, a) if 'max' in nm else ite(lt(b, a), b, a)

    import stdlib
    stdlib.install(L)
    import streams
    streams.install(L)
    import textfiles
    textfiles.install(L)
    import hdf5
    hdf5.install(L)
    return L

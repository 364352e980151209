"""Scalar terms: python int/bool/Fraction when concrete, z3 expressions otherwise.

C++ floating point numbers are mathematical reals here (listed as an assumption
in the evidence); integers are mathematical integers whose C++ ranges are
enforced by the interpreter (wrap-around for unsigned, an obligation for signed).
"""
from fractions import Fraction
import z3

Z = z3.ExprRef


def is_conc(v):
    return isinstance(v, (bool, int, Fraction))


def toz(v, real=False):
    if isinstance(v, Z):
        if real and v.sort() == z3.IntSort():
            return z3.ToReal(v)
        if v.sort() == z3.BoolSort() and real:
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        return v
    if isinstance(v, bool):
        if real:
            return z3.RealVal(1 if v else 0)
        return z3.BoolVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, int):
        return z3.RealVal(v) if real else z3.IntVal(v)
    if isinstance(v, str):
        return z3.StringVal(v)
    raise TypeError('toz %r' % (v,))


def is_real(v):
    return isinstance(v, Fraction) or (isinstance(v, Z) and v.sort() == z3.RealSort())


def is_bool(v):
    return isinstance(v, bool) or (isinstance(v, Z) and v.sort() == z3.BoolSort())


def b2i(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Z) and v.sort() == z3.BoolSort():
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def unz(t):
    """z3 constant -> python value when it is one."""
    if isinstance(t, Z):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    return t


def coerce2(a, b):
    a, b = b2i(a), b2i(b)
    if is_conc(a) and is_conc(b):
        return a, b, True
    r = is_real(a) or is_real(b)
    return toz(a, r), toz(b, r), False


def add(a, b):
    x, y, c = coerce2(a, b)
    if c:
        return x + y
    if is_conc(a) and a == 0:
        return y
    if is_conc(b) and b == 0:
        return x
    return x + y


def sub(a, b):
    x, y, c = coerce2(a, b)
    if c:
        return x - y
    if is_conc(b) and b == 0:
        return x
    if x.eq(y):
        return Fraction(0) if is_real(x) else 0
    return x - y


def mul(a, b):
    x, y, c = coerce2(a, b)
    if c:
        return x * y
    for p, q in ((a, y), (b, x)):
        if is_conc(p) and not isinstance(p, bool):
            if p == 0:
                return Fraction(0) if is_real(q) else 0
            if p == 1:
                return q
    return x * y


def div(a, b):
    """real division"""
    if is_conc(a) and is_conc(b) and b != 0:
        return Fraction(a) / Fraction(b)
    if is_conc(b) and b == 1:
        return toz(a, True)
    if is_conc(a) and a == 0 and not is_conc(b):
        return toz(a, True) / toz(b, True)
    return toz(a, True) / toz(b, True)


def neg(a):
    a = b2i(a)
    return -a


def cdiv(a, b):
    """C integer division (truncation)."""
    a, b = b2i(a), b2i(b)
    if is_conc(a) and is_conc(b) and b != 0:
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    a, b = toz(a), toz(b)
    q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))),
              z3.If(b > 0, -((-a) / b), (-a) / (-b)))
    return q


def cmod(a, b):
    a, b = b2i(a), b2i(b)
    if is_conc(a) and is_conc(b) and b != 0:
        return a - b * cdiv(a, b)
    return sub(a, mul(b, cdiv(a, b)))


def cmp(op, a, b):
    x, y, c = coerce2(a, b)
    if c:
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
    if x.eq(y):
        return op in ('<=', '>=', '==')
    return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y,
            '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()


def lt(a, b): return cmp('<', a, b)
def le(a, b): return cmp('<=', a, b)
def eq(a, b): return cmp('==', a, b)


def truth(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, Fraction)):
        return v != 0
    if v.sort() == z3.BoolSort():
        return v
    # undo ite(b,1,0)
    if z3.is_app_of(v, z3.Z3_OP_ITE) and unz(v.arg(1)) == 1 and unz(v.arg(2)) == 0:
        return v.arg(0)
    return v != 0


def not_(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def and_(*xs):
    o = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            o.append(x)
    if not o:
        return True
    return o[0] if len(o) == 1 else z3.And(*o)


def or_(*xs):
    o = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            o.append(x)
    if not o:
        return False
    return o[0] if len(o) == 1 else z3.Or(*o)


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if is_conc(a) and is_conc(b) and type(a) == type(b) and a == b:
        return a
    if is_bool(a) and is_bool(b):
        x, y = toz(a), toz(b)
    else:
        x, y, k = coerce2(a, b)
        if k:
            r = isinstance(x, Fraction) or isinstance(y, Fraction)
            x, y = toz(x, r), toz(y, r)
    if x.eq(y):
        return a
    return z3.If(c, x, y)


def simp(t):
    if isinstance(t, Z):
        return unz(z3.simplify(t))
    return t


def subst(t, pairs):
    """substitute z3 constants in a term; pairs = [(const, value)]"""
    if not isinstance(t, Z):
        return t
    return z3.substitute(t, *[(a, toz(b, a.sort() == z3.RealSort())) for a, b in pairs])


def consts_of(t, acc=None):
    """uninterpreted constants (0-ary) occurring in t, as dict name->expr"""
    if acc is None:
        acc = {}
    if not isinstance(t, Z):
        return acc
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[str(x)] = x
        st.extend(x.children())
    return acc


# ---------------------------------------------------------------- sums
class Sums:
    """Finite sums: Sum_{k=0}^{n-1} t(k).  A sum term is F_h(n, free constants of t);
    F_h(0)=0, F_h(n+1)=F_h(n)+t(n) (n>=0) is its definition; equality of two sums is
    proved by extensionality (equal length, summands equal for every index)."""
    table = {}   # decl name -> (k const, body, [free consts])
    by_key = {}
    by_name = {}

    @classmethod
    def mk(cls, kconst, body, n):
        body = z3.simplify(toz(body, True), som=False)
        fc = consts_of(body)
        fc.pop(str(kconst), None)
        free = [fc[x] for x in sorted(fc)]
        # canonical form: replace constants by Vars
        pk = z3.Const('$k', z3.IntSort())
        canon = z3.substitute(body, (kconst, pk), *[(f, z3.Const('$%d_%s' % (i, f.sort()), f.sort())) for i, f in enumerate(free)])
        key = canon.sexpr() + '|' + ','.join(str(f.sort()) for f in free)
        if key not in cls.by_key:
            # the same sum with its parameters in another order?
            import itertools
            if 1 < len(free) <= 5:
                mine = sorted(str(f.sort()) for f in free)
                for name, (pk2, canon2, free2) in cls.table.items():
                    if sorted(str(f.sort()) for f in free2) != mine:
                        continue
                    for perm in itertools.permutations(free):
                        if any(p.sort() != f.sort() for p, f in zip(perm, free2)):
                            continue
                        c2 = z3.substitute(canon2, (pk2, kconst), *list(zip(free2, perm)))
                        if z3.is_true(z3.simplify(c2 == body, som=True)):
                            if is_conc(n) and n <= 0:
                                return Fraction(0)
                            return cls.by_name[name](toz(n), *perm)
            name = 'Sum!%d' % len(cls.by_key)
            fn = z3.Function(name, *([z3.IntSort()] + [f.sort() for f in free] + [z3.RealSort()]))
            cls.by_key[key] = fn
            cls.by_name[name] = fn
            cls.table[name] = (pk, canon, [z3.Const('$%d_%s' % (i, f.sort()), f.sort()) for i, f in enumerate(free)])
        fn = cls.by_key[key]
        if is_conc(n) and n <= 0:
            return Fraction(0)
        return fn(toz(n), *free)

    @classmethod
    def apps(cls, t):
        out = {}
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if not isinstance(x, Z) or x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x) and x.num_args() > 0:
                if x.decl().name() in cls.table:
                    out[x.get_id()] = x
                st.extend(x.children())
        return list(out.values())

    @classmethod
    def summand(cls, app, k):
        pk, canon, free = cls.table[app.decl().name()]
        args = app.children()[1:]
        return z3.substitute(canon, (pk, toz(k)), *list(zip(free, args)))

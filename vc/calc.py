"""Symbolic differentiation of terms (the usual rules; trusted)."""
from fractions import Fraction
import z3
from terms import *
from values import Unsupported
from prove import FN

RULES = {
    'sin': lambda u: FN('cos')(u),
    'cos': lambda u: -FN('sin')(u),
    'exp': lambda u: FN('exp')(u),
    'log': lambda u: 1 / u,
    'sqrt': lambda u: 1 / (2 * FN('sqrt')(u)),
    'cosh': lambda u: FN('sinh')(u),
    'sinh': lambda u: FN('cosh')(u),
}
# name -> (names of the partial derivatives): uninterpreted functions of n real arguments
PARTIALS = {}


def diff(t, x, memo=None):
    """d t / d x, x a z3 Real constant"""
    if is_conc(t):
        return Fraction(0)
    if memo is None:
        memo = {}
    i = t.get_id()
    if i in memo:
        return memo[i][1]
    r = _diff(t, x, memo)
    memo[i] = (t, r)
    return r


def _diff(t, x, memo):
    if t.eq(x):
        return Fraction(1)
    if z3.is_rational_value(t) or z3.is_int_value(t) or t.num_args() == 0:
        return Fraction(0)
    k = t.decl().kind()
    ch = t.children()
    d = lambda u: diff(u, x, memo)
    if k == z3.Z3_OP_ADD:
        r = Fraction(0)
        for c in ch:
            r = add(r, d(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = d(ch[0])
        for c in ch[1:]:
            r = sub(r, d(c))
        return r
    if k == z3.Z3_OP_UMINUS:
        return neg(d(ch[0]))
    if k == z3.Z3_OP_MUL:
        r = Fraction(0)
        for j in range(len(ch)):
            p = d(ch[j])
            if is_conc(p) and p == 0:
                continue
            for l in range(len(ch)):
                if l != j:
                    p = mul(p, ch[l])
            r = add(r, p)
        return r
    if k == z3.Z3_OP_DIV:
        a, b = ch
        da, db = d(a), d(b)
        if is_conc(db) and db == 0:
            return div(da, b) if not (is_conc(da) and da == 0) else Fraction(0)
        return div(sub(mul(da, b), mul(a, db)), mul(b, b))
    if k == z3.Z3_OP_ITE:
        return ite(ch[0], d(ch[1]), d(ch[2]))
    if k == z3.Z3_OP_TO_REAL:
        return Fraction(0)
    if k == z3.Z3_OP_UNINTERPRETED:
        nm = t.decl().name()
        ds = [d(c) if c.sort() == z3.RealSort() else Fraction(0) for c in ch]
        if all(is_conc(q) and q == 0 for q in ds):
            return Fraction(0)
        if nm in RULES:
            return mul(RULES[nm](ch[0]), ds[0])
        if nm == 'pow' and is_conc(ds[1]) and ds[1] == 0:
            return mul(mul(div(mul(ch[1], t), ch[0]), ds[0]), Fraction(1))
        if nm in PARTIALS:
            r = Fraction(0)
            for f, q in zip(PARTIALS[nm], ds):
                if not (is_conc(q) and q == 0):
                    r = add(r, mul(f(*ch), q))
            return r
    raise Unsupported('derivative of %s' % t.decl().name())

from fractions import Fraction
import z3
from terms import *


class Unsupported(Exception):
    pass


class Unmergeable(Exception):
    pass


class Ptr:
    """pointer: region id + element offset (None: points at the region itself); rid None = null"""
    __slots__ = ('rid', 'off')

    def __init__(self, rid, off=None):
        self.rid, self.off = rid, off

    def __repr__(self):
        return 'Ptr(%r,%r)' % (self.rid, self.off)


NULL = Ptr(None)


class Uninit:
    def __repr__(self):
        return '<uninit>'


UNINIT = Uninit()


class LoopDead(Uninit):
    """pointer assigned by iterations of a loop, not read before it is assigned again"""
    cond = None


class FnRef:
    def __init__(self, decl):
        self.decl = decl


class LV:
    """lvalue: region (idx None) or element idx of an array-like region"""
    __slots__ = ('rid', 'idx')

    def __init__(self, rid, idx=None):
        self.rid, self.idx = rid, idx

    def __repr__(self):
        return 'LV(%r,%r)' % (self.rid, self.idx)


def merge_val(c, a, b):
    if a is b:
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.rid != b.rid:
            raise Unmergeable
        if a.off is None and b.off is None:
            return a
        if a.off is None or b.off is None:
            raise Unmergeable
        return Ptr(a.rid, ite(c, a.off, b.off))
    if isinstance(a, LoopDead) or isinstance(b, LoopDead):
        return LoopDead()
    if isinstance(a, Uninit) or isinstance(b, Uninit):
        raise Unmergeable
    if isinstance(a, (LV, Ptr, FnRef)) or isinstance(b, (LV, Ptr, FnRef)):
        if isinstance(a, LV) and isinstance(b, LV) and a.rid == b.rid and a.idx is None and b.idx is None:
            return a
        raise Unmergeable
    if isinstance(a, str) or isinstance(b, str) or (isinstance(a, Z) and a.sort() == z3.StringSort()):
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(c, bool):
            return a if c else b
        return z3.If(c, toz(a), toz(b))
    if is_conc(a) and is_conc(b) and type(a) == type(b) and a == b:
        return a
    if isinstance(a, (bool, int, Fraction, Z)) and isinstance(b, (bool, int, Fraction, Z)):
        return ite(c, a, b)
    raise Unmergeable


def subst_val(v, pairs):
    if isinstance(v, Ptr):
        return v if v.off is None else Ptr(v.rid, subst(v.off, pairs))
    return subst(v, pairs)


class SArr:
    """immutable symbolic array contents; get(k) -> value"""

    def store(self, idx, val):
        return StoreArr(self, idx, val)


class BaseArr(SArr):
    def __init__(self, fn, name=''):
        self.fn = fn
        self.name = name

    def get(self, k):
        return self.fn(k)


class UninitArr(SArr):
    def get(self, k):
        return UNINIT


def idx_eq(a, b):
    """syntactic decision of index equality: True/False/condition"""
    r = eq(a, b)
    if isinstance(r, bool):
        return r
    return simp(r)


class StoreArr(SArr):
    def __init__(self, base, idx, val):
        self.base, self.idx, self.val = base, idx, val

    def get(self, k):
        c = idx_eq(k, self.idx)
        if c is True:
            return self.val
        if c is False:
            return self.base.get(k)
        b = self.base.get(k)
        if isinstance(b, GuardedUninit):
            # value is defined under c or b.cond
            try:
                return GuardedUninit(or_(c, b.cond), merge_val(c, self.val, b.val))
            except Unmergeable:
                raise NeedSplit(c)
        if isinstance(b, Uninit):
            return GuardedUninit(c, self.val)
        try:
            return merge_val(c, self.val, b)
        except Unmergeable:
            raise NeedSplit(c)


class GuardedUninit(Uninit):
    """value val if cond, uninitialised otherwise"""

    def __init__(self, cond, val):
        self.cond, self.val = cond, val


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class MapArr(SArr):
    """get(k) = f(k) if lo<=k<hi else base.get(k)"""

    def __init__(self, lo, hi, f, base):
        self.lo, self.hi, self.f, self.base = lo, hi, f, base

    def get(self, k):
        c = simp(and_(le(self.lo, k), lt(k, self.hi)))
        if c is True:
            return self.f(k)
        if c is False:
            return self.base.get(k)
        b = self.base.get(k)
        if isinstance(b, GuardedUninit):
            return GuardedUninit(or_(c, b.cond), merge_val(c, self.f(k), b.val))
        if isinstance(b, Uninit):
            return GuardedUninit(c, self.f(k))
        try:
            return merge_val(c, self.f(k), b)
        except Unmergeable:
            raise NeedSplit(c)


class IteArr(SArr):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def get(self, k):
        x, y = self.a.get(k), self.b.get(k)
        if isinstance(x, Uninit) or isinstance(y, Uninit):
            cx = x.cond if isinstance(x, GuardedUninit) else not isinstance(x, Uninit)
            cy = y.cond if isinstance(y, GuardedUninit) else not isinstance(y, Uninit)
            vx = x.val if isinstance(x, GuardedUninit) else x
            vy = y.val if isinstance(y, GuardedUninit) else y
            if cx is False and cy is False:
                return UNINIT
            if cx is False:
                return GuardedUninit(and_(not_(self.c), cy), vy)
            if cy is False:
                return GuardedUninit(and_(self.c, cx), vx)
            return GuardedUninit(or_(and_(self.c, cx), and_(not_(self.c), cy)), merge_val(self.c, vx, vy))
        try:
            return merge_val(self.c, x, y)
        except Unmergeable:
            raise NeedSplit(self.c)


# -------------------------------------------------------------- memory nodes
class Cell:
    __slots__ = ('v', 'ty')

    def __init__(self, v, ty=None):
        self.v, self.ty = v, ty


class Rec:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f    # f: 'Owner.name' -> rid


class Arr:
    """array of scalars/pointers with symbolic contents"""
    __slots__ = ('n', 'a', 'ty')

    def __init__(self, n, a, ty):
        self.n, self.a, self.ty = n, a, ty


class SoA:
    """array of plain records with symbolic length: one array per field"""
    __slots__ = ('cls', 'n', 'f')

    def __init__(self, cls, n, f):
        self.cls, self.n, self.f = cls, n, f    # f: 'Owner.name' -> rid of an Arr


class RArr:
    """concretely sized array of aggregate (or any) regions"""
    __slots__ = ('els', 'ty')

    def __init__(self, els, ty):
        self.els, self.ty = els, ty


class Lib:
    """library object with model state p (immutable dict)"""
    __slots__ = ('kind', 'p', 'ty')

    def __init__(self, kind, p, ty=None):
        self.kind, self.p, self.ty = kind, p, ty

    def w(self, **kw):
        p = dict(self.p)
        p.update(kw)
        return Lib(self.kind, p, self.ty)


def merge_node(c, a, b):
    if a is b:
        return a
    if type(a) != type(b):
        raise Unmergeable
    if isinstance(a, Cell):
        return Cell(merge_val(c, a.v, b.v), a.ty)
    if isinstance(a, Arr):
        return Arr(merge_val(c, a.n, b.n), a.a if a.a is b.a else IteArr(c, a.a, b.a), a.ty)
    if isinstance(a, Lib):
        if a.kind != b.kind:
            raise Unmergeable
        p = {}
        if set(a.p) != set(b.p):
            raise Unmergeable
        for k in a.p:
            x, y = a.p[k], b.p[k]
            if x is y or (isinstance(x, (str, int, tuple)) and type(x) == type(y) and x == y):
                p[k] = x
            elif isinstance(x, SArr) and isinstance(y, SArr):
                p[k] = IteArr(c, x, y)
            else:
                p[k] = merge_val(c, x, y)
        return Lib(a.kind, p, a.ty)
    if isinstance(a, SoA):
        if a.n is b.n and a.f == b.f:
            return a
    if isinstance(a, Rec):
        if a.cls == b.cls and a.f == b.f:
            return a
    if isinstance(a, RArr) and a.els == b.els:
        return a
    raise Unmergeable

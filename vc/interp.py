"""Symbolic execution of extracted C++ functions, generating proof obligations."""
import itertools
from fractions import Fraction
import z3
import values
from terms import *
from values import *
from program import Ty, params, norm_sig, canon_class
import prove
from prove import FN


class PathEnd(Exception):
    pass


class CannotSpec(Exception):
    pass


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class CxxThrow(Exception):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class HypFail(Exception):
    pass


class State:
    def __init__(self):
        self.mem, self.pc, self.frames, self.freed, self.alloc, self.ghost = {}, [], [], frozenset(), {}, {}

    def copy(self):
        s = State()
        s.mem, s.pc = dict(self.mem), list(self.pc)
        s.frames = [dict(f) for f in self.frames]
        s.freed, s.alloc, s.ghost = self.freed, dict(self.alloc), dict(self.ghost)
        return s


class Obl:
    __slots__ = ('label', 'where', 'pc', 'goal', 'res', 'kind')

    def __init__(self, label, where, pc, goal, kind):
        self.label, self.where, self.pc, self.goal, self.kind = label, where, pc, goal, kind
        self.res = None


MAXPATHS = 2000


class Exec:
    def __init__(self, prog, lib, contracts=None, symconst=None, opts=None):
        self.prog, self.lib = prog, lib
        self.contracts = contracts or {}
        self.symconst = symconst or {}      # literal value -> symbolic z3 Int (template parameters)
        self.opts = opts or {}
        self.S = State()
        self.dec, self.pos, self.wl = [], 0, []
        self.spec = 0
        self.probe = 0
        self.nrid = 0
        self.ncon = 0
        self.obls = {}
        self.obl_order = []
        self.unit = ''
        self.where = ''
        self.inlined = set()
        self.used_contracts = set()
        self.used_lib = set()
        self.assumed = set()
        self.depth = 0
        self.newhook = {}           # class -> allocation in a pool of default-constructed objects
        self.loop_inv = []          # candidate generators
        self.wlog = None
        self.fnstack = []
        self.globals = {}
        self.check_div = False
        self.fp_hook = None
        self.npaths = 0

    # ------------------------------------------------------------ basics
    def fresh(self, base, sort):
        self.ncon += 1
        nm = '%s!%d' % (base, self.ncon)
        return z3.Const(nm, sort)

    def fint(self, base, lo=None, hi=None):
        c = self.fresh(base, z3.IntSort())
        if lo is not None:
            self.assume(le(lo, c))
        if hi is not None:
            self.assume(le(c, hi))
        return c

    def freal(self, base):
        return self.fresh(base, z3.RealSort())

    def fbool(self, base):
        return self.fresh(base, z3.BoolSort())

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd
            return
        self.S.pc.append(f)

    def lemma(self, f):
        """an intermediate fact: proved, then available"""
        self.oblige(f, 'lemma', 'lemma')

    def theorem(self, fn, *terms):
        """fn(variables): a formula valid for all reals -- proved on its own for fresh
        variables (no path condition), then assumed for the given terms"""
        vs = [z3.Real('th!%d' % i) for i in range(len(terms))]
        if not self.probe:
            self._add_obl('theorem', 'lemma', [], fn(*vs))
        self.S.pc.append(fn(*[toz(t, True) for t in terms]))

    def oblige(self, goal, label, kind='safety'):
        """record an obligation under the current path condition, then assume it"""
        if self.probe:
            if not isinstance(goal, bool):
                self.S.pc.append(goal)
            elif not goal:
                raise PathEnd
            return
        if isinstance(goal, bool) and goal:
            o = self._add_obl(label, kind, None, True)
            return
        g = simp(goal) if kind == 'safety' else goal
        self._add_obl(label, kind, list(self.S.pc), g)
        if isinstance(g, bool):
            if not g:
                raise PathEnd
            return
        self.S.pc.append(g)

    def _add_obl(self, label, kind, pc, goal):
        if isinstance(goal, bool) and goal:
            key = (self.unit, self.where, label, True)
        else:
            gk = goal if isinstance(goal, bool) else goal.get_id()
            key = (self.unit, self.where, label, gk, tuple(p.get_id() for p in pc if isinstance(p, Z)))
        if key not in self.obls:
            o = Obl('%s: %s' % (self.unit, label), self.where, pc or [], goal, kind)
            self.obls[key] = o
            self.obl_order.append(o)
        return self.obls[key]

    def entails(self, f, timeout=600):
        f = simp(f)
        if isinstance(f, bool):
            return f
        return not prove.feasible(self.S.pc, z3.Not(f), timeout)

    def entails_int(self, f):
        """entailment by the integer-only facts (fast)"""
        f = simp(f)
        if isinstance(f, bool):
            return f
        pcs = [p for p in self.S.pc if isinstance(p, Z) and int_only(p)]
        if not prove.feasible(pcs, z3.Not(f), 400):
            return True
        return False

    def decide(self, c):
        c = simp(c)
        if isinstance(c, bool):
            return c
        if not prove.feasible(self.S.pc, z3.Not(c), 500):
            return True
        if not prove.feasible(self.S.pc, c, 500):
            return False
        return None

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        c = simp(cond)
        if isinstance(c, bool):
            return c
        if self.spec:
            d = self.decide(c)
            if d is None:
                raise CannotSpec
            self.S.pc.append(c if d else z3.Not(c))
            return d
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            t = prove.feasible(self.S.pc, c)
            f = prove.feasible(self.S.pc, z3.Not(c))
            if t and f:
                self.wl.append(self.dec + [False])
                d = True
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise PathEnd
            self.dec = self.dec + [d]
        self.pos += 1
        self.S.pc.append(c if d else z3.Not(c))
        return d

    def choose(self, n):
        if n == 1:
            return 0
        if n == 0:
            raise PathEnd
        if self.spec:
            raise CannotSpec
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            for i in range(n - 1, 0, -1):
                self.wl.append(self.dec + [i])
            d = 0
            self.dec = self.dec + [d]
        self.pos += 1
        return d

    def explore(self, thunk):
        """run thunk on every path from the current state; list of (kind, value, state)"""
        base = self.S
        sv = (self.dec, self.pos, self.wl, self.spec)
        self.spec = 0
        self.wl = [[]]
        wl = self.wl
        out = []
        n = 0
        mx = (self.ncon, self.nrid)
        base_ctr = mx
        try:
            while wl:
                self.wl = wl
                self.dec = wl.pop()
                self.pos = 0
                n += 1
                if n > MAXPATHS:
                    raise Unsupported('too many paths')
                self.S = base.copy()
                self.ncon, self.nrid = base_ctr
                ds = (self.depth, list(self.fnstack), self.where)
                try:
                    kind, val = thunk()
                    out.append((kind, val, self.S))
                except PathEnd:
                    pass
                self.depth, self.fnstack, self.where = ds[0], ds[1], ds[2]
                mx = (max(mx[0], self.ncon), max(mx[1], self.nrid))
        finally:
            self.dec, self.pos, self.wl, self.spec = sv
            self.S = base
            self.ncon, self.nrid = mx
        self.npaths += n
        return out

    # ------------------------------------------------------------ memory
    def new_rid(self):
        self.nrid += 1
        return self.nrid

    def put(self, node, alloc='stack'):
        r = self.new_rid()
        self.S.mem[r] = node
        self.S.alloc[r] = alloc
        return r

    def node(self, rid):
        if rid in self.S.freed:
            self.oblige(False, 'use of freed memory')
        return self.S.mem[rid]

    def setnode(self, rid, node):
        if self.wlog is not None:
            self.wlog.add(rid)
        self.S.mem[rid] = node

    def symlen(self, n):
        if isinstance(n, int) and n in self.symconst:
            return self.symconst[n]
        return n

    def alloc_ty(self, ty, init='uninit', alloc='stack', name='v'):
        """allocate a region for type ty. init: 'uninit' | 'sym' | 'zero'"""
        if ty.k in ('int', 'bool', 'real', 'ptr', 'fn'):
            return self.put(Cell(self.init_scalar(ty, init, name), ty), alloc)
        if ty.k == 'arr':
            n = self.symlen(ty.n)
            if ty.sub.k in ('int', 'bool', 'real') or (ty.sub.k == 'ptr' and init == 'uninit'):
                return self.put(Arr(n, self.init_arr(ty.sub, init, name), ty.sub), alloc)
            if not isinstance(n, int):
                raise Unsupported('symbolic array of %r' % ty.sub)
            els = tuple(self.alloc_ty(ty.sub, init, alloc, '%s[%d]' % (name, i)) for i in range(n))
            return self.put(RArr(els, ty.sub), alloc)
        if ty.k == 'rec':
            return self.alloc_rec(ty.name, init, alloc, name)
        if ty.k == 'lib':
            return self.put(self.lib.default(self, ty, init, name), alloc)
        if ty.k == 'ref':
            return self.put(Cell(UNINIT, ty), alloc)
        raise Unsupported('alloc %r' % ty)

    def alloc_rec(self, cls, init='uninit', alloc='stack', name='o'):
        f = {}
        for owner, nm, ty, d, tu in self.prog.all_fields(cls):
            try:
                f[owner + '.' + nm] = self.alloc_ty(ty, init if ty.k not in ('ptr', 'ref') else 'uninit', alloc, '%s.%s' % (name, nm))
            except Unsupported:
                f[owner + '.' + nm] = self.put(Lib('opaque', {}, ty), alloc)
        return self.put(Rec(cls, f), alloc)

    def init_scalar(self, ty, init, name):
        if init == 'uninit':
            return UNINIT
        if init == 'zero':
            return {'int': 0, 'bool': False, 'real': Fraction(0)}.get(ty.k, NULL)
        return self.sym_scalar(ty, name)

    def sym_scalar(self, ty, name):
        if ty.k == 'int':
            lo, hi = int_range(ty)
            return self.fint(name, lo, hi)
        if ty.k == 'bool':
            return self.fbool(name)
        if ty.k == 'real':
            return self.freal(name)
        raise Unsupported('symbolic %r' % ty)

    def init_arr(self, ty, init, name):
        if init == 'uninit':
            return UninitArr()
        if init == 'zero':
            z = {'int': 0, 'bool': False, 'real': Fraction(0)}[ty.k]
            return BaseArr(lambda k: z)
        return self.sym_arr(ty, name)

    def sym_arr(self, ty, name):
        sort = {'int': z3.IntSort(), 'bool': z3.BoolSort(), 'real': z3.RealSort(), 'lib': z3.StringSort()}[ty.k]
        self.ncon += 1
        fn = z3.Function('%s!%d' % (name, self.ncon), z3.IntSort(), sort)
        if ty.k == 'int':
            lo, hi = int_range(ty)
            q = z3.Int('q!')
            self.assume(z3.ForAll([q], z3.And(fn(q) >= lo, fn(q) <= hi), patterns=[fn(q)]))
        return BaseArr(lambda k: fn(toz(k)), name)

    # field access helpers (used by contracts too)
    def fld(self, obj, name):
        """LV of a field of record object (LV or rid)"""
        rid = obj.rid if isinstance(obj, (LV, Ptr)) else obj
        r = self.node(rid)
        if not isinstance(r, Rec):
            raise Unsupported('field %s of non-record %r' % (name, r))
        if name in r.f:
            return LV(r.f[name])
        c = [k for k in r.f if k.split('.')[-1] == name]
        if not c:
            raise Unsupported('no field %s in %s' % (name, r.cls))
        return LV(r.f[c[-1]])

    def getf(self, obj, name):
        return self.read(self.fld(obj, name))

    def setf(self, obj, name, v):
        self.write(self.fld(obj, name), v)

    def read(self, lv):
        n = self.node(lv.rid)
        if lv.idx is None:
            if isinstance(n, Cell):
                return self.chk_init(n.v)
            return lv
        if isinstance(n, Arr):
            self.oblige(and_(le(0, lv.idx), lt(lv.idx, n.n)), 'array index within bounds (read)')
            return self.chk_init(self.aget(n.a, lv.idx))
        if isinstance(n, Lib):
            return self.lib.read_elem(self, lv, n)
        if isinstance(n, RArr):
            return self.read(self.elem(lv.rid, lv.idx))
        if isinstance(n, Cell):
            self.oblige(eq(lv.idx, 0), 'pointer to single object dereferenced at offset 0')
            return self.chk_init(n.v)
        if isinstance(n, Rec):
            self.oblige(eq(lv.idx, 0), 'pointer to single object dereferenced at offset 0')
            return LV(lv.rid)
        raise Unsupported('read %r' % n)

    def aget(self, a, idx):
        try:
            return a.get(idx)
        except NeedSplit as e:
            d = self.branch(e.cond)
            old = values.DECIDE_ASSUME
            values.DECIDE_ASSUME = None
            return self._aget_decided(a, idx)

    def _aget_decided(self, a, idx):
        # walk layers deciding conditions with the solver / forking
        if isinstance(a, StoreArr):
            c = self.branch(eq(idx, a.idx))
            return a.val if c else self._aget_decided(a.base, idx)
        if isinstance(a, MapArr):
            c = self.branch(and_(le(a.lo, idx), lt(idx, a.hi)))
            return a.f(idx) if c else self._aget_decided(a.base, idx)
        if isinstance(a, IteArr):
            return self._aget_decided(a.a if self.branch(a.c) else a.b, idx)
        return a.get(idx)

    def chk_init(self, v):
        if isinstance(v, GuardedUninit):
            self.oblige(v.cond, 'value read is initialised')
            return v.val
        if isinstance(v, LoopDead):
            raise Unsupported('pointer assigned in a loop read afterwards')
        if isinstance(v, Uninit):
            self.oblige(False, 'value read is initialised')
        return v

    def write(self, lv, v):
        n = self.node(lv.rid)
        if lv.idx is None:
            if isinstance(n, Cell):
                self.setnode(lv.rid, Cell(self.conv(v, n.ty), n.ty))
                return
            if isinstance(v, LV):
                return self.copy_region(v.rid, lv.rid)
            raise Unsupported('write to %r' % n)
        if isinstance(n, Arr):
            self.oblige(and_(le(0, lv.idx), lt(lv.idx, n.n)), 'array index within bounds (write)')
            self.setnode(lv.rid, Arr(n.n, n.a.store(lv.idx, self.conv(v, n.ty)), n.ty))
            return
        if isinstance(n, Lib):
            return self.lib.write_elem(self, lv, n, v)
        if isinstance(n, RArr):
            return self.write(self.elem(lv.rid, lv.idx), v)
        if isinstance(n, Cell):
            self.oblige(eq(lv.idx, 0), 'pointer to single object dereferenced at offset 0')
            self.setnode(lv.rid, Cell(self.conv(v, n.ty), n.ty))
            return
        raise Unsupported('write elem %r' % n)

    def conv(self, v, ty):
        """make the python representation match the storage type"""
        if ty is None or isinstance(v, (Uninit, Ptr, LV, FnRef)):
            return v
        if ty.k == 'real' and isinstance(v, (int, bool)) :
            return Fraction(int(v))
        if ty.k == 'real' and isinstance(v, Z) and v.sort() != z3.RealSort():
            return toz(b2i(v), True)
        if ty.k == 'int' and is_bool(v):
            return b2i(v)
        if ty.k == 'bool' and not is_bool(v):
            return truth(v)
        return v

    def elem(self, rid, idx):
        n = self.node(rid)
        if isinstance(n, RArr):
            i = simp(idx)
            if not isinstance(i, int):
                for j in range(len(n.els)):
                    if self.branch(eq(i, j)):
                        return LV(n.els[j])
                self.oblige(False, 'array index within bounds')
            if i < 0 or i >= len(n.els):
                self.oblige(False, 'array index within bounds')
            return LV(n.els[i])
        if isinstance(n, Lib):
            e = self.lib.elem_lv(self, rid, n, idx)
            if e is not None:
                return e
        return LV(rid, idx)

    def deref(self, p):
        if isinstance(p, LV):
            return p
        if not isinstance(p, Ptr):
            raise Unsupported('deref of %r' % (p,))
        if p.rid is None:
            self.oblige(False, 'no null dereference')
        if p.off is None:
            return LV(p.rid)
        n = self.S.mem.get(p.rid)
        if isinstance(n, (RArr,)) or (isinstance(n, Lib)):
            return self.elem(p.rid, p.off)
        return LV(p.rid, p.off)

    def copy_region(self, src, dst):
        a, b = self.node(src), self.node(dst)
        if isinstance(a, SoA) or isinstance(b, SoA):
            raise Unsupported('copy of an element of an array of records')
        if isinstance(a, Rec):
            for k, r in a.f.items():
                if k in b.f:
                    self.copy_region(r, b.f[k])
                # (slicing keeps the destination's own fields)
            return
        if isinstance(a, RArr):
            for x, y in zip(a.els, b.els):
                self.copy_region(x, y)
            return
        if isinstance(a, Lib):
            self.setnode(dst, self.lib.copy(self, a))
            return
        self.setnode(dst, a)

    def clone_region(self, src, alloc='stack'):
        a = self.node(src)
        if isinstance(a, SoA):
            raise Unsupported('copy of an element of an array of records')
        if isinstance(a, Rec):
            return self.put(Rec(a.cls, {k: self.clone_region(r, alloc) for k, r in a.f.items()}), alloc)
        if isinstance(a, RArr):
            return self.put(RArr(tuple(self.clone_region(r, alloc) for r in a.els), a.ty), alloc)
        if isinstance(a, Lib):
            return self.put(self.lib.copy(self, a), alloc)
        return self.put(a, alloc)

    # ------------------------------------------------------------ integers
    def norm_int(self, v, ty, what='arithmetic'):
        """bring an integer result into the range of ty"""
        if is_bool(v):
            v = b2i(v)
        lo, hi = int_range(ty)
        if isinstance(v, int):
            if lo <= v <= hi:
                return v
            if ty.signed:
                self.oblige(False, 'no signed overflow (%s)' % what)
            return (v - lo) % (hi - lo + 1) + lo
        inr = and_(le(lo, v), le(v, hi))
        if self.entails_int(inr) or self.entails(inr):
            return v
        if ty.signed:
            self.oblige(inr, 'no signed overflow (%s)' % what)
            return v
        if ty.bits >= 64 and self.opts.get('assume_size_nowrap'):
            return v
        # exact wrap-around for one add/sub: ite keeps the arithmetic linear
        m = hi + 1
        if what in ('+', '-', '++', '--', 'unary -'):
            return z3.If(toz(v) > hi, toz(v) - m, z3.If(toz(v) < 0, toz(v) + m, toz(v)))
        return toz(v) % m

    def cast_int(self, v, ty):
        if is_bool(v):
            return b2i(v)
        lo, hi = int_range(ty)
        if isinstance(v, int):
            if lo <= v <= hi:
                return v
            return (v - lo) % (hi - lo + 1) + lo
        inr = and_(le(lo, v), le(v, hi))
        if self.entails_int(inr) or self.entails(inr):
            return v
        m = hi - lo + 1
        if lo == 0:
            return toz(v) % m
        return (toz(v) - lo) % m + lo

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        if not n:
            return
        k = n['kind']
        f = getattr(self, 's_' + k, None)
        if f is None:
            self.ev(n)
            return
        f(n)

    def s_CompoundStmt(self, n):
        for c in n.get('inner', []):
            self.stmt(c)

    def s_NullStmt(self, n):
        pass

    def s_AttributedStmt(self, n):
        self.stmt(n['inner'][-1])

    def s_DeclStmt(self, n):
        for d in n.get('inner', []):
            if d['kind'] == 'VarDecl':
                self.vardecl(d)

    def vardecl(self, d):
        ty = self.prog.ty(d['type'])
        init = [x for x in d.get('inner', []) if x and not x['kind'].endswith('Attr')]
        if d.get('storageClass') == 'static':
            key = ('static', d['id'])
            if key not in self.S.ghost:
                raise Unsupported('static local ' + d['name'])
            self.S.frames[-1][d['id']] = self.S.ghost[key]
            return
        if ty.k == 'ref':
            lv = self.lval(init[0])
            self.S.frames[-1][d['id']] = lv
            return
        if ty.k == 'arr' and not isinstance(ty.n, int):
            # variable length array
            nn = None
            for x in d.get('inner', []):
                pass
            ln = self.vla_len(d)
            r = LV(self.put(Arr(ln, UninitArr(), ty.sub)))
            self.S.frames[-1][d['id']] = r
            return
        if ty.k in ('rec', 'lib'):
            if init:
                r = self.ev(init[0])
                if not isinstance(r, LV):
                    r = LV(self.put(Cell(r, ty)))
                # prvalue: take over the temporary
                r = r if self.is_temp(init[0]) else LV(self.clone_region(r.rid))
                self.S.frames[-1][d['id']] = r
            else:
                r = LV(self.alloc_ty(ty, 'uninit', name=d['name']))
                self.S.frames[-1][d['id']] = r
            return
        if ty.k == 'arr':
            rid = self.alloc_ty(ty, 'uninit', name=d['name'])
            self.S.frames[-1][d['id']] = LV(rid)
            if init:
                self.init_aggregate(rid, init[0], ty)
            return
        rid = self.put(Cell(UNINIT, ty))
        self.S.frames[-1][d['id']] = LV(rid)
        if init:
            v = self.ev(init[0])
            if isinstance(v, LV):
                v = self.read(v)
            self.S.mem[rid] = Cell(self.conv(v, ty), ty)

    def vla_len(self, d):
        # the length expression is not in the JSON dump of the declaration; recover it from the type spelling
        import re
        m = re.search(r'\[([^\]]*)\]', d['type']['qualType'])
        expr = m.group(1)
        return self.parse_len(expr)

    def parse_len(self, s):
        import re
        toks = re.findall(r'[A-Za-z_]\w*|\d+|[-+*()]', s)
        out = []
        env = self.S.frames[-1]
        names = {}
        for did, lv in env.items():
            dn = self.declnames.get(did)
            if dn:
                names[dn] = lv

        def atom():
            t = toks.pop(0)
            if t == '(':
                v = expr()
                toks.pop(0)
                return v
            if t.isdigit():
                return int(t)
            if t == 'this' or t not in names:
                th = env.get('this')
                if th is not None:
                    return self.getf(th, t)
                raise Unsupported('array length ' + s)
            return self.read(names[t])

        def term():
            v = atom()
            while toks and toks[0] == '*':
                toks.pop(0)
                v = mul(v, atom())
            return v

        def expr():
            v = term()
            while toks and toks[0] in '+-':
                o = toks.pop(0)
                w = term()
                v = add(v, w) if o == '+' else sub(v, w)
            return v
        return expr()

    def is_temp(self, n):
        while n['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr'):
            if n['kind'] == 'ImplicitCastExpr' and n.get('castKind') == 'LValueToRValue':
                return False
            n = n['inner'][0]
        return n.get('valueCategory') == 'prvalue'

    def init_aggregate(self, rid, n, ty):
        while n['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
            n = n['inner'][0]
        if n['kind'] == 'InitListExpr':
            ch = n.get('inner', [])
            filler = None
            if 'array_filler' in n:
                ch = n['array_filler'][1:] if len(n['array_filler']) > 1 else []
                filler = n['array_filler'][0]
            node = self.node(rid)
            if isinstance(node, Arr):
                a = node.a
                if filler is not None:
                    a = self.init_arr(node.ty, 'zero', 'z') if node.ty.k != 'ptr' else BaseArr(lambda k: NULL)
                for i, c in enumerate(ch):
                    a = a.store(i, self.conv(self.ev(c), node.ty))
                self.S.mem[rid] = Arr(node.n, a, node.ty)
                return
            if isinstance(node, RArr):
                for i, c in enumerate(ch):
                    self.init_aggregate(node.els[i], c, ty.sub)
                return
            if isinstance(node, Rec):
                for (key, r), c in zip(node.f.items(), ch):
                    self.init_aggregate(r, c, None)
                return
            if isinstance(node, Cell):
                if ch:
                    self.S.mem[rid] = Cell(self.conv(self.ev(ch[0]), node.ty), node.ty)
                else:
                    self.S.mem[rid] = Cell(self.init_scalar(node.ty, 'zero', ''), node.ty)
                return
            raise Unsupported('init list for %r' % node)
        node = self.node(rid)
        if isinstance(node, Cell):
            self.S.mem[rid] = Cell(self.conv(self.ev(n), node.ty), node.ty)
            return
        if n['kind'] == 'CXXConstructExpr' and ty is not None and ty.k == 'arr':
            if isinstance(node, RArr):
                for e in node.els:
                    v = self.ev_construct(n, Ty('rec', self.node(e).cls) if isinstance(self.node(e), Rec) else node.ty)
                    self.copy_region(v.rid, e)
                return
        if n['kind'] == 'StringLiteral':
            s = str_lit(n['value'])
            a = node.a
            if isinstance(node.n, int):
                for i in range(node.n):
                    a = a.store(i, ord(s[i]) if i < len(s) else 0)
            self.S.mem[rid] = Arr(node.n, a, node.ty)
            return
        v = self.ev(n)
        if isinstance(v, LV):
            self.copy_region(v.rid, rid)
            return
        raise Unsupported('aggregate init %s' % n['kind'])

    def s_IfStmt(self, n):
        ch = list(n['inner'])
        if n.get('hasInit'):
            self.stmt(ch.pop(0))
        if n.get('hasVar'):
            self.stmt(ch.pop(0))
        c = self.cond(ch[0])
        A = ch[1]
        B = ch[2] if len(ch) > 2 else None
        self.if_exec(c, lambda: self.stmt(A), lambda: self.stmt(B))

    def if_exec(self, c, fa, fb):
        c = simp(c)
        if isinstance(c, bool):
            return fa() if c else fb()
        if self.opts.get('nomerge'):
            return fa() if self.branch(c) else fb()
        if self.try_merge(c, fa, fb):
            return
        if self.branch(c):
            fa()
        else:
            fb()

    def try_merge(self, c, fa, fb):
        base = self.S
        L = len(base.pc)
        d = self.depth, list(self.fnstack), self.where
        ob = (dict(self.obls), list(self.obl_order))
        wl = None if self.wlog is None else set(self.wlog)
        self.spec += 1
        try:
            sts = []
            for cc, f in ((c, fa), (not_(c), fb)):
                self.S = base.copy()
                self.S.pc.append(cc)
                if not prove.feasible(base.pc, cc):
                    # branch infeasible: keep as dead
                    sts.append(None)
                    continue
                try:
                    f()
                except PathEnd:
                    sts.append(None)
                    continue
                sts.append(self.S)
            if sts[0] is None and sts[1] is None:
                raise CannotSpec
            if sts[0] is None or sts[1] is None:
                raise CannotSpec
            m = self.merge_states(base, c, sts[0], sts[1], L)
            self.S = m
            return True
        except (CannotSpec, Unmergeable, BreakEx, ContinueEx, ReturnEx, CxxThrow, NeedSplit):
            self.S = base
            self.depth, self.fnstack, self.where = d
            self.obls, self.obl_order = ob
            self.wlog = wl
            return False
        finally:
            self.spec -= 1

    def merge_states(self, base, c, A, B, L):
        if A.freed != B.freed:
            raise Unmergeable
        m = base.copy()
        for r in set(A.mem) | set(B.mem):
            a, b = A.mem.get(r), B.mem.get(r)
            if a is None:
                m.mem[r] = b
            elif b is None:
                m.mem[r] = a
            elif a is b:
                m.mem[r] = a
            else:
                if r not in base.mem:
                    # same id reused in sibling branches for unrelated temporaries cannot happen (ids are unique)
                    raise Unmergeable
                m.mem[r] = merge_node(c, a, b)
        m.alloc = dict(A.alloc)
        m.alloc.update(B.alloc)
        m.freed = A.freed
        for k in set(A.ghost) | set(B.ghost):
            if k == 'exit_k' and A.ghost.get(k) is not B.ghost.get(k):
                continue
            if A.ghost.get(k) is not B.ghost.get(k) and A.ghost.get(k) != B.ghost.get(k):
                raise Unmergeable
            m.ghost[k] = A.ghost.get(k)
        for f in A.pc[L + 1:]:
            m.pc.append(implies(c, f))
        for f in B.pc[L + 1:]:
            m.pc.append(implies(not_(c), f))
        return m

    def s_ReturnStmt(self, n):
        ch = n.get('inner', [])
        if not ch:
            raise ReturnEx(None)
        rt = self.fnstack[-1][1]
        if rt is not None and rt.k == 'ref':
            raise ReturnEx(self.lval(ch[0]))
        v = self.ev(ch[0])
        if rt is not None and rt.k in ('int', 'real', 'bool') and not isinstance(v, LV):
            v = self.conv(v, rt)
        raise ReturnEx(v)

    def s_BreakStmt(self, n):
        raise BreakEx

    def s_ContinueStmt(self, n):
        raise ContinueEx

    def s_ForStmt(self, n):
        init, _, cond, inc, body = n['inner']
        if init:
            self.stmt(init)
        self.loop(n, cond or None, inc or None, body)

    def s_WhileStmt(self, n):
        ch = n['inner']
        self.loop(n, ch[-2], None, ch[-1])

    def s_DoStmt(self, n):
        body, cond = n['inner']
        self.loop(n, cond, None, body, dowhile=True)

    def s_CXXForRangeStmt(self, n):
        inner = [c for c in n['inner']]
        # init, range-decl, begin-decl, end-decl, cond, inc, loopvar-decl, body
        init, rng, beg, end, cond, inc, var, body = inner
        if init:
            self.stmt(init)
        for d in (rng, beg, end):
            if d:
                self.stmt(d)
        self.loop(n, cond, inc, [var, body])

    def s_SwitchStmt(self, n):
        ch = n['inner']
        v = self.ev(ch[-2])
        body = ch[-1]
        # flatten
        items = []
        labels = []

        def flat(c):
            if c['kind'] == 'CaseStmt':
                val = self.prog._constval(c['inner'][0])
                if val is None:
                    val = self.ev(c['inner'][0])
                labels.append((val, len(items)))
                flat(c['inner'][-1])
            elif c['kind'] == 'DefaultStmt':
                labels.append((None, len(items)))
                flat(c['inner'][-1])
            elif c['kind'] == 'AttributedStmt':
                flat(c['inner'][-1])
            else:
                items.append(c)
        for c in body['inner']:
            flat(c)
        start = None
        dflt = None
        for val, i in labels:
            if val is None:
                dflt = i
                continue
            if self.branch(eq(v, val)):
                start = i
                break
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for c in items[start:]:
                self.stmt(c)
        except BreakEx:
            pass

    def s_CXXTryStmt(self, n):
        body = n['inner'][0]
        nf = len(self.S.frames)
        d = self.depth, list(self.fnstack), self.where
        try:
            self.stmt(body)
        except CxxThrow as e:
            self.S.frames = self.S.frames[:nf]
            self.depth, self.fnstack, self.where = d
            for c in n['inner'][1:]:
                var, cb = c['inner']
                if not var or not var.get('type'):
                    return self.stmt(cb)
                ty = self.prog.ty(var['type'])
                t = ty.sub if ty.k == 'ref' else ty
                if self.exc_match(e.cls, t.name):
                    self.S.frames[-1][var['id']] = e.obj if e.obj is not None else LV(self.put(Lib('exception', {'cls': e.cls})))
                    old = self.S.ghost.get('curexc')
                    try:
                        return self.stmt(cb)
                    finally:
                        pass
            raise

    STD_EXC = {'std::invalid_argument': ['std::logic_error', 'std::exception'], 'std::out_of_range': ['std::logic_error', 'std::exception'],
               'std::bad_alloc': ['std::exception'], 'std::runtime_error': ['std::exception'],
               'H5::FileIException': ['H5::Exception'], 'H5::AttributeIException': ['H5::Exception'], 'H5::DataSetIException': ['H5::Exception'], 'H5::GroupIException': ['H5::Exception']}

    def exc_match(self, cls, target):
        cls, target = norm_exc(cls), norm_exc(target)
        if cls == target:
            return True
        if target in self.STD_EXC.get(cls, []):
            return True
        if self.prog.is_base(target, cls):
            return True
        ci = self.prog.classes.get(cls)
        if ci and target == 'std::exception':
            return any('exception' in b or self.exc_match(b, target) for b in ci['bases'])
        return False

    # ------------------------------------------------------------ expressions
    def cond(self, n):
        return truth(self.ev(n)) if True else None

    def ev(self, n):
        k = n['kind']
        f = getattr(self, 'e_' + k, None)
        if f is None:
            raise Unsupported('expression ' + k)
        return f(n)

    def lval(self, n):
        k = n['kind']
        f = getattr(self, 'l_' + k, None)
        if f is not None:
            return f(n)
        v = self.ev(n)
        if isinstance(v, LV):
            return v
        ty = self.prog.ty(n['type'])
        return LV(self.put(Cell(v, ty)))

    def rv(self, n):
        """rvalue of a glvalue/prvalue expression"""
        return self.ev(n)

    def e_ParenExpr(self, n): return self.ev(n['inner'][0])
    def l_ParenExpr(self, n): return self.lval(n['inner'][0])
    def e_ExprWithCleanups(self, n): return self.ev(n['inner'][0])
    def l_ExprWithCleanups(self, n): return self.lval(n['inner'][0])
    def e_CXXBindTemporaryExpr(self, n): return self.ev(n['inner'][0])
    def e_ConstantExpr(self, n): return self.ev(n['inner'][0])

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.ev(n['inner'][-1])

    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(n['inner'][0])
        if isinstance(v, LV):
            return v
        return LV(self.put(Cell(self.conv(v, self.prog.ty(n['type'])), self.prog.ty(n['type']))))

    l_MaterializeTemporaryExpr = e_MaterializeTemporaryExpr

    def e_IntegerLiteral(self, n):
        v = int(n['value'])
        return self.symconst.get(v, v)

    def e_FloatingLiteral(self, n):
        return Fraction(repr(float(n['value'])))

    def e_CharacterLiteral(self, n):
        return int(n['value'])

    def e_CXXBoolLiteralExpr(self, n):
        v = n['value']
        return v if isinstance(v, bool) else v == 'true'

    def e_CXXNullPtrLiteralExpr(self, n): return NULL
    def e_GNUNullExpr(self, n): return NULL

    def e_StringLiteral(self, n):
        return LV(self.strlit(str_lit(n['value'])))

    l_StringLiteral = e_StringLiteral

    def strlit(self, s):
        a = UninitArr()
        sv = s

        def get(k):
            if isinstance(k, int):
                return ord(sv[k]) if k < len(sv) else 0
            r = 0
            for i, ch in enumerate(sv):
                r = ite(eq(k, i), ord(ch), r)
            return r
        r = self.put(Arr(len(s) + 1, BaseArr(get), Ty('int', 'char', bits=8, signed=True)), 'static')
        self.S.ghost[('str', r)] = s
        return r

    def e_CXXThisExpr(self, n):
        t = self.S.frames[-1]['this']
        return Ptr(t.rid, t.idx)

    def l_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        did = rd['id']
        env = self.S.frames[-1]
        if did in env:
            return env[did]
        if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return FnRef(rd)
        if rd['kind'] == 'EnumConstantDecl':
            v = self.prog.enums.get((self.tu(), did))
            return v if v is not None else self.global_var(rd)
        return self.global_var(rd)

    def tu(self):
        return self.fnstack[-1][2]

    def global_var(self, rd):
        if '_const' in rd:
            return rd['_const']
        if rd.get('name') == 'npos':
            return 2 ** 64 - 1
        d = self.prog.globals.get((self.tu(), rd['id']))
        if d is None:
            g = self.lib.global_var(self, rd['name'])
            if g is not None:
                return g
            raise Unsupported('global %s' % rd.get('name'))
        q = d['_q']
        dd = self.prog.global_def.get(q, d)
        key = ('g', q)
        if key in self.S.ghost:
            return self.S.ghost[key]
        ty = self.prog.ty(dd['type'])
        const = 'const' in dd['type']['qualType']
        rid = self.alloc_ty(ty, 'uninit', 'static', d['name'])
        init = [x for x in dd.get('inner', []) if x and not x['kind'].endswith('Attr')]
        if init and (const or self.opts.get('init_globals') or True):
            self.fnstack.append(('<static>', None, dd['_tu']))
            self.S.frames.append({})
            try:
                if ty.k in ('arr',):
                    self.init_aggregate(rid, init[0], ty)
                elif ty.k in ('rec', 'lib'):
                    v = self.ev(init[0])
                    self.copy_region(v.rid, rid)
                else:
                    self.S.mem[rid] = Cell(self.conv(self.ev(init[0]), ty), ty)
            finally:
                self.fnstack.pop()
                self.S.frames.pop()
        lv = LV(rid)
        self.S.ghost[key] = lv
        return lv

    def e_DeclRefExpr(self, n):
        v = self.l_DeclRefExpr(n)
        return v

    def l_MemberExpr(self, n):
        base = n['inner'][0]
        if n.get('isArrow'):
            p = self.ev(base)
            lv = self.deref(p)
        else:
            lv = self.lval(base)
        mid = n.get('referencedMemberDecl')
        fo = self.prog.field_owner.get((self.tu(), mid))
        if fo is None:
            g = self.prog.globals.get((self.tu(), mid))
            if g is not None:
                return self.global_var({'id': mid, 'name': n['name']})
            r = self.lib.member(self, lv, n['name'])
            if r is not None:
                return r
            raise Unsupported('member %s' % n.get('name'))
        if lv.idx is not None:
            nd = self.node(lv.rid)
            if isinstance(nd, Rec):
                self.oblige(eq(lv.idx, 0), 'object access at offset 0')
                lv = LV(lv.rid)
            elif isinstance(nd, SoA):
                return LV(nd.f[fo[0] + '.' + fo[1]], lv.idx)
            elif isinstance(nd, Lib):
                return self.lib.elem_field(self, lv, nd, fo)
        f = self.fld(lv, fo[0] + '.' + fo[1])
        nd = self.S.mem[f.rid]
        if isinstance(nd, Cell) and nd.ty is not None and nd.ty.k == 'ref':
            return nd.v
        return f

    def e_MemberExpr(self, n):
        return self.l_MemberExpr(n)

    def l_ArraySubscriptExpr(self, n):
        a, b = n['inner']
        p = self.ev(a)
        i = self.ev(b)
        if isinstance(i, Ptr):
            p, i = i, p
        if isinstance(p, LV):
            p = Ptr(p.rid, 0)
        return self.deref(self.padd(p, i))

    def e_ArraySubscriptExpr(self, n):
        return self.l_ArraySubscriptExpr(n)

    def padd(self, p, i):
        if p.rid is None:
            c = simp(eq(i, 0))
            if c is True:
                return p
            self.oblige(False, 'no arithmetic on null pointer')
        off = add(p.off if p.off is not None else 0, i)
        if p.off is None and is_conc(off) and off == 0:
            return p
        return Ptr(p.rid, simp(off) if not is_conc(off) else off)

    # casts
    def e_ImplicitCastExpr(self, n):
        return self.cast(n, n['castKind'])

    def e_CStyleCastExpr(self, n): return self.cast(n, n['castKind'])
    def e_CXXStaticCastExpr(self, n): return self.cast(n, n['castKind'])
    def e_CXXFunctionalCastExpr(self, n): return self.cast(n, n['castKind'])
    def e_CXXReinterpretCastExpr(self, n): return self.cast(n, n['castKind'])
    def e_CXXConstCastExpr(self, n): return self.cast(n, n['castKind'])
    def e_CXXDynamicCastExpr(self, n): return self.cast(n, n['castKind'])

    def l_ImplicitCastExpr(self, n):
        if n['castKind'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast'):
            return self.lval(n['inner'][0])
        v = self.ev(n)
        if isinstance(v, LV):
            return v
        ty = self.prog.ty(n['type'])
        return LV(self.put(Cell(v, ty)))

    l_CXXStaticCastExpr = l_ImplicitCastExpr
    l_CStyleCastExpr = l_ImplicitCastExpr
    l_CXXConstCastExpr = l_ImplicitCastExpr

    def cast(self, n, ck):
        sub = n['inner'][0]
        if ck == 'LValueToRValue':
            lv = self.lval(sub)
            if not isinstance(lv, LV):
                return lv
            return self.read(lv)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast'):
            v = self.ev(sub)
            return v
        if ck == 'ArrayToPointerDecay':
            lv = self.lval(sub)
            return Ptr(lv.rid, 0) if lv.idx is None else Ptr(lv.rid, lv.idx)
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.lval(sub)
        if ck == 'NullToPointer':
            return NULL
        if ck == 'ToVoid':
            self.ev(sub)
            return None
        v = self.ev(sub)
        ty = self.prog.ty(n['type'])
        if ck == 'IntegralCast':
            return self.cast_int(v, ty) if ty.k == 'int' else v
        if ck in ('IntegralToFloating', 'BooleanToSignedIntegral'):
            return self.conv(b2i(v), ty)
        if ck == 'FloatingToIntegral':
            if is_conc(v):
                r = int(v) if v >= 0 else -int(-v)
            else:
                z = toz(v, True)
                r = z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))
            lo, hi = int_range(ty)
            self.oblige(and_(le(lo, r), le(r, hi)), 'floating value fits the integer type it is converted to')
            return r
        if ck == 'FloatingCast':
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return truth(v)
        if ck == 'PointerToBoolean':
            return self.ptr_truth(v)
        if ck == 'BitCast':
            return v
        if ck == 'Dynamic':
            if v.rid is None:
                return NULL
            nd = self.node(v.rid)
            t = ty.sub.name
            if isinstance(nd, Rec):
                return v if self.prog.is_base(t, nd.cls) else NULL
            raise Unsupported('dynamic_cast')
        if ck == 'IntegralToPointer' or ck == 'PointerToIntegral':
            raise Unsupported(ck)
        raise Unsupported('cast ' + ck)

    def ptr_truth(self, v):
        if isinstance(v, Ptr):
            return v.rid is not None
        if isinstance(v, FnRef):
            return True
        raise Unsupported('pointer truth of %r' % (v,))

    # operators
    def e_UnaryOperator(self, n):
        op = n['opcode']
        sub = n['inner'][0]
        ty = self.prog.ty(n['type'])
        if op == '&':
            lv = self.lval(sub)
            if isinstance(lv, FnRef):
                return lv
            return Ptr(lv.rid, lv.idx)
        if op == '*':
            return self.l_UnaryOperator(n)
        if op == '!':
            return not_(truth(self.ev(sub)))
        if op == '-':
            v = self.ev(sub)
            if ty.k == 'int':
                return self.norm_int(neg(v), ty, 'unary -')
            return neg(v)
        if op == '+':
            return self.ev(sub)
        if op == '~':
            v = self.ev(sub)
            if is_conc(v):
                return self.cast_int(~v, ty)
            raise Unsupported('~')
        if op in ('++', '--'):
            lv = self.lval(sub)
            old = self.read(lv)
            d = 1 if op == '++' else -1
            if isinstance(old, Ptr):
                new = self.padd(old, d)
            elif ty.k == 'real':
                new = add(old, Fraction(d))
            else:
                sty = self.prog.ty(sub['type'])
                new = add(old, d)
                if sty.k == 'int':
                    new = self.norm_int(new, sty, op)
            self.write(lv, new)
            return old if n.get('isPostfix') else lv
        if op == '__extension__':
            return self.ev(sub)
        raise Unsupported('unary ' + op)

    def l_UnaryOperator(self, n):
        if n['opcode'] == '*':
            p = self.ev(n['inner'][0])
            if isinstance(p, FnRef):
                return p
            return self.deref(p)
        v = self.e_UnaryOperator(n)
        if isinstance(v, LV):
            return v
        return LV(self.put(Cell(v, self.prog.ty(n['type']))))

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            v = self.ev(b)
            lv = self.lval(a)
            if isinstance(v, LV):
                v2 = self.read(v)
                if isinstance(v2, LV):
                    self.copy_region(v2.rid, lv.rid)
                    return lv
                v = v2
            self.write(lv, v)
            return lv
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op in ('&&', '||'):
            return self.shortcircuit(op, a, b)
        x = self.ev(a)
        y = self.ev(b)
        return self.binop(op, x, y, self.prog.ty(n['type']), n)

    def l_BinaryOperator(self, n):
        v = self.e_BinaryOperator(n)
        if isinstance(v, LV):
            return v
        return LV(self.put(Cell(v, self.prog.ty(n['type']))))

    def shortcircuit(self, op, a, b):
        x = truth(self.ev(a))
        x = simp(x)
        if isinstance(x, bool):
            if op == '&&':
                return truth(self.ev(b)) if x else False
            return True if x else truth(self.ev(b))
        g = x if op == '&&' else not_(x)
        r = self.guarded(g, lambda: truth(self.ev(b)))
        if r is not None:
            return and_(x, r[0]) if op == '&&' else or_(x, r[0])
        if self.branch(x):
            return truth(self.ev(b)) if op == '&&' else True
        return False if op == '&&' else truth(self.ev(b))

    def guarded(self, g, f):
        """evaluate a pure expression under guard g without forking; None if impossible"""
        base = self.S
        L = len(base.pc)
        ob = (dict(self.obls), list(self.obl_order))
        d = self.depth, list(self.fnstack), self.where
        self.spec += 1
        try:
            self.S = base.copy()
            self.S.pc.append(g)
            v = f()
            A = self.S
            for r, nd in base.mem.items():
                if A.mem.get(r) is not nd:
                    raise CannotSpec
            if A.freed != base.freed:
                raise CannotSpec
            m = base.copy()
            for r in A.mem:
                if r not in m.mem:
                    m.mem[r] = A.mem[r]
            m.alloc.update(A.alloc)
            m.ghost = A.ghost
            for x in A.pc[L + 1:]:
                m.pc.append(implies(g, x))
            self.S = m
            return (v,)
        except (CannotSpec, Unmergeable, CxxThrow, NeedSplit, PathEnd):
            self.S = base
            self.obls, self.obl_order = ob
            self.depth, self.fnstack, self.where = d
            return None
        finally:
            self.spec -= 1

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        x = simp(truth(self.ev(c)))
        if isinstance(x, bool):
            return self.ev(a if x else b)
        ga = self.guarded(x, lambda: self.ev(a))
        if ga is not None:
            gb = self.guarded(not_(x), lambda: self.ev(b))
            if gb is not None:
                try:
                    va, vb = ga[0], gb[0]
                    return merge_val(x, va, vb)
                except Unmergeable:
                    pass
        if self.branch(x):
            return self.ev(a)
        return self.ev(b)

    def binop(self, op, x, y, ty, n=None):
        if isinstance(x, LV):
            x = self.read(x)
        if isinstance(y, LV):
            y = self.read(y)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return self.ptrop(op, x, y)
        if isinstance(x, FnRef) or isinstance(y, FnRef):
            raise Unsupported('function pointer operation')
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return cmp(op, x, y)
        if ty.k == 'real':
            if op == '+':
                return add(x, y)
            if op == '-':
                return sub(x, y)
            if op == '*':
                return mul(x, y)
            if op == '/':
                if self.check_div:
                    self.oblige(cmp('!=', y, 0), 'divisor is non-zero')
                if is_conc(y) and y == 0:
                    return FN('divzero')(toz(x, True))
                return div(x, y)
            raise Unsupported('real op ' + op)
        if op == '+':
            return self.norm_int(add(x, y), ty, '+')
        if op == '-':
            return self.norm_int(sub(x, y), ty, '-')
        if op == '*':
            return self.norm_int(mul(x, y), ty, '*')
        if op == '/':
            self.oblige(cmp('!=', y, 0), 'integer divisor is non-zero')
            if not ty.signed and not (is_conc(x) and is_conc(y)):
                return toz(x) / toz(y)
            return self.norm_int(cdiv(x, y), ty, '/')
        if op == '%':
            self.oblige(cmp('!=', y, 0), 'integer divisor is non-zero')
            if not ty.signed and not (is_conc(x) and is_conc(y)):
                return toz(x) % toz(y)
            return cmod(x, y)
        if op in ('<<', '>>', '&', '|', '^') and is_conc(x) and is_conc(y):
            x, y = int(x), int(y)
            r = {'<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]()
            return self.cast_int(r, ty)
        if op == '<<' and is_conc(y):
            return self.norm_int(mul(x, 1 << y), ty, '<<')
        if op == '>>' and is_conc(y):
            return toz(x) / (1 << y)
        if op == '&' and is_conc(y) and (y & (y + 1)) == 0:
            return toz(x) % (y + 1)
        raise Unsupported('int op ' + op)

    def ptrop(self, op, x, y):
        if op in ('==', '!='):
            if isinstance(x, int):
                x = NULL
            if isinstance(y, int):
                y = NULL
            r = self.ptr_eq(x, y)
            return r if op == '==' else not_(r)
        if op == '+':
            return self.padd(x, y) if isinstance(x, Ptr) else self.padd(y, x)
        if op == '-':
            if isinstance(y, Ptr):
                if x.rid != y.rid:
                    self.oblige(False, 'pointer difference within one array')
                return sub((x.off if x.off is not None else 0), (y.off if y.off is not None else 0))
            return self.padd(x, neg(y))
        if op in ('<', '<=', '>', '>='):
            if x.rid != y.rid:
                raise Unsupported('pointer comparison across regions')
            return cmp(op, (x.off if x.off is not None else 0), (y.off if y.off is not None else 0))
        raise Unsupported('pointer op ' + op)

    def ptr_eq(self, x, y):
        if not isinstance(x, Ptr) or not isinstance(y, Ptr):
            raise Unsupported('pointer comparison %r %r' % (x, y))
        if x.rid != y.rid:
            return False
        if x.rid is None:
            return True
        return eq(x.off if x.off is not None else 0, y.off if y.off is not None else 0)

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = n['inner']
        y = self.ev(b)
        if isinstance(y, LV):
            y = self.read(y)
        lv = self.lval(a)
        x = self.read(lv)
        ct = self.prog.ty(n['computeResultType']) if 'computeResultType' in n else self.prog.ty(n['type'])
        lt_ = self.prog.ty(a['type'])
        if isinstance(x, Ptr):
            r = self.ptrop(op, x, y)
        else:
            if ct.k == 'real':
                x = self.conv(x, ct)
            r = self.binop(op, x, y, ct)
            if lt_.k == 'int' and ct.k == 'real':
                z = toz(r, True)
                r = z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)) if not is_conc(r) else int(r)
                lo, hi = int_range(lt_)
                self.oblige(and_(le(lo, r), le(r, hi)), 'floating value fits the integer type it is converted to')
            elif lt_.k == 'int' and (lt_.bits != ct.bits or lt_.signed != ct.signed):
                r = self.cast_int(r, lt_)
        self.write(lv, r)
        return lv

    l_CompoundAssignOperator = e_CompoundAssignOperator

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            t = n.get('argType')
            ty = self.prog.ty(t) if t else self.prog.ty(n['inner'][0]['type'])
            return self.sizeof(ty)
        raise Unsupported('trait')

    def sizeof(self, ty):
        if ty.k == 'int':
            return ty.bits // 8
        if ty.k == 'real':
            return 4 if ty.name == 'float' else 8
        if ty.k == 'bool':
            return 1
        if ty.k == 'ptr':
            return 8
        if ty.k == 'arr':
            return mul(self.symlen(ty.n), self.sizeof(ty.sub))
        if ty.k == 'lib' and ty.name.endswith('__jmp_buf_tag'):
            return 200
        raise Unsupported('sizeof %r' % ty)

    def e_ImplicitValueInitExpr(self, n):
        return self.init_scalar(self.prog.ty(n['type']), 'zero', '')

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_InitListExpr(self, n):
        ty = self.prog.ty(n['type'])
        if ty.k in ('int', 'real', 'bool', 'ptr'):
            ch = n.get('inner', [])
            return self.ev(ch[0]) if ch else self.init_scalar(ty, 'zero', '')
        rid = self.alloc_ty(ty, 'uninit')
        self.init_aggregate(rid, n, ty)
        return LV(rid)

    def e_CXXStdInitializerListExpr(self, n):
        v = self.ev(n['inner'][0])
        nd = self.S.mem.get(v.rid) if isinstance(v, LV) else None
        if not isinstance(nd, Arr):
            raise Unsupported('initializer list')
        return LV(self.put(Lib('initlist', {'arr': v.rid, 'n': nd.n}, self.prog.ty(n['type']))))

    def e_CXXDefaultArgExpr(self, n):
        if n.get('inner'):
            return self.ev(n['inner'][0])
        raise Unsupported('default argument')

    def e_CXXDefaultInitExpr(self, n):
        if n.get('inner'):
            return self.ev(n['inner'][0])
        raise Unsupported('default init')

    def e_CXXTypeidExpr(self, n):
        if 'typeArg' not in n:
            raise Unsupported('typeid of an expression')
        t = self.prog.ty(n['typeArg'])
        return LV(self.put(Lib('typeinfo', {'t': (t.k, t.name, t.bits, t.signed)}), 'static'))

    l_CXXTypeidExpr = e_CXXTypeidExpr

    def e_CXXThrowExpr(self, n):
        ch = n.get('inner', [])
        if not ch:
            cur = self.S.ghost.get('curexc')
            raise Unsupported('rethrow')
        sub = ch[0]
        ty = self.prog.ty(sub['type'])
        snap = self.S.copy()
        try:
            v = self.ev(sub)
        except (Unsupported, AttributeError, KeyError, TypeError):
            # the exception object (its message) is not needed
            self.S = snap
            v = None
        if not isinstance(v, LV):
            v = LV(self.put(Cell(v, ty))) if v is not None else None
        raise CxxThrow(ty.name, v)

    # new / delete
    def e_CXXNewExpr(self, n):
        ty = self.prog.ty(n['type']).sub
        ch = n.get('inner', [])
        if n.get('isArray'):
            ln = self.ev(ch[0])
            ln = simp(ln) if not is_conc(ln) else ln
            init = len(ch) > 1 and n.get('initStyle')
            if ty.k in ('int', 'real', 'bool'):
                a = self.init_arr(ty, 'zero' if init else 'uninit', 'new')
                rid = self.put(Arr(ln, a, ty), 'new[]')
                if init and ch[1]['kind'] == 'InitListExpr' and ch[1].get('inner'):
                    self.init_aggregate(rid, ch[1], Ty('arr', sub=ty, n=ln))
                return Ptr(rid, 0)
            if ty.k == 'ptr':
                return Ptr(self.put(Arr(ln, UninitArr() if not init else BaseArr(lambda k: NULL), ty), 'new[]'), 0)
            if isinstance(ln, int):
                els = []
                for i in range(ln):
                    if ty.k == 'rec':
                        els.append(self.construct(ty, [], None, 'sub').rid)
                    else:
                        els.append(self.alloc_ty(ty, 'uninit', 'sub'))
                return Ptr(self.put(RArr(tuple(els), ty), 'new[]'), 0)
            r = self.lib.new_array(self, ty, ln)
            if r is not None:
                return r
            if ty.k == 'rec':
                fs = self.prog.all_fields(ty.name)
                if fs and all(t.k in ('int', 'real', 'bool') for _, _, t, _, _ in fs) and not any(self.prog.body(self.prog.definition(c)) for c in self.prog.classes[ty.name]['ctors'] if not c.get('isImplicit')):
                    return Ptr(self.put(SoA(ty.name, ln, {o + '.' + m: self.put(Arr(ln, UninitArr(), t), 'sub') for o, m, t, _, _ in fs}), 'new[]'), 0)
            raise Unsupported('new %r[symbolic]' % ty)
        if ty.k in ('rec', 'lib'):
            hook = self.newhook.get(ty.name) if ty.k == 'rec' else None
            if hook:
                r = hook(self, [self.ev(a) for a in (ch[0].get('inner') or []) if a['kind'] != 'CXXDefaultArgExpr'] if ch else [])
                if r is not None:
                    return r
            if ch:
                v = self.ev(ch[0])
                if isinstance(v, LV):
                    self.S.alloc[v.rid] = 'new'
                    return Ptr(v.rid)
            rid = self.alloc_ty(ty, 'uninit', 'new')
            return Ptr(rid)
        rid = self.put(Cell(UNINIT, ty), 'new')
        if ch:
            self.S.mem[rid] = Cell(self.conv(self.ev(ch[0]), ty), ty)
        return Ptr(rid)

    def e_CXXDeleteExpr(self, n):
        p = self.ev(n['inner'][0])
        if isinstance(p, LV):
            p = self.read(p)
        if isinstance(p, Uninit):
            self.oblige(False, 'deleted pointer is initialised')
        if p.rid is None:
            return None
        arr = bool(n.get('isArray') or n.get('isArrayAsWritten'))
        if self.opts.get('delhook') and self.opts['delhook'](self, p, arr):
            return None
        if p.rid in self.S.freed:
            self.oblige(False, 'no double free')
        self.oblige(eq((p.off if p.off is not None else 0), 0), 'deleted pointer is the start of the allocation')
        al = self.S.alloc.get(p.rid)
        if al in ('new', 'new[]', 'stack', 'sub', 'static'):
            self.oblige(al == ('new[]' if arr else 'new'), 'delete matches the allocation (new / new[])')
        nd = self.S.mem[p.rid]
        if isinstance(nd, Rec) and not arr:
            d = self.find_dtor(nd.cls)
            if d is not None:
                self.call_body(d, LV(p.rid), [], None)
        self.S.freed = self.S.freed | {p.rid}
        return None

    def find_dtor(self, cls):
        ci = self.prog.classes.get(cls)
        if ci and ci['dtor'] is not None:
            dd = self.prog.definition(ci['dtor'])
            if self.prog.body(dd):
                return dd
        return None

    # ------------------------------------------------------------ construct / call
    def e_CXXConstructExpr(self, n):
        ty = self.prog.ty(n['type'])
        return self.ev_construct(n, ty)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def ev_construct(self, n, ty):
        args = n.get('inner', [])
        if ty.k == 'lib':
            return self.lib.construct(self, ty, args, n)
        if n.get('elidable') and len(args) == 1 and self.is_temp(args[0]):
            return self.ev(args[0])
        return self.construct(ty, args, n['ctorType']['qualType'])

    def construct(self, ty, argnodes, ctorsig, alloc='stack', into=None):
        """run constructor ctorsig of class ty on a new (or given) region"""
        rid = into if into is not None else self.alloc_rec(ty.name, 'uninit', alloc)
        ci = self.prog.classes[ty.name]
        ct = None
        for c in ci['ctors']:
            if ctorsig is not None and norm_sig(c['type']['qualType']) == norm_sig(ctorsig):
                cd = self.prog.definition(c)
                if ct is None or self.prog.body(cd):
                    ct = cd
        if ctorsig is None:
            for c in ci['ctors']:
                if len(params(c)) == 0:
                    ct = self.prog.definition(c)
        key = ty.name + '::' + ty.name.split('<')[0].split('::')[-1]
        if ct is not None and self.find_contract(ct) is not None:
            args = self.bind_args(ct, argnodes)
            self.find_contract(ct)(self, ct, LV(rid), args)
            return LV(rid)
        if ct is None or not self.prog.body(ct) or ct.get('isImplicit') and not any(x and x['kind'] == 'CXXCtorInitializer' for x in ct.get('inner', [])):
            # implicit or defaulted
            if argnodes and len(argnodes) == 1:
                src = self.lval(argnodes[0])
                self.implicit_copy(src.rid, rid, ty.name)
                return LV(rid)
            if not argnodes:
                self.default_init(rid, ty.name)
                return LV(rid)
            raise Unsupported('constructor %s %s' % (ty.name, ctorsig))
        if ct.get('isImplicit') and len(params(ct)) == 1:
            src = self.lval(argnodes[0])
            self.implicit_copy(src.rid, rid, ty.name)
            return LV(rid)
        args = self.bind_args(ct, argnodes)
        self.run_ctor(ct, LV(rid), args)
        return LV(rid)

    def implicit_copy(self, src, dst, cls):
        a, b = self.node(src), self.node(dst)
        for k, r in a.f.items():
            if k not in b.f:
                continue
            nd = self.node(r)
            if isinstance(nd, Rec):
                self.copy_construct(r, b.f[k])
            else:
                self.copy_region(r, b.f[k])

    def copy_construct(self, src, dst):
        cls = self.node(src).cls
        for c in self.prog.classes[cls]['ctors']:
            ps = params(c)
            if len(ps) == 1 and self.prog.ty(ps[0]['type']).k == 'ref' and self.prog.ty(ps[0]['type']).sub.name == cls and '&&' not in ps[0]['type']['qualType']:
                cd = self.prog.definition(c)
                if self.prog.body(cd) and not cd.get('isImplicit'):
                    self.run_ctor(cd, LV(dst), [LV(src)])
                    return
        self.implicit_copy(src, dst, cls)

    def default_init(self, rid, cls):
        ci = self.prog.classes[cls]
        nd = self.node(rid)
        for owner, nm, ty, d, tu in self.prog.all_fields(cls):
            r = nd.f[owner + '.' + nm]
            init = [x for x in d.get('inner', []) if x and not x['kind'].endswith('Attr')] if d.get('hasInClassInitializer') else []
            if init:
                self.field_init(LV(rid), r, init[0], ty, tu)
            elif ty.k == 'rec':
                self.construct(ty, [], None, into=r)
            elif ty.k == 'lib':
                self.S.mem[r] = self.lib.default(self, ty, 'ctor', nm)
            elif ty.k == 'arr' and ty.sub.k == 'rec':
                for e in self.node(r).els:
                    self.construct(ty.sub, [], None, into=e)

    def field_init(self, this, r, node, ty, tu):
        self.fnstack.append(('<init>', None, tu))
        self.S.frames.append({'this': this})
        try:
            self.init_into(r, node, ty)
        finally:
            self.fnstack.pop()
            self.S.frames.pop()

    def init_into(self, r, node, ty):
        while node['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
            node = node['inner'][0]
        if ty.k in ('int', 'real', 'bool', 'ptr', 'fn'):
            v = self.ev(node)
            if isinstance(v, LV):
                v = self.read(v)
            self.setnode(r, Cell(self.conv(v, ty), ty))
            return
        if ty.k == 'ref':
            self.setnode(r, Cell(self.lval(node), ty))
            return
        if ty.k == 'arr':
            if node['kind'] == 'ImplicitValueInitExpr':
                nd = self.node(r)
                if isinstance(nd, Arr):
                    self.setnode(r, Arr(nd.n, self.init_arr(nd.ty, 'zero', ''), nd.ty))
                    return
            if node['kind'] == 'CXXConstructExpr' and isinstance(self.node(r), RArr):
                for e in self.node(r).els:
                    self.construct(ty.sub, node.get('inner', []), node['ctorType']['qualType'], into=e)
                return
            self.init_aggregate(r, node, ty)
            return
        if ty.k == 'rec' and node['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and not (node.get('elidable')):
            self.construct(ty, node.get('inner', []), node['ctorType']['qualType'], into=r)
            return
        v = self.ev(node)
        if isinstance(v, LV):
            self.copy_region(v.rid, r)
            return
        raise Unsupported('member initialiser')

    def run_ctor(self, ct, this, args):
        c = self.find_contract(ct)
        if c is not None:
            return c(self, ct, this, args)
        self.enter(ct, this, args)
        nf = len(self.S.frames)
        try:
            cls = ct['_cls']
            inits = [x for x in ct.get('inner', []) if x and x['kind'] == 'CXXCtorInitializer']
            done = set()
            nd = self.node(this.rid)
            fields = {}
            for nm, t, d, tu in self.prog.classes[cls]['fields']:
                fields[nm] = (nd.f[cls + '.' + nm], self.prog.ty(t), d, tu)
            # delegating / base initialisers
            explicit_bases = set()
            for i in inits:
                if 'baseInit' in i or 'delegatingInit' in i:
                    bt = self.prog.ty(i.get('baseInit') or i.get('delegatingInit'))
                    explicit_bases.add(bt.name)
                    e = i['inner'][0]
                    while e['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
                        e = e['inner'][0]
                    if bt.k == 'rec':
                        self.construct(bt, e.get('inner', []), e['ctorType']['qualType'], into=this.rid)
                    if 'delegatingInit' in i:
                        done = set(fields)
            for b in self.prog.classes[cls]['bases'] if not any('delegatingInit' in i for i in inits) else ():
                if b in self.prog.classes and b not in explicit_bases:
                    self.construct(Ty('rec', b), [], None, into=this.rid)
            byname = {i['anyInit']['name']: i for i in inits if 'anyInit' in i}
            for nm, (r, ty, d, tu) in fields.items():
                if nm in done:
                    continue
                if nm in byname:
                    e = byname[nm]['inner'][0]
                    if e['kind'] == 'CXXDefaultInitExpr' and not e.get('inner'):
                        init = [x for x in d.get('inner', []) if x and not x['kind'].endswith('Attr')]
                        self.field_init(this, r, init[0], ty, tu)
                    else:
                        self.init_into(r, e, ty)
                elif d.get('hasInClassInitializer'):
                    init = [x for x in d.get('inner', []) if x and not x['kind'].endswith('Attr')]
                    self.field_init(this, r, init[0], ty, tu)
                elif ty.k == 'rec':
                    self.construct(ty, [], None, into=r)
                elif ty.k == 'lib':
                    self.setnode(r, self.lib.default(self, ty, 'ctor', nm))
                elif ty.k == 'arr' and ty.sub.k == 'rec':
                    for e in self.node(r).els:
                        self.construct(ty.sub, [], None, into=e)
            try:
                self.stmt(self.prog.body(ct))
            except ReturnEx:
                pass
        finally:
            self.leave(nf)

    def enter(self, d, this, args):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth')
        env = {}
        if this is not None:
            env['this'] = this
        for p, a in zip(params(d), args):
            env[p['id']] = a
            if p.get('name'):
                self.declnames[p['id']] = p['name']
        self.S.frames.append(env)
        rt = self.prog._ty(rettype(d['type']['qualType'])) if d['kind'] not in ('CXXConstructorDecl', 'CXXDestructorDecl') else None
        self.fnstack.append((d['_q'], rt, d['_tu']))
        self.where = d['_q']
        self.inlined.add(d['_q'])
        self.index_names(d)

    declnames = {}
    _indexed = set()

    def index_names(self, d):
        if id(d) in self._indexed:
            return
        self._indexed.add(id(d))
        st = list(d.get('inner', []))
        while st:
            x = st.pop()
            if not x:
                continue
            if x.get('kind') == 'VarDecl':
                self.declnames[x['id']] = x.get('name')
            st.extend(x.get('inner', []))

    def leave(self, nf):
        self.S.frames = self.S.frames[:nf - 1]
        self.depth -= 1
        self.fnstack.pop()
        self.where = self.fnstack[-1][0] if self.fnstack else ''

    def bind_args(self, d, argnodes):
        out = []
        ps = params(d)
        for p, a in zip(ps, argnodes):
            ty = self.prog.ty(p['type'])
            if a['kind'] == 'CXXDefaultArgExpr' and not a.get('inner'):
                dn = [x for x in p.get('inner', []) if x and not x['kind'].endswith('Attr')]
                if not dn:
                    dn = self.find_default(d, ps.index(p))
                # evaluated in the callee's translation unit
                self.fnstack.append(('<default>', None, d['_tu']))
                try:
                    out.append(self.bind_one(ty, dn[0]))
                finally:
                    self.fnstack.pop()
                continue
            out.append(self.bind_one(ty, a))
        return out

    def find_default(self, d, i):
        for x in self.prog.fn_by_id.values():
            if x['_m'] == d['_m']:
                p = params(x)[i]
                dn = [y for y in p.get('inner', []) if y and not y['kind'].endswith('Attr')]
                if dn:
                    return dn
        raise Unsupported('default argument value')

    def bind_one(self, ty, a):
        if ty.k == 'ref':
            return self.lval(a)
        v = self.ev(a)
        if isinstance(v, LV):
            if ty.k in ('rec', 'lib'):
                return v if self.is_temp(a) else LV(self.clone_region(v.rid))
            v = self.read(v)
            if isinstance(v, LV):
                return v
        return LV(self.put(Cell(self.conv(v, ty), ty)))

    def find_contract(self, d):
        c = self.contracts.get(d['_m']) or self.contracts.get(d['_q'])
        if c is not None and self.fnstack and d['_q'] == self.unit_fn and len(self.fnstack) == 0:
            return None
        if c is not None:
            self.used_contracts.add(d['_q'])
        return c

    unit_fn = None

    def call_decl(self, d, this, argnodes, node=None):
        dd = self.prog.definition(d)
        # virtual dispatch
        args = self.bind_args(dd, argnodes)
        return self.call_fn(dd, this, args)

    def call_fn(self, dd, this, args):
        c = self.find_contract(dd)
        if c is not None:
            return c(self, dd, this, args)
        if not self.prog.body(dd):
            if dd['kind'] == 'CXXMethodDecl' and dd.get('name') == 'operator=' and len(args) == 1:
                self.copy_region(args[0].rid, this.rid)
                return this
            raise Unsupported('no body for %s' % dd['_q'])
        return self.call_body(dd, this, args, None)

    def call_body(self, dd, this, args, rt):
        self.enter(dd, this, args)
        nf = len(self.S.frames)
        try:
            try:
                self.stmt(self.prog.body(dd))
                r = None
            except ReturnEx as e:
                r = e.v
        finally:
            self.leave(nf)
        return r

    def e_CallExpr(self, n):
        callee = n['inner'][0]
        args = n['inner'][1:]
        f = self.ev(callee)
        if isinstance(f, Ptr) or isinstance(f, LV):
            f = self.read(f) if isinstance(f, LV) else f
        if not isinstance(f, FnRef):
            raise Unsupported('indirect call')
        rd = f.decl
        d = self.prog.fn_by_id.get((self.tu(), rd['id'])) if '_q' not in rd else rd
        if d is None:
            self.used_lib.add(rd['name'])
            return self.lib.call(self, rd['name'], args, n, rd)
        return self.call_decl(d, None, args, n)

    def l_CallExpr(self, n):
        v = self.e_CallExpr(n)
        if isinstance(v, LV):
            return v
        return LV(self.put(Cell(v, self.prog.ty(n['type']))))

    def e_CXXMemberCallExpr(self, n):
        me = n['inner'][0]
        while me['kind'] == 'ParenExpr':
            me = me['inner'][0]
        args = n['inner'][1:]
        if me['kind'] == 'BinaryOperator' and me['opcode'] in ('->*', '.*'):
            o = self.ev(me['inner'][0])
            if isinstance(o, LV) and me['opcode'] == '->*':
                o = self.read(o)
            this = self.deref(o) if isinstance(o, Ptr) else o
            f = self.ev(me['inner'][1])
            if isinstance(f, LV):
                f = self.read(f)
            if not isinstance(f, FnRef):
                raise Unsupported('member pointer')
            d = f.decl if '_q' in f.decl else self.prog.fn_by_id.get((self.tu(), f.decl['id']))
            if d is None:
                raise Unsupported('member pointer')
            return self.call_decl(self.virtual_target(d, this), this, args, n)
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call via ' + me['kind'])
        base = me['inner'][0]
        if me.get('isArrow'):
            this = self.ev(base)
            if isinstance(this, LV):
                this = self.read(this)
            this = self.deref(this)
        else:
            this = self.lval(base)
        mid = me.get('referencedMemberDecl')
        d = self.prog.fn_by_id.get((self.tu(), mid))
        if d is None:
            nm = me['name']
            return self.lib.method(self, this, nm, args, n)
        nd = self.S.mem.get(this.rid)
        if this.idx is not None:
            if isinstance(nd, Rec):
                self.oblige(eq(this.idx, 0), 'object access at offset 0')
                this = LV(this.rid)
        d = self.virtual_target(d, this, base)
        return self.call_decl(d, this, args, n)

    def virtual_target(self, d, this, base=None):
        nd = self.S.mem.get(this.rid)
        if self.is_virtual(d) and isinstance(nd, Rec):
            if base is not None and self.qualified_call(d, base):
                return d
            o = self.prog.find_override(nd.cls, d['name'], d['type']['qualType'])
            if o is not None:
                return o
        return d

    def qualified_call(self, d, base):
        """Base::f(): the class of the object expression overrides f, yet the call names the function of a base class"""
        x = base
        while x['kind'] == 'ImplicitCastExpr' and x.get('castKind') in ('UncheckedDerivedToBase', 'DerivedToBase'):
            x = x['inner'][0]
        if x is base:
            return False
        t = self.prog.ty(x['type'])
        t = t.sub if t.k in ('ptr', 'ref') else t
        if t.k != 'rec':
            return False
        o = self.prog.find_override(t.name, d['name'], d['type']['qualType'])
        return o is not None and o.get('_cls') != d.get('_cls')

    def is_virtual(self, d):
        if d.get('virtual') or d.get('pure'):
            return True
        cls = d.get('_cls')
        # overrides are virtual too
        def look(c):
            ci = self.prog.classes.get(c)
            if not ci:
                return False
            for m in ci['methods'].get(d['name'], []):
                if m.get('virtual') and norm_sig(m['type']['qualType']) == norm_sig(d['type']['qualType']):
                    return True
            return any(look(b) for b in ci['bases'])
        return cls is not None and look(cls)

    def l_CXXMemberCallExpr(self, n):
        v = self.e_CXXMemberCallExpr(n)
        if isinstance(v, LV):
            return v
        return LV(self.put(Cell(v, self.prog.ty(n['type']))))

    def e_CXXOperatorCallExpr(self, n):
        callee = n['inner'][0]
        args = n['inner'][1:]
        x = callee
        while x['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            x = x['inner'][0]
        rd = x.get('referencedDecl')
        d = self.prog.fn_by_id.get((self.tu(), rd['id']))
        if d is None:
            return self.lib.operator(self, rd['name'], args, n, rd)
        if d['kind'] == 'CXXMethodDecl':
            if d.get('storageClass') == 'static':
                return self.call_decl(d, None, args[1:], n)
            # assignment operators evaluate the right operand first (C++17)
            if d['name'].endswith('=') and d['name'] not in ('operator==', 'operator!=', 'operator<=', 'operator>='):
                dd = self.prog.definition(d)
                av = self.bind_args(dd, args[1:])
                this = self.lval(args[0])
                return self.call_fn(self.virtual_target(dd, this), this, av)
            this = self.lval(args[0])
            return self.call_decl(self.virtual_target(d, this), this, args[1:], n)
        return self.call_decl(d, None, args, n)

    def l_CXXOperatorCallExpr(self, n):
        v = self.e_CXXOperatorCallExpr(n)
        if isinstance(v, LV):
            return v
        return LV(self.put(Cell(v, self.prog.ty(n['type']))))

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(n['inner'][0])

    def loop(self, n, cond, inc, body, dowhile=False):
        import loops
        return loops.run(self, n, cond, inc, body, dowhile)


# -------------------------------------------------------------------- helpers
def int_range(ty):
    if ty.signed:
        return -(1 << (ty.bits - 1)), (1 << (ty.bits - 1)) - 1
    return 0, (1 << ty.bits) - 1


_io = {}


def int_only(t):
    i = t.get_id()
    if i in _io:
        return _io[i][0]
    ok = True
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            ok = False
            break
        if z3.is_arith(x) and x.sort() == z3.RealSort() or z3.is_seq(x):
            ok = False
            break
        st.extend(x.children())
    _io[i] = (ok, t)
    return ok


def str_lit(v):
    import ast
    try:
        return ast.literal_eval(v)
    except Exception:
        return v.strip('"')


def rettype(q):
    depth = 0
    i = q.index('(') if '<' not in q else None
    if i is None:
        d = 0
        for j, ch in enumerate(q):
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif ch == '(' and d == 0:
                i = j
                break
    return q[:i].strip()


def norm_exc(c):
    if c in ('invalid_argument', 'out_of_range', 'exception', 'bad_alloc', 'runtime_error', 'logic_error'):
        return 'std::' + c
    if c.endswith('IException') and '::' not in c or c == 'Exception':
        return 'H5::' + c
    return c


values.DECIDE_ASSUME = None

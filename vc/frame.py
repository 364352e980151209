"""Verification units: contracts checked against extracted bodies."""
import os, sys, time, json, tempfile, shutil, subprocess, traceback, concurrent.futures as cf
import z3
import cast, program, interp, lib, prove, loops
from terms import *
from values import *
from interp import *
from program import params, Ty

UINT = Ty('int', 'unsigned int', bits=32, signed=False)
REALT = Ty('real', 'double')


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.status = 'proved'        # proved | refuted | unknown | unsupported | missing
        self.detail = ''
        self.obls = 0
        self.disch = 0
        self.failed = []
        self.fns = []
        self.contracts = []
        self.libs = []
        self.paths = 0
        self.loops = 0
        self.time = 0.0


class Bench:
    """one property: program + units"""

    def __init__(self, pid, workdir):
        self.pid = pid
        self.work = workdir
        self.cfg = cast.make_config(os.path.join(workdir, 'cfg'))
        self.prog = program.Program()
        self.results = []
        self.extract_error = None
        self.files = []
        self.contracts = {}
        self.symconst = {}
        self.assumptions = set()

    def load(self, srcs, inst=None):
        """srcs: paths under /repo; inst: {name: text} instantiation units that include the real headers"""
        paths = []
        for s in srcs:
            paths.append(os.path.join(cast.REPO, s))
        for nm, txt in (inst or {}).items():
            p = os.path.join(self.work, nm)
            open(p, 'w').write(txt)
            paths.append(p)
        import multiprocessing
        with cf.ThreadPoolExecutor(8) as tp:
            futs = [tp.submit(cast.load_tu, p, self.cfg, self.work) for p in paths]
            for p, f in zip(paths, futs):
                self.prog.add_tu(f.result(), p)
                self.files.append(p)

    def exec_(self, **kw):
        ex = interp.Exec(self.prog, lib.make_lib(), dict(self.contracts), dict(self.symconst), kw.get('opts'))
        return ex

    def unit(self, name, fn, timeout=8000, use_contracts=True):
        """run one unit: fn(ex) executes code and calls ex.oblige(..., kind='post')"""
        r = UnitResult(name)
        t0 = time.time()
        ex = self.exec_()
        ex.unit = name
        if not use_contracts:
            ex.contracts = {}
        try:
            def thunk():
                fn(ex)
                return ('ok', None)
            outs = ex.explore(thunk)
            if not outs:
                r.status = 'unknown'
                r.detail = 'no feasible path (vacuous)'
            npost = len([o for o in ex.obl_order if o.kind == 'post'])
            if npost == 0:
                r.status = 'unknown'
                r.detail = 'no postcondition reached (vacuous)'
            # vacuity: the path condition of at least one outcome must be satisfiable
            sat = False
            for k, v, S in outs:
                s = z3.Solver()
                s.set('timeout', 3000)
                for p in S.pc:
                    if isinstance(p, Z):
                        s.add(p)
                c = s.check()
                if c != z3.unsat:
                    sat = True
                    break
            if outs and not sat:
                r.status = 'unknown'
                r.detail = 'all paths unsatisfiable (vacuous)'
            for o in ex.obl_order:
                r.obls += 1
                res = prove.prove(o.pc, o.goal, timeout=timeout)
                o.res = res
                if res.status == 'proved':
                    r.disch += 1
                else:
                    r.failed.append((o, res))
            if r.failed:
                r.status = 'refuted' if any(x[1].status == 'refuted' and not havocked(x[0]) for x in r.failed) else 'unknown'
        except cast.ExtractError as e:
            r.status, r.detail = 'unsupported', str(e)
        except (Unsupported, NeedSplit, HypFail, Unmergeable, CannotSpec) as e:
            if os.environ.get('VERIF_TRACE'):
                traceback.print_exc()
            r.status, r.detail = 'unsupported', '%s: %s' % (type(e).__name__, e)
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError, z3.Z3Exception) as e:
            r.status, r.detail = 'unsupported', 'internal %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
        except CxxThrow as e:
            r.status, r.detail = 'refuted', 'uncaught exception %s' % e.cls
        r.fns = sorted(ex.inlined)
        r.contracts = sorted(ex.used_contracts)
        r.libs = sorted(ex.used_lib)
        r.paths = ex.npaths
        r.loops = getattr(ex, 'loop_count', 0)
        r.time = time.time() - t0
        self.results.append(r)
        return r

    # ------------------------------------------------------------ helpers
    def fn(self, qual, nparams=None, sig=None, const=None):
        c = self.prog.find_fn(qual, nparams, sig)
        c = [d for d in c if self.prog.body(d)]
        if const is not None:
            c = [d for d in c if d['type']['qualType'].rstrip().endswith('const') == const]
        if not c:
            raise Unsupported('function %s not found' % qual)
        if len(c) > 1:
            raise Unsupported('function %s ambiguous: %s' % (qual, [d['type']['qualType'] for d in c]))
        return c[0]


def havocked(o):
    """does the failed goal depend on values lost in a loop abstraction?"""
    cs = {}
    for p in list(o.pc) + [o.goal]:
        if isinstance(p, Z):
            consts_of(p, cs)
    return any(n.startswith('h') and n[1:2].isdigit() for n in cs) or bool(_uf_havoc(list(o.pc) + [o.goal]))


def _uf_havoc(ts):
    seen = set()
    st = [t for t in ts if isinstance(t, Z)]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            n = x.decl().name()
            if n.startswith('h') and n[1:2].isdigit() and '!' in n:
                return True
            st.extend(x.children())
    return False


# ---------------------------------------------------------------- comparing states
def eqval(ex, a, b):
    if isinstance(a, Uninit) or isinstance(b, Uninit):
        ca = a.cond if isinstance(a, GuardedUninit) else not isinstance(a, Uninit)
        cb = b.cond if isinstance(b, GuardedUninit) else not isinstance(b, Uninit)
        va = a.val if isinstance(a, GuardedUninit) else a
        vb = b.val if isinstance(b, GuardedUninit) else b
        if ca is False and cb is False:
            return True
        if isinstance(va, Uninit) or isinstance(vb, Uninit):
            return and_(not_(ca), not_(cb))
        return and_(or_(and_(ca, cb), and_(not_(ca), not_(cb))), implies(ca, eqval(ex, va, vb)))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return ex.ptr_eq(a, b)
    if isinstance(a, LV) and isinstance(b, LV):
        return a.rid == b.rid and (a.idx is None) == (b.idx is None) and (a.idx is None or eq(a.idx, b.idx))
    if isinstance(a, FnRef) or isinstance(b, FnRef):
        return a is b
    if a is None and b is None:
        return True
    return loops.eqv(a, b)


def arr_at(ex, S, rid, idx):
    """element idx of an array/vector region in state S, without obligations"""
    nd = S.mem[rid]
    a = nd.a if isinstance(nd, Arr) else nd.p['a']
    return loops.DECIDED(ex, a, idx)


def same_node(ex, a, b, label, kind='post'):
    """obligations: nodes a and b denote the same value"""
    if a is b:
        return
    if type(a) != type(b):
        ex.oblige(False, label + ' (different kind)', kind)
    if isinstance(a, Cell):
        ex.oblige(eqval(ex, a.v, b.v), label, kind)
    elif isinstance(a, Arr):
        if a.n is not b.n:
            ex.oblige(eq(a.n, b.n), label + ' (length)', kind)
        if a.a is not b.a:
            j = ex.fint('j', 0)
            ex.assume(lt(j, a.n))
            ex.oblige(eqval(ex, loops.DECIDED(ex, a.a, j), loops.DECIDED(ex, b.a, j)), label + ' (every element)', kind)
    elif isinstance(a, Lib):
        for k in a.p:
            x, y = a.p[k], b.p[k]
            if x is y:
                continue
            if isinstance(x, SArr):
                j = ex.fint('j', 0)
                if 'size' in a.p:
                    ex.assume(lt(j, a.p['size']))
                ex.oblige(eqval(ex, loops.DECIDED(ex, x, j), loops.DECIDED(ex, y, j)), label + ' (every element)', kind)
            elif isinstance(x, (tuple, str, Ty)) and not isinstance(y, Z):
                if x != y and not isinstance(x, Ty):
                    ex.oblige(False, label + ' (%s)' % k, kind)
            else:
                ex.oblige(eqval(ex, x, y), label + ' (%s)' % k, kind)


def frame(ex, S0, S1, except_=(), label='frame: nothing else changes', kind='post'):
    """every region of S0 has the same contents in S1 (except listed rids)"""
    sv = ex.S
    for r, nd in S0.mem.items():
        if r in except_:
            continue
        n1 = S1.mem.get(r)
        if n1 is not nd:
            same_node(ex, n1, nd, '%s [region %d]' % (label, r), kind)
    if {r for r in S1.freed if r in S0.mem} != set(S0.freed) & set(S0.mem):
        ex.oblige(False, label + ' (memory freed)', kind)


def run_fn(ex, f, this, args):
    """('ret', value) or ('throw', class)"""
    nf = len(ex.S.frames)
    ds = ex.depth, list(ex.fnstack), ex.where
    try:
        if f['kind'] == 'CXXConstructorDecl':
            # own contract does not apply to the body under verification
            c = ex.contracts
            ex.contracts = {k: v for k, v in c.items() if k not in (f['_m'], f['_q'])}
            try:
                ex.run_ctor(f, this, args)
            finally:
                ex.contracts = c
            return ('ret', this)
        return ('ret', ex.call_body(f, this, args, None))
    except CxxThrow as e:
        ex.S.frames = ex.S.frames[:nf]
        ex.depth, ex.fnstack, ex.where = ds
        return ('throw', e.cls)


def refine(ex, f, this, args, spec, label, result='auto'):
    """the body of f behaves as `spec` says (same final memory, result, exception)"""
    S0 = ex.S.copy()
    k1, v1 = run_fn(ex, f, this, args)
    S1 = ex.S
    ex.S = S0.copy()
    ex.S.pc = list(S1.pc)
    ex.S.frames = list(S1.frames)
    try:
        v2 = spec(ex, f, this, args)
        k2 = 'ret'
    except CxxThrow as e:
        k2, v2 = 'throw', e.cls
    S2 = ex.S
    ex.S = S1.copy()
    ex.S.pc = list(S2.pc)
    ex.oblige(k1 == k2, '%s: terminates %s' % (label, 'normally' if k2 == 'ret' else 'with the exception required'), 'post')
    for r in S0.mem:
        same_node(ex, S1.mem[r], S2.mem[r], '%s: final contents [region %d]' % (label, r), 'post')
    ex.oblige(S1.freed == S2.freed, label + ': frees what the contract says', 'post')
    if k1 == 'ret':
        same_result(ex, S1, S2, v1, v2, S0, label)
    else:
        ex.oblige(v1 == v2 or ex.prog.is_base(v2, v1), label + ': exception type', 'post')
    return k1, v1


def same_result(ex, S1, S2, v1, v2, S0, label):
    if isinstance(v1, LV) and isinstance(v2, LV):
        if v1.rid in S0.mem or v2.rid in S0.mem:
            ex.oblige(v1.rid == v2.rid, label + ': result refers to the right object', 'post')
            return
        same_tree(ex, S1, S2, v1.rid, v2.rid, label + ': result')
        return
    if isinstance(v1, LV):
        v1 = S1.mem[v1.rid].v
    if isinstance(v2, LV):
        v2 = S2.mem[v2.rid].v
    ex.oblige(eqval(ex, v1, v2), label + ': result', 'post')


def same_tree(ex, S1, S2, r1, r2, label):
    a, b = S1.mem[r1], S2.mem[r2]
    if isinstance(a, Rec):
        if not isinstance(b, Rec) or a.cls != b.cls:
            ex.oblige(False, label + ' (class)', 'post')
        for k in a.f:
            same_tree(ex, S1, S2, a.f[k], b.f[k], label + '.' + k.split('.')[-1])
        return
    if isinstance(a, RArr):
        for x, y in zip(a.els, b.els):
            same_tree(ex, S1, S2, x, y, label + '[]')
        return
    if isinstance(a, Cell) and isinstance(a.v, Ptr) and isinstance(b.v, Ptr) and a.v.rid != b.v.rid:
        if a.v.rid is None or b.v.rid is None:
            ex.oblige(False, label + ' (null)', 'post')
        ex.oblige(eq((a.v.off if a.v.off is not None else 0), (b.v.off if b.v.off is not None else 0)), label + ' (offset)', 'post')
        same_tree(ex, S1, S2, a.v.rid, b.v.rid, label + '->')
        return
    same_node(ex, a, b, label, 'post')


# ------------------------------------------------------------------ naming of terms
_FP = (1 << 61) - 1


def _fprint(t, memo):
    """value in a prime field under a pseudo-random assignment (a filter for alg_equal)"""
    i = t.get_id()
    if i in memo:
        return memo[i]
    k = t.decl().kind() if z3.is_app(t) else None
    ch = t.children()
    if z3.is_rational_value(t) or z3.is_int_value(t):
        v = Fraction(unz(t))
        r = v.numerator * pow(v.denominator, _FP - 2, _FP) % _FP
    elif k == z3.Z3_OP_ADD:
        r = sum(_fprint(c, memo) for c in ch) % _FP
    elif k == z3.Z3_OP_SUB:
        r = (_fprint(ch[0], memo) - sum(_fprint(c, memo) for c in ch[1:])) % _FP
    elif k == z3.Z3_OP_UMINUS:
        r = -_fprint(ch[0], memo) % _FP
    elif k == z3.Z3_OP_MUL:
        r = 1
        for c in ch:
            r = r * _fprint(c, memo) % _FP
    elif k == z3.Z3_OP_DIV:
        r = _fprint(ch[0], memo) * pow(_fprint(ch[1], memo), _FP - 2, _FP) % _FP
    else:
        import hashlib
        h = hashlib.sha256(repr((t.decl().name() if z3.is_app(t) else str(i), [_fprint(c, memo) for c in ch])).encode()).digest()
        r = int.from_bytes(h[:8], 'big') % _FP
    memo[i] = r
    return r


def cut(ex, defs, extra=()):
    """Name terms: every subterm of the path condition that is algebraically equal to (a small
    multiple of) one of the given terms is replaced by its name.  defs: [(name, term)], largest
    first.  Sound when the denominators occurring in the terms are nonzero on the path."""
    memo = {}
    mult = [Fraction(1), Fraction(-1), Fraction(2), Fraction(-2), Fraction(1, 2), Fraction(-1, 2)]
    table = {}
    for v, t in defs:
        f = _fprint(t, memo)
        for m in mult:
            table.setdefault(f * (m.numerator * pow(m.denominator, _FP - 2, _FP)) % _FP, []).append((m, v, t))
    done = {}

    def rep(t):
        i = t.get_id()
        if i in done:
            return done[i][1]
        r = None
        if not z3.is_app(t):
            r = t
        elif t.sort() == z3.RealSort() and not z3.is_rational_value(t) and not _ite_in(t):
            for m, v, d in table.get(_fprint(t, memo), ()):
                if prove.alg_equal(t, toz(m, True) * d):
                    r = toz(v, True) if m == 1 else toz(m, True) * v
                    break
        if r is None:
            ch = [rep(c) for c in t.children()]
            r = t.decl()(*ch) if ch and not z3.is_app_of(t, z3.Z3_OP_ADD) and not z3.is_app_of(t, z3.Z3_OP_MUL) and not z3.is_and(t) and not z3.is_or(t) else t
            if ch and r is t and any(not a.eq(b) for a, b in zip(ch, t.children())):
                if z3.is_app_of(t, z3.Z3_OP_ADD):
                    r = z3.Sum(ch)
                elif z3.is_app_of(t, z3.Z3_OP_MUL):
                    r = z3.Product(ch)
                elif z3.is_and(t):
                    r = z3.And(*ch)
                else:
                    r = z3.Or(*ch)
        done[i] = (t, r)
        return r
    return [p if isinstance(p, bool) else rep(p) for p in list(ex.S.pc) + list(extra)]


def _ite_in(t):
    return prove._has_ite(t)

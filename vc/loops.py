"""Loop rule.

A loop whose condition is concrete is executed.  Otherwise the loop is cut at its
head: an arbitrary iteration k >= 0 is executed once, from a state that satisfies
the loop invariant.  The invariant consists of
  * closed forms found from the body itself and checked by that same execution
    (induction variables c0+d*k, finite sums, last values, element-wise written
    array ranges),
  * candidate formulas (given with the contracts or derived from templates) that
    survive the induction check (Houdini),
  * for loops with early exits, "no earlier iteration left the loop".
"""
import z3
from fractions import Fraction
import values
from terms import *
from values import *
import prove
import interp
from interp import PathEnd, BreakEx, ContinueEx, ReturnEx, CxxThrow, CannotSpec, HypFail

MAXUNROLL = 6000


class _Exit(Exception):
    pass


def run(ex, n, cond, inc, body, dowhile):
    cnt = 0

    def do_body():
        try:
            if isinstance(body, list):
                for b in body:
                    ex.stmt(b)
            else:
                ex.stmt(body)
        except ContinueEx:
            pass

    first = dowhile
    while True:
        if not first:
            if cond:
                snap = ex.S.copy()
                ob = (dict(ex.obls), list(ex.obl_order))
                ctr = ex.ncon, ex.nrid
                c = None
                ex.spec += 1
                wl = None if ex.wlog is None else set(ex.wlog)
                try:
                    c = simp(truth(ex.ev(cond)))
                except (CannotSpec, NeedSplit, CxxThrow):
                    c = None
                finally:
                    ex.spec -= 1
                if c is True and ex.opts.get('symwhile') and literal_true(cond):
                    c = None
                if not isinstance(c, bool):
                    ex.S = snap
                    ex.obls, ex.obl_order = ob
                    ex.ncon, ex.nrid = ctr
                    ex.wlog = wl
                    break
                if not c:
                    return
        else:
            # do-while with a symbolic condition: unroll the first body, then treat as while
            pass
        first = False
        cnt += 1
        if cnt > MAXUNROLL:
            raise Unsupported('unroll limit')
        try:
            do_body()
        except BreakEx:
            return
        if inc:
            ex.ev(inc)
        if cond is None and cnt > 40:
            break
    symbolic(ex, n, cond, inc, do_body)


def literal_true(n):
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr'):
        n = n['inner'][0]
    return n['kind'] in ('CXXBoolLiteralExpr', 'IntegerLiteral')


def comps_of(node):
    """mutable components of a memory node: name -> (kind, value)"""
    if isinstance(node, Cell):
        return {'v': node.v}
    if isinstance(node, Arr):
        return {'a': node.a, 'n': node.n}
    if isinstance(node, Lib):
        return {k: v for k, v in node.p.items()}
    return {}


def getc(S, key):
    return comps_of(S.mem[key[0]])[key[1]]


def setc(S, key, v):
    nd = S.mem[key[0]]
    if isinstance(nd, Cell):
        S.mem[key[0]] = Cell(v, nd.ty)
    elif isinstance(nd, Arr):
        S.mem[key[0]] = Arr(v if key[1] == 'n' else nd.n, v if key[1] == 'a' else nd.a, nd.ty)
    else:
        S.mem[key[0]] = nd.w(**{key[1]: v})


class HypArr(SArr):
    """array contents at the head of iteration k: known outside the written range"""

    def __init__(self, ex, lo, hi, base):
        self.ex, self.lo, self.hi, self.base = ex, lo, hi, base

    def get(self, i):
        out = or_(lt(i, self.lo), le(self.hi, i))
        if self.ex.entails(out):
            return self.base.get(i)
        raise HypFail


class RecArr(SArr):
    """pointers of which the one of the previous iteration is read: its offset is an unknown"""

    def __init__(self, ex, lo, hi, base, r):
        self.ex, self.lo, self.hi, self.base, self.r = ex, lo, hi, base, r

    def get(self, i):
        p0, i0, u = self.r
        if self.ex.entails(or_(lt(i, self.lo), le(self.hi, i))):
            if not (i0 is not None and self.ex.entails(eq(i, i0))):
                return self.base.get(i)
        if self.ex.entails(or_(eq(i, sub(self.hi, 1)), eq(i, i0))):
            return Ptr(p0.rid, u)
        raise HypFail


def recurrences(ex, base, hyp, rec):
    """turn hypotheses on arrays of pointers into recurrences; False if nothing is left to try"""
    got = False
    for key, (b, L, A0) in hyp.items():
        nd = base.mem[key[0]]
        if key in rec or not isinstance(nd, Arr) or nd.ty.k != 'ptr' or not (is_conc(L) and L == 1) or isinstance(b, tuple):
            continue
        for i0 in (sub(b, 1), b):
            try:
                p0 = A0.get(i0)
            except (NeedSplit, HypFail):
                continue
            if isinstance(p0, Ptr) and p0.rid is not None:
                rec[key] = (p0, i0, ex.fresh('u', z3.IntSort()))
                got = True
                break
    return got


def rec_form(ex, v, b, k, S, r, A0, unresolved):
    p0, i0, u = r
    sv = ex.S
    ex.S = S.copy()
    try:
        val = DECIDED(ex, v, add(b, k))
    except (HypFail, NeedSplit):
        return None
    finally:
        ex.S = sv
    if isinstance(val, GuardedUninit):
        val = val.val
    if not isinstance(val, Ptr) or val.rid != p0.rid or not isinstance(val.off, Z):
        return None
    t = val.off
    while z3.is_app_of(t, z3.Z3_OP_ITE):
        t = t.arg(1) if str(u) in consts_of(t.arg(1)) else t.arg(2)
    d = simp_diff(t, u)
    if d is None or str(u) in consts_of(d) or str(k) in consts_of(d) or [x for x in consts_of(d) if x in unresolved]:
        return None
    d = unz(z3.simplify(d)) if isinstance(d, Z) else d
    o0 = p0.off if p0.off is not None else 0
    lo, below = b, A0
    if isinstance(A0, StoreArr) and eq(A0.idx, i0) is True and i0 is not b:
        lo, below = i0, A0.base                 # the first one fits the formula
    return lambda kt: MapArr(lo, add(b, kt), lambda i: Ptr(p0.rid, add(o0, mul(d, sub(i, i0)))), below)


class DeadArr(SArr):
    """must not be read"""

    def get(self, i):
        raise HypFail


def symbolic(ex, n, cond, inc, do_body):
    base = ex.S
    baserids = set(base.mem)

    def iteration():
        nf = len(ex.S.frames)
        ds = ex.depth, list(ex.fnstack), ex.where
        try:
            if cond:
                if not ex.branch(truth(ex.ev(cond))):
                    return ('exit', None)
            do_body()
            if inc:
                ex.ev(inc)
            return ('cont', None)
        except BreakEx:
            return ('break', None)
        except ReturnEx as e:
            return ('return', e.v)
        except CxxThrow as e:
            # unwinding to the frame that contains the loop
            ex.S.frames = ex.S.frames[:nf]
            ex.depth, ex.fnstack, ex.where = ds
            return ('throw', (e.cls, e.obj))

    # ---------------- A: write set
    W = {}

    def probe_run(S, log=True):
        sv = ex.S, ex.wlog, ex.probe
        ex.S = S
        ex.wlog = set()
        ex.probe = 1
        try:
            outs = ex.explore(iteration)
            return outs, ex.wlog
        finally:
            w = ex.wlog
            ex.S, ex.wlog, ex.probe = sv
            if ex.wlog is not None:
                ex.wlog |= (w & baserids)

    ncon_in = ex.ncon
    k = ex.fresh('k', z3.IntSort())
    hav = {}

    def havoc_into(S, keys):
        for key in keys:
            if key not in hav:
                hav[key] = make_havoc(ex, base, key)
            h, facts = hav[key]
            setc(S, key, h)
            for f in facts:
                S.pc.append(f)

    for rnd in range(6):
        S1 = base.copy()
        S1.pc.append(k >= 0)
        havoc_into(S1, W)
        outs, wl = probe_run(S1)
        new = set()
        for kind, val, S in outs:
            for r in wl:
                if r not in baserids:
                    continue
                a, b = comps_of(S1.mem[r]), comps_of(S.mem[r])
                for c in b:
                    if c not in a or a[c] is not b[c]:
                        if isinstance(a.get(c), (int, bool, Fraction, str, tuple)) and type(a.get(c)) == type(b[c]) and a[c] == b[c]:
                            continue
                        if isinstance(a.get(c), Z) and isinstance(b[c], Z) and a[c].eq(b[c]):
                            continue
                        new.add((r, c))
            # components changed by exits only do not matter for the invariant
        contw = set()
        for kind, val, S in outs:
            if kind != 'cont':
                continue
            for (r, c) in new:
                x, y = comps_of(S1.mem[r]).get(c), comps_of(S.mem[r]).get(c)
                if x is not y and not (isinstance(x, Z) and isinstance(y, Z) and x.eq(y)):
                    contw.add((r, c))
        if not (contw - set(W)):
            break
        for key in contw:
            W[key] = None
    else:
        raise Unsupported('loop write set')
    conts = [o for o in outs if o[0] == 'cont']
    # ---------------- B/C: closed forms
    forms = {}           # key -> function(kterm) -> value
    for key in W:
        if key[1] == 'ok' and getc(base, key) is True:       # a stream that has not failed (checked to be inductive)
            forms[key] = lambda kt: True
    hyp = {}             # key -> array hypothesis (lo, stride L, A0)
    rec = {}             # key -> recurrence of pointers (p0, index of p0, unknown offset)

    def start_state(kt, with_hyp=True):
        S = base.copy()
        S.pc.append(le(0, kt)) if not is_conc(kt) else None
        for key in W:
            if key in forms:
                v = forms[key](kt)
                setc(S, key, v)
                nd = S.mem[key[0]]
                if isinstance(nd, Cell) and nd.ty is not None and nd.ty.k == 'int' and isinstance(v, Z) and v.sort() == z3.IntSort():
                    # the value of a variable is always within its type
                    lo, hi = interp.int_range(nd.ty)
                    S.pc.append(and_(le(lo, v), le(v, hi)))
            elif key in hyp and with_hyp:
                b, L, A0 = hyp[key]
                if isinstance(b, tuple):
                    lo, hi = b
                else:
                    lo, hi = rng(b, L, kt)
                setc(S, key, HypArr(ex, lo, hi, A0) if key not in rec else RecArr(ex, lo, hi, A0, rec[key]))
            else:
                havoc_into(S, [key])
        return S

    def rng(b, L, kt):
        """range of indices written during iterations 0..kt-1"""
        if is_conc(L) and L < 0:
            return add(sub(b, kt), 1), add(b, 1)
        return b, add(b, mul(L, kt))

    def havconsts():
        s = {}
        for key in W:
            if key not in forms and key in hav:
                h = hav[key][0]
                if isinstance(h, Z):
                    s.update(consts_of(h))
                elif isinstance(h, Ptr) and isinstance(h.off, Z):
                    s.update(consts_of(h.off))
                elif isinstance(h, HavPtrArr):
                    s[h.f.name()] = h.f
        for key, r in rec.items():
            if key not in forms:
                for x in r:
                    if isinstance(x, Z) and str(x).startswith('u!'):
                        s.update(consts_of(x))
        return s

    def body_fresh(t, ncon0):
        """does t mention constants created inside the body (other than k)?"""
        for nm in consts_of(t):
            if '!' in nm:
                try:
                    i = int(nm.rsplit('!', 1)[1])
                except ValueError:
                    continue
                if i > ncon0:
                    return True
        return False

    ncon0 = ex.ncon
    merged = None
    prefix = None
    failed_arr = set()
    for rnd in range(12):
        S1 = start_state(k)
        ncon0 = ex.ncon
        try:
            outs, _ = probe_run(S1)
        except HypFail:
            # some array is read inside its written range: a recurrence of pointers, or give up on hypotheses
            if not recurrences(ex, base, hyp, rec):
                for key in list(hyp):
                    failed_arr.add(key)
                    rec.pop(key, None)
                hyp.clear()
            continue
        conts = [o for o in outs if o[0] == 'cont']
        # (the closed forms are checked for every path afterwards)
        conts = [o for o in conts if not any(key[1] == 'ok' and key in forms and getc(o[2], key) is False for key in W)] or conts
        if not conts:
            break
        L0 = len(S1.pc)
        merged = None
        try:
            merged = merge_all(ex, S1, conts, L0)
        except Unmergeable:
            merged = None
        progress = False
        unresolved = havconsts()
        for key in list(W):
            if key in forms:
                continue
            vals = [getc(o[2], key) for o in conts] if merged is None else [getc(merged, key)]
            cur = getc(S1, key)
            # scalars ---------------------------------------------
            if isinstance(cur, Ptr) and all(isinstance(v, Ptr) for v in vals):
                if cur.rid is None or any(v.rid != cur.rid for v in vals):
                    raise Unsupported('pointer retargeted in loop')
                c0 = getc(base, key)
                ds = [simp(sub((v.off if v.off is not None else 0), cur.off)) for v in vals]
                if all(isinstance(d, int) and d == ds[0] for d in ds):
                    d = ds[0]
                    forms[key] = (lambda c0, d: lambda kt: Ptr(c0.rid, add((c0.off if c0.off is not None else 0), mul(d, kt))))(c0, d)
                    progress = True
                continue
            if isinstance(cur, Z) and cur.sort() in (z3.IntSort(), z3.RealSort()) and all(isinstance(v, (Z, int, Fraction)) for v in vals):
                c0 = getc(base, key)
                ds = [simp(sub(v, cur)) for v in vals]
                if all(is_conc(d) and d == ds[0] for d in ds) and not isinstance(c0, Uninit):
                    d = ds[0]
                    forms[key] = (lambda c0, d: lambda kt: add(c0, mul(d, kt)))(c0, d)
                    progress = True
                    continue
                if len(vals) == 1 and not isinstance(c0, Uninit) and cur.sort() == z3.IntSort() and isinstance(vals[0], Z) and z3.is_app_of(vals[0], z3.Z3_OP_ITE):
                    # counter of unsigned type that never wraps, because of what is known about the others
                    def bump(d):
                        f = add(c0, mul(d, k))
                        return all(prove.prove([subst(p, [(cur, f)]) for p in o[2].pc], subst(eq(getc(o[2], key), add(cur, d)), [(cur, f)]), timeout=1000).status == 'proved' for o in conts)
                    d = next((d for d in (1, -1) if bump(d)), None)
                    if d is not None:
                        forms[key] = (lambda c0, d: lambda kt: add(c0, mul(d, kt)))(c0, d)
                        progress = True
                        continue
                if len(vals) == 1:
                    v = vals[0]
                    cn = str(cur)
                    cs = consts_of(v)
                    dep = [x for x in cs if x in unresolved]
                    if not dep and not body_fresh(v, ncon0):
                        # last value
                        if isinstance(c0, Uninit):
                            forms[key] = (lambda v, k: lambda kt: GuardedUninit(lt(0, kt), subst(v, [(k, sub(kt, 1))])) if not is_conc(kt) else UNINIT)(v, k)
                        else:
                            forms[key] = (lambda v, c0, k: lambda kt: ite(le(kt, 0), c0, subst(v, [(k, sub(kt, 1))])))(v, c0, k)
                        progress = True
                        continue
                    if dep == [cn] and not isinstance(c0, Uninit):
                        d = simp_diff(v, cur)
                        if d is not None and cn not in consts_of(d) and not body_fresh(d, ncon0):
                            if cur.sort() == z3.RealSort():
                                if str(k) not in consts_of(d):
                                    forms[key] = (lambda c0, d: lambda kt: add(c0, mul(d, toz(kt, True))))(c0, d)
                                else:
                                    forms[key] = (lambda c0, d, k: lambda kt: add(c0, Sums.mk(k, d, kt)))(c0, d, k)
                                progress = True
                                continue
                            elif str(k) not in consts_of(d):
                                forms[key] = (lambda c0, d: lambda kt: add(c0, mul(d, kt)))(c0, d)
                                progress = True
                                continue
                continue
            if isinstance(cur, Z) and cur.sort() == z3.BoolSort() and len(vals) == 1:
                v = vals[0]
                c0 = getc(base, key)
                acc = bool_acc(ex, S1, v, cur, k, unresolved, body_fresh, ncon0) if not isinstance(c0, Uninit) else None
                if acc is not None:
                    forms[key] = (lambda acc, c0, k: lambda kt: quant(acc, c0, k, kt))(acc, c0, k)
                    progress = True
                elif not isinstance(v, Z) or (not [x for x in consts_of(v) if x in unresolved] and not body_fresh(v, ncon0)):
                    if not isinstance(c0, Uninit):
                        forms[key] = (lambda v, c0, k: lambda kt: ite(le(kt, 0), c0, subst(v, [(k, sub(kt, 1))])))(v, c0, k)
                        progress = True
                continue
            # arrays ---------------------------------------------
            if isinstance(cur, SArr) and merged is not None and key not in failed_arr:
                A0 = getc(base, key)
                v = vals[0]
                if key not in hyp:
                    f = columns(ex, v, cur, k, merged, unresolved, ncon0, body_fresh, A0)
                    if f is None:
                        f = lanes(ex, v, cur, k, unresolved, ncon0, body_fresh, A0)
                    if f == 'later':
                        continue
                    if f is not None:
                        forms[key] = f
                        progress = True
                        continue
                    ws = written(v, cur)
                    if not ws:
                        failed_arr.add(key)
                        continue
                    h = stride(ex, ws, k, unresolved, S1)
                    if h == 'later':
                        continue
                    if h is None:
                        failed_arr.add(key)
                        continue
                    b, L = h
                    if L is not None and not contained(ex, ws, b, L, k, merged):
                        # other starting points (writes under conditions)
                        for w in ws:
                            h = stride(ex, ws, k, unresolved, S1, start=w[0])
                            if isinstance(h, tuple) and h[1] is not None and contained(ex, ws, h[0], h[1], k, merged):
                                b, L = h
                                break
                        else:
                            failed_arr.add(key)
                            continue
                    hyp[key] = (b, L, A0)
                    progress = True
                    continue
                # have a hypothesis: derive the closed form of the written elements
                b, L, A0 = hyp[key]
                f = None
                if key in rec:
                    f = rec_form(ex, v, b, k, merged, rec[key], A0, unresolved)
                f = f or element_form(ex, v, b, L, k, merged, unresolved, ncon0, body_fresh, A0, key)
                if f == 'later':
                    continue
                if f is None:
                    failed_arr.add(key)
                    del hyp[key]
                    progress = True
                    continue
                forms[key] = f
                progress = True
        if not progress:
            break
        if all(key in forms for key in W):
            break
    # arrays without closed form are havocked
    for key in list(hyp):
        if key not in forms:
            del hyp[key]
    # ---------------- D: candidate invariants (Houdini)
    left = [key for key in W if key not in forms]
    cands = []
    info = LoopInfo(ex, n, k, base, W, forms, left)
    if left or True:
        for g in ex.loop_inv:
            try:
                cands += list(g(ex, info) or [])
            except Unsupported:
                pass
        if left:
            cands += ([] if ex.opts.get('noguess') else default_candidates(ex, info))
    survivors = []
    if cands:
        survivors = houdini(ex, base, cands, start_state, k, probe_run)
    # ---------------- E: the arbitrary iteration, with obligations
    def arb(kt):
        S = start_state(kt)
        for c in survivors:
            f = c(S) if not getattr(c, 'wantsk', False) else c(S, kt)
            if not (isinstance(f, bool)):
                S.pc.append(f)
        return S

    S1 = arb(k)
    # earlier iterations all continued: instance at k-1 and, if exits exist, for all j<k
    ncon1 = ex.ncon
    outs, _ = probe_run(S1)
    conts = [o for o in outs if o[0] == 'cont']
    exits = [o for o in outs if o[0] in ('break', 'return', 'throw')]
    L0 = len(S1.pc)
    pre = []
    bad = havconsts()
    if conts:
        def usable(p):
            return isinstance(p, Z) and not [x for x in consts_of(p) if x in bad] and not body_fresh(p, ncon1) and not _havoc_arr(p)
        cc = or_(*[and_(*[p for p in o[2].pc[L0:] if usable(p)]) for o in conts])
        if isinstance(cc, Z):
            cc = simp(cc)
        if not isinstance(cc, bool):
            cs = consts_of(cc)
            if not [x for x in cs if x in bad] and not body_fresh(cc, ncon1):
                pre.append(implies(le(1, k), subst(cc, [(k, sub(k, 1))])))
                if exits or not linear_in(cc):
                    j = z3.Int('j!%s' % str(k))
                    pre.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), subst(cc, [(k, j)]))))
    else:
        pre.append(eq(k, 0))
    ex.loop_count = getattr(ex, 'loop_count', 0) + 1
    S1 = arb(k)
    S1.pc = S1.pc[:]
    for p in pre:
        if isinstance(p, Z):
            S1.pc.append(p)
    sv = ex.S
    wsv = ex.wlog
    ex.S = S1
    ex.wlog = set()
    try:
        outs = ex.explore(iteration)
    finally:
        wnew = ex.wlog
        ex.S = sv
        ex.wlog = wsv
        if ex.wlog is not None:
            ex.wlog |= (wnew & baserids)
    for kind, val, S in outs:
        if kind != 'cont':
            continue
        for r in wnew:
            if r in baserids and r in S.mem:
                a, c = comps_of(S1.mem[r]), comps_of(S.mem[r])
                for nm in c:
                    if (r, nm) not in W and a.get(nm) is not c[nm] and not _same(a.get(nm), c[nm]):
                        raise Unsupported('loop write set')
    for key in W:
        # vectors of pointers without a closed form: every element points into the pool
        if key not in forms and isinstance(getc(S1, key), HavPtrArr):
            if not isinstance(getc(base, key), UninitArr) or not _same(comps_of(base.mem[key[0]]).get('size'), 0):
                raise Unsupported('pointers changed in loop')
            for o in outs:
                if o[0] == 'cont':
                    _inpool(getc(o[2], key), getc(S1, key), ex.opts.get('ptrpool'))
    check_forms(ex, [o for o in outs if o[0] == 'cont'], forms, k)
    alts = [o for o in outs if o[0] != 'cont']
    if not alts:
        # never leaves the loop on feasible paths
        raise PathEnd
    i = ex.choose(len(alts))
    kind, val, S = alts[i]
    if kind == 'exit' and cond is not None and len([o for o in alts if o[0] == 'exit']) == 1:
        # the common counting loop: the number of iterations is known
        T = trip_count(ex, S, k, len(S1.pc)); print("TRIP", k, T, S.pc[len(S1.pc):], pre) if __import__("os").environ.get("DBGL") else None
        if T is not None and not (isinstance(T, Z) and body_fresh(T, ncon_in)):
            S2 = arb(T)
            for p in pre:
                if isinstance(p, Z):
                    S2.pc.append(subst(p, [(k, T)]))
            sv = ex.S
            ex.S = S2
            try:
                o2 = ex.explore(iteration)
            finally:
                ex.S = sv
            o2 = [o for o in o2 if o[0] != 'cont'] if not [o for o in o2 if o[0] == 'cont'] else []
            if len(o2) == 1 and o2[0][0] == 'exit':
                ex.S = o2[0][2]
                return
    ex.S = S
    ex.S.ghost['exit_k'] = k
    if kind in ('exit', 'break'):
        return
    if kind == 'return':
        raise ReturnEx(val)
    raise CxxThrow(*val)


def _same(a, b):
    if isinstance(a, (int, bool, Fraction, str, tuple)):
        return type(a) == type(b) and a == b
    if isinstance(a, Z) and isinstance(b, Z):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
        return _same(a.off, b.off)
    return a is b


def _inpool(v, end, pool):
    while v is not end:
        if isinstance(v, StoreArr):
            if not isinstance(v.val, Ptr) or v.val.rid != pool:
                raise Unsupported('pointer outside the pool')
            v = v.base
        elif isinstance(v, IteArr):
            _inpool(v.a, end, pool)
            v = v.b
        else:
            raise Unsupported('pointers changed in loop')


def funcs_of(t):
    st, seen, out = [t], set(), set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    return out


def _havoc_arr(t):
    """mentions an array whose contents were lost"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            n = x.decl().name()
            if x.num_args() and n.startswith('h') and n[1:2].isdigit() and '!' in n:
                return True
            st.extend(x.children())
    return False


def bool_acc(ex, S, v, cur, k, unresolved, body_fresh, ncon0):
    """v = cur or d(k)  /  v = cur and d(k)"""
    if not isinstance(v, Z) or str(cur) not in consts_of(v):
        return None
    t, f = z3.simplify(z3.substitute(v, (cur, z3.BoolVal(True)))), z3.simplify(z3.substitute(v, (cur, z3.BoolVal(False))))
    if z3.is_true(t):
        kind, d = 'or', f
    elif z3.is_false(f):
        kind, d = 'and', t
    else:
        return None
    if [x for x in consts_of(d) if x in unresolved] or body_fresh(d, ncon0):
        return None
    return kind, d


def quant(acc, c0, k, kt):
    kind, d = acc
    if is_conc(kt) and kt <= 0:
        return c0
    j = z3.Int('q!%s' % str(k))
    dj = toz(subst(d, [(k, j)]))
    r = z3.And(j >= 0, j < toz(kt))
    if kind == 'or':
        return or_(c0, z3.Exists([j], z3.And(r, dj)))
    return and_(c0, z3.ForAll([j], z3.Implies(r, dj)))


def linear_in(t):
    return True


def simp_diff(v, cur):
    """v - cur when v = cur + d"""
    d = z3.simplify(toz(v) - cur, som=False)
    if str(cur) not in consts_of(d):
        return d
    d = z3.simplify(toz(v) - cur, som=True)
    if str(cur) not in consts_of(d):
        return d
    # ite(c, cur + a, cur) -> ite(c, a, 0)
    v = toz(v)
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        a, b = simp_diff(v.arg(1), cur), simp_diff(v.arg(2), cur)
        if a is not None and b is not None:
            return z3.If(v.arg(0), a, b)
    return None


def make_havoc(ex, base, key):
    v = getc(base, key)
    nd = base.mem[key[0]]
    ty = nd.ty
    nm = 'h%d.%s' % (key[0], key[1])
    sv = ex.S
    tmp = interp.State()
    ex.S = tmp
    try:
        if isinstance(v, Ptr):
            if v.rid is None:
                raise Unsupported('null pointer changed in loop')
            h = Ptr(v.rid, ex.fint(nm))
        elif isinstance(v, SArr):
            if isinstance(nd, Arr):
                ety = nd.ty
            else:
                ety = ex.lib.elem_ty(nd)
            if ety.k == 'ptr':
                h = HavPtrArr(ex, nm, v)
            elif isinstance(v, UninitArr):
                h = ex.sym_arr(ety, nm)
            else:
                h = ex.sym_arr(ety, nm)
        elif isinstance(v, str) or (isinstance(v, Z) and v.sort() == z3.StringSort()):
            h = ex.fresh(nm, z3.StringSort())
        elif isinstance(v, bool) or (isinstance(v, Z) and v.sort() == z3.BoolSort()):
            h = ex.fbool(nm)
        elif isinstance(v, Fraction) or (isinstance(v, Z) and v.sort() == z3.RealSort()):
            h = ex.freal(nm)
        elif isinstance(v, int) or (isinstance(v, Z) and v.sort() == z3.IntSort()):
            if isinstance(nd, Cell) and ty is not None and ty.k == 'int':
                h = ex.sym_scalar(ty, nm)
            else:
                h = ex.fint(nm, 0)
        elif isinstance(v, Uninit):
            if isinstance(nd, Cell) and nd.ty is not None and nd.ty.k in ('int', 'real', 'bool'):
                h = ex.sym_scalar(nd.ty, nm)
            else:
                h = LoopDead()
        elif isinstance(v, Z):
            h = ex.fresh(nm, v.sort())
        else:
            raise Unsupported('havoc %r' % (v,))
        return h, list(tmp.pc)
    finally:
        ex.S = sv


class HavPtrArr(SArr):
    """unknown pointers; while the write set is being looked for, pointers into the pool of objects"""

    def __init__(self, ex, nm, base=None):
        self.ex, self.f, self.base = ex, z3.Function('%s!%d' % (nm, ex.ncon), z3.IntSort(), z3.IntSort()), base

    def get(self, k):
        pool = self.ex.opts.get('ptrpool')
        if pool is None and isinstance(self.base, StoreArr) and isinstance(self.base.val, Ptr):
            pool = self.base.val.rid        # (never kept: without a closed form the loop is refused)
        if pool is None:
            raise HypFail
        return Ptr(pool, self.f(toz(k)))


def merge_all(ex, S1, conts, L0):
    m = conts[0][2]
    for o in conts[1:]:
        c = and_(*[p for p in o[2].pc[L0:]])
        if isinstance(c, bool):
            raise Unmergeable
        mm = S1.copy()
        for r in S1.mem:
            a, b = o[2].mem.get(r), m.mem.get(r)
            mm.mem[r] = a if a is b else merge_node(c, a, b)
        mm.pc = list(S1.pc)
        mm.freed = m.freed
        m = mm
    return m


class ColArr(SArr):
    """matrix with rows of length L filled by columns: element L*q + r is f(r, q) if rlo <= r < rhi and 0 <= q < qhi"""

    def __init__(self, ex, L, rlo, rhi, qhi, f, base):
        self.ex, self.L, self.rlo, self.rhi, self.qhi, self.f, self.base = ex, L, rlo, rhi, qhi, f, base

    def place(self, i):
        q = sdiv(self.ex, i, self.L)
        r = simp(z3.simplify(toz(sub(i, mul(self.L, q))), som=True))
        return q, r, and_(le(self.rlo, r), lt(r, self.rhi), le(0, q), lt(q, self.qhi))

    def get(self, i):
        return DECIDED(self.ex, self, i)


def columns(ex, v, cur, k, S, unresolved, ncon0, body_fresh, A0):
    """closed form of an array written by columns, function kt -> SArr; None if it is not; 'later'"""
    if isinstance(v, IteArr):
        # conditional values stored at one place
        def leaf(x):
            if isinstance(x, IteArr):
                a, c = leaf(x.a), leaf(x.b)
                if a is None or c is None or not simp(eq(a[0], c[0])) is True:
                    return None
                try:
                    return a[0], merge_val(x.c, a[1], c[1])
                except Unmergeable:
                    return None
            if isinstance(x, StoreArr):
                y = x.base
                while isinstance(y, StoreArr) and simp(eq(y.idx, x.idx)) is True:
                    y = y.base
                return (x.idx, x.val) if y is cur else None
            return None
        r = leaf(v)
        if r is None:
            return None
        v = StoreArr(cur, r[0], r[1])
    if isinstance(v, StoreArr):
        y = v.base
        while isinstance(y, StoreArr) and simp(eq(y.idx, v.idx)) is True:
            y = y.base
        if y is not cur or is_conc(v.idx):
            return None
        for t in (v.idx, v.val):
            if isinstance(t, Z):
                if [x for x in consts_of(t) if x in unresolved]:
                    return 'later'
                if body_fresh(t, ncon0):
                    return None
            elif isinstance(t, (Uninit, Ptr)):
                return None
        idx = v.idx
        L = simp(z3.simplify(toz(sub(subst(idx, [(k, add(k, 1))]), idx)), som=True))
        b = simp(z3.simplify(toz(subst(idx, [(k, 0)])), som=True))
        if is_conc(L) or str(k) in consts_of(L) or is_conc(b):
            return None
        sv = ex.S
        ex.S = S
        try:
            if not ex.entails(and_(le(0, b), lt(b, L))):
                return None
        finally:
            ex.S = sv
        return lambda kt: ColArr(ex, L, b, add(b, 1), kt, lambda r, q: subst_val(v.val, [(k, q)]), A0)
    if isinstance(v, ColArr) and v.base is cur:
        for t in (v.L, v.qhi, v.rlo, v.rhi):
            if isinstance(t, Z) and [x for x in consts_of(t) if x in unresolved]:
                return 'later'
        if any(isinstance(t, Z) and (str(k) in consts_of(t) or body_fresh(t, ncon0)) for t in (v.L, v.qhi)):
            return None
        b = simp(subst(v.rlo, [(k, 0)])) if isinstance(v.rlo, Z) else v.rlo
        if simp(z3.simplify(toz(sub(v.rlo, add(b, k))), som=True)) != 0 or simp(z3.simplify(toz(sub(v.rhi, add(v.rlo, 1))), som=True)) != 0:
            return None
        j, q0 = ex.fresh('j', z3.IntSort()), ex.fresh('j', z3.IntSort())
        val = v.f(v.rlo, q0)
        if isinstance(val, Z):
            if [x for x in consts_of(val) if x in unresolved]:
                return 'later'
            if body_fresh(subst(val, [(q0, 0)]), ncon0):
                return None
        return lambda kt: ColArr(ex, v.L, b, add(b, kt), v.qhi, lambda r, q: subst_val(val, [(q0, q), (k, sub(r, b))]), A0)
    return None


def lanes(ex, v, cur, k, unresolved, ncon0, body_fresh, A0):
    """closed form of an array of which every iteration writes one element of each of several separate parts"""
    st = []
    x = v
    while isinstance(x, StoreArr):
        st.append((x.idx, x.val))
        x = x.base
    if x is not cur or len(st) < 2:
        return None
    out = []
    for idx, val in st:
        for t in (idx, val):
            if isinstance(t, Z):
                if [c for c in consts_of(t) if c in unresolved]:
                    return 'later'
                if body_fresh(t, ncon0):
                    return None
            elif isinstance(t, (Uninit, Ptr)):
                return None
        if is_conc(idx) or not simp(z3.simplify(toz(sub(subst(idx, [(k, add(k, 1))]), idx)), som=True)) == 1:
            return None
        out.append((simp(z3.simplify(toz(subst(idx, [(k, 0)])), som=True)), val))
    for i in range(len(out)):
        for j in range(i):
            if is_conc(simp(z3.simplify(toz(sub(out[i][0], out[j][0])), som=True))):
                return None

    def form(kt):
        r = A0
        for b, val in reversed(out):
            r = MapArr(b, add(b, kt), lambda i, b=b, val=val: subst_val(val, [(k, sub(i, b))]), r)
        return r
    return form


class Span(tuple):
    """(lo, hi) with the condition under which it is written"""
    cond = True


def span(lo, hi, cond):
    r = Span((lo, hi))
    r.cond = cond
    return r


def written(v, cur, cond=True):
    """list of (lo, hi) ranges stored on top of cur"""
    out = []
    x = v
    while x is not cur:
        if isinstance(x, StoreArr):
            out.append(span(x.idx, add(x.idx, 1), cond))
            x = x.base
        elif isinstance(x, MapArr):
            out.append(span(x.lo, x.hi, cond))
            x = x.base
        elif isinstance(x, IteArr):
            a, b = written(x.a, cur, and_(cond, x.c)), written(x.b, cur, and_(cond, not_(x.c)))
            if a is None or b is None:
                return None
            return out + a + b
        else:
            return None
    return out


def stride(ex, ws, k, unresolved, S, start=None):
    """(b, L): iteration k writes inside [b+L*k, b+L*(k+1)) ; L None = same place every time"""
    best = None
    los = []
    for lo, hi in ws:
        for t in (lo, hi):
            if [x for x in consts_of(t) if x in unresolved] or isinstance(t, Z) and funcs_of(t) & set(unresolved):
                return 'later'
        los.append(lo)
    lo = los[0]
    if start is not None:
        lo, los = start, [start]
    # smallest start among the writes (by syntactic constant difference)
    for t in los[1:]:
        d = simp(sub(t, lo))
        if isinstance(d, int):
            if d < 0:
                lo = t
        else:
            sv = ex.S
            ex.S = S
            try:
                if ex.entails(lt(t, lo)):
                    lo = t
            finally:
                ex.S = sv
    k1 = add(k, 1)
    if str(k) not in consts_of(lo):
        hi = ws[0][1]
        for _, t in ws[1:]:
            d = simp(sub(t, hi))
            if isinstance(d, int):
                if d > 0:
                    hi = t
            else:
                return None
        if str(k) in consts_of(hi):
            return None
        return ((lo, hi), None)
    L = simp(z3.simplify(toz(sub(subst(lo, [(k, k1)]), lo)), som=True))
    b = simp(subst(lo, [(k, 0)]))
    if not is_conc(L) and str(k) in consts_of(L):
        L = simp(sub(subst(lo, [(k, 1)]), b))       # a guess (checked)
        if not is_conc(L) and (str(k) in consts_of(L) or not (is_conc(b) or isinstance(b, Z))):
            return None
    return (b, L)


def contained(ex, ws, b, L, k, S):
    sv = ex.S
    ex.S = S
    try:
        if is_conc(L) and L < 0:
            if L != -1:
                return False
            for w in ws:
                lo, hi = w
                if not ex.entails(implies(w.cond, and_(eq(lo, sub(b, k)), le(hi, add(lo, 1))))):
                    return False
            return True
        if not is_conc(L) and not ex.entails(le(0, L)):
            return False
        for w in ws:
            lo, hi = w
            if not ex.entails(or_(not_(w.cond), le(hi, lo), and_(le(add(b, mul(L, k)), lo), le(hi, add(b, mul(L, add(k, 1))))))):
                return False
        return True
    finally:
        ex.S = sv


def sdiv(ex, j, L):
    """floor(j / L) with a syntactic shortcut for j = p*L + q"""
    if is_conc(L) and L == 1:
        return j
    if is_conc(L) and is_conc(j):
        return j // L
    r = split_mul(ex, j, L)
    if r is not None:
        return r
    return toz(j) / toz(L)


def split_mul(ex, j, L):
    """j = p*L + q with 0<=q<L provable -> p"""
    if is_conc(j):
        return None
    t = z3.simplify(toz(j), som=True)
    args = t.children() if z3.is_add(t) else [t]
    p, q = 0, 0
    for a in args:
        fs = a.children() if z3.is_mul(a) else [a]
        hit = None
        if not is_conc(L):
            for i, f in enumerate(fs):
                if f.eq(toz(L)):
                    hit = i
                    break
            if hit is not None:
                rest = 1
                for i, f in enumerate(fs):
                    if i != hit:
                        rest = mul(rest, unz(f))
                p = add(p, rest)
                continue
        else:
            if len(fs) == 2 and z3.is_int_value(fs[0]) and fs[0].as_long() % L == 0:
                p = add(p, mul(fs[0].as_long() // L, fs[1]))
                continue
            if z3.is_int_value(a):
                c = a.as_long()
                q = add(q, c)
                continue
        q = add(q, unz(a))
    if ex.entails(and_(le(0, q), lt(q, L))):
        return p
    if not is_conc(L) and z3.is_mul(z3.simplify(toz(L), som=True)):
        # L is itself a product
        def parts(x):
            c, fs, todo = 1, [], [x]
            while todo:
                f = todo.pop()
                if z3.is_mul(f):
                    todo += f.children()
                elif z3.is_int_value(f):
                    c *= f.as_long()
                else:
                    fs.append(f)
            return c, fs
        lc, lf = parts(z3.simplify(toz(L), som=True))
        p, q = 0, 0
        for a in args:
            c, fs = parts(a)
            rest = list(fs)
            ok = lc != 0 and c % lc == 0
            for f in lf:
                i = next((i for i, g in enumerate(rest) if g.eq(f)), None)
                if i is None:
                    ok = False
                    break
                rest.pop(i)
            if ok and (fs or not lf):
                t = c // lc
                for g in rest:
                    t = mul(t, unz(g))
                p = add(p, t)
            else:
                q = add(q, unz(a))
        if ex.entails(and_(le(0, q), lt(q, L))):
            return p
    if not is_conc(L) and z3.is_add(z3.simplify(toz(L))):
        # the same without multiplying out
        p, q = 0, 0
        todo = [(1, toz(j))]
        while todo:
            s, a = todo.pop()
            if z3.is_add(a):
                todo += [(s, c) for c in a.children()]
            elif z3.is_sub(a):
                c = a.children()
                todo += [(s, c[0])] + [(-s, x) for x in c[1:]]
            else:
                fs = a.children() if z3.is_mul(a) else [a]
                hit = next((i for i, f in enumerate(fs) if z3.simplify(f - toz(L), som=True).eq(z3.IntVal(0))), None)
                if hit is None:
                    q = add(q, mul(s, unz(a)))
                else:
                    rest = s
                    for i, f in enumerate(fs):
                        if i != hit:
                            rest = mul(rest, unz(f))
                    p = add(p, rest)
        q = simp(z3.simplify(toz(q), som=True))
        if ex.entails(and_(le(0, q), lt(q, L))):
            return p
    return None


def element_form(ex, v, b, L, k, S, unresolved, ncon0, body_fresh, A0, key):
    """closed form of an array written range; function kt -> SArr"""
    sv = ex.S
    ex.S = S.copy()
    try:
        j = ex.fresh('j', z3.IntSort())
        if L is None:
            # same place in every iteration
            ex.S.pc.append(and_(le(b[0], j), lt(j, b[1])))
            try:
                val = DECIDED(ex, v, j)
            except (HypFail, NeedSplit):
                return None
            if isinstance(val, (Uninit,)):
                return None
            if isinstance(val, Z) and ([x for x in consts_of(val) if x in unresolved]):
                return 'later'
            if isinstance(val, Z) and body_fresh_except(val, ncon0, body_fresh, j):
                return None
            def form(kt):
                return IteArr(le(kt, 0), A0, MapArr(b[0], b[1], lambda i: subst_val(val, [(j, i), (k, sub(kt, 1))]), A0))
            return form
        if is_conc(L) and L < 0:
            ex.S.pc.append(eq(j, sub(b, k)))
        else:
            ex.S.pc.append(and_(le(add(b, mul(L, k)), j), lt(j, add(b, mul(L, add(k, 1))))))
        try:
            val = DECIDED(ex, v, j)
        except (HypFail, NeedSplit):
            return None
        if isinstance(val, Uninit):
            return None
        t = val.off if isinstance(val, Ptr) else val
        if isinstance(t, Z):
            if [x for x in consts_of(t) if x in unresolved]:
                return 'later'
            if body_fresh_except(t, ncon0, body_fresh, j):
                return None

        def form(kt):
            if is_conc(L) and L < 0:
                lo, hi = add(sub(b, kt), 1), add(b, 1)
                f = lambda i: subst_val(val, [(j, i), (k, sub(b, i))])
            else:
                lo, hi = b, add(b, mul(L, kt))
                f = lambda i: subst_val(val, [(j, i), (k, sdiv(ex, sub(i, b), L))])
            g = lambda i: simp_val(f(i))
            m = MapArr(lo, hi, g, A0)
            m.rows = (b, L)
            return m
        return form
    finally:
        ex.S = sv


def simp_val(v):
    return v


def body_fresh_except(t, ncon0, body_fresh, j):
    tt = subst(t, [(j, 0)])
    return body_fresh(tt, ncon0)


def written_any(v):
    return True


def under(ex, cond, a, idx):
    """DECIDED(a, idx) where cond is known"""
    sv = ex.S.pc
    ex.S.pc = list(sv) + [cond]
    try:
        return DECIDED(ex, a, idx)
    finally:
        ex.S.pc = sv


def DECIDED(ex, a, idx):
    """a.get(idx) with layer conditions decided by the solver where possible"""
    if isinstance(a, StoreArr):
        c = ex.decide(eq(idx, a.idx))
        if c is True:
            return a.val
        if c is False:
            return DECIDED(ex, a.base, idx)
        b = under(ex, not_(eq(idx, a.idx)), a.base, idx)
        return mergeu(eq(idx, a.idx), a.val, b)
    if isinstance(a, MapArr):
        cond = and_(le(a.lo, idx), lt(idx, a.hi))
        c = ex.decide(cond)
        if c is True:
            return a.f(idx)
        if c is False:
            return DECIDED(ex, a.base, idx)
        return mergeu(cond, a.f(idx), under(ex, not_(cond), a.base, idx))
    if isinstance(a, IteArr):
        return mergeu(a.c, DECIDED(ex, a.a, idx), DECIDED(ex, a.b, idx))
    if isinstance(a, ColArr):
        q, r, cond = a.place(idx)
        c = ex.decide(cond)
        if c is True:
            return a.f(r, q)
        if c is False:
            return DECIDED(ex, a.base, idx)
        return mergeu(cond, a.f(r, q), under(ex, not_(cond), a.base, idx))
    return a.get(idx)


def mergeu(c, a, b):
    if isinstance(a, Uninit) or isinstance(b, Uninit):
        ca = a.cond if isinstance(a, GuardedUninit) else not isinstance(a, Uninit)
        cb = b.cond if isinstance(b, GuardedUninit) else not isinstance(b, Uninit)
        va = a.val if isinstance(a, GuardedUninit) else a
        vb = b.val if isinstance(b, GuardedUninit) else b
        if ca is False and cb is False:
            return UNINIT
        if ca is False:
            return GuardedUninit(and_(not_(c), cb), vb)
        if cb is False:
            return GuardedUninit(and_(c, ca), va)
        try:
            return GuardedUninit(or_(and_(c, ca), and_(not_(c), cb)), merge_val(c, va, vb))
        except Unmergeable:
            raise NeedSplit(c)
    try:
        return merge_val(c, a, b)
    except Unmergeable:
        raise NeedSplit(c)


class LoopInfo:
    def __init__(self, ex, node, k, base, W, forms, left):
        self.ex, self.node, self.k, self.base, self.W, self.forms, self.left = ex, node, k, base, W, forms, left
        self.fn = ex.fnstack[-1][0] if ex.fnstack else ''

    def cells(self, sort=None):
        """keys of unresolved scalar cells"""
        out = []
        for key in self.left:
            nd = self.base.mem[key[0]]
            if isinstance(nd, Cell) and nd.ty is not None and (sort is None or nd.ty.k == sort):
                out.append(key)
        return out

    def allcells(self, sort=None):
        out = []
        for key in self.W:
            nd = self.base.mem[key[0]]
            if isinstance(nd, Cell) and nd.ty is not None and (sort is None or nd.ty.k == sort):
                out.append(key)
        return out

    def name(self, key):
        for did, lv in self.base.frames[-1].items():
            if isinstance(lv, LV) and lv.rid == key[0]:
                return self.ex.declnames.get(did)
        return None


def default_candidates(ex, info):
    """bounds between unresolved integer cells and loop-entry values"""
    out = []
    ints = info.cells('int')
    entry = {}
    for key in ints:
        entry[key] = getc(info.base, key)
    def g(S, key):
        return getc(S, key)
    # values available in the frame
    frame_ints = []
    for did, lv in info.base.frames[-1].items():
        if isinstance(lv, LV) and lv.idx is None:
            nd = info.base.mem.get(lv.rid)
            if isinstance(nd, Cell) and nd.ty is not None and nd.ty.k == 'int' and isinstance(nd.v, (int, Z)) and (lv.rid, 'v') not in info.W:
                frame_ints.append(nd.v)
    for key in ints:
        e = entry[key]
        if isinstance(e, (int, Z)):
            def cnt(S, k, key=key, e=e):
                return and_(le(e, g(S, key)), le(g(S, key), add(e, k)))
            cnt.wantsk = True
            out.append(cnt)
            out.append(lambda S, key=key, e=e: le(e, g(S, key)))
            out.append(lambda S, key=key, e=e: le(g(S, key), e))
        for f in frame_ints:
            out.append(lambda S, key=key, f=f: lt(g(S, key), f))
            out.append(lambda S, key=key, f=f: le(g(S, key), f))
            out.append(lambda S, key=key, f=f: le(f, g(S, key)))
        for key2 in ints:
            if key2 != key:
                out.append(lambda S, a=key, b=key2: lt(g(S, a), g(S, b)))
                out.append(lambda S, a=key, b=key2: le(g(S, a), g(S, b)))
                if isinstance(entry[key2], (int, Z)):
                    out.append(lambda S, a=key, e=entry[key2]: le(g(S, a), e))
                    out.append(lambda S, a=key, e=entry[key2]: le(e, g(S, a)))
    return out


def houdini(ex, base, cands, start_state, k, probe_run):
    cands = list(cands)
    # initially
    keep = []
    S0 = base
    for c in cands:
        try:
            f = c(S0) if not getattr(c, 'wantsk', False) else c(S0, 0)
        except (Unsupported, HypFail, TypeError, AttributeError):
            continue
        if isinstance(f, bool):
            if f:
                keep.append(c)
            continue
        if prove.prove(S0.pc, f, timeout=1500, use_cvc5=False, quick=True).status == 'proved':
            keep.append(c)
    for rnd in range(30):
        S = start_state(k)
        for c in keep:
            f = c(S) if not getattr(c, 'wantsk', False) else c(S, k)
            if not isinstance(f, bool):
                S.pc.append(f)
        outs, _ = probe_run(S)
        drop = []
        for c in keep:
            for kind, val, S2 in outs:
                if kind != 'cont':
                    continue
                f = c(S2) if not getattr(c, 'wantsk', False) else c(S2, add(k, 1))
                if isinstance(f, bool):
                    if f:
                        continue
                    drop.append(c)
                    break
                rr = prove.prove(S2.pc, f, timeout=1500, use_cvc5=False, quick=True).status
                if rr != 'proved':
                    if __import__('os').environ.get('HDBG'): print('DROP', rnd, rr, ' '.join(str(f).split())[:700])
                    drop.append(c)
                    break
        if not drop:
            return keep
        keep = [c for c in keep if c not in drop]
        if not keep:
            return []
    return []


def trip_count(ex, S, k, L0):
    """T with k == T entailed at the loop exit, from the (linear) exit condition"""
    cand = []
    for p in S.pc[L0:]:
        if not isinstance(p, Z):
            continue
        q = p
        while z3.is_not(q):
            q = q.arg(0)
        if not z3.is_app(q) or q.num_args() != 2 or q.decl().kind() not in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            continue
        a, b = q.arg(0), q.arg(1)
        if a.sort() != z3.IntSort() or str(k) not in consts_of(q):
            continue
        d = z3.simplify(b - a, som=True)
        d0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))), som=True)
        co = z3.simplify(z3.substitute(d, (k, z3.IntVal(1))) - d0, som=True)
        if not z3.is_int_value(co) or abs(co.as_long()) != 1:
            continue
        if not z3.is_true(z3.simplify(d0 + co * k == d, som=True)):
            continue
        t0 = z3.simplify(-d0 if co.as_long() == 1 else d0)
        for t in (t0, t0 + 1, t0 - 1):
            cand.append(z3.simplify(t))
    sv = ex.S
    ex.S = S
    try:
        for t in cand:
            if str(k) not in consts_of(t) and ex.entails(k == t):
                return unz(t)
    finally:
        ex.S = sv
    return None


def check_forms(ex, conts, forms, k):
    """the closed forms are inductive: the state after iteration k is the one claimed for k+1"""
    if ex.probe:
        return
    k1 = add(k, 1)
    for kind, val, S in conts:
        for key, f in forms.items():
            got, want = getc(S, key), f(k1)
            goals = []
            sv = ex.S
            ex.S = S.copy()
            try:
                if isinstance(got, SArr):
                    j = ex.fresh('jf', z3.IntSort())
                    nd = S.mem[key[0]]
                    ln = nd.n if isinstance(nd, Arr) else nd.p.get('size')
                    if ln is not None:
                        ex.S.pc.append(and_(le(0, j), lt(j, ln)))
                    if isinstance(want, ColArr):
                        # any index is L*q + r for some q and r
                        q, r, L = ex.fresh('q', z3.IntSort()), ex.fresh('r', z3.IntSort()), toz(want.L)
                        j = L * q + r
                        ex.S.pc += [q >= 0, r >= 0, r < L, L > 0, L * q >= 0]
                        kk = toz(k)
                        ex.S.pc += [z3.Implies(q < kk, L * q + L <= L * kk), z3.Implies(kk < q, L * kk + L <= L * q)]
                    elif isinstance(want, MapArr) and getattr(want, 'rows', None) is not None and not is_conc(want.rows[1]) and ex.entails(lt(0, want.rows[1])):
                        b0, L = toz(want.rows[0]), toz(want.rows[1])
                        q, r = ex.fresh('q', z3.IntSort()), ex.fresh('r', z3.IntSort())
                        kk = toz(k)
                        ex.S.pc += [j == b0 + L * q + r, r >= 0, r < L, z3.Implies(q >= 0, L * q >= 0), z3.Implies(q < 0, L * q <= -L)]
                        ex.S.pc += [z3.Implies(q < kk, L * q + L <= L * kk), z3.Implies(kk < q, L * kk + L <= L * q)]
                        j = b0 + L * q + r
                    try:
                        a, b = DECIDED(ex, got, j), DECIDED(ex, want, j)
                    except (HypFail, NeedSplit):
                        raise Unsupported('closed form of array not checkable')
                    if isinstance(a, GuardedUninit) and isinstance(b, GuardedUninit):
                        goals.append(or_(and_(a.cond, b.cond), and_(not_(a.cond), not_(b.cond))))
                        if not isinstance(a.val, Ptr):
                            goals.append(implies(a.cond, eqv(a.val, b.val)))
                        else:
                            goals.append(implies(a.cond, ex.ptr_eq(a.val, b.val)))
                    elif isinstance(a, Uninit) and isinstance(b, Uninit) and not isinstance(a, GuardedUninit) and not isinstance(b, GuardedUninit):
                        pass
                    elif isinstance(a, Ptr) and isinstance(b, Ptr):
                        goals.append(ex.ptr_eq(a, b))
                    elif isinstance(a, Uninit) or isinstance(b, Uninit):
                        if isinstance(a, GuardedUninit) and not isinstance(b, Uninit):
                            goals.append(and_(a.cond, eqp(ex, a.val, b)))
                        elif isinstance(b, GuardedUninit) and not isinstance(a, Uninit):
                            goals.append(and_(b.cond, eqp(ex, a, b.val)))
                        else:
                            goals.append(False)
                    else:
                        goals.append(eqv(a, b))
                elif isinstance(got, Ptr):
                    goals.append(ex.ptr_eq(got, want))
                elif isinstance(want, GuardedUninit):
                    goals.append(eqv(got, want.val))
                else:
                    goals.append(eqv(got, want))
                for g in goals:
                    if isinstance(g, bool) and g:
                        continue
                    r = prove.prove(ex.S.pc, g, timeout=4000)
                    if r.status == 'unknown':
                        r = prove.prove(ex.S.pc, g, timeout=16000)
                    if r.status != 'proved':
                        if __import__('os').environ.get('DBGL'): print('NOTIND', key, g, '\nPC', ex.S.pc, '\n', r.model)
                        raise Unsupported('loop closed form not inductive (%s)' % r.status)
                    ex.loop_checks = getattr(ex, 'loop_checks', 0) + 1
            finally:
                ex.S = sv


def eqp(ex, a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return ex.ptr_eq(a, b)
    return eqv(a, b)


def eqv(a, b):
    if isinstance(a, str) or isinstance(b, str) or (isinstance(a, Z) and a.sort() == z3.StringSort()):
        return toz(a) == toz(b)
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return toz(a) == toz(b)
    return eq(a, b)

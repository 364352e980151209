"""Discharging of obligations: algebraic normal form, z3, cvc5."""
import time, subprocess, tempfile, os
import z3
from fractions import Fraction
from terms import *
from sympy.polys.rings import ring
from sympy.polys.domains import QQ

STATS = {'z3': 0, 'cvc5': 0, 'algebra': 0, 'trivial': 0, 'time': 0.0}
AXIOMS = []          # global facts about uninterpreted functions (z3 quantified formulas)


# ------------------------------------------------------------------ algebra
class _Alg:
    def __init__(self):
        self.atoms = {}
        self.order = []

    def collect(self, t):
        st = [t]
        seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_rational_value(x) or z3.is_int_value(x):
                continue
            k = x.decl().kind()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
                st.extend(x.children())
            elif k == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)) and x.arg(1).denominator_as_long() == 1 and abs(x.arg(1).numerator_as_long()) < 40:
                st.append(x.arg(0))
            else:
                if x.get_id() not in self.atoms:
                    y = self.same_atom(x)
                    if y is not None:
                        self.atoms[x.get_id()] = self.atoms[y.get_id()]
                        continue
                    self.atoms[x.get_id()] = (x, len(self.order))
                    self.order.append(x)
                    nm = x.decl().name()
                    if nm == 'sqrt':
                        st.append(x.arg(0))
                    elif nm == 'sin' or nm == 'cos':
                        o = (FN('cos') if nm == 'sin' else FN('sin'))(x.arg(0))
                        if o.get_id() not in self.atoms:
                            self.atoms[o.get_id()] = (o, len(self.order))
                            self.order.append(o)
                    elif nm == 'pow':
                        pass

    def same_atom(self, x):
        """an atom already seen with the same function and algebraically equal arguments"""
        if x.num_args() == 0 or x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return None
        for y in self.order:
            if y.num_args() and y.decl().eq(x.decl()):
                ok = True
                for a, b in zip(x.children(), y.children()):
                    if a.eq(b):
                        continue
                    if a.sort() == z3.RealSort():
                        if _has_ite(a) or _has_ite(b) or not alg_equal(a, b):
                            ok = False
                            break
                    elif not z3.is_true(z3.simplify(a == b)):
                        ok = False
                        break
                if ok:
                    return y
        return None

    def conv(self, t):
        """-> (num, den)"""
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        R = self.R
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = unz(t)
            r = (R(QQ(Fraction(v).numerator, Fraction(v).denominator)), R(1))
        else:
            k = t.decl().kind()
            ch = t.children()
            if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
                n, d = self.conv(ch[0])
                for c in ch[1:]:
                    n2, d2 = self.conv(c)
                    if k == z3.Z3_OP_SUB:
                        n2 = -n2
                    if d == d2:
                        n = n + n2
                    else:
                        n, d = n * d2 + n2 * d, d * d2
                r = (n, d)
            elif k == z3.Z3_OP_MUL:
                n, d = R(1), R(1)
                for c in ch:
                    n2, d2 = self.conv(c)
                    n, d = n * n2, d * d2
                r = (n, d)
            elif k == z3.Z3_OP_UMINUS:
                n, d = self.conv(ch[0])
                r = (-n, d)
            elif k == z3.Z3_OP_DIV:
                n, d = self.conv(ch[0])
                n2, d2 = self.conv(ch[1])
                r = (n * d2, d * n2)
            elif k == z3.Z3_OP_POWER and i not in self.atoms:
                n, d = self.conv(ch[0])
                e = ch[1].numerator_as_long()
                r = (n ** e, d ** e) if e >= 0 else (d ** (-e), n ** (-e))
            else:
                r = (self.g[self.atoms[i][1]], R(1))
        if len(r[0]) > 20000 or len(r[1]) > 5000:
            raise OverflowError
        self.memo[i] = r
        return r

    def reduce(self, num):
        """rewrite even powers of sqrt atoms and of cos atoms away"""
        R = self.R
        changed = True
        rounds = 0
        while changed and rounds < 30 and num != 0:
            changed = False
            rounds += 1
            for idx in range(len(self.order) - 1, -1, -1):
                x = self.order[idx]
                nm = x.decl().name() if z3.is_app(x) else ''
                if nm not in ('sqrt', 'cos'):
                    continue
                md = max((m[idx] for m in num.itermonoms()), default=0)
                if md < 2:
                    continue
                changed = True
                if nm == 'cos':
                    s = FN('sin')(x.arg(0))
                    si = self.g[self.atoms[s.get_id()][1]]
                    an, ad = 1 - si ** 2, R(1)
                else:
                    an, ad = self.conv(x.arg(0))
                # group by power of atom
                M = md // 2
                new = R(0)
                pa = [R(1)]
                pd = [R(1)]
                for _ in range(M):
                    pa.append(pa[-1] * an)
                    pd.append(pd[-1] * ad)
                byp = {}
                for m, c in num.iterterms():
                    p = m[idx]
                    mm = list(m)
                    mm[idx] = p % 2
                    byp.setdefault(p // 2, []).append((tuple(mm), c))
                for p, ts in byp.items():
                    q = R(0)
                    q = R.from_dict(dict(_acc(ts)))
                    new = new + q * pa[p] * pd[M - p]
                num = new
                if len(num) > 40000:
                    raise OverflowError
        return num

    def zero(self, t):
        self.collect(t)
        names = ['a%d' % i for i in range(max(1, len(self.order)))]
        self.R, *g = ring(names, QQ)
        self.g = g
        self.memo = {}
        n, d = self.conv(t)
        if n == 0:
            return True
        return self.reduce(n) == 0


def _acc(ts):
    d = {}
    for m, c in ts:
        d[m] = d.get(m, 0) + c
    return {m: c for m, c in d.items() if c != 0}


_fns = {}


def FN(name, n=1):
    k = (name, n)
    if k not in _fns:
        _fns[k] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return _fns[k]


_algmemo = {}


def alg_equal(a, b):
    a, b = toz(a, True), toz(b, True)
    k = (a.get_id(), b.get_id())
    if k in _algmemo:
        return _algmemo[k][2]
    try:
        r = _Alg().zero(a - b)
    except OverflowError:
        r = False
    _algmemo[k] = (a, b, r)
    return r


def _has_ite(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


class Result:
    def __init__(self, status, backend='', model=None, time=0.0, note=''):
        self.status, self.backend, self.model, self.time, self.note = status, backend, model, time, note


def _sum_facts(fs, ctxpc, depth=0):
    """definitional and extensionality facts for the sums occurring in fs"""
    apps = []
    for f in fs:
        if isinstance(f, Z):
            apps += Sums.apps(f)
    u = {}
    for a in apps:
        u[a.get_id()] = a
    apps = list(u.values())
    facts = []
    for a in apps:
        n = a.arg(0)
        facts.append(z3.Implies(n <= 0, a == 0))
        # one unfolding at the end
        prev = a.decl()(n - 1, *a.children()[1:])
        facts.append(z3.Implies(n >= 1, a == prev + Sums.summand(a, n - 1)))
    if depth == 0:
        for i in range(len(apps)):
            for j in range(i + 1, len(apps)):
                x, y = apps[i], apps[j]
                if x.decl().name() == y.decl().name() and False:
                    continue
                k = z3.Const('$ext', z3.IntSort())
                sx, sy = Sums.summand(x, k), Sums.summand(y, k)
                eqs = alg_equal(sx, sy)
                if not eqs:
                    eqs = lin_unsat(list(ctxpc) + [k >= 0, k < x.arg(0), sx != sy], 1500)
                    if eqs is None:
                        s = z3.Solver()
                        s.set('timeout', 1500)
                        for p in ctxpc:
                            s.add(p)
                        s.add(k >= 0, k < x.arg(0), sx != sy)
                        eqs = s.check() == z3.unsat
                if eqs:
                    facts.append(z3.Implies(x.arg(0) == y.arg(0), x == y))
        # non-negativity of sums of squares-like summands
        for a in apps:
            k = z3.Const('$ext', z3.IntSort())
            q = list(ctxpc) + [k >= 0, k < a.arg(0), Sums.summand(a, k) < 0]
            lu = lin_unsat(q, 1000)
            if lu is None:
                s = z3.Solver()
                s.set('timeout', 1000)
                for p in q:
                    s.add(p)
                lu = s.check() == z3.unsat
            if lu:
                facts.append(a >= 0)
    return facts


_cache = {}
_keep = []

# definitions of specification functions, unfolded once for every ground application that occurs in a query:
# name -> function(application) giving a quantifier-free fact (or None)
DEFS = {}
_dcache = {}


_acache = {}


def _def_apps(e):
    """ids of the facts needed for the applications in one formula (memoised; includes those in the facts themselves)"""
    i = e.get_id()
    if i in _acache:
        return _acache[i]
    _keep.append(e)
    out = {}
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if j in _acache and j != i:
            out.update(_acache[j])
            continue
        if z3.is_quantifier(x) or not z3.is_app(x):
            continue
        n = x.num_args()
        if not n:
            continue
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in DEFS and j not in _dcache:
            f = DEFS[x.decl().name()](x)
            _dcache[j] = f if f is not None else False
            _keep.append((x, f))
        f = _dcache.get(j, False)
        if f is not False:
            out[f.get_id()] = f
            stack.append(f)
        stack.extend(x.children())
    _acache[i] = out
    return out


def def_facts(fs):
    """instances of DEFS for the applications in fs (and in the instances: chains end where DEFS stop mentioning
    defined names)"""
    if not DEFS:
        return []
    out = {}
    for f in fs:
        out.update(_def_apps(f))
    return list(out.values())


def prove(pc, goal, timeout=8000, use_cvc5=True, quick=False):
    t0 = time.time()
    if isinstance(goal, bool):
        if goal:
            STATS['trivial'] += 1
            return Result('proved', 'trivial')
    pcz = [toz(p) for p in pc if not (isinstance(p, bool) and p)]
    g = toz(goal)
    key = (tuple(sorted(p.get_id() for p in pcz)), g.get_id(), timeout)
    if key in _cache:
        return _cache[key]
    _keep.append((pcz, g))
    r = _prove(pcz + def_facts(pcz + [g]), g, timeout, use_cvc5, quick)
    r.time = time.time() - t0
    STATS['time'] += r.time
    if r.status == 'proved':
        STATS[r.backend] = STATS.get(r.backend, 0) + 1
    _cache[key] = r
    return r


def _prove(pcz, g, timeout, use_cvc5, quick):
    gs = z3.simplify(g)
    if z3.is_true(gs):
        return Result('proved', 'trivial')
    # conjunctions one by one
    if z3.is_and(g):
        bk = 'trivial'
        for c in g.children():
            r = _prove(pcz, c, timeout, use_cvc5, quick)
            if r.status != 'proved':
                return r
            if r.backend != 'trivial':
                bk = r.backend
        return Result('proved', bk)
    if z3.is_eq(g) and g.arg(0).sort() == z3.RealSort() and not _has_ite(g):
        if alg_equal(g.arg(0), g.arg(1)):
            return Result('proved', 'algebra')
    if not any(p.eq(g) for p in pcz):
        pass
    else:
        return Result('proved', 'trivial')
    facts = _sum_facts([g] + pcz, pcz) if (Sums.table) else []
    if lin_unsat(pcz + facts + [z3.Not(g)], timeout // 2):
        return Result('proved', 'z3')
    if nra_unsat(pcz + facts, g, timeout):
        return Result('proved', 'z3')
    s = z3.Solver()
    s.set('timeout', timeout)
    for p in pcz + facts + AXIOMS:
        s.add(p)
    s.add(z3.Not(g))
    r = s.check()
    if r == z3.unsat:
        return Result('proved', 'z3')
    if r == z3.sat:
        return Result('refuted', 'z3', s.model())
    if quick:
        return Result('unknown', 'z3', note=s.reason_unknown())
    # second try: nlsat / smt tactics
    for tac in ('qfnra-nlsat', 'qfufnra', 'smt'):
        try:
            s2 = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', tac).solver() if tac != 'smt' else z3.Tactic('smt').solver()
            s2.set('timeout', timeout)
            for p in pcz + facts + AXIOMS:
                s2.add(p)
            s2.add(z3.Not(g))
            r = s2.check()
            if r == z3.unsat:
                return Result('proved', 'z3')
            if r == z3.sat:
                try:
                    return Result('refuted', 'z3', s2.model())
                except z3.Z3Exception:
                    return Result('refuted', 'z3')
        except z3.Z3Exception:
            pass
    if use_cvc5:
        st = cvc5_check(s, timeout)
        if st == 'unsat':
            return Result('proved', 'cvc5')
        if st == 'sat':
            return Result('refuted', 'cvc5')
    return Result('unknown', 'z3+cvc5', note=s.reason_unknown())


def nra_unsat(hyps, g, timeout):
    """pure real-arithmetic attempt: applications of functions become constants, other hypotheses are dropped"""
    memo = {}
    keep = {}

    class No(Exception):
        pass

    def rep(t):
        i = t.get_id()
        if i in memo:
            if memo[i] is None:
                raise No
            return memo[i]
        memo[i] = None
        if z3.is_quantifier(t) or z3.is_var(t):
            raise No
        if t.sort() == z3.RealSort() and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_TO_REAL) and t.num_args() > 0:
            r = z3.Real('$a%d' % i)
            keep[i] = t
        elif t.sort() == z3.RealSort() or t.sort() == z3.BoolSort():
            if t.num_args() == 0:
                r = t
            else:
                r = t.decl()(*[rep(c) for c in t.children()])
        else:
            raise No
        memo[i] = r
        return r
    try:
        gg = rep(g)
    except No:
        return False
    hs = []

    def flat(h):
        if z3.is_and(h):
            for c in h.children():
                flat(c)
            return
        try:
            hs.append(rep(h))
        except No:
            pass
    for h in hyps:
        flat(h)
    if not any(_nl_real(h) for h in hs + [gg]):
        return False
    for mk in (lambda: z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver(), lambda: z3.SolverFor('QF_NRA')):
        try:
            s = mk()
            s.set('timeout', max(1000, timeout // 2))
            for h in hs:
                s.add(h)
            s.add(z3.Not(gg))
            r = s.check()
            if r == z3.unsat:
                return True
            if r == z3.sat:
                return False
        except z3.Z3Exception:
            pass
    return False


def _nl_real(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
                return True
            if x.decl().kind() == z3.Z3_OP_MUL and len([c for c in x.children() if not z3.is_rational_value(c)]) > 1:
                return True
            st.extend(x.children())
    return False


def cvc5_check(solver, timeout):
    txt = '(set-logic ALL)\n' + solver.to_smt2()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    with os.fdopen(fd, 'w') as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--nl-ext-tplanes', p], capture_output=True, timeout=timeout / 1000 + 10)
        o = r.stdout.decode().split()
        return o[0] if o else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(p)


# ------------------------------------------------------------ integer products
def _nl_int(t, memo={}):
    """does t contain a product (or quotient) of integer variables?"""
    i = t.get_id()
    if i in memo:
        return memo[i][1]
    r = False
    if z3.is_quantifier(t):
        r = _nl_int(t.body())
    elif z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_MUL and t.sort() == z3.IntSort() and len([c for c in t.children() if not z3.is_int_value(c)]) >= 2:
            r = True
        elif t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(t.arg(1)):
            r = True
        else:
            r = any(_nl_int(c) for c in t.children())
    memo[i] = (t, r)
    return r


_lcache = {}


def _lkey(fac):
    return tuple(sorted((f.get_id() for f in fac)))


def _lin1(f):
    """one formula: (replaced, products, facts on quotients)"""
    i = f.get_id()
    if i in _lcache:
        return _lcache[i][1:]
    mono = {}
    quo = {}
    dfacts = []
    key = _lkey
    keep = [f]

    def rep(t, memo):
        i = t.get_id()
        if i in memo:
            return memo[i]
        if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
            r = t
        else:
            ch = [rep(c, memo) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_MUL and t.sort() == z3.IntSort():
                con = [c for c in ch if z3.is_int_value(c)]
                fac = []
                for c in ch:
                    if z3.is_int_value(c):
                        continue
                    fac.append(c)
                if len(fac) >= 2:
                    k = key(fac)
                    if k not in mono:
                        mono[k] = (z3.Int('$nl%s' % '_'.join(map(str, k))), fac)
                    r = mono[k][0]
                    for c in con:
                        r = c * r
                else:
                    r = t.decl()(*ch)
            elif t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(ch[1]):
                a, c = ch
                dk = (a.get_id(), c.get_id())
                if dk not in quo:
                    q = z3.Int('$div%d_%d' % dk)
                    fac = [q, c]
                    k = key(fac)
                    if k not in mono:
                        mono[k] = (z3.Int('$nl%s' % '_'.join(map(str, k))), fac)
                    m = mono[k][0]
                    keep.append((a, c, q))
                    quo[dk] = (q, m)
                    dfacts.append(z3.Implies(c > 0, z3.And(m <= a, a < m + c)))
                q, m = quo[dk]
                r = q if t.decl().kind() == z3.Z3_OP_IDIV else z3.If(c > 0, a - m, z3.Int('$mod%d_%d' % dk))
            else:
                r = t.decl()(*ch)
        memo[i] = r
        keep.append(t)
        return r
    g = z3.simplify(f, som=True)
    keep.append(g)
    r = rep(g, {})
    _lcache[i] = (keep, r, mono, dfacts)
    return r, mono, dfacts


def linearize(fs):
    """replace products of integers by constants, with monotonicity facts; None if there are none"""
    nl = [_nl_int(f) for f in fs]
    if not any(nl):
        return None
    key = _lkey
    out, facts, mono = [], [], {}
    for f, n in zip(fs, nl):
        if n:
            r, m, d = _lin1(f)
            out.append(r)
            mono.update(m)
            facts += d
        else:
            out.append(f)
    by = {}
    for k, (c, fac) in list(mono.items()):
        facts.append(z3.Implies(z3.And(*[f >= 0 for f in fac]), c >= 0))
        for i in range(len(fac)):
            rest = fac[:i] + fac[i + 1:]
            x = rest[0] if len(rest) == 1 else (mono[key(rest)][0] if key(rest) in mono else None)
            if x is None:
                continue
            by.setdefault(fac[i].get_id(), (fac[i], []))[1].append((x, c))
            facts.append(z3.Implies(z3.And(fac[i] >= 0, x >= 1), c >= fac[i]))
            facts.append(z3.Implies(fac[i] == 0, c == 0))
            facts.append(z3.Implies(fac[i] == 1, c == x))
    for i, (f, lst) in by.items():
        for a in range(len(lst)):
            for b in range(len(lst)):
                if a == b:
                    continue
                x, cx = lst[a]
                y, cy = lst[b]
                facts.append(z3.Implies(z3.And(f >= 0, x < y), cx + f <= cy))
                facts.append(z3.Implies(z3.And(f >= 0, x <= y), cx <= cy))
                if a < b:
                    facts.append(z3.Implies(x == y, cx == cy))
    return out + facts


def lin_unsat(fs, timeout):
    try:
        l = linearize(fs)
    except z3.Z3Exception:
        return None
    if l is None:
        return None
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in l:
        s.add(f)
    return s.check() == z3.unsat


_fcache = {}


def feasible(pc, cond, timeout=400):
    """False only if pc & cond is unsatisfiable."""
    if isinstance(cond, bool):
        return cond
    pcz = [p for p in pc if isinstance(p, Z)]
    key = (tuple(p.get_id() for p in pcz), cond.get_id())
    if key in _fcache:
        return _fcache[key]
    _keep.append((pcz, cond))
    pcz = pcz + def_facts(pcz + [cond])
    lu = lin_unsat(pcz + [cond], timeout)
    if lu is None:
        s = z3.Solver()
        s.set('timeout', timeout)
        for p in pcz:
            s.add(p)
        s.add(cond)
        r = s.check() != z3.unsat
    else:
        r = not lu
    _fcache[key] = r
    return r

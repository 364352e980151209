from frame import *
from P08 import cell, PT
from P14 import truth_is, strarg_, instk
import loops
from stdlib import mkstr, sval, INTOK, INTV, INTEND, REALOK, REALV, REALEND, REALRANGE

TITLE = 'Values of settings'
HARNESS = dict(src='P16.cpp', link='all')
D = 'src/Configuration/'
SC = 'SettingScript'
SS = z3.StringSort()
VAL = z3.Function('value', z3.IntSort(), SS)
NM, NV = z3.Const('nm', SS), z3.Const('nv', SS)


def load(b):
    b.load([D + 'Setting.cpp', D + 'Script/SettingScript.cpp'])


def full(s, end):
    return end(s) == z3.Length(s)


def noneg(s):
    return z3.Not(z3.Contains(s, z3.StringVal('-')))


def isint(bits, signed):
    def f(s):
        r = z3.And(INTOK(s), full(s, INTEND))
        if signed:
            return z3.And(r, INTV(s) >= -2 ** (bits - 1), INTV(s) < 2 ** (bits - 1))
        return z3.And(r, noneg(s), INTV(s) >= 0, INTV(s) < 2 ** bits)
    return f


def isreal(s):
    return z3.And(REALOK(s), full(s, REALEND), z3.Not(REALRANGE(s, 8)))


YES = ['yes', 'Yes', 'YES', 'true', 'True', 'TRUE']
NO = ['no', 'No', 'NO', 'false', 'False', 'FALSE']


def isin(s, l):
    return z3.Or(*[s == z3.StringVal(x) for x in l])


KINDS = {   # type check, getters, what it accepts, value
    'Bool': (['GetBool'], lambda s: isin(s, YES + NO), lambda s: isin(s, YES)),
    'Integer': (['GetInteger'], isint(64, True), INTV),
    'Integer32': (['GetInteger32'], isint(32, True), INTV),
    'Integer64': (['GetInteger64'], isint(64, True), INTV),
    'UnsignedInteger32': (['GetUnsignedInteger32'], isint(32, False), INTV),
    'UnsignedInteger64': (['GetUnsignedInteger64'], isint(64, False), INTV),
    'Scalar': (['GetScalar'], isreal, lambda s: REALV(s, 8)),
}


def units(b):
    out = []

    def meth(name, np_=None, cls=SC):
        r = [d for d in b.prog.find_fn(cls + '::' + name) if b.prog.body(d) and (np_ is None or len(params(d)) == np_)]
        if not r:
            raise Unsupported('no %s::%s' % (cls, name))
        return r[0]

    def setting(ex):
        o = LV(ex.alloc_rec(SC, 'sym', name='s'))
        n = ex.fint('n', 0, 2 ** 32 - 1)
        v = ex.fld(o, 'values')
        ex.setnode(v.rid, ex.node(v.rid).w(size=n, a=BaseArr(lambda k: VAL(toz(k)))))
        return o, n

    def neglaw(ex, s):
        # a number below zero is written with a minus sign
        ex.assume(z3.Implies(z3.And(INTOK(s), INTV(s) < 0), z3.Contains(s, z3.StringVal('-'))))

    def u_is(ex, kind):
        o, n = setting(ex)
        i = ex.fint('i', 0, 2 ** 32 - 1)
        s = VAL(toz(i))
        neglaw(ex, s)
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth('Is' + kind, 1), o, [cell(ex, i, UINT)])
        ex.oblige(implies(lt(i, n), k == 'ret'), 'the type of every value can be asked for', 'post')
        if k == 'ret':
            ex.oblige(lt(i, n), 'an error is raised for values that do not exist', 'post')
            truth_is(ex, v, KINDS[kind][1](s), 'a value has the type exactly if it is written in full as such')
        frame(ex, S0, ex.S)

    def u_isone(ex, kind):
        o, n = setting(ex)
        s = VAL(0)
        neglaw(ex, s)
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth('Is' + kind, 0), o, [])
        ex.oblige(k == 'ret', 'the type of every setting can be asked for', 'post')
        truth_is(ex, v, z3.And(toz(n) == 1, KINDS[kind][1](s)), 'a setting has the type exactly if it has one value, of that type')
        frame(ex, S0, ex.S)

    def u_get(ex, kind, g):
        o, n = setting(ex)
        i = ex.fint('i', 0, 2 ** 32 - 1)
        s = VAL(toz(i))
        neglaw(ex, s)
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(g, 1), o, [cell(ex, i, UINT)])
        ok = z3.And(toz(i) < toz(n), KINDS[kind][1](s))
        ex.oblige(implies(ok, k == 'ret'), 'every value of the type can be read', 'post')
        if k == 'ret':
            ex.oblige(lt(i, n), 'an error is raised for values that do not exist', 'post')
            if kind == 'Bool':
                ex.oblige(KINDS[kind][1](s), 'an error is raised for values that are not boolean', 'post')
                truth_is(ex, v, KINDS[kind][2](s), 'boolean value is the one written')
            else:
                ex.oblige(implies(ok, eq(v, KINDS[kind][2](s))), 'value is the number written', 'post')
        frame(ex, S0, ex.S)
    for kind, (gs, p, val) in KINDS.items():
        out.append(('type check: ' + kind, lambda ex, kind=kind: u_is(ex, kind)))
        out.append(('type check of the setting: ' + kind, lambda ex, kind=kind: u_isone(ex, kind)))
        for g in gs:
            out.append(('value: ' + kind, lambda ex, kind=kind, g=g: u_get(ex, kind, g)))

    def u_string(ex):
        o, n = setting(ex)
        i = ex.fint('i', 0, 2 ** 32 - 1)
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth('GetString', 1), o, [cell(ex, i, UINT)])
        ex.oblige(implies(lt(i, n), k == 'ret'), 'every value can be read as text', 'post')
        if k == 'ret':
            ex.oblige(and_(lt(i, n), toz(sval(ex, v)) == VAL(toz(i))), 'text is the one written', 'post')
        k, v = run_fn(ex, meth('GetNumberOfValues', 0), o, [])
        ex.oblige(eq(v, n), 'number of values', 'post')
        k, v = run_fn(ex, meth('GetTextVector', 0), o, [])
        nd = ex.node(v.rid)
        ex.oblige(eq(nd.p['size'], n), 'all values are returned', 'post')
        j = ex.fint('j', 0)
        ex.assume(lt(j, n))
        ex.oblige(toz(loops.DECIDED(ex, nd.p['a'], j)) == VAL(toz(j)), 'all values are returned in order', 'post')
        frame(ex, S0, ex.S)
    out.append(('values as text', u_string))

    def u_isvec(ex, size):
        o, n = setting(ex)
        S0 = ex.S.copy()
        if size:
            m = ex.fint('m', 0, 2 ** 32 - 1)
            k, v = run_fn(ex, meth('IsNumericVector', 1), o, [cell(ex, m, UINT)])
        else:
            m = n
            k, v = run_fn(ex, meth('IsNumericVector', 0), o, [])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        j = ex.fint('j', 0)
        if ex.branch(truth(v)):
            ex.assume(lt(j, n))
            instk(ex, j)
            ex.oblige(isreal(VAL(toz(j))), 'all values of a numeric vector are numbers', 'post')
            ex.oblige(eq(n, m), 'a numeric vector has as many values as asked for', 'post')
        elif ex.branch(eq(n, m)):
            kk = ex.S.ghost.get('exit_k', 0)
            ex.oblige(and_(le(0, kk), lt(kk, n), z3.Not(isreal(VAL(toz(kk))))), 'a setting is refused as numeric vector only if some value is not a number', 'post')
        frame(ex, S0, ex.S)

    def isscalar(ex, f, this, args):
        # contract proved as 'type check: Scalar'
        i = ex.read(args[0])
        o = ex.node(ex.fld(this, 'values').rid)
        ex.oblige(lt(i, o.p['size']), 'only existing values are asked for', 'safety')
        return isreal(VAL(toz(i)))

    def withscalar(g):
        def f(ex):
            ex.contracts = {meth('IsScalar', 1)['_m']: isscalar}
            g(ex)
        return f
    out.append(('type check: numeric vector', withscalar(lambda ex: u_isvec(ex, False))))
    out.append(('type check: numeric vector of given length', withscalar(lambda ex: u_isvec(ex, True))))

    def u_getvec(ex):
        o, n = setting(ex)
        ex.assume(z3.ForAll([X], z3.Implies(z3.And(0 <= X, X < toz(n)), isreal(VAL(X))), patterns=[VAL(X)]))
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth('GetNumericVector', 0), o, [])
        ex.oblige(k == 'ret', 'every numeric vector can be read', 'post')
        nd = ex.node(v.rid)
        ex.oblige(eq(nd.p['size'], n), 'vector has as many elements as the setting has values', 'post')
        j = ex.fint('j', 0)
        ex.assume(lt(j, n))
        instk(ex, j)
        ex.oblige(eq(loops.DECIDED(ex, nd.p['a'], j), REALV(VAL(toz(j)), 8)), 'elements are the numbers written', 'post')
        frame(ex, S0, ex.S)
    X = z3.Int('X!')
    out.append(('value: numeric vector', u_getvec))

    def same(ex, o, c, n, label):
        nd = ex.node(ex.fld(c, 'values').rid)
        ex.oblige(eq(nd.p['size'], n), label + ' has as many values', 'post')
        j = ex.fint('j', 0)
        ex.assume(lt(j, n))
        ex.oblige(toz(loops.DECIDED(ex, nd.p['a'], j)) == VAL(toz(j)), label + ' has the same values', 'post')

    def u_copy(ex):
        o, n = setting(ex)
        nm = toz(sval(ex, ex.fld(o, 'name')))
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth('Copy', 0), o, [])
        ex.oblige(k == 'ret' and isinstance(v, Ptr) and v.rid not in S0.mem, 'a copy is a new setting', 'post')
        c = LV(v.rid)
        ex.oblige(toz(sval(ex, ex.fld(c, 'name'))) == nm, 'a copy has the same name', 'post')
        same(ex, o, c, n, 'a copy')
        frame(ex, S0, ex.S)
    out.append(('copy', u_copy))

    def u_over(ex):
        o, n = setting(ex)
        c = LV(ex.alloc_rec(SC, 'sym', name='t'))
        if ex.branch(ex.fbool('itself')):
            c = o
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth('OverwriteValues', 1), c, [cell(ex, Ptr(o.rid), PT)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        same(ex, o, c, n, 'an overwritten setting')
        frame(ex, S0, ex.S, (ex.fld(c, 'values').rid,))
    out.append(('overwriting values', u_over))

    def u_append(ex):
        o, n = setting(ex)
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth('AppendValue', 1), o, [strarg_(ex, NV)])
        ex.oblige(k == 'ret' and isinstance(v, Ptr) and v.rid == o.rid, 'the setting is returned', 'post')
        nd = ex.node(ex.fld(o, 'values').rid)
        ex.oblige(eq(nd.p['size'], add(n, 1)), 'one value more', 'post')
        j = ex.fint('j', 0)
        ex.assume(le(j, n))
        ex.oblige(toz(loops.DECIDED(ex, nd.p['a'], j)) == z3.If(toz(j) == toz(n), NV, VAL(toz(j))), 'the new value is the last one', 'post')
        frame(ex, S0, ex.S, (ex.fld(o, 'values').rid,))
    out.append(('appending a value', u_append))

    def u_ctor(ex, vec):
        cts = [b.prog.definition(c) for c in b.prog.classes[SC]['ctors'] if len(params(c)) == 2]
        ct = [c for c in cts if ('vector' in c['type']['qualType']) == vec][0]
        o = LV(ex.alloc_rec(SC, 'uninit'))
        if vec:
            src, n = setting(ex)
            a = ex.fld(src, 'values')
        else:
            n, a = 1, strarg_(ex, VAL(0))
        k, v = run_fn(ex, ct, o, [strarg_(ex, NM), a])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        ex.oblige(toz(sval(ex, ex.fld(o, 'name'))) == NM, 'name of a new setting', 'post')
        truth_is(ex, ex.getf(o, 'touched'), z3.BoolVal(False), 'a new setting is unused')
        same(ex, None, o, n, 'a new setting')
    out.append(('new setting', lambda ex: u_ctor(ex, True)))
    out.append(('new setting of one value', lambda ex: u_ctor(ex, False)))

    def u_tobool(ex):
        f = [d for d in b.prog.find_fn('Setting::StringToBool') if b.prog.body(d)][0]
        k, v = run_fn(ex, f, None, [strarg_(ex, NV)])
        ex.oblige(implies(isin(NV, YES + NO), k == 'ret'), 'every boolean is understood', 'post')
        if k == 'ret':
            ex.oblige(isin(NV, YES + NO), 'everything else is refused', 'post')
            truth_is(ex, v, isin(NV, YES), 'boolean value of a string')
    out.append(('boolean value of a string', u_tobool))
    return out

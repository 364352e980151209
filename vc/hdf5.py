"""The C++ interface of the HDF5 library (assumed contracts).

A file holds named datasets with a type, dimensions and elements; what is there before is unknown (functions below),
what is created is recorded in order in the ghost variable 'h5'.
"""
import z3
from terms import *
from values import *
from program import Ty
from stdlib import sval, mkstr

IS, RS, SS, BS = z3.IntSort(), z3.RealSort(), z3.StringSort(), z3.BoolSort()
CODES = {'IEEE_F64LE': 1, 'STD_I32LE': 2, 'STD_I64LE': 3, 'STD_U32LE': 4, 'STD_U64LE': 5, 'C_S1': 6, 'STD_U16LE': 7}
# machine types of the platform (x86-64)
for a, c in (('DOUBLE', 1), ('INT', 2), ('INT32', 2), ('INT64', 3), ('LONG', 3), ('LLONG', 3), ('UINT', 4), ('UINT32', 4), ('UINT64', 5), ('ULONG', 5), ('ULLONG', 5), ('USHORT', 7), ('UINT16', 7)):
    CODES['NATIVE_' + a] = c
OTHER = ('STD_I8LE', 'STD_I16LE', 'STD_U8LE', 'IEEE_F32LE', 'NATIVE_FLOAT', 'NATIVE_CHAR', 'NATIVE_SHORT', 'STD_I32BE', 'STD_I64BE', 'STD_U32BE', 'STD_U64BE', 'IEEE_F64BE', 'FORTRAN_S1')
for i, a in enumerate(OTHER):
    CODES[a] = 100 + i
MEM = {1: ('real', 64, True), 2: ('int', 32, True), 3: ('int', 64, True), 4: ('int', 32, False), 5: ('int', 64, False), 7: ('int', 16, False)}
HAS = z3.Function('dataset_exists', SS, BS)
TYPE = z3.Function('dataset_type', SS, IS)
STRCLASS = z3.Function('type_is_text', IS, BS)
NDIMS = z3.Function('dataset_rank', SS, IS)
DIM = z3.Function('dataset_dim', SS, IS, IS)
PROD = z3.Function('dims_product', SS, IS, IS)
VR = z3.Function('dataset_real', SS, IS, RS)
VI = {c: z3.Function('dataset_int%d' % c, SS, IS, IS) for c in MEM if c != 1}
TEXT = z3.Function('dataset_text', SS, SS)
HASATT = z3.Function('attribute_exists', SS, SS, BS)
ATYPE = z3.Function('attribute_type', SS, SS, IS)
AREAL = z3.Function('attribute_real', SS, SS, RS)
ATEXT = z3.Function('attribute_text', SS, SS, SS)
CANOPEN = z3.Function('hdf5_can_open', SS, IS, BS)
MAXEL = 2 ** 50


def val(code, ds, i):
    return VR(ds, toz(i)) if code == 1 else VI[code](ds, toz(i))


def facts(ex, ds):
    q = z3.Int('q!')
    n = NDIMS(ds)
    ex.assume(z3.And(n >= 0, n <= 32, PROD(ds, 0) == 1, TYPE(ds) >= 1))
    ex.assume(z3.And(z3.Implies(n >= 1, PROD(ds, 1) == DIM(ds, 0)), z3.Implies(n >= 2, PROD(ds, 2) == DIM(ds, 0) * DIM(ds, 1))))
    ex.assume(z3.And(PROD(ds, n) >= 0, PROD(ds, n) < MAXEL, z3.Implies(n >= 1, z3.And(DIM(ds, 0) >= 0, DIM(ds, 0) < 2 ** 31)), z3.Implies(n >= 2, z3.And(DIM(ds, 1) >= 0, DIM(ds, 1) < 2 ** 31))))
    ex.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(DIM(ds, q) >= 0, DIM(ds, q) < 2 ** 63)), patterns=[DIM(ds, q)]))


def throw(cls):
    from interp import CxxThrow
    raise CxxThrow('H5::' + cls, None)


def log(ex, *ev):
    ex.S.ghost['h5'] = ex.S.ghost.get('h5', ()) + (ev,)


def install(L):
    def obj(ex, kind, **p):
        return LV(ex.put(Lib(kind, p)))

    def real(nodes):
        return [x for x in nodes if x['kind'] != 'CXXDefaultArgExpr']

    # ---- types
    for nm, c in CODES.items():
        def gl(ex, nm=nm, c=c):
            key = ('g', 'h5type', nm)
            if key not in ex.S.ghost:
                ex.S.ghost[key] = obj(ex, 'h5type', code=c)
            return ex.S.ghost[key]
        L.globals[nm] = gl

    def c_type(ex, ty, nodes, n):
        v = ex.ev(real(nodes)[0])
        nd = ex.node(v.rid)
        if not (isinstance(nd, Lib) and nd.kind == 'h5type'):
            raise Unsupported('HDF5 type')
        return obj(ex, 'h5type', **nd.p)
    for k in ('H5::PredType', 'H5::DataType', 'PredType', 'DataType'):
        L.ctors[k] = c_type

    def c_str(ex, ty, nodes, n):
        nodes = real(nodes)
        v = ex.ev(nodes[0])
        nd = ex.S.mem.get(v.rid) if isinstance(v, LV) else None
        if len(nodes) == 1 and isinstance(nd, Lib) and nd.kind == 'h5type':
            return obj(ex, 'h5type', **nd.p)
        if len(nodes) != 2 or nd is None or nd.p['code'] != 6:
            raise Unsupported('HDF5 string type')
        return obj(ex, 'h5type', code=6, size=L.args(ex, nodes[1:])[0])
    L.ctors['H5::StrType'] = L.ctors['StrType'] = c_str

    def is_type(ex, v):
        nd = ex.S.mem.get(v.rid) if isinstance(v, LV) else None
        return nd if isinstance(nd, Lib) and nd.kind == 'h5type' else None

    oldeq = {k: L.ops[k] for k in ('operator==', 'operator!=')}

    def mkeq(neg):
        old = oldeq['operator!=' if neg else 'operator==']

        def op(ex, nodes, n, *pre):
            if not any('H5::' in (x['type'].get('desugaredQualType') or x['type']['qualType']) or 'PredType' in x['type']['qualType'] or 'DataType' in x['type']['qualType'] for x in nodes):
                return old(ex, nodes, n, *pre)
            a, b = [is_type(ex, ex.lval(x)) for x in nodes]
            if a is None or b is None:
                raise Unsupported('comparison')
            r = eq(a.p['code'], b.p['code'])
            return not_(r) if neg else r
        return op
    L.ops['operator=='], L.ops['operator!='] = mkeq(False), mkeq(True)
    CLASSES = {'H5T_INTEGER': 0, 'H5T_FLOAT': 1, 'H5T_TIME': 2, 'H5T_STRING': 3, 'H5T_BITFIELD': 4, 'H5T_OPAQUE': 5, 'H5T_COMPOUND': 6}
    for k, v in dict(CLASSES, H5S_SCALAR=0, H5S_SIMPLE=1, H5S_NULL=2, H5F_SCOPE_LOCAL=0, H5F_SCOPE_GLOBAL=1).items():
        L.globals[k] = lambda ex, v=v: v

    @L.meth('h5type', 'getClass')
    def _(ex, this, nodes, n):
        c = toz(ex.node(this.rid).p['code'])
        return z3.If(z3.Or(c == 6, z3.And(c >= 100, STRCLASS(c))), 3, z3.If(c == 1, 1, z3.If(z3.And(c >= 2, c <= 7), 0, z3.If(STRCLASS(c), 3, 4))))

    # ---- files
    for k in ('H5check_version', 'H5open'):
        L.fns[k] = lambda ex, nodes, n: 0

    def c_file(ex, ty, nodes, n):
        nodes = real(nodes)
        s = sval(ex, ex.ev(nodes[0]))
        a = L.args(ex, nodes[1:2])
        if not a or not is_conc(a[0]):
            raise Unsupported('HDF5 access mode')
        m = int(a[0])
        ub = 0
        for x in nodes[2:]:
            v = ex.ev(x)
            nd = ex.S.mem.get(v.rid) if isinstance(v, LV) else None
            if isinstance(nd, Lib) and nd.kind == 'h5fcpl':
                ub = nd.p['userblock']
        if not ex.branch(CANOPEN(toz(s), z3.IntVal(m))):
            throw('FileIException')
        log(ex, 'open', s, m, ub)
        return obj(ex, 'h5file', name=s, mode=m, open=True)
    L.ctors['H5::H5File'] = L.ctors['H5File'] = c_file

    def c_fcpl(ex, ty, nodes, n):
        return obj(ex, 'h5fcpl', userblock=0)
    L.ctors['H5::FileCreatPropList'] = L.ctors['FileCreatPropList'] = c_fcpl
    L.globals['DEFAULT'] = lambda ex: obj(ex, 'h5fcpl', userblock=0)

    @L.meth('h5fcpl', 'setUserblock')
    def _(ex, this, nodes, n):
        ex.setnode(this.rid, ex.node(this.rid).w(userblock=L.args(ex, nodes)[0]))

    def is_open(ex, this, what='file is open'):
        nd = ex.node(this.rid)
        ex.oblige(nd.p['open'], what)
        return nd

    @L.meth('h5file', 'flush')
    def _(ex, this, nodes, n):
        is_open(ex, this)
        log(ex, 'flush', ex.node(this.rid).p['name'])

    @L.meth('h5file', 'close')
    def _(ex, this, nodes, n):
        nd = is_open(ex, this)
        log(ex, 'close', nd.p['name'])
        ex.setnode(this.rid, nd.w(open=False))

    @L.meth('h5file', 'openDataSet')
    def _(ex, this, nodes, n):
        is_open(ex, this)
        s = toz(sval(ex, ex.ev(real(nodes)[0])))
        made = [e for e in ex.S.ghost.get('h5', ()) if e[0] == 'create']
        for e in reversed(made):
            if toz(e[1]).eq(s):
                return obj(ex, 'h5set', name=s, new=e, open=True)
        if made:
            raise Unsupported('dataset opened after others were created')
        if not ex.branch(HAS(s)):
            throw('FileIException')
        facts(ex, s)
        return obj(ex, 'h5set', name=s, new=None, open=True)

    @L.meth('h5file', 'createDataSet')
    def _(ex, this, nodes, n):
        is_open(ex, this)
        nodes = real(nodes)
        s = toz(sval(ex, ex.ev(nodes[0])))
        t, sp = is_type(ex, ex.ev(nodes[1])), ex.node(ex.ev(nodes[2]).rid)
        if t is None or sp.kind != 'h5space':
            raise Unsupported('createDataSet')
        made = [e for e in ex.S.ghost.get('h5', ()) if e[0] == 'create']
        if made:
            raise Unsupported('several datasets')
        if ex.branch(HAS(s)):
            throw('FileIException')
        log(ex, 'create', s, t.p['code'], sp.p)
        return obj(ex, 'h5set', name=s, new=ex.S.ghost['h5'][-1], open=True)

    @L.meth('h5file', 'createGroup')
    def _(ex, this, nodes, n):
        is_open(ex, this)
        s = toz(sval(ex, ex.ev(real(nodes)[0])))
        log(ex, 'group', s)
        return obj(ex, 'h5group', name=s, new=None, open=True)

    def c_copy(ex, ty, nodes, n):
        v = ex.ev(real(nodes)[0])
        nd = ex.node(v.rid)
        return LV(ex.put(Lib(nd.kind, dict(nd.p))))
    for k in ('DataSet', 'Group', 'Attribute'):
        L.ctors['H5::' + k] = L.ctors[k] = c_copy

    # ---- dataspaces
    def snap(ex, p, n, what):
        nd = ex.node(p.rid)
        off = 0 if p.off is None else p.off
        if not isinstance(nd, Arr):
            raise Unsupported(what)
        ex.oblige(and_(le(0, off), le(add(off, n), nd.n)), what + ': within the array given')
        a = nd.a
        return lambda i: a.get(add(off, i)), nd

    def c_space(ex, ty, nodes, n):
        nodes = real(nodes)
        if not nodes:
            raise Unsupported('dataspace')
        v = ex.ev(nodes[0])
        nd = ex.S.mem.get(v.rid) if isinstance(v, LV) and v.idx is None else None
        if isinstance(nd, Lib) and nd.kind == 'h5space':
            return LV(ex.put(nd))
        a = L.args(ex, nodes)
        if len(a) == 1:
            if not (is_conc(a[0]) and int(a[0]) == 0):
                raise Unsupported('dataspace')
            return obj(ex, 'h5space', rank=0, dim=None)
        p = a[1] if isinstance(a[1], Ptr) else Ptr(a[1].rid, 0)
        if p.rid is None:
            ex.oblige(eq(a[0], 0), 'dimensions are given')
        get, nd = snap(ex, p, a[0], 'dimensions of a dataspace')
        return obj(ex, 'h5space', rank=a[0], dim=get)
    L.ctors['H5::DataSpace'] = L.ctors['DataSpace'] = c_space

    @L.meth('h5set', 'getSpace')
    def _(ex, this, nodes, n):
        nd = is_open(ex, this, 'dataset is open')
        if nd.p['new'] is not None:
            return obj(ex, 'h5space', **nd.p['new'][3])
        s = nd.p['name']
        return obj(ex, 'h5space', rank=NDIMS(s), dim=lambda i: DIM(s, toz(i)), of=s)

    @L.meth('h5space', 'getSimpleExtentNdims')
    def _(ex, this, nodes, n):
        return ex.node(this.rid).p['rank']

    @L.meth('h5space', 'getSimpleExtentDims')
    def _(ex, this, nodes, n):
        nd = ex.node(this.rid)
        a = L.args(ex, real(nodes))
        if len(a) != 1:
            raise Unsupported('getSimpleExtentDims')
        p = a[0] if isinstance(a[0], Ptr) else Ptr(a[0].rid, 0)
        r, get = nd.p['rank'], nd.p['dim']
        t = ex.node(p.rid)
        off = 0 if p.off is None else p.off
        if isinstance(t, Cell):
            ex.oblige(le(r, 1), 'dimensions fit into the array given')
            if ex.branch(eq(r, 1)):
                ex.write(LV(p.rid), get(0))
            return r
        if not isinstance(t, Arr):
            raise Unsupported('getSimpleExtentDims')
        ex.oblige(le(add(off, r), t.n), 'dimensions fit into the array given')
        if isinstance(t.n, int) and is_conc(off) and t.n <= 4:
            cur = t.a
            for i in range(t.n - int(off)):
                o = cur.get(int(off) + i)
                if isinstance(o, Uninit):
                    if ex.branch(lt(i, r)):
                        cur = cur.store(int(off) + i, get(i))
                else:
                    cur = cur.store(int(off) + i, ite(lt(i, r), get(i), o))
            ex.setnode(p.rid, Arr(t.n, cur, t.ty))
            return r
        old = t.a

        def g(i):
            c = and_(le(off, i), lt(i, add(off, r)))
            d = ex.decide(c)
            if d is True:
                return get(sub(i, off))
            if d is False:
                return old.get(i)
            o = old.get(i)
            if isinstance(o, Uninit):
                return GuardedUninit(c, get(sub(i, off))) if not isinstance(o, GuardedUninit) else UNINIT
            return ite(c, get(sub(i, off)), o)
        ex.setnode(p.rid, Arr(t.n, BaseArr(g), t.ty))
        return r

    # ---- datasets
    @L.meth('h5set', 'close')
    def _(ex, this, nodes, n):
        nd = is_open(ex, this, 'dataset is open')
        ex.setnode(this.rid, nd.w(open=False))

    @L.meth('h5set', 'getDataType')
    def _(ex, this, nodes, n):
        nd = is_open(ex, this, 'dataset is open')
        return obj(ex, 'h5type', code=TYPE(nd.p['name']) if nd.p['new'] is None else nd.p['new'][2])

    def nel(ex, sp):
        r = sp['rank']
        if 'of' in sp:
            return PROD(sp['of'], NDIMS(sp['of']))
        if not is_conc(r):
            return None
        t = 1
        for i in range(int(r)):
            d = sp['dim'](i)
            t = mul(t, d)
        return t

    def elem_matches(ex, ty, code, what):
        if not is_conc(code) or int(code) not in MEM:
            raise Unsupported('memory type of HDF5 data')
        k, bits, sg = MEM[int(code)]
        ex.oblige(ty.k == k and (k == 'real' or ty.bits == bits and bool(ty.signed) == sg), what)

    @L.meth('h5set', 'read')
    def _(ex, this, nodes, n):
        nd = is_open(ex, this, 'dataset is open')
        nodes = real(nodes)
        v = ex.ev(nodes[0])
        w = ex.S.mem.get(v.rid) if isinstance(v, LV) and v.idx is None else None
        t = is_type(ex, ex.ev(nodes[1]))
        s = nd.p['name']
        if nd.p['new'] is not None or t is None:
            raise Unsupported('reading of HDF5 data')
        if len(nodes) > 2:
            sp = ex.node(ex.ev(nodes[2]).rid)
            if sp.kind != 'h5space' or sp.p.get('of') is None or not sp.p['of'].eq(s):
                raise Unsupported('memory space of HDF5 data')
        if isinstance(w, Lib) and w.kind == 'string':
            ex.setnode(v.rid, Lib('string', {'s': TEXT(s)}, w.ty))
            return None
        if isinstance(v, LV) and not isinstance(w, Arr):
            v = ex.read(v)
        p = v if isinstance(v, Ptr) else Ptr(v.rid, 0)
        a = ex.node(p.rid)
        if not isinstance(a, Arr) or p.off not in (None, 0):
            raise Unsupported('memory of HDF5 data')
        c = t.p['code']
        if not is_conc(c):
            k = [c_ for c_ in MEM if MEM[c_][0] == a.ty.k and (c_ == 1 or (MEM[c_][1], MEM[c_][2]) == (a.ty.bits, bool(a.ty.signed)))]
            if not k:
                raise Unsupported('memory type of HDF5 data')
            ex.oblige(eq(c, k[0]), 'memory type of HDF5 data is that of the array')
            c = k[0]
        elem_matches(ex, a.ty, c, 'memory type of HDF5 data is that of the array')
        c = int(c)
        ex.oblige(le(PROD(s, NDIMS(s)), a.n), 'data read fit into the array')
        if c != 1:
            k, bits, sg = MEM[c]
            q = z3.Int('q!')
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
            ex.assume(z3.ForAll([q], z3.And(VI[c](s, q) >= lo, VI[c](s, q) <= hi), patterns=[VI[c](s, q)]))
        ex.setnode(p.rid, Arr(a.n, BaseArr(lambda i: val(c, s, i)), a.ty))

    @L.meth('h5set', 'write')
    def _(ex, this, nodes, n):
        nd = is_open(ex, this, 'dataset is open')
        nodes = real(nodes)
        v = ex.ev(nodes[0])
        w = ex.S.mem.get(v.rid) if isinstance(v, LV) and v.idx is None else None
        t = is_type(ex, ex.ev(nodes[1]))
        if nd.p['new'] is None or t is None or len(nodes) > 2:
            raise Unsupported('writing of HDF5 data')
        if isinstance(w, Lib) and w.kind == 'string':
            log(ex, 'writetext', nd.p['name'], t.p['code'], w)
            return None
        if isinstance(v, LV) and not isinstance(w, Arr):
            v = ex.read(v)
        p = v if isinstance(v, Ptr) else Ptr(v.rid, 0)
        if p.rid in ex.S.freed:
            ex.oblige(False, 'no use after free')
        a = ex.node(p.rid)
        if isinstance(a, Lib) and a.kind == 'string':
            log(ex, 'writetext', nd.p['name'], t.p['code'], a)
            return None
        if not isinstance(a, Arr):
            raise Unsupported('memory of HDF5 data')
        elem_matches(ex, a.ty, t.p['code'], 'memory type of HDF5 data is that of the array')
        m = nel(ex, nd.p['new'][3])
        if m is None:
            m = ex.opts['h5nel']
        get, _ = snap(ex, p, m, 'data written')
        i = ex.fint('iw', 0)
        sv = ex.S
        ex.S = ex.S.copy()
        ex.S.pc.append(lt(i, m))
        ex.read(LV(p.rid, add(0 if p.off is None else p.off, i)))       # initialised
        ex.S = sv
        cl = ex.put(Arr(a.n, a.a, a.ty))
        log(ex, 'write', nd.p['name'], int(t.p['code']), (cl, 0 if p.off is None else p.off), a.ty)

    # ---- attributes
    def att(kind):
        def open_(ex, this, nodes, n):
            nd = is_open(ex, this, 'object is open')
            s = toz(sval(ex, ex.ev(real(nodes)[0])))
            if not ex.branch(HASATT(nd.p['name'], s)):
                throw('AttributeIException')
            return obj(ex, 'h5att', ds=nd.p['name'], name=s, new=None)

        def create(ex, this, nodes, n):
            nd = is_open(ex, this, 'object is open')
            nodes = real(nodes)
            s = toz(sval(ex, ex.ev(nodes[0])))
            t, sp = is_type(ex, ex.ev(nodes[1])), ex.node(ex.ev(nodes[2]).rid)
            if t is None or sp.kind != 'h5space':
                raise Unsupported('createAttribute')
            log(ex, 'createatt', nd.p['name'], s, t.p, sp.p)
            return obj(ex, 'h5att', ds=nd.p['name'], name=s, new=(t.p, sp.p))
        L.methods[(kind, 'openAttribute')] = open_
        L.methods[(kind, 'createAttribute')] = create
    att('h5set')
    att('h5group')

    @L.meth('h5att', 'getDataType')
    def _(ex, this, nodes, n):
        nd = ex.node(this.rid)
        return obj(ex, 'h5type', code=ATYPE(nd.p['ds'], nd.p['name']))

    @L.meth('h5att', 'close')
    def _(ex, this, nodes, n):
        return None

    @L.meth('h5att', 'read')
    def _(ex, this, nodes, n):
        nd = ex.node(this.rid)
        nodes = real(nodes)
        v = ex.ev(nodes[1])
        w = ex.S.mem.get(v.rid) if isinstance(v, LV) and v.idx is None else None
        t = is_type(ex, ex.ev(nodes[0]))
        if t is None or nd.p['new'] is not None:
            raise Unsupported('attribute')
        if isinstance(w, Lib) and w.kind == 'string':
            ex.setnode(v.rid, Lib('string', {'s': ATEXT(nd.p['ds'], nd.p['name'])}, w.ty))
            return None
        p = v if isinstance(v, Ptr) else ex.read(v)
        c = ex.node(p.rid)
        if not isinstance(c, Cell) or c.ty.k != 'real':
            raise Unsupported('attribute')
        # the value is delivered in the type asked for
        ex.opts.get('h5atttype', lambda *a: None)(ex, t.p['code'])
        ex.write(LV(p.rid), AREAL(nd.p['ds'], nd.p['name']))

    @L.meth('h5att', 'write')
    def _(ex, this, nodes, n):
        nd = ex.node(this.rid)
        nodes = real(nodes)
        v = ex.ev(nodes[1])
        w = ex.S.mem.get(v.rid) if isinstance(v, LV) and v.idx is None else None
        t = is_type(ex, ex.ev(nodes[0]))
        if isinstance(w, Lib) and w.kind == 'string':
            log(ex, 'writeatttext', nd.p['ds'], nd.p['name'], t.p, w)
            return None
        p = v if isinstance(v, Ptr) else ex.read(v)
        c = ex.node(p.rid)
        if not isinstance(c, Cell):
            raise Unsupported('attribute')
        elem_matches(ex, c.ty, t.p['code'], 'memory type of the attribute is that of the variable')
        log(ex, 'writeatt', nd.p['ds'], nd.p['name'], t.p, ex.read(LV(p.rid)))

    @L.meth('exception', 'getCDetailMsg', 'getDetailMsg', 'what')
    def _(ex, this, nodes, n):
        return Ptr(ex.strlit('error') if hasattr(ex, 'strlit') else None)

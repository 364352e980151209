"""Models of streams and initializer lists (assumed contracts of the standard library)."""
import z3
from terms import *
from values import *
from program import Ty
from stdlib import sval, mkstr, scat

_SS = z3.StringSort()
FILEOK, CONTENT = z3.Function('file_readable', _SS, z3.BoolSort()), z3.Function('file_content', _SS, _SS)
CONSOLE = ('cerr', 'cout', 'clog')


def install(L):
    def g(ex, name):
        key = ('g', name)
        if key not in ex.S.ghost:
            ex.S.ghost[key] = LV(ex.put(Lib('console', {'name': name}), 'static'))
        return ex.S.ghost[key]
    for nm in CONSOLE:
        L.globals[nm] = L.globals['std::' + nm] = lambda ex, nm=nm: g(ex, nm)

    def c_ifstream(ex, ty, nodes, n):
        nodes = [a for a in nodes if a['kind'] != 'CXXDefaultArgExpr']
        if len(nodes) < 1:
            return LV(ex.put(Lib('ifstream', {'name': '', 'open': False}, ty)))
        s = sval(ex, ex.ev(nodes[0]))
        return LV(ex.put(Lib('ifstream', {'name': s, 'open': FILEOK(toz(s))}, ty)))
    L.ctors['basic_ifstream'] = L.ctors['ifstream'] = c_ifstream

    def c_sstream(ex, ty, nodes, n):
        nodes = [a for a in nodes if a['kind'] != 'CXXDefaultArgExpr']
        if nodes:
            raise Unsupported('stringstream constructor')
        return LV(ex.put(Lib('sstream', {'s': ''}, ty)))
    for k in ('basic_stringstream', 'stringstream', 'basic_ostringstream', 'ostringstream'):
        L.ctors[k] = c_sstream

    @L.meth('ifstream', 'is_open')
    def _(ex, this, nodes, n):
        return ex.node(this.rid).p['open']

    @L.meth('ifstream', 'close')
    def _(ex, this, nodes, n):
        ex.setnode(this.rid, ex.node(this.rid).w(open=False))

    @L.meth('ifstream', 'rdbuf')
    def _(ex, this, nodes, n):
        nd = ex.node(this.rid)
        ex.oblige(nd.p['open'], 'file is open when it is read')
        return Ptr(ex.put(Lib('filebuf', {'s': CONTENT(toz(nd.p['name']))})))

    @L.meth('sstream', 'str')
    def _(ex, this, nodes, n):
        if nodes:
            raise Unsupported('stringstream::str(s)')
        return mkstr(ex, ex.node(this.rid).p['s'])

    old = L.ops.get('operator<<')

    def o_shl(ex, nodes, n, a=None):
        if a is None:
            a = ex.ev(nodes[0])
        nd = ex.S.mem.get(a.rid) if isinstance(a, LV) else None
        if isinstance(nd, Lib) and nd.kind == 'console':        # console output: not modelled
            if nodes[1]['kind'] != 'ImplicitCastExpr' or 'endl' not in str(nodes[1])[:4000]:
                ex.ev(nodes[1])
            return a
        if isinstance(nd, Lib) and nd.kind == 'sstream':
            v = ex.ev(nodes[1])
            if isinstance(v, Ptr) and isinstance(ex.S.mem.get(v.rid), Lib) and ex.node(v.rid).kind == 'filebuf':
                s = ex.node(v.rid).p['s']
            else:
                w = ex.S.mem.get(v.rid) if isinstance(v, LV) else None
                if not isinstance(v, Ptr) and not (isinstance(w, Lib) and w.kind == 'string'):
                    raise Unsupported('formatted output')
                s = sval(ex, v)
            ex.setnode(a.rid, nd.w(s=scat(nd.p['s'], s)))
            return a
        if old:
            return old(ex, nodes, n)
        raise Unsupported('library operator operator<<')
    L.ops['operator<<'] = o_shl

    # initializer lists of scalars: a constant array
    def d_il(ex, ty, init, name):
        raise Unsupported('initializer_list')
    L.defaults['initializer_list'] = d_il

    @L.meth('initlist', 'begin')
    def _(ex, this, nodes, n):
        return Ptr(ex.node(this.rid).p['arr'], 0)

    @L.meth('initlist', 'end')
    def _(ex, this, nodes, n):
        nd = ex.node(this.rid)
        return Ptr(nd.p['arr'], nd.p['n'])

    @L.meth('initlist', 'size')
    def _(ex, this, nodes, n):
        return ex.node(this.rid).p['n']

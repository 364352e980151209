from frame import *
from P08 import cell, PT
from P14 import truth_is, strarg_, instk
import loops
import prove
from streams import FILEOK, CONTENT
from stdlib import mkstr, sval, char_str

TITLE = 'Configuration scripts'
HARNESS = dict(src='P15.cpp', link='all')
D = 'src/Configuration/'
CS = 'ConfigurationScript'
IS, BS, SS = z3.IntSort(), z3.BoolSort(), z3.StringSort()
LEN = z3.Int('len')
CH = z3.Function('ch', IS, IS)              # the text
BOOLT = Ty('bool', 'bool')
TYPES = 'INVALID NAME VALUE EQUALS BLOCKTYPE BLOCKNAME LPAR RPAR BLOCK_START BLOCK_END END_STATEMENT EOF'.split()
T = {n: i for i, n in enumerate(TYPES)}
SYM = {'=': 'EQUALS', '(': 'LPAR', ')': 'RPAR', '{': 'BLOCK_START', '}': 'BLOCK_END', ';': 'END_STATEMENT'}

# next character outside of quotes: comments are skipped, white space is turned into one blank
NFC, NFP, NFW = z3.Function('nextchar', IS, BS, IS), z3.Function('nextpos', IS, BS, IS), z3.Function('nextws', IS, BS, BS)
EOL = z3.Function('eol', IS, IS)
UNF, UNE = z3.Function('unfold', IS, BS, BS), z3.Function('unfolde', IS, BS)
P, Q = z3.Ints('P! Q!')
W = z3.Bool('W!')


def iswhite(c):
    return z3.Or(c == 32, c == 9, c == 10)


def nf_unfold(p, w):
    def is_(c, q, v):
        return z3.And(NFC(p, w) == c, NFP(p, w) == q, NFW(p, w) == v)

    def as_(q):
        return is_(NFC(q, w), NFP(q, w), NFW(q, w))
    c = CH(p)
    return z3.And(z3.Implies(p >= LEN, is_(z3.IntVal(0), p, w)),
                  z3.Implies(z3.And(p < LEN, c == 35), as_(EOL(p + 1))),
                  z3.Implies(z3.And(p < LEN, iswhite(c), w), as_(p + 1)),
                  z3.Implies(z3.And(p < LEN, iswhite(c), z3.Not(w)), is_(z3.IntVal(32), p + 1, z3.BoolVal(True))),
                  z3.Implies(z3.And(p < LEN, c != 35, z3.Not(iswhite(c))), is_(c, p + 1, z3.BoolVal(False))))


def eol_unfold(p):
    return EOL(p) == z3.If(z3.Or(p >= LEN, CH(p) == 10), p, EOL(p + 1))


prove.DEFS.update({
    'ch': lambda e: z3.And(e >= -128, e <= 127, e != 0),
    'unfold': lambda e: z3.And(e, nf_unfold(e.arg(0), e.arg(1))),
    'unfolde': lambda e: z3.And(e, eol_unfold(e.arg(0)))})


def axioms(ex):
    """definition of the character stream (unfolded where 'unfold' is mentioned)"""
    ex.assume(z3.And(LEN >= 0, LEN < 2 ** 40))


def v_nonzero(v):
    return toz(v) != 0


# ------------------------------------------------------------------ sequences of tokens
LOG = z3.DeclareSort('Tokens')
NONE = z3.Const('no_tokens', LOG)
APP = z3.Function('append', LOG, IS, SS, LOG)           # tokens followed by one of a kind, with a text
CAT = z3.Function('followed_by', LOG, LOG, LOG)
LASTT = z3.Function('last_kind', LOG, IS)               # 0 if there is none
BLOCKTY = z3.Function('is_block_type', SS, BS)
TOK = z3.Function('word', LOG, SS, BS, LOG)             # tokens followed by a word, quoted or not
INC = z3.Function('tokens_of_file', SS, LOG)
LEX = z3.Function('lex', IS, BS, BS, BS, SS, LOG, LOG)  # reference lexer
UNL = z3.Function('unfoldl', IS, BS, BS, BS, SS, LOG, BS)


def kind(s, quoted, last):
    """kind of token a word is"""
    k = z3.If(BLOCKTY(s), T['BLOCKTYPE'], T['NAME'])
    k = z3.If(z3.Or(last == T['EQUALS'], last == T['VALUE']), T['VALUE'], z3.If(last == T['BLOCKTYPE'], T['BLOCKNAME'], k))
    for c, t in SYM.items():
        k = z3.If(z3.And(z3.Not(quoted), s == c), T[t], k)
    return k


def tok_def(e):
    l, s, q = e.arg(0), e.arg(1), e.arg(2)
    return e == z3.If(z3.And(s == z3.StringVal(''), z3.Not(q)), l, APP(l, kind(s, q, LASTT(l)), s))


def lex_unfold(e):
    p, w, ins, inc, buf, log = e.children()
    T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
    c = z3.If(ins, z3.If(p < LEN, CH(p), 0), NFC(p, w))
    p1 = z3.If(ins, z3.If(p < LEN, p + 1, p), NFP(p, w))
    w1 = z3.If(ins, w, NFW(p, w))
    E = z3.StringVal('')
    more = z3.Concat(buf, z3.StrFromCode(c))
    go = lambda ins, inc, b, l: LEX(p1, w1, ins, inc, b, l)
    is_ = lambda s: z3.Or([c == ord(x) for x in s])
    word = TOK(log, buf, F_)
    r = go(ins, inc, more, log)
    r = z3.If(is_(', '), go(ins, inc, E, word), r)
    r = z3.If(is_('=(){};'), go(ins, inc, E, TOK(word, z3.StrFromCode(c), F_)), r)
    r = z3.If(is_('>'), go(F_, F_, E, CAT(log, INC(buf))), r)
    r = z3.If(is_('<'), go(ins, T_, E, word), r)
    r = z3.If(is_('"'), go(z3.Not(ins), inc, E, TOK(log, buf, ins)), r)
    r = z3.If(z3.And(inc, c != ord('>')), go(ins, inc, more, log), r)
    r = z3.If(z3.And(ins, c != ord('"')), go(ins, inc, more, log), r)
    r = z3.If(c == 0, TOK(log, buf, F_), r)
    return z3.And(e, LEX(p, w, ins, inc, buf, log) == r, z3.Or(ins, UNF(p, w)))


prove.DEFS.update({'append': lambda e: LASTT(e) == e.arg(1), 'word': tok_def, 'unfoldl': lex_unfold})


class Tokens:
    cls = 'ConfigToken'
    empty = NONE

    def __init__(s, ex):
        s.ex, s.kind, s.text = ex, {}, {}

    def push(s, ex, nd, v):
        if v.rid not in s.kind:
            raise Unsupported('unknown token')
        return APP(nd.p['log'], toz(s.kind[v.rid]), toz(s.text[v.rid]))

    def pop(s, ex, nd):
        l = nd.p['log']
        if z3.is_app(l) and l.decl().name() == 'append':
            return l.arg(0)
        raise Unsupported('pop_back')

    def cat(s, ex, nd, src):
        return CAT(nd.p['log'], src.p['log'])

    def back(s, ex, nd):
        r = ex.put(Lib('token', {'kind': LASTT(nd.p['log'])}))
        s.kind[r] = LASTT(nd.p['log'])
        return Ptr(r)

    def new(s, ex, args):
        """new token (kind, text, previous, line, column, file)"""
        v = [ex.read(a) if isinstance(a, LV) and isinstance(ex.S.mem.get(a.rid), Cell) else a for a in args]
        r = ex.put(Lib('token', {'kind': v[0]}))
        s.kind[r], s.text[r] = v[0], sval(ex, v[1])
        s.prev = v[2]
        return Ptr(r)


# ------------------------------------------------------------------ grammar
NT = z3.Int('ntokens')
TT, TV = z3.Function('token_kind', IS, IS), z3.Function('token_text', IS, SS)
SKT = z3.Function('sought', IS, IS)
TREE, VLIST, RES = z3.DeclareSort('Tree'), z3.DeclareSort('Values'), z3.DeclareSort('Result')
TREE0, WRONG = z3.Const('empty_tree', TREE), z3.Const('syntax_error', RES)
RIGHT = z3.Function('tree', TREE, RES)
ONE, MORE = z3.Function('value', SS, VLIST), z3.Function('and_value', VLIST, SS, VLIST)
ADDSET = z3.Function('with_setting', TREE, IS, SS, VLIST, TREE)
ADDSUB = z3.Function('with_block', TREE, IS, IS, SS, SS, TREE)
SUBB, PAR, HASP = z3.Function('block', IS, IS, SS, SS, IS), z3.Function('parent', IS, IS), z3.Function('has_parent', IS, BS)
BTY = z3.Function('block_type', SS, IS)
GRAM = z3.Function('meaning', IS, IS, TREE, RES)            # meaning of the tokens from p on, in a block, given what came before
VALS = z3.Function('meaning_of_values', IS, IS, SS, VLIST, TREE, RES)
UNG, UNV = z3.Function('unfoldg', IS, IS, TREE, BS), z3.Function('unfoldv', IS, IS, SS, VLIST, TREE, BS)


def gram_unfold(e):
    p, bl, tr = e.children()
    is_ = lambda i, *t: z3.And([z3.And(p + i + j < NT, TT(p + i + j) == T[x]) for j, x in enumerate(t)])
    E = z3.StringVal('')
    sub = lambda snd: ADDSUB(tr, bl, BTY(TV(p)), TV(p + 1), snd)
    into = lambda snd: SUBB(bl, BTY(TV(p)), TV(p + 1), snd)
    r = WRONG
    r = z3.If(z3.And(is_(0, 'BLOCK_END'), HASP(bl)), GRAM(p + 1, PAR(bl), tr), r)
    r = z3.If(is_(0, 'BLOCKTYPE', 'BLOCKNAME', 'LPAR', 'NAME', 'RPAR', 'BLOCK_START'), GRAM(p + 6, into(TV(p + 3)), sub(TV(p + 3))), r)
    r = z3.If(is_(0, 'BLOCKTYPE', 'BLOCKNAME', 'BLOCK_START'), GRAM(p + 3, into(E), sub(E)), r)
    r = z3.If(is_(0, 'NAME', 'EQUALS', 'VALUE'), VALS(p + 2, bl, TV(p), ONE(TV(p + 2)), tr), r)
    r = z3.If(p >= NT, z3.If(bl == 0, RIGHT(tr), WRONG), r)
    return z3.And(e, GRAM(p, bl, tr) == r, UNV(p + 2, bl, TV(p), ONE(TV(p + 2)), tr))


def vals_unfold(e):
    """p: the value read last"""
    p, bl, nm, v, tr = e.children()
    r = z3.If(z3.And(p + 1 < NT, TT(p + 1) == T['VALUE']), VALS(p + 1, bl, nm, MORE(v, TV(p + 1)), tr),
              z3.If(z3.And(p + 1 < NT, TT(p + 1) == T['END_STATEMENT']), GRAM(p + 2, bl, ADDSET(tr, bl, nm, v)), WRONG))
    return z3.And(e, VALS(p, bl, nm, v, tr) == r)


prove.DEFS.update({'unfoldg': gram_unfold, 'unfoldv': vals_unfold, 'tree': lambda e: e != WRONG, 'sought': lambda e: z3.And(e >= 0, e < len(TYPES)),
                   'token_kind': lambda e: z3.And(e >= 0, e < len(TYPES), z3.Implies(z3.And(e.arg(0) >= 0, e.arg(0) < NT), e != T['EOF']))})


def load(b):
    b.load([D + 'Script/Lexer.cpp', D + 'Script/Interpreter.cpp', D + 'Script/ConfigurationScript.cpp', D + 'Script/ConfigToken.cpp', D + 'Configuration.cpp', D + 'ConfigBlock.cpp', D + 'Script/SettingScript.cpp'])


def units(b):
    out = []

    def meth(cls, name, np_=None):
        r = [d for d in b.prog.find_fn(cls + '::' + name) if b.prog.body(d) and (np_ is None or len(params(d)) == np_)]
        if not r:
            raise Unsupported('no %s::%s' % (cls, name))
        return r[0]

    def script(ex):
        o = LV(ex.alloc_rec(CS, 'sym', name='conf'))
        f = ex.fld(o, 'cnfbuffer')
        ex.setnode(f.rid, Lib('string', {'s': z3.Const('text', SS), 'chars': lambda k: CH(toz(k)), 'len': LEN}, ex.node(f.rid).ty))
        put(ex, o, 'cnfbufferlength', LEN)
        axioms(ex)
        return o

    def put(ex, o, f, v):
        c = ex.fld(o, f)
        ex.setnode(c.rid, Cell(v, ex.node(c.rid).ty))

    POSITION = ('linecounter', 'charpos')       # only used in error messages

    def u_nextc(ex):
        o = script(ex)
        p0 = ex.fint('p', 0)
        ex.assume(le(p0, LEN))
        put(ex, o, 'cnfbufferpos', p0)
        ins = ex.branch(ex.fbool('instring'))
        put(ex, o, 'instring', ins)
        w0 = toz(truth(ex.getf(o, 'prevws')))
        pc, wc = ex.fld(o, 'cnfbufferpos').rid, ex.fld(o, 'prevws').rid
        P0 = toz(p0)
        ex.assume(UNF(P0, w0))

        def g(ex, info):
            def st(S):
                p, w = toz(loops.getc(S, (pc, 'v'))), toz(truth(loops.getc(S, (wc, 'v'))))
                return z3.And(p >= 0, p <= LEN, UNF(p, w), NFC(p, w) == NFC(P0, w0), NFP(p, w) == NFP(P0, w0), NFW(p, w) == NFW(P0, w0))
            b0 = toz(loops.getc(info.base, (pc, 'v')))

            def inner(S):
                p = toz(loops.getc(S, (pc, 'v')))
                return z3.And(p >= 0, p <= LEN, UNE(p), EOL(p) == EOL(b0))

            def nz(key):
                return lambda S: toz(loops.getc(S, key)) != 0
            return [st, inner] + [nz(k) for k in info.left if k[1] == 'v' and k[0] not in (pc, wc) and ex.node(k[0]).ty.name in ('char', 'i8')]
        ex.loop_inv = [g]
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CS, 'nextc', 0), o, [])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        p1, w1 = toz(ex.getf(o, 'cnfbufferpos')), toz(truth(ex.getf(o, 'prevws')))
        if ins:
            ex.oblige(eq(v, z3.If(P0 < LEN, CH(P0), 0)), 'every character of quoted text is read as it is', 'post')
            ex.oblige(p1 == z3.If(P0 < LEN, P0 + 1, P0), 'one character of quoted text is consumed', 'post')
        else:
            ex.assume(z3.And(UNF(p1, w1), UNE(p1)))
            ex.oblige(eq(v, NFC(P0, w0)), 'next character, comments and superfluous white space skipped', 'post')
            ex.oblige(implies(v_nonzero(v), z3.And(p1 == NFP(P0, w0), w1 == NFW(P0, w0))), 'exactly the characters up to the next one are consumed', 'post')
            ex.oblige(implies(not_(v_nonzero(v)), p1 >= LEN), 'the end is reported only at the end', 'post')
        frame(ex, S0, ex.S, tuple(ex.fld(o, f).rid for f in ('cnfbufferpos', 'prevws') + POSITION))

    out.append(('next character', u_nextc))

    # -------------------------------------------------------- words and tokens
    def gettype(tk):
        return lambda ex, f, this, args: tk.kind[this.rid]

    def u_gettkn(ex, hasprev):
        o = script(ex)
        tk = Tokens(ex)
        ex.newhook = {'ConfigToken': tk.new}
        ex.contracts = {meth('ConfigToken', 'GetType')['_m']: gettype(tk), meth('Configuration', 'IsBlockType')['_m']: lambda ex, f, this, args: BLOCKTY(toz(sval(ex, args[0])))}
        w, q = z3.Const('w', SS), z3.Bool('quoted')
        last = ex.fint('last', 0)
        ex.assume(lt(last, len(TYPES)))
        prev = Ptr(ex.put(Lib('token', {'kind': last}))) if hasprev else NULL
        tk.kind[prev.rid] = last
        S0 = ex.S.copy()
        f = meth(CS, 'gettkn', 3)
        k, v = run_fn(ex, f, o, [mkstr(ex, w), cell(ex, prev, PT), cell(ex, q, BOOLT)])
        ex.oblige(k == 'ret' and isinstance(v, Ptr) and v.rid in tk.kind, 'a token is made', 'post')
        ex.oblige(eq(tk.kind[v.rid], kind(w, q, toz(last) if hasprev else z3.IntVal(0))), 'kind of a token', 'post')
        ex.oblige(seq_(tk.text[v.rid], w), 'text of a token', 'post')
        frame(ex, S0, ex.S)

    def seq_(a, b):
        return toz(a) == toz(b)
    out.append(('kind of the first token', lambda ex: u_gettkn(ex, False)))
    out.append(('kind of a token', lambda ex: u_gettkn(ex, True)))

    def u_push(ex):
        o = script(ex)
        tk = ex.opts['veclog'] = Tokens(ex)
        w, q, l0 = z3.Const('w', SS), z3.Bool('quoted'), z3.Const('l0', LOG)
        n0 = ex.fint('n', 0)
        ex.assume(z3.And(LASTT(NONE) == 0, (toz(n0) == 0) == (l0 == NONE)))
        vec = LV(ex.put(Lib('vector', {'size': n0, 'log': l0, 'ety': PT})))

        def gettkn(ex, f, this, args):
            s, q_ = toz(sval(ex, args[0])), truth(ex.read(args[2]) if isinstance(args[2], LV) else args[2])
            p = ex.read(args[1]) if isinstance(args[1], LV) else args[1]
            r = ex.put(Lib('token', {'kind': 0}))
            tk.kind[r], tk.text[r] = kind(s, toz(q_), tk.kind[p.rid] if p.rid is not None else z3.IntVal(0)), s
            return Ptr(r)
        ex.contracts = {meth(CS, 'gettkn', 3)['_m']: gettkn, meth('ConfigToken', 'GetType')['_m']: gettype(tk)}
        S0 = ex.S.copy()
        buf = mkstr(ex, w)
        k, v = run_fn(ex, meth(CS, 'pushbuffer', 3), o, [buf, vec, cell(ex, q, BOOLT)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        nd = ex.node(vec.rid)
        ex.oblige(nd.p['log'] == TOK(l0, w, q), 'a word, unless it is empty and was not quoted, is appended to the tokens', 'post')
        ex.oblige(eq(nd.p['size'], z3.If(z3.And(w == z3.StringVal(''), z3.Not(q)), toz(n0), toz(n0) + 1)), 'one token per word', 'post')
        ex.oblige(toz(sval(ex, buf)) == w, 'word is not changed', 'post')
        frame(ex, S0, ex.S, (vec.rid,))
    out.append(('words become tokens', u_push))

    # -------------------------------------------------------- lexer
    def u_lemma(ex):
        '''white space before a word does not matter (induction on the remaining text)'''
        axioms(ex)
        p, l = z3.Int('p'), z3.Const('l', LOG)
        T_, F_, E = z3.BoolVal(True), z3.BoolVal(False), z3.StringVal('')
        q = EOL(p + 1)
        ex.assume(z3.And(p >= 0, p <= LEN))
        L_ = lambda p, w: LEX(p, w, F_, F_, E, l)
        ex.assume(z3.And(UNL(p, T_, F_, F_, E, l), UNL(p, F_, F_, F_, E, l), UNL(p + 1, T_, F_, F_, E, l)))
        # for all later positions (q > p: lemma below)
        ex.assume(z3.Implies(p < LEN, z3.And(L_(q, T_) == L_(q, F_), UNL(q, T_, F_, F_, E, l), UNL(q, F_, F_, F_, E, l), q > p)))
        ex.oblige(L_(p, T_) == L_(p, F_), 'white space before a word does not matter', 'post')
    out.append(('lemma: white space', u_lemma))

    def u_lemma2(ex):
        axioms(ex)
        p = z3.Int('p')
        ex.assume(z3.And(p >= 0, UNE(p), z3.Implies(p < LEN, EOL(p + 1) >= p + 1)))
        ex.oblige(EOL(p) >= p, 'the end of a line lies ahead', 'post')
    out.append(('lemma: end of line', u_lemma2))

    def u_lex(ex):
        o = LV(ex.alloc_rec(CS, 'sym', name='conf'))
        ex.assume(z3.And(LEN >= 0, LEN < 2 ** 40))
        tk = ex.opts['veclog'] = Tokens(ex)
        ex.newhook = {'ConfigToken': tk.new}
        src = LV(ex.put(Lib('string', {'s': z3.Const('text', SS), 'chars': lambda k: CH(toz(k)), 'len': LEN})))
        T_, F_, E = z3.BoolVal(True), z3.BoolVal(False), z3.StringVal('')
        S0 = ex.S.copy()
        rid = {f: ex.fld(o, f).rid for f in ('cnfbufferpos', 'cnfbufferlength', 'prevws', 'instring', 'ininclude', 'linecounter', 'charpos', 'cnfbuffer', 'file')}
        val = lambda S, f: toz(truth(loops.getc(S, (rid[f], 'v')))) if f in ('prevws', 'instring', 'ininclude') else toz(loops.getc(S, (rid[f], 'v')))
        LEX0 = LEX(z3.IntVal(0), F_, F_, F_, E, NONE)
        ex.assume(UNL(z3.IntVal(0), F_, F_, F_, E, NONE))

        def hav(ex, f):
            put(ex, o, f, ex.fint(f, 0))

        def nextc(ex, f, this, args):
            p, w, ins = val(ex.S, 'cnfbufferpos'), val(ex.S, 'prevws'), val(ex.S, 'instring')
            ex.oblige(and_(le(0, p), le(p, LEN)), 'position within the text', 'pre')
            ex.oblige(eq(val(ex.S, 'cnfbufferlength'), LEN), 'the whole text is read', 'pre')
            c = z3.If(ins, z3.If(p < LEN, CH(p), 0), NFC(p, w))
            p1, w1 = ex.fint('p1', 0), ex.fbool('w1')
            ex.assume(z3.And(UNF(p, w), p1 <= LEN, c >= -128, c <= 127, z3.Implies(ins, w1 == w)))
            ex.assume(z3.Implies(c != 0, z3.And(p1 == z3.If(ins, p + 1, NFP(p, w)), w1 == z3.If(ins, w, NFW(p, w)))))
            put(ex, o, 'cnfbufferpos', p1)
            put(ex, o, 'prevws', w1)
            hav(ex, 'linecounter')
            hav(ex, 'charpos')
            r = ex.fint('c')
            ex.assume(r == c)
            return r

        def push(ex, f, this, args):
            s, q_ = toz(sval(ex, args[0])), toz(truth(ex.read(args[2]) if isinstance(args[2], LV) else args[2]))
            nd = ex.node(args[1].rid)
            l = TOK(nd.p['log'], s, q_)
            ex.setnode(args[1].rid, nd.w(log=l, size=z3.If(z3.And(s == E, z3.Not(q_)), toz(nd.p['size']), toz(nd.p['size']) + 1)))

        def include(ex, f, this, args):
            ex.oblige(z3.Not(val(ex.S, 'instring')), 'files are not included in quoted text', 'pre')
            put(ex, o, 'instring', F_)
            put(ex, o, 'ininclude', F_)
            put(ex, o, 'prevws', ex.fbool('w2'))
            n = ex.fint('n', 0)
            l = INC(toz(sval(ex, args[0])))
            # lemma: white space
            p = val(ex.S, 'cnfbufferpos')
            for ll in [CAT(x.p['log'], l) for x in ex.S.mem.values() if isinstance(x, Lib) and 'log' in x.p]:
                ex.assume(LEX(p, T_, F_, F_, E, ll) == LEX(p, F_, F_, F_, E, ll))
            return LV(ex.put(Lib('vector', {'size': n, 'log': l, 'ety': PT})))
        ex.contracts = {meth('ConfigToken', 'GetType')['_m']: gettype(tk), meth(CS, 'nextc', 0)['_m']: nextc, meth(CS, 'pushbuffer', 3)['_m']: push, meth(CS, 'include_file', 1)['_m']: include}

        def g(ex, info):
            keys = {}
            for k in info.left:
                if k[1] == 'log':
                    keys['log'] = k
                if k[1] == 's' and k[0] not in rid.values():
                    keys['buf'] = k

            def inv(S):
                log = toz(loops.getc(S, keys['log'])) if 'log' in keys else NONE
                buf = toz(loops.getc(S, keys['buf'])) if 'buf' in keys else E
                a = [val(S, f) for f in ('cnfbufferpos', 'prevws', 'instring', 'ininclude')] + [buf, log]
                return z3.And(a[0] >= 0, a[0] <= LEN, z3.Not(z3.And(a[2], a[3])), UNL(*a), LEX(*a) == LEX0)
            return [inv]
        ex.loop_inv = [g]
        k, v = run_fn(ex, meth(CS, 'Lex', 1), o, [src])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        nd = ex.node(v.rid)
        ex.oblige(nd.p['log'] == APP(LEX0, T['EOF'], z3.StringVal('<EOF>')), 'tokens of the text, followed by one for its end', 'post')
        frame(ex, S0, ex.S, tuple(rid.values()))
    out.append(('tokens of a text', u_lex))

    # -------------------------------------------------------- token stream
    POOL = {}

    def stream(ex, at=None):
        """the script with the token stream positioned at token p; tokens are the elements of a pool"""
        o = LV(ex.alloc_rec(CS, 'sym', name='conf'))
        ex.assume(z3.And(NT >= 0, NT < 2 ** 40, TT(NT) == T['EOF']))
        pool = ex.put(Arr(NT + 1, BaseArr(lambda k: 0), Ty('int', 'int', bits=32, signed=True)))
        vec = LV(ex.put(Lib('vector', {'size': NT + 1, 'a': BaseArr(lambda k: Ptr(pool, k)), 'ety': PT})))
        ix = lambda this: toz(this.idx if this.idx is not None else 0)
        strv = lambda ex, s: mkstr(ex, s)
        ex.contracts = {meth('ConfigToken', 'GetType')['_m']: lambda ex, f, this, args: TT(ix(this)),
                        meth('ConfigToken', 'GetValue')['_m']: lambda ex, f, this, args: strv(ex, TV(ix(this))),
                        meth('ConfigToken', 'GetLine')['_m']: lambda ex, f, this, args: ex.fint('line', 0),
                        meth('ConfigToken', 'GetCharpos')['_m']: lambda ex, f, this, args: ex.fint('col', 0),
                        meth('ConfigToken', 'GetFilename')['_m']: lambda ex, f, this, args: strv(ex, ex.fresh('file', SS))}
        put(ex, o, 'tknstream', Ptr(vec.rid, at if at is not None else ex.fint('old', 0)))
        return o, vec, pool

    def position(ex, o, vec):
        v = ex.getf(o, 'tknstream')
        if not (isinstance(v, Ptr) and v.rid == vec.rid):
            ex.oblige(False, 'position in the token stream', 'post')
        return toz(v.off if v.off is not None else 0)

    def u_stream(ex):
        p = ex.fint('p', 0)
        o, vec, pool = stream(ex, p)
        ex.assume(le(p, NT))
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CS, 'token', 0), o, [])
        ex.oblige(k == 'ret' and isinstance(v, Ptr) and v.rid == pool, 'current token', 'post')
        ex.oblige(eq(v.off, p), 'current token', 'post')
        k, v = run_fn(ex, meth(CS, 'tokent', 0), o, [])
        ex.oblige(eq(v, TT(toz(p))), 'kind of the current token', 'post')
        k, v = run_fn(ex, meth(CS, 'tokent_n', 0), o, [])
        ex.oblige(eq(v, z3.If(toz(p) < NT, TT(toz(p) + 1), T['EOF'])), 'kind of the next token', 'post')
        frame(ex, S0, ex.S)
    out.append(('tokens ahead', u_stream))

    def u_advance(ex):
        p = ex.fint('p', 0)
        o, vec, pool = stream(ex, p)
        ex.assume(le(p, NT))
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CS, 'advance', 0), o, [])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        ex.oblige(eq(position(ex, o, vec), z3.If(toz(p) < NT, toz(p) + 1, NT)), 'moves to the next token', 'post')
        truth_is(ex, v, toz(p) + 1 < NT, 'reports whether there are more tokens')
        frame(ex, S0, ex.S, (ex.fld(o, 'tknstream').rid,))
    out.append(('next token', u_advance))

    def c_advance(o, vec):
        def f(ex, fn, this, args):
            p = position(ex, o, vec)
            ex.oblige(and_(le(0, p), le(p, NT)), 'position in the token stream', 'pre')
            put(ex, o, 'tknstream', Ptr(vec.rid, z3.If(p < NT, p + 1, NT)))
            return p + 1 < NT
        return f

    def c_ttos(ex, fn, this, args):
        r = ex.put(Arr(64, BaseArr(lambda k: 0), Ty('int', 'char', bits=8, signed=True)))
        ex.S.ghost[('str', r)] = ex.fresh('kindname', SS)
        return Ptr(r, 0)

    def u_expect(ex):
        p = ex.fint('p', 0)
        o, vec, pool = stream(ex, p)
        ex.assume(le(p, NT))
        ex.contracts[meth(CS, 'advance', 0)['_m']] = c_advance(o, vec)
        ex.contracts[meth(CS, 'ttos', 1)['_m']] = c_ttos
        t = ex.fint('t', 0)
        ex.assume(and_(lt(t, len(TYPES)), not_(eq(t, T['EOF']))))
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CS, 'expect', 1), o, [cell(ex, t, Ty('int', 'int', bits=32, signed=False))])
        ok = z3.And(toz(p) + 1 < NT, TT(toz(p) + 1) == toz(t))
        ex.oblige(ok if k == 'ret' else z3.Not(ok), 'an error is raised iff the next token is of another kind', 'post')
        ex.oblige(eq(position(ex, o, vec), z3.If(toz(p) < NT, toz(p) + 1, NT)), 'moves to the next token', 'post')
        frame(ex, S0, ex.S, (ex.fld(o, 'tknstream').rid,))
    out.append(('expected token', u_expect))

    def u_skip(ex):
        p = ex.fint('p', 0)
        o, vec, pool = stream(ex, p)
        ex.assume(le(p, NT))
        ex.contracts[meth(CS, 'advance', 0)['_m']] = c_advance(o, vec)
        n = 3
        arr = ex.put(Arr(n, BaseArr(lambda k: SKT(toz(k))), Ty('int', 'int', bits=32, signed=False)))
        il = LV(ex.put(Lib('initlist', {'arr': arr, 'n': n})))
        pr = ex.fld(o, 'tknstream').rid

        def g(ex, info):
            def inv(S):
                v = loops.getc(S, (pr, 'v'))
                q = toz(v.off)
                return z3.And(q >= toz(p), q < NT)
            return [inv]
        ex.loop_inv = [g]
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CS, 'advanceTo', 1), o, [il])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        q = position(ex, o, vec)
        ex.oblige(and_(le(p, q), le(q, NT)), 'position in the token stream', 'post')
        if ex.branch(truth(v)):
            ex.oblige(z3.And(q < NT, z3.Or([TT(q + 1) == SKT(z3.IntVal(i)) for i in range(n)])), 'stops before one of the tokens sought', 'post')
        else:
            ex.oblige(q == NT, 'otherwise stops at the end', 'post')
        frame(ex, S0, ex.S, (pr,))
    out.append(('recovery from errors', u_skip))

    # -------------------------------------------------------- interpreter
    def u_interpret(ex):
        o, vec, pool = stream(ex)
        put(ex, o, 'errorflag', False)
        tree = ex.put(Cell(TREE0, None))
        blocks = ex.put(Arr(2 ** 40, BaseArr(lambda k: 0), Ty('int', 'int', bits=32, signed=True)))
        ex.opts['ptrpool'] = blocks
        ROOT = z3.IntVal(0)
        ex.assume(z3.And(z3.Not(HASP(ROOT)), UNG(z3.IntVal(0), ROOT, TREE0)))
        G0 = GRAM(z3.IntVal(0), ROOT, TREE0)
        c = ex.contracts
        c[meth(CS, 'advance', 0)['_m']] = c_advance(o, vec)
        c[meth(CS, 'ttos', 1)['_m']] = c_ttos
        tok = lambda d: (lambda ex, fn, this, args: (lambda p: TT(p) if d == 0 else z3.If(p < NT, TT(p + 1), T['EOF']))(position(ex, o, vec)))
        c[meth(CS, 'tokent', 0)['_m']] = tok(0)
        c[meth(CS, 'tokent_n', 0)['_m']] = tok(1)
        c[meth(CS, 'token', 0)['_m']] = lambda ex, fn, this, args: Ptr(pool, position(ex, o, vec))

        def expect(ex, fn, this, args):
            p, t = position(ex, o, vec), toz(ex.read(args[0]))
            ex.oblige(and_(le(0, p), le(p, NT)), 'position in the token stream', 'pre')
            put(ex, o, 'tknstream', Ptr(vec.rid, z3.If(p < NT, p + 1, NT)))
            if not ex.branch(z3.And(p + 1 < NT, TT(p + 1) == t)):
                raise CxxThrow('ConfigurationException', None)
        c[meth(CS, 'expect', 1)['_m']] = expect

        def skip(ex, fn, this, args):
            p, q = position(ex, o, vec), ex.fint('skipped', 0)
            ex.assume(and_(le(p, q), le(q, NT)))
            put(ex, o, 'tknstream', Ptr(vec.rid, q))
            return q < NT
        c[meth(CS, 'advanceTo', 1)['_m']] = skip
        for d in b.prog.find_fn('SOFTLibException::whats'):
            c[d['_m']] = lambda ex, fn, this, args: mkstr(ex, ex.fresh('message', SS))
        bt = [d for d in b.prog.find_fn('Configuration::StringToBlockType')][0]
        c[bt['_m']] = lambda ex, fn, this, args: BTY(toz(sval(ex, args[0])))

        def newblock(ex, args):
            ex.oblige('root' not in ex.S.ghost, 'one root block is made', 'post')
            ex.S.ghost['root'] = True
            return Ptr(blocks, 0)

        def newset(ex, args):
            return Ptr(ex.put(Lib('setting', {'name': sval(ex, args[0]), 'vals': ONE(toz(sval(ex, args[1])))})))

        def append(ex, fn, this, args):
            nd = ex.node(this.rid)
            ex.setnode(this.rid, nd.w(vals=MORE(nd.p['vals'], toz(sval(ex, args[0])))))
            return Ptr(this.rid)
        blk = lambda this: toz(this.idx if this.idx is not None else 0)

        def isblock(ex, this):
            if this.rid != blocks:
                ex.oblige(False, 'settings and blocks are added to the current block', 'post')

        def addset(ex, fn, this, args):
            isblock(ex, this)
            s = ex.node(ex.read(args[0]).rid)
            ex.setnode(tree, Cell(ADDSET(ex.node(tree).v, blk(this), toz(s.p['name']), s.p['vals']), None))
            return NULL

        def addsub(ex, fn, this, args):
            isblock(ex, this)
            a = [blk(this), toz(ex.read(args[0])), toz(sval(ex, args[1])), toz(sval(ex, args[2]))]
            ex.setnode(tree, Cell(ADDSUB(ex.node(tree).v, *a), None))
            return Ptr(blocks, SUBB(*a))
        c[meth('ConfigBlock', 'AddSetting', 1)['_m']] = addset
        c[meth('ConfigBlock', 'AddSubBlock', 3)['_m']] = addsub
        c[meth('ConfigBlock', 'HasParent', 0)['_m']] = lambda ex, fn, this, args: HASP(blk(this))
        c[meth('ConfigBlock', 'GetParent', 0)['_m']] = lambda ex, fn, this, args: Ptr(blocks, PAR(blk(this)))
        c[meth('SettingScript', 'AppendValue', 1)['_m']] = append
        c[meth('Configuration', 'SetErrorFlag')['_m']] = lambda ex, fn, this, args: put(ex, o, 'errorflag', True)
        ex.newhook = {'ConfigBlock': newblock, 'SettingScript': newset}
        pr, er = ex.fld(o, 'tknstream').rid, ex.fld(o, 'errorflag').rid

        def g(ex, info):
            st = {}
            for kk in info.left:
                v = loops.getc(info.base, kk)
                if kk[1] == 'vals':
                    st['vals'] = kk
                if isinstance(v, Ptr) and v.rid == blocks:
                    st['blk'] = kk
            boff = lambda q: toz(q.off if q.off is not None else 0)
            cur = [x for x in info.base.mem.values() if isinstance(x, Cell) and isinstance(x.v, Ptr) and x.v.rid == blocks]
            cur = cur[-1] if cur else Cell(Ptr(blocks, 0), None)
            P_ = lambda S: toz(loops.getc(S, (pr, 'v')).off)
            TR = lambda S: loops.getc(S, (tree, 'v'))
            ER = lambda S: toz(truth(loops.getc(S, (er, 'v'))))
            out = []
            if 'vals' in st:
                # values after the first one
                p0, v0, t0 = P_(info.base), loops.getc(info.base, st['vals']), TR(info.base)
                fr = [x for x in info.base.mem.values() if isinstance(x, Cell) and isinstance(x.v, Ptr) and x.v.rid == blocks]
                nm = toz(info.base.mem[st['vals'][0]].p['name'])

                def vals(S):
                    p, v = P_(S), loops.getc(S, st['vals'])
                    cs = [p >= 0, p < NT]
                    for x in fr:
                        bl = toz(x.v.off if x.v.off is not None else 0)
                        cs += [UNV(p, bl, nm, v, t0), VALS(p, bl, nm, v, t0) == VALS(p0, bl, nm, v0, t0)]
                    return z3.And(cs)
                return [vals]

            def inv(S):
                p, bl, tr = P_(S), (boff(loops.getc(S, st['blk'])) if 'blk' in st else boff(cur.v)), TR(S)
                return z3.And(p >= 0, p <= NT, UNG(p + 1, bl, tr),
                              z3.Or(z3.And(z3.Not(ER(S)), GRAM(p + 1, bl, tr) == G0), z3.And(ER(S), G0 == WRONG)))
            return [inv]
        ex.loop_inv = [g]
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CS, 'Interpret', 1), o, [vec])
        if k == 'throw':
            ex.oblige(G0 == WRONG, 'no error is raised for a correct script', 'post')
            return
        er1 = toz(truth(ex.getf(o, 'errorflag')))
        ex.oblige(isinstance(v, Ptr) and v.rid == blocks, 'root block is returned', 'post')
        ex.oblige(eq(v.off if v.off is not None else 0, 0), 'root block is returned', 'post')
        tr = ex.node(tree).v
        ex.oblige(er1 == (G0 == WRONG), 'syntax errors, and only those, are reported', 'post')
        ex.oblige(z3.Implies(z3.Not(er1), G0 == RIGHT(tr)), 'the tree is the one the script describes', 'post')
    out.append(('tree of a script', u_interpret))

    # -------------------------------------------------------- files
    TOKS = z3.Function('tokens_of_text', SS, LOG)

    def u_include(ex):
        o = LV(ex.alloc_rec(CS, 'sym', name='conf'))
        tk = ex.opts['veclog'] = Tokens(ex)
        nm = z3.Const('name', SS)
        keep = ('cnfbufferpos', 'cnfbufferlength', 'linecounter', 'charpos')
        old = {f: ex.getf(o, f) for f in keep}
        olds = {f: toz(sval(ex, ex.fld(o, f))) for f in ('cnfbuffer', 'file')}

        def lex(ex, f, this, args):
            s = toz(sval(ex, args[0]))
            ex.S.ghost['lexed'] = s
            ex.oblige(toz(sval(ex, ex.fld(o, 'file'))) == nm, 'errors in an included file name that file', 'post')
            for f in keep:
                put(ex, o, f, ex.fint(f, 0))
            for f in ('prevws', 'instring', 'ininclude'):
                put(ex, o, f, ex.fbool(f))
            c = ex.fld(o, 'cnfbuffer')
            ex.setnode(c.rid, Lib('string', {'s': s}, ex.node(c.rid).ty))
            n = ex.fint('n', 0)
            return LV(ex.put(Lib('vector', {'size': add(n, 1), 'log': APP(TOKS(s), T['EOF'], z3.StringVal('<EOF>')), 'ety': PT})))
        ex.contracts = {meth(CS, 'Lex', 1)['_m']: lex}
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CS, 'include_file', 1), o, [mkstr(ex, nm)])
        if k == 'throw':
            ex.oblige(z3.Not(FILEOK(nm)), 'an error is raised only if the file cannot be read', 'post')
            frame(ex, S0, ex.S)
            return
        ex.oblige(FILEOK(nm), 'an error is raised if the file cannot be read', 'post')
        ex.oblige(ex.node(v.rid).p['log'] == TOKS(CONTENT(nm)), 'tokens of the included file', 'post')
        for f in keep:
            ex.oblige(eq(ex.getf(o, f), old[f]), 'reading continues where it was: ' + f, 'post')
        for f in olds:
            ex.oblige(toz(sval(ex, ex.fld(o, f))) == olds[f], 'reading continues where it was: ' + f, 'post')
        frame(ex, S0, ex.S, tuple(ex.fld(o, f).rid for f in keep + tuple(olds) + ('prevws', 'instring', 'ininclude')))
    out.append(('included file', u_include))

    def u_fromfile(ex):
        o = LV(ex.alloc_rec(CS, 'sym', name='conf'))
        nm = z3.Const('name', SS)
        f0 = toz(sval(ex, ex.fld(o, 'filename')))

        def fromstring(ex, f, this, args):
            ex.S.ghost['read'] = (toz(sval(ex, args[0])), toz(sval(ex, args[1])))
            return NULL
        ex.contracts = {meth(CS, 'FromString', 2)['_m']: fromstring}
        S0 = ex.S.copy()
        k, v = run_fn(ex, meth(CS, 'FromFile', 1), o, [mkstr(ex, nm)])
        ok = z3.And(FILEOK(nm), z3.Length(f0) == 0)
        if k == 'throw':
            ex.oblige(z3.Not(ok), 'an error is raised only if the file cannot be read, or one was read before', 'post')
            frame(ex, S0, ex.S)
            return
        ex.oblige(ok, 'an error is raised if the file cannot be read, or one was read before', 'post')
        r = ex.S.ghost.get('read')
        ex.oblige(r is not None, 'the file is read', 'post')
        ex.oblige(z3.And(r[0] == CONTENT(nm), r[1] == nm), 'the contents of the file are read', 'post')
        frame(ex, S0, ex.S, (ex.fld(o, 'filename').rid,))
    out.append(('script in a file', u_fromfile))

    def u_fromstring(ex):
        o, vec, pool = stream(ex)
        txt, nm = z3.Const('config', SS), z3.Const('name', SS)
        done = ex.put(Arr(NT + 1, BaseArr(lambda k: 0), Ty('int', 'int', bits=32, signed=True)))
        root = Ptr(ex.put(Lib('block', {})))

        def lex(ex, f, this, args):
            ex.oblige(toz(sval(ex, args[0])) == txt, 'the text given is read', 'post')
            ex.oblige(toz(sval(ex, ex.fld(o, 'file'))) == nm, 'errors name the file given', 'post')
            return vec

        def interpret(ex, f, this, args):
            ex.oblige(args[0].rid == vec.rid or ex.node(args[0].rid) is ex.node(vec.rid), 'tokens of the text are interpreted', 'post')
            return root

        def delete(ex, p, arr):
            if p.rid != pool:
                return False
            ex.oblige(not arr, 'delete matches the allocation (new / new[])')
            ex.oblige(and_(le(0, p.off), le(p.off, NT), eq(ex.read(LV(done, p.off)), 0)), 'tokens are deleted once')
            ex.write(LV(done, p.off), 1)
            return True
        ex.opts['delhook'] = delete
        ex.contracts[meth(CS, 'Lex', 1)['_m']] = lex
        ex.contracts[meth(CS, 'Interpret', 1)['_m']] = interpret
        k, v = run_fn(ex, meth(CS, 'FromString', 2), o, [mkstr(ex, txt), mkstr(ex, nm)])
        ex.oblige(k == 'ret', 'terminates normally', 'post')
        r = ex.getf(o, 'root')
        ex.oblige(isinstance(v, Ptr) and v.rid == root.rid and isinstance(r, Ptr) and r.rid == root.rid, 'the tree is kept and returned', 'post')
        j = ex.fint('j', 0)
        ex.assume(le(j, NT))
        ex.oblige(eq(ex.read(LV(done, j)), 1), 'tokens are deleted', 'post')
    out.append(('script in a text', u_fromstring))
    return out

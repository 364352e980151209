"""Extraction of the clang AST of the real sources (re-done on every run).

`load_tu` runs clang++ on one translation unit (a file of /repo or a small
instantiation unit of /verif that includes the real headers), keeps only the
top-level declarations that lie under the given roots and parses these.
Nothing of the kept declarations is dropped or rewritten.
"""
import json, os, re, subprocess, mmap, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')

_top = re.compile(rb'^    \{$', re.M)
_file = re.compile(rb'"file": "([^"]*)"')
_end = re.compile(rb'^  \]\n', re.M)


_traits = re.compile(rb'"referencedDecl": \{\s*"id": "(0x[0-9a-f]+)",\s*"kind": "VarDecl",\s*"name": "value",\s*"type": \{\s*"qualType": "const bool"')
_limits = re.compile(rb'"referencedDecl": \{\s*"id": "(0x[0-9a-f]+)",\s*"kind": "VarDecl",\s*"name": "(?:max_digits10|digits10|digits)"')
_bool = re.compile(rb'"kind": "CXXBoolLiteralExpr",.*?"value": (true|false)', re.S)


def _ceval(x):
    k = x['kind']
    if k == 'IntegerLiteral':
        return int(x['value'])
    if k in ('ParenExpr', 'ImplicitCastExpr', 'ConstantExpr', 'CStyleCastExpr'):
        return _ceval(x['inner'][0])
    if k == 'BinaryOperator' and x['opcode'] in '+-*/':
        a, b = _ceval(x['inner'][0]), _ceval(x['inner'][1])
        return {'+': a + b, '-': a - b, '*': a * b, '/': a // b if b else 0}[x['opcode']]
    raise ValueError(k)


def _mark(d, consts):
    if isinstance(d, dict):
        r = d.get('referencedDecl')
        if r and r.get('id') in consts:
            r['_const'] = consts[r['id']]
        for v in d.values():
            if isinstance(v, (dict, list)):
                _mark(v, consts)
    else:
        for v in d:
            _mark(v, consts)


class ExtractError(Exception):
    pass


def make_config(dst):
    """Generate softlib/config.h as cmake does (double precision, HDF5)."""
    d = os.path.join(dst, 'softlib')
    os.makedirs(d, exist_ok=True)
    src = open(os.path.join(REPO, 'include/softlib/config.h.in')).read()
    on = {'PRECISION_DOUBLE', 'UNIX'}
    def cd(m):
        n = m.group(1)
        return '#define %s' % n if n in on else '/* #undef %s */' % n
    src = re.sub(r'#cmakedefine\s+(\w+)', cd, src)
    src = re.sub(r'@(\w+)@', '', src)
    open(os.path.join(d, 'config.h'), 'w').write(src)
    return dst


def include_flags(cfgdir):
    return ['-DHAS_LIBPNG', '-D_FILE_OFFSET_BITS=64', '-I' + cfgdir, '-I' + REPO + '/include', '-I' + REPO + '/src',
            '-I/usr/include/hdf5/serial']


def load_tu(path, cfgdir, workdir, extra_flags=()):
    """Return list of parsed top-level declarations under REPO or workdir."""
    fd, out = tempfile.mkstemp(suffix='.json', dir=workdir)
    try:
        with os.fdopen(fd, 'wb') as f:
            cmd = ['clang++', '-std=gnu++17', '-fsyntax-only', '-w', '-fopenmp'] + include_flags(cfgdir) + \
                list(extra_flags) + ['-Xclang', '-ast-dump=json', path]
            r = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise ExtractError('clang rejected %s:\n%s' % (path, r.stderr.decode()[-3000:]))
        roots = (REPO.encode() + b'/', os.path.abspath(workdir).encode() + b'/')
        keep = []
        traits = {}
        limits = set()
        with open(out, 'rb') as f, mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ) as m:
            starts = [x.start() for x in _top.finditer(m)]
            if not starts:
                raise ExtractError('empty AST for ' + path)
            files = [(x.start(), x.group(1)) for x in _file.finditer(m)]
            # end of the toplevel array
            endpos = m.rfind(b'\n  ]')
            ends = starts[1:] + [endpos]
            fi = 0
            last = b''
            for s, e in zip(starts, ends):
                while fi < len(files) and files[fi][0] < s:
                    last = files[fi][1]
                    fi += 1
                # own location may set the file within the first ~600 bytes (loc comes first)
                own = last
                head = m[s:min(e, s + 2000)]
                h = _file.search(head)
                lp = head.find(b'"loc"')
                rp = head.find(b'"range"')
                if h and rp != -1 and h.start() < rp:
                    own = h.group(1)
                if b'"includedFrom"' in head[:rp if rp > 0 else 0] and not h:
                    own = last
                if own.startswith(roots):
                    txt = m[s:e].rstrip()
                    if txt.endswith(b','):
                        txt = txt[:-1]
                    keep.append(json.loads(txt))
                    for c in _traits.finditer(txt):
                        traits[c.group(1)] = None
                    for c in _limits.finditer(txt):
                        limits.add(c.group(1))
            for i in limits:        # std::numeric_limits<..>::max_digits10 and the like
                p = m.find(b'"id": "%s",\n' % i)
                q = m.rfind(b'{', 0, p)
                try:
                    d = json.JSONDecoder().raw_decode(m[q:q + 40000].decode())[0]
                    traits[i] = _ceval(d['inner'][0])
                except (ValueError, KeyError, IndexError):
                    pass
            for i in [i for i in traits if i not in limits]:        # std::is_same<..>::value and the like
                p = m.find(b'"id": "%s",\n' % i)
                h = m[p:p + 12000]
                v = _bool.search(h)
                t = h.find(b'"kind": "TypedefDecl"')
                if p >= 0 and v and 0 < v.start() < t:
                    traits[i] = v.group(1) == b'true'
        if traits:
            consts = {i.decode(): v for i, v in traits.items() if v is not None}
            for d in keep:
                _mark(d, consts)
        return keep
    finally:
        os.unlink(out)

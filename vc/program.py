"""Index of the extracted declarations: classes, fields, functions, types."""
import re
import cast


class Ty:
    __slots__ = ('k', 'name', 'sub', 'n', 'bits', 'signed')

    def __init__(self, k, name='', sub=None, n=None, bits=0, signed=False):
        self.k, self.name, self.sub, self.n, self.bits, self.signed = k, name, sub, n, bits, signed

    def __repr__(self):
        if self.k in ('ptr', 'ref', 'arr'):
            return '%s(%r%s)' % (self.k, self.sub, ',%s' % self.n if self.n is not None else '')
        return self.name or self.k


INTS = {
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
    'unsigned': (32, False), 'long': (64, True), 'unsigned long': (64, False),
    'long long': (64, True), 'unsigned long long': (64, False),
    'size_t': (64, False), 'std::size_t': (64, False), 'int32_t': (32, True), 'uint32_t': (32, False),
    'int64_t': (64, True), 'uint64_t': (64, False), 'hsize_t': (64, False), 'sfilesize_t': (64, False),
    'std::streamsize': (64, True), 'std::streamoff': (64, True), 'ptrdiff_t': (64, True),
    'uint8_t': (8, False), 'int8_t': (8, True), 'std::vector::size_type': (64, False),
    'size_type': (64, False), 'time_t': (64, True), '__int32_t': (32, True), '__uint32_t': (32, False),
    'difference_type': (64, True), 'std::ptrdiff_t': (64, True), 'hssize_t': (64, True), 'hid_t': (64, True), 'herr_t': (32, True),
    'wchar_t': (32, True),
}
REALS = {'double', 'float', 'long double', 'slibreal_t'}


def canon_class(s):
    s = s.strip()
    s = re.sub(r'^(class|struct|enum)\s+', '', s)
    s = re.sub(r'\b(\d+)U?L{0,2}\b', r'\1', s)
    s = s.replace('> >', '>>')
    while True:
        t = re.sub(r'^(\w+<[\w, ]*\d+), (double|slibreal_t)>$', r'\1>', s)
        if t == s:
            break
        s = t
    return s


class Program:
    def __init__(self):
        self.fn_by_id = {}      # (tu,id) -> decl
        self.fn_def = {}        # mangled -> (tu, decl) definition
        self.qual = {}          # id(decl) -> qualified class
        self.classes = {}       # canon name -> dict(fields=[(name, Ty, init)], bases=[..], methods=[decl..])
        self.field_owner = {}   # (tu,fieldid) -> (class, name)
        self.typedefs = {}
        self.enums = {}         # (tu,id) of EnumConstantDecl -> value
        self.enum_types = set()
        self.globals = {}       # (tu,id) -> VarDecl
        self.global_def = {}    # (class/name) -> (tu, VarDecl) with initializer
        self.class_by_id = {}
        self.tus = []
        self.aliases = {}
        self.anon, self.anon_ids, self.last_anon = {}, {}, None
        self.files = []

    # ------------------------------------------------------------ loading
    def add_tu(self, decls, name):
        tu = len(self.tus)
        self.tus.append(name)
        self.cur = tu
        for d in decls:
            if d.get('kind') == 'LinkageSpecDecl':
                continue
            if d.get('kind') == 'NamespaceDecl' and d.get('name') in ('std', '__gnu_cxx', 'H5'):
                continue
            self._decl(d, None)
        return tu

    def _qual_of(self, d, cls):
        return (cls + '::' if cls else '') + (d.get('name') or '')

    def _decl(self, d, cls):
        k = d.get('kind')
        tu = self.cur
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            name = d.get('name') or '<anon%d>' % len(self.anon_ids.setdefault((tu, cls), []))
            if not d.get('name'):
                self.anon_ids[(tu, cls)].append(d['id'])
                self.last_anon = (cls + '::' if cls else '') + name
            if k == 'ClassTemplateSpecializationDecl':
                args = []
                for c in d.get('inner', []):
                    if c.get('kind') == 'TemplateArgument':
                        if 'value' in c:
                            args.append(str(c['value']))
                        elif 'type' in c:
                            args.append(c['type']['qualType'])
                name = canon_class('%s<%s>' % (name, ', '.join(args)))
            full = (cls + '::' if cls else '') + name
            self.class_by_id[(tu, d['id'])] = full
            if not d.get('completeDefinition') and not any(c and c.get('kind') in ('FieldDecl', 'CXXMethodDecl') for c in d.get('inner', [])):
                return
            ci = self.classes.get(full)
            if ci is None or not ci['complete']:
                ci = dict(name=full, fields=[], bases=[], methods={}, ctors=[], dtor=None, complete=bool(d.get('completeDefinition')), tu=tu)
                self.classes[full] = ci
                fresh = True
            else:
                fresh = False
            if fresh:
                for b in d.get('bases', []):
                    ci['bases'].append(canon_class(b['type'].get('desugaredQualType') or b['type']['qualType']))
            for c in d.get('inner', []):
                if not c:
                    continue
                ck = c.get('kind')
                if ck == 'FieldDecl':
                    ts = c['type'].get('desugaredQualType') or c['type']['qualType']
                    if ('(unnamed ' in ts or '(anonymous ' in ts) and self.last_anon:
                        self.anon[re.search(r'\((unnamed|anonymous) [^)]*\)', ts).group(0)] = self.last_anon
                    self.field_owner[(tu, c['id'])] = (full, c.get('name'))
                    if fresh:
                        ci['fields'].append((c.get('name'), c['type'], c, tu))
                else:
                    self._decl(c, full)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            c = cls
            if c is None and d.get('parentDeclContextId'):
                c = self.class_by_id.get((tu, d['parentDeclContextId']))
            if c is None and k != 'FunctionDecl':
                return      # member of an uninstantiated template pattern
            d['_tu'] = tu
            d['_cls'] = c
            d['_q'] = self._qual_of(d, c)
            self.fn_by_id[(tu, d['id'])] = d
            has = any(x and x.get('kind') in ('CompoundStmt', 'CXXTryStmt') for x in d.get('inner', []))
            m = d.get('mangledName') or (d['_q'] + d['type']['qualType'])
            d['_m'] = m
            if has or m not in self.fn_def:
                if has and m in self.fn_def and self._hasbody(self.fn_def[m]):
                    pass
                else:
                    self.fn_def[m] = d
            if c is not None and c in self.classes:
                ci = self.classes[c]
                if k == 'CXXConstructorDecl':
                    if m not in [x['_m'] for x in ci['ctors']]:
                        ci['ctors'].append(d)
                elif k == 'CXXDestructorDecl':
                    ci['dtor'] = ci['dtor'] or d
                else:
                    ci['methods'].setdefault(d['name'], [])
                    if m not in [x['_m'] for x in ci['methods'][d['name']]]:
                        ci['methods'][d['name']].append(d)
            for x in d.get('inner', []):
                self._scan_statics(x)
        elif k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            for c in d.get('inner', []):
                if not c:
                    continue
                if c.get('kind') == 'ClassTemplateSpecializationDecl':
                    self._decl(c, cls)
                elif k == 'FunctionTemplateDecl' and c.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    if any(x and x.get('kind') == 'TemplateArgument' for x in c.get('inner', [])):
                        self._decl(c, cls)
        elif k == 'TypedefDecl' or k == 'TypeAliasDecl':
            nm = d.get('name')
            for x in d.get('inner', []) or []:
                own = x.get('ownedTagDecl') or (x.get('decl') if x.get('kind') == 'RecordType' else None) or {}
                full = self.class_by_id.get((tu, own.get('id')))
                if full and '<anon' in full:
                    for al in (nm, (cls + '::' if cls else '') + nm):
                        self.aliases.setdefault(al, full)
            if nm and nm not in self.typedefs:
                self.typedefs[nm] = d['type'].get('desugaredQualType') or d['type']['qualType']
            if 'EnumType' in str(d.get('inner', ''))[:400]:
                self.enum_types.add(d['name'])
        elif k == 'EnumDecl':
            v = -1
            nm = (cls + '::' if cls else '') + (d.get('name') or '')
            self.enum_types.add(nm)
            if d.get('name'):
                self.enum_types.add(d['name'])
            for c in d.get('inner', []):
                if c and c.get('kind') == 'EnumConstantDecl':
                    val = None
                    for x in c.get('inner', []):
                        val = self._constval(x)
                    v = val if val is not None else v + 1
                    self.enums[(tu, c['id'])] = v
        elif k == 'VarDecl':
            c = cls
            if c is None and d.get('parentDeclContextId'):
                c = self.class_by_id.get((tu, d['parentDeclContextId']))
            d['_tu'] = tu
            self.globals[(tu, d['id'])] = d
            q = (c + '::' if c else '') + d['name']
            d['_q'] = q
            if d.get('init') and (q not in self.global_def):
                self.global_def[q] = d
        elif k == 'NamespaceDecl' or k == 'ExportDecl' or k == 'LinkageSpecDecl':
            for c in d.get('inner', []):
                if c:
                    self._decl(c, cls)

    def _scan_statics(self, n):
        pass

    def _constval(self, x):
        if x.get('kind') == 'ConstantExpr' and 'value' in x:
            return int(x['value'])
        if x.get('kind') == 'IntegerLiteral':
            return int(x['value'])
        for c in x.get('inner', []):
            r = self._constval(c)
            if r is not None:
                return r
        return None

    @staticmethod
    def _hasbody(d):
        return any(x and x.get('kind') in ('CompoundStmt', 'CXXTryStmt') for x in d.get('inner', []))

    def body(self, d):
        for x in d.get('inner', []):
            if x and x.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                return x
        return None

    def definition(self, d):
        dd = self.fn_def.get(d['_m'], d)
        return dd

    # ------------------------------------------------------------ types
    def ty(self, t, symlens=None):
        """t: clang type dict or string"""
        if isinstance(t, dict):
            s = t.get('desugaredQualType') or t['qualType']
        else:
            s = t
        return self._ty(s)

    def _ty(self, s):
        s = s.strip()
        s = re.sub(r'\b(const|volatile|__restrict|__restrict__|restrict)\b', '', s).strip()
        s = re.sub(r'\s+', ' ', s).strip()
        if '(unnamed ' in s or '(anonymous ' in s:
            m = re.search(r'[\w:]*(?:struct |union |class )?[\w:<>]*(\((?:unnamed|anonymous) [^)]*\))', s)
            if m and m.group(1) in self.anon:
                s = s.replace(m.group(0), self.anon[m.group(1)])
        if s.endswith('&&'):
            return Ty('ref', sub=self._ty(s[:-2]))
        if s.endswith('&'):
            return Ty('ref', sub=self._ty(s[:-1]))
        if s.endswith('*'):
            return Ty('ptr', sub=self._ty(s[:-1]))
        m = re.match(r'^(.*?)\s*\(&\)\s*\[(\d*)\]$', s)
        if m:
            return Ty('ref', sub=Ty('arr', sub=self._ty(m.group(1)), n=int(m.group(2) or 0)))
        m = re.match(r'^(.*?)\s*\(\*\)\s*\[(\d*)\]$', s)
        if m:
            return Ty('ptr', sub=Ty('arr', sub=self._ty(m.group(1)), n=int(m.group(2) or 0)))
        if s.endswith(']'):
            i = s.index('[') if '<' not in s else s.index('[', s.rindex('>'))
            m = re.match(r'^\[([^\]]*)\](.*)$', s[i:])
            n = m.group(1)
            rest = s[:i] + m.group(2)
            return Ty('arr', sub=self._ty(rest), n=int(n) if n.isdigit() else n)
        if s in INTS:
            b, sg = INTS[s]
            return Ty('int', s, bits=b, signed=sg)
        if s in REALS:
            return Ty('real', s)
        if s in ('bool', '_Bool'):
            return Ty('bool', s)
        if s == 'void':
            return Ty('void')
        if s in ('std::nullptr_t', 'nullptr_t'):
            return Ty('ptr', sub=Ty('void'))
        if re.match(r'^.*\(\*\)\s*\(', s) or ')(' in s or s.endswith(')'):
            return Ty('fn', s)
        if re.sub(r'^struct ', '', s) in self.aliases:
            return Ty('rec', self.aliases[re.sub(r'^struct ', '', s)])
        if s in self.typedefs and self.typedefs[s] != s:
            return self._ty(self.typedefs[s])
        c = canon_class(s)
        if c in self.classes:
            return Ty('rec', c)
        if re.sub(r'^enum ', '', s) in self.enum_types or s.startswith('enum '):
            return Ty('int', 'int', bits=32, signed=True)
        short = c.split('::')[-1]
        if '<' not in c and short in self.enum_types:
            return Ty('int', 'int', bits=32, signed=True)
        if '<' not in c and short in self.typedefs and self.typedefs[short] != s:
            return self._ty(self.typedefs[short])
        return Ty('lib', c)

    # ------------------------------------------------------------ classes
    def all_fields(self, cls):
        """[(owner, name, Ty, decl, tu)] base classes first"""
        ci = self.classes[cls]
        out = []
        for b in ci['bases']:
            if b in self.classes:
                out += self.all_fields(b)
        for nm, t, d, tu in ci['fields']:
            out.append((cls, nm, self.ty(t), d, tu))
        return out

    def is_base(self, base, cls):
        if base == cls:
            return True
        if cls not in self.classes:
            return False
        return any(self.is_base(base, b) for b in self.classes[cls]['bases'])

    def find_override(self, cls, name, sig):
        """most derived definition of method `name` with signature `sig` seen from dynamic class cls"""
        ci = self.classes.get(cls)
        if ci is None:
            return None
        for d in ci['methods'].get(name, []):
            if norm_sig(d['type']['qualType']) == norm_sig(sig):
                return d
        for b in ci['bases']:
            r = self.find_override(b, name, sig)
            if r is not None:
                return r
        return None

    def find_fn(self, qual, nparams=None, sig=None):
        """definitions with qualified name `qual`"""
        out = []
        seen = set()
        for d in self.fn_by_id.values():
            if d['_q'] == qual:
                dd = self.definition(d)
                if id(dd) in seen:
                    continue
                seen.add(id(dd))
                if nparams is not None and len(params(dd)) != nparams:
                    continue
                if sig is not None and norm_sig(dd['type']['qualType']) != norm_sig(sig):
                    continue
                if d.get('isImplicit'):
                    continue
                out.append(dd)
        return out


def params(d):
    return [x for x in d.get('inner', []) if x and x.get('kind') == 'ParmVarDecl']


def norm_sig(s):
    s = re.sub(r'\b(enum|struct|class) ', '', s.replace('std::', '').replace('__cxx11::', '')).replace('basic_string<char>', 'string')
    s = s.replace('const ', '').replace('slibreal_t', 'double').replace('noexcept', '').strip()
    s = re.sub(r'(\d+)U\b', r'\1', s).replace(', double>', '>')
    s = re.sub(r'\)\s*const$', ')', s.strip())
    return re.sub(r'\s+', '', s)

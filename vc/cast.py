"""Front end: clang's JSON AST of the real /repo/src files -> typed C subset.

Nothing is rewritten: functions are taken from the AST that clang builds for the
unmodified file with the flags the repository's own build uses.
"""
import json, os, re, subprocess, hashlib, shlex

REPO = os.environ.get('SDRV_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


class Unsupported(Exception):
    """The contract/AST cannot be attached (renamed entity, unknown construct)."""


_cflags = None


def cflags():
    global _cflags
    if _cflags is None:
        out = ''
        for pkg in ('volk', 'libconfig', 'libprotobuf-c', 'libiio'):
            r = subprocess.run(['pkg-config', '--cflags', pkg], capture_output=True, text=True)
            if r.returncode == 0:
                out += ' ' + r.stdout.strip()
        _cflags = ['-std=c99', '-Wno-implicit-function-declaration', '-I' + SRC] + shlex.split(out)
    return _cflags


# ---------------------------------------------------------------- types
class T:
    """C type. kinds: int, float, cfloat, ptr, array, struct, func, void"""
    __slots__ = ('k', 'size', 'signed', 'to', 'n', 'name', 'align', 'rec', 'args')

    def __init__(self, k, size=0, signed=False, to=None, n=None, name=None, align=None, rec=None, args=None):
        self.k = k; self.size = size; self.signed = signed; self.to = to; self.n = n
        self.name = name; self.align = align or size or 1; self.rec = rec; self.args = args

    def __repr__(self):
        if self.k == 'int':
            return ('i' if self.signed else 'u') + str(self.size * 8)
        if self.k == 'ptr':
            return repr(self.to) + '*'
        if self.k == 'array':
            return '%r[%s]' % (self.to, self.n)
        if self.k == 'struct':
            return 'struct ' + str(self.name)
        return self.k + str(self.size * 8 if self.size else '')


VOID = T('void', 1)
BOOL = T('int', 1, False, name='bool')
CHAR = T('int', 1, True)
SCHAR = T('int', 1, True)
UCHAR = T('int', 1, False)
SHORT = T('int', 2, True)
USHORT = T('int', 2, False)
INT = T('int', 4, True)
UINT = T('int', 4, False)
LONG = T('int', 8, True)
ULONG = T('int', 8, False)
FLOAT = T('float', 4)
DOUBLE = T('float', 8)
LDOUBLE = T('float', 16)
CFLOAT = T('cfloat', 8, align=4)
CDOUBLE = T('cfloat', 16, align=8)
CLDOUBLE = T('cfloat', 32, align=16)


def ptr(t):
    return T('ptr', 8, to=t)


class Rec:
    def __init__(self, name):
        self.name = name; self.fields = []; self.complete = False; self.packed = False
        self.union = False; self.size = None; self.align = 1; self._laid = False
        self.node = None

    def layout(self, tu):
        if self._laid:
            return
        self._laid = True
        off = 0; al = 1; size = 0
        for f in self.fields:
            t = f['type'] = tu.parse_type(f['qt'])
            a = 1 if self.packed else t_align(t)
            al = max(al, a)
            if self.union:
                f['off'] = 0
                size = max(size, t_size(t))
            else:
                if f.get('bits'):
                    # bit-fields: only size matters for what we do
                    pass
                off = (off + a - 1) // a * a
                f['off'] = off
                off += t_size(t)
        if not self.union:
            size = off
        self.align = al
        self.size = (size + al - 1) // al * al

    def field(self, name):
        for f in self.fields:
            if f['name'] == name:
                return f
        return None


def t_size(t):
    if t.k == 'array':
        if t.n is None:
            return 0
        return t.n * t_size(t.to)
    if t.k == 'struct':
        r = complete(t.rec)
        if r.size is None:
            raise Unsupported('size of incomplete ' + str(t.name))
        return r.size
    return t.size


def t_align(t):
    if t.k == 'array':
        return t_align(t.to)
    if t.k == 'struct':
        return t.rec.align
    return t.align


class TU:
    """One translation unit."""

    def __init__(self, path):
        self.path = path
        self.records = {}      # tag name or decl id -> Rec
        self.rec_by_id = {}
        self.typedefs = {}     # name -> qualtype str  or ('rec', Rec)
        self.enums = {}        # const name -> value
        self.enum_tags = set()
        self.funcs = {}        # name -> FunctionDecl with body
        self.protos = {}
        self.globals = {}      # name -> VarDecl
        self.decls = {}        # id -> node (vars, fields, functions, enum consts)
        self.fields_by_id = {}
        self._tc = {}
        self._load()

    def _load(self):
        cmd = ['clang'] + cflags() + ['-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', self.path]
        r = subprocess.run(cmd, capture_output=True)
        if r.returncode != 0:
            raise Unsupported('clang cannot parse %s: %s' % (self.path, r.stderr.decode()[:2000]))
        ast = json.loads(r.stdout)
        self.ast = ast
        anon_last = None
        for n in ast['inner']:
            self._top(n)
        for r_ in list(self.rec_by_id.values()):
            if r_.complete:
                try:
                    r_.layout(self)
                except Unsupported:
                    r_.size = None
        self._strip()

    def _strip(self):
        self.ast = None

    def _top(self, n):
        k = n['kind']
        if k in ('RecordDecl',):
            self._record(n)
        elif k == 'TypedefDecl':
            name = n['name']
            inner = n.get('inner') or []
            rid = self._find_rec(inner)
            self.typedefs[name] = (n['type'].get('desugaredQualType', n['type']['qualType']), n['type']['qualType'], rid)
        elif k == 'EnumDecl':
            if n.get('name'):
                self.enum_tags.add(n['name'])
            v = 0
            for c in n.get('inner', []) or []:
                if c['kind'] != 'EnumConstantDecl':
                    continue
                cv = self._const(c)
                if cv is not None:
                    v = cv
                self.enums[c['name']] = v
                self.decls[c['id']] = c
                v += 1
        elif k == 'FunctionDecl':
            self.decls[n['id']] = n
            body = [x for x in n.get('inner', []) or [] if x['kind'] == 'CompoundStmt']
            if body:
                n['_body'] = body[0]
                n['_params'] = [x for x in n['inner'] if x['kind'] == 'ParmVarDecl']
                n['_tu'] = self
                self.funcs[n['name']] = n
            else:
                n['_params'] = [x for x in n.get('inner', []) or [] if x['kind'] == 'ParmVarDecl']
                self.protos[n['name']] = n
        elif k == 'VarDecl':
            self.decls[n['id']] = n
            self.globals[n['name']] = n

    def _const(self, c):
        for x in c.get('inner', []) or []:
            if x['kind'] == 'ConstantExpr' and 'value' in x:
                return int(x['value'])
        return None

    def _find_rec(self, inner):
        for x in inner:
            if 'ownedTagDecl' in x and x['ownedTagDecl'].get('kind') == 'RecordDecl':
                return x['ownedTagDecl']['id']
            if x['kind'] == 'RecordType' and 'decl' in x:
                return x['decl']['id']
            if x['kind'] in ('ElaboratedType',):
                r = self._find_rec(x.get('inner', []) or [])
                if r:
                    return r
        return None

    def _record(self, n):
        name = n.get('name')
        r = None
        if name and name in self.records:
            r = self.records[name]
        if r is None:
            r = Rec(name or ('anon_' + n['id']))
            if name:
                self.records[name] = r
        self.rec_by_id[n['id']] = r
        if not n.get('completeDefinition'):
            return r
        if r.complete:
            return r
        r.complete = True
        r.union = n.get('tagUsed') == 'union'
        last_nested = None
        for c in n.get('inner', []) or []:
            if c['kind'] == 'RecordDecl':
                last_nested = self._record(c)
                self.records['#loc%s' % self._locstr(c)] = last_nested
            elif c['kind'] == 'FieldDecl':
                qt = c['type'].get('desugaredQualType', c['type']['qualType'])
                nm = c.get('name', '')
                f = {'name': nm, 'qt': qt, 'node': c, 'bits': c.get('isBitfield')}
                if 'unnamed' in qt or 'anonymous' in qt:
                    f['qt'] = ('rec', last_nested, qt)
                r.fields.append(f)
                self.fields_by_id[c['id']] = (r, f)
                self.decls[c['id']] = c
            elif c['kind'] == 'PackedAttr':
                r.packed = True
            elif c['kind'] == 'MaxFieldAlignmentAttr':
                r.packed = True
        return r

    def _locstr(self, c):
        return c['id']

    # ------------------------------------------------------------ types
    BASE = {
        'void': VOID, 'char': CHAR, 'signed char': SCHAR, 'unsigned char': UCHAR,
        'short': SHORT, 'unsigned short': USHORT, 'int': INT, 'unsigned int': UINT, 'unsigned': UINT,
        'long': LONG, 'unsigned long': ULONG, 'long long': LONG, 'unsigned long long': ULONG,
        'float': FLOAT, 'double': DOUBLE, '_Bool': BOOL, 'bool': BOOL, 'long double': LDOUBLE,
        '_Complex float': CFLOAT, '_Complex double': CDOUBLE, 'float _Complex': CFLOAT, 'double _Complex': CDOUBLE,
        '_Complex long double': CLDOUBLE,
        '__int128': T('int', 16, True), 'unsigned __int128': T('int', 16, False),
        '__builtin_va_list': T('struct', 24, name='va_list'),
    }

    def parse_type(self, q):
        if isinstance(q, tuple):
            if q[0] == 'rec':
                base = T('struct', name=q[1].name if q[1] else '?', rec=q[1])
                q[1].layout(self)
                m = re.search(r'\)\s*(.*)$', q[2])
                tail = (m.group(1) if m else '').strip()
                if tail.startswith('['):
                    for d in reversed(re.findall(r'\[(\d*)\]', tail)):
                        base = T('array', to=base, n=int(d) if d else None)
                return base
        if q in self._tc:
            return self._tc[q]
        t = self._parse(q)
        self._tc[q] = t
        return t

    def qt(self, n):
        ty = n['type']
        return self.parse_type(ty.get('desugaredQualType', ty['qualType']))

    def _parse(self, s):
        s = s.strip()
        s = re.sub(r'\b(const|volatile|restrict|__restrict|_Nonnull|_Nullable|extern|static|inline)\b', ' ', s)
        s = re.sub(r'__attribute__\(\([^)]*\)\)', ' ', s)
        s = re.sub(r'\s+', ' ', s).strip()
        m = re.match(r'^_Atomic\((.*)\)$', s)
        if m:
            return self._parse(m.group(1))
        # function pointer / pointer to array: base (*...)(args) or base (*)[N]
        p0 = s.find('(')
        if p0 > 0 and not s[p0 + 1:].lstrip().startswith('*') and 'unnamed' not in s and 'anonymous' not in s:
            return T('func', 1, name=s)
        m = re.search(r'\(\s*\*+\s*(\[[^\]]*\])?\s*\)', s)
        if m:
            inner = m.group(0)
            stars = inner.count('*')
            rest = s[m.end():].strip()
            if rest.startswith('('):
                t = T('func', 1, name=s)
            else:
                dims = re.findall(r'\[(\d*)\]', rest)
                t = self._parse(s[:m.start()])
                for d in reversed(dims):
                    t = T('array', to=t, n=int(d) if d else None)
            for _ in range(stars):
                t = ptr(t)
            if m.group(1):
                t = T('array', to=t, n=int(m.group(1)[1:-1]))
            return t
        if s.endswith(')') and '(' in s and not s.startswith('struct (') and not 'unnamed' in s and not 'anonymous' in s:
            return T('func', 1, name=s)
        if s.endswith(']'):
            i = s.index('[')
            dims = re.findall(r'\[([^\]]*)\]', s[i:])
            t = self._parse(s[:i])
            for d in reversed(dims):
                t = T('array', to=t, n=int(d) if d.strip().isdigit() else None)
            return t
        if s.endswith('*'):
            return ptr(self._parse(s[:-1]))
        if s in self.BASE:
            return self.BASE[s]
        m = re.match(r'^_Complex (.*)$', s)
        m = re.match(r'^(struct|union) (.*)$', s)
        if m:
            tag = m.group(2)
            if 'unnamed' in tag or 'anonymous' in tag:
                return self._anon(s)
            r = self.records.get(tag)
            if r is None:
                r = Rec(tag)
                self.records[tag] = r
            if r.complete:
                r.layout(self)
            return T('struct', name=tag, rec=r)
        m = re.match(r'^enum (.*)$', s)
        if m:
            return UINT
        if s in self.typedefs:
            ds, q0, rid = self.typedefs[s]
            if rid and rid in self.rec_by_id and '*' not in ds and '[' not in ds:
                r = self.rec_by_id[rid]
                if r.complete:
                    r.layout(self)
                return T('struct', name=s if r.name.startswith('anon_') else r.name, rec=r)
            if ds == s and q0 == s:
                raise Unsupported('typedef ' + s)
            return self._parse(ds if ds != s else q0)
        if s in self.enum_tags:
            return UINT
        if 'unnamed' in s or 'anonymous' in s:
            return self._anon(s)
        raise Unsupported('type ' + s)

    def _anon(self, s):
        if s.startswith('enum') or s.startswith('(enum'):
            return UINT
        # find by typedef whose desugared type is this string
        for nm, (ds, q0, rid) in self.typedefs.items():
            if ds == s and rid in self.rec_by_id:
                r = self.rec_by_id[rid]
                if r.complete:
                    r.layout(self)
                return T('struct', name=nm, rec=r)
        return T('struct', name=s, rec=Rec(s))


_tus = {}


def load(path):
    p = path if os.path.isabs(path) else os.path.join(SRC, path)
    if not os.path.exists(p):
        raise Unsupported('no such source file: ' + path)
    if p not in _tus:
        _tus[p] = TU(p)
    return _tus[p]


def all_sources():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            if f.endswith('.c') and f not in ('api.pb-c.c', 'main.c'):
                out.append(os.path.relpath(os.path.join(d, f), SRC))
    return sorted(out)


_recs = {}


def complete(rec):
    """the definition of a struct that is only declared in this translation unit"""
    if rec is None or rec.size is not None or rec.name is None:
        return rec
    key = (SRC, rec.name)
    if key not in _recs:
        _recs[key] = rec
        pat = re.compile(r'\bstruct\s+%s\s*\{' % re.escape(rec.name))
        for f in all_sources():
            if pat.search(open(os.path.join(SRC, f), errors='replace').read()):
                t = load(f).parse_type('struct ' + rec.name)
                if t.rec is not None and t.rec.size is not None:
                    _recs[key] = t.rec
                    break
    return _recs[key]


_index = None


def find_function(name, prefer=None):
    """(TU, FunctionDecl) of the definition of `name` anywhere in /repo/src."""
    if prefer is not None and name in prefer.funcs:
        return prefer, prefer.funcs[name]
    for f in source_index().get(name, ()):
        tu = load(f)
        if name in tu.funcs:
            return tu, tu.funcs[name]
    return None, None


def source_index():
    """cheap textual index: function name -> files that might define it"""
    global _index
    if _index is None:
        _index = {}
        for f in all_sources():
            txt = open(os.path.join(SRC, f), errors='replace').read()
            for m in re.finditer(r'\b([A-Za-z_]\w*)\s*\(', txt):
                _index.setdefault(m.group(1), [])
                if f not in _index[m.group(1)]:
                    _index[m.group(1)].append(f)
    return _index

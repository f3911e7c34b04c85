"""Front end: the C sources of /repo, as clang's own AST (JSON), parsed anew on every run.

Nothing is copied or rewritten by hand: the verifier executes the AST nodes clang
produced from /repo/src (macros expanded, implicit conversions explicit)."""
import json, os, re, subprocess, sys, hashlib, tempfile

sys.setrecursionlimit(100000)
REPO = os.environ.get('KV_REPO', '/repo')
MPI_INC = ['-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'fakempi')]

CONFIG_H = '''#define HAVE_BYTESWAP_H 1
#define KVTREE_TEST_BASE "/dev/shm"
#define %s 1
'''
PTR = 8


class T:
    """C type"""
    __slots__ = ('k', 'bits', 'signed', 'to', 'n', 'name')

    def __init__(self, k, bits=0, signed=False, to=None, n=None, name=None):
        self.k, self.bits, self.signed, self.to, self.n, self.name = k, bits, signed, to, n, name

    def __repr__(self):
        if self.k == 'int':
            return ('i' if self.signed else 'u') + str(self.bits)
        if self.k == 'ptr':
            return repr(self.to) + '*'
        if self.k == 'arr':
            return '%r[%s]' % (self.to, self.n)
        return self.name or self.k


VOID = T('void')
BASE = {
    'char': T('int', 8, True), 'signed char': T('int', 8, True), 'unsigned char': T('int', 8, False),
    'short': T('int', 16, True), 'unsigned short': T('int', 16, False),
    'int': T('int', 32, True), 'unsigned int': T('int', 32, False), 'unsigned': T('int', 32, False),
    'long': T('int', 64, True), 'unsigned long': T('int', 64, False),
    'long long': T('int', 64, True), 'unsigned long long': T('int', 64, False),
    '_Bool': T('int', 8, False), 'void': VOID,
    'float': T('flt', 32), 'double': T('flt', 64), 'long double': T('flt', 128),
    '__int128': T('int', 128, True), 'unsigned __int128': T('int', 128, False),
    '__builtin_va_list': T('valist'), '__va_list_tag': T('valist'), 'va_list': T('valist'),
    'struct __va_list_tag': T('valist'), '__gnuc_va_list': T('valist'),
}
INT = BASE['int']
CHARP = T('ptr', to=BASE['char'])
VOIDP = T('ptr', to=VOID)


class Unit:
    def __init__(self, path, ast):
        self.path = path
        self.funcs = {}      # name -> FunctionDecl with body
        self.protos = {}     # name -> FunctionDecl without
        self.typedefs = {}
        self.records = {}    # tag or id -> list of (field name, type string, field id, recid)
        self.fields = {}     # field id -> (record key, index)
        self.enums = {}
        self.enumnames = {}
        self.globals = {}
        self.decls = {}
        self._lay = {}
        self._tc = {}
        for d in ast.get('inner', []):
            self.top(d)

    def top(self, d):
        k = d.get('kind')
        if k == 'FunctionDecl':
            has = any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', []))
            if has:
                self.funcs[d['name']] = d
                self.scan_records(d)
            else:
                self.protos.setdefault(d['name'], d)
        elif k == 'TypedefDecl':
            t = d['type']
            self.typedefs[d['name']] = t.get('desugaredQualType', t['qualType'])
            # typedef of anonymous struct: remember the owned tag id
            for c in d.get('inner', []):
                o = c.get('ownedTagDecl') or (c.get('inner') or [{}])[0].get('ownedTagDecl')
                if o and not o.get('name'):
                    self.typedefs[d['name']] = ('enum #' if o.get('kind') == 'EnumDecl' else 'struct #') + o['id']
        elif k == 'RecordDecl':
            self.record(d)
        elif k == 'EnumDecl':
            self.enum(d)
        elif k == 'VarDecl':
            self.globals[d['id']] = d
            self.globals.setdefault(d['name'], d)
            if d.get('init'):
                self.globals[d['name']] = d

    def scan_records(self, n):
        if not isinstance(n, dict):
            return
        if n.get('kind') == 'RecordDecl':
            self.record(n)
        elif n.get('kind') == 'EnumDecl':
            self.enum(n)
        else:
            for c in n.get('inner', []):
                self.scan_records(c)

    def enum(self, d):
        v = -1
        for c in d.get('inner', []):
            if c.get('kind') == 'EnumConstantDecl':
                ex = None
                for i in c.get('inner', []):
                    ex = find_value(i)
                v = int(ex) if ex is not None else v + 1
                self.enums[c['id']] = v
                self.enumnames[c['name']] = v

    def record(self, d):
        fields = []
        last_anon = None
        if not d.get('completeDefinition'):
            return
        for c in d.get('inner', []):
            if c.get('kind') == 'RecordDecl':
                self.record(c)
                last_anon = c['id']
            elif c.get('kind') == 'FieldDecl':
                q = c['type'].get('desugaredQualType', c['type']['qualType'])
                if re.search(r'\((unnamed|anonymous)', q) and last_anon:
                    m = re.search(r'\)([^)]*)$', q)
                    q = 'struct #' + last_anon + ' ' + (m.group(1) if m else '')
                fields.append((c.get('name', ''), q, c['id'], c.get('isBitfield', False)))
        key = d.get('name') or '#' + d['id']
        ent = {'fields': fields, 'union': d.get('tagUsed') == 'union'}
        self.records[key] = ent
        self.records['#' + d['id']] = ent
        for i, f in enumerate(fields):
            self.fields[f[2]] = (key, i)

    # ---- types
    def type(self, q):
        if isinstance(q, dict):
            q = q.get('desugaredQualType', q.get('qualType'))
        t = self._tc.get(q)
        if t is None:
            t = self._tc[q] = self._type(q)
        return t

    def _type(self, q):
        q = re.sub(r'\b(const|volatile|restrict|__restrict|register|extern|static)\b', ' ', q).strip()
        q = re.sub(r'\s+', ' ', q)
        m = re.match(r'^(.*)\(\*+\)\s*\((.*)\)$', q)
        if m or re.search(r'\(\*\)', q):
            if '(*)' in q and re.search(r'\(\*\)\s*\[', q):
                m2 = re.match(r'^(.*)\(\*\)\s*(\[.*)$', q)
                return T('ptr', to=self._type(m2.group(1) + m2.group(2)))
            return T('ptr', to=T('fn', name=q))
        m = re.match(r'^(.*)\[(\d*)\]$', q)
        if m:
            # innermost dimension last: a[2][3] -> arr(2, arr(3))
            m = re.match(r'^([^\[]*)\[(\d*)\](.*)$', q)
            return T('arr', to=self._type(m.group(1) + m.group(3)), n=int(m.group(2)) if m.group(2) else None)
        if q.endswith('*'):
            return T('ptr', to=self._type(q[:-1]))
        if q.endswith(')') and '(' in q and not q.startswith('struct') and not q.startswith('union'):
            return T('fn', name=q)
        if q in BASE:
            return BASE[q]
        m = re.match(r'^(struct|union|enum)\s+(\S+)\s*$', q)
        if m:
            if m.group(1) == 'enum':
                return BASE['unsigned int']
            return T('rec', name=m.group(2))
        if q in self.typedefs:
            u = self.typedefs[q]
            if u == q:
                return T('opaque', name=q)
            return self._type(u)
        return T('opaque', name=q)

    def sizeof(self, t):
        if t.k == 'int' or t.k == 'flt':
            return t.bits // 8
        if t.k == 'ptr':
            return PTR
        if t.k == 'arr':
            return self.sizeof(t.to) * (t.n or 0)
        if t.k == 'rec':
            return self.layout(t.name)[0]
        if t.k == 'void' or t.k == 'fn':
            return 1
        if t.k == 'valist':
            return 24
        raise NotImplementedError('sizeof %r' % t)

    def alignof(self, t):
        if t.k == 'arr':
            return self.alignof(t.to)
        if t.k == 'rec':
            return self.layout(t.name)[1]
        if t.k == 'valist':
            return 8
        return max(1, self.sizeof(t))

    def layout(self, name):
        if name in self._lay:
            return self._lay[name]
        if name not in self.records:
            raise NotImplementedError('incomplete record %s' % name)
        r = self.records[name]
        off, al, offs = 0, 1, []
        size = 0
        for (fn, q, fid, bf) in r['fields']:
            if bf:
                offs.append(off)
                continue
            t = self.type(q)
            a = self.alignof(t)
            s = self.sizeof(t)
            al = max(al, a)
            if r['union']:
                offs.append(0)
                size = max(size, s)
            else:
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                size = off
        size = (size + al - 1) // al * al
        self._lay[name] = (size, al, offs)
        return self._lay[name]

    def field(self, fid):
        """-> (offset, type)"""
        key, i = self.fields[fid]
        r = self.records[key]
        return self.layout(key)[2][i], self.type(r['fields'][i][1])


def find_value(n):
    if 'value' in n:
        return n['value']
    for c in n.get('inner', []):
        v = find_value(c)
        if v is not None:
            return v
    return None


_cfg = {}


def cfgdir(lock='KVTREE_FILE_LOCK_USE_FLOCK'):
    if lock not in _cfg:
        d = tempfile.mkdtemp(prefix='kvcfg')
        open(os.path.join(d, 'config.h'), 'w').write(CONFIG_H % lock)
        _cfg[lock] = d
        import atexit, shutil
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return _cfg[lock]


def clang_cmd(path, lock):
    inc = MPI_INC if 'mpi' in os.path.basename(path) else []
    return ['clang', '-fsyntax-only', '-w', '-fgnuc-version=9.4.0', '-Xclang', '-ast-dump=json', '-I%s/src' % REPO,
            '-I' + cfgdir(lock)] + inc + [path]


def number_lines(root):
    """clang's JSON gives locations relative to the previously printed one: fill n['_line'] in document order"""
    cur = [None, 0]

    def one(o):
        if not isinstance(o, dict):
            return
        if 'spellingLoc' in o or 'expansionLoc' in o:
            one(o.get('spellingLoc'))
            one(o.get('expansionLoc'))
            return
        if 'file' in o:
            cur[0] = o['file']
        if 'line' in o:
            cur[1] = o['line']

    st = [root]
    while st:
        n = st.pop()
        one(n.get('loc'))
        r = n.get('range')
        if r:
            one(r.get('begin'))
            n['_line'] = cur[1]
            one(r.get('end'))
        st.extend(c for c in reversed(n.get('inner', [])) if isinstance(c, dict))


_units = {}


def load(name, lock='KVTREE_FILE_LOCK_USE_FLOCK'):
    key = (name, lock)
    if key not in _units:
        path = name if name.startswith('/') else os.path.join(REPO, 'src', name)
        p = subprocess.run(clang_cmd(path, lock), capture_output=True)
        if p.returncode != 0:
            raise RuntimeError('clang failed on %s: %s' % (path, p.stderr.decode()[-2000:]))
        ast = json.loads(p.stdout)
        number_lines(ast)
        _units[key] = Unit(path, ast)
    return _units[key]


def sources(mpi=False):
    """the library's source files, as found in the tree now"""
    import glob
    r = []
    for f in sorted(glob.glob(os.path.join(REPO, 'src', '*.c'))):
        b = os.path.basename(f)
        if b in ('kvtree_print.c', 'tv_data_display.c') or ('mpi' in b) != mpi:
            continue
        r.append(b)
    first = [x for x in ('kvtree.c', 'kvtree_util.c', 'kvtree_helpers.c', 'kvtree_io.c', 'kvtree_err.c') if x in r]
    return first + [x for x in r if x not in first]


CLIENTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'clients.c')


def load_all():
    us = [load(x) for x in sources()]
    for x in sources(mpi=True):
        try:
            us.append(load(x))
        except RuntimeError:    # does not build against the stand-in for mpi.h: its functions are reported as missing
            pass
    try:
        us.append(load(CLIENTS))
    except RuntimeError:        # the interface changed: the client programs say nothing about this tree
        pass
    return us

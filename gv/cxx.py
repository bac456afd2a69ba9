"""Front end: the real C++ functions, mechanically extracted from clang's AST on every run."""
import json, os, subprocess, hashlib, tempfile, shutil, re, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('GV_REPO', '/repo')
CACHE = os.environ.get('GV_CACHE', '/verif/.cache')


class ExtractError(Exception):
    pass


def include_flags():
    inc = []
    for root in ('src', 'Randutils'):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            if os.path.basename(d) == 'include': inc.append('-I' + d)
    inc.sort()
    return inc + ['-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/coin', '-isystem', '/opt/vp/ipopt/include',
                  '-DHAVE_CSTDDEF', '-std=c++17']


def tree_hash():
    h = hashlib.sha256()
    for root in ('src', 'Randutils'):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.cpp', '.hpp', '.h')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


FILTERS = ['Model::', 'Aux::', 'Optimization::', 'Solver::', 'Network::', 'aux_json::', 'io::']
GLOBALS = ['front', 'back']       # function templates of the project in the global namespace (the filter matches substrings)


def parse_many(s):
    d = json.JSONDecoder()
    i, n, out = 0, len(s), []
    while i < n:
        while i < n and s[i] in ' \n\r\t': i += 1
        if i >= n: break
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


def run_clang(tu, flt):
    cmd = ['setarch', '-R', 'clang++'] + include_flags() + ['-w', '-fsyntax-only', '-Xclang', '-ast-dump=json',
           '-Xclang', '-ast-dump-filter', '-Xclang', flt, tu]     # two arguments: the length of the filter must not move the heap
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    if p.returncode < 0: raise ExtractError('clang crashed: ' + p.stderr[:500])
    return p.stdout, p.stderr, p.returncode


def rename_ids(x):
    for k, v in x.items():
        if k in ('id', 'referencedMemberDecl', 'previousDecl', 'parentDeclContextId') and isinstance(v, str): x[k] = 'g' + v
        elif isinstance(v, dict): rename_ids(v)
        elif isinstance(v, list):
            for y in v:
                if isinstance(y, dict): rename_ids(y)


class Program:
    """All project declarations of one (unity) translation unit."""

    def __init__(self, files, filters=None, log=None):
        self.files = files
        self.decls = {}       # id -> node
        self.funcs = {}       # 'Class::name' / 'name' -> [definition nodes]
        self.funcdecls = {}
        self.records = {}     # class name -> node with definition
        self.parent = {}      # id -> class name (for members)
        self.mangled = {}     # mangledName -> definition
        self.globals = {}     # (name, type) -> instantiation of a global function template
        self.errors = ''
        filters = (filters or FILTERS) + GLOBALS
        key = hashlib.sha256(('|'.join(files) + '#' + '|'.join(filters) + tree_hash() + 'v7').encode()).hexdigest()[:24]
        cdir = os.path.join(CACHE, key)
        outs = None
        if os.path.isdir(cdir):
            try:
                outs = [open(os.path.join(cdir, '%d.json' % i)).read() for i in range(len(filters))]
                self.errors = open(os.path.join(cdir, 'err')).read()
            except Exception:
                outs = None
        if outs is None:
            td = tempfile.mkdtemp(prefix='gv_ast_')
            try:
                tu = os.path.join(td, 'unity.cpp')
                with open(tu, 'w') as f:
                    for x in files: f.write('#include "%s"\n' % os.path.join(REPO, x))
                with ThreadPoolExecutor(8) as ex:
                    rs = list(ex.map(lambda flt: run_clang(tu, flt), filters))
                outs = [r[0] for r in rs]
                self.errors = rs[0][1] if rs[0][2] != 0 else ''
            finally:
                shutil.rmtree(td, ignore_errors=True)
            try:
                os.makedirs(CACHE, exist_ok=True)
                old = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE)), key=os.path.getmtime)
                for d in old[:-25]: shutil.rmtree(d, ignore_errors=True)
                tmp = cdir + '.%d' % os.getpid()
                os.makedirs(tmp)
                for i, o in enumerate(outs): open(os.path.join(tmp, '%d.json' % i), 'w').write(o)
                open(os.path.join(tmp, 'err'), 'w').write(self.errors)
                os.rename(tmp, cdir)
            except OSError:
                pass
        for flt, o in zip(filters, outs):
            for d in parse_many(o):
                if flt in GLOBALS:
                    # node addresses of these dumps differ from the others: keep them apart, link by name and type
                    if not self.global_template(d): continue
                    rename_ids(d)
                    for c in d['inner']:
                        if c and 'mangledName' in c: self.globals[c['name'], c['type']['qualType']] = c
                self.index(d, None, None)
        self.link()
        self.check_ids()
        self.enumerators()

    def enumerators(self):
        for d in self.decls.values():
            if d.get('kind') != 'EnumDecl': continue
            v = -1
            for c in d.get('inner', []):
                if not c or c.get('kind') != 'EnumConstantDecl': continue
                ci = [q for q in c.get('inner', []) if q and not q['kind'].endswith('Comment')]
                e = ci[0] if ci else None
                while e is not None and not str(e.get('value', '?')).lstrip('-').isdigit():
                    e = next((q for q in e.get('inner', []) if q), None)
                v = int(e['value']) if e is not None else (v + 1 if not ci else None)
                if v is None: break
                n = c['name']
                ENUMS[n] = v if ENUMS.get(n, v) == v else None

    def check_ids(self):
        """node ids come from several runs of the compiler: a reference whose name is not that of the node it leads to means they disagree"""
        seen = set()
        todo = [d for l in self.funcs.values() for d in l]
        while todo:
            x = todo.pop()
            for c in x.get('inner', []) or []:
                if c: todo.append(c)
            if x.get('kind') == 'DeclRefExpr':
                r = x.get('referencedDecl') or {}
                i, n, k = r.get('id'), r.get('name'), r.get('kind')
            elif x.get('kind') == 'MemberExpr': i, n, k = x.get('referencedMemberDecl'), x.get('name'), None
            else: continue
            d = self.decls.get(i)
            if d is not None and (d.get('name', '') != (n or '') or (k and k != d['kind'])):
                raise ExtractError('node ids of two extractions disagree: %s refers to %s' % (n, d.get('name')))

    @staticmethod
    def global_template(d):
        if d.get('kind') != 'FunctionTemplateDecl': return False
        n = d.get('name', '')
        return any(c and c.get('mangledName', '').startswith('_Z%d%sI' % (len(n), n)) for c in d.get('inner', []))

    def index(self, node, cls, enclosing):
        k = node.get('kind', '')
        i = node.get('id')
        if k.endswith('Decl') and i:
            if i in self.decls and not self.better(node, self.decls[i]): pass
            else: self.decls[i] = node
            if cls is not None: self.parent[i] = cls
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            name = node.get('name')
            if k == 'ClassTemplateSpecializationDecl':
                args = []
                for a in node.get('inner', []):
                    if a and a.get('kind') == 'TemplateArgument':
                        args.append(a.get('type', {}).get('qualType', str(a.get('value', '?'))))
                name = '%s<%s>' % (name, ', '.join(args))
            if node.get('completeDefinition') and name:
                self.records.setdefault(name, node)
            for c in node.get('inner', []):
                if c: self.index(c, name, node)
            return
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            for c in node.get('inner', []):
                if c:
                    c2 = c
                    if k == 'FunctionTemplateDecl' and c.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and 'mangledName' not in c:
                        self.decls[c['id']] = c
                        if cls is not None: self.parent[c['id']] = cls
                        continue
                    if k == 'ClassTemplateDecl' and c.get('kind') == 'CXXRecordDecl':
                        # the pattern: index only as template
                        self.records.setdefault('template ' + c.get('name', ''), c)
                        continue
                    self.index(c2, cls, node)
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            node['_cls'] = cls
            for c in node.get('inner', []):
                if c and c.get('kind') == 'ParmVarDecl': self.decls[c['id']] = c
            for c in node.get('inner', []):
                if c: self.index_locals(c)
            return
        for c in node.get('inner', []):
            if c: self.index(c, cls if k != 'NamespaceDecl' else None, node)

    def index_locals(self, node):
        st = [node]
        while st:
            x = st.pop()
            if x.get('kind', '').endswith('Decl') and 'id' in x:
                self.decls.setdefault(x['id'], x)
                if x['kind'] == 'CXXRecordDecl':
                    for c in x.get('inner', []):
                        if c and c.get('kind') == 'CXXMethodDecl':
                            c['_cls'] = x.get('name') or '(lambda)'
            for c in x.get('inner', []):
                if c: st.append(c)

    @staticmethod
    def body(node):
        for c in node.get('inner', []) or []:
            if c and c.get('kind') in ('CompoundStmt', 'CXXTryStmt'): return c
        return None

    def better(self, new, old):
        return self.body(new) is not None and self.body(old) is None

    def link(self):
        for i, d in list(self.decls.items()):
            if d['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                cls = d.get('_cls')
                if cls is None and 'parentDeclContextId' in d:
                    p = self.decls.get(d['parentDeclContextId'])
                    if p is not None and p['kind'] in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                        cls = p.get('name')
                    if cls is None and 'previousDecl' in d:
                        cls = self.parent.get(d['previousDecl']) or (self.decls.get(d['previousDecl']) or {}).get('_cls')
                    d['_cls'] = cls
                name = d.get('name', '')
                q = (cls + '::' + name) if cls else name
                d['_q'] = q
                m = d.get('mangledName')
                has = self.body(d) is not None or (d['kind'] == 'CXXConstructorDecl' and any(c and c.get('kind') == 'CXXCtorInitializer' for c in d.get('inner', [])))
                if has:
                    l = self.funcs.setdefault(q, [])
                    if not any(x.get('mangledName') == m and m for x in l): l.append(d)
                    if m: self.mangled.setdefault(m, d)
                else:
                    self.funcdecls.setdefault(q, []).append(d)
            elif d['kind'] == 'VarDecl':
                pass

    # ---- lookup ------------------------------------------------------------
    def definition(self, decl):
        """the definition for a (possibly forward) function declaration node"""
        if decl is None: return None
        if self.body(decl) is not None: return decl
        m = decl.get('mangledName')
        if m and m in self.mangled: return self.mangled[m]
        return None

    def find(self, q, nparams=None, pred=None):
        l = self.funcs.get(q, [])
        if nparams is not None: l = [f for f in l if len(params(f)) == nparams]
        if pred: l = [f for f in l if pred(f)]
        if len(l) != 1:
            raise ExtractError('%d definitions of %s' % (len(l), q))
        return l[0]

    def bases(self, cls):
        r = self.records.get(cls)
        if r is None: return []
        out = []
        for b in r.get('bases', []):
            t = b['type'].get('desugaredQualType') or b['type']['qualType']
            out.append(short(t))
        return out

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out: continue
            out.append(c)
            todo += self.bases(c)
        return out

    def fields(self, cls):
        out = []
        for c in self.mro(cls):
            r = self.records.get(c)
            if not r: continue
            for x in r.get('inner', []):
                if x and x.get('kind') == 'FieldDecl': out.append((c, x))
        return out

    def find_method(self, cls, name, nargs=None, const=None):
        """method looked up from the dynamic class upwards; None if only declared"""
        for c in self.mro(cls):
            l = self.funcs.get(c + '::' + name, [])
            if nargs is not None: l2 = [f for f in l if required(f) <= nargs <= len(params(f))]
            else: l2 = l
            if l2: return l2
        return []


def short(t):
    """class name without namespaces, keeping template args"""
    t = t.strip()
    for p in ('const ', 'class ', 'struct ', 'volatile '):
        while t.startswith(p): t = t[len(p):]
    t = t.rstrip(' &*')
    if t.endswith(' const'): t = t[:-6]
    m = re.match(r'((?:\w+::)*)(\w+)(<.*>)?$', t)
    if m:
        a = m.group(3) or ''
        if a: a = re.sub(r'([<,] ?)(?:\w+::)*(\w+)(?=[,>])', lambda q: q.group(1) + str(ENUMS[q.group(2)]) if ENUMS.get(q.group(2)) is not None else q.group(0), a)
        return m.group(2) + a
    return t


ENUMS = {}     # enumerator -> value, for template arguments


def params(f):
    return [c for c in f.get('inner', []) if c and c.get('kind') == 'ParmVarDecl']


def required(f):
    return len([p for p in params(f) if not p.get('init') and not p.get('inner')])


def ctor_inits(f):
    return [c for c in f.get('inner', []) if c and c.get('kind') == 'CXXCtorInitializer']

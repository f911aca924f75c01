"""Names exported by the installed libraries, read from their sources and stubs (nothing is imported)."""
import ast, os, glob, builtins, sys, warnings

SITES = [p for p in glob.glob('/opt/venv/lib/python3*/site-packages')]
STD = os.path.dirname(os.__file__)


class LibMod:
    """top-level surface of a library module: names -> node (or None), open=True when it cannot be listed"""
    def __init__(self, name):
        self.name, self.names, self.open, self.all = name, {}, False, None
        self.dir = None


class Libs:
    def __init__(self, sites=None):
        self.sites = (sites or SITES) + [STD]
        self.cache = {}
        self.text = {}

    def locate(self, name):
        rel = name.replace('.', '/')
        for s in self.sites:
            p = os.path.join(s, rel)
            if os.path.isdir(p) and (os.path.exists(p + '/__init__.py') or os.path.exists(p + '/__init__.pyi')):
                return 'pkg', p
            for ext in ('.pyi', '.py'):
                if os.path.exists(p + ext):
                    return 'file', p + ext
            if glob.glob(p + '.*.so') or glob.glob(p + '.so'):
                return 'so', p
        if '.' not in name and name in sys.builtin_module_names or '.' not in name and name in getattr(sys, 'stdlib_module_names', ()):
            return 'std', None
        return None, None

    def exists(self, name):
        return self.locate(name)[0] is not None

    def module(self, name):
        if name in self.cache:
            return self.cache[name]
        m = self.cache[name] = LibMod(name)
        kind, p = self.locate(name)
        if kind == 'std' or kind == 'so' and '.' not in name and name in sys.stdlib_module_names:
            import importlib
            try:
                for k in dir(importlib.import_module(name)):      # interpreter module without Python source
                    m.names[k] = None
            except ImportError:
                m.open = True
            return m
        if kind is None or kind == 'so':
            m.open = True
            return m
        files = []
        if kind == 'pkg':
            m.dir = p
            if os.path.exists(p + '/__init__.pyi'):
                files = [p + '/__init__.pyi'] + ([p + '/__init__.py'] if os.path.exists(p + '/__init__.py') else [])
            else:
                files = [p + '/__init__.py']
            for f in os.listdir(p):
                b = f.split('.')[0]
                if f.endswith(('.py', '.pyi', '.so')) and b != '__init__':
                    m.names.setdefault(b, ('submodule', name + '.' + b))
                elif os.path.isdir(os.path.join(p, f)) and os.path.exists(os.path.join(p, f, '__init__.py')):
                    m.names.setdefault(f, ('submodule', name + '.' + f))
        else:
            files = [p] + ([p[:-1]] if p.endswith('.pyi') and os.path.exists(p[:-1]) else [])
        for f in files:
            before = dict(m.names)
            self.scan(m, f, kind == 'pkg')
            if len(files) > 1 and f is files[-1]:       # the stub is authoritative; the source only adds names
                m.open = False
                for k in list(m.names):                  # aliases of builtins imported for internal use only (np.int, np.float, ...)
                    if k not in before and hasattr(builtins, k) and m.names[k] is not None and not isinstance(m.names[k], list):
                        del m.names[k]
                m.names.update({k: v for k, v in before.items() if v is not None})
        return m

    def scan(self, m, f, pkg):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(open(f, encoding='utf8').read())
        except (SyntaxError, UnicodeDecodeError):
            m.open = True
            return
        stub = f.endswith('.pyi')

        def body(stmts):
            for n in stmts:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    if n.name == '__getattr__' and not stub:
                        m.open = True
                    prev = m.names.get(n.name)
                    if isinstance(prev, list) and isinstance(n, ast.FunctionDef):
                        prev.append(n)
                    else:
                        m.names[n.name] = [n] if isinstance(n, ast.FunctionDef) else n
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        if stub and a.asname is None:
                            continue
                        m.names.setdefault(a.asname or a.name.split('.')[0], ('module', a.name if a.asname else a.name.split('.')[0]))
                elif isinstance(n, ast.ImportFrom):
                    base = n.module or ''
                    if n.level:
                        parts = m.name.split('.')
                        if not pkg:
                            parts = parts[:-1]
                        parts = parts[:len(parts) - (n.level - 1)]
                        base = '.'.join(parts + ([n.module] if n.module else []))
                    for a in n.names:
                        if a.name == '*':
                            sub = self.module(base)
                            if sub.open:
                                m.open = True
                            for k, v in sub.names.items():
                                if sub.all is not None and k not in sub.all and not isinstance(v, tuple):
                                    continue
                                if sub.all is None and k.startswith('_'):
                                    continue
                                if isinstance(v, tuple) and v[0] == 'submodule' and (sub.all is None or k not in sub.all):
                                    continue
                                m.names[k] = v
                        else:
                            if stub and (a.asname is None or a.asname != a.name) and not (a.asname and not a.asname.startswith('_')):
                                continue
                            m.names[a.asname or a.name] = ('from', base, a.name)
                elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name):
                                if x.id == '__all__':
                                    try:
                                        v = ast.literal_eval(n.value)
                                        m.all = set(v) | (m.all or set() if isinstance(n, ast.AugAssign) else set())
                                    except Exception:
                                        m.all, m.all_open = None, True
                                    if getattr(m, 'all_open', False):
                                        m.all = None
                                else:
                                    m.names[x.id] = None
                elif isinstance(n, (ast.If, ast.Try, ast.With)):
                    for k in ('body', 'orelse', 'finalbody'):
                        body(getattr(n, k, []) or [])
                    for h in getattr(n, 'handlers', []):
                        body(h.body)
                elif isinstance(n, (ast.For, ast.While)):
                    m.open = True
                elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                    s = ast.dump(n.value)
                    if 'globals' in s or 'setattr' in s:
                        m.open = True
                elif isinstance(n, ast.Delete):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            m.names.pop(t.id, None)
        body(tree.body)

    def resolve(self, mod, name, depth=0):
        """node of a name: AST node | ('module', m) | 'missing' | None (exists, unknown)"""
        m = self.module(mod)
        if name not in m.names:
            if self.exists(mod + '.' + name):
                return ('module', mod + '.' + name)
            return None if m.open else 'missing'
        v = m.names[name]
        if isinstance(v, tuple):
            if v[0] in ('submodule', 'module'):
                return ('module', v[1])
            if depth > 12:
                return None
            if v[1] == mod and v[2] == name:
                return ('module', mod + '.' + name) if self.exists(mod + '.' + name) else None
            r = self.resolve(v[1], v[2], depth + 1)
            return None if r == 'missing' else r
        if isinstance(v, ast.ClassDef):
            return (v, mod)
        return v

    def mentions(self, name, packages):
        """does the identifier occur anywhere in the sources of the packages?"""
        import re
        rx = re.compile(r'(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])' % re.escape(name))
        for pk in packages:
            if pk not in self.text:
                parts = []
                for s in self.sites:
                    p = os.path.join(s, pk)
                    fs = glob.glob(p + '.py') + [os.path.join(d, f) for d, _, ff in os.walk(p) if 'tests' not in d for f in ff if f.endswith(('.py', '.pyi'))]
                    for f in fs:
                        try:
                            parts.append(open(f, encoding='utf8').read())
                        except Exception:
                            pass
                    if parts:
                        break
                self.text[pk] = '\n'.join(parts)
            if rx.search(self.text[pk]):
                return True
        return False

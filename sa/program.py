"""Loads the package's sources (syntax trees only; nothing is imported or executed)."""
import ast, os, hashlib, warnings

REPO = os.environ.get('VERIF_REPO', '/repo')


def _parse(src, path):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return ast.parse(src, path)


class Mod:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = _parse(src, path)
        self.is_pkg = path.endswith('__init__.py')
        self.rel = os.path.relpath(path, REPO)


class Program:
    def __init__(self, root=None, package='aideme'):
        self.root = root or REPO
        self.mods = {}
        self.errors = []
        base = os.path.join(self.root, package)
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                try:
                    self.mods[rel] = Mod(rel, p, open(p, encoding='utf8').read())
                except SyntaxError as e:
                    self.errors.append((p, str(e)))
        self.native = {}
        for dp, dn, fn in os.walk(base):
            for f in fn:
                if f.endswith('.pyx'):
                    p = os.path.join(dp, f)
                    self.native[os.path.relpath(p, self.root)[:-4].replace(os.sep, '.')] = p

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.mods):
            h.update(n.encode() + b'\0' + self.mods[n].src.encode() + b'\0')
        return h.hexdigest()[:16]

    def resolve_from(self, mod, node):
        """absolute module name of an ImportFrom"""
        if node.level == 0:
            return node.module
        base = mod.name.split('.')
        if not mod.is_pkg:
            base = base[:-1]
        base = base[:len(base) - (node.level - 1)]
        return '.'.join(base + ([node.module] if node.module else []))

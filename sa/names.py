"""Name, attribute and signature resolution over the whole package (C01): a type-directed lint on the syntax trees.

Types are inferred from constructors, annotations and assignments; whatever cannot be inferred is never reported."""
import ast, builtins, symtable, warnings, sys
from .program import Program
from .libs import Libs

OBJ = set(dir(object)) | {'__dict__', '__name__', '__qualname__', '__module__', '__annotations__', '__wrapped__'}
BUILT = set()
for _t in (list, dict, set, frozenset, str, bytes, int, float, complex, bool, tuple, range, slice, type, Exception, property, type(lambda: 0), type((x for x in ())), memoryview):
    BUILT |= set(dir(_t))
for _n in ('args', 'errno', 'strerror', 'filename'):
    BUILT.add(_n)
SAFEBASE = {'ABC', 'object', 'Exception', 'ValueError', 'RuntimeError', 'Generic', 'Protocol', 'NamedTuple'}


class Cls:
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node
        self.bases, self.subs, self.methods, self.cattrs, self.iattrs = [], set(), {}, {}, {}
        self.open = False
        self.kind = {}
        self.setters = {}
        self.enum = False

    def __repr__(self):
        return self.name


class Fn:
    def __init__(self, node, mod, cls=None):
        self.node, self.mod, self.cls = node, mod, cls
        self.qual = '%s:%s' % (mod.name, (cls.name + '.' if cls else '') + node.name)


def mangle(name, cls):
    if name.startswith('__') and not name.endswith('__') and cls:
        return '_' + cls.name.lstrip('_') + name
    return name


def decorators(node):
    out = []
    for d in node.decorator_list:
        x = d.func if isinstance(d, ast.Call) else d
        out.append(x.attr if isinstance(x, ast.Attribute) else getattr(x, 'id', '?'))
    return out


class World:
    def __init__(self):
        self.prog = Program()
        self.libs = Libs()
        self.out = []           # (rule, construct, status, msg, where)
        self.counts = {}
        self.top = {m: {} for m in self.prog.mods}      # module -> name -> binding
        self.classes = []
        for m in self.prog.mods.values():
            self.collect(m)
        for m in self.prog.mods.values():
            self.link(m)
        self.fix_stars()
        self.hierarchy()
        self.members()
        self.attr_names = set()
        for c in self.classes:
            self.attr_names |= set(c.methods) | set(c.cattrs) | set(c.iattrs)
        for m in self.prog.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.attr_names.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.attr_names.add(n.name)

    # ------------------------------------------------------------ reporting
    def count(self, rule, n=1):
        self.counts[rule] = self.counts.get(rule, 0) + n

    def bad(self, rule, construct, msg, mod, node):
        self.out.append((rule, construct, msg, '%s:%d' % (mod.rel, getattr(node, 'lineno', 0))))

    # ------------------------------------------------------------ module scopes
    def collect(self, mod):
        top = self.top[mod.name]
        mod.star, mod.future = [], False
        mod.imports = []        # (node, alias) executed at module level

        def body(stmts, tc=False):
            for n in stmts:
                if isinstance(n, ast.ClassDef):
                    c = Cls(n.name, mod, n)
                    self.classes.append(c)
                    top[n.name] = ('class', c)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    top[n.name] = ('func', Fn(n, mod))
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    self.bind_import(mod, n, top, tc)
                elif isinstance(n, ast.If):
                    t = n.test
                    istc = isinstance(t, ast.Name) and t.id == 'TYPE_CHECKING' or isinstance(t, ast.Attribute) and t.attr == 'TYPE_CHECKING'
                    body(n.body, tc or istc)
                    body(n.orelse, tc)
                elif isinstance(n, (ast.Try, ast.With, ast.For, ast.While)):
                    if isinstance(n, ast.For):
                        self.bind_target(top, n.target, None)
                    if isinstance(n, ast.With):
                        for w in n.items:
                            if w.optional_vars:
                                self.bind_target(top, w.optional_vars, None)
                    for k in ('body', 'orelse', 'finalbody'):
                        body(getattr(n, k, []) or [], tc)
                    for h in getattr(n, 'handlers', []):
                        if h.name:
                            top[h.name] = ('var', None)
                        body(h.body, tc)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        self.bind_target(top, t, n.value)
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    self.bind_target(top, n.target, n.value)
                elif isinstance(n, ast.AugAssign):
                    self.bind_target(top, n.target, None)
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        self.bind_target(top, x.target, None)
        body(mod.tree.body)
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    top.setdefault(x, ('var', None))

    def bind_target(self, top, t, v):
        if isinstance(t, ast.Name):
            top[t.id] = ('var', v if t.id not in top else None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.bind_target(top, e, None)
        elif isinstance(t, ast.Starred):
            self.bind_target(top, t.value, None)

    def bind_import(self, mod, n, top, tc):
        if isinstance(n, ast.Import):
            for a in n.names:
                top[a.asname or a.name.split('.')[0]] = ('modref', a.name if a.asname else a.name.split('.')[0], tc)
        else:
            base = self.prog.resolve_from(mod, n)
            if base == '__future__':
                return
            for a in n.names:
                if a.name == '*':
                    mod.star.append(base)
                else:
                    top[a.asname or a.name] = ('from', base, a.name, tc)

    def link(self, mod):
        pass

    def fix_stars(self):
        for _ in range(6):
            for m in self.prog.mods.values():
                for base in m.star:
                    if base in self.top:
                        for k, v in list(self.top[base].items()):
                            if not k.startswith('_') and k not in self.top[m.name]:
                                self.top[m.name][k] = ('from', base, k, False)

    def inmod(self, name):
        return name in self.prog.mods or name in self.prog.native or any(m.startswith(name + '.') for m in self.prog.mods)

    def lookup(self, modname, name, depth=0):
        """binding of a module-level name, through imports.  ('missing',) when it does not exist, None when unknown"""
        if depth > 15:
            return None
        if modname in self.prog.mods:
            b = self.top[modname].get(name)
            if b is None:
                if self.inmod(modname + '.' + name):
                    return ('mod', modname + '.' + name)
                if name in ('__name__', '__file__', '__doc__', '__all__', '__package__', '__path__'):
                    return ('var', None)
                if any(s not in self.top for s in self.prog.mods[modname].star):
                    return None
                return ('missing',)
            if b[0] == 'modref':
                return ('mod', b[1])
            if b[0] == 'from':
                return self.lookup(b[1], b[2], depth + 1)
            return b
        if modname in self.prog.native:
            src = open(self.prog.native[modname]).read()
            import re
            return ('native', name) if re.search(r'^(?:def|cpdef|class)\b[^\n]*?\b%s\s*\(' % re.escape(name), src, re.M) else ('missing',)
        if self.inmod(modname):
            return ('mod', modname + '.' + name) if self.inmod(modname + '.' + name) else ('missing',)
        if not self.libs.exists(modname):
            return None
        r = self.libs.resolve(modname, name)
        if r == 'missing':
            return ('missing',)
        if isinstance(r, tuple) and r[0] == 'module':
            return ('mod', r[1])
        return ('lib', modname, name, r)

    # ------------------------------------------------------------ classes
    def hierarchy(self):
        for c in self.classes:
            for b in c.node.bases:
                x = b.value if isinstance(b, ast.Subscript) else b
                t = None
                if isinstance(x, ast.Name):
                    t = self.lookup(c.mod.name, x.id)
                    if x.id == 'Enum':
                        c.enum = True
                elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                    m = self.lookup(c.mod.name, x.value.id)
                    if m and m[0] == 'mod':
                        t = self.lookup(m[1], x.attr)
                    if x.attr == 'Enum':
                        c.enum = True
                if t and t[0] == 'class':
                    c.bases.append(t[1])
                else:
                    nm = x.id if isinstance(x, ast.Name) else getattr(x, 'attr', '')
                    if nm not in SAFEBASE and nm != 'Enum':
                        c.open = True
        for c in self.classes:
            c.mro = self.mro(c)
            c.isopen = any(k.open for k in c.mro)
            c.isenum = any(k.enum for k in c.mro)
            for k in c.mro:
                k.subs.add(c)

    def mro(self, c):
        def merge(seqs):
            r = []
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    return r
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                r.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
        return [c] + merge([self.mro(b) for b in c.bases] + [list(c.bases)])

    def members(self):
        for c in self.classes:
            for n in c.node.body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    ds = decorators(n)
                    nm = mangle(n.name, c)
                    if 'setter' in ds or 'deleter' in ds:
                        c.kind.setdefault(nm, 'property')
                        if 'setter' in ds:
                            c.setters[nm] = Fn(n, c.mod, c)
                        continue
                    c.methods[nm] = Fn(n, c.mod, c)
                    c.kind[nm] = 'static' if 'staticmethod' in ds else 'class' if 'classmethod' in ds else 'property' if any('property' in d for d in ds) else 'other' if ds and not set(ds) <= {'abstractmethod', 'wraps'} else 'method'
                    if n.name in ('__getattr__', '__getattribute__'):
                        c.open = True
                elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name):
                                c.cattrs[mangle(x.id, c)] = n.value
                                if isinstance(n, ast.AnnAssign):
                                    c.iattrs.setdefault(mangle(x.id, c), []).append(('ann', n.annotation, None))
                elif isinstance(n, ast.ClassDef):
                    c.cattrs[n.name] = None
            for n in ast.walk(c.node):
                if isinstance(n, ast.FunctionDef) and n.args.args:
                    me = n.args.args[0].arg
                    for x in ast.walk(n):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == me:
                            c.open = True
                        if isinstance(x, ast.Attribute) and x.attr == '__dict__' and isinstance(x.value, ast.Name) and x.value.id == me:
                            c.dynamic = True
                            if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == 'update' and y.func.value is x for y in ast.walk(n)):
                                pass        # restoring state: checked by C31
                        if isinstance(x, ast.Assign):
                            for t in x.targets:
                                self.selfstore(c, n, me, t, x.value)
                        elif isinstance(x, ast.AnnAssign):
                            if isinstance(x.target, ast.Attribute) and isinstance(x.target.value, ast.Name) and x.target.value.id == me:
                                c.iattrs.setdefault(mangle(x.target.attr, c), []).append(('ann', x.annotation, n))
                        elif isinstance(x, (ast.AugAssign, ast.For)):
                            self.selfstore(c, n, me, x.target, None)
                        elif isinstance(x, ast.With):
                            for w in x.items:
                                if w.optional_vars is not None:
                                    self.selfstore(c, n, me, w.optional_vars, None)
        for c in self.classes:
            c.isopen = any(k.open for k in c.mro)

    def selfstore(self, c, fn, me, t, v):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
            for e, w in zip(t.elts, vs):
                self.selfstore(c, fn, me, e, w)
        elif isinstance(t, ast.Starred):
            self.selfstore(c, fn, me, t.value, None)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
            c.iattrs.setdefault(mangle(t.attr, c), []).append(('val', v, fn))

    def find(self, c, name):
        """('method', Fn, kind) | ('cattr', expr) | ('iattr', [...]) | None along the MRO"""
        for k in c.mro:
            if name in k.methods:
                return ('method', k.methods[name], k.kind.get(name), k)
            if name in k.cattrs:
                return ('cattr', k.cattrs[name], k)
        its = [(x, k) for k in c.mro for x in k.iattrs.get(name, [])]
        if its:
            return ('iattr', its)
        return None

    def known_attr(self, c, name):
        """may an object declared as c have this attribute?"""
        if name in OBJ or c.isopen:
            return True
        if c.isenum and name in ('name', 'value', '_value_', '_name_'):
            return True
        for s in c.subs:
            if s.isopen:
                return True
            if self.find(s, name):
                return True
        return False

    # ------------------------------------------------------------ types
    def ann(self, a, mod, depth=0):
        """type of an annotation"""
        if a is None or depth > 6:
            return None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                return self.ann(ast.parse(a.value, mode='eval').body, mod, depth + 1)
            except SyntaxError:
                return None
        if isinstance(a, ast.Name):
            b = self.lookup(mod.name, a.id)
            if b and b[0] == 'class':
                return ('inst', frozenset([b[1]]))
            if b and b[0] == 'lib' and isinstance(b[3], tuple):
                return None
            return None
        if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name):
            b = self.lookup(mod.name, a.value.id)
            if b and b[0] == 'mod':
                r = self.lookup(b[1], a.attr)
                if r and r[0] == 'class':
                    return ('inst', frozenset([r[1]]))
            return None
        if isinstance(a, ast.Subscript):
            h = a.value.id if isinstance(a.value, ast.Name) else getattr(a.value, 'attr', '')
            sl = a.slice
            if h == 'Optional':
                return self.ann(sl, mod, depth + 1)
            if h in ('List', 'Sequence', 'Iterable', 'list', 'Set', 'Collection', 'Iterator', 'Generator'):
                e = sl.elts[0] if isinstance(sl, ast.Tuple) else sl
                t = self.ann(e, mod, depth + 1)
                return ('list', t) if t else None
            if h == 'Union' and isinstance(sl, ast.Tuple):
                return self.union([self.ann(e, mod, depth + 1) for e in sl.elts if not (isinstance(e, ast.Constant) and e.value is None)])
            if h in ('Tuple', 'tuple') and isinstance(sl, ast.Tuple):
                return ('tuple', tuple(self.ann(e, mod, depth + 1) for e in sl.elts))
            if h == 'Type':
                t = self.ann(sl, mod, depth + 1)
                return None
        return None

    def union(self, ts):
        cs = set()
        for t in ts:
            if t is None:
                return None
            if t[0] == 'none':
                continue
            if t[0] != 'inst':
                r = [x for x in ts if x and x[0] != 'none']
                return r[0] if all(x == r[0] for x in r) else None
            cs |= t[1]
        return ('inst', frozenset(cs)) if cs else None

    def attr_type(self, t, name, ctxcls=None, depth=0):
        if t is None or depth > 8:
            return None
        if t[0] == 'mod':
            b = self.lookup(t[1], name)
            return self.binding_type(b, depth)
        if t[0] == 'inst':
            rs = []
            for c in t[1]:
                f = self.find(c, name)
                if f is None:
                    return None
                rs.append(self.member_type(f, c, depth))
            r0 = rs[0]
            if all(r is not None and r[0] in ('inst', 'none') for r in rs):
                return self.union(rs)
            return r0 if all(r == r0 for r in rs) else None
        if t[0] == 'cls':
            f = self.find(t[1], name)
            if f and f[0] == 'method':
                return ('bound', f[1], t, 'unbound' if f[2] in ('method', 'other') else f[2])
            return None
        if t[0] == 'super':
            mro = t[1].mro
            k = mro.index(t[2]) + 1 if t[2] in mro else 0
            for x in mro[k:]:
                if name in x.methods:
                    return ('bound', x.methods[name], ('inst', frozenset([t[1]])), x.kind.get(name))
            return None
        return None

    def member_type(self, f, c, depth):
        if f[0] == 'method':
            fn, kind = f[1], f[2]
            if kind == 'property':
                return self.ann(fn.node.returns, fn.mod) or self.return_type(fn, c, depth + 1)
            return ('bound', fn, ('inst', frozenset([c])), kind)
        if f[0] == 'cattr':
            return None
        ts = []
        for (k, v, fn), owner in f[1]:
            if k == 'ann':
                return self.ann(v, owner.mod)
            if v is None:
                return None
            if isinstance(v, ast.Constant) and v.value is None:
                ts.append(('none',))
                continue
            ts.append(self.typ(v, self.env(Fn(fn, owner.mod, owner), c, depth + 1), owner.mod, owner, depth + 1) if fn else None)
        return self.union(ts)

    def return_type(self, fn, c, depth):
        if depth > 5:
            return None
        rets = [n for n in walk_own(fn.node) if isinstance(n, ast.Return) and n.value is not None]
        if len(rets) != 1:
            return None
        return self.typ(rets[0].value, self.env(fn, c, depth + 1), fn.mod, fn.cls, depth + 1)

    def binding_type(self, b, depth=0):
        if b is None:
            return None
        if b[0] == 'class':
            return ('cls', b[1])
        if b[0] == 'func':
            return ('bound', b[1], None, 'static')
        if b[0] == 'mod':
            return ('mod', b[1])
        if b[0] == 'lib':
            return b
        return None

    _envs = None

    def env(self, fn, c, depth=0):
        """flow-insensitive types of the locals of fn (self being an instance of c)"""
        if depth > 6:
            return {}
        if self._envs is None:
            self._envs = {}
        key = (id(fn.node), c.name if c else None)
        if key in self._envs:
            return self._envs[key]
        e = self._envs[key] = {}
        a = fn.node.args
        ps = a.posonlyargs + a.args + a.kwonlyargs
        ds = decorators(fn.node)
        for i, p in enumerate(ps):
            if i == 0 and fn.cls and 'staticmethod' not in ds and a.args:
                e[p.arg] = ('cls', c or fn.cls) if 'classmethod' in ds else ('inst', frozenset([c or fn.cls]))
            else:
                e[p.arg] = self.ann(p.annotation, fn.mod)
                if p.annotation is None and fn.cls and not a.kwonlyargs:      # an override takes what the overridden method declares
                    for k in fn.cls.mro[1:]:
                        g = k.methods.get(fn.node.name)
                        if g and i < len(g.node.args.args) and g.node.args.args[i].annotation is not None:
                            e[p.arg] = self.ann(g.node.args.args[i].annotation, g.mod)
                            break
        for p in (a.vararg, a.kwarg):
            if p:
                e[p.arg] = None
        vals = {}

        def tgt(t, v, kind='val'):
            if isinstance(t, ast.Name):
                vals.setdefault(t.id, []).append((kind, v))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for i, x in enumerate(t.elts):
                    if kind == 'val' and isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                        tgt(x, v.elts[i])
                    else:
                        tgt(x, (i, v, kind), 'item')
            elif isinstance(t, ast.Starred):
                tgt(t.value, None)
        for n in walk_own(fn.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t, n.value)
            elif isinstance(n, ast.AnnAssign):
                if isinstance(n.target, ast.Name):
                    vals.setdefault(n.target.id, []).append(('ann', n.annotation))
            elif isinstance(n, ast.AugAssign):
                tgt(n.target, None)
            elif isinstance(n, (ast.For, ast.comprehension)):
                tgt(n.target, n.iter, 'iter')
            elif isinstance(n, ast.With):
                for w in n.items:
                    if w.optional_vars is not None:
                        tgt(w.optional_vars, None)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                vals.setdefault(n.name, []).append(('val', None))
            elif isinstance(n, ast.NamedExpr):
                tgt(n.target, n.value)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn.node:
                vals.setdefault(n.name, []).append(('val', None))
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                top = {}
                self.bind_import(fn.mod, n, top, False) if not (isinstance(n, ast.ImportFrom) and any(x.name == '*' for x in n.names)) else None
                for k, b in top.items():
                    r = self.lookup(b[1], b[2]) if b[0] == 'from' else ('mod', b[1])
                    vals.setdefault(k, []).append(('type', self.binding_type(r)))
        order = list(vals)
        for rnd in range(2):
            for nm in order:
                ts = [e[nm]] if nm in {p.arg for p in ps} and rnd == 0 else ([e.get('$p' + nm)] if '$p' + nm in e else [])
                if rnd == 0 and nm in {p.arg for p in ps}:
                    e['$p' + nm] = e[nm]
                for kind, v in vals[nm]:
                    ts.append(self.valtype(kind, v, e, fn, depth))
                e[nm] = self.union(ts) if len(ts) > 1 else ts[0]
        return e

    def valtype(self, kind, v, e, fn, depth):
        if kind == 'type':
            return v
        if kind == 'ann':
            return self.ann(v, fn.mod)
        if v is None:
            return None
        if kind == 'val':
            if isinstance(v, ast.Constant) and v.value is None:
                return ('none',)
            return self.typ(v, e, fn.mod, fn.cls, depth + 1)
        if kind == 'iter':
            t = self.typ(v, e, fn.mod, fn.cls, depth + 1)
            if t and t[0] == 'list':
                return t[1]
            return None
        if kind == 'item':
            i, src, k2 = v
            if k2 == 'iter' and isinstance(src, ast.Call) and isinstance(src.func, ast.Name):
                if src.func.id == 'enumerate' and i == 1 and src.args:
                    return self.valtype('iter', src.args[0], e, fn, depth)
                if src.func.id == 'zip' and i < len(src.args):
                    return self.valtype('iter', src.args[i], e, fn, depth)
                return None
            if k2 == 'val':
                t = self.typ(src, e, fn.mod, fn.cls, depth + 1) if src is not None else None
                if t and t[0] == 'tuple' and i < len(t[1]):
                    return t[1][i]
            return None

    def typ(self, x, e, mod, cls, depth=0):
        if depth > 10:
            return None
        if isinstance(x, ast.Name):
            if x.id in e:
                return e[x.id]
            b = self.lookup(mod.name, x.id)
            if b and b[0] == 'var' and b[1] is not None:
                return self.typ(b[1], {}, mod, None, depth + 1)
            if b == ('missing',) or b is None:
                return None
            return self.binding_type(b, depth)
        if isinstance(x, ast.Attribute):
            t = self.typ(x.value, e, mod, cls, depth + 1)
            return self.attr_type(t, mangle(x.attr, cls), cls, depth + 1)
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Name) and x.func.id == 'super' and not x.args and cls is not None:
                s = next((v for k, v in e.items() if v and v[0] == 'inst' and any(cls in c.mro for c in v[1])), None)
                c = next(iter(s[1])) if s and len(s[1]) == 1 else cls
                return ('super', c if cls in c.mro else cls, cls)
            f = self.typ(x.func, e, mod, cls, depth + 1)
            if f is None:
                return None
            if f[0] == 'cls':
                return ('inst', frozenset([f[1]]))
            if f[0] == 'bound':
                r = f[1].node.returns
                return self.ann(r, f[1].mod)
            return None
        if isinstance(x, ast.IfExp):
            return self.union([('none',) if isinstance(b, ast.Constant) and b.value is None else self.typ(b, e, mod, cls, depth + 1) for b in (x.body, x.orelse)])
        if isinstance(x, (ast.List, ast.ListComp)):
            if isinstance(x, ast.List):
                t = self.union([self.typ(y, e, mod, cls, depth + 1) for y in x.elts]) if x.elts else None
            else:
                t = self.typ(x.elt, e, mod, cls, depth + 1)
            return ('list', t) if t and t[0] == 'inst' else None
        if isinstance(x, ast.Subscript):
            t = self.typ(x.value, e, mod, cls, depth + 1)
            if t and t[0] == 'list':
                return t if isinstance(x.slice, ast.Slice) else t[1]
            if t and t[0] == 'tuple' and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, int) and x.slice.value < len(t[1]):
                return t[1][x.slice.value]
            if t and t[0] == 'inst' and len(t[1]) == 1:
                f = self.find(next(iter(t[1])), '__getitem__')
                if f and f[0] == 'method':
                    return self.ann(f[1].node.returns, f[1].mod)
            return None
        if isinstance(x, ast.BoolOp):
            return self.union([self.typ(y, e, mod, cls, depth + 1) for y in x.values])
        return None

    # ------------------------------------------------------------ rules
    def functions(self):
        """every function with its enclosing class (nested functions come with their outer function's environment)"""
        for m in self.prog.mods.values():
            def go(body, cls, outer):
                for n in body:
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield Fn(n, m, cls if outer is None else None), cls, outer
                        yield from go_in(n, cls, (outer or ()) + (Fn(n, m, cls if outer is None else None),))
                    elif isinstance(n, ast.ClassDef):
                        b = self.top[m.name].get(n.name)
                        c = b[1] if b and b[0] == 'class' else None
                        yield from go(n.body, c, None)
                    elif hasattr(n, 'body') and isinstance(n.body, list):
                        for k in ('body', 'orelse', 'finalbody'):
                            yield from go(getattr(n, k, []) or [], cls, outer)

            def go_in(f, cls, outer):
                for n in walk_own(f):
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not f:
                        yield Fn(n, m), cls, outer
                        yield from go_in(n, cls, outer + (Fn(n, m),))
            yield from go(m.tree.body, None, None)

    def run(self):
        for p, e in self.prog.errors:
            self.out.append(('every module parses', p, e, p))
        self.check_imports()
        self.check_globals()
        for fn, cls, outer in self.functions():
            self.check_function(fn, cls, outer)
        self.check_module_level()
        for c in self.classes:
            self.check_init_order(c)
        return self.out

    def check_imports(self):
        rule = 'imported names exist'
        for m in self.prog.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom):
                    base = self.prog.resolve_from(m, n)
                    if base == '__future__':
                        continue
                    if not self.inmod(base) and not self.libs.exists(base):
                        root = base.split('.')[0]
                        if self.libs.exists(root) or root == 'aideme':
                            self.bad(rule, '%s: %s' % (m.name, base), 'module %s does not exist' % base, m, n)
                        continue
                    for a in n.names:
                        if a.name == '*':
                            continue
                        self.count(rule)
                        b = self.lookup(base, a.name)
                        if b == ('missing',):
                            self.bad(rule, '%s: %s.%s' % (m.name, base, a.name), '%s has no name %s' % (base, a.name), m, n)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        self.count(rule)
                        root = a.name.split('.')[0]
                        if not self.inmod(a.name) and not self.libs.exists(a.name) and (self.libs.exists(root) or root == 'aideme'):
                            self.bad(rule, '%s: %s' % (m.name, a.name), 'module %s does not exist' % a.name, m, n)

    def check_globals(self):
        rule = 'names used in functions are defined'
        for m in self.prog.mods.values():
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    st = symtable.symtable(m.src, m.path, 'exec')
            except SyntaxError:
                continue
            top = self.top[m.name]
            tconly = {k for k, b in top.items() if b[0] in ('from', 'modref') and b[-1] is True}
            openstar = any(s not in self.top for s in m.star)
            uses = {}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    uses.setdefault(n.id, n)

            def rec(t, qual):
                for s in t.get_symbols():
                    if t.get_type() == 'module':
                        glob = s.is_referenced() and not s.is_assigned() and not s.is_imported() and not s.is_namespace()
                    else:
                        glob = s.is_referenced() and s.is_global()
                    if glob:
                        nm = s.get_name()
                        self.count(rule)
                        if nm.startswith('_') and '__' in nm[1:]:
                            continue
                        if (nm not in top or nm in tconly) and not hasattr(builtins, nm) and not openstar and nm not in ('__file__', '__name__', '__path__', '__class__'):
                            self.bad(rule, '%s:%s %s' % (m.name, qual, nm), 'name %s is not defined%s' % (nm, ' at run time (imported for type checking only)' if nm in tconly else ''), m, uses.get(nm, m.tree))
                for ch in t.get_children():
                    if ch.get_type() in ('annotation',):
                        continue
                    rec(ch, (qual + '.' if qual else '') + ch.get_name())
            rec(st, '')

    # -- one function
    def check_function(self, fn, cls, outer):
        classes = [None] if cls is None else self.concrete(cls, fn)
        for c in classes:
            e = {}
            for o in (outer or ()):
                e.update(self.env(o, c))
            if outer:
                e = dict(e)
                inner = self.env(Fn(fn.node, fn.mod, None), None)
                e.update(inner)
            else:
                e = self.env(fn, c)
            self.check_body(fn.node, e, fn.mod, cls, fn.qual if not outer else outer[0].qual, c)
        self.check_locals(fn)

    def concrete(self, cls, fn):
        """classes whose instances execute fn (itself, and subclasses)"""
        return sorted(cls.subs, key=lambda c: (c is not cls, c.name))

    def guarded(self, node):
        """attribute names tested with hasattr / getattr, or within try: ... except AttributeError"""
        g = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
                g.add(n.args[1].value)
            if isinstance(n, ast.Try) and any(h.type is None or 'AttributeError' in ast.dump(h.type) or "'Exception'" in ast.dump(h.type) for h in n.handlers):
                for s in n.body:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Attribute):
                            g.add(x.attr)
        return g

    def check_body(self, node, e, mod, cls, qual, c):
        g = self.guarded(node)
        calls = {}
        for n in walk_own(node):
            if isinstance(n, ast.Attribute):
                self.check_attr(n, e, mod, cls, qual, c, g)
            elif isinstance(n, ast.Call):
                self.check_call(n, e, mod, cls, qual, c)

    def check_attr(self, n, e, mod, cls, qual, c, g):
        t = self.typ(n.value, e, mod, cls)
        name = mangle(n.attr, cls)
        if isinstance(n.ctx, ast.Store):
            return
        if n.attr in g:
            return
        if t is None:
            if c is None or c is cls:
                self.lenient_attr(n, name, mod, qual, n.value, e)
            return
        if t[0] == 'mod':
            rule = 'module attributes exist'
            self.count(rule)
            if self.lookup(t[1], name) == ('missing',):
                self.bad(rule, '%s %s.%s' % (qual, t[1], n.attr), 'module %s has no attribute %s' % (t[1], n.attr), mod, n)
            return
        if t[0] == 'inst':
            rule = 'attributes of the package\'s objects exist'
            self.count(rule)
            isself = isinstance(n.value, ast.Name) and c is not None and t[1] == frozenset([c])
            if isself and c is not cls:
                # inherited code run by a subclass: abstract parents are allowed to miss what subclasses provide
                if not c.isopen and name not in OBJ and not any(self.find(s, name) for s in c.subs) and not (c.isenum and name in ('name', 'value')):
                    if not self.abstract(c):
                        self.bad(rule, '%s self.%s' % (qual, n.attr), 'objects of class %s have no attribute %s' % (c.name, n.attr), mod, n)
                return
            for k in t[1]:
                if self.known_attr(k, name):
                    return
            if not (isself and self.abstract_any(t[1])):
                self.bad(rule, '%s: %s.%s' % (mod.name, '/'.join(sorted(k.name for k in t[1])), n.attr), 'objects of class %s have no attribute %s (read in %s)' % ('/'.join(sorted(k.name for k in t[1])), n.attr, qual), mod, n)
            elif not any(self.known_attr(k, name) for k in t[1]):
                self.bad(rule, '%s: %s.%s' % (mod.name, '/'.join(sorted(k.name for k in t[1])), n.attr), 'objects of class %s have no attribute %s (read in %s)' % ('/'.join(sorted(k.name for k in t[1])), n.attr, qual), mod, n)
            return
        if t[0] == 'cls':
            rule = 'class attributes exist'
            self.count(rule)
            if name not in OBJ and name not in dir(type) and not t[1].isopen and not any(self.find(s, name) for s in t[1].subs) and not (t[1].isenum):
                self.bad(rule, '%s %s' % (qual, ast.unparse(n)), 'class %s has no attribute %s' % (t[1].name, n.attr), mod, n)
            return
        if t[0] == 'super':
            rule = 'inherited methods exist'
            self.count(rule)
            mro = t[1].mro
            k = mro.index(t[2]) + 1 if t[2] in mro else 0
            rest = mro[k:]
            if name not in OBJ and not any(x.open for x in rest) and not any(name in x.methods or name in x.cattrs for x in rest):
                # fine when every subclass that mixes this class in provides it: decided per concrete class
                if not self.mixin_ok(t[1], t[2], name):
                    self.bad(rule, '%s super().%s' % (qual, n.attr), 'no base class of %s has method %s (in %s)' % (t[2].name, n.attr, t[1].name), mod, n)
            return

    def mixin_ok(self, c, at, name):
        """c is only used as a mixin: some subclass provides the method after `at` in its MRO"""
        if c is not at:
            return False
        for s in c.subs:
            if s is c:
                continue
            rest = s.mro[s.mro.index(at) + 1:]
            if any(name in x.methods for x in rest):
                return True
        return False

    def abstract(self, c):
        seen = {}
        for k in reversed(c.mro):
            for nm, f in k.methods.items():
                ab = 'abstractmethod' in decorators(f.node) or self.notimpl(f.node)
                seen[nm] = ab
        return any(seen.values())

    def notimpl(self, n):
        b = [x for x in n.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        return len(b) == 1 and isinstance(b[0], ast.Raise) and 'NotImplemented' in ast.dump(b[0])

    def abstract_any(self, cs):
        return any(self.abstract(c) for c in cs)

    def lenient_attr(self, n, name, mod, qual, base, e):
        rule = 'attribute names exist somewhere'
        if n.attr in self.attr_names or name in self.attr_names or n.attr in BUILT or n.attr in OBJ:
            return
        x = base
        while isinstance(x, (ast.Attribute, ast.Call, ast.Subscript)):
            x = x.func if isinstance(x, ast.Call) else x.value
        if isinstance(x, ast.Name):
            b = self.top[mod.name].get(x.id)
            if b and b[0] in ('from', 'modref') and not self.libs.exists(b[1].split('.')[0]) and not self.inmod(b[1]):
                return
        roots = {b[1].split('.')[0] for b in self.top[mod.name].values() if b[0] in ('from', 'modref')}
        if any(not self.libs.exists(r) and not self.inmod(r) for r in roots):
            return
        for y in ast.walk(mod.tree):
            if isinstance(y, (ast.Import, ast.ImportFrom)):
                r = (y.names[0].name if isinstance(y, ast.Import) else (y.module or 'aideme')).split('.')[0]
                if isinstance(y, ast.ImportFrom) and y.level:
                    continue
                if not self.libs.exists(r) and not self.inmod(r):
                    return
        self.count(rule)
        if not self.libs.mentions(n.attr, ['numpy', 'scipy', 'sklearn']) and not self.libs.mentions(n.attr, sorted(r for r in roots if r not in ('numpy', 'scipy', 'sklearn', 'aideme'))):
            self.bad(rule, '%s %s' % (qual, ast.unparse(n)[:60]), 'no class of the package and no library type has an attribute %s' % n.attr, mod, n)

    # -- calls
    def check_call(self, n, e, mod, cls, qual, c):
        f = self.typ(n.func, e, mod, cls)
        rule = 'calls match the signature of the callee'
        if f is None:
            if isinstance(n.func, ast.Attribute) and (c is None or c is cls):
                self.lenient_call(n, e, mod, cls, qual)
            return
        if f[0] == 'cls':
            k = f[1]
            if k.isenum or k.isopen:
                return
            t = self.find(k, '__init__')
            self.count(rule)
            if t is None:
                if (n.args or n.keywords) and not any(isinstance(a, ast.Starred) for a in n.args) and not any(kw.arg is None for kw in n.keywords) and not any(b.name for b in []):
                    if not any(self.libbase(x) for x in k.mro):
                        self.bad(rule, '%s %s(...)' % (qual, k.name), '%s takes no arguments' % k.name, mod, n)
                return
            r = self.match(n, t[1].node, 1)
            if r:
                self.bad(rule, '%s %s(...)' % (qual, k.name), 'constructor of %s: %s' % (k.name, r), mod, n)
            return
        if f[0] == 'bound':
            fn, kind = f[1], f[3]
            if kind in ('property', 'other'):
                return
            if [d for d in decorators(fn.node) if d not in ('staticmethod', 'classmethod', 'abstractmethod')]:
                return
            self.count(rule)
            skip = 0 if kind in ('static', 'unbound') else 1
            r = self.match(n, fn.node, skip)
            if r:
                self.bad(rule, '%s %s' % (qual, ast.unparse(n)[:60]), '%s: %s' % (fn.qual, r), mod, n)
                return
            # overriding methods of subclasses (the receiver may be any of them)
            if f[2] and f[2][0] == 'inst' and kind == 'method' and not (isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'super'):
                isself = c is not None and f[2][1] == frozenset([c])
                for k in f[2][1]:
                    for s in ([k] if isself else k.subs):
                        g = s.methods.get(fn.node.name)
                        if g and g is not fn and s.kind.get(fn.node.name) == 'method' and not self.abstract(s):
                            r = self.match(n, g.node, 1)
                            if r:
                                self.bad(rule, '%s %s -> %s' % (qual, ast.unparse(n)[:60], s.name), '%s: %s' % (g.qual, r), mod, n)
            return
        if f[0] == 'lib':
            node = f[3]
            self.check_lib_call(n, node, f[1] + '.' + f[2], qual, mod)

    def libbase(self, c):
        return any(True for b in c.node.bases if not (isinstance(b, ast.Name) and (b.id in SAFEBASE and b.id not in ('Exception', 'ValueError', 'RuntimeError') or (self.lookup(c.mod.name, b.id) or (0,))[0] == 'class')))

    def check_lib_call(self, n, node, name, qual, mod):
        rule = 'keywords of library calls exist'
        if isinstance(node, tuple):
            cd, m = node
            init = [x for x in cd.body if isinstance(x, ast.FunctionDef) and x.name in ('__init__', '__new__')]
            if not init:
                return
            node = init
        if not isinstance(node, list) or any(isinstance(a, ast.keyword) and a.arg is None for a in n.keywords):
            return
        names, va = set(), False
        for f in node:
            if [d for d in decorators(f) if d not in ('overload', 'validate_params', '_deprecate_positional_args', 'set_module', 'array_function_dispatch', 'abstractmethod')]:
                if any('deprecat' not in d and 'xp' not in d for d in decorators(f) if d not in ('overload', 'validate_params', 'set_module', 'array_function_dispatch')):
                    return
            a = f.args
            names |= {p.arg for p in a.args + a.kwonlyargs}
            va = va or a.kwarg is not None
        if va:
            return
        self.count(rule)
        for kw in n.keywords:
            if kw.arg not in names:
                self.bad(rule, '%s %s(%s=)' % (qual, name, kw.arg), '%s has no parameter %s' % (name, kw.arg), mod, n)

    def match(self, call, node, skip):
        """None when the call fits, else why not"""
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            star = True
        else:
            star = False
        a = node.args
        pos = [p.arg for p in a.posonlyargs + a.args][skip:]
        npos = sum(1 for x in call.args if not isinstance(x, ast.Starred))
        if npos > len(pos) and a.vararg is None:
            return 'too many positional arguments'
        kwn = [k.arg for k in call.keywords if k.arg is not None]
        konly = [p.arg for p in a.kwonlyargs]
        for k in kwn:
            if k not in pos and k not in konly and a.kwarg is None:
                return 'unexpected keyword argument %s' % k
            if k in pos[:npos] and not any(isinstance(x, ast.Starred) for x in call.args):
                return 'argument %s given twice' % k
        if star:
            return None
        nd = len(a.defaults)
        req = pos[:len(pos) - nd] if nd else pos
        for p in req[npos:]:
            if p not in kwn:
                return 'missing argument %s' % p
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and p.arg not in kwn:
                return 'missing keyword argument %s' % p.arg
        return None

    def lenient_call(self, n, e, mod, cls, qual):
        """a method call on an object of unknown type, with a name only this package defines"""
        rule = 'method calls fit some definition of that name'
        nm = n.func.attr
        if nm in BUILT or nm in OBJ or nm.startswith('__'):
            return
        defs = [c.methods[nm] for c in self.classes if nm in c.methods and c.kind.get(nm) == 'method']
        if not defs or any(nm in c.iattrs or nm in c.cattrs for c in self.classes) or any(nm in c.methods and c.kind.get(nm) != 'method' for c in self.classes):
            return
        if any(isinstance(b[1], Fn) for t in self.top.values() for k, b in t.items() if k == nm):
            return
        if nm in LIBM:
            return
        if self.typ(n.func.value, e, mod, cls) is not None:
            return
        self.count(rule)
        if all(self.match(n, d.node, 1) for d in defs):
            if self.libs.mentions('def ' + nm, ['numpy', 'scipy', 'sklearn']):
                return
            self.bad(rule, '%s %s' % (qual, ast.unparse(n)[:60]), 'no method %s of the package accepts this call (%s)' % (nm, self.match(n, defs[0].node, 1)), mod, n)

    def check_module_level(self):
        for m in self.prog.mods.values():
            class _F:
                pass
            node = ast.Module(body=[], type_ignores=[])
            for n in m.tree.body:
                if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                    node.body.append(n)
                elif isinstance(n, ast.ClassDef):
                    node.body += [s for s in n.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AnnAssign))]
                    # defaults of parameters and decorators are evaluated at definition time
            self.check_body(node, {}, m, None, m.name, None)

    # -- local variables
    def check_locals(self, fn):
        rule = 'local variables are assigned before use'
        args = fn.node.args
        params = {p.arg for p in args.posonlyargs + args.args + args.kwonlyargs} | {p.arg for p in (args.vararg, args.kwarg) if p}
        assigned = set()
        globs = set()
        for n in walk_own(fn.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                assigned.add(n.id)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                globs |= set(n.names)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn.node:
                assigned.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                assigned |= {(a.asname or a.name).split('.')[0] for a in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                assigned.add(n.name)
        comp = set()
        for n in walk_own(fn.node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    comp |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        loc = (assigned - params - globs) - comp
        if not loc:
            return
        self.count(rule, len(loc))
        may = set()

        def use(x):
            if x is None:
                return
            if isinstance(x, (ast.Lambda, ast.FunctionDef)):
                return
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, ast.Load) and x.id in loc and x.id not in may:
                    self.bad(rule, '%s %s' % (fn.qual, x.id), 'local variable %s is read before any assignment' % x.id, fn.mod, x)
                return
            if isinstance(x, ast.NamedExpr):
                use(x.value)
                store(x.target)
                return
            for ch in ast.iter_child_nodes(x):
                use(ch)

        def store(t):
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    may.add(x.id)

        def prestore(stmts):
            for s in stmts:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        may.add(x.id)

        def body(stmts):
            """True when control never reaches the end of stmts"""
            for s in stmts:
                if isinstance(s, ast.Assign):
                    use(s.value)
                    for t in s.targets:
                        use(t)
                        store(t)
                elif isinstance(s, ast.AnnAssign):
                    use(s.value)
                    if s.value is not None:
                        store(s.target)
                elif isinstance(s, ast.AugAssign):
                    use(s.value)
                    if isinstance(s.target, ast.Name) and s.target.id in loc and s.target.id not in may:
                        self.bad(rule, '%s %s' % (fn.qual, s.target.id), 'local variable %s is updated before any assignment' % s.target.id, fn.mod, s)
                    use(s.target)
                    store(s.target)
                elif isinstance(s, ast.For):
                    use(s.iter)
                    store(s.target)
                    if body(s.body):
                        pass
                    body(s.orelse)
                elif isinstance(s, ast.While):
                    use(s.test)
                    body(s.body)
                    body(s.orelse)
                elif isinstance(s, ast.If):
                    use(s.test)
                    nonlocal_may = set(may)
                    t1 = body(s.body)
                    m1 = set(may)
                    may.clear()
                    may.update(nonlocal_may)
                    t2 = body(s.orelse)
                    m2 = set(may)
                    may.clear()
                    may.update((m2 if t1 else set()) | (m1 if t2 else set()) | ((m1 | m2) if not (t1 or t2) or (t1 and t2) else set()))
                    if t1 and t2 and s.orelse:
                        return True
                elif isinstance(s, ast.With):
                    for w in s.items:
                        use(w.context_expr)
                        if w.optional_vars is not None:
                            store(w.optional_vars)
                    if body(s.body):
                        return True
                elif isinstance(s, ast.Try):
                    body(s.body)
                    for h in s.handlers:
                        if h.name:
                            may.add(h.name)
                        body(h.body)
                    body(s.orelse)
                    body(s.finalbody)
                elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    may.add(s.name)
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    may.update((a.asname or a.name).split('.')[0] for a in s.names)
                elif isinstance(s, (ast.Return, ast.Raise)):
                    for ch in ast.iter_child_nodes(s):
                        use(ch)
                    return True
                elif isinstance(s, (ast.Continue, ast.Break)):
                    return True
                else:
                    for ch in ast.iter_child_nodes(s):
                        use(ch)
            return False
        # a loop body may use what a previous iteration assigned
        for n in walk_own(fn.node):
            if isinstance(n, (ast.While, ast.For)):
                n._loop = True
        loops = [n for n in walk_own(fn.node) if isinstance(n, (ast.For, ast.While))]
        inloop = set()
        for l in loops:
            reads_first = set()
            for s in l.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        inloop.add(x.id)
        loc -= {x for x in inloop if not self.only_store_in_straight_loop(fn.node, x)}
        body(fn.node.body)

    def only_store_in_straight_loop(self, f, x):
        return False

    # -- attribute initialisation order in constructors
    def check_init_order(self, c):
        rule = 'constructors initialise attributes before reading them'
        if c.isopen or c.isenum or self.abstract(c) or self.find(c, '__init__') is None:
            return
        self.flow(c, '__init__', set(), rule)
        init = set(self.last_have)
        rule2 = 'attributes are initialised before their first use'
        public = sorted({nm for k in c.mro for nm in k.methods if (not nm.startswith('_') or nm.startswith('__') and nm.endswith('__')) and nm != '__init__'})
        inits, reads = set(), {}
        for nm in public:
            r = self.flow(c, nm, set(init), None)
            for a in self.last_have - init:
                if a not in r:
                    inits.add(a)
            for a, w in r.items():
                reads.setdefault(a, w)
        for k in c.mro:
            for a in k.iattrs:
                if any(a in z.cattrs or a in z.methods for z in c.mro):
                    continue
                if a in init:
                    self.count(rule2)
                elif a in reads and a not in inits:
                    fn, x = reads[a]
                    self.bad(rule2, '%s %s.%s' % (fn.qual, c.name, x.attr), 'attribute %s of %s is not set by its constructor, and every method assigning it reads it first' % (x.attr, c.name), fn.mod, x)

    def flow(self, c, entry, have, rule):
        """may-assigned attributes along one method (entering calls on self); reads of unassigned attributes"""
        stack, seen, early = [], set(), {}
        anyassign = {a for k in c.mro for a in k.iattrs}
        reported = set()

        def call(fn, owner, depth):
            key = (id(fn.node), frozenset(have))
            if depth > 12 or key in seen or fn.node in stack:
                return
            seen.add(key)
            if not fn.node.args.args and not fn.node.args.posonlyargs:
                return
            me = (fn.node.args.posonlyargs + fn.node.args.args)[0].arg
            g = self.guarded(fn.node)
            stack.append(fn.node)
            stmts(fn.node.body, me, owner, fn, depth, g)
            stack.pop()

        def expr(x, me, owner, fn, depth, g):
            if x is None or isinstance(x, (ast.Lambda, ast.FunctionDef)):
                return
            if isinstance(x, ast.Call):
                for a in list(x.args) + [k.value for k in x.keywords]:
                    expr(a, me, owner, fn, depth, g)
                f = x.func
                if isinstance(f, ast.Attribute):
                    if isinstance(f.value, ast.Name) and f.value.id == me:
                        t = self.find(c, mangle(f.attr, owner))
                        if t and t[0] == 'method' and t[2] == 'method':
                            call(t[1], t[3], depth + 1)
                            return
                    elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                        for k in c.mro[c.mro.index(owner) + 1:]:
                            if f.attr in k.methods:
                                call(k.methods[f.attr], k, depth + 1)
                                break
                        return
                    elif isinstance(f.value, ast.Name) and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == me:
                        b = self.lookup(owner.mod.name, f.value.id)
                        if b and b[0] == 'class' and b[1] in c.mro:
                            t = self.find(b[1], f.attr)
                            if t and t[0] == 'method':
                                call(t[1], t[3], depth + 1)
                            return
                expr(f, me, owner, fn, depth, g)
                return
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Load):
                nm = mangle(x.attr, owner)
                t = self.find(c, nm)
                if t and t[0] == 'method':
                    if t[2] == 'property':
                        call(t[1], t[3], depth + 1)
                    return
                if t and t[0] == 'cattr':
                    return
                if rule:
                    self.count(rule)
                if nm not in have and nm in anyassign and x.attr not in g and not rule:
                    early.setdefault(nm, (fn, x))
                elif nm not in have and nm in anyassign and x.attr not in g:
                    k = (fn.qual, nm)
                    if k not in reported:
                        reported.add(k)
                        self.bad(rule, '%s self.%s (constructing %s)' % (fn.qual, x.attr, c.name), 'attribute %s is read before it is assigned while constructing %s' % (x.attr, c.name), fn.mod, x)
                return
            for ch in ast.iter_child_nodes(x):
                expr(ch, me, owner, fn, depth, g)

        def target(t, me, owner, fn, depth, g):
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                nm = mangle(t.attr, owner)
                st = next((k.setters[nm] for k in c.mro if nm in k.setters), None)
                if st is not None:
                    call(st, st.cls, depth + 1)
                else:
                    have.add(nm)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for y in t.elts:
                    target(y, me, owner, fn, depth, g)
            else:
                expr(t, me, owner, fn, depth, g)

        def stmts(body, me, owner, fn, depth, g):
            for s in body:
                if isinstance(s, ast.Assign):
                    expr(s.value, me, owner, fn, depth, g)
                    for t in s.targets:
                        target(t, me, owner, fn, depth, g)
                elif isinstance(s, ast.AnnAssign):
                    expr(s.value, me, owner, fn, depth, g)
                    if s.value is not None:
                        target(s.target, me, owner, fn, depth, g)
                elif isinstance(s, ast.AugAssign):
                    expr(s.value, me, owner, fn, depth, g)
                    if isinstance(s.target, ast.Attribute):
                        y = ast.copy_location(ast.Attribute(s.target.value, s.target.attr, ast.Load()), s.target)
                        expr(y, me, owner, fn, depth, g)
                elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    continue
                elif isinstance(s, (ast.If, ast.While)):
                    expr(s.test, me, owner, fn, depth, g)
                    stmts(s.body, me, owner, fn, depth, g)
                    stmts(s.orelse, me, owner, fn, depth, g)
                elif isinstance(s, ast.For):
                    expr(s.iter, me, owner, fn, depth, g)
                    target(s.target, me, owner, fn, depth, g)
                    stmts(s.body, me, owner, fn, depth, g)
                    stmts(s.orelse, me, owner, fn, depth, g)
                elif isinstance(s, ast.Try):
                    stmts(s.body, me, owner, fn, depth, g)
                    for h in s.handlers:
                        stmts(h.body, me, owner, fn, depth, g)
                    stmts(s.orelse, me, owner, fn, depth, g)
                    stmts(s.finalbody, me, owner, fn, depth, g)
                elif isinstance(s, ast.With):
                    for w in s.items:
                        expr(w.context_expr, me, owner, fn, depth, g)
                        if w.optional_vars is not None:
                            target(w.optional_vars, me, owner, fn, depth, g)
                    stmts(s.body, me, owner, fn, depth, g)
                else:
                    for ch in ast.iter_child_nodes(s):
                        expr(ch, me, owner, fn, depth, g)
        t = self.find(c, entry)
        if t[0] == 'method':
            call(t[1], t[3], 0)
        self.last_have = have
        return early


LIBM = {'fit', 'predict', 'predict_proba', 'transform', 'fit_transform', 'sample', 'score', 'decision_function', 'add', 'update', 'clear', 'copy', 'compute', 'rank', 'build', 'run'}


def walk_own(f):
    """nodes of a function, without entering nested functions and classes (which are yielded)"""
    todo = list(ast.iter_child_nodes(f)) if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) else list(f.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, ast.AnnAssign):
            todo += [x for x in (n.value, n.target) if x is not None]
            continue
        if isinstance(n, ast.Lambda):
            todo.append(n.body)
            continue
        todo.extend(ast.iter_child_nodes(n))

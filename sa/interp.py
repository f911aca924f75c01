"""Abstract interpreter for the package: value-number terms, a heap of abstract objects (with array views), path facts,
trace partitioning on undecided conditions, generic-iteration summaries for loops.  Nothing of /repo is executed."""
import ast, builtins
from .terms import *
from .facts import Facts, is_int
from .program import Program


class Undecided(Exception):
    pass


class Exc:
    """an abstract exception travelling up"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Exc(%r)' % (self.v,)


def exc(name, *args):
    return Exc(mk('exc', name, tuple(args)))


class Obj:
    __slots__ = ('kind', 'cls', 'fields', 'val', 'base', 'tag')

    def __init__(self, kind, cls=None, fields=None, val=None, base=None, tag=None):
        self.kind, self.cls, self.fields, self.val, self.base, self.tag = kind, cls, fields, val, base, tag

    def copy(self):
        return Obj(self.kind, self.cls, dict(self.fields) if self.fields is not None else None, self.val, self.base, self.tag)


class PyObj:
    name = '?'


class Func(PyObj):
    def __init__(self, node, mod, env, cls, name, qual, defaults, kwdefaults):
        self.node, self.mod, self.env, self.cls, self.name, self.qual = node, mod, env, cls, name, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.kind = 'plain'
        self.setter = None
        self.isgen = isinstance(node, (ast.FunctionDef,)) and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))

    def __repr__(self):
        return 'fn ' + self.qual


def own_nodes(fn):
    """nodes of a function body, not entering nested functions/lambdas"""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
        stack.extend(ast.iter_child_nodes(n))


class ClassV(PyObj):
    def __init__(self, name, mod, bases):
        self.name, self.mod, self.bases, self.attrs = name, mod, bases, {}
        self.mro = None
        self.enum = False

    def getmro(self):
        if self.mro is None:
            seqs = [[b for b in x.getmro()] if isinstance(x, ClassV) else [x] for x in self.bases] + [list(self.bases)]
            res = [self]
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    break
                res.append(h)
                seqs = [[x for x in t if x is not h] for t in seqs]
                seqs = [t for t in seqs if t]
            self.mro = res
        return self.mro

    def find(self, name, after=None):
        mro = self.getmro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if isinstance(c, ClassV) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def subclass_of(self, other):
        return other in self.getmro()

    def opaque_base(self):
        return any(not isinstance(c, ClassV) and getattr(c, 'name', '') not in ('object', 'Exception', 'enum.Enum', 'builtins.Exception') for c in self.getmro())

    def __repr__(self):
        return 'class ' + self.name


class Bound(PyObj):
    def __init__(self, func, self_):
        self.func, self.self_, self.name = func, self_, getattr(func, 'name', '?')


class Ext(PyObj):
    """something outside the package, known by its dotted name"""
    _tab = {}

    def __new__(cls, name):
        name = canon_ext(name)
        if name not in cls._tab:
            o = object.__new__(cls)
            o.name = name
            cls._tab[name] = o
        return cls._tab[name]

    def __repr__(self):
        return 'ext ' + self.name


def canon_ext(n):
    if n == 'numpy' or n.startswith('numpy.'):
        n = 'np' + n[5:]
    if n.startswith('sklearn.base.clone') or n == 'sklearn.clone':
        n = 'sklearn.clone'
    return n


class ExtBound(PyObj):
    """method of an abstract value that is not a package object"""
    def __init__(self, recv, meth):
        self.recv, self.meth, self.name = recv, meth, meth


class ModV(PyObj):
    def __init__(self, name):
        self.name = name


class Super(PyObj):
    def __init__(self, cls, self_):
        self.cls, self.self_, self.name = cls, self_, 'super'


def P(o):
    return mk('pyobj', o)


def ob(t):
    return t.args[0] if isinstance(t, T) and t.op == 'pyobj' else None


class St:
    __slots__ = ('heap', 'facts', 'events', 'ver', 'oattr', 'nxt')

    def __init__(self):
        self.heap, self.facts, self.events, self.ver, self.oattr, self.nxt = {}, Facts(), (), {}, {}, [0]

    def fork(self):
        s = St.__new__(St)
        s.heap, s.facts, s.events, s.ver, s.oattr, s.nxt = dict(self.heap), self.facts.copy(), self.events, dict(self.ver), dict(self.oattr), self.nxt
        return s

    def new(self, kind, cls=None, fields=None, val=None, base=None, tag=None):
        self.nxt[0] += 1
        oid = self.nxt[0]
        self.heap[oid] = Obj(kind, cls, fields, val, base, tag)
        return mk('ref', oid)

    def obj(self, r):
        return self.heap[r.args[0]]

    def setfield(self, r, name, v):
        o = self.heap[r.args[0]].copy()
        o.fields[name] = v
        self.heap[r.args[0]] = o

    def event(self, *e):
        self.events = self.events + (e,)

    # ---- array / container values
    def val(self, v):
        """value term of a container reference (shallow)"""
        if isinstance(v, T) and v.op == 'ref':
            o = self.heap.get(v.args[0])
            if o is None:
                return v
            if o.base is not None:
                return o.base[1](self.val(o.base[0]))
            if o.val is not None:
                return o.val
        return v

    def deep(self, v, d=0):
        """replace references to containers inside a term by their values"""
        if not isinstance(v, T):
            return v
        if v.op == 'ref':
            w = self.val(v)
            if w is v or d > 12:
                return v
            return self.deep(w, d + 1)
        if v.op in ('const', 'sym', 'bv', 'inf', 'nan', 'pyconst', 'ellipsis', 'pyobj'):
            return v
        if not any(x.op == 'ref' for x in walk(v)):
            return v
        m = {x: self.deep(x, d + 1) for x in walk(v) if x.op == 'ref'}
        m = {k: w for k, w in m.items() if k is not w}
        return subst(v, m) if m else v

    def setval(self, r, newval):
        o = self.heap[r.args[0]]
        if o.base is not None:
            b, rd, wr = o.base
            self.setval(b, wr(self.val(b), newval))
            return
        o = o.copy()
        o.val = newval
        self.heap[r.args[0]] = o

    def root(self, r):
        """the object that owns the memory behind a view"""
        o = self.heap.get(r.args[0])
        while o is not None and o.base is not None:
            r = o.base[0]
            o = self.heap.get(r.args[0])
        return r


def setmutated(n):
    """does the body call a set-changing method on the loop variable of a for over a plain name or attribute?"""
    if not isinstance(n, ast.For) or not isinstance(n.target, ast.Name) or not isinstance(n.iter, (ast.Name, ast.Attribute)):
        return False
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == n.target.id
               and x.func.attr in ('difference_update', 'intersection_update', 'symmetric_difference_update', 'discard', 'update', 'add', 'remove') for b in n.body for x in ast.walk(b))


def arraylike(b, a):
    """does the expression use array methods on a? (then a is an array)"""
    return any(x.op == 'app' and x.args[0] in ('.sum', '.mean', '.min', '.max', '.reshape', '.ravel', '.dot', '.std') and x.args[1] and x.args[1][0] is a for x in walk(b))


def kind_of(v):
    if v.op == 'sym':
        return v.args[1]
    if v.op == 'const':
        if isinstance(v.args[0], bool):
            return 'bool'
        if isinstance(v.args[0], int):
            return 'int'
        if isinstance(v.args[0], str):
            return 'str'
        if v.args[0] is None:
            return None
        return 'float'
    if v.op in ('inf', 'nan'):
        return 'float'
    if is_int(v):
        return 'int'
    if isbool(v):
        return 'bool'
    if isstr(v):
        return 'str'
    if v.op == 'poly' and all(kind_of(a) in ('int', 'float', 'nat', 'bool') for m, c in v.args[0] for a, e in m):
        return 'float'
    if v.op in ('list', 'cat', 'map'):
        return 'list'
    if v.op in ('dict',):
        return 'dict'
    if v.op in ('store', 'swap'):
        return kind_of(v.args[0])
    return None


BUILTIN_EXC = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}


class Interp:
    def __init__(self, prog):
        from . import ext
        self.ext = ext
        self.prog = prog
        self.funcs = []
        self.steps = 0
        self.max_steps = 400000
        self.stack = []
        self.try_depth = 0
        self.loop_mode = 'fold'
        self.havoc_hook = None
        self.body_hook = self.after_hook = None
        self.loop_pre = self.loop_accs = None
        self.loop_depth = 0
        self.yield_hook = None
        self.unroll_while, self.cut_off = 0, []     # execute while loops up to this many times, keeping the states in which they would go on
        self.call_hook = None      # (fv, args, kwargs, st) -> generator or None
        self.rec_opaque = False    # the third level of a recursion returns an arbitrary value
        self.cut = set()           # quals of repo functions treated as opaque
        self.loc = None
        self.modenv = {}
        self.module_errors = []
        self.visited = set()
        self.st0 = St()
        self.boot()

    # ================================================================= boot
    def boot(self):
        st = self.st0
        for n in self.prog.mods:
            self.modenv[n] = st.new('env', cls=('module', n, None), fields={'__name__': C(n)})
        done = set()
        self._booted = done
        for n in self.prog.mods:
            self.boot_module(n)

    def boot_module(self, n):
        if n in self._booted:
            return
        if '.' in n and n.rsplit('.', 1)[0] in self.prog.mods:
            self.boot_module(n.rsplit('.', 1)[0])
            if n in self._booted:
                return
        self._booted.add(n)
        mod = self.prog.mods[n]
        env = self.modenv[n]
        frame = Frame(self, mod, env, None, None)
        st = self.st0
        for s in mod.tree.body:
            res = list(self.exec_stmt(s, frame, st))
            norm = [(a, g) for a, g in res if g is None]
            if not norm:
                self.module_errors.append((mod.rel, s.lineno, repr([g for _, g in res])))
                continue
            st = norm[0][0]
            self.st0 = st
        self.st0.events = ()

    def glob(self, modname, name):
        v = self.st0.obj(self.modenv[modname]).fields.get(name)
        if v is None:
            raise KeyError(modname + ':' + name)
        return v

    def cls(self, modname, name):
        return ob(self.glob(modname, name))

    def find_class(self, name):
        for m in self.prog.mods:
            v = self.st0.obj(self.modenv[m]).fields.get(name)
            o = ob(v) if v is not None else None
            if isinstance(o, ClassV) and o.mod.name == m:
                return o
        raise KeyError(name)

    def start(self):
        self.steps = 0
        return self.st0.fork()

    # ================================================================= helpers
    def where(self, node=None):
        f = self.stack[-1] if self.stack else None
        return '%s:%s in %s' % (f.mod.rel if f else '?', getattr(node, 'lineno', '?'), f.qual if f else '<module>')

    def tick(self, node=None):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided('step budget exceeded at ' + self.where(node))

    def fork_on(self, c, st):
        """yields (bool, st)"""
        c = self.boolterm(c, st)
        if isinstance(c, bool):
            yield c, st
            return
        d = st.facts.decide(c)
        if d is not None:
            yield d, st
            return
        s2 = st.fork()
        if st.facts.assume(c):
            yield True, st
        if s2.facts.assume(not_(c)):
            yield False, s2

    def boolterm(self, v, st):
        """truthiness of a value as a boolean term"""
        if isbool(v):
            return v
        if v.op == 'const':
            return C(bool(v.args[0]))
        if v.op == 'ref':
            o = st.obj(v)
            if o.kind in ('list', 'dict', 'set'):
                x = st.val(v)
                if x.op == 'dict' or x.op == 'list' or x.op == 'set':
                    return C(len(x.args[0]) > 0 if x.op == 'dict' else len(x.args) > 0)
                return not_(eq(length(x), ZERO))
            if o.kind == 'inst':
                m, _ = o.cls.find('__len__') if isinstance(o.cls, ClassV) else (None, None)
                if m is None and not (isinstance(o.cls, ClassV) and o.cls.opaque_base()):
                    return TRUE
                return mk('app', 'bool', (v,), ()) if m is None else not_(eq(mk('app', 'lenof', (v,), ()), ZERO))
            if o.kind == 'arr':
                return eqbool(self.truth_app(st.deep(v)))
        if v.op == 'pyobj':
            return TRUE
        if v.op in ('list', 'tuple', 'set'):
            return C(len(v.args) > 0)
        if v.op == 'sym' and v.args[1] in ('list', 'dict', 'set'):
            return not_(eq(length(v), ZERO))
        if v.op == 'sym' and v.args[1] in ('int', 'nat', 'float') or v.op in ('poly', 'len'):
            return not_(eq(v, ZERO))
        if v.op in ('cat', 'map'):
            return not_(eq(length(v), ZERO))
        if v.op == 'ite':
            return ite(v.args[0], self.boolterm(v.args[1], st), self.boolterm(v.args[2], st))
        if v.op == 'sym' and v.args[1] in ('obj', 'fn'):
            return TRUE
        return eqbool(self.truth_app(v))

    def truth_app(self, v):
        return v

    # ================================================================= expressions
    def evs(self, nodes, fr, st):
        if not nodes:
            yield [], st
            return
        for v, s in self.ev(nodes[0], fr, st):
            if isinstance(v, Exc):
                yield v, s
                continue
            for vs, s2 in self.evs(nodes[1:], fr, s):
                yield (vs if isinstance(vs, Exc) else [v] + vs), s2

    def ev(self, n, fr, st):
        self.tick(n)
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Undecided('unsupported expression %s at %s' % (type(n).__name__, self.where(n)))
        return m(n, fr, st)

    def ev_Constant(self, n, fr, st):
        yield C(n.value), st

    def ev_JoinedStr(self, n, fr, st):
        parts = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        for vs, s in self.evs(parts, fr, st):
            if isinstance(vs, Exc):
                yield vs, s
                continue
            it = iter(vs)
            out = [C(v.value) if isinstance(v, ast.Constant) else next(it) for v in n.values]
            yield strcat([s.deep(x) for x in out]), s

    def ev_Name(self, n, fr, st):
        v = fr.lookup(n.id, st)
        if v is None:
            yield exc('NameError', C(n.id)), st
        else:
            yield v, st

    def ev_Tuple(self, n, fr, st):
        yield from self._seq(n, fr, st, 'tuple')

    def ev_List(self, n, fr, st):
        for v, s in self._seq(n, fr, st, 'list'):
            if isinstance(v, Exc):
                yield v, s
            else:
                yield s.new('list', val=v, tag=self.where(n)), s

    def ev_Set(self, n, fr, st):
        for v, s in self._seq(n, fr, st, 'set'):
            if isinstance(v, Exc):
                yield v, s
            else:
                yield s.new('set', val=v, tag=self.where(n)), s

    def _seq(self, n, fr, st, kind):
        nodes = [e.value if isinstance(e, ast.Starred) else e for e in n.elts]
        for vs, s in self.evs(nodes, fr, st):
            if isinstance(vs, Exc):
                yield vs, s
                continue
            if not any(isinstance(e, ast.Starred) for e in n.elts):
                yield mk(kind, *vs), s
                continue
            r = lst()
            for e, v in zip(n.elts, vs):
                if isinstance(e, ast.Starred):
                    w = s.val(v)
                    r = cat(r, lst(*w.args) if w.op in ('tuple', 'set') else w)
                else:
                    r = cat(r, lst(v))
            yield (mk(kind, *r.args) if r.op == 'list' else r), s

    def ev_Dict(self, n, fr, st):
        ks = [k for k in n.keys if k is not None]
        for vs, s in self.evs(ks + n.values, fr, st):
            if isinstance(vs, Exc):
                yield vs, s
                continue
            keys, vals = iter(vs[:len(ks)]), vs[len(ks):]
            d = mk('dict', ())
            for k, v in zip(n.keys, vals):
                if k is None:
                    d = dict_merge(d, s.val(v))
                else:
                    d = dict_set(d, s.deep(next(keys)), v)
            yield s.new('dict', val=d, tag=self.where(n)), s

    def ev_Lambda(self, n, fr, st):
        for v, s in self.make_func(n, fr, st, '<lambda>'):
            yield v, s

    def make_func(self, n, fr, st, name):
        a = n.args
        for vs, s in self.evs(list(a.defaults) + [d for d in a.kw_defaults if d is not None], fr, st):
            if isinstance(vs, Exc):
                yield vs, s
                continue
            k = len(a.defaults)
            kwd = {}
            it = iter(vs[k:])
            for arg, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    kwd[arg.arg] = next(it)
            qual = (fr.func.qual + '.' if fr.func else (fr.cls.name + '.' if fr.cls else '')) + name
            f = Func(n, fr.mod, fr.closure_env(), fr.cls, name, fr.mod.name + ':' + qual if not fr.func else qual, vs[:k], kwd)
            self.funcs.append(f)
            yield P(f), s

    def ev_IfExp(self, n, fr, st):
        for c, s in self.ev(n.test, fr, st):
            if isinstance(c, Exc):
                yield c, s
                continue
            for b, s2 in self.fork_on(c, s):
                yield from self.ev(n.body if b else n.orelse, fr, s2)

    def ev_BoolOp(self, n, fr, st):
        isand = isinstance(n.op, ast.And)

        def go(i, st):
            for v, s in self.ev(n.values[i], fr, st):
                if isinstance(v, Exc) or i == len(n.values) - 1:
                    yield v, s
                    continue
                for b, s2 in self.fork_on(v, s):
                    if b == isand:
                        yield from go(i + 1, s2)
                    else:
                        yield (v if not isbool(v) else C(b)), s2
        yield from go(0, st)

    def ev_UnaryOp(self, n, fr, st):
        for v, s in self.ev(n.operand, fr, st):
            if isinstance(v, Exc):
                yield v, s
                continue
            if isinstance(n.op, ast.Not):
                b = self.boolterm(v, s)
                yield not_(b) if isinstance(b, T) else C(not b), s
                continue
            isref = v.op == 'ref'
            x = s.deep(v)
            if isinstance(n.op, ast.USub):
                r = neg(x)
            elif isinstance(n.op, ast.Invert):
                r = not_(x) if isbool(x) else mk('app', 'invert', (x,), ())
            else:
                r = x
            yield (s.new('arr', val=r) if isref else r), s

    def ev_BinOp(self, n, fr, st):
        for vs, s in self.evs([n.left, n.right], fr, st):
            if isinstance(vs, Exc):
                yield vs, s
                continue
            opn = type(n.op).__name__
            ka, kb = [kind_of(v) if v.op != 'ref' else None for v in vs]
            if opn not in ('Mult', 'Mod') and any(v is NONE and (k in ('int', 'float', 'bool', 'nat', 'str') or w is NONE) or k1 == 'str' and k in ('int', 'float', 'bool', 'nat')
                                                  for v, k1, w, k in ((vs[0], ka, vs[1], kb), (vs[1], kb, vs[0], ka))):
                yield exc('TypeError', 'unsupported operand types'), s
                continue
            yield self.binop(opn, vs[0], vs[1], s), s

    def binop(self, op, a, b, st):
        oa = st.obj(a) if a.op == 'ref' else None
        ob_ = st.obj(b) if b.op == 'ref' else None
        kinds = [o.kind for o in (oa, ob_) if o is not None]
        x, y = st.deep(a), st.deep(b)
        if op == 'Add' and ('list' in kinds or x.op in ('list', 'cat', 'map') or y.op in ('list', 'cat', 'map')) and 'arr' not in kinds:
            return st.new('list', val=cat(st.val(a), st.val(b)))
        if op == 'Add' and (isstr(x) or isstr(y)):
            return strcat([x, y])
        if op == 'Add' and x.op == 'tuple' and y.op == 'tuple':
            return mk('tuple', *(x.args + y.args))
        if op == 'Mult' and ('list' in kinds or x.op in ('list', 'tuple')) and 'arr' not in kinds:
            c, k = (x, y) if (oa and oa.kind == 'list') or x.op in ('list', 'tuple') else (y, x)
            if c.op in ('list', 'tuple') and num(k) is not None and num(k).denominator == 1 and 0 <= num(k) * len(c.args) <= 16:
                r = mk(c.op, *(c.args * int(num(k))))
                return st.new('list', val=r) if c.op == 'list' else r
            if c.op in ('list', 'tuple') and len(c.args) == 1:
                r = mk('map', mk('lam', 0, c.args[0]) if maxbv(c.args[0]) < 0 else lam(c.args[0], fresh('k')), k, None)
                return st.new('list', val=r)
            return st.new('list', val=mk('app', 'repeat', (c, k), ()))
        if op == 'Mod' and isstr(x):
            return strcat([x, y])
        if 'set' in kinds or x.op == 'set' or y.op == 'set' or (x.op == 'sym' and x.args[1] == 'set') or (y.op == 'sym' and y.args[1] == 'set'):
            f = {'Sub': 'setdiff', 'BitAnd': 'inter', 'BitOr': 'union'}.get(op)
            if f:
                if f != 'setdiff' and x.id > y.id:
                    x, y = y, x
                return st.new('set', val=self.setfold(f, x, y, st))
        r = arith(op, x, y)
        if r is None:
            raise Undecided('operator ' + op)
        return st.new('arr', val=r) if 'arr' in kinds else r

    def setfold(self, f, x, y, st):
        if f == 'setdiff' and x.op in ('set', 'list', 'tuple') and y.op in ('set', 'list', 'tuple', 'dict'):
            ys = [k for k, v in y.args[0]] if y.op == 'dict' else y.args
            keep = []
            for e in x.args:
                ds = [st.facts.decide(eq(e, w)) for w in ys]
                if any(d is True for d in ds):
                    continue
                if not all(d is False for d in ds):
                    break
                keep.append(e)
            else:
                return mk('set', *keep)
        return setop(f, x, y)

    def ev_Compare(self, n, fr, st):
        for vs, s in self.evs([n.left] + n.comparators, fr, st):
            if isinstance(vs, Exc):
                yield vs, s
                continue
            out, isarr = [], False
            for op, a, b in zip(n.ops, vs, vs[1:]):
                t = self.compare(type(op).__name__, a, b, s)
                out.append(t)
                isarr = isarr or (type(op).__name__ not in ('Is', 'IsNot', 'In', 'NotIn') and any(v.op == 'ref' and s.obj(v).kind == 'arr' for v in (a, b)))
            r = and_(*out)
            yield (s.new('arr', val=r) if isarr and len(out) == 1 and r.op != 'const' else r), s

    def compare(self, op, a, b, st):
        if op in ('Is', 'IsNot'):
            r = self.identical(a, b, st)
            return r if op == 'Is' else not_(r)
        if op in ('In', 'NotIn'):
            c = st.deep(b) if not (b.op == 'ref' and st.obj(b).kind == 'dict') else st.val(b)
            x = st.deep(a)
            r = None
            if c.op in ('list', 'tuple', 'set') and not any(e.op == 'star' for e in c.args):
                r = or_(*[eq(x, st.deep(e)) for e in c.args])
            elif c.op == 'dict':
                r = or_(*[eq(x, k) for k, _ in c.args[0]])
            elif c.op == 'const' and isinstance(c.args[0], str) and x.op == 'const':
                r = C(x.args[0] in c.args[0])
            else:
                r = mk('in', x, c)
            return r if op == 'In' else not_(r)
        ra = a.op == 'ref' and st.obj(a).kind == 'inst'
        if ra or (b.op == 'ref' and st.obj(b).kind == 'inst'):
            r = C(a is b) if a.op == b.op == 'ref' else mk('eq', *sorted((a, b), key=lambda t: t.id)) if b is not NONE and a is not NONE else FALSE
            return r if op == 'Eq' else not_(r)
        x, y = st.deep(a), st.deep(b)
        return {'Eq': lambda: eq(x, y), 'NotEq': lambda: not_(eq(x, y)), 'Lt': lambda: lt(x, y), 'LtE': lambda: le(x, y),
                'Gt': lambda: lt(y, x), 'GtE': lambda: le(y, x)}[op]()

    def identical(self, a, b, st):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y is NONE:
                if x.op == 'ref':
                    return FALSE
                return eq(x, NONE)
        if a.op == 'ref' and b.op == 'ref':
            return FALSE
        if a.op == 'pyobj' and b.op == 'pyobj':
            return FALSE
        if a.op == 'const' and b.op == 'const':
            return eq(a, b)
        return mk('eq', *sorted((a, b), key=lambda t: t.id))

    def ev_Slice(self, n, fr, st):
        parts = [x for x in (n.lower, n.upper, n.step) if x is not None]
        for vs, s in self.evs(parts, fr, st):
            if isinstance(vs, Exc):
                yield vs, s
                continue
            it = iter(vs)
            a = [s.deep(next(it)) if x is not None else NONE for x in (n.lower, n.upper, n.step)]
            if a[0] is ZERO and (a[2] is NONE or (num(a[2]) or 0) > 0):
                a[0] = NONE
            if a[2] is ONE:
                a[2] = NONE
            yield mk('slice', *a), s

    def ev_Subscript(self, n, fr, st):
        for vs, s in self.evs([n.value, n.slice], fr, st):
            if isinstance(vs, Exc):
                yield vs, s
                continue
            yield from self.getitem(vs[0], vs[1], s, n)

    def getitem(self, b, i, st, n=None):
        if b.op == 'ref':
            o = st.obj(b)
            if o.kind == 'inst':
                m, _ = o.cls.find('__getitem__') if isinstance(o.cls, ClassV) else (None, None)
                if m is not None:
                    yield from self.call(P(Bound(ob(m), b)), [i], {}, st, n)
                    return
        idx = st.deep(i)
        bv = st.val(b)
        if bv is NONE:
            yield exc('TypeError', C('None[...]')), st
            return
        if ob(bv) is not None:
            if isinstance(ob(bv), Ext):
                nm = ob(bv).name
                parts = tuple(idx.args) if idx.op == 'tuple' else (idx,)
                if nm == 'np.r_' and all(x.op not in ('slice', 'const') or num(x) is not None for x in parts):
                    v = app('np.concat', mk('tuple', *[mk('list', x) if num(x) is not None or x.op == 'sym' and x.args[1] in ('int', 'nat', 'float') else x for x in parts]), axis=ZERO)
                else:
                    v = mk('app', nm, parts, ())
                yield (st.new('arr', val=v) if nm in ('np.c_', 'np.r_') else v), st
                return
            if isinstance(ob(bv), (ClassV, Func)):
                yield mk('app', 'generic', (bv, idx), ()), st
                return
        if bv.op == 'dict':
            yield from self.dict_get(bv, idx, st, None)
            return
        isarr = (b.op == 'ref' and st.obj(b).kind == 'arr')
        if isarr and idx.op == 'slice' or (isarr and idx.op == 'tuple' and any(x.op == 'slice' for x in idx.args) and all(x.op == 'slice' or basic_index(x) for x in idx.args)):
            yield self.view(b, idx, st), st
            return
        bd = bv if bv.op in ('list', 'tuple') else st.deep(bv)
        r = self.read(bd, idx, st)
        if isarr and (idx.op in ('tuple', 'list', 'map', 'cat') or isbool(idx) or idx.op in ('sub', 'app')):
            yield st.new('arr', val=r), st
            return
        if isarr and idx.op in ('sym', 'const', 'poly', 'bv'):
            # row of a matrix: a view when the array is 2-D; keep it as a value, writes through it are not tracked
            yield r, st
            return
        if b.op == 'ref' and st.obj(b).kind == 'list' and idx.op == 'slice':
            yield st.new('list', val=r), st
            return
        yield r, st

    def view(self, b, idx, st):
        rd = lambda base, idx=idx: sub(base, idx)
        wr = lambda base, nv, idx=idx: store(base, idx, nv)
        return st.new('arr', base=(b, rd, wr), tag='view')

    def read(self, base, idx, st):
        """sub with facts: resolve reads through stores"""
        while base.op == 'store' and not isbool(base.args[1]):
            j = base.args[1]
            if j is idx:
                return base.args[2]
            if j.op in ('slice', 'list', 'tuple', 'map') or idx.op in ('slice', 'list', 'tuple', 'map') or isbool(idx):
                break
            d = st.facts.decide(self.index_eq(j, idx, st))
            if d is True:
                return base.args[2]
            if d is False:
                base = base.args[0]
                continue
            return ite(self.index_eq(j, idx, st), base.args[2], self.read(base.args[0], idx, st))
        if base.op == 'list' and idx.op == 'tuple' and len(idx.args) == 2 and idx.args[0].op == 'slice' and all(a is NONE for a in idx.args[0].args):
            return mk('list', *[self.read(st.deep(x), idx.args[1], st) for x in base.args])
        return self.ext.simp_sub(sub(base, idx), st)

    def index_eq(self, a, b, st):
        return eq(a, b)

    def dict_get(self, d, k, st, default):
        """d: dict term.  Forks over the keys"""
        rest = list(d.args[0])
        if k.op == 'const' or all(False for _ in ()):
            pass
        cur = st
        for kk, v in rest:
            c = eq(k, kk)
            dec = cur.facts.decide(c)
            if dec is True:
                yield v, cur
                return
            if dec is False:
                continue
            s2 = cur.fork()
            if s2.facts.assume(c):
                yield v, s2
            if not cur.facts.assume(not_(c)):
                return
        if default is None:
            cur.event('raise', 'KeyError', (k,), self.where())
            yield exc('KeyError', k), cur
        else:
            yield default, cur

    def ev_Attribute(self, n, fr, st):
        for v, s in self.ev(n.value, fr, st):
            if isinstance(v, Exc):
                yield v, s
                continue
            yield from self.getattr(v, fr.mangle(n.attr), s, n)

    def getattr(self, v, name, st, n=None):
        if v.op == 'ref':
            o = st.obj(v)
            if o.kind == 'inst':
                if name in o.fields:
                    # data descriptors (properties) win, but never clash with fields here
                    f, _ = o.cls.find(name)
                    if not (f is not None and isinstance(ob(f), Func) and ob(f).kind == 'property'):
                        yield o.fields[name], st
                        return
                if name == '__class__':
                    yield P(o.cls), st
                    return
                if name == '__dict__':
                    raise Undecided('__dict__')
                f, c = o.cls.find(name)
                if f is not None:
                    yield from self.bind(f, v, o.cls, st, n)
                    return
                if '$lazy' in o.fields:
                    nv = self.lazy_field(o, name, st)
                    st.setfield(v, name, nv)
                    yield nv, st
                    return
                if o.cls.opaque_base():
                    yield self.opaque_attr(v, name, st), st
                    return
                g, _ = o.cls.find('__getattr__')
                if g is not None:
                    yield from self.call(P(Bound(ob(g), v)), [C(name)], {}, st, n)
                    return
                st.event('attrerror', v, name, o.cls.name, self.where(n))
                yield exc('AttributeError', C(name), P(o.cls)), st
                return
            if o.kind == 'arr':
                yield from self.ext.arr_attr(self, v, name, st, n)
                return
            yield P(ExtBound(v, name)), st
            return
        o = ob(v)
        if isinstance(o, ModV):
            if o.name + '.' + name in self.prog.mods:
                yield P(ModV(o.name + '.' + name)), st
                return
            g = st.obj(self.modenv[o.name]).fields.get(name)
            if g is None:
                st.event('attrerror', v, name, o.name, self.where(n))
                yield exc('AttributeError', C(name), v), st
            else:
                yield g, st
            return
        if isinstance(o, Ext):
            full = canon_ext(o.name + '.' + name)
            cv = self.ext.ext_const(full)
            yield (cv if cv is not None else P(Ext(full))), st
            return
        if isinstance(o, ClassV):
            if name == '__name__':
                yield C(o.name), st
                return
            f, c = o.find(name)
            if f is None:
                if o.opaque_base():
                    yield mk('attr', v, name), st
                    return
                st.event('attrerror', v, name, o.name, self.where(n))
                yield exc('AttributeError', C(name), v), st
                return
            fo = ob(f)
            if isinstance(fo, Func) and fo.kind == 'class':
                yield P(Bound(fo, v)), st
            else:
                yield f, st
            return
        if isinstance(o, Super):
            f, c = o.cls_of(self, st).find(name, after=o.cls)
            if f is None:
                yield P(ExtBound(v, name)), st
                return
            yield from self.bind(f, o.self_, o.cls_of(self, st), st, n)
            return
        if isinstance(o, (Func, Bound)):
            if name in ('__name__',):
                yield C(o.name), st
            else:
                yield mk('attr', v, name), st
            return
        if v.op == 'enum':
            yield {'value': v.args[2], 'name': C(v.args[1])}.get(name, mk('attr', v, name)), st
            return
        if v.op == 'const' and v.args[0] is None:
            st.event('attrerror', v, name, 'NoneType', self.where(n))
            yield exc('AttributeError', C(name), v), st
            return
        if v.op == 'exc':
            yield mk('attr', v, name), st
            return
        yield from self.ext.val_attr(self, v, name, st, n)

    def lazy_field(self, o, name, st):
        return sym('%s.%s' % (ob(o.fields['$lazy']) if False else o.fields['$lazy'].args[0], name))

    def opaque_attr(self, v, name, st):
        if (v, name) in st.oattr:
            return st.oattr[(v, name)]
        if v.op == 'ref' or st.ver.get(v):
            return mk('attr', mk('at', v, st.ver.get(v, 0)) if st.ver.get(v) else v, name)
        return mk('attr', v, name)

    def bind(self, f, self_, cls, st, n):
        fo = ob(f)
        if isinstance(fo, Func):
            if fo.kind == 'property':
                yield from self.call(P(Bound(fo, self_)), [], {}, st, n)
            elif fo.kind == 'static':
                yield f, st
            elif fo.kind == 'class':
                yield P(Bound(fo, P(cls))), st
            else:
                yield P(Bound(fo, self_)), st
        else:
            yield f, st

    # ---- comprehensions
    def ev_ListComp(self, n, fr, st):
        for v, s in self.comp(n.generators, n.elt, fr, st):
            yield (v if isinstance(v, Exc) else s.new('list', val=v, tag=self.where(n))), s

    def ev_GeneratorExp(self, n, fr, st):
        yield from self.comp(n.generators, n.elt, fr, st)

    def ev_SetComp(self, n, fr, st):
        for v, s in self.comp(n.generators, n.elt, fr, st):
            if isinstance(v, Exc):
                yield v, s
                continue
            if v.op == 'list':
                r = mk('set', *dict.fromkeys(v.args))
            else:
                r = mk('app', 'set', (v,), ())
            yield s.new('set', val=r, tag=self.where(n)), s

    def ev_DictComp(self, n, fr, st):
        pair = ast.copy_location(ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), n)
        for v, s in self.comp(n.generators, pair, fr, st):
            if isinstance(v, Exc):
                yield v, s
                continue
            if v.op == 'list':
                d = mk('dict', ())
                for p in v.args:
                    d = dict_set(d, s.deep(p.args[0]), p.args[1])
            else:
                d = mk('app', 'dict', (v,), ())
            yield s.new('dict', val=d, tag=self.where(n)), s

    def comp(self, gens, elt, fr, st):
        """value term (list or map) of a comprehension"""
        g = gens[0]
        for itv, s in self.ev(g.iter, fr, st):
            if isinstance(itv, Exc):
                yield itv, s
                continue
            for it, s1 in self.iterate(itv, s, g.iter):
                yield from self._comp_one(it, g, gens, elt, fr, s1)

    def _comp_one(self, it, g, gens, elt, fr, s):
            fr2 = fr.child(self, s)
            if isinstance(it, list):
                yield from self._comp_concrete(it, 0, lst(), g, gens, elt, fr2, s)
                return
            k, dom, elem, cond = it
            base = s.fork()
            nfacts = len(base.facts.log)
            base.facts.assume(le(ZERO, k)) if is_int(k) else None
            if dom.op != 'unordered':
                base.facts.assume(lt(k, dom))
            nfacts = len(base.facts.log)
            nev = len(base.events)
            out = []
            conds = [cond] if cond is not None else []
            for st2, sig in self.assign(g.target, elem, fr2, base):
                if sig is not None:
                    raise Undecided('comprehension target')
                tests = [c for c in g.ifs]

                def body(st3, i, cacc):
                    if i < len(tests):
                        for cv, s4 in self.ev(tests[i], fr2, st3):
                            if isinstance(cv, Exc):
                                out.append((cv, s4, None))
                                continue
                            b = self.boolterm(cv, s4)
                            yield from body(s4, i + 1, cacc + [b])
                        return
                    s4 = st3
                    for c in cacc:
                        if isinstance(c, T) and s4.facts.decide(c) is None:
                            s4.facts.assume(c, log=False)
                    if len(gens) > 1:
                        for v, s5 in self.comp(gens[1:], elt, fr2, s4):
                            yield v, s5, cacc, True
                        return
                    for v, s5 in self.ev(elt, fr2, s4):
                        yield v, s5, cacc, False
                out.extend(body(st2, 0, list(conds)))
            excs = [o for o in out if isinstance(o[0], Exc)]
            vals = [o for o in out if not isinstance(o[0], Exc)]
            for o in excs:
                s5 = o[1]
                yield o[0], s5
            if not vals:
                return
            # combine the paths of the element expression
            c0 = vals[0][2]
            if any(v[2] != c0 for v in vals):
                raise Undecided('comprehension with forking condition at ' + self.where(elt))
            r = None
            for v, s5, cacc, nested in reversed(vals):
                pc = and_(*[t for t in s5.facts.log[nfacts:]])
                x = s5.deep(v)
                r = x if r is None else ite(pc, x, r)
            cterm = and_(*[c for c in c0]) if c0 else None
            after = s.fork()
            # effects inside the comprehension body
            lastst = vals[-1][1]
            evs = [v[1].events[nev:] for v in vals]
            if any(evs):
                after.events = after.events + (('loop', k, dom, tuple((and_(*v[1].facts.log[nfacts:]), e) for v, e in zip(vals, evs)), self.where(elt)),)
            for oid, o in lastst.heap.items():
                if oid not in after.heap:
                    after.heap[oid] = o
                elif after.heap[oid] is not o and o.kind != 'env':
                    after.heap[oid] = Obj(o.kind, o.cls, {f: (v if after.heap[oid].fields.get(f) is v else fresh('hv.' + f, kind_of(v))) for f, v in o.fields.items()} if o.fields is not None else None,
                                          fresh('hv', kind_of(o.val)) if o.val is not None and o.val is not after.heap[oid].val else o.val, o.base, o.tag)
            after.ver = dict(lastst.ver)
            if vals[0][3]:
                yield mk('flatmap', lam(r, k), dom, lam(cterm, k) if cterm is not None else None), after
                return
            if cterm is TRUE:
                cterm = None
            yield mkmap(k, r, dom, cterm), after

    def _comp_concrete(self, items, i, acc, g, gens, elt, fr2, s):
        if i == len(items):
            yield acc, s
            return
        for st2, sig in self.assign(g.target, items[i], fr2, s):
            if sig is not None:
                yield sig[1], st2
                continue

            def tests(j, st3):
                if j == len(g.ifs):
                    yield True, st3
                    return
                for cv, s4 in self.ev(g.ifs[j], fr2, st3):
                    if isinstance(cv, Exc):
                        yield cv, s4
                        continue
                    for b, s5 in self.fork_on(cv, s4):
                        if b:
                            yield from tests(j + 1, s5)
                        else:
                            yield False, s5
            for b, st3 in tests(0, st2):
                if isinstance(b, Exc):
                    yield b, st3
                elif not b:
                    yield from self._comp_concrete(items, i + 1, acc, g, gens, elt, fr2, st3)
                elif len(gens) > 1:
                    for v, st4 in self.comp(gens[1:], elt, fr2, st3):
                        if isinstance(v, Exc):
                            yield v, st4
                        else:
                            yield from self._comp_concrete(items, i + 1, cat(acc, v), g, gens, elt, fr2, st4)
                else:
                    for v, st4 in self.ev(elt, fr2, st3):
                        if isinstance(v, Exc):
                            yield v, st4
                        else:
                            yield from self._comp_concrete(items, i + 1, cat(acc, lst(v)), g, gens, elt, fr2, st4)

    # ---- iteration protocol
    def iterate(self, v, st, n=None):
        """yields (list of values | (k, domain, elem, cond), st)"""
        o = st.obj(v) if v.op == 'ref' else None
        if o is not None and o.kind == 'inst':
            m, _ = o.cls.find('__iter__')
            if m is None:
                raise Undecided('iteration over instance at ' + self.where(n))
            for r, s in self.call(P(Bound(ob(m), v)), [], {}, st, n):
                if isinstance(r, Exc):
                    raise Undecided('iter raises')
                yield from self.iterate(r, s, n)
            return
        x = st.val(v)
        if x.op == 'dict':
            yield [k for k, _ in x.args[0]], st
            return
        if x.op in ('list', 'tuple', 'set') and not any(e.op == 'star' for e in x.args):
            if o is None or o.kind != 'arr':
                yield list(x.args), st
                return
        if x.op == 'const' and isinstance(x.args[0], str):
            yield [C(c) for c in x.args[0]], st
            return
        if x.op == 'app' and x.args[0] == 'range' and all(num(a) is not None for a in x.args[1]) and len(range(*[int(num(a)) for a in x.args[1]])) <= 8:
            yield [C(i) for i in range(*[int(num(a)) for a in x.args[1]])], st
            return
        y = st.deep(x) if x.op not in ('map', 'cat') else x
        k = fresh('k', 'nat')
        yield self.iter_term(y, k, st), st

    def iter_term(self, x, k, st=None):
        if x.op == 'map':
            return k, x.args[1], instantiate(x.args[0], k), (instantiate(x.args[2], k) if x.args[2] is not None else None)
        if x.op == 'app' and x.args[0] == 'range':
            a = x.args[1]
            if len(a) == 1:
                return k, a[0], k, None
            if len(a) == 2 or (len(a) == 3 and a[2] is ONE):
                return k, sub_(a[1], a[0]), add(a[0], k), None
            return k, mk('app', 'rangelen', a, ()), add(a[0], mul(k, a[2])), None
        if x.op == 'app' and x.args[0] == 'list' and len(x.args[1]) == 1:
            return self.iter_term(x.args[1][0], k, st)
        if (x.op == 'sym' and x.args[1] in ('set', 'dict')) or (x.op == 'app' and x.args[0] in ('set', 'setdiff', 'inter', 'union', 'dict')):
            return k, mk('unordered', x), mk('elem', x, k), None
        e = sub(x, k)
        if st is not None:
            e = self.ext.simp_sub(e, st)
        return k, length(x), e, None

    def materialize(self, it, k=None):
        pass

    # ---- calls
    def ev_Call(self, n, fr, st):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args and fr.lookup('super', st) is not None:
            f = fr
            if fr.func is None or fr.func.cls is None:
                raise Undecided('super outside class')
            a0 = fr.func.node.args.args[0].arg
            yield P(Super(fr.func.cls, fr.lookup(a0, st))), st
            return
        for fv, s in self.ev(n.func, fr, st):
            if isinstance(fv, Exc):
                yield fv, s
                continue
            nodes = [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
            for vs, s2 in self.evs(nodes, fr, s):
                if isinstance(vs, Exc):
                    yield vs, s2
                    continue
                args, kw = [], {}
                for a, v in zip(n.args, vs):
                    if isinstance(a, ast.Starred):
                        w = s2.val(v)
                        if w.op in ('tuple', 'list'):
                            args.extend(w.args)
                        else:
                            args.append(mk('star', w))
                    else:
                        args.append(v)
                for k, v in zip(n.keywords, vs[len(n.args):]):
                    if k.arg is None:
                        w = s2.val(v)
                        if w.op == 'dict' and all(kk.op == 'const' for kk, _ in w.args[0]):
                            for kk, vv in w.args[0]:
                                kw[kk.args[0]] = vv
                        else:
                            kw['**'] = w
                    else:
                        kw[k.arg] = v
                yield from self.call(fv, args, kw, s2, n)

    def call(self, fv, args, kw, st, n=None):
        self.tick(n)
        if self.call_hook is not None:
            r = self.call_hook(fv, args, kw, st, n)
            if r is not None:
                yield from r
                return
        o = ob(fv)
        if isinstance(o, Bound):
            if isinstance(o.func, Func):
                yield from self.call_func(o.func, [o.self_] + list(args), kw, st, n)
            else:
                yield from self.call(P(o.func), [o.self_] + list(args), kw, st, n)
        elif isinstance(o, Func):
            yield from self.call_func(o, list(args), kw, st, n)
        elif isinstance(o, ClassV):
            yield from self.instantiate_class(o, args, kw, st, n)
        elif isinstance(o, Ext):
            yield from self.ext.call_ext(self, o.name, args, kw, st, n)
        elif isinstance(o, ExtBound):
            yield from self.ext.call_method(self, o.recv, o.meth, args, kw, st, n)
        elif fv.op == 'ref' and st.obj(fv).kind == 'inst':
            m, _ = st.obj(fv).cls.find('__call__')
            if m is None:
                st.event('attrerror', fv, '__call__', st.obj(fv).cls.name, self.where(n))
                yield exc('TypeError', C('not callable')), st
                return
            yield from self.call(P(Bound(ob(m), fv)), args, kw, st, n)
        else:
            yield from self.ext.call_opaque(self, fv, args, kw, st, n)

    def instantiate_class(self, c, args, kw, st, n):
        if c.enum:
            yield mk('app', 'enumcall', (P(c),) + tuple(args), ()), st
            return
        if any(getattr(b, 'name', '') in BUILTIN_EXC or getattr(b, 'name', '').split('.')[-1] in BUILTIN_EXC for b in c.getmro() if not isinstance(b, ClassV)):
            yield mk('exc', c.name, tuple(st.deep(a) for a in args)), st
            return
        r = st.new('inst', cls=c, fields={}, tag=self.where(n))
        st.event('new', r, c.name, self.where(n))
        init, _ = c.find('__init__')
        if init is None:
            if c.opaque_base():
                st.event('extinit', r, tuple(args), self.where(n))
            elif args or kw:
                yield exc('TypeError', C('takes no arguments')), st
                return
            yield r, st
            return
        for v, s in self.call(P(Bound(ob(init), r)), args, kw, st, n):
            yield (v if isinstance(v, Exc) else r), s

    def bind_args(self, f, args, kw, st):
        """-> dict or Exc"""
        a = f.node.args
        pos = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        fields = {}
        args = list(args)
        if any(x.op == 'star' for x in args):
            raise Undecided('star args into ' + f.qual)
        for name, v in zip(pos, args):
            fields[name] = v
        extra = args[len(pos):]
        if extra:
            if a.vararg is None:
                return exc('TypeError', C('too many positional arguments for ' + f.qual))
        if a.vararg is not None:
            fields[a.vararg.arg] = tup(*extra)
        kwrest = []
        for k, v in kw.items():
            if k == '**':
                if a.kwarg is None:
                    raise Undecided('**kwargs into ' + f.qual)
                kwrest.append((mk('starstar'), v))
                continue
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in fields:
                    return exc('TypeError', C('multiple values for ' + k))
                fields[k] = v
            elif a.kwarg is not None:
                kwrest.append((C(k), v))
            else:
                return exc('TypeError', C('unexpected keyword %s for %s' % (k, f.qual)))
        if a.kwarg is not None:
            if kwrest and kwrest[0][0].op == 'starstar' and len(kwrest) == 1:
                fields[a.kwarg.arg] = st.new('dict', val=kwrest[0][1])
            else:
                fields[a.kwarg.arg] = st.new('dict', val=mk('dict', tuple(kwrest)))
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in fields:
                j = i - (len(pos) - nd)
                if j < 0:
                    return exc('TypeError', C('missing argument %s of %s' % (name, f.qual)))
                fields[name] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in fields:
                if x.arg in f.kwdefaults:
                    fields[x.arg] = f.kwdefaults[x.arg]
                else:
                    return exc('TypeError', C('missing keyword argument %s of %s' % (x.arg, f.qual)))
        return fields

    def call_func(self, f, args, kw, st, n=None):
        if f.qual in self.cut:
            st.event('cutcall', f.qual, tuple(args), tuple(sorted(kw.items())), self.where(n))
            yield mk('app', 'cut:' + f.qual, tuple(st.deep(a) for a in args), tuple(sorted((k, st.deep(v)) for k, v in kw.items()))), st
            return
        if sum(1 for g in self.stack if g is f) >= 3 or len(self.stack) > 60:
            if self.rec_opaque:
                st.event('cutcall', f.qual, tuple(args), tuple(sorted(kw.items())), self.where(n))
                yield fresh('recursive result', 'obj'), st
                return
            raise Undecided('recursion in ' + f.qual)
        self.visited.add(f.qual)
        fields = self.bind_args(f, args, kw, st)
        if isinstance(fields, Exc):
            st.event('badcall', f.qual, fields.v.args[1][0].args[0], self.where(n))
            yield fields, st
            return
        env = st.new('env', cls=('func', f, f.env), fields=fields)
        fr = Frame(self, f.mod, env, f.cls, f)
        caller = list(self.stack)
        if isinstance(f.node, ast.Lambda):
            gen = self.ev(f.node.body, fr, st)
            while True:
                saved, self.stack = self.stack, caller + [f]
                try:
                    v, s = next(gen)
                except StopIteration:
                    return
                finally:
                    self.stack = saved
                yield v, s
            return
        acc = None
        if f.isgen:
            acc = st.new('list', val=lst(), tag='yield')
            fr.yield_acc = acc
        gen = self.exec_block(f.node.body, fr, st)
        while True:
            saved, self.stack = self.stack, caller + [f]
            try:
                s, sig = next(gen)
            except StopIteration:
                return
            finally:
                self.stack = saved
            if sig is None:
                v = NONE
            elif sig[0] == 'ret':
                v = sig[1]
            elif sig[0] == 'exc':
                yield sig[1], s
                continue
            else:
                raise Undecided('stray ' + sig[0])
            if f.isgen:
                v = s.val(acc)
            yield v, s

    def ev_Yield(self, n, fr, st):
        nodes = [n.value] if n.value is not None else []
        for vs, s in self.evs(nodes, fr, st):
            if isinstance(vs, Exc):
                yield vs, s
                continue
            v = vs[0] if vs else NONE
            s.event('yield', v, self.where(n))
            if self.yield_hook:
                self.yield_hook(v, s, n)
            s.setval(fr.yield_acc, cat(s.val(fr.yield_acc), lst(v)))
            yield NONE, s

    def ev_YieldFrom(self, n, fr, st):
        for v, s in self.ev(n.value, fr, st):
            if isinstance(v, Exc):
                yield v, s
                continue
            s.event('yieldfrom', v, self.where(n))
            s.setval(fr.yield_acc, cat(s.val(fr.yield_acc), s.val(v)))
            yield NONE, s

    def ev_NamedExpr(self, n, fr, st):
        for v, s in self.ev(n.value, fr, st):
            if isinstance(v, Exc):
                yield v, s
                continue
            fr.set(n.target.id, v, s)
            yield v, s

    def ev_Starred(self, n, fr, st):
        raise Undecided('starred')

    # ================================================================= statements
    def exec_block(self, stmts, fr, st):
        if not stmts:
            yield st, None
            return
        for s, sig in self.exec_stmt(stmts[0], fr, st):
            if sig is not None:
                yield s, sig
            else:
                yield from self.exec_block(stmts[1:], fr, s)

    def exec_stmt(self, n, fr, st):
        self.tick(n)
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            raise Undecided('unsupported statement %s at %s' % (type(n).__name__, self.where(n)))
        return m(n, fr, st)

    def ex_Expr(self, n, fr, st):
        for v, s in self.ev(n.value, fr, st):
            yield s, (('exc', v) if isinstance(v, Exc) else None)

    def ex_Pass(self, n, fr, st):
        yield st, None

    ex_Nonlocal = None

    def ex_Global(self, n, fr, st):
        fr.globals_.update(n.names)
        yield st, None

    def ex_Nonlocal(self, n, fr, st):
        fr.nonlocals.update(n.names)
        yield st, None

    def ex_Return(self, n, fr, st):
        if n.value is None:
            yield st, ('ret', NONE)
            return
        for v, s in self.ev(n.value, fr, st):
            yield s, (('exc', v) if isinstance(v, Exc) else ('ret', v))

    def ex_Break(self, n, fr, st):
        yield st, ('break',)

    def ex_Continue(self, n, fr, st):
        yield st, ('continue',)

    def ex_Assert(self, n, fr, st):
        for c, s in self.ev(n.test, fr, st):
            if isinstance(c, Exc):
                yield s, ('exc', c)
                continue
            for b, s2 in self.fork_on(c, s):
                if b:
                    yield s2, None
                else:
                    s2.event('raise', 'AssertionError', (), self.where(n))
                    yield s2, ('exc', exc('AssertionError'))

    def ex_Raise(self, n, fr, st):
        if n.exc is None:
            cur = fr.cur_exc
            yield st, ('exc', cur if cur is not None else exc('RuntimeError'))
            return
        for v, s in self.ev(n.exc, fr, st):
            if isinstance(v, Exc):
                yield s, ('exc', v)
                continue
            o = ob(v)
            if isinstance(o, ClassV):
                v = mk('exc', o.name, ())
            elif isinstance(o, Ext):
                v = mk('exc', o.name.split('.')[-1], ())
            elif v.op != 'exc':
                v = mk('exc', '?', (s.deep(v),))
            s.event('raise', v.args[0], v.args[1], self.where(n))
            yield s, ('exc', Exc(v))

    def ex_If(self, n, fr, st):
        for c, s in self.ev(n.test, fr, st):
            if isinstance(c, Exc):
                yield s, ('exc', c)
                continue
            for b, s2 in self.fork_on(c, s):
                yield from self.exec_block(n.body if b else n.orelse, fr, s2)

    def ex_Import(self, n, fr, st):
        for a in n.names:
            if a.name in self.prog.mods:
                top = a.name if a.asname else a.name.split('.')[0]
                fr.set(a.asname or top, P(ModV(top)), st)
            else:
                fr.set(a.asname or a.name.split('.')[0], P(Ext(a.name if a.asname else a.name.split('.')[0])), st)
        yield st, None

    def ex_ImportFrom(self, n, fr, st):
        base = self.prog.resolve_from(fr.mod, n)
        if base == '__future__':
            yield st, None
            return
        for a in n.names:
            if base in self.prog.mods:
                if base not in self._booted and fr.func is None:
                    saved = self.st0
                    self.st0 = st
                    self.boot_module(base)
                    st = self.st0
                menv = st.obj(self.modenv[base]).fields
                if a.name == '*':
                    allv = menv.get('__all__')
                    names = [x.args[0] for x in st.val(allv).args] if allv is not None else [k for k in menv if not k.startswith('_')]
                    for k in names:
                        if k in menv:
                            fr.set(k, menv[k], st)
                    continue
                if a.name in menv:
                    fr.set(a.asname or a.name, menv[a.name], st)
                elif base + '.' + a.name in self.prog.mods:
                    if base + '.' + a.name not in self._booted and fr.func is None:
                        self.st0 = st
                        self.boot_module(base + '.' + a.name)
                        st = self.st0
                    fr.set(a.asname or a.name, P(ModV(base + '.' + a.name)), st)
                elif base + '.' + a.name in self.prog.native:
                    fr.set(a.asname or a.name, P(Ext(base + '.' + a.name)), st)
                else:
                    # circular import at boot: bind late
                    fr.set(a.asname or a.name, mk('late', base, a.name), st)
            elif base in self.prog.native:
                fr.set(a.asname or a.name, P(Ext(base + '.' + a.name)), st)
            else:
                cv = self.ext.ext_const(canon_ext(base + '.' + a.name))
                fr.set(a.asname or a.name, cv if cv is not None else P(Ext(base + '.' + a.name)), st)
        yield st, None

    def ex_FunctionDef(self, n, fr, st):
        for v, s in self.make_func(n, fr, st, n.name):
            if isinstance(v, Exc):
                yield s, ('exc', v)
                continue
            yield from self._decorate(list(reversed(n.decorator_list)), v, n, fr, s)

    def _decorate(self, decs, v, n, fr, st):
        if not decs:
            fr.set(n.name, v, st)
            yield st, None
            return
        d = decs[0]
        f = ob(v)
        if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod') and isinstance(f, Func):
            f.kind = {'property': 'property', 'staticmethod': 'static', 'classmethod': 'class'}[d.id]
            yield from self._decorate(decs[1:], v, n, fr, st)
            return
        if isinstance(d, ast.Attribute) and d.attr == 'setter' and isinstance(d.value, ast.Name):
            g = ob(fr.lookup(d.value.id, st))
            if isinstance(g, Func):
                g.setter = f
                fr.set(n.name, P(g), st)
                yield st, None
                return
        for dv, s in self.ev(d, fr, st):
            if isinstance(dv, Exc):
                yield s, ('exc', dv)
                continue
            for r, s2 in self.call(dv, [v], {}, s, n):
                if isinstance(r, Exc):
                    yield s2, ('exc', r)
                    continue
                yield from self._decorate(decs[1:], r, n, fr, s2)

    def ex_ClassDef(self, n, fr, st):
        for bs, s in self.evs(n.bases, fr, st):
            if isinstance(bs, Exc):
                yield s, ('exc', bs)
                continue
            bases = [ob(b) if ob(b) is not None else b for b in bs]
            c = ClassV(n.name, fr.mod, bases)
            if any(getattr(b, 'name', '') == 'enum.Enum' or (isinstance(b, ClassV) and b.enum) for b in bases):
                c.enum = True
            c.node = n
            cenv = s.new('env', cls=('class', c, fr.env), fields={})
            cfr = Frame(self, fr.mod, cenv, c, None)
            cfr.outer_env = fr.env
            for s2, sig in self.exec_block(n.body, cfr, s):
                if sig is not None:
                    yield s2, sig
                    continue
                c.attrs = dict(s2.obj(cenv).fields)
                if c.enum:
                    c.attrs = {k: (mk('enum', c.name, k, v) if ob(v) is None else v) for k, v in c.attrs.items()}
                fr.set(n.name, P(c), s2)
                yield s2, None

    def ex_Assign(self, n, fr, st):
        for v, s in self.ev(n.value, fr, st):
            if isinstance(v, Exc):
                yield s, ('exc', v)
                continue
            yield from self._assign_all(n.targets, v, fr, s)

    def _assign_all(self, targets, v, fr, st):
        if not targets:
            yield st, None
            return
        for s, sig in self.assign(targets[0], v, fr, st):
            if sig is not None:
                yield s, sig
            else:
                yield from self._assign_all(targets[1:], v, fr, s)

    def ex_AnnAssign(self, n, fr, st):
        if n.value is None:
            yield st, None
            return
        for v, s in self.ev(n.value, fr, st):
            if isinstance(v, Exc):
                yield s, ('exc', v)
                continue
            yield from self.assign(n.target, v, fr, s)

    def ex_Delete(self, n, fr, st):
        for t in n.targets:
            st.event('del', ast.dump(t)[:60], self.where(n))
            if isinstance(t, ast.Name):
                o = st.obj(fr.env).copy()
                o.fields.pop(t.id, None)
                st.heap[fr.env.args[0]] = o
            else:
                raise Undecided('del at ' + self.where(n))
        yield st, None

    def assign(self, t, v, fr, st):
        """yields (st, sig)"""
        if isinstance(t, ast.Name):
            fr.set(t.id, v, st)
            yield st, None
        elif isinstance(t, (ast.Tuple, ast.List)):
            w = st.val(v)
            if w.op in ('tuple', 'list') and len(w.args) == len(t.elts):
                parts = list(w.args)
            else:
                w = st.deep(w)
                parts = [self.ext.unpack(w, i, len(t.elts), st) for i in range(len(t.elts))]
            yield from self._assign_seq(list(zip(t.elts, parts)), fr, st)
        elif isinstance(t, ast.Attribute):
            for o, s in self.ev(t.value, fr, st):
                if isinstance(o, Exc):
                    yield s, ('exc', o)
                    continue
                yield from self.setattr(o, fr.mangle(t.attr), v, s, t)
        elif isinstance(t, ast.Subscript):
            for vs, s in self.evs([t.value, t.slice], fr, st):
                if isinstance(vs, Exc):
                    yield s, ('exc', vs)
                    continue
                yield from self.setitem(vs[0], vs[1], v, s, t)
        else:
            raise Undecided('assignment target at ' + self.where(t))

    def _assign_seq(self, pairs, fr, st):
        if not pairs:
            yield st, None
            return
        for s, sig in self.assign(pairs[0][0], pairs[0][1], fr, st):
            if sig is not None:
                yield s, sig
            else:
                yield from self._assign_seq(pairs[1:], fr, s)

    def setattr(self, o, name, v, st, n):
        if o.op == 'ref' and st.obj(o).kind == 'inst':
            f, _ = st.obj(o).cls.find(name)
            fo = ob(f) if f is not None else None
            if isinstance(fo, Func) and fo.kind == 'property':
                if fo.setter is None:
                    st.event('attrerror', o, name, 'no setter', self.where(n))
                    yield st, ('exc', exc('AttributeError', C(name)))
                    return
                for r, s in self.call_func(fo.setter, [o, v], {}, st, n):
                    yield s, (('exc', r) if isinstance(r, Exc) else None)
                return
            st.setfield(o, name, v)
            st.event('setattr', o, name, v, self.where(n))
            yield st, None
            return
        if o.op == 'ref':
            st.event('setattr', o, name, v, self.where(n))
            yield st, None
            return
        if o.op == 'const':
            yield st, ('exc', exc('AttributeError', C(name)))
            return
        po = ob(o)
        if isinstance(po, ClassV):
            st.event('classmut', po.name, name, self.where(n))
            yield st, None
            return
        if isinstance(po, ModV):
            st.setfield(self.modenv[po.name], name, v)
            st.event('modmut', po.name, name, self.where(n))
            yield st, None
            return
        st.event('setattr', o, name, v, self.where(n))
        st.oattr[(o, name)] = v
        yield st, None

    def setitem(self, b, i, v, st, n):
        if b is NONE:
            yield st, ('exc', exc('TypeError', C('None[...]')))
            return
        if b.op == 'ref':
            o = st.obj(b)
            if o.kind == 'inst':
                m, _ = o.cls.find('__setitem__')
                if m is not None:
                    for r, s in self.call(P(Bound(ob(m), b)), [i, v], {}, st, n):
                        yield s, (('exc', r) if isinstance(r, Exc) else None)
                    return
                raise Undecided('setitem on instance')
            idx = st.deep(i)
            cur = st.val(b)
            if o.kind == 'dict':
                keep = v
                if cur.op == 'dict':
                    if idx.op == 'const' or not cur.args[0]:
                        nv = dict_set(cur, idx, v)
                    else:
                        nv = store(cur, idx, st.deep(v))
                else:
                    nv = self.ext.simp_store(cur, idx, st.deep(v), st)
            elif o.kind == 'list':
                k = num(idx)
                if cur.op == 'list' and k is not None and -len(cur.args) <= k < len(cur.args):
                    xs = list(cur.args)
                    xs[int(k)] = v
                    nv = lst(*xs)
                else:
                    nv = store(cur, idx, st.deep(v))
            else:
                nv = self.ext.simp_store(st.deep(cur), idx, st.deep(v), st)
            st.event('mut', st.root(b), 'setitem', idx, self.where(n))
            st.setval(b, nv)
            yield st, None
            return
        # write through a value we do not own as an object (e.g. attribute of an opaque object)
        st.event('mutval', b, 'setitem', st.deep(i), self.where(n))
        yield st, None

    def ex_AugAssign(self, n, fr, st):
        import copy as _c
        load = _c.deepcopy(n.target)
        for x in ast.walk(load):
            if hasattr(x, 'ctx'):
                x.ctx = ast.Load()
        load.ctx = ast.Load()
        opn = type(n.op).__name__
        for vs, s in self.evs([load, n.value], fr, st):
            if isinstance(vs, Exc):
                yield s, ('exc', vs)
                continue
            a, b = vs
            if a.op == 'ref' and s.obj(a).kind in ('arr', 'list', 'set', 'dict'):
                o = s.obj(a)
                if o.kind == 'list' and opn == 'Add':
                    nv = cat(s.val(a), s.val(b))
                elif o.kind in ('set', 'dict') :
                    f = {'Sub': 'setdiff', 'BitAnd': 'inter', 'BitOr': 'union'}.get(opn)
                    if not f:
                        raise Undecided('augassign on ' + o.kind)
                    nv = setop(f, s.deep(a), s.deep(b))
                else:
                    nv = arith(opn, s.deep(a), s.deep(b))
                    if nv is None:
                        raise Undecided('augassign ' + opn)
                s.event('mut', s.root(a), 'aug' + opn, None, self.where(n))
                s.setval(a, nv)
                if isinstance(n.target, ast.Name):
                    yield s, None
                else:
                    # x[i] += v on a nested object: the element itself was updated in place
                    if isinstance(n.target, ast.Subscript):
                        yield from self.assign(n.target, a, fr, s)
                    else:
                        yield s, None
                continue
            r = self.binop(opn, a, b, s)
            if opn != 'Add' or not isstr(r):
                arr = b.op == 'ref' and s.obj(b).kind == 'arr'
                if (a.op in ('attr', 'app') and not is_int(a)) or (((a.op == 'sub' and a.args[0].op == 'app' and a.args[0].args[0] in ('.training_set', '.last_training_set')) or arr or arraylike(s.deep(b), a)) and a.op in ('sub', 'oattr', 'sym', 'call', 'ocall') and not is_int(a)):
                    # possibly an in-place update of memory reachable elsewhere
                    s.event('augval', a, opn, self.where(n))
            yield from self.assign(n.target, r, fr, s)

    def ex_With(self, n, fr, st):
        nodes = [i.context_expr for i in n.items]
        for vs, s in self.evs(nodes, fr, st):
            if isinstance(vs, Exc):
                yield s, ('exc', vs)
                continue
            pairs = [(i.optional_vars, mk('app', 'enter', (v,), ())) for i, v in zip(n.items, vs) if i.optional_vars is not None]
            for s2, sig in self._assign_seq(pairs, fr, s):
                if sig is not None:
                    yield s2, sig
                    continue
                yield from self.exec_block(n.body, fr, s2)

    # ---- exceptions
    def ex_Try(self, n, fr, st):
        def run_finally(s, sig):
            if not n.finalbody:
                yield s, sig
                return
            for s2, sig2 in self.exec_block(n.finalbody, fr, s):
                if sig2 is not None:
                    if sig is not None and sig[0] == 'exc':
                        s2.event('swallow', sig[1].v, 'finally', self.where(n))
                    yield s2, sig2
                else:
                    yield s2, sig
        for s, sig in self._try_body(n, fr, st):
            if sig is not None and sig[0] == 'exc':
                yield from self._handlers(n, 0, sig[1], fr, s, run_finally)
            elif sig is None and n.orelse:
                for s2, sig2 in self.exec_block(n.orelse, fr, s):
                    yield from run_finally(s2, sig2)
            else:
                yield from run_finally(s, sig)

    def _try_body(self, n, fr, st):
        gen = self.exec_block(n.body, fr, st)
        while True:
            self.try_depth += 1
            try:
                r = next(gen)
            except StopIteration:
                return
            finally:
                self.try_depth -= 1
            yield r

    def _handlers(self, n, i, e, fr, s, fin):
        if i == len(n.handlers):
            yield from fin(s, ('exc', e))
            return
        h = n.handlers[i]
        m = self.exc_matches(e.v, h.type, fr, s)
        if m is not False:
            s2 = s.fork() if m is None else s
            s2.event('caught', e.v, self.where(h))
            if h.name:
                fr.set(h.name, e.v, s2)
            old = fr.cur_exc
            fr.cur_exc = e
            for s3, sig in self.exec_block(h.body, fr, s2):
                yield from fin(s3, sig)
            fr.cur_exc = old
        if m is not True:
            yield from self._handlers(n, i + 1, e, fr, s, fin)

    def exc_matches(self, v, typ, fr, st):
        """True / False / None"""
        if typ is None:
            return True
        names = []
        for t in (typ.elts if isinstance(typ, ast.Tuple) else [typ]):
            for tv, _ in self.ev(t, fr, st.fork()):
                o = ob(tv)
                names.append(o if isinstance(o, ClassV) else getattr(o, 'name', '?').split('.')[-1])
        name = v.args[0]
        if name in ('ext', '?'):
            return True if any(x in ('Exception', 'BaseException') for x in names) else None
        for x in names:
            xn = x.name if isinstance(x, ClassV) else x
            if xn == name or xn in ('Exception', 'BaseException'):
                return True
            try:
                c = self.find_class(name)
                if any(getattr(b, 'name', None) == xn for b in c.getmro()):
                    return True
            except KeyError:
                pass
            a, b = getattr(builtins, name, None), getattr(builtins, xn, None)
            if isinstance(a, type) and isinstance(b, type) and issubclass(a, b):
                return True
        return False

    # ---- loops
    def ex_For(self, n, fr, st):
        for v, s in self.ev(n.iter, fr, st):
            if isinstance(v, Exc):
                yield s, ('exc', v)
                continue
            for it, s1 in self.iterate(v, s, n.iter):
                if isinstance(it, list) and len(it) <= 12:
                    yield from self._unroll(it, 0, n, fr, s1)
                elif isinstance(it, list):
                    raise Undecided('long concrete loop')
                else:
                    yield from self._generic_for(it, n, fr, s1)

    def _unroll(self, items, i, n, fr, st):
        if i == len(items):
            yield from self.exec_block(n.orelse, fr, st)
            return
        for s, sig in self.assign(n.target, items[i], fr, st):
            if sig is not None:
                yield s, sig
                continue
            for s2, g in self.exec_block(n.body, fr, s):
                if g is None or g[0] == 'continue':
                    yield from self._unroll(items, i + 1, n, fr, s2)
                elif g[0] == 'break':
                    yield s2, None
                else:
                    yield s2, g

    def changed(self, a, b):
        """locations of heap a modified in heap b: [(oid, field|None)]"""
        out = []
        for oid, o in a.heap.items():
            p = b.heap.get(oid)
            if p is o or p is None:
                continue
            if o.fields is not None:
                for f in set(o.fields) | set(p.fields):
                    if o.fields.get(f) is not p.fields.get(f):
                        out.append((oid, f))
            if o.val is not p.val:
                out.append((oid, None))
        return sorted(out, key=lambda x: (x[0], str(x[1])))

    def havoc(self, st, locs):
        """fresh symbols at locs; returns {loc: symbol}; locations that did not exist before are dropped"""
        m = {}
        for oid, f in locs:
            o = st.heap[oid].copy()
            if f is None:
                k = kind_of(o.val)
                s = fresh('acc', k)
                o.val = s
            else:
                old = o.fields.get(f)
                if old is None:
                    continue
                if old.op == 'ref':
                    ko = st.heap.get(old.args[0])
                    if ko is not None and ko.kind in ('arr', 'list', 'dict', 'set'):
                        s = st.new(ko.kind, val=fresh('acc', 'arr' if ko.kind == 'arr' else ko.kind))
                        m[(oid, f)] = s
                        o.fields[f] = s
                        st.heap[oid] = o
                        continue
                    s = fresh('acc', None)
                else:
                    s = fresh('acc', kind_of(old))
                o.fields[f] = s
            m[(oid, f)] = s
            st.heap[oid] = o
        return m

    def value_at(self, st, loc):
        oid, f = loc
        o = st.heap[oid]
        return o.val if f is None else o.fields.get(f)

    def _find_locs(self, runbody, st, fr):
        locs = []
        for _ in range(5):
            probe = st.fork()
            self.havoc(probe, locs)
            if self.havoc_hook:
                self.havoc_hook(probe, locs)
            base = probe.fork()
            new = set()
            for s, sig in runbody(probe):
                for l in self.changed(base, s):
                    if l[0] in st.heap:
                        new.add(l)
            more = [l for l in sorted(new, key=lambda x: (x[0], str(x[1]))) if l not in locs]
            if not more:
                return locs
            locs = locs + more
        raise Undecided('loop does not stabilise at ' + self.where())

    def _generic_for(self, it, n, fr, st):
        k, dom, elem, cond = it

        def run(s):
            if is_int(k):
                s.facts.assume(le(ZERO, k), log=False)
            if dom.op != 'unordered':
                s.facts.assume(lt(k, dom), log=False)
            # the elements of a list of fresh objects are represented by one generic object
            if cond is not None:
                for b, s1 in self.fork_on(cond, s):
                    if not b:
                        yield s1, ('continue',)
                        continue
                    yield from body(s1)
                return
            yield from body(s)

        inplace = None
        if setmutated(n) and k is not None:
            for r, s0 in self.ev(n.iter, fr, st.fork()):
                if isinstance(r, T) and r.op == 'ref' and st.heap.get(r.args[0]) is not None and st.heap[r.args[0]].kind == 'list' and st.heap[r.args[0]].base is None and sub(st.val(r), k) is elem:
                    inplace = r
                break

        def body(s):
            e = elem
            if inplace is not None:
                # the loop variable is an element changed in place: writes go through to the list
                e = s.new('set', base=(inplace, lambda w: sub(w, k), lambda w, v: mk('store', w, k, v)), tag='view')
            for s1, sig in self.assign(n.target, e, fr, s):
                if sig is not None:
                    yield s1, sig
                    continue
                yield from self.exec_block(n.body, fr, s1)
        saved_hooks, self.body_hook, self.after_hook = (self.body_hook, self.after_hook), None, None
        locs = self._find_locs(run, st, fr)
        self.body_hook, self.after_hook = saved_hooks
        # drop variables local to the body (not defined before the loop)
        h = st.fork()
        accs = self.havoc(h, locs)
        if self.havoc_hook:
            self.havoc_hook(h, locs)
        entry = h.fork()
        nfacts, nev = len(h.facts.log), len(h.events)
        self.loop_depth += 1
        try:
            paths = list(run(h))
        finally:
            self.loop_depth -= 1
        if self.body_hook:
            self.loop_pre, self.loop_accs = st, accs
            self.body_hook(n, entry, paths, k, dom, elem)
        cont = [(s, g) for s, g in paths if g is None or g[0] == 'continue']
        brk = [(s, g) for s, g in paths if g is not None and g[0] == 'break']
        exits = [(s, g) for s, g in paths if g is not None and g[0] in ('ret', 'exc')]
        evinfo = tuple((and_(*s.facts.log[nfacts:]), s.events[nev:]) for s, g in cont)
        loopev = ('loop', k, dom, evinfo, self.where(n)) if any(e for _, e in evinfo) else None
        # early exits happen in some iteration, from a prefix state
        for s, g in exits:
            s.events = s.events[:nev] + ((('loopprefix',) + loopev[1:],) if loopev else ()) + s.events[nev:]
            yield s, g
        exitconds = [and_(*s.facts.log[nfacts:]) for s, g in exits + brk]
        self.last_own = {}
        out = []
        if cont or not paths:
            after = st.fork()
            self.summarise(after, st, entry, accs, locs, cont, nfacts, k, dom, bool(brk) or bool(exits), fr)
            if self.after_hook:
                self.after_hook(n, after, accs)
            if loopev:
                after.events = after.events + (loopev,)
            for c in exitconds:
                if self.last_own:
                    c = subst(c, self.last_own)
                if not any(mentions(c, entry.deep(a)) for a in accs.values()):
                    after.facts.assume(not_(mk('any', lam(c, k), dom)))
            out.append((after, None))
        elif st.facts.decide(eq(dom, ZERO) if dom.op != 'unordered' else FALSE) is not False:
            # every iteration leaves the loop: the loop may still be empty
            after = st.fork()
            if dom.op != 'unordered':
                after.facts.assume(eq(dom, ZERO))
            out.append((after, None))
        for s, g in brk:
            s.events = s.events[:nev] + ((('loopprefix',) + loopev[1:],) if loopev else ()) + s.events[nev:]
            yield s, None
        for a, g in out:
            yield from self.exec_block(n.orelse, fr, a)

    def summarise(self, after, st, entry, accs, locs, cont, nfacts, k, dom, early, fr):
        if not cont:
            return
        # objects created inside the body: keep one representative
        for s, g in cont:
            for oid, o in s.heap.items():
                if oid not in after.heap:
                    after.heap[oid] = o
            for v, c in s.ver.items():
                if after.ver.get(v, 0) < c:
                    after.ver[v] = c
            for kk, vv in s.oattr.items():
                if after.oattr.get(kk) is not vv:
                    after.oattr[kk] = fresh('hv.' + kk[1])
        vals = {}
        for loc in locs:
            acc = accs.get(loc)
            f = None
            bad = False
            for s, g in reversed(cont):
                pc = and_(*s.facts.log[nfacts:])
                v = self.value_at(s, loc)
                if v is None:
                    bad = True
                    break
                v = s.deep(v) if (v.op != 'ref' or s.heap.get(v.args[0]) is None or s.heap[v.args[0]].kind != 'inst') else v
                f = v if f is None else ite(pc, v, f)
            vals[loc] = None if bad else f
        # containers of which iteration k only updates entry k: entry k is still the initial one when iteration k starts
        own = {}
        self.last_own = {}
        for loc in locs:
            acc, f, init = accs.get(loc), vals[loc], self.value_at(st, loc)
            if acc is None or f is None or init is None or f.op != 'store' or k is None:
                continue
            a, initv = entry.deep(acc), st.deep(init)
            if f.args[0] is a and f.args[1] is k and dom is not None and length(initv) is dom:
                v = subst(f.args[2], {sub(a, k): sub(initv, k)})
                if not mentions(v, a):
                    own[a] = initv
        if own:
            m = self.last_own = {sub(a, k): sub(i, k) for a, i in own.items()}
            for loc in locs:
                f = vals[loc]
                if f is not None:
                    vals[loc] = mk('store', f.args[0], f.args[1], subst(f.args[2], m)) if f.op == 'store' and f.args[0] in own else subst(f, m)
        for loc in locs:
            oid, fld = loc
            acc = accs.get(loc)
            f = vals[loc]
            init = self.value_at(st, loc)
            o = after.heap[oid].copy()
            if acc is None or init is None:      # variable first bound inside the body
                nv = fresh('loopvar', kind_of(f) if f is not None else None)
                if fld is not None:
                    o.fields[fld] = nv
                    after.heap[oid] = o
                continue
            accterm = entry.deep(acc)
            initv = st.deep(init) if not (init.op == 'ref' and st.heap[init.args[0]].kind == 'inst') else init
            others = [entry.deep(a) for l, a in accs.items() if l != loc]
            if self.loop_mode == 'havoc' or f is None:
                nv = fresh('after', kind_of(init) if init.op != 'ref' else None)
                if init.op == 'ref' and st.heap[init.args[0]].kind in ('arr', 'list', 'dict', 'set'):
                    nv = after.new(st.heap[init.args[0]].kind, val=fresh('after', {'arr': 'arr'}.get(st.heap[init.args[0]].kind, st.heap[init.args[0]].kind)))
            else:
                nv = self.fold(initv, accterm, f, others, k, dom, early, loc, vals, accs, entry, st)
                if init.op == 'ref' and st.heap[init.args[0]].kind in ('arr', 'list', 'dict', 'set'):
                    nv = after.new(st.heap[init.args[0]].kind, val=nv)
            if fld is None:
                o.val = nv
            else:
                o.fields[fld] = nv
            after.heap[oid] = o
        if self.havoc_hook and self.loop_mode == 'havoc':
            self.havoc_hook(after, locs)

    def fold(self, init, acc, f, others, k, dom, early, loc, vals, accs, entry, st):
        if f is acc:
            return init
        tag = 'prefix' if early else 'all'
        dep = any(mentions(f, o) for o in others)
        if not dep:
            # guarded pieces
            c, g = TRUE, f
            if f.op == 'ite' and (f.args[1] is acc or f.args[2] is acc):
                c, g = (f.args[0], f.args[1]) if f.args[2] is acc else (not_(f.args[0]), f.args[2])
            if not mentions(c, acc):
                cl = None if c is TRUE else c
                if g.op == 'cat' and g.args[0] is acc and not any(mentions(x, acc) for x in g.args[1:]):
                    rest = g.args[1:]
                    if len(rest) == 1 and rest[0].op == 'list' and len(rest[0].args) == 1:
                        m = mkmap(k, rest[0].args[0], dom, cl)
                    else:
                        r = lst()
                        for x in rest:
                            r = cat(r, x)
                        m = mk('flatmap', lam(r, k), dom, lam(cl, k) if cl is not None else None)
                    return cat(init, m)
                if g.op == 'store' and g.args[0] is acc and not mentions(g.args[1], acc) and not mentions(g.args[2], acc):
                    if g.args[1] is k and cl is None and length(init) is dom:
                        return mkmap(k, g.args[2], dom, None)
                    return mk('fill', init, lam(g.args[1], k), lam(g.args[2], k), dom, lam(cl, k) if cl is not None else None)
                if not mentions(g, acc) and cl is None and not mentions(g, k):
                    return ite(lt(ZERO, dom), g, init) if dom.op != 'unordered' else mk('last', init, g, dom)
                d = sub_(g, acc)
                if not mentions(d, acc) and num(init) is not None:
                    return add(init, mk('sum', lam(d, k), dom, lam(cl, k) if cl is not None else None))
            if not any(x.op == 'ref' for x in walk(f)):
                return mk('fold', init, lam(lam(f, k), acc), dom)
        accl = [entry.deep(a) for l, a in sorted(accs.items(), key=lambda x: (x[0][0], str(x[0][1])))]
        fs = []
        for l in sorted(accs, key=lambda x: (x[0], str(x[1]))):
            v = vals.get(l)
            fs.append(v if v is not None else NONE)
        t = tup(*fs)
        for a in [k] + accl:
            t = lam(t, a)
        pos = sorted(accs, key=lambda x: (x[0], str(x[1]))).index(loc)
        return mk('mfold', pos, init, t, dom)

    def ex_While(self, n, fr, st):
        def run(s):
            for c, s1 in self.ev(n.test, fr, s):
                if isinstance(c, Exc):
                    yield s1, ('exc', c)
                    continue
                for b, s2 in self.fork_on(c, s1):
                    if b:
                        yield from self.exec_block(n.body, fr, s2)
                    else:
                        yield s2, ('stop',)
        if self.unroll_while:
            def go(s, k):
                for s2, g in run(s):
                    if g is None or g[0] == 'continue':
                        if k > 1:
                            yield from go(s2, k - 1)
                        else:
                            self.cut_off.append(s2)
                    elif g[0] == 'stop':
                        yield from self.exec_block(n.orelse, fr, s2)
                    elif g[0] == 'break':
                        yield s2, None
                    else:
                        yield s2, g
            yield from go(st, self.unroll_while)
            return
        saved_hooks, self.body_hook, self.after_hook = (self.body_hook, self.after_hook), None, None
        locs = self._find_locs(run, st, fr)
        self.body_hook, self.after_hook = saved_hooks
        h = st.fork()
        # values not provably overwritten first are arbitrary at the loop head
        accs = self.havoc(h, locs)
        self.havoc_ver(h, st, run)
        if self.havoc_hook:
            self.havoc_hook(h, locs)
        entry = h.fork()
        nfacts, nev = len(h.facts.log), len(h.events)
        paths = list(run(h))
        if self.body_hook:
            self.loop_pre = st
            self.body_hook(n, entry, paths, None, None, None)
        cont = [(s, g) for s, g in paths if g is None or g[0] == 'continue']
        evinfo = tuple((and_(*s.facts.log[nfacts:]), s.events[nev:]) for s, g in cont)
        loopev = ('loop', None, None, evinfo, self.where(n)) if any(e for _, e in evinfo) else None
        for s, g in paths:
            if g is None or g[0] == 'continue':
                continue
            s.events = s.events[:nev] + ((loopev,) if loopev else ()) + s.events[nev:]
            if g[0] == 'stop':
                yield from self.exec_block(n.orelse, fr, s)
            elif g[0] == 'break':
                yield s, None
            else:
                yield s, g

    def havoc_ver(self, h, st, run):
        probe = h.fork()
        bump = {}
        for s, g in run(probe):
            for v, c in s.ver.items():
                if c != st.ver.get(v, 0):
                    bump[v] = True
        for v in bump:
            _vc[0] += 1
            h.ver[v] = 1000000 + _vc[0]

    def changed_objs(self):
        return None


_vc = [0]


class Frame:
    def __init__(self, interp, mod, env, cls, func):
        self.mod, self.env, self.cls, self.func = mod, env, cls, func
        self.interp = interp
        self.globals_, self.nonlocals = set(), set()
        self.cur_exc = None
        self.yield_acc = None
        self.outer_env = None
        self.parents = ()

    def child(self, interp, st):
        env = st.new('env', cls=('func', self.func, self.env if self.outer_env is None else self.outer_env), fields={})
        f = Frame(interp, self.mod, env, self.cls, self.func)
        f.comp_env = True
        f.cur_exc, f.yield_acc = self.cur_exc, self.yield_acc
        f.class_env = self.env if self.outer_env is not None else None
        return f

    def closure_env(self):
        return self.outer_env if self.outer_env is not None else self.env

    def mangle(self, name):
        if self.cls is not None and name.startswith('__') and not name.endswith('__'):
            return '_%s%s' % (self.cls.name.lstrip('_'), name)
        return name

    def lookup(self, name, st):
        name = self.mangle(name)
        env = self.env
        if name in self.globals_:
            env = self.interp.modenv[self.mod.name]
        while env is not None:
            o = st.obj(env)
            v = o.fields.get(name)
            if v is not None and not (o.cls[0] == 'class' and env is not self.env and env is not getattr(self, 'class_env', None)):
                if v.op == 'late':
                    g = st.obj(self.interp.modenv[v.args[0]]).fields.get(v.args[1])
                    return g
                return v
            env = o.cls[2] if o.cls[0] != 'module' else None
        g = st.obj(self.interp.modenv[self.mod.name]).fields.get(name)
        if g is not None:
            if g.op == 'late':
                return st.obj(self.interp.modenv[g.args[0]]).fields.get(g.args[1])
            return g
        if hasattr(builtins, name):
            return P(Ext('builtins.' + name)) if name not in BUILTIN_EXC else P(Ext('builtins.' + name))
        return None

    def set(self, name, v, st):
        name = self.mangle(name)
        env = self.env
        if name in self.globals_:
            env = self.interp.modenv[self.mod.name]
            st.event('modmut', self.mod.name, name, self.interp.where())
        elif name in self.nonlocals:
            e = st.obj(self.env).cls[2]
            while e is not None:
                if name in st.obj(e).fields:
                    env = e
                    break
                e = st.obj(e).cls[2] if st.obj(e).cls[0] != 'module' else None
        st.setfield(env, name, v)


def _cls_of(self, interp, st):
    s = self.self_
    if s.op == 'ref':
        return st.obj(s).cls
    o = ob(s)
    return o if isinstance(o, ClassV) else self.cls


Super.cls_of = _cls_of


# ------------------------------------------------------------------ small term helpers
def eqbool(v):
    return v if isbool(v) else mk('truth', v) if False else _truth(v)


def _truth(v):
    return not_(mk('eq0', v)) if v.op in ('sym', 'poly', 'len', 'sum') and (v.op != 'sym' or v.args[1] in ('int', 'nat', 'float')) else mk('in', v, mk('truthy'))


def isstr(t):
    return (t.op == 'const' and isinstance(t.args[0], str)) or t.op == 'strcat' or (t.op == 'sym' and t.args[1] == 'str') or \
        (t.op == 'app' and t.args[0] in ('.upper', '.lower', '.strip', 'str', '.format', '.join'))


def strcat(parts):
    out = []
    for p in parts:
        for q in (p.args if p.op == 'strcat' else (p,)):
            if q.op == 'const' and q.args[0] == '':
                continue
            if out and out[-1].op == 'const' and q.op == 'const' and isinstance(q.args[0], str) and isinstance(out[-1].args[0], str):
                out[-1] = C(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return C('')
    if len(out) == 1 and isstr(out[0]):
        return out[0]
    return mk('strcat', *out)


def arith(op, x, y):
    if x.op in ('nan', 'inf') or y.op in ('nan', 'inf'):
        if 'nan' in (x.op, y.op) and all(kind_of(v) in ('int', 'float', 'bool', 'nat') for v in (x, y)):
            return mk('nan')
        if op in ('Mult', 'Div') and x.op == 'inf' and num(y) is not None and num(y) > 0:
            return x
        if op in ('Add', 'Sub') and x.op == 'inf' and num(y) is not None:
            return x
    if op == 'Add':
        return add(x, y)
    if op == 'Sub':
        return sub_(x, y)
    if op == 'Mult':
        return mul(x, y)
    if op == 'Div':
        return div(x, y)
    if op == 'Pow':
        return power(x, y)
    if op == 'FloorDiv':
        return app('floordiv', x, y)
    if op == 'Mod':
        return app('mod', x, y)
    if op == 'MatMult':
        return app('matmul', x, y)
    if op == 'BitAnd':
        return and_(x, y) if isbool(x) and isbool(y) else app('bitand', *sorted((x, y), key=lambda t: t.id))
    if op == 'BitOr':
        return or_(x, y) if isbool(x) and isbool(y) else app('bitor', *sorted((x, y), key=lambda t: t.id))
    return None


def dict_set(d, k, v):
    items = [(a, b) for a, b in d.args[0]]
    for i, (a, b) in enumerate(items):
        if a is k:
            items[i] = (k, v)
            return mk('dict', tuple(items))
    return mk('dict', tuple(items) + ((k, v),))


def dict_merge(a, b):
    if a.op == 'dict' and b.op == 'dict':
        for k, v in b.args[0]:
            a = dict_set(a, k, v)
        return a
    if a.op == 'dict' and not a.args[0]:
        return b
    return app('dictmerge', a, b)


def setop(f, x, y):
    if y.op == 'set' and not y.args and f in ('union', 'setdiff'):
        return x
    if x.op == 'set' and not x.args and f == 'union':
        return y
    if f == 'union' and x.op == 'set' and y.op == 'set':
        return mk('set', *dict.fromkeys(x.args + y.args))
    if f != 'setdiff' and x.id > y.id:
        x, y = y, x
    if f == 'inter' and x is y or f == 'union' and x is y:
        return x
    return app(f, x, y)


def store(base, idx, v):
    idx = canon_index(idx)
    if base.op == 'store' and base.args[1] is idx:
        base = base.args[0]
    if isbool(idx):
        w = degather(v, idx)
        if w is not None:
            return ite(idx, w, base)
        return mk('mstore', base, idx, v)
    return mk('store', base, idx, v)


def degather(v, m):
    """value assigned under mask m, as an elementwise term, when it is one"""
    if num(v) is not None or v.op in ('inf', 'nan') or (v.op == 'const'):
        return v
    if v.op == 'poly' and to_poly(v) and all(x.op == 'inf' for mm, c in v.args[0] for x, e in mm):
        return v
    if v.op == 'sub' and v.args[1] is m:
        return v.args[0]
    if v.op == 'sym' and v.args[1] in ('int', 'nat', 'float', 'bool'):
        return v
    if v.op == 'poly':
        rep = {}
        for mm, c in v.args[0]:
            for a, e in mm:
                w = degather(a, m)
                if w is None:
                    return None
                rep[a] = w
        return subst(v, rep)
    return None


def mkmap(k, body, dom, cond):
    if cond is None:
        # map of the identity over a list is the list itself
        if body.op == 'sub' and body.args[1] is k and not mentions(body.args[0], k) and length(body.args[0]) is dom:
            return body.args[0]
        if body is k and False:
            return app('range', dom)
    return mk('map', lam(body, k), dom, lam(cond, k) if cond is not None else None)


def basic_index(x):
    return num(x) is not None or (x.op == 'sym' and x.args[1] in ('int', 'nat')) or x is NONE or x.op in ('ellipsis',)

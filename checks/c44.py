"""C44: the compiled loss kernels equal their definitions and stay inside their arguments."""
import ast, glob, math, os, random, re
from fractions import Fraction as Fr
from sa import pyx
from sa.canon import R, Undec, sym, const, evalf
from sa.program import REPO

EXPLAIN = ('The Cython source of the loss kernels is read as a syntax tree and abstractly interpreted on matrices of symbols, one symbol per entry, for every array shape up to 3 x 3; every path of '
           'every branch is followed and the result is brought to a normal form (sums of products of logarithms and rational functions of exponentials), which must equal the normal form of the definition. '
           'Every index is compared with the declared shape, every element read must have been written, and no argument may be written.')
ASSUME = ['arrays of at most 3 rows and 3 columns stand for all shapes', 'labels are 0 or 1', 'equality over the reals; floating-point behaviour only where a result overflows']
FLOOR = 20
R_VAL = 'the result equals the definition'
R_MEM = 'every access stays inside an array that was written'
R_ARG = 'arguments are left unchanged'
R_FIN = 'results stay finite for confident points'
INTS = re.compile(r'\b(int|long|short|char|Py_ssize_t|size_t|bint)\b')


class Bad(Exception):
    def __init__(self, rule, msg, line):
        self.rule, self.msg, self.line = rule, msg, line


class Forks(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Flow(Exception):
    pass


class Arr:
    def __init__(self, shape, cells=None, name=None):
        self.shape, self.cells, self.name = tuple(shape), dict(cells or {}), name


class View:
    def __init__(self, a, pre):
        self.a, self.pre = a, tuple(pre)

    @property
    def shape(self):
        return self.a.shape[len(self.pre):]


# ---------------------------------------------------------------- value domains
class Symbolic:
    def const(self, c):
        return const(c)

    def op(self, o, a, b):
        if o == '+':
            return a + b
        if o == '-':
            return a - b
        if o == '*':
            return a * b
        if o == '/':
            return a / b
        if o == '**':
            n = b.number()
            if n is None or n.denominator != 1 or abs(n) > 4:
                raise Undec('power')
            r = const(1)
            for _ in range(abs(int(n))):
                r = r * a
            return r if n >= 0 else const(1) / r
        raise Undec('operator ' + o)

    def fn(self, f, a):
        if f == 'exp':
            return a[0].exp()
        if f == 'expm1':
            return a[0].exp() - const(1)
        if f == 'log':
            return a[0].log()
        if f == 'log1p':
            return (const(1) + a[0]).log()
        raise Undec('function ' + f)

    def cmp(self, a, b):
        """sign of a - b when it is known"""
        n = (a - b).number()
        return None if n is None else (n > 0) - (n < 0)


class Floating:
    """IEEE special values along the path of extreme arguments"""

    def const(self, c):
        return float(c)

    def op(self, o, a, b):
        try:
            if o == '+':
                return a + b
            if o == '-':
                return a - b
            if o == '*':
                return a * b
            if o == '**':
                return a ** b
            if o == '/':
                if b == 0:
                    return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
                return a / b
        except OverflowError:
            return math.inf
        raise Undec('operator ' + o)

    def fn(self, f, a):
        x = a[0]
        try:
            if f == 'log':
                return -math.inf if x == 0 else math.nan if x < 0 else math.log(x)
            if f == 'log1p':
                return -math.inf if x == -1 else math.nan if x < -1 else math.log1p(x)
            if f in ('exp', 'expm1'):
                return getattr(math, f)(x)
        except OverflowError:
            return math.inf
        raise Undec('function ' + f)

    def cmp(self, a, b):
        return None if a != a or b != b else (a > b) - (a < b)


class Module:
    def __init__(self, src):
        tree = pyx.parse(src)
        self.types = pyx.types(src)
        self.funcs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
        self.consts = [n for n in tree.body if isinstance(n, ast.Assign)]
        self.libc = {a.asname or a.name: a.name for n in tree.body if isinstance(n, ast.ImportFrom) and (n.module or '').startswith(('libc', 'math')) for a in n.names}
        self.np = {a.asname or a.name for n in tree.body if isinstance(n, ast.Import) for a in n.names if a.name == 'numpy'}

    def directive(self, f, name, default):
        for d in f.decorator_list:
            if isinstance(d, ast.Call) and text(d.func).split('.')[-1] == name and d.args and isinstance(d.args[0], ast.Constant):
                return bool(d.args[0].value)
        return default


def text(n):
    return ast.unparse(n)


class Machine:
    CAP, STEPS = 2000, 400000

    def __init__(self, mod, dom):
        self.mod, self.dom = mod, dom
        self.steps = 0
        self.accesses = 0

    # -------------------------------------------------- paths
    def paths(self, name, args, known=()):
        """[(conditions, result)] of a call; args are fresh for every path"""
        out, todo = [], [[]]
        while todo:
            ch = todo.pop()
            run = Run(self, ch, known)
            v = run.call(name, args())
            out.append((run.conds, v))
            for i in range(len(ch), len(run.made)):
                for alt in run.alts[i]:
                    todo.append(run.made[:i] + [alt])
            if len(out) + len(todo) > self.CAP:
                raise Undec('too many paths')
        return out


def same(a, b):
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.shape == b.shape and a.cells.keys() == b.cells.keys() and all(same(a.cells[k], b.cells[k]) for k in a.cells)
    if isinstance(a, R) and isinstance(b, R):
        return a == b
    return a is b or type(a) is type(b) and not isinstance(a, (Arr, View)) and a == b


class Run:
    def __init__(self, m, choices, known=()):
        self.m, self.mod, self.dom = m, m.mod, m.dom
        self.choices, self.made, self.alts = choices, [], []
        self.conds = list(known)

    def pick(self, options):
        i = len(self.made)
        c = self.choices[i] if i < len(self.choices) else options[0]
        self.made.append(c)
        self.alts.append([o for o in options if o != c] if i >= len(self.choices) else [])
        return c

    def sign(self, a, b, want):
        """is the sign of a - b in the set"""
        s = self.dom.cmp(a, b)
        if s is not None:
            return s in want
        if not isinstance(a, R):
            return want == {-1, 1}      # comparisons with nan
        d = a - b
        neg, known = const(0) - d, {-1, 0, 1}
        for e, w in self.conds:
            if e == d:
                known &= w
            elif e == neg:
                known &= {-x for x in w}
        if known <= want:
            return True
        if not known & want:
            return False
        if len(known) < 3 and {0} in (known & want, known - want):
            return known & want != {0}      # the common boundary of two branches
        v = self.pick([True, False])
        self.conds.append((d, frozenset(want if v else {-1, 0, 1} - want)))
        return v

    def call(self, name, args):
        f = self.mod.funcs[name]
        if f.args.vararg or f.args.kwarg or len(args) > len(f.args.args):
            raise Undec('arguments of ' + name)
        names = [a.arg for a in f.args.args]
        env = dict(zip(names, args))
        dflt = f.args.defaults
        for a, d in zip(names[len(names) - len(dflt):], dflt):
            if a not in env:
                env[a] = self.expr(d, {}, f)
        if len(env) < len(names):
            raise Undec('arguments of ' + name)
        try:
            self.block(f.body, env, f)
        except Ret as r:
            return r.v
        return None

    # -------------------------------------------------- statements
    def block(self, body, env, f):
        for n in body:
            self.stmt(n, env, f)

    def stmt(self, n, env, f):
        self.m.steps += 1
        if self.m.steps > self.m.STEPS:
            raise Undec('too many steps')
        if isinstance(n, ast.Return):
            raise Ret(None if n.value is None else self.expr(n.value, env, f))
        if isinstance(n, ast.Pass) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr):
            self.expr(n.value, env, f)
        elif isinstance(n, ast.Assign):
            v = self.expr(n.value, env, f)
            for t in n.targets:
                self.store(t, v, env, f)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.store(n.target, self.expr(n.value, env, f), env, f)
        elif isinstance(n, ast.AugAssign):
            t = n.target
            cur = self.expr(ast.copy_location(ast.Name(t.id, ast.Load()), t) if isinstance(t, ast.Name) else ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t), env, f)
            self.store(t, self.binop(n.op, cur, self.expr(n.value, env, f)), env, f)
        elif isinstance(n, ast.If):
            self.block(n.body if self.test(n.test, env, f) else n.orelse, env, f)
        elif isinstance(n, ast.For):
            done = True
            for v in self.items(n.iter, env, f):
                self.store(n.target, v, env, f)
                try:
                    self.block(n.body, env, f)
                except Flow as e:
                    if e.args[0] == 'break':
                        done = False
                        break
            if done:
                self.block(n.orelse, env, f)
        elif isinstance(n, ast.While):
            while self.test(n.test, env, f):
                try:
                    self.block(n.body, env, f)
                except Flow as e:
                    if e.args[0] == 'break':
                        break
        elif isinstance(n, ast.Break):
            raise Flow('break')
        elif isinstance(n, ast.Continue):
            raise Flow('continue')
        elif isinstance(n, ast.With):
            if not all(text(i.context_expr) in ('nogil', 'gil') for i in n.items):
                raise Undec('with')
            self.block(n.body, env, f)
        else:
            raise Undec(type(n).__name__)

    def store(self, t, v, env, f):
        if isinstance(t, ast.Name):
            ty = self.mod.types.get(f.name, {}).get(t.id, '')
            if INTS.search(ty) and '[' not in ty and not isinstance(v, (int, bool)):
                k = v.number() if isinstance(v, R) else v if isinstance(v, float) and v == v and abs(v) < 1e15 else None
                if k is not None and k == int(k):
                    v = int(k)
                elif isinstance(v, (R, float)):
                    raise Bad(R_VAL, 'the real value assigned to %s is cut to %s' % (t.id, ty), t.lineno)
            elif ty == 'float' and isinstance(v, R) and v.number() is None:
                raise Bad(R_VAL, 'the value assigned to %s is rounded to single precision' % t.id, t.lineno)
            elif re.match(r'(long\s+)?double$|float$', ty) and isinstance(v, (int, bool)):
                v = self.dom.const(v)
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, tuple) and len(v) == len(t.elts):
            for a, b in zip(t.elts, v):
                self.store(a, b, env, f)
        elif isinstance(t, ast.Subscript):
            a, k = self.cell(t, env, f)
            if isinstance(k, slice):
                if not isinstance(v, (R, int, float)):
                    raise Undec('slice store')
                keys = [p for p in self.keys(a)]
            else:
                keys = [k]
            base = a.a if isinstance(a, View) else a
            if base.name:
                raise Bad(R_ARG, 'the argument %s is written' % base.name, t.lineno)
            for k in keys:
                if len(k) != len(base.shape):
                    raise Undec('row store')
                base.cells[k] = self.real(v)
        else:
            raise Undec('store ' + text(t))

    def keys(self, a):
        base, pre = (a.a, a.pre) if isinstance(a, View) else (a, ())
        out = [pre]
        for n in base.shape[len(pre):]:
            out = [p + (i,) for p in out for i in range(n)]
        return out

    def cell(self, n, env, f):
        a = self.expr(n.value, env, f)
        if not isinstance(a, (Arr, View)):
            raise Undec('index of ' + text(n.value))
        idx = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
        if all(isinstance(i, ast.Slice) and i.lower is i.upper is i.step is None for i in idx):
            return a, slice(None)
        base, pre = (a.a, a.pre) if isinstance(a, View) else (a, ())
        key = list(pre)
        wrap = self.mod.directive(f, 'wraparound', True)
        check = self.mod.directive(f, 'boundscheck', True)
        for i in idx:
            if isinstance(i, ast.Slice):
                if i.lower is i.upper is i.step is None and i is idx[-1]:
                    break
                raise Undec('slice ' + text(n))
            v = self.expr(i, env, f)
            if isinstance(v, R) and v.number() is not None and v.number().denominator == 1:
                v = int(v.number())
            if not isinstance(v, int):
                raise Undec('index ' + text(i))
            if len(key) >= len(base.shape):
                raise Undec('too many indices in ' + text(n))
            size = base.shape[len(key)]
            self.m.accesses += 1
            if v < 0 and wrap and v >= -size:
                v += size
            if not 0 <= v < size:
                raise Bad(R_MEM, '%s addresses element %d of an axis of size %d%s' % (text(n), v, size, '' if check else ', with bounds checking compiled out'), n.lineno)
            key.append(v)
        return a, tuple(key)

    def real(self, v):
        return self.dom.const(v) if isinstance(v, (int, bool)) else v

    # -------------------------------------------------- expressions
    def items(self, n, env, f):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('range', 'prange', 'xrange'):
            a = [self.expr(x, env, f) for x in n.args]
            a = [int(x.number()) if isinstance(x, R) and x.number() is not None else x for x in a]
            if not all(isinstance(x, int) for x in a):
                raise Undec('range')
            return range(*a)
        v = self.expr(n, env, f)
        if isinstance(v, (Arr, View)):
            return [self.read(v, i, n) for i in range(v.shape[0])]
        if isinstance(v, (tuple, list)):
            return list(v)
        raise Undec('loop over ' + text(n))

    def read(self, a, i, n):
        base, pre = (a.a, a.pre) if isinstance(a, View) else (a, ())
        key = pre + ((i,) if not isinstance(i, tuple) else i)
        if len(key) < len(base.shape):
            return View(base, key)
        if key not in base.cells:
            raise Bad(R_MEM, '%s reads an element that was never written' % text(n), n.lineno)
        return base.cells[key]

    def test(self, n, env, f):
        if isinstance(n, ast.BoolOp):
            r = isinstance(n.op, ast.And)
            for x in n.values:
                if self.test(x, env, f) != r:
                    return not r
            return r
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not self.test(n.operand, env, f)
        if isinstance(n, ast.Compare):
            a = self.expr(n.left, env, f)
            for o, c in zip(n.ops, n.comparators):
                b = self.expr(c, env, f)
                want = {ast.Gt: {1}, ast.GtE: {0, 1}, ast.Lt: {-1}, ast.LtE: {-1, 0}, ast.Eq: {0}, ast.NotEq: {-1, 1}}.get(type(o))
                if want is None or not all(isinstance(x, (R, int, float)) for x in (a, b)):
                    raise Undec('comparison ' + text(n))
                if not self.sign(self.real(a), self.real(b), want):
                    return False
                a = b
            return True
        v = self.expr(n, env, f)
        if isinstance(v, (bool, int)):
            return bool(v)
        if isinstance(v, (R, float)):
            return self.sign(v, self.dom.const(0), {-1, 1})
        raise Undec('test ' + text(n))

    def binop(self, op, a, b):
        o = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.FloorDiv: '//', ast.Mod: '%'}.get(type(op))
        if o is None:
            raise Undec('operator')
        if isinstance(a, int) and isinstance(b, int):
            if o == '/':
                return self.dom.const(Fr(a, b)) if b else self.dom.op('/', self.dom.const(a), self.dom.const(b))
            if o == '**':
                return self.dom.op(o, self.dom.const(a), self.dom.const(b))
            if o in '//%' and not b:
                raise Undec('division by zero')
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '//': lambda: a // b, '%': lambda: a % b}[o]()
        if o in ('//', '%') or not all(isinstance(x, (R, int, float)) for x in (a, b)):
            raise Undec('operator ' + o)
        return self.dom.op(o, self.real(a), self.real(b))

    def expr(self, n, env, f):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool) or isinstance(n.value, int):
                return n.value
            if isinstance(n.value, float):
                return self.dom.const(Fr(repr(n.value)))
            return n.value
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            for c in self.mod.consts:
                if any(isinstance(t, ast.Name) and t.id == n.id for t in c.targets):
                    return self.real(self.expr(c.value, {}, f))
            raise Undec('name ' + n.id)
        if isinstance(n, ast.BinOp):
            return self.binop(n.op, self.expr(n.left, env, f), self.expr(n.right, env, f))
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                return not self.test(n.operand, env, f)
            v = self.expr(n.operand, env, f)
            if isinstance(n.op, ast.UAdd):
                return v
            if isinstance(n.op, ast.USub) and isinstance(v, (R, int, float)):
                return -v if isinstance(v, (int, float)) else const(0) - v
        if isinstance(n, ast.IfExp):
            return self.expr(n.body if self.test(n.test, env, f) else n.orelse, env, f)
        if isinstance(n, (ast.Compare, ast.BoolOp)):
            return self.test(n, env, f)
        if isinstance(n, ast.Tuple):
            return tuple(self.expr(x, env, f) for x in n.elts)
        if isinstance(n, ast.Subscript):
            if isinstance(n.value, ast.Attribute) and n.value.attr == 'shape':
                v = self.expr(n.value, env, f)
                i = self.expr(n.slice, env, f)
                if isinstance(i, int) and i < len(v):
                    return v[i]
                raise Undec(text(n))
            a, k = self.cell(n, env, f)
            return a if isinstance(k, slice) else self.read(a.a if isinstance(a, View) else a, k, n)
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id in self.mod.np:
                return 'np.' + n.attr
            v = self.expr(n.value, env, f)
            if isinstance(v, (Arr, View)):
                if n.attr == 'shape':
                    return tuple(v.shape)
                if n.attr == 'size':
                    return math.prod(v.shape)
                if n.attr == 'ndim':
                    return len(v.shape)
        if isinstance(n, ast.Call):
            return self.calling(n, env, f)
        raise Undec(text(n)[:60])

    def calling(self, n, env, f):
        fn = n.func
        args = lambda: [self.expr(a, env, f) for a in n.args]
        if isinstance(fn, ast.Name):
            if fn.id in self.mod.funcs:
                if n.keywords:
                    raise Undec('keywords')
                return self.invoke(fn.id, args())
            g = self.mod.libc.get(fn.id)
            if g or fn.id in ('min', 'max', 'abs', 'len', 'float'):
                return self.builtin(g or fn.id, args())
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in self.mod.np:
            a = args()
            if fn.attr in ('empty', 'zeros', 'ones', 'full'):
                sh = a[0]
                sh = sh if isinstance(sh, tuple) else (sh,)
                sh = tuple(int(x.number()) if isinstance(x, R) and x.number() is not None else x for x in sh)
                for kw in n.keywords:
                    t = text(kw.value)
                    if kw.arg != 'dtype' or not re.search(r'float64|float_?$|double', t):
                        raise Undec('np.%s with %s' % (fn.attr, t))
                if not all(isinstance(x, int) for x in sh):
                    raise Undec('size of np.' + fn.attr)
            elif fn.attr in ('empty_like', 'zeros_like', 'ones_like', 'full_like') and not n.keywords and isinstance(a[0], (Arr, View)):
                sh = a[0].shape
            else:
                if len(a) == 1 and fn.attr in ('asarray', 'ascontiguousarray'):
                    return a[0]
                if len(a) == 1 and not n.keywords and fn.attr in ('exp', 'log', 'log1p', 'expm1', 'abs') and isinstance(a[0], (R, int, float)):
                    return self.builtin(fn.attr, a)
                raise Undec('np.' + fn.attr)
            r = Arr(sh)
            kind = fn.attr.split('_')[0]
            if kind != 'empty':
                v = {'zeros': 0, 'ones': 1}.get(kind, a[1] if len(a) > 1 else 0)
                for k in self.keys(r):
                    r.cells[k] = self.real(v)
            return r
        raise Undec(text(n)[:60])

    def builtin(self, g, a):
        if g == 'len' and isinstance(a[0], (Arr, View)):
            return a[0].shape[0]
        if not a or not all(isinstance(x, (R, int, float)) for x in a):
            raise Undec(g)
        if g == 'float':
            return self.real(a[0])
        a = [self.real(x) for x in a]
        if g in ('fabs', 'abs'):
            return a[0] if self.sign(a[0], self.dom.const(0), {0, 1}) else self.binop(ast.Sub(), 0, a[0])
        if g in ('fmin', 'fmax', 'min', 'max'):
            r = a[0]
            for x in a[1:]:
                big = self.sign(x, r, {0, 1})
                r = x if big == g.endswith('max') else r
            return r
        if g == 'pow':
            return self.dom.op('**', *a)
        if g == 'sqrt':
            raise Undec(g)
        return self.dom.fn(g, a)

    def invoke(self, name, args):
        f = self.mod.funcs[name]
        writes = any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in {a.arg for a in f.args.args} for x in ast.walk(f))
        ty = self.mod.types.get(name, {})
        conv = []
        for p, v in zip(f.args.args, args):
            t = ty.get(p.arg, '')
            if isinstance(v, (R, float)) and INTS.search(t) and '[' not in t and not (isinstance(v, R) and v.number() is not None and v.number().denominator == 1):
                raise Bad(R_VAL, 'the real argument %s of %s is cut to %s' % (p.arg, name, t), f.lineno)
            conv.append(self.dom.const(v) if isinstance(v, (int, bool)) and 'double' in t else v)
        if INTS.search(ty.get('return', '')) and '[' not in ty.get('return', ''):
            raise Undec('integer result of ' + name)
        if writes or not isinstance(self.dom, Symbolic):
            return self.call(name, conv)
        ps = self.m.paths(name, lambda: conv, tuple(self.conds))
        groups = []
        for c, v in ps:
            for g in groups:
                if same(g[1], v):
                    break
            else:
                groups.append((c, v))
        if len(groups) == 1:
            return self.copy(groups[0][1])
        i = self.pick(list(range(len(ps))))
        self.conds = list(ps[i][0])
        return self.copy(ps[i][1])

    def copy(self, v):
        return Arr(v.shape, v.cells, v.name) if isinstance(v, Arr) and not v.name else v


# ---------------------------------------------------------------- definitions
ONE = const(1)


def lsig(x):
    """log(1 / (1 + exp(-x)))"""
    return const(0) - (ONE + (const(0) - x).exp()).log()


def vec(name, n):
    return [sym('%s%d' % (name, i + 1)) for i in range(n)]


def mat(name, n, k):
    return [[sym('%s%d%d' % (name, i + 1, j + 1)) for j in range(k)] for i in range(n)]


def arr1(v, name):
    return Arr((len(v),), {(i,): x for i, x in enumerate(v)}, name)


def arr2(m, name):
    return Arr((len(m), len(m[0])), {(i, j): x for i, r in enumerate(m) for j, x in enumerate(r)}, name)


def total(xs):
    r = const(0)
    for x in xs:
        r = r + x
    return r


def bits(n):
    out = [()]
    for _ in range(n):
        out = [b + (v,) for b in out for v in (0, 1)]
    return out


SIZES = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3)]


def row_loss(lp, y):
    return const(0) - (lp if y else (ONE - lp.exp()).log())


def problems():
    """(kernel, label, arguments, expected as a function of a point or as one value)"""
    for n, k in SIZES:
        M = mat('m', n, k)
        lps = [total(map(lsig, r)) for r in M]
        yield 'compute_log_probas', '%d x %d' % (n, k), lambda M=M: [arr2(M, 'margin')], arr1(lps, None)
        if n * k <= 6:
            for ys in bits(n):
                yield 'compute_loss', '%d x %d, labels %s' % (n, k, ys), lambda M=M, ys=ys: [arr2(M, 'margin'), arr1([const(v) for v in ys], 'y')], \
                    total(row_loss(l, y) for l, y in zip(lps, ys)) / const(n)
    for n in (1, 2, 3):
        lp = [sym('-l%d' % (i + 1)) for i in range(n)]
        xs = vec('x', n)
        yield 'log_sigmoid', '%d points' % n, lambda xs=xs: [arr1(xs, 'x')], arr1([lsig(x) for x in xs], None)
        for ys in bits(n):
            Y = lambda ys=ys: arr1([const(v) for v in ys], 'y')
            yield 'compute_classification_loss', '%d points, labels %s' % (n, ys), lambda lp=lp, Y=Y: [arr1(lp, 'log_probas'), Y()], total(row_loss(l, y) for l, y in zip(lp, ys)) / const(n)
            yield 'grad_weights', '%d points, labels %s' % (n, ys), lambda lp=lp, Y=Y: [arr1(lp, 'x'), Y()], \
                arr1([const(-1) if y else l.exp() / (ONE - l.exp()) for l, y in zip(lp, ys)], None)
    for n, k in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (1, 4), (4, 1), (2, 3)]:
        W, d, p = mat('w', n, k), sym('+delta'), sym('+penalty')

        def huber(pt, W=W, d=d, p=p):
            out = const(0)
            for r in W:
                for w in r:
                    a, b = evalf(w, pt), evalf(d, pt)
                    half = const(Fr(1, 2))
                    out = out + (half * w * w if abs(a) <= b else d * ((w if a > 0 else const(0) - w) - half * d))
            return p * out
        yield 'compute_huber_penalty', '%d x %d' % (n, k), lambda W=W, d=d, p=p: [arr2(W, 'weights'), p, d], huber


def points(names, rnd, n):
    for i in range(n):
        out = {}
        for a in names:
            if a.startswith('-'):
                out[a] = -rnd.choice([0.1, 0.3, 0.6, 0.75, 1.3, 2.5])*rnd.choice([1, 1.1, 0.93])
            elif a.startswith('+'):
                out[a] = rnd.choice([0.25, 0.5, 1.0, 1.5, 2.0, 3.0])
            else:
                out[a] = rnd.choice([-4.0, -2.5, -2.0, -1.5, -1.0, -0.75, -0.5, -0.2, 0.0, 0.2, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 4.0])
        yield out


def flat(v):
    if isinstance(v, View):
        raise Undec('view')
    if isinstance(v, Arr):
        return v.shape, v.cells
    return (), {(): const(v) if isinstance(v, int) else v}


def directed(names, conds, rnd):
    """points of a path whose conditions each speak about one entry"""
    out = []
    for d, p in ((1.0, 0.5), (2.0, 3.0), (0.5, 1.5)):
        pt = {a: d if a == '+delta' else p for a in names if a[0] == '+'}
        for a in names:
            if a in pt:
                continue
            vals = [-v for v in (0.1, 0.6, 1.3)] if a[0] == '-' else [-4.0, -2.5, -1.5, -0.75, -0.2, 0.2, 0.75, 1.5, 2.5, 4.0, 0.0]
            rnd.shuffle(vals)
            for v in vals:
                pt[a] = v
                if all(((x > 0) - (x < 0)) in w for e, w in conds if a in e.names() and e.names() <= set(pt) for x in (evalf(e, pt),)):
                    break
            else:
                break
        else:
            out.append(pt)
    return out


def judge(name, label, ps, want):
    """(state, message): compare every path with the definition"""
    rnd = random.Random(7)
    names = sorted({a for c, v in ps for x in flat(v)[1].values() if isinstance(x, R) for a in x.names()} |
                   {a for c, v in ps for e, w in c for a in e.names()} | (set() if callable(want) else {a for x in flat(want)[1].values() for a in x.names()}))
    if callable(want):
        names = sorted(set(names) | {'+delta', '+penalty'})
        names = sorted(set(names) | {'w%s' % s for s in ('%d%d' % (i, j) for i in range(1, 5) for j in range(1, 5)) if int(s[0]) <= int(label[0]) and int(s[1]) <= int(label[4])})
    pts = list(points(names, rnd, 150 + 60 * len(names)))
    unk = None
    for c, v in ps:
        mine = []
        for pt in pts:
            if len(mine) >= 12:
                break
            try:
                if all(((x > 1e-12) - (x < -1e-12)) in w for x, w in ((evalf(e, pt), w) for e, w in c)):
                    mine.append(pt)
            except (ValueError, OverflowError, ZeroDivisionError):
                pass
        if len(mine) < 3:
            mine += directed(names, c, rnd)
        if not mine and not callable(want):
            unk = unk or 'no argument found for a path'
            continue
        for pt in mine:
            wsh, wc = flat(want(pt) if callable(want) else want)
            sh, cells = flat(v)
            if sh != wsh:
                return 'bad', 'the result has shape %s' % (sh,)
            for k, w in wc.items():
                g = cells.get(k)
                if g is None:
                    return 'bad', 'entry %s of the result is never written' % (k,)
                if not isinstance(g, R):
                    return 'unk', 'result ' + str(g)[:40]
                if g == w:
                    continue
                try:
                    a, b = evalf(g, pt), evalf(w, pt)
                except (ValueError, OverflowError, ZeroDivisionError):
                    a, b = None, evalf(w, pt)
                if a is None or abs(a - b) > 1e-7 * (1 + abs(b)):
                    return 'bad', 'for %s the result is %s instead of %.6g' % (', '.join('%s = %.4g' % (q.strip('+-'), z) for q, z in sorted(pt.items())), 'undefined' if a is None else '%.6g' % a, b)
                if not callable(want):
                    unk = unk or 'normal forms differ'
                else:
                    # equal where two pieces meet only
                    if all(abs(abs(pt[q]) - pt['+delta']) > 1e-12 for q in pt if q.startswith('w')):
                        unk = unk or 'normal forms differ'
    return ('unk', unk) if unk else ('ok', '')


EXTREME = (800.0, 5000.0, -800.0, -5000.0)


def extremes():
    for x in EXTREME:
        yield 'compute_log_probas', 'margin %g' % x, [arr2([[x]], 'margin')], min(x, 0.0)
        yield 'log_sigmoid', 'value %g' % x, [arr1([x], 'x')], min(x, 0.0)
        yield 'compute_loss', 'margin %g of a positive point' % x, [arr2([[x]], 'margin'), arr1([1.0], 'y')], max(-x, 0.0)
        if x < 0:
            yield 'compute_loss', 'margin %g of a negative point' % x, [arr2([[x]], 'margin'), arr1([0.0], 'y')], 0.0
            yield 'grad_weights', 'log probability %g of a negative point' % x, [arr1([x], 'x'), arr1([0.0], 'y')], 0.0
    for x in (36.0, 40.0, 200.0):
        yield 'compute_loss', 'margin %g of a negative point' % x, [arr2([[x]], 'margin'), arr1([0.0], 'y')], x
    for x in (1e-18, 1e-12):
        yield 'compute_classification_loss', 'log probability -%g of a negative point' % x, [arr1([-x], 'log_probas'), arr1([0.0], 'y')], -math.log(x)


def run(rep):
    files = sorted(glob.glob(os.path.join(REPO, 'aideme', '**', '*.pyx'), recursive=True))
    rep.stats['cython sources'] = len(files)
    kernels = {}
    for p in files:
        try:
            mod = Module(open(p, encoding='utf-8').read())
        except pyx.NotPython as e:
            rep.unk(R_VAL, os.path.relpath(p, REPO), 'cannot be read: %s' % e)
            continue
        for f in mod.funcs:
            kernels[f] = (mod, os.path.relpath(p, REPO))
    acc = 0
    state = {}
    for name, label, args, want in problems():
        if name not in kernels:
            rep.unk(R_VAL, '%s, %s' % (name, label), 'no such kernel')
            continue
        mod, path = kernels[name]
        m = Machine(mod, Symbolic())
        st = state.setdefault(name, {R_VAL: ['ok', ''], R_MEM: ['ok', ''], R_ARG: ['ok', '']})
        what = '%s, %s' % (name, label)
        try:
            ps = m.paths(name, args)
            res, msg = judge(name, label, ps, want)
            if res == 'ok':
                rep.ok(R_VAL, what)
            elif res == 'unk':
                rep.unk(R_VAL, what, msg)
            elif st[R_VAL][0] != 'bad':
                st[R_VAL] = ['bad', '']
                rep.bad(R_VAL, name, '%s: %s' % (label, msg), '%s:%d' % (path, mod.funcs[name].lineno))
        except Bad as e:
            if st[e.rule][0] != 'bad':
                st[e.rule] = ['bad', '']
                rep.bad(e.rule, name, '%s: %s' % (label, e.msg), '%s:%d' % (path, e.line))
        except (Undec, RecursionError, KeyError, TypeError, AttributeError) as e:
            rep.unk(R_VAL, what, str(e)[:80])
            if st[R_MEM][0] == 'ok':
                st[R_MEM] = ['unk', str(e)[:80]]
        acc += m.accesses
    for name, st in sorted(state.items()):
        for r in (R_MEM, R_ARG):
            if st[r][0] == 'ok' and st[R_MEM][0] == 'ok':
                rep.ok(r, name)
            elif st[r][0] != 'bad':
                rep.unk(r, name, 'not every shape was followed')
    for name, label, args, want in extremes():
        if name not in kernels or state.get(name, {}).get(R_VAL, [''])[0] == 'bad':
            continue
        mod, path = kernels[name]
        try:
            v = Run(Machine(mod, Floating()), []).call(name, args)
            sh, cells = flat(v)
            got = list(cells.values())[0]
            if not isinstance(got, float):
                raise Undec('result')
        except (Undec, Bad, RecursionError, KeyError, TypeError, AttributeError, IndexError) as e:
            rep.unk(R_FIN, '%s, %s' % (name, label), str(e)[:80])
            continue
        if math.isfinite(got) and abs(got - want) <= 1e-3 * (1 + abs(want)):
            rep.ok(R_FIN, '%s, %s' % (name, label))
        elif not math.isfinite(got):
            rep.bad(R_FIN, name, '%s: the result is %s instead of %g' % (label, got, want), '%s:%d' % (path, mod.funcs[name].lineno))
        else:
            rep.bad(R_FIN, name, '%s: cancellation leaves %g instead of %g' % (label, got, want), '%s:%d' % (path, mod.funcs[name].lineno))
    rep.stats['array accesses'] = acc

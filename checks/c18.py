"""C18: no result depends on uninitialised memory (definite-initialisation analysis of arrays)."""
import ast, itertools, os, random
from sa.program import Program
from sa import pyx

EXPLAIN = ('Definite-initialisation dataflow over every function of the package (and of its Cython source): each array allocated without initial values, and each element-wise operation restricted by a mask without an initialised '
           'output, is followed along all paths; stores are collected as index sets (slices, masks, loop ranges) and compared with the shape of the array before it is read as a whole, returned or kept. '
           'An unwritten element that is read for some array size is a violation; index sets that are not understood leave the obligation undecided.')
ASSUME = ['sequences traversed together by zip have equal lengths', 'array sizes 1 to 4 stand for all sizes', 'functions of the package that receive an uninitialised array fill it (reported as undecided)']
FLOOR = 100
R_ALLOC, R_MASK, R_FN = 'every element is written before it is read', 'masked operations write into an initialised output', 'function without uninitialised arrays'
ALLOC = {'numpy.empty', 'numpy.empty_like', 'numpy.ndarray', 'numpy.ma.empty', 'numpy.ma.empty_like'}
REDUCTIONS = {'sum', 'mean', 'max', 'min', 'amax', 'amin', 'prod', 'any', 'all', 'std', 'var', 'nansum', 'nanmean', 'nanmax', 'nanmin', 'average', 'where'}
LIKE = {'shape', 'size', 'dtype', 'ndim', 'nbytes', 'itemsize', 'strides', 'flags'}
CAP = 48


class Arr:
    """an array (or masked result) that may hold uninitialised elements"""

    def __init__(self, dims, where, what, like=None):
        self.dims, self.where, self.what, self.like = dims, where, what, like
        self.full = False          # every element written
        self.stores = []           # index sets
        self.vague = None          # a store or alias that is not understood

    def copy(self):
        a = Arr(self.dims, self.where, self.what, self.like)
        a.full, a.stores, a.vague = self.full, list(self.stores), self.vague
        return a


class Store:
    def __init__(self, axes, binders=(), mask=None, key=''):
        self.axes, self.binders, self.mask, self.key, self.maybe = axes, tuple(binders), mask, key, None


class State:
    def __init__(self):
        self.names, self.arrs, self.conds = {}, {}, []

    def fork(self):
        s = State()
        s.names, s.arrs, s.conds = dict(self.names), {k: a.copy() for k, a in self.arrs.items()}, list(self.conds)
        return s


def text(n):
    return ast.unparse(n)


def path_of(n):
    """'x' or 'self.x' of an assignable place"""
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr not in LIKE and n.attr not in ('T', 'flat', 'real'):
        return n.value.id + '.' + n.attr
    return None


def isfull(n):
    return isinstance(n, ast.Slice) and n.lower is None and n.upper is None and n.step is None or isinstance(n, ast.Constant) and n.value is Ellipsis


def negated(a, b):
    """texts of masks that are complements of each other"""
    def norm(n):
        neg = False
        while True:
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Invert, ast.Not)):
                n, neg = n.operand, not neg
            elif isinstance(n, ast.Call) and text(n.func).split('.')[-1] == 'logical_not' and len(n.args) == 1:
                n, neg = n.args[0], not neg
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('ravel', 'flatten', 'copy') and not n.args:
                n = n.func.value
            else:
                break
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o, l, r = n.ops[0], text(n.left), text(n.comparators[0])
            if isinstance(o, (ast.Lt, ast.LtE)):
                l, r, o = r, l, ast.Gt() if isinstance(o, ast.Lt) else ast.GtE()
            if isinstance(o, ast.NotEq):
                return ('==', *sorted((l, r))), not neg
            if isinstance(o, ast.Eq):
                return ('==', *sorted((l, r))), neg
            if isinstance(o, ast.Gt):
                return ('>', l, r), neg
            if isinstance(o, ast.GtE):
                return ('>', r, l), not neg
        return text(n), neg
    (x, p), (y, q) = norm(a), norm(b)
    return x == y and p != q, x == y and p == q


class Fn:
    def __init__(self, chk, node, label, rel, modnames, kept):
        self.chk, self.node, self.label, self.rel, self.modnames, self.kept = chk, node, label, rel, modnames, kept
        self.found = 0
        self.union = {}
        self.defs = {}
        self.loops = []
        self.verdicts = {}        # site -> (status, message, rule)
        params = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)} if not isinstance(node, ast.Module) else set()
        count = {}
        for s in ast.walk(node):
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign, ast.For, ast.comprehension, ast.NamedExpr)) else []):
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        count[x.id] = count.get(x.id, 0) + (1 if isinstance(s, ast.Assign) else 2)
        for s in ast.walk(node):
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                t = s.targets[0]
                if isinstance(t, ast.Name) and count.get(t.id) == 1 and t.id not in params:
                    self.defs[t.id] = s.value
                elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Attribute) and s.value.attr == 'shape':
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name) and count.get(e.id) == 1 and e.id not in params:
                            self.defs[e.id] = ast.Subscript(s.value, ast.Constant(i), ast.Load())
                elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                    for e, v in zip(t.elts, s.value.elts):
                        if isinstance(e, ast.Name) and count.get(e.id) == 1 and e.id not in params:
                            self.defs[e.id] = v

    # ---------------------------------------------------------------- recognisers
    def dotted(self, f):
        t = text(f) if isinstance(f, (ast.Name, ast.Attribute)) else ''
        head, _, rest = t.partition('.')
        if head in self.modnames:
            return self.modnames[head] + ('.' + rest if rest else '')
        return t

    def isalloc(self, n):
        return isinstance(n, ast.Call) and self.dotted(n.func) in ALLOC

    def masked(self, n):
        """an element-wise operation restricted by a mask"""
        if not isinstance(n, ast.Call):
            return None
        w = next((k.value for k in n.keywords if k.arg == 'where'), None)
        if w is None or isinstance(w, ast.Constant) and w.value is True:
            return None
        d = self.dotted(n.func)
        if not d.startswith(('numpy.', 'scipy.')) or d.split('.')[-1] in REDUCTIONS:
            return None
        return w

    def out_of(self, n):
        o = next((k.value for k in n.keywords if k.arg == 'out'), None)
        if isinstance(o, ast.Tuple) and len(o.elts) == 1:
            o = o.elts[0]
        return None if isinstance(o, ast.Constant) and o.value is None else o

    def at(self, n):
        return '%s:%d in %s' % (self.rel, getattr(n, 'lineno', 0), self.label)

    def alloc(self, n):
        """(Arr of the allocation)"""
        d = self.dotted(n.func)
        a = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg in ('shape', 'prototype', 'a')), None)
        if d.endswith('_like') and not any(k.arg == 'shape' for k in n.keywords):
            return Arr(None, n, text(n)[:60], a)
        if any(k.arg == 'buffer' for k in n.keywords) and d == 'numpy.ndarray':
            r = Arr([], n, text(n)[:60])
            r.full = True
            return r
        a = next((k.value for k in n.keywords if k.arg == 'shape'), a)
        a = self.resolve(a)
        if isinstance(a, (ast.Tuple, ast.List)):
            dims = list(a.elts)
            if any(isinstance(x, ast.Starred) for x in dims):
                return Arr(None, n, text(n)[:60], ast.Constant(0))
        elif isinstance(a, ast.Attribute) and a.attr == 'shape':
            return Arr(None, n, text(n)[:60], a.value)
        elif isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add) and any(isinstance(x, (ast.Tuple, ast.List)) for x in (a.left, a.right)):
            return Arr(None, n, text(n)[:60], ast.Constant(0))
        else:
            dims = [a]
        r = Arr(dims, n, text(n)[:60])
        if any(isinstance(x, ast.Constant) and x.value == 0 for x in dims):
            r.full = True
        return r

    def resolve(self, n, depth=0):
        while isinstance(n, ast.Name) and n.id in self.defs and depth < 6:
            n, depth = self.defs[n.id], depth + 1
        return n

    # ---------------------------------------------------------------- verdicts
    def judge(self, a, st, use):
        """the array is used as a whole"""
        if a.full:
            return self.verdict(a, 'ok', '')
        c, why = self.complete(a, st)
        if c is True:
            self.verdict(a, 'ok', '')
        elif c is False:
            z = self.emptiness(a, st)
            if z:
                self.verdict(a, 'undecided', 'used under ' + z)
            else:
                self.verdict(a, 'violation', '%s (line %d) is used at line %d %s' % (a.what, a.where.lineno, getattr(use, 'lineno', 0), why))
        else:
            self.verdict(a, 'undecided', why)

    def emptiness(self, a, st):
        """a condition of the path that may say that the array is empty"""
        names = {x.id for d in (a.dims or [a.like]) if d is not None for x in ast.walk(d) if isinstance(x, ast.Name)} - {'len', 'self', 'np'}
        attrs = {x.attr for d in (a.dims or [a.like]) if d is not None for x in ast.walk(d) if isinstance(x, ast.Attribute)} - {'shape'}
        for c in st.conds:
            if any(isinstance(x, ast.Name) and x.id in names or isinstance(x, ast.Attribute) and x.attr in attrs for x in ast.walk(c)):
                d = c.operand if isinstance(c, ast.UnaryOp) else c
                if not isinstance(d, ast.Compare) or any(isinstance(x, ast.Constant) and x.value in (0, 1) for x in [d.left] + d.comparators):
                    return text(c)[:60]
        return None

    def verdict(self, a, status, msg):
        site = (a.where.lineno, a.where.col_offset)
        order = {'ok': 0, 'undecided': 1, 'violation': 2}
        old = self.verdicts.get(site)
        if old is None or order[status] > order[old[0]]:
            self.verdicts[site] = (status, msg, R_MASK if a.what.startswith('masked ') else R_ALLOC, a)

    # ---------------------------------------------------------------- coverage
    def complete(self, a, st):
        if a.vague:
            return None, a.vague
        sure = [s for s in a.stores if s.maybe is None]
        masks = [s for s in sure if s.mask is not None]
        for x, y in itertools.combinations(masks, 2):
            if negated(self.resolve(x.mask), self.resolve(y.mask))[0] or negated(x.mask, y.mask)[0]:
                return True, ''
        cells = [s for s in sure if s.mask is None]
        if any(s.maybe for s in a.stores):
            cond = next(s.maybe for s in a.stores if s.maybe)
        else:
            cond = None
        try:
            r, why = self.cover(a, cells, st)
        except Vague as e:
            return None, str(e)
        if r is True:
            return True, ''
        if masks and len(masks) > 1 or masks and cells:
            return None, 'several masks'
        if masks:
            return False, 'although only the elements selected by %s were written' % text(masks[0].mask)[:60]
        if cond is not None:
            if isinstance(cond, str):
                return None, cond
            return False, 'although elements are written only when %s' % text(cond)[:60]
        return r, why

    def cover(self, a, stores, st):
        if any(all(x == 'full' for x in s.axes) for s in stores):
            return True, ''
        nd = len(a.dims) if a.dims is not None else max([len(s.axes) for s in stores] + [1])
        if a.dims is not None and any(len(s.axes) > nd for s in stores):
            raise Vague('more indices than dimensions')
        ev = Eval(self, a, st)
        dim_atoms = set()
        for k in range(nd):
            ev.dim(a, k, {}, dim_atoms)
        extra, uses = set(), {}
        for s in stores:
            seen = set()
            for x in s.axes:
                if x != 'full':
                    for e in x:
                        if e is not None:
                            ev.num(e, None, seen)
            for _, lo, hi in s.binders:
                for e in (lo, hi):
                    ev.num(e, None, seen)
            seen -= {'$' + b[0] for b in s.binders}
            for y in seen - dim_atoms:
                extra.add(y)
                uses[y] = uses.get(y, 0) + 1
        rnd = random.Random(7)
        atoms = sorted(dim_atoms | extra)
        bad = good = 0
        wit = None
        samples = [{x: rnd.choice((1, 2, 3, 4)) for x in atoms} for _ in range(24)] + [{x: v for x in atoms} for v in (1, 2, 3, 4)]
        for env in samples:
            try:
                dims = [ev.num(None, env, None, k) for k in range(nd)]
                if any(d < 0 or d > 8 for d in dims):
                    continue
                want = set(itertools.product(*[range(d) for d in dims]))
                if extra and a.dims is not None and any(not 0 < env[x] < max(dims) for x in extra):
                    interior = False
                else:
                    interior = True
                got = set()
                for s in stores:
                    got |= ev.cells(s, env, dims)
            except (ZeroDivisionError, ValueError):
                continue
            if want <= got:
                good += 1
            elif not extra or interior:
                bad += 1
                wit = wit or (dims, sorted(want - got)[0])
        if not bad and good:
            return True, ''
        if not extra or len(extra) == 1 and all(uses[x] >= 2 for x in extra) and bad:
            if bad:
                if not stores:
                    return False, 'although nothing was written into it'
                return False, 'although for shape %s the element at %s was never written' % (tuple(wit[0]), list(wit[1]))
        raise Vague('extent of the stores: ' + ', '.join(s.key for s in stores)[:100])

    # ---------------------------------------------------------------- statements
    def run(self):
        body = self.node.body
        falls, _, _ = self.block(body, [State()])
        for st in falls:
            self.exit(st)
        return self.verdicts

    def exit(self, st):
        for p, k in st.names.items():
            if '.' in p:
                a = st.arrs[k]
                if a.full:
                    self.verdict(a, 'ok', '')
                elif p.split('.', 1)[1] in self.kept[not p.startswith('self.')] and not a.vague and not a.stores:
                    a.vague = 'kept in %s, which is written elsewhere' % p
                    self.judge(a, st, a.where)
                else:
                    self.judge(a, st, a.where)

    def block(self, stmts, states):
        """(fall-through states, continue states, break states)"""
        cont, brk = [], []
        for s in stmts:
            nxt = []
            for st in states:
                f, c, b = self.stmt(s, st)
                nxt += f
                cont += c
                brk += b
            if len(nxt) > CAP:
                raise Vague('too many paths')
            states = nxt
            if not states:
                break
        return states, cont, brk

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.escape(s, st, 'used in an inner function')
            return [st], [], []
        if isinstance(s, ast.Continue):
            return [], [st], []
        if isinstance(s, ast.Break):
            return [], [], [st]
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.expr(s.value, st)
            self.exit(st)
            return [], [], []
        if isinstance(s, ast.Raise):
            return [], [], []
        if isinstance(s, (ast.Expr, ast.Assert)):
            for x in ([s.value] if isinstance(s, ast.Expr) else [s.test]):
                self.expr(x, st)
            return [st], [], []
        if isinstance(s, ast.Delete):
            for t in s.targets:
                st.names.pop(path_of(t), None)
            return [st], [], []
        if isinstance(s, ast.AnnAssign):
            return self.assign([s.target], s.value, st, s) if s.value is not None else ([st], [], [])
        if isinstance(s, ast.Assign):
            return self.assign(s.targets, s.value, st, s)
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, st)
            t = s.target
            p = path_of(t)
            if p in st.names:
                self.judge(st.arrs[st.names[p]], st, s)
            elif isinstance(t, ast.Subscript):
                self.element(t, st, s)
                self.expr(t.slice, st)
            return [st], [], []
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            if isinstance(s.test, ast.Constant):
                return self.block(s.body if s.test.value else s.orelse, [st])
            z = st.fork()
            st.conds.append(s.test)
            z.conds.append(ast.UnaryOp(ast.Not(), s.test))
            a, b = self.block(s.body, [st]), self.block(s.orelse, [z])
            return a[0] + b[0], a[1] + b[1], a[2] + b[2]
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, st)
            return self.block(s.body, [st])
        if isinstance(s, ast.Try):
            pre = st.fork()
            f, c, b = self.block(s.body, [st])
            f2, c2, b2 = self.block(s.orelse, f)
            for h in s.handlers:
                x = self.block(h.body, [pre.fork()])
                f2, c2, b2 = f2 + x[0], c2 + x[1], b2 + x[2]
            if s.finalbody:
                x = self.block(s.finalbody, f2 or [pre.fork()])
                f2 = x[0] if f2 else []
            return f2, c + c2, b + b2
        if isinstance(s, (ast.For, ast.AsyncFor)):
            return self.loop(s, st)
        if isinstance(s, ast.While):
            return self.whil(s, st)
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.expr(x, st)
        self.escape(s, st, 'statement not understood')
        return [st], [], []

    def assign(self, targets, value, st, s):
        new = None
        if isinstance(value, (ast.IfExp, ast.BoolOp)) and any(isinstance(x, ast.Call) and (self.isalloc(x) or self.masked(x) is not None) for x in ast.walk(value)):
            branches = [value.body, value.orelse] if isinstance(value, ast.IfExp) else value.values
            falls = []
            for b in branches:
                z = st.fork()
                if isinstance(value, ast.IfExp):
                    z.conds.append(value.test)
                falls += self.assign(targets, b, z, s)[0]
            return falls, [], []
        w = self.masked(value)
        if self.isalloc(value):
            self.found += 1
            new = self.alloc(value)
            for x in list(value.args) + [k.value for k in value.keywords]:
                self.expr(x, st)
        elif w is not None:
            o = self.out_of(value)
            for x in list(value.args) + [w]:
                self.expr(x, st)
            if o is None or self.isalloc(o):
                self.found += 1
                new = Arr(None, value, 'masked ' + text(value)[:60], ast.Constant(0))
                new.stores.append(Store(('mask',), mask=w, key=text(w)))
            elif path_of(o) in st.names:
                self.found += 1
                k = st.names[path_of(o)]
                st.arrs[k].stores.append(Store(('mask',), mask=w, key=text(w)))
                for t in targets:
                    if path_of(t):
                        st.names[path_of(t)] = k
                return [st], [], []
            else:
                self.found += 1
                self.verdict(Arr(None, value, 'masked ' + text(value)[:60]), 'ok', '')
        elif self.view(value, st):
            a = st.arrs[st.names[self.view(value, st)]]
            if not a.full and self.complete(a, st)[0] is not True:
                a.vague = a.vague or 'seen through ' + text(value)[:40]
        elif path_of(value) in st.names and all(path_of(t) for t in targets):
            for t in targets:
                st.names[path_of(t)] = st.names[path_of(value)]
            return [st], [], []
        else:
            self.expr(value, st)
        for t in targets:
            p = path_of(t)
            if p:
                st.names.pop(p, None)
                if new is not None:
                    k = len(st.arrs) + 1000 * value.lineno
                    st.arrs[k] = new
                    st.names[p] = k
            elif isinstance(t, ast.Subscript):
                if new is not None:
                    self.judge(new, st, s)
                self.store(t, st, s)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    if path_of(e):
                        st.names.pop(path_of(e), None)
                    elif isinstance(e, ast.Subscript):
                        self.store(e, st, s)
            elif new is not None:
                new.vague = 'kept in ' + text(t)[:40]
                self.judge(new, st, s)
        return [st], [], []

    def view(self, v, st):
        """the array that v is a view of"""
        if isinstance(v, ast.Attribute) and v.attr in ('T', 'flat', 'real'):
            p = path_of(v.value)
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('reshape', 'ravel', 'view', 'transpose', 'swapaxes', 'squeeze'):
            p = path_of(v.func.value)
        elif isinstance(v, ast.Subscript) and any(isinstance(x, ast.Slice) for x in ast.walk(v.slice)):
            p = path_of(v.value)
        else:
            return None
        return p if p in st.names else None

    def axes(self, key):
        """per-axis index set; None if not understood"""
        ks = key.elts if isinstance(key, ast.Tuple) else [key]
        out = []
        for k in ks:
            if isfull(k):
                out.append('full')
            elif isinstance(k, ast.Slice):
                out.append((k.lower, k.upper, k.step, 'slice'))
            else:
                out.append((k, 'idx'))
        return out

    def ismask(self, k):
        k = self.resolve(k)
        if isinstance(k, ast.Compare):
            return True
        if isinstance(k, ast.UnaryOp) and isinstance(k.op, (ast.Invert, ast.Not)):
            return True
        if isinstance(k, ast.BinOp) and isinstance(k.op, (ast.BitAnd, ast.BitOr)):
            return True
        if isinstance(k, ast.Call) and isinstance(k.func, ast.Attribute) and k.func.attr in ('ravel', 'flatten', 'copy', 'astype'):
            return self.ismask(k.func.value)
        return isinstance(k, ast.Call) and text(k.func).split('.')[-1] in ('isnan', 'isfinite', 'isin', 'in1d', 'logical_not', 'logical_and', 'logical_or', 'isclose')

    def store(self, t, st, s):
        self.expr(t.slice, st)
        p = path_of(t.value)
        if p not in st.names:
            self.expr(t.value, st)
            return
        a = st.arrs[st.names[p]]
        ks = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
        rest = [k for k in ks if not isfull(k)]
        if len(rest) == 1 and self.ismask(rest[0]):
            a.stores.append(Store(('mask',), mask=rest[0], key=text(t.slice)))
            return
        x = Store(tuple(tuple(y[:-1]) if y != 'full' and y[-1] == 'idx' else ('slice',) and y if y != 'full' else 'full' for y in self.axes(t.slice)), key=text(t.slice))
        x.axes = tuple('full' if y == 'full' else (('idx',) + y[:-1] if y[-1] == 'idx' else ('slice',) + y[:-1]) if isinstance(y, tuple) and y[-1] in ('idx', 'slice') else ('idx',) + tuple(y) for y in self.axes(t.slice))
        x.axes = tuple(y if y == 'full' else Axis(*y) for y in x.axes)
        x.binders = tuple(self.loops)
        for y in x.axes:
            if y != 'full' and y.kind == 'idx' and isinstance(self.resolve(y[0]), (ast.List, ast.ListComp, ast.Call)) and not self.intcall(self.resolve(y[0])):
                a.vague = a.vague or 'stored at ' + text(t.slice)[:60]
        a.stores.append(x)

    @staticmethod
    def intcall(n):
        return isinstance(n, ast.Call) and text(n.func) in ('len', 'int')

    def element(self, t, st, s):
        """an element is read (and, for an augmented assignment, written)"""
        p = path_of(t.value)
        if p not in st.names:
            self.expr(t.value, st)
            return
        a = st.arrs[st.names[p]]
        if a.full:
            return
        if isinstance(t.ctx, ast.Load) and isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None:
            return self.judge(a, st, s)
        k = text(t.slice)
        if any(x.key == k and x.maybe is None for x in a.stores):
            return
        m = t.slice
        if any(x.mask is not None and (negated(x.mask, m)[1] or negated(self.resolve(x.mask), self.resolve(m))[1]) for x in a.stores):
            return
        if not a.stores and not a.vague:
            return self.judge(a, st, s)
        c, why = self.complete(a, st)
        if c is not True:
            a.vague = a.vague or 'element %s is read' % k[:40]
            self.verdict(a, 'undecided', a.vague)

    # ---------------------------------------------------------------- expressions
    def expr(self, n, st):
        if isinstance(n, ast.Constant):
            return
        p = path_of(n)
        if p in st.names:
            self.judge(st.arrs[st.names[p]], st, n)
            return
        if isinstance(n, ast.Attribute):
            q = path_of(n.value)
            if q in st.names:
                if n.attr in LIKE:
                    return
                if n.attr in ('T', 'flat', 'real'):
                    return self.judge(st.arrs[st.names[q]], st, n)
            if self.isalloc(n.value) and n.attr in LIKE:
                return
            self.expr(n.value, st)
            return
        if isinstance(n, ast.Subscript):
            q = path_of(n.value)
            w = self.masked(n.value)
            if w is not None and (self.out_of(n.value) is None or self.isalloc(self.out_of(n.value))) and negated(w, n.slice)[1]:
                self.found += 1
                self.verdict(Arr(None, n.value, 'masked ' + text(n.value)[:60]), 'ok', '')
                for x in n.value.args:
                    self.expr(x, st)
                return
            if q in st.names:
                self.element(n, st, n)
            else:
                self.expr(n.value, st)
            self.expr(n.slice, st)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            self.comp(n, st)
            return
        if isinstance(n, ast.Call):
            return self.call(n, st)
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                self.expr(x, st)

    def comp(self, n, st):
        used = {path_of(x) for x in ast.walk(n)} & set(st.names)
        for p in used:
            a = st.arrs[st.names[p]]
            if not a.full:
                if self.complete(a, st)[0] is not True:
                    a.vague = a.vague or 'used in a comprehension or lambda'
                self.judge(a, st, n)
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and (self.isalloc(x) or self.masked(x) is not None):
                self.inline(x, st)

    def inline(self, n, st):
        """an allocation or masked operation used directly inside an expression"""
        self.found += 1
        w = self.masked(n)
        if w is not None:
            o = self.out_of(n)
            if o is not None and not self.isalloc(o):
                q = path_of(o)
                if q in st.names:
                    a = st.arrs[st.names[q]]
                    a.stores.append(Store(('mask',), mask=w, key=text(w)))
                    self.judge(a, st, n)
                else:
                    self.verdict(Arr(None, n, 'masked ' + text(n)[:60]), 'ok', '')
                return
            a = Arr(None, n, 'masked ' + text(n)[:60], ast.Constant(0))
            a.stores.append(Store(('mask',), mask=w, key=text(w)))
            self.judge(a, st, n)
            return
        self.judge(self.alloc(n), st, n)

    def call(self, n, st):
        d = self.dotted(n.func)
        w = self.masked(n)
        if self.isalloc(n):
            for x in list(n.args) + [k.value for k in n.keywords]:
                self.expr(x, st)
            return self.inline(n, st)
        if w is not None:
            for x in list(n.args) + [k.value for k in n.keywords if k.arg != 'out']:
                self.expr(x, st)
            return self.inline(n, st)
        if d == 'len' or d in ('numpy.shape', 'numpy.ndim', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.full_like', 'numpy.empty_like', 'id', 'type', 'isinstance'):
            for x in n.args:
                if path_of(x) not in st.names and not self.isalloc(x):
                    self.expr(x, st)
            return
        if isinstance(n.func, ast.Attribute) and path_of(n.func.value) in st.names:
            a = st.arrs[st.names[path_of(n.func.value)]]
            for x in list(n.args) + [k.value for k in n.keywords]:
                self.expr(x, st)
            if n.func.attr == 'fill':
                a.full = True
                self.verdict(a, 'ok', '')
                return
            if n.func.attr in ('put', 'itemset', 'setfield', '__setitem__', 'sort', 'partition', 'resize'):
                if not a.full:
                    a.vague = a.vague or 'method ' + n.func.attr
                return self.judge(a, st, n)
            return self.judge(a, st, n)
        if d == 'numpy.where' and len(n.args) == 3:
            c, x, y = n.args
            for v, want in ((x, 1), (y, 0)):
                m = self.masked(v)
                src = None
                if m is not None and (self.out_of(v) is None or self.isalloc(self.out_of(v))):
                    src = m
                elif path_of(v) in st.names:
                    a = st.arrs[st.names[path_of(v)]]
                    ms = [s.mask for s in a.stores if s.mask is not None and s.maybe is None]
                    src = next((q for q in ms if negated(q, c)[want] or negated(self.resolve(q), self.resolve(c))[want]), None)
                    if src is not None:
                        self.verdict(a, 'ok', '')
                        continue
                if src is not None and m is not None and negated(self.resolve(src), self.resolve(c))[want]:
                    self.found += 1
                    self.verdict(Arr(None, v, 'masked ' + text(v)[:60]), 'ok', '')
                    for z in v.args:
                        self.expr(z, st)
                    continue
                self.expr(v, st)
            self.expr(c, st)
            return
        if d == 'numpy.copyto' and n.args:
            p = path_of(n.args[0])
            for x in n.args[1:]:
                self.expr(x, st)
            m = next((k.value for k in n.keywords if k.arg == 'where'), None)
            if p in st.names:
                a = st.arrs[st.names[p]]
                if m is None:
                    a.full = True
                    self.verdict(a, 'ok', '')
                else:
                    a.stores.append(Store(('mask',), mask=m, key=text(m)))
                return
            return
        self.expr(n.func, st)
        lib = d.startswith(('numpy.', 'scipy.', 'math.', 'sklearn.'))
        for x in n.args:
            self.argument(x, st, lib, n)
        for k in n.keywords:
            if k.arg == 'out' and lib:
                o = k.value
                if path_of(o) in st.names:
                    a = st.arrs[st.names[path_of(o)]]
                    a.full = True
                    self.verdict(a, 'ok', '')
                elif self.isalloc(o):
                    self.found += 1
                    self.verdict(self.alloc(o), 'ok', '')
                elif isinstance(o, ast.Subscript) and path_of(o.value) in st.names:
                    self.store(o, st, n)
                else:
                    self.expr(o, st)
                continue
            self.argument(k.value, st, lib, n)

    def argument(self, x, st, lib, n):
        if isinstance(x, ast.Starred):
            x = x.value
        p = path_of(x)
        q = path_of(x.value) if isinstance(x, ast.Subscript) else None
        if not lib and (p in st.names or q in st.names) and self.fills(n.func):
            a = st.arrs[st.names[p if p in st.names else q]]
            if not a.full and self.complete(a, st)[0] is not True:
                a.vague = a.vague or 'given to %s' % text(n.func)[:40]
                self.verdict(a, 'undecided', a.vague)
                return
        if not lib and self.isalloc(x) and self.fills(n.func):
            self.found += 1
            a = self.alloc(x)
            if not a.full:
                a.vague = 'given to %s' % text(n.func)[:40]
            return self.judge(a, st, n)
        self.expr(x, st)

    def fills(self, f):
        """may the called function write into its arguments?"""
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        known, writers = self.chk
        return name not in known or name in writers

    def escape(self, n, st, why):
        used = {path_of(x) for x in ast.walk(n)} & set(st.names)
        for p in used:
            a = st.arrs[st.names[p]]
            if not a.full:
                a.vague = a.vague or why

    # ---------------------------------------------------------------- loops
    def ranges(self, target, it):
        """[(variable, lo, hi)] of the counters of a loop; None if it has none"""
        z, one = ast.Constant(0), ast.Constant(1)
        it = self.resolve(it)
        if isinstance(it, ast.Call):
            d = self.dotted(it.func)
            if d in ('range', 'numpy.arange', 'prange', 'trange') and isinstance(target, ast.Name):
                if len(it.args) == 1:
                    return [(target.id, z, it.args[0])]
                if len(it.args) == 2:
                    return [(target.id, it.args[0], it.args[1])]
                if len(it.args) == 3 and isinstance(it.args[2], ast.UnaryOp) and text(it.args[2]) == '-1':
                    return [(target.id, ast.BinOp(it.args[1], ast.Add(), one), ast.BinOp(it.args[0], ast.Add(), one))]
                return None
            if d == 'reversed' and len(it.args) == 1:
                return self.ranges(target, it.args[0])
            if d == 'tqdm' and it.args:
                return self.ranges(target, it.args[0])
            if d == 'enumerate' and len(it.args) == 1 and not it.keywords and isinstance(target, ast.Tuple) and isinstance(target.elts[0], ast.Name):
                hi = self.count(it.args[0])
                if hi is None:
                    return None
                inner = self.ranges(target.elts[1], it.args[0]) or []
                return [(target.elts[0].id, z, hi)] + inner
            if d == 'zip' and isinstance(target, ast.Tuple) and len(target.elts) == len(it.args):
                self.count(it)
                out = []
                for t, x in zip(target.elts, it.args):
                    out += self.ranges(t, x) or []
                return out or None
        return None

    def count(self, it):
        """number of iterations over it"""
        it = self.resolve(it)
        if isinstance(it, ast.Call):
            d = self.dotted(it.func)
            if d in ('range', 'numpy.arange') and len(it.args) == 1:
                return it.args[0]
            if d == 'zip':
                cs = [self.count(x) for x in it.args if not (isinstance(x, ast.Call) and text(x.func).split('.')[-1] in ('count', 'repeat', 'cycle'))]
                cs = [c for c in cs if c is not None]
                for c in cs[1:]:
                    self.union.setdefault(self.atom(cs[0]), set()).add(self.atom(c))
                    self.union.setdefault(self.atom(c), set()).add(self.atom(cs[0]))
                return cs[0] if cs else None
            if d in ('enumerate', 'reversed', 'list', 'tuple', 'sorted', 'iter') and it.args:
                return self.count(it.args[0])
            if d == 'map' and len(it.args) >= 2:
                return self.count(it.args[1])
        if isinstance(it, (ast.GeneratorExp, ast.ListComp)) and len(it.generators) == 1 and not it.generators[0].ifs:
            return self.count(it.generators[0].iter)
        if isinstance(it, (ast.Name, ast.Attribute, ast.Subscript)):
            return ast.Call(ast.Name('len', ast.Load()), [it], [])
        return None

    def atom(self, n):
        n = self.resolve(n)
        if isinstance(n, ast.Call) and text(n.func) == 'len' and len(n.args) == 1:
            return text(self.resolve(n.args[0]) if isinstance(self.resolve(n.args[0]), (ast.Attribute, ast.Name)) else n.args[0]) + '.shape[0]'
        return text(n)

    def generator(self, s):
        """the loop with a generator expression (possibly returned by a method without arguments) written out"""
        it = self.resolve(s.iter)
        if isinstance(it, ast.Call) and not it.args and not it.keywords and isinstance(it.func, ast.Attribute) and isinstance(it.func.value, ast.Name) and it.func.value.id == 'self' and self.cls is not None:
            for m in self.cls.body:
                if isinstance(m, ast.FunctionDef) and m.name == it.func.attr:
                    body = [x for x in m.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                    if len(body) == 1 and isinstance(body[0], ast.Return):
                        it = body[0].value
        if not isinstance(it, (ast.GeneratorExp, ast.ListComp)) or len(it.generators) != 1 or it.generators[0].is_async:
            return s
        g = it.generators[0]
        head = [] if text(g.target) == text(it.elt) else [ast.copy_location(ast.Assign([s.target], it.elt), s)]
        if head and isinstance(s.target, ast.Tuple) and isinstance(it.elt, ast.Tuple) and len(s.target.elts) == len(it.elt.elts):
            head = [ast.copy_location(ast.Assign([t], v), s) for t, v in zip(s.target.elts, it.elt.elts) if text(t) != text(v)]
        elif not head and text(s.target) != text(g.target):
            head = [ast.copy_location(ast.Assign([s.target], it.elt), s)]
        body = head + s.body
        for c in reversed(g.ifs):
            body = [ast.copy_location(ast.If(c, body, []), s)]
        return ast.copy_location(ast.For(g.target, g.iter, body, s.orelse), s)

    def loop(self, s, st):
        self.expr(s.iter, st)
        z = self.generator(s)
        if z is not s:
            tests = [b.test for b in z.body if isinstance(b, ast.If) and z.body[0] is not s.body[0]]
            old, self._guard = self._guard, tests[0] if len(tests) == 1 else self._guard
            try:
                return self.loop(z, st)
            finally:
                self._guard = old
        rs = self.ranges(s.target, s.iter)
        for x in ast.walk(s.target):
            st.names.pop(path_of(x), None)
        names = {r[0] for r in rs or []}
        base = {k: len(a.stores) for k, a in st.arrs.items()}
        pre = st.fork()
        for x in ast.walk(s):
            if isinstance(x, ast.Assign) or isinstance(x, ast.AugAssign):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Name) and t.id in names:
                        rs = None
        outer = self.loops
        self.loops = outer + (rs or [('?', None, None)])
        try:
            f, c, b = self.block(s.body, [st.fork()])
        finally:
            self.loops = outer
        ends = f + c
        after = pre
        self.merge(after, ends, b, base, rs, s)
        falls = [after]
        if s.orelse:
            return self.block(s.orelse, falls)
        return falls, [], []

    def merge(self, after, ends, brks, base, rs, s):
        """the state after a loop: its stores become index sets over the range of its counter"""
        for k, a in after.arrs.items():
            if a.full:
                continue
            vers = [e.arrs[k] for e in ends if k in e.arrs]
            bs = [e.arrs[k] for e in brks if k in e.arrs]
            n0 = base.get(k, 0)
            new = [v.stores[n0:] for v in vers]
            if any(v.vague for v in vers + bs):
                a.vague = a.vague or next(v.vague for v in vers + bs if v.vague)
            if any(v.full for v in vers):
                if all(v.full for v in vers):
                    a.vague = a.vague or 'filled in a loop'
                continue
            if not any(new) and not any(v.stores[n0:] for v in bs):
                continue
            keys = {(x.key, x.mask is not None): x for vs in new for x in vs}
            for (key, _), x in keys.items():
                sure = all(any(y.key == key and y.maybe is None for y in vs) for vs in new)
                y = Store(x.axes, x.binders, x.mask, x.key)
                if rs is None or x.binders and any(r[0] == '?' for r in x.binders):
                    used = {z.id for ax in x.axes if ax not in ('full', 'mask') for e in ax if e is not None for z in ast.walk(e) if isinstance(z, ast.Name)} if x.mask is None else {z.id for z in ast.walk(x.mask) if isinstance(z, ast.Name)}
                    y.maybe = 'written in a loop whose extent is not understood'
                elif bs:
                    y.maybe = 'the loop may be left early'
                elif not sure:
                    y.maybe = self.guard(key, vers, n0, rs) or 'written on some paths only'
                elif x.maybe is not None:
                    y.maybe = x.maybe
                if x.mask is not None and y.maybe is None:
                    y.maybe = 'masked in a loop'
                a.stores.append(y)
            # elements written by different branches of the body
            if len(ends) > 1 and rs and not bs:
                pass

    def guard(self, key, vers, n0, rs):
        """the data-dependent condition under which an element is written, if another path of the body writes nothing at all"""
        without = [v for v in vers if not v.stores[n0:]]
        if not without:
            return None
        return self.cond_of(rs)

    def cond_of(self, rs):
        return getattr(self, '_guard', None)

    def whil(self, s, st):
        """counter loops and chunked fills"""
        self.expr(s.test, st)
        t = s.test
        touched = {path_of(x.value) for x in ast.walk(s) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store)} & set(st.names)
        ctr = None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name):
            ctr = (t.left.id, t.comparators[0])
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Gt) and isinstance(t.comparators[0], ast.Name):
            ctr = (t.comparators[0].id, t.left)
        base = {k: len(a.stores) for k, a in st.arrs.items()}
        pre = st.fork()
        outer = self.loops
        good = ctr and self.counter(s, ctr)
        self.loops = outer + ([good] if good else [('?', None, None)])
        try:
            f, c, b = self.block(s.body, [st.fork()])
        finally:
            self.loops = outer
        if good == 'chunk':
            self.loops = outer
        if ctr and not good and self.chunked(s, ctr, pre, touched):
            for p in touched:
                pre.arrs[pre.names[p]].full = True
                self.verdict(pre.arrs[pre.names[p]], 'ok', '')
            return [pre], [], []
        self.merge(pre, f + c, b, base, [good] if good else None, s)
        return self.block(s.orelse, [pre]) if s.orelse else ([pre], [], [])

    def zero_before(self, s, var):
        """var = 0 is the last assignment before the loop"""
        last = None
        for x in ast.walk(self.node):
            if isinstance(x, ast.Assign) and x.lineno < s.lineno and any(path_of(t) == var for t in x.targets):
                last = x if last is None or x.lineno > last.lineno else last
        return last.value if last is not None else None

    def counter(self, s, ctr):
        var, hi = ctr
        ch = [x for x in ast.walk(s) if isinstance(x, (ast.Assign, ast.AugAssign)) and any(path_of(t) == var for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))]
        lo = self.zero_before(s, var)
        if len(ch) == 1 and ch[0] is s.body[-1] and lo is not None and text(ch[0]) in (var + ' += 1', '%s = %s + 1' % (var, var), '%s = 1 + %s' % (var, var)):
            return (var, lo, hi)
        return None

    def chunked(self, s, ctr, pre, touched):
        """A[i:j] = ...; i = j from i = 0 until i reaches the length"""
        var, hi = ctr
        lo = self.zero_before(s, var)
        if lo is None or text(lo) != '0' or len(touched) != 1:
            return False
        a = pre.arrs[pre.names[next(iter(touched))]]
        if a.dims is None or self.atom(a.dims[0]) != self.atom(hi) and text(a.dims[0]) != text(hi):
            return False
        ch = [x for x in s.body if isinstance(x, ast.Assign) and any(path_of(t) == var for t in x.targets)]
        allch = [x for x in ast.walk(s) if isinstance(x, (ast.Assign, ast.AugAssign)) and any(path_of(t) == var for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))]
        sts = [x for x in s.body if isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) and path_of(t.value) in touched for t in x.targets)]
        if len(ch) != 1 or len(allch) != 1 or len(sts) != 1 or s.body.index(sts[0]) > s.body.index(ch[0]) or any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
            return False
        k = sts[0].targets[0].slice
        k = k.elts[0] if isinstance(k, ast.Tuple) and all(isfull(x) for x in k.elts[1:]) else k
        if not isinstance(k, ast.Slice) or k.step is not None or k.lower is None or k.upper is None or text(k.lower) != var:
            return False
        return text(k.upper) == text(ch[0].value)


class Axis(tuple):
    def __new__(cls, kind, *parts):
        t = tuple.__new__(cls, [p for p in parts])
        t.kind = kind
        return t


class Vague(Exception):
    pass


class Eval:
    """index expressions over small sizes"""

    def __init__(self, fn, a, st):
        self.fn, self.a, self.st = fn, a, st

    def root(self, x):
        seen, todo = set(), [x]
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            todo += self.fn.union.get(y, ())
        return min(seen)

    def dim(self, a, k, env, atoms):
        if a.dims is not None:
            return self.num(a.dims[k], env if env else None, atoms)
        x = self.root('%s.shape[%d]' % (text(a.like), k))
        if atoms is not None:
            atoms.add(x)
        return env.get(x) if env else None

    def num(self, n, env, atoms, k=None):
        """value of an index expression (env given) or the atoms it depends on"""
        if n is None:
            return self.dim(self.a, k, env, None)
        n = self.fn.resolve(n)

        def sub(x):
            return self.num(x, env, atoms)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool) or not isinstance(n.value, int):
                raise Vague('index ' + text(n)[:40])
            return n.value
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            v = sub(n.operand)
            return -v if env is not None else None
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv)):
            x, y = sub(n.left), sub(n.right)
            if env is None:
                return None
            return {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y, ast.FloorDiv: lambda: x // y}[type(n.op)]()
        tracked = None
        if isinstance(n, ast.Call) and text(n.func) == 'len' and len(n.args) == 1:
            tracked = (n.args[0], 0)
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == 'shape' and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            tracked = (n.value.value, n.slice.value)
        elif isinstance(n, ast.Call) and text(n.func) == 'int' and len(n.args) == 1:
            return sub(n.args[0])
        if tracked is not None:
            p = path_of(tracked[0])
            if p in self.st.names:
                b = self.st.arrs[self.st.names[p]]
                if b.dims is not None and 0 <= tracked[1] < len(b.dims):
                    return self.num(b.dims[tracked[1]], env, atoms)
                if b.like is not None:
                    x = self.root('%s.shape[%d]' % (text(b.like), tracked[1]))
                    if atoms is not None:
                        atoms.add(x)
                    return env[x] if env is not None else None
            t = self.fn.resolve(tracked[0])
            if isinstance(t, ast.Call) and text(t.func).split('.')[-1] in ('zeros_like', 'ones_like', 'empty_like', 'full_like', 'asarray', 'list', 'tuple', 'sorted') and t.args:
                return self.num(ast.Subscript(ast.Attribute(t.args[0], 'shape', ast.Load()), ast.Constant(tracked[1]), ast.Load()), env, atoms)
            x = '%s.shape[%d]' % (text(t if isinstance(t, (ast.Attribute, ast.Name)) else tracked[0]), tracked[1])
        elif isinstance(n, ast.Name) and env is not None and '$' + n.id in env:
            return env['$' + n.id]
        elif isinstance(n, ast.Name) and any(b[0] == n.id for s in self.a.stores for b in s.binders):
            if atoms is not None:
                atoms.add('$' + n.id)
            return env['$' + n.id] if env is not None else None
        elif isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)):
            x = text(n)
        else:
            raise Vague('index ' + text(n)[:40])
        x = self.root(x)
        if atoms is not None:
            atoms.add(x)
        return env[x] if env is not None else None

    def cells(self, s, env, dims):
        out = set()

        def go(bs, env):
            if bs:
                v, lo, hi = bs[0]
                for i in range(self.num(lo, env, None), min(self.num(hi, env, None), 64)):
                    go(bs[1:], {**env, '$' + v: i})
                return
            sets = []
            for k, d in enumerate(dims):
                x = s.axes[k] if k < len(s.axes) else 'full'
                if x == 'full':
                    sets.append(range(d))
                elif x.kind == 'idx':
                    i = self.num(x[0], env, None)
                    sets.append([i % d] if d and -d <= i < d else [])
                else:
                    lo, hi, by = [None if e is None else self.num(e, env, None) for e in x]
                    sets.append(range(d)[slice(lo, hi, by)])
            out.update(itertools.product(*sets))
        go(list(s.binders), env)
        return out


# ---------------------------------------------------------------- driver
def functions(tree):
    """every function of a module with its qualified name and class"""
    def go(body, pre, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield n, pre + n.name, cls
                yield from go(n.body, pre + n.name + '.', cls)
            elif isinstance(n, ast.ClassDef):
                yield from go(n.body, pre + n.name + '.', n)
            else:
                for f in ('body', 'orelse', 'finalbody', 'handlers'):
                    sub = getattr(n, f, None)
                    if isinstance(sub, list):
                        yield from go([x for x in sub if isinstance(x, ast.stmt)], pre, cls)
    yield from go(tree.body, '', None)


def modnames(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = n.module + '.' + a.name
    if any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(tree)):
        out.setdefault('np', 'numpy')
    return out


def kept_elsewhere(cls, fn):
    """attributes whose elements are written in other methods of the class"""
    out = set()
    if cls is None:
        return out
    for m in cls.body:
        if m is fn:
            continue
        for x in ast.walk(m):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute):
                out.add(x.value.attr)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'fill' and isinstance(x.func.value, ast.Attribute):
                out.add(x.func.value.attr)
            if isinstance(x, ast.keyword) and x.arg == 'out' and isinstance(x.value, ast.Attribute):
                out.add(x.value.attr)
    return out


def mutated_guard(node):
    """data-dependent single ifs around stores in loops: (loop, test)"""
    for s in ast.walk(node):
        if isinstance(s, (ast.For, ast.While)):
            for b in s.body:
                if isinstance(b, ast.If) and not b.orelse and not isinstance(b.test, ast.Constant):
                    return b.test
    return None


def one(rep, rel, modname, node, qual, cls, names, pkg, kept):
    label = modname + '.' + qual
    f = Fn(pkg, node, label, rel, names, (kept_elsewhere(cls, node), kept))
    tests = [b.test for s in ast.walk(node) if isinstance(s, (ast.For, ast.While)) for b in s.body
             if isinstance(b, ast.If) and not b.orelse and (any(isinstance(x, ast.Subscript) for x in ast.walk(b.test)) or isinstance(s, ast.For) and {x.id for x in ast.walk(b.test) if isinstance(x, ast.Name)} & {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)})
             and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(b))]
    f.cls = cls
    f._guard = tests[0] if len(tests) == 1 else None
    has = any(isinstance(x, ast.Call) and (f.isalloc(x) or f.masked(x) is not None) for x in ast.walk(node))
    if not has:
        rep.ok(R_FN, label)
        return
    try:
        v = f.run()
    except Vague as e:
        rep.unk(R_ALLOC, label, str(e))
        return
    for site, (status, msg, rule, a) in sorted(v.items()):
        where = '%s:%d in %s' % (rel, site[0], label)
        what = '%s: %s' % (label, a.what)
        if status == 'violation':
            rep.bad(rule, what, msg, where)
        elif status == 'undecided':
            rep.unk(rule, what, msg, where)
        else:
            rep.ok(rule, what, '', where)


def run(rep):
    prog = Program()
    n = 0
    trees = [m.tree for m in prog.mods.values()]
    known, writers, kept = set(), set(), set()
    for t in trees:
        for c in ast.walk(t):
            if isinstance(c, ast.ClassDef):
                known.add(c.name)
        for node, qual, cls in functions(t):
            known.add(node.name)
            ps = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)}
            for x in ast.walk(node):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and path_of(x.value) in ps or isinstance(x, ast.keyword) and x.arg == 'out' or \
                        isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'fill':
                    writers |= {node.name} | ({cls.name} if cls is not None and node.name == '__init__' else set())
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute) and not (isinstance(x.value.value, ast.Name) and x.value.value.id == 'self'):
                    kept.add(x.value.attr)
    pkg = (known - {'predict', 'fit', 'update'}, writers)
    for name, mod in sorted(prog.mods.items()):
        names = modnames(mod.tree)
        for node, qual, cls in functions(mod.tree):
            n += 1
            rep.guard(R_ALLOC, name + '.' + qual, lambda: one(rep, mod.rel, name, node, qual, cls, names, pkg, kept))
    for name, p in sorted(prog.native.items()):
        try:
            tree = pyx.parse(open(p, encoding='utf8').read(), p)
        except pyx.NotPython as e:
            rep.unk(R_ALLOC, name, 'Cython source not understood: ' + str(e)[:100])
            continue
        names = modnames(tree)
        for node, qual, cls in functions(tree):
            n += 1
            rep.guard(R_ALLOC, name + '.' + qual, lambda: one(rep, os.path.relpath(p, prog.root), name, node, qual, cls, names, pkg, kept))
    rep.stats['functions'] = n

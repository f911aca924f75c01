"""Numeric value of a closed array term under an assignment of small arrays to atoms (floats, NumPy broadcasting rules, at most three
dimensions).  Unknown is raised for an operator that is not known exactly.  Used to tell two normal forms apart on witnesses."""
import math
from .terms import *
from .evalv import Unknown


class N:
    """an array: shape and row-major data"""
    __slots__ = ('shape', 'data')

    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), list(data)
        if math.prod(self.shape) != len(self.data):
            raise Unknown('shape')

    def tolist(self):
        def go(sh, d):
            if not sh:
                return d[0]
            k = len(d) // sh[0] if sh[0] else 0
            return [go(sh[1:], d[i * k:(i + 1) * k]) for i in range(sh[0])]
        return go(self.shape, self.data)

    def __repr__(self):
        return repr(self.tolist())

    def rows(self):
        k = math.prod(self.shape[1:])
        return [self.data[i * k:(i + 1) * k] for i in range(self.shape[0])]


def arr(x):
    if isinstance(x, N):
        return x
    if isinstance(x, (list, tuple)):
        xs = [arr(v) for v in x]
        if not xs:
            return N((0,), [])
        return N((len(xs),) + xs[0].shape, [v for y in xs for v in y.data])
    return N((), [x])


def out(a):
    return a.data[0] if isinstance(a, N) and a.shape == () else a


def bcast(f, *xs):
    xs = [arr(x) for x in xs]
    nd = max(len(x.shape) for x in xs)
    shs = [(1,) * (nd - len(x.shape)) + x.shape for x in xs]
    sh = []
    for k in range(nd):
        ds = {s[k] for s in shs} - {1}
        if len(ds) > 1:
            raise Unknown('broadcast')
        sh.append(ds.pop() if ds else 1)
    res = []
    strides = []
    for s in shs:
        st, acc = [0] * nd, 1
        for k in reversed(range(nd)):
            st[k] = acc if s[k] != 1 else 0
            acc *= s[k]
        strides.append(st)

    def go(k, offs):
        if k == nd:
            res.append(f(*[x.data[o] for x, o in zip(xs, offs)]))
            return
        for i in range(sh[k]):
            go(k + 1, [o + i * st[k] for o, st in zip(offs, strides)])
    go(0, [0] * len(xs))
    return out(N(sh, res))


def transpose(a):
    a = arr(a)
    if len(a.shape) < 2:
        return a
    if len(a.shape) > 2:
        raise Unknown('transpose')
    n, m = a.shape
    return N((m, n), [a.data[i * m + j] for j in range(m) for i in range(n)])


def matmul(a, b):
    a, b = arr(a), arr(b)
    if len(a.shape) not in (1, 2) or len(b.shape) not in (1, 2) or a.shape[-1] != b.shape[0]:
        raise Unknown('matmul')
    A = a.rows() if len(a.shape) == 2 else [a.data]
    B = transpose(b).rows() if len(b.shape) == 2 else [b.data]
    r = [sum(x * y for x, y in zip(u, v)) for u in A for v in B]
    return out(N((a.shape[:-1] + b.shape[1:]), r))


def reduce(f, a, axis, keep=False):
    a = arr(a)
    if axis is None:
        return f(a.data)
    nd = len(a.shape)
    axis = int(axis) % nd
    pre, n, post = math.prod(a.shape[:axis]), a.shape[axis], math.prod(a.shape[axis + 1:])
    r = [f([a.data[(i * n + k) * post + j] for k in range(n)]) for i in range(pre) for j in range(post)]
    return out(N(a.shape[:axis] + ((1,) if keep else ()) + a.shape[axis + 1:], r))


def isbools(x):
    return isinstance(x, N) and x.data and all(isinstance(v, bool) for v in x.data)


def take(a, idx):
    """a[idx] for an integer, a list of integers, a boolean mask or a slice on the first axis"""
    a = arr(a)
    if not a.shape:
        raise Unknown('index')
    rows = a.rows()
    if isinstance(idx, slice):
        r = rows[idx]
        return N((len(r),) + a.shape[1:], [v for x in r for v in x])
    if isinstance(idx, N):
        if isbools(idx):
            if idx.shape == a.shape:
                r = [v for v, b in zip(a.data, idx.data) if b]
                return N((len(r),), r)
            if idx.shape != a.shape[:1]:
                raise Unknown('mask')
            r = [x for x, b in zip(rows, idx.data) if b]
        else:
            r = [rows[int(i)] for i in idx.data]
            if len(idx.shape) != 1:
                raise Unknown('index')
        return N((len(r),) + a.shape[1:], [v for x in r for v in x])
    if isinstance(idx, bool):
        raise Unknown('index')
    return out(N(a.shape[1:], rows[int(idx)]))


def xlogy(x, y):
    return 0.0 if x == 0 else x * math.log(y) if y > 0 else -math.inf if y == 0 and x > 0 else math.nan


def einsum(spec, xs):
    import itertools
    ins, _, res = spec.replace(' ', '').partition('->')
    ins = ins.split(',')
    if len(ins) != len(xs) or '.' in spec or not _ or any(len(i) != len(x.shape) for i, x in zip(ins, xs)):
        raise Unknown('einsum')
    size = {}
    for i, x in zip(ins, xs):
        for c, n in zip(i, x.shape):
            if size.setdefault(c, n) != n:
                raise Unknown('einsum shapes')
    rest = [c for c in size if c not in res]

    def cell(i, x, at):
        k = 0
        for c, n in zip(i, x.shape):
            k = k * n + at[c]
        return x.data[k]
    o = []
    for at in itertools.product(*[range(size[c]) for c in res]):
        d = dict(zip(res, at))
        o.append(sum(math.prod(cell(i, x, {**d, **dict(zip(rest, b))}) for i, x in zip(ins, xs)) for b in itertools.product(*[range(size[c]) for c in rest])))
    return out(N(tuple(size[c] for c in res), o))


def stack(xs):
    ys = [arr(x) for x in xs]
    return N((len(ys),) + tuple(ys[0].shape), [v for y in ys for v in y.data])


def masked(base, mask, val):
    d = list(base.data)
    if not isbools(mask) and mask.data or mask.shape != base.shape[:len(mask.shape)]:
        raise Unknown('masked store')
    k = math.prod(base.shape[len(mask.shape):])
    hits = [i for i, b in enumerate(mask.data) if b]
    v = arr(val)
    vals = v.data * (len(hits) * k) if len(v.data) == 1 else v.data
    if len(vals) != len(hits) * k:
        raise Unknown('masked store')
    for n, i in enumerate(hits):
        d[i * k:(i + 1) * k] = vals[n * k:(n + 1) * k]
    return N(base.shape, d)


def adjacent(flags):
    i = [k for k, v in enumerate(flags) if v]
    return not i or i[-1] - i[0] == len(i) - 1


def inverted(v):
    if not isinstance(v, bool):
        raise Unknown('~ of a number')
    return not v


def expit(v):
    return 1 / (1 + math.exp(-v)) if v > -700 else 0.


UNARY = {'expit': expit, 'scipy.special.expit': expit, 'np.abs': abs, 'abs': abs, 'np.sqrt': lambda v: math.sqrt(v) if v >= 0 else math.nan, 'np.exp': lambda v: math.exp(min(v, 700)), 'np.log': lambda v: math.log(v) if v > 0 else -math.inf if v == 0 else math.nan,
         'np.log1p': lambda v: math.log1p(v), 'np.expm1': lambda v: math.expm1(v), 'np.sign': lambda v: (v > 0) - (v < 0), 'np.square': lambda v: v * v, 'np.isnan': lambda v: v != v, 'np.isinf': lambda v: abs(v) == math.inf,
         'np.isfinite': lambda v: v - v == 0, 'np.logical_not': lambda v: not v, 'invert': inverted, 'np.log2': lambda v: math.log2(v) if v > 0 else -math.inf if v == 0 else math.nan}
BINARY = {'floordiv': lambda a, b: a // b, 'mod': lambda a, b: a % b, 'np.minimum': min, 'np.maximum': max, 'min': min, 'max': max, 'np.logical_and': lambda a, b: bool(a) and bool(b), 'np.logical_or': lambda a, b: bool(a) or bool(b), 'xlogy': xlogy, 'scipy.special.xlogy': xlogy,
          'pow': lambda a, b: a ** b, 'np.power': lambda a, b: a ** b}
REDUCE = {'np.sum': sum, 'sum': sum, 'np.mean': lambda v: sum(v) / len(v) if v else math.nan, 'np.min': min, 'np.max': max, 'np.linalg.norm': lambda v: math.sqrt(sum(x * x for x in v)), 'np.prod': math.prod, 'np.any': any, 'np.all': all, 'any': any, 'all': all}


def powi(x, e):
    if x == 0 and e < 0:
        return math.inf
    return x ** e


def evaln(t, env, apps=None, memo=None):
    memo = {} if memo is None else memo

    def E(x):
        if x in env:
            return env[x]
        if x not in memo:
            memo[x] = go(x)
        return memo[x]

    def diagonal(t):
        if t.op != 'app' or t.args[0] not in ('np.diag_indices_from', 'np.diag_indices') or len(t.args[1]) != 1:
            return None
        y = E(t.args[1][0])
        if t.args[0] == 'np.diag_indices':
            return int(y)
        if not isinstance(y, N) or len(y.shape) != 2 or y.shape[0] != y.shape[1]:
            raise Unknown('diagonal of ' + show(t)[:60])
        return y.shape[0]

    def go(t):
        op, a = t.op, t.args
        if op == 'const':
            v = a[0]
            return float(v) if isinstance(v, (int, Fraction)) and not isinstance(v, bool) else v
        if op == 'inf':
            return math.inf
        if op == 'nan':
            return math.nan
        if op == 'poly':
            r = 0.0
            for m, c in a[0]:
                p = float(c)
                for x, e in m:
                    p = bcast(lambda u, v: u * v, p, bcast(lambda u: powi(u, e), E(x)) if e != 1 else E(x))
                r = bcast(lambda u, v: u + v, r, p)
            return r
        if op in ('eq0', 'lt0', 'le0'):
            g = {'eq0': lambda v: abs(v) < 1e-12, 'lt0': lambda v: v < -1e-12, 'le0': lambda v: v < 1e-12}[op]
            return bcast(g, E(a[0]))
        if op == 'not':
            return bcast(lambda v: not v, E(a[0]))
        if op in ('and', 'or'):
            r = E(a[0])
            for x in a[1:]:
                if isinstance(r, bool) and r is (op == 'or'):
                    return r
                r = bcast((lambda u, v: bool(u) and bool(v)) if op == 'and' else (lambda u, v: bool(u) or bool(v)), r, E(x))
            return r
        if op == 'ite':
            c = E(a[0])
            if isinstance(c, N):
                return bcast(lambda c, x, y: x if c else y, c, E(a[1]), E(a[2]))
            return E(a[1] if c else a[2])
        if op == 'eq':
            u, v = E(a[0]), E(a[1])
            if u is None or v is None or isinstance(u, str) or isinstance(v, str):
                return u is v or type(u) is type(v) and u == v
            return bcast(lambda x, y: x == y, u, v)
        if op == 'attr' and a[1] in ('ndim', 'size'):
            y = E(a[0])
            return float(len(y.shape) if a[1] == 'ndim' else math.prod(y.shape)) if isinstance(y, N) else 0.
        if op == 'attr' and a[1] == 'shape':
            return arr([float(v) for v in arr(E(a[0])).shape])
        if op == 'len':
            x = arr(E(a[0]))
            if not x.shape:
                raise Unknown('len')
            return float(x.shape[0])
        if op in ('list', 'tuple'):
            return arr([E(x) for x in a])
        if op == 'sub':
            if a[1].op == 'slice':
                return take(E(a[0]), slice(*[None if x is NONE else int(E(x)) for x in a[1].args]))
            if a[1].op == 'tuple':
                ix = a[1].args
                full = lambda x: x.op == 'slice' and all(y is NONE for y in x.args)
                if len(ix) == 2 and (ix[0] is NONE or ix[1] is NONE):
                    v = arr(E(a[0]))
                    o = ix[0] if ix[1] is NONE else ix[1]
                    v = v if full(o) else arr(take(v, E(o)))
                    return N((1,) + v.shape if ix[0] is NONE else v.shape[:1] + (1,) + v.shape[1:], v.data)
                if len(ix) == 2 and ix[0].op != 'slice' and ix[1].op != 'slice':
                    u, v = E(ix[0]), E(ix[1])
                    if isinstance(u, N) or isinstance(v, N):
                        u, v = arr(u), arr(v)
                        if isbools(u) or isbools(v):
                            raise Unknown('index')
                        b = arr(E(a[0]))
                        return bcast(lambda i, j: take(take(b, i), j), u, v)
                    return take(take(E(a[0]), u), v)
                if len(ix) == 2 and full(ix[0]):
                    j = slice(*[None if x is NONE else int(E(x)) for x in ix[1].args]) if ix[1].op == 'slice' else E(ix[1])
                    y = arr(E(a[0]))
                    if len(y.shape) < 2:
                        raise Unknown('too many indices')
                    if not y.shape[0]:
                        return transpose(take(transpose(y), j))
                    return stack([take(N(y.shape[1:], r), j) for r in y.rows()])
                if len(ix) == 2 and full(ix[1]):
                    return take(E(a[0]), E(ix[0]))
                raise Unknown('index ' + show(a[1])[:60])
            if diagonal(a[1]) is not None:
                y = arr(E(a[0]))
                if y.shape != (diagonal(a[1]),) * 2:
                    raise Unknown('diagonal')
                return N(y.shape[:1], [y.data[i * y.shape[0] + i] for i in range(y.shape[0])])
            return take(E(a[0]), E(a[1]))
        if op == 'app':
            f, x, kw = a
            kw = dict(kw)
            if apps and f in apps:
                return apps[f](*[E(y) for y in x])
            if f == 'mstore' or f == 'np.full':
                pass
            if f in UNARY and len(x) == 1 and not kw:
                return bcast(UNARY[f], E(x[0]))
            if f in BINARY and len(x) == 2 and not kw:
                return bcast(BINARY[f], E(x[0]), E(x[1]))
            if f in REDUCE and len(x) == 1 and not set(kw) - {'axis', 'keepdims'}:
                ax = kw.get('axis', NONE)
                return reduce(REDUCE[f], E(x[0]), None if ax is NONE else E(ax), kw.get('keepdims') is TRUE)
            if f in ('np.cumsum',) and len(x) == 1 and not kw:
                s, r = 0.0, []
                for v in arr(E(x[0])).data:
                    s += v
                    r.append(s)
                return N((len(r),), r)
            if f == 'matmul' and len(x) == 2:
                return matmul(E(x[0]), E(x[1]))
            if f in ('np.min', 'np.max', 'min', 'max') and len(x) == 1 and set(kw) == {'initial'}:
                return (min if 'min' in f else max)(arr(E(x[0])).data + [E(kw['initial'])])
            if f in ('np.argmin', 'np.argmax', 'argmin', 'argmax') and len(x) == 1 and not set(kw) - {'axis'}:
                g = min if 'min' in f else max
                return reduce(lambda v: float(v.index(g(v))), E(x[0]), None if kw.get('axis', NONE) is NONE else E(kw['axis']))
            if f in ('np.eye', 'np.identity') and len(x) in (1, 2) and not kw:
                n = int(E(x[0]))
                m = int(E(x[1])) if len(x) == 2 else n
                return N((n, m), [1. if i == j else 0. for i in range(n) for j in range(m)])
            if f == 'np.diag' and len(x) == 1 and not kw:
                y = arr(E(x[0]))
                if len(y.shape) == 1:
                    n = y.shape[0]
                    return N((n, n), [y.data[i] if i == j else 0. for i in range(n) for j in range(n)])
                return N((min(y.shape),), [y.data[i * y.shape[1] + i] for i in range(min(y.shape))])
            if f in ('np.triu', 'np.tril') and len(x) in (1, 2) and set(kw) <= {'k'}:
                y, off = arr(E(x[0])), int(E(x[1])) if len(x) == 2 else int(E(kw['k'])) if 'k' in kw else 0
                if len(y.shape) != 2:
                    raise Unknown(f)
                return N(y.shape, [v if (j - i >= off if f == 'np.triu' else j - i <= off) else 0. for i, r in enumerate(y.rows()) for j, v in enumerate(r)])
            if f in ('np.trace', '.trace', 'trace') and len(x) == 1 and not [k for k in kw if k != '@']:
                y = arr(E(x[0]))
                return sum(y.data[i * y.shape[1] + i] for i in range(min(y.shape)))
            if f == 'np.linalg.norm' and len(x) in (1, 2) and set(kw) <= {'ord', 'axis', 'keepdims'} and ('ord' in kw or len(x) == 2):
                o = x[1] if len(x) == 2 else kw['ord']
                o = o.args[0] if o.op == 'const' else E(o)
                y, ax = arr(E(x[0])), kw.get('axis', NONE)
                inf = isinstance(o, float) and o == math.inf
                vec = {1: lambda v: sum(map(abs, v)), 2: lambda v: math.sqrt(sum(q * q for q in v)), None: lambda v: math.sqrt(sum(q * q for q in v))}.get(o) if not inf else lambda v: max(map(abs, v))
                if vec is None and o != 'fro':
                    raise Unknown('norm')
                if ax is not NONE and vec:
                    return reduce(vec, y, E(ax), kw.get('keepdims') is TRUE)
                if ax is NONE and 'keepdims' not in kw:
                    if len(y.shape) == 1 and vec:
                        return vec(y.data)
                    if len(y.shape) == 2:
                        if o in ('fro', None):
                            return math.sqrt(sum(q * q for q in y.data))
                        if o == 1:
                            return max(sum(abs(r[j]) for r in y.rows()) for j in range(y.shape[1]))
                        if inf:
                            return max(sum(map(abs, r)) for r in y.rows())
                raise Unknown('norm')
            if f == 'np.outer' and len(x) == 2:
                u, v = arr(E(x[0])).data, arr(E(x[1])).data
                return N((len(u), len(v)), [p * q for p in u for q in v])
            if f == 'np.where' and len(x) == 3:
                return bcast(lambda c, p, q: p if c else q, E(x[0]), E(x[1]), E(x[2]))
            if f == 'np.empty':
                sh = [int(v) for v in arr(E(x[0])).data]
                return N(sh, [math.nan] * math.prod(sh))
            if f == 'np.linalg.norm' and len(x) == 1 and not kw:
                return math.sqrt(sum(v * v for v in arr(E(x[0])).data))
            if f in ('.copy', '.flatten', '.ravel') and not [k for k in kw if k != '@']:
                y = arr(E(x[0]))
                return y if f == '.copy' else N((len(y.data),), y.data)
            if f in ('.dot', 'np.dot', 'dot') and len(x) == 2:
                return matmul(E(x[0]), E(x[1]))
            if f in ('np.c_', 'np.column_stack') and not kw:
                ys = [arr(E(y)) for y in (x[0].args if len(x) == 1 and x[0].op in ('tuple', 'list') else x)]
                ys = [N((len(y.data), 1), y.data) if len(y.shape) == 1 else y for y in ys]
                return transpose(N((sum(y.shape[1] for y in ys), ys[0].shape[0]), [v for y in ys for v in transpose(y).data]))
            if f == 'T':
                return transpose(E(x[0]))
            if f == 'reshape':
                sh = [int(v) for v in arr(E(x[1])).data]
                y = arr(E(x[0]))
                if -1 in sh:
                    rest = -math.prod(sh)
                    sh[sh.index(-1)] = len(y.data) // rest if rest else 0
                return N(sh, y.data)
            if f in ('copy', 'np.array', 'np.asarray', 'np.ravel', 'flatten', 'ravel') and len(x) == 1:
                y = E(x[0])
                return N((len(y.data),), y.data) if f in ('np.ravel', 'flatten', 'ravel') and isinstance(y, N) else y
            if f == 'astype' or f in ('float', 'int', 'bool') and x:
                kind = f if f != 'astype' else ' '.join([show(y) for y in x[1:]] + [show(y) for y in kw.values()])
                g = bool if 'bool' in kind else (lambda v: float(int(v))) if 'int' in kind else float
                return bcast(g, E(x[0]))
            if f == 'np.full' and len(x) == 2:
                sh = E(x[0])
                sh = [int(v) for v in arr(sh).data] if isinstance(sh, N) else [int(sh)]
                return N(sh, [E(x[1])] * math.prod(sh))
            if f in ('np.sort', 'np.argsort', '.argsort') and len(x) == 1 and not kw:
                y = arr(E(x[0]))
                if len(y.shape) != 1 or any(v != v for v in y.data):
                    raise Unknown('sort of a matrix')
                o = sorted(range(len(y.data)), key=lambda i: y.data[i])
                if f != 'np.sort' and len(set(y.data)) < len(y.data):
                    raise Unknown('order of ties')
                return N(y.shape, [y.data[i] for i in o] if f == 'np.sort' else [float(i) for i in o])
            if f == 'np.einsum' and x and x[0].op == 'const' and not kw:
                return einsum(x[0].args[0], [arr(E(y)) for y in x[1:]])
            if f == 'np.arange' and 1 <= len(x) <= 3 and not kw:
                y = [float(E(v)) for v in x]
                lo, hi, by = (0., y[0], 1.) if len(y) == 1 else (y[0], y[1], y[2] if len(y) > 2 else 1.)
                k = max(0, math.ceil((hi - lo) / by))
                return N((k,), [lo + i * by for i in range(k)])
            if f in ('nonzero', 'np.flatnonzero'):
                y = arr(E(x[0]))
                return N((sum(map(bool, y.data)),), [float(i) for i, v in enumerate(y.data) if v])
            if f in ('np.concat', 'np.concat1'):
                ys = [arr(E(y)) for y in (x[0].args if x[0].op == 'tuple' else x)]
                ax = int(E(kw['axis'])) if 'axis' in kw else 0
                if all(len(y.shape) <= 1 for y in ys):
                    d = [v for y in ys for v in y.data]
                    return N((len(d),), d)
                if ax in (1, -1):
                    return transpose(N((sum(y.shape[1] for y in ys), ys[0].shape[0]), [v for y in ys for v in transpose(y).data]))
                return N((sum(y.shape[0] for y in ys),) + ys[0].shape[1:], [v for y in ys for v in y.data])
            if f == 'np.stack' and len(x) == 1 and not set(kw) - {'axis'}:
                y = arr(E(x[0]))
                ax = int(E(kw['axis'])) if 'axis' in kw else 0
                ax = ax % len(y.shape)
                if len(y.shape) == 1 or ax == 0:
                    return y
                sh, n = y.shape[1:], y.shape[0]
                inner = math.prod(sh[ax:])
                m = math.prod(sh)
                return N(sh[:ax] + (n,) + sh[ax:], [y.data[k * m + o * inner + i] for o in range(math.prod(sh[:ax])) for k in range(n) for i in range(inner)])
        if op == 'cat':
            ys = [arr(E(y)) for y in a]
            ys = [y for y in ys if y.data] or ys[:1]
            return N((sum(y.shape[0] for y in ys),) + ys[0].shape[1:], [v for y in ys for v in y.data])
        if op in ('map', 'any', 'all', 'sum') and len(a) > 1 and a[0].op == 'lam' and (len(a) < 3 or a[2] in (None, NONE)):
            d = E(a[1])
            if not isinstance(d, (int, float)):
                raise Unknown('domain')
            vs = [evaln(a[0].args[1], {**env, mk('bv', a[0].args[0]): float(i)}, apps) for i in range(int(d))]
            if op == 'sum':
                return sum(vs) if not any(isinstance(v, N) for v in vs) else reduce(sum, arr(vs), 0)
            return arr(vs) if op == 'map' else (any if op == 'any' else all)(bool(v) for v in vs)
        if op == 'fold' and a[1].op == 'lam' and a[1].args[1].op == 'lam':
            v, d = E(a[0]), E(a[2])
            if not isinstance(d, (int, float)):
                raise Unknown('domain')
            for i in range(int(d)):
                v = evaln(a[1].args[1].args[1], {**env, mk('bv', a[1].args[0]): v, mk('bv', a[1].args[1].args[0]): float(i)}, apps)
            return v
        if op == 'isinstance':
            v, c = E(a[0]), show(a[1])
            if isinstance(v, float) and 'int' in c.lower() and 'float' not in c.lower():
                return v == int(v)
            raise Unknown('isinstance ' + c[:60])
        if op == 'store':
            base, key, val = arr(E(a[0])), a[1], a[2]
            if diagonal(key) is not None:
                n = diagonal(key)
                if base.shape != (n, n):
                    raise Unknown('diagonal')
                return masked(base, N((n, n), [i == j for i in range(n) for j in range(n)]), E(val))
            key = key.args if key.op == 'tuple' else (key,)
            if len(key) == 1 and key[0].op != 'slice' and isbools(E(key[0])):
                return masked(base, E(key[0]), E(val))
            d, pos, listed = list(base.data), [range(n) for n in base.shape], set()
            for k, x in enumerate(key):
                if k >= len(pos):
                    raise Unknown('store')
                if x.op == 'slice':
                    pos[k] = list(range(base.shape[k]))[slice(*[None if y is NONE else int(E(y)) for y in x.args])]
                else:
                    v = E(x)
                    if isinstance(v, N) and len(v.shape) == 1 and adjacent([y.op != 'slice' for y in key]) and not listed:
                        ii = [i for i, b in enumerate(v.data) if b] if isbools(v) else [int(i) for i in v.data]
                        if isbools(v) and v.shape[0] != base.shape[k] or any(not -base.shape[k] <= i < base.shape[k] for i in ii):
                            raise Unknown('index out of range')
                        pos[k] = [i % base.shape[k] for i in ii]
                        listed.add(k)
                        continue
                    if isbools(v) or isinstance(v, (bool, N)):
                        raise Unknown('store')
                    pos[k] = [int(v) % base.shape[k]] if -base.shape[k] <= v < base.shape[k] else ValueError
                    if pos[k] is ValueError:
                        raise Unknown('index out of range')
            sh = tuple(len(p) for k, p in enumerate(pos) if k >= len(key) or k in listed or key[k].op == 'slice')
            cells = [0]
            for k, p in enumerate(pos):
                cells = [c * base.shape[k] + i for c in cells for i in p]
            v = arr(bcast(lambda x, y: y, N(sh, [0.] * math.prod(sh)), E(val)))
            if v.shape != sh:
                raise Unknown('store')
            for c, x in zip(cells, v.data):
                d[c] = x
            return N(base.shape, d)
        if op == 'mstore':
            return masked(arr(E(a[0])), arr(E(a[1])), E(a[2]))
        raise Unknown(op + ' ' + show(t)[:150])
    try:
        return E(t)
    except (TypeError, ValueError, OverflowError, ZeroDivisionError, IndexError, AttributeError, KeyError) as e:
        raise Unknown('%s: %s' % (type(e).__name__, e))

"""Row-wise reading of array terms: at(t, k) is the k-th row/element of t under the facts of st.

Row-wise functions of opaque learners (predict, ...) applied to a batch are read as the function of that row."""
from .terms import *
from .facts import is_int
from .interp import Undecided
from .ext import ndim, ARRKINDS
from . import ext

ROWWISE = {'.predict', '.predict_proba', '.decision_function', '.is_inside', '.rank', '.transform', '.proj', '.partial_proba'}
ELEMWISE = {'np.abs', 'np.sqrt', 'np.exp', 'np.log', 'np.sign', 'expit', 'np.sin', 'np.cos', 'max', 'min', 'astype', 'np.isnan', 'np.isinf', 'np.logical_and', 'np.logical_or', 'np.logical_not',
            'xlogy', 'pow', 'mod', 'floordiv', 'bitand', 'bitor', 'invert', 'np.logaddexp', 'np.log2', 'cut:'}


def isarray(t):
    d = ndim(t)
    if d:
        return True
    if t.op == 'sym':
        return t.args[1] in ARRKINDS or t.args[1] in ('list', 'rowarr')
    if t.op in ('map', 'cat', 'list', 'fill', 'flatmap', 'swap'):
        return True
    if t.op in ('store', 'mstore', 'fold'):
        return isarray(t.args[0])
    if t.op == 'app':
        f = t.args[0]
        kw = dict(t.args[2])
        if f in ROWWISE or f in ('np.full', 'np.fromiter', 'np.empty', 'np.arange', 'range', 'np.concat', 'np.concat1', 'np.hstack', 'np.vstack', 'nonzero', 'np.atleast_2d', 'ravel', 'reshape', 'tolist', 'list', 'np.sort', 'sorted', 'matmul', 'T', 'shuffled'):
            return True
        if f.startswith('np.random.'):
            return True
        if f in ELEMWISE:
            return any(isarray(x) for x in t.args[1])
        if f in ('np.sum', 'np.max', 'np.min', 'np.mean', 'np.prod', 'np.any', 'np.all', 'np.linalg.norm', 'np.argmax', 'np.argmin'):
            return 'axis' in kw
        return False
    if t.op == 'poly':
        return any(isarray(a) for m, _ in t.args[0] for a, _ in m)
    if t.op in ('not', 'and', 'or', 'eq0', 'lt0', 'le0', 'eq'):
        return any(isarray(a) for a in t.args)
    if t.op == 'ite':
        return any(isarray(a) for a in t.args)
    if t.op == 'sub':
        i = t.args[1]
        if i.op == 'slice' or isbool(i) or i.op in ('map', 'list', 'cat') or isarray(i):
            return True
        if i.op == 'tuple':
            return any(x.op == 'slice' or isarray(x) for x in i.args)
        return False
    return False


def at(t, k, st, d=0):
    if d > 60:
        raise Undecided('deep row read')
    if not isarray(t):
        return t
    op = t.op
    r = lambda x: at(x, k, st, d + 1)
    if op == 'map':
        if t.args[2] is not None:
            if num(k) is None:
                raise Undecided('row of filtered list')
            raise Undecided('row of filtered list')
        return instantiate(t.args[0], k)
    if op in ('list',):
        n = num(k)
        if n is not None and 0 <= n < len(t.args):
            return t.args[int(n)]
        return mk('sub', t, k)
    if op in ('cat',) or (op == 'app' and t.args[0] == 'np.concat1') or (op == 'app' and t.args[0] in ('np.concat', 'np.vstack') and (dict(t.args[2]).get('axis', ZERO) is ZERO) and t.args[1][0].op in ('list', 'tuple')):
        parts = t.args if op == 'cat' else t.args[1][0].args
        off = k
        for i, p in enumerate(parts):
            n = length(p)
            if i == len(parts) - 1:
                return at(p, off, st, d + 1)
            c = lt(off, n)
            dec = st.facts.decide(c)
            if dec is True:
                return at(p, off, st, d + 1)
            if dec is None:
                s2 = st.fork()
                s2.facts.assume(c)
                rest = cat_rest(parts[i + 1:])
                s3 = st.fork()
                s3.facts.assume(not_(c))
                return ite(c, at(p, off, s2, d + 1), at(rest, sub_(off, n), s3, d + 1))
            off = sub_(off, n)
    if op == 'app':
        f, a = t.args[0], t.args[1]
        if f in ROWWISE:
            return mk('app', 'row' + f, a[:-1] + (r(a[-1]),), t.args[2])
        if f in ELEMWISE:
            return mk_elem(f, tuple(r(x) for x in a), t.args[2])
        if f == 'np.fromiter' and t.args[1]:
            return r(t.args[1][0])
        if f == 'np.full':
            return a[1]
        if f == 'np.empty':
            return app('uninit', a[1], k)
        if f in ('np.arange', 'range'):
            return k if len(a) == 1 else mk('sub', t, k)
        if f == 'np.concat' and dict(t.args[2]).get('axis') is ONE and a[0].op in ('list', 'tuple'):
            return app('rowcat', *[r(x) for x in a[0].args])
        if f in ('ravel', 'tolist', 'list', 'squeeze'):
            return r(a[0])
        if f == 'reshape':
            return r(a[0]) if a[1].op == 'tuple' and a[1].args == (C(-1), ONE) or ndim(a[0]) == 1 and a[1].op == 'tuple' and len(a[1].args) == 2 and a[1].args[1] is ONE else mk('sub', t, k)
        if f == 'np.atleast_2d':
            return app('row.atleast_2d', a[0], k)
        if f == 'matmul':
            return app('matmul', r(a[0]), a[1])
        if f == 'np.isin':
            return app('np.isin', r(a[0]), a[1])
        if f in ('np.sum', 'np.max', 'np.min', 'np.mean', 'np.prod', 'np.any', 'np.all', 'np.linalg.norm') and dict(t.args[2]).get('axis') is ONE and len(a) == 1:
            row = r(a[0])
            if row.op == 'list':
                v = reduce_terms(f, row.args)
                if v is not None:
                    return v
            return mk('app', f + '/row', (row,), tuple((x, y) for x, y in t.args[2] if x not in ('axis', 'keepdims')))
        if f in REDUCERS and dict(t.args[2]).get('axis') in (ZERO, C(-2)) and len(a) == 1:
            rows = rowsof(a[0], st, d + 1)
            if rows is not None:
                v = reduce_terms(f, [at(x, k, st, d + 1) for x in rows])
                if v is not None:
                    return v
        if f == 'T' and len(a) == 1:
            rows = rowsof(a[0], st, d + 1)
            if rows is not None:
                return mk('list', *[at(x, k, st, d + 1) for x in rows])
        if f in ('np.column_stack',) and a[0].op in ('list', 'tuple'):
            return mk('list', *[r(x) for x in a[0].args])
        if f in ('np.stack',) and a[0].op in ('list', 'tuple') and dict(t.args[2]).get('axis') in (ONE, C(-1)):
            return mk('list', *[r(x) for x in a[0].args])
        return mk('sub', t, k)
    if op == 'poly':
        if ndim(t) == 2:  # one-dimensional operands are broadcast along the rows
            return subst_elems(t, lambda x: x if ndim(x) == 1 else r(x))
        return subst_elems(t, r)
    if op in ('not',):
        return not_(r(t.args[0]))
    if op == 'and':
        return and_(*[r(x) for x in t.args])
    if op == 'or':
        return or_(*[r(x) for x in t.args])
    if op in ('eq0', 'lt0', 'le0'):
        x = r(t.args[0])
        return {'eq0': lambda: eq(x, ZERO), 'lt0': lambda: lt(x, ZERO), 'le0': lambda: le(x, ZERO)}[op]()
    if op == 'eq':
        return eq(r(t.args[0]), r(t.args[1]))
    if op == 'ite':
        c = r(t.args[0])
        dec = st.facts.decide(c)
        if dec is True:
            return r(t.args[1])
        if dec is False:
            return r(t.args[2])
        return ite(c, r(t.args[1]), r(t.args[2]))
    if op == 'swap':
        b, i, j = t.args
        di, dj = st.facts.decide(eq(k, i)), st.facts.decide(eq(k, j))
        if di is True:
            return at(b, j, st, d + 1)
        if dj is True:
            return at(b, i, st, d + 1)
        if di is False and dj is False:
            return at(b, k, st, d + 1)
        return ite(eq(k, i), at(b, j, st, d + 1), ite(eq(k, j), at(b, i, st, d + 1), at(b, k, st, d + 1)))
    if op == 'store':
        b, i, v = t.args
        if i.op == 'slice' and i.args[2] is NONE:
            n = length(b)
            lo = ZERO if i.args[0] is NONE else i.args[0]
            hi = n if i.args[1] is NONE else i.args[1]
            if num(lo) is not None and num(lo) < 0:
                lo = add(n, lo)
            if num(hi) is not None and num(hi) < 0:
                hi = add(n, hi)
            c = and_(le(lo, k), lt(k, hi))
            dec = st.facts.decide(c)
            inv = lambda s: at(v, sub_(k, lo), s, d + 1)
            if dec is True:
                return inv(st)
            if dec is False:
                return at(b, k, st, d + 1)
            return ite(c, inv(st), at(b, k, st, d + 1))
        if is_int(i) or num(i) is not None:
            dec = st.facts.decide(eq(i, k))
            if dec is True:
                return v
            if dec is False:
                return at(b, k, st, d + 1)
            return ite(eq(i, k), v, at(b, k, st, d + 1))
        return mk('sub', t, k)
    if op == 'mstore':
        b, m, v = t.args
        c = r(m)
        dec = st.facts.decide(c)
        if dec is False:
            return at(b, k, st, d + 1)
        val = scatter(v, m, k, st, d)
        if val is None:
            val = mk('sub', t, k)
        if dec is True:
            return val
        return ite(c, val, at(b, k, st, d + 1))
    if op == 'sub':
        b, i = t.args
        if i.op == 'slice' and i.args[2] is NONE:
            lo = ZERO if i.args[0] is NONE else i.args[0]
            if num(lo) is not None and num(lo) < 0:
                lo = add(length(b), lo)
            return at(b, add(lo, k), st, d + 1)
        if i.op in ('map', 'list', 'cat') or (isarray(i) and not isbool(i)):
            return at(b, at(i, k, st, d + 1), st, d + 1)
        if i.op == 'tuple' and i.args and i.args[0] is mk('slice', NONE, NONE, NONE):
            rest = i.args[1:]
            if rest == (NONE,):
                return at(b, k, st, d + 1)
            row = at(b, k, st, d + 1)
            return sub(row, rest[0] if len(rest) == 1 else tup(*rest))
        if i.op == 'tuple' and len(i.args) == 2 and i.args[0].op == 'slice' and i.args[0].args[2] is NONE:
            return sub(at(mk('sub', b, i.args[0]), k, st, d + 1), i.args[1])
        return mk('sub', t, k)
    if op == 'fill':
        init, il, vl, dom, cl = t.args
        kk = mk('bv', il.args[0])
        if il.args[1] is kk and vl.args[0] == il.args[0]:
            c = and_(le(ZERO, k), lt(k, dom))
            if cl is not None:
                c = and_(c, instantiate(cl, k))
            dec = st.facts.decide(c)
            if dec is True:
                return instantiate(vl, k)
            if dec is False:
                return at(init, k, st, d + 1)
            return ite(c, instantiate(vl, k), at(init, k, st, d + 1))
        return mk('sub', t, k)
    x = mk('sub', t, k)
    return ext.simp_sub(x, st)


REDUCERS = ('np.sum', 'np.max', 'np.min', 'np.mean', 'np.prod', 'np.any', 'np.all')


def reduce_terms(f, xs):
    """reduction of finitely many scalars"""
    xs = list(xs)
    if not xs:
        return None
    if f in ('np.sum', 'np.mean'):
        r = ZERO
        for x in xs:
            r = add(r, ite(x, ONE, ZERO) if isbool(x) else x)
        return r if f == 'np.sum' else div(r, C(len(xs)))
    if f == 'np.prod':
        r = ONE
        for x in xs:
            r = mul(r, ite(x, ONE, ZERO) if isbool(x) else x)
        return r
    if f in ('np.max', 'np.min'):
        flat = []
        for x in xs:
            flat += x.args[1] if x.op == 'app' and x.args[0] == f[3:] else [x]
        flat = sorted(set(flat), key=lambda t: t.id)
        return flat[0] if len(flat) == 1 else mk('app', f[3:], tuple(flat), ())
    if f in ('np.any', 'np.all') and all(isbool(x) for x in xs):
        return (or_ if f == 'np.any' else and_)(*xs)
    if f in ('np.any', 'np.all'):
        return (or_ if f == 'np.any' else and_)(*[x if isbool(x) else not_(eq(x, ZERO)) for x in xs])
    return None


def rowsof(t, st, d=0):
    """the rows of a matrix built from a fixed number of rows, or None"""
    if d > 40:
        return None
    if t.op in ('list', 'tuple') and t.args and all(isarray(x) for x in t.args):
        return list(t.args)
    if t.op == 'app' and t.args[0] in ('np.array', 'np.asarray', 'np.vstack', 'np.stack', 'np.row_stack', 'copy') and t.args[1] and dict(t.args[2]).get('axis', ZERO) is ZERO:
        return rowsof(t.args[1][0], st, d + 1)
    if t.op == 'store':
        b, i, v = t.args
        if i.op == 'tuple' and len(i.args) == 2 and i.args[1] is mk('slice', NONE, NONE, NONE):
            i = i.args[0]
        rows = rowsof(b, st, d + 1)
        if rows is not None and num(i) is not None and -len(rows) <= num(i) < len(rows):
            rows[int(num(i))] = v
            return rows
        return None
    if t.op == 'app' and t.args[0] in ('np.empty', 'np.full') and t.args[1] and t.args[1][0].op == 'tuple' and len(t.args[1][0].args) == 2:
        n, m = t.args[1][0].args
        if num(n) is not None and num(n) <= 16:
            return [mk('app', t.args[0], (m,) + tuple(app('row', x, C(i)) if t.args[0] == 'np.empty' else x for x in t.args[1][1:]), t.args[2]) for i in range(int(num(n)))]
        return None
    if t.op == 'app' and t.args[0] in ELEMWISE:
        return zipped(t.args[1], lambda xs: mk_elem(t.args[0], tuple(xs), t.args[2]), st, d)
    if t.op == 'poly':
        ats = sorted({a for m, _ in t.args[0] for a, _ in m}, key=lambda x: x.id)
        return zipped(ats, lambda xs: subst_elems(t, lambda a, m=dict(zip(ats, xs)): m[a]), st, d)
    if t.op in ('not', 'and', 'or', 'eq0', 'lt0', 'le0', 'eq', 'ite'):
        return zipped(t.args, lambda xs: build(t.op, tuple(xs)), st, d)
    return None


def zipped(parts, f, st, d):
    rs = [rowsof(x, st, d + 1) if isarray(x) else None for x in parts]
    ns = {len(r) for r in rs if r is not None}
    if len(ns) != 1 or any(r is None and isarray(x) for r, x in zip(rs, parts)):
        return None
    n = ns.pop()
    return [f([r[i] if r is not None else x for r, x in zip(rs, parts)]) for i in range(n)]


def mk_elem(f, xs, kw):
    from .ext import t_abs, sorted_app
    if f == 'np.abs':
        return t_abs(xs[0])
    if f in ('max', 'min'):
        return sorted_app(f, *xs)
    if f == 'np.logical_not' and isbool(xs[0]):
        return not_(xs[0])
    if f == 'np.logical_and' and all(isbool(x) for x in xs):
        return and_(*xs)
    if f == 'np.logical_or' and all(isbool(x) for x in xs):
        return or_(*xs)
    if f == 'pow':
        return power(*xs)
    return mk('app', f, xs, kw)


def cat_rest(parts):
    return parts[0] if len(parts) == 1 else mk('cat', *parts)


def subst_elems(t, r):
    p = {}
    for m, c in t.args[0]:
        pm = {(): c}
        for a, e in m:
            fa = r(a)
            if e > 0:
                for _ in range(e):
                    pm = pmul(pm, to_poly(fa))
            else:
                for _ in range(-e):
                    pm = to_poly(div(from_poly(pm), fa))
        p = padd(p, pm)
    return from_poly(p)


def scatter(v, m, k, st, d=0):
    """value written at row k by base[m] = v, where v was computed row-wise from rows selected by the same mask"""
    def go(x):
        if not isarray(x):
            return x
        if x.op == 'sub' and x.args[1] is m:
            return at(x.args[0], k, st, d + 1)
        if x.op == 'sub' and x.args[1].op == 'tuple' and x.args[1].args[0] is m:
            row = at(x.args[0], k, st, d + 1)
            return sub(row, x.args[1].args[1] if len(x.args[1].args) == 2 else tup(*x.args[1].args[1:]))
        if x.op == 'app' and x.args[0] in ROWWISE:
            y = go(x.args[1][-1])
            return None if y is None else mk('app', 'row' + x.args[0], x.args[1][:-1] + (y,), x.args[2])
        if x.op == 'app' and x.args[0] in ELEMWISE:
            ys = [go(y) for y in x.args[1]]
            return None if any(y is None for y in ys) else mk_elem(x.args[0], tuple(ys), x.args[2])
        if x.op == 'poly':
            bad = []

            def f(a):
                y = go(a)
                if y is None:
                    bad.append(a)
                    return a
                return y
            res = subst_elems(x, f)
            return None if bad else res
        if x.op == 'ite':
            ys = [go(y) for y in x.args]
            return None if any(y is None for y in ys) else ite(*ys)
        if x.op in ('not', 'and', 'or', 'eq0', 'lt0', 'le0'):
            ys = [go(y) for y in x.args]
            return None if any(y is None for y in ys) else build(x.op, tuple(ys))
        if x.op == 'app' and x.args[0] == 'np.full':
            return x.args[1][1]
        return None
    return go(v)

"""Value of a closed term under an assignment to atoms, with sets, lists and rows as values: sets are frozensets, lists and rows
tuples.  None (via Unknown) when an operator is not known exactly.  Used on a small finite universe to tell normal forms apart."""
from fractions import Fraction
from .terms import *


class Unknown(Exception):
    pass


class Env(dict):
    """an assignment that will not change any more: values are remembered"""

    def __init__(self, d):
        dict.__init__(self, d)
        self.memo = {}


def evalv(t, env):
    try:
        if type(env) is Env:
            return ev(t, env, env.memo)
        return ev(t, env, {})
    except (ZeroDivisionError, TypeError, IndexError, ValueError):
        raise Unknown


def ev(t, env, memo):
    if t in env:
        return env[t]
    if t in memo:
        return memo[t]
    r = _ev(t, env, memo)
    memo[t] = r
    return r


def bind(lamt, env, *vals):
    """value of a (nested) lambda applied to vals, outermost first"""
    e = dict(env)
    for v in vals:
        if lamt.op != 'lam':
            raise Unknown
        e[mk('bv', lamt.args[0])] = v
        lamt = lamt.args[1]
    return ev(lamt, e, {})


def lift(f, *xs):
    n = [len(x) for x in xs if isinstance(x, tuple)]
    if not n:
        return f(*xs)
    return tuple(lift(f, *[x[i] if isinstance(x, tuple) else x for x in xs]) for i in range(max(n)))


def truth(v):
    if isinstance(v, (tuple, frozenset, str)):
        return len(v) > 0
    return bool(v)


def index(v, i):
    if isinstance(i, tuple):
        if len(i) == len(v) and all(isinstance(x, bool) for x in i):
            return tuple(x for x, b in zip(v, i) if b)
        return tuple(index(v, j) for j in i)
    if isinstance(i, frozenset):
        raise Unknown
    if isinstance(i, Fraction):
        if i.denominator != 1:
            raise Unknown
        i = int(i)
    return v[i]


def domain(d, env, memo):
    if d.op == 'unordered':
        c = ev(d.args[0], env, memo)
        return sorted(c)
    n = ev(d, env, memo)
    if isinstance(n, bool) or n != int(n):
        raise Unknown
    return range(int(n))


def _ev(t, env, memo):
    op, E = t.op, lambda x: ev(x, env, memo)
    if op == 'const':
        return t.args[0]
    if op == 'poly':
        r = Fraction(0)
        for m, c in t.args[0]:
            p = Fraction(c)
            for a, e in m:
                p = lift(lambda x, y: x * Fraction(y) ** e, p, E(a))
            r = lift(lambda x, y: x + y, r, p)
        return r
    if op == 'not':
        v = E(t.args[0])
        return lift(lambda x: not x, v)
    if op in ('and', 'or'):
        vs = []
        for x in t.args:
            v = E(x)
            vs.append(v)
            if not isinstance(v, tuple) and not any(isinstance(w, tuple) for w in vs) and truth(v) is (op == 'or'):
                return op == 'or'
        return lift(lambda *xs: (all if op == 'and' else any)(truth(x) for x in xs), *vs)
    if op == 'eq0':
        return lift(lambda x: x == 0, E(t.args[0]))
    if op == 'lt0':
        return lift(lambda x: x < 0, E(t.args[0]))
    if op == 'le0':
        return lift(lambda x: x <= 0, E(t.args[0]))
    if op == 'eq':
        return E(t.args[0]) == E(t.args[1])
    if op == 'truthy':
        return truth(E(t.args[0]))
    if op == 'ite':
        c = E(t.args[0])
        if isinstance(c, tuple):
            return lift(lambda c, a, b: a if truth(c) else b, c, E(t.args[1]), E(t.args[2]))
        return E(t.args[1 if truth(c) else 2])
    if op in ('list', 'tuple'):
        out = ()
        for x in t.args:
            out += E(x.args[0]) if x.op == 'star' else (E(x),)
        return out
    if op == 'set':
        return frozenset(E(x) for x in t.args)
    if op == 'cat':
        out = ()
        for x in t.args:
            out += E(x)
        return out
    if op == 'attr' and t.args[1] == 'shape':
        v, out = E(t.args[0]), ()
        while isinstance(v, tuple):
            out += (Fraction(len(v)),)
            v = v[0] if v else None
        return out
    if op == 'len':
        return len(E(t.args[0]))
    if op == 'in' and t.args[1].op == 'truthy' and not t.args[1].args:
        return truth(E(t.args[0]))
    if op == 'in':
        return E(t.args[0]) in E(t.args[1])
    if op == 'sub':
        if t.args[1].op == 'slice':
            lo, hi, st = [E(x) for x in t.args[1].args]
            f = lambda x: None if x is None else int(x)
            return E(t.args[0])[f(lo):f(hi):f(st)]
        return index(E(t.args[0]), E(t.args[1]))
    if op == 'store':
        v, i = list(E(t.args[0])), E(t.args[1])
        v[int(i)] = E(t.args[2])
        return tuple(v)
    if op == 'map':
        f, d, c = t.args
        return tuple(bind(f, env, i) for i in domain(d, env, memo) if c is None or truth(bind(c, env, i)))
    if op == 'flatmap':
        f, d, c = t.args
        return tuple(x for i in domain(d, env, memo) if c is None or truth(bind(c, env, i)) for x in bind(f, env, i))
    if op == 'any':
        return any(truth(bind(t.args[0], env, i)) for i in domain(t.args[1], env, memo))
    if op == 'sum':
        f, d, c = t.args
        return sum((bind(f, env, i) for i in domain(d, env, memo) if c is None or truth(bind(c, env, i))), Fraction(0))
    if op == 'fold':
        v = E(t.args[0])
        for i in domain(t.args[2], env, memo):
            v = bind(t.args[1], env, v, i)
        return v
    if op == 'app':
        f, a, kw = t.args
        if f in ('union', 'inter', 'setdiff'):
            x, y = [frozenset(E(z)) for z in a]
            return x | y if f == 'union' else x & y if f == 'inter' else x - y
        if f in ('set', 'frozenset'):
            return frozenset(E(a[0])) if a else frozenset()
        if f in ('list', 'tuple') and a or f in ('np.array', 'np.asarray', 'copy', 'tolist') or f == 'np.fromiter':
            v = E(a[0])
            return tuple(sorted(v)) if isinstance(v, frozenset) else v
        if f == 'sorted' and kw and all(k == 'reverse' and x.op == 'const' for k, x in kw) and len(a) == 1:
            return tuple(sorted(E(a[0]), reverse=bool(kw[0][1].args[0])))
        if f == 'np.unique' and len(a) == 1 and [k for k in kw if k[0] != '@'] == [('axis', ZERO)]:
            return tuple(sorted(set(E(a[0]))))
        if f in ('sorted', 'np.sort', 'np.unique') and len(a) == 1 and not [k for k in kw if k[0] != '@']:
            v = E(a[0])
            return tuple(sorted(set(v) if f == 'np.unique' else v))
        if f in ('np.any/row', 'np.any', 'any', 'np.all/row', 'np.all', 'all', 'np.sum/row', 'np.sum', 'sum') and len(a) == 1 and not kw:
            v = E(a[0])
            if not all(isinstance(x, (bool, int, Fraction)) for x in v):
                raise Unknown
            g = f.replace('np.', '').replace('/row', '')
            return any(v) if g == 'any' else all(v) if g == 'all' else sum(v, Fraction(0))
        if f in ('min', 'max', 'np.minimum', 'np.maximum') and len(a) > 1:
            g = min if 'min' in f else max
            return lift(lambda *xs: g(xs), *[E(x) for x in a])
        if f in ('np.min', 'np.max', 'min', 'max') and len(a) == 1 and not kw:
            return (min if 'min' in f else max)(E(a[0]))
        if f in ('np.argmin', 'np.argmax', 'argmin', 'argmax') and len(a) == 1 and not kw:
            v = E(a[0])
            return v.index((min if f.endswith('min') else max)(v))
        if f in ('np.argsort', 'argsort') and len(a) == 1 and not [k for k in kw if k[0] not in ('kind', '@')]:
            v = E(a[0])
            return tuple(sorted(range(len(v)), key=lambda i: v[i]))
        if f in ('np.abs', 'abs'):
            return lift(abs, E(a[0]))
        if f in ('len',):
            return len(E(a[0]))
        if f in ('astype', 'float', 'int', 'bool') and a:
            v = E(a[0])
            kind = f if f != 'astype' else ' '.join([show(x) for x in a[1:]] + [show(y) for x, y in kw])
            g = (lambda x: x != 0) if 'bool' in kind else (lambda x: Fraction(int(x))) if 'int' in kind else (lambda x: Fraction(x))
            return lift(g, v)
        if f in ('mod', 'floordiv'):
            g = (lambda x, y: x - y * (Fraction(x) // y)) if f == 'mod' else (lambda x, y: Fraction(Fraction(x) // y))
            return lift(g, E(a[0]), E(a[1]))
        if f in ('np.logical_and', 'np.logical_or', 'bitand', 'bitor'):
            g = (lambda x, y: bool(x) and bool(y)) if 'and' in f else (lambda x, y: bool(x) or bool(y))
            return lift(g, E(a[0]), E(a[1]))
        if f in ('np.logical_not', 'invert'):
            return lift(lambda x: not x, E(a[0]))
        if f in ('subset', 'ravel', 'np.ravel', 'flatten') or f.startswith('.'):
            v = E(a[0])
            if f in ('ravel', 'np.ravel', 'flatten') and v is None:
                return (None,)
            if f in ('ravel', 'np.ravel', 'flatten') and isinstance(v, tuple) and not any(isinstance(x, tuple) for x in v):
                return v
            if f == 'subset':
                return frozenset(v) <= frozenset(E(a[1]))
            if isinstance(v, str) and f[1:] in ('split', 'strip', 'lower', 'upper', 'isdigit', 'isdecimal', 'isnumeric', 'isspace', 'isalpha', 'isalnum', 'replace', 'count', 'startswith', 'endswith', 'lstrip', 'rstrip', 'find', 'join') and all(k[0] == '@' for k in kw):
                r = getattr(v, f[1:])(*[E(x) for x in a[1:]])
                return tuple(r) if isinstance(r, list) else Fraction(r) if isinstance(r, int) and not isinstance(r, bool) else r
            raise Unknown(show(t)[:200])
        if f in ('issubset', 'issuperset', 'isdisjoint'):
            x, y = [frozenset(E(z)) for z in a]
            return x <= y if f == 'issubset' else x >= y if f == 'issuperset' else not x & y
        if f in ('nonzero', 'np.flatnonzero'):
            v = E(a[0])
            if any(isinstance(x, tuple) for x in v):
                raise Unknown(show(t)[:200])
            return tuple(i for i, x in enumerate(v) if x)
        if f in ('cmp_lt0', 'cmp_le0', 'cmp_gt0', 'cmp_ge0') and len(a) == 2:
            x, y = E(a[0]), E(a[1])
            if isinstance(x, (frozenset, str)) and type(x) is type(y):
                return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[f[4:6]]
            raise Unknown(show(t)[:200])
        if f in ('range', 'np.arange') and not [k for k in kw if k[0] != 'dtype']:
            return tuple(range(*[int(E(x)) for x in a]))
    raise Unknown(show(t)[:200])

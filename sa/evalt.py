"""Value of a closed term under an assignment of rationals/booleans to atoms; None when some operator is not known exactly.

Used to tell two different normal forms apart: an alarm needs an assignment on which they really differ."""
from .terms import *
from fractions import Fraction


def evalt(t, env):
    try:
        return _ev(t, env)
    except (_Unknown, ZeroDivisionError):
        return None


class _Unknown(Exception):
    pass


def _ev(t, env):
    if t in env:
        return env[t]
    op = t.op
    if op == 'const':
        v = t.args[0]
        if isinstance(v, (bool, int, Fraction)):
            return v
        raise _Unknown
    if op == 'poly':
        r = Fraction(0)
        for m, c in t.args[0]:
            p = Fraction(c)
            for a, e in m:
                p *= Fraction(_ev(a, env)) ** e
            r += p
        return r
    if op == 'not':
        return not _ev(t.args[0], env)
    if op == 'and':
        return all(_ev(x, env) for x in t.args)
    if op == 'or':
        return any(_ev(x, env) for x in t.args)
    if op == 'eq0':
        return _ev(t.args[0], env) == 0
    if op == 'lt0':
        return _ev(t.args[0], env) < 0
    if op == 'le0':
        return _ev(t.args[0], env) <= 0
    if op == 'eq':
        return _ev(t.args[0], env) == _ev(t.args[1], env)
    if op == 'ite':
        return _ev(t.args[1 if _ev(t.args[0], env) else 2], env)
    if op == 'app':
        f, a = t.args[0], t.args[1]
        if f in ('min', 'np.minimum'):
            return min(_ev(x, env) for x in a)
        if f in ('max', 'np.maximum'):
            return max(_ev(x, env) for x in a)
        if f == 'np.abs':
            return abs(_ev(a[0], env))
        if f in ('astype', 'float', 'copy') and a:
            v = _ev(a[0], env)
            kind = [show(x) for x in a[1:]] + [show(y) for x, y in t.args[2]]
            if any('int' in x for x in kind):
                return int(v)
            if any('bool' in x for x in kind):
                return bool(v)
            return Fraction(v)
        if f in ('mod', 'floordiv'):
            x, y = Fraction(_ev(a[0], env)), Fraction(_ev(a[1], env))
            return x - y * (x // y) if f == 'mod' else Fraction(x // y)
        if f == 'np.sign':
            v = _ev(a[0], env)
            return (v > 0) - (v < 0)
        if f == 'np.logical_and':
            return all(_ev(x, env) for x in a)
        if f == 'np.logical_or':
            return any(_ev(x, env) for x in a)
        if f == 'np.logical_not':
            return not _ev(a[0], env)
        if f == 'np.sqrt':
            v = Fraction(_ev(a[0], env))
            if v >= 0:
                n, m = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n * n == v.numerator and m * m == v.denominator:
                    return Fraction(n, m)
        if f == 'pow' and num(a[1]) is not None and num(a[1]).denominator == 1:
            return Fraction(_ev(a[0], env)) ** int(num(a[1]))
    raise _Unknown


def differ(a, b, atoms, values, keep=lambda e: True, limit=5000):
    """an assignment on which a and b have different known values; 'same' when they agree everywhere tried; None when not evaluable"""
    import itertools
    atoms = list(atoms)
    n, known = 0, 0
    for vs in itertools.product(values, repeat=len(atoms)):
        env = dict(zip(atoms, [Fraction(v) for v in vs]))
        if not keep(env):
            continue
        n += 1
        if n > limit:
            break
        x, y = evalt(a, env), evalt(b, env)
        if x is None or y is None:
            continue
        known += 1
        if x != y:
            return {show(k): str(v) for k, v in env.items()}, x, y
    return 'same' if known else None

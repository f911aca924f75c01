"""Normal forms of expressions built from +, *, /, exp and log: rational functions over symbols, exponentials of symbols and logarithms of primitive polynomials.

A value is num / prod(P ** k): num is a polynomial {monomial: coefficient}, a monomial a sorted tuple of (atom, exponent), the P are primitive polynomials with several terms.
Atoms: ('s', name), ('E', name) = exp(name), ('log', P) with P a polynomial or a positive rational."""
import math
from fractions import Fraction as Fr


class Undec(Exception):
    pass


LIMIT = 4000


def pmul(a, b):
    if len(a) * len(b) > LIMIT * 4:
        raise Undec('large expression')
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = out.get(k, 0) + c * d
            if v:
                out[k] = v
            else:
                out.pop(k, None)
    return out


def padd(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + s * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=okey))


_ids = {}


def okey(x):
    a = x[0]
    if a not in _ids:
        _ids[a] = (a[0], repr(a[1]) if a[0] != 'log' else len(_ids))
    return _ids[a][0], str(_ids[a][1])


def minv(m):
    return tuple((a, -e) for a, e in m)


def freeze(p):
    return frozenset(p.items())


def primitive(p, signed):
    """(coefficient, monomial, primitive polynomial): exponents of every atom start at 0 and the leading coefficient is 1 (or +-1)"""
    low = {}
    first = True
    for m in p:
        d = dict(m)
        if first:
            low = dict(d)
            first = False
        else:
            for a in set(low) | set(d):
                low[a] = min(low.get(a, 0), d.get(a, 0))
    mono = tuple(sorted(((a, e) for a, e in low.items() if e), key=okey))
    inv = minv(mono)
    q = {mmul(m, inv): c for m, c in p.items()}
    lead = q[max(q, key=lambda m: (sum(e for a, e in m), [okey(x) + (x[1],) for x in m]))]
    k = abs(lead) if signed else lead
    return Fr(k), mono, {m: c / Fr(k) for m, c in q.items()}


def divide(n, p):
    """exact quotient of polynomials, or None"""
    key = lambda m: (sum(e for a, e in m), [okey(x) + (x[1],) for x in m])
    atoms = sorted({a for q in (n, p) for m in q for a, e in m}, key=lambda a: okey((a, 1)))
    vec = lambda m: tuple(dict(m).get(a, 0) for a in atoms)
    gr = lambda m: (sum(vec(m)), vec(m))
    lp = max(p, key=gr)
    r, out = dict(n), {}
    steps = 0
    while r:
        steps += 1
        if steps > 400:
            return None
        lr = max(r, key=gr)
        q = mmul(lr, minv(lp))
        if any(e < 0 for a, e in q):
            return None
        c = r[lr] / p[lp]
        out = padd(out, {q: c})
        r = padd(r, pmul({q: c}, p), -1)
    return out


class R:
    __slots__ = ('num', 'den')

    def __init__(self, num, den=()):
        num, den = dict(num), dict(den)
        if not num:
            den = {}
        for P in list(den):
            while P in den and len(num) > 1:
                k, mono, q = primitive(num, False)
                d = divide(q, dict(P))
                if d is None:
                    break
                num = pmul({mono: k}, d)
                den[P] -= 1
                if not den[P]:
                    del den[P]
        if len(num) > LIMIT:
            raise Undec('large expression')
        self.num, self.den = num, den

    def __eq__(self, o):
        return isinstance(o, R) and self.num == o.num and self.den == o.den

    def __hash__(self):
        return hash((freeze(self.num), frozenset(self.den.items())))

    def over(self, den):
        n = self.num
        for P, k in den.items():
            for _ in range(k - self.den.get(P, 0)):
                n = pmul(n, dict(P))
        return n

    def addsub(self, o, s):
        den = dict(self.den)
        for P, k in o.den.items():
            den[P] = max(den.get(P, 0), k)
        return R(padd(self.over(den), o.over(den), s), den)

    def __add__(self, o):
        return self.addsub(o, 1)

    def __sub__(self, o):
        return self.addsub(o, -1)

    def __mul__(self, o):
        den = dict(self.den)
        for P, k in o.den.items():
            den[P] = den.get(P, 0) + k
        return R(pmul(self.num, o.num), den)

    def inv(self):
        if not self.num:
            raise Undec('division by zero')
        num = {(): Fr(1)}
        for P, k in self.den.items():
            for _ in range(k):
                num = pmul(num, dict(P))
        k, mono, q = primitive(self.num, False)
        return R(pmul(num, {minv(mono): 1 / k}), {} if len(q) == 1 else {freeze(q): 1})

    def __truediv__(self, o):
        return self * o.inv()

    def number(self):
        if not self.num:
            return Fr(0)
        if self.den or len(self.num) != 1 or () not in self.num:
            return None
        return self.num[()]

    def exp(self):
        if self.den:
            raise Undec('exp of a quotient')
        out = R({(): Fr(1)})
        for m, c in self.num.items():
            if len(m) != 1 or m[0][1] != 1 or Fr(c).denominator != 1 or abs(c) > 6:
                raise Undec('exp of ' + repr(m)[:40])
            a, c = m[0][0], int(c)
            if a[0] == 's':
                f = R({((('E', a[1]), 1),): Fr(1)})
            elif a[0] == 'log':
                f = R(dict(a[1])) if isinstance(a[1], frozenset) else R({(): a[1]})
            else:
                raise Undec('exp of ' + a[0])
            for _ in range(abs(c)):
                out = out * (f if c > 0 else f.inv())
        return out

    def log(self):
        if not self.num:
            raise Undec('log of 0')
        k, mono, q = primitive(self.num, True)
        out = {}
        if len(q) == 1:
            k *= list(q.values())[0]
        else:
            out = padd(out, {((('log', freeze(q)), 1),): Fr(1)})
        if k < 0:
            raise Undec('log of a negative number')
        if k != 1:
            out = padd(out, {((('log', k), 1),): Fr(1)})
        for a, e in mono:
            t = ('s', a[1]) if a[0] == 'E' else ('log', frozenset({(((a, 1),), Fr(1))}))
            out = padd(out, {((t, 1),): Fr(e)})
        for P, e in self.den.items():
            out = padd(out, {((('log', P), 1),): Fr(-e)})
        return R(out)

    def names(self):
        out = set()
        for m in list(self.num) + [m for P in self.den for m, c in P]:
            for a, e in m:
                out |= anames(a)
        return out


def anames(a):
    if a[0] in 'sE':
        return {a[1]}
    if isinstance(a[1], frozenset):
        return {x for m, c in a[1] for b, e in m for x in anames(b)}
    return set()


def const(c):
    c = Fr(c)
    return R({(): c} if c else {})


def sym(n):
    return R({((('s', n), 1),): Fr(1)})


def aval(a, env):
    if a[0] == 's':
        return env[a[1]]
    if a[0] == 'E':
        return math.exp(env[a[1]])
    return math.log(pval(dict(a[1]), env) if isinstance(a[1], frozenset) else a[1])


def pval(p, env):
    t = 0.0
    for m, c in p.items():
        v = float(c)
        for a, e in m:
            v *= aval(a, env) ** e
        t += v
    return t


def evalf(r, env):
    """the value at a point"""
    d = 1.0
    for P, k in r.den.items():
        d *= pval(dict(P), env) ** k
    return pval(r.num, env) / d

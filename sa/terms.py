"""Hash-consed value-number terms with a normalising constructor for each operator.

Two expressions get the same value number iff their normal forms coincide.  Arithmetic is normalised as polynomials
over atoms (floating-point re-association is deliberately identified), comparisons against zero with a canonical sign,
booleans in flattened and/or with negations pushed to atoms."""
from fractions import Fraction
import math

_table = {}


class T:
    __slots__ = ('op', 'args', 'id', '_h')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def mk(op, *args):
    key = (op,) + tuple((type(a).__name__, a) if not isinstance(a, (T, tuple)) else a for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.id = op, args, len(_table)
        t._h = hash(key)
        _table[key] = t
    return t


def C(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return mk('const', v)
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return mk('const', int(v))
        return mk('const', v)
    if isinstance(v, float):
        if math.isinf(v):
            return mk('inf') if v > 0 else neg(mk('inf'))
        if math.isnan(v):
            return mk('nan')
        return C(Fraction(repr(v)))
    if isinstance(v, int):
        return mk('const', v)
    if isinstance(v, (tuple,)):
        return mk('tuple', *[C(x) for x in v])
    if v is Ellipsis:
        return mk('ellipsis')
    return mk('pyconst', repr(v))


NONE, TRUE, FALSE, ZERO, ONE = C(None), C(True), C(False), C(0), C(1)


def sym(name, kind=None):
    return mk('sym', name, kind)


_fresh = [0]


def fresh(prefix, kind=None):
    _fresh[0] += 1
    return mk('sym', '%s#%d' % (prefix, _fresh[0]), kind)


def is_const(t):
    return t.op == 'const'


def num(t):
    """numeric constant value or None"""
    if t.op == 'const' and isinstance(t.args[0], (int, Fraction)) and not isinstance(t.args[0], bool):
        return Fraction(t.args[0])
    return None


NONNUM = ('list', 'tuple', 'dict', 'set', 'pyobj', 'cat', 'map', 'strcat')


def nonnumeric(t):
    return (t.op == 'const' and (isinstance(t.args[0], (str, bytes)) or t.args[0] is None)) or t.op in NONNUM


# ------------------------------------------------------------------ polynomials
def to_poly(t):
    if t.op == 'const':
        v = t.args[0]
        if isinstance(v, bool):
            return {(): Fraction(int(v))} if v else {}
        if isinstance(v, (int, Fraction)):
            return {(): Fraction(v)} if v else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def _monokey(m):
    return (len(m), tuple((a.id, e) for a, e in m))


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(p.items(), key=lambda mc: _monokey(mc[0]))))


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c * k
    return r


def mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return r


def add(a, b):
    return from_poly(padd(to_poly(a), to_poly(b)))


def sub_(a, b):
    return from_poly(padd(to_poly(a), to_poly(b), -1))


def mul(a, b):
    return from_poly(pmul(to_poly(a), to_poly(b)))


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def div(a, b):
    pb = to_poly(b)
    pb = {m: c for m, c in pb.items() if c}
    if not pb:
        return mk('app', 'div0', (a,), ())
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = {tuple((x, -e) for x, e in m): 1 / c}
        return from_poly(pmul(to_poly(a), inv))
    lead = sorted(pb.items(), key=lambda mc: _monokey(mc[0]))[-1][1]
    atom = from_poly({m: c / lead for m, c in pb.items()})
    return from_poly(pmul(to_poly(a), {((atom, -1),): 1 / lead}))


def power(a, b):
    n = num(b)
    if n is not None:
        if n.denominator == 1 and 0 <= n <= 6:
            r = {(): Fraction(1)}
            for _ in range(int(n)):
                r = pmul(r, to_poly(a))
            return from_poly(r)
        if n.denominator == 1 and n < 0:
            return div(ONE, power(a, C(-n)))
        if n == Fraction(1, 2):
            return app('np.sqrt', a)
    return mk('app', 'pow', (a, b), ())


# ------------------------------------------------------------------ booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    if a.op == 'ite' and isbool(a.args[1]) and isbool(a.args[2]):
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk('not', a)


def and_(*xs):
    out = []
    for x in xs:
        if x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    s = []
    for x in out:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x not in s:
            s.append(x)
    for x in s:
        if not_(x) in s if x.op != 'or' else False:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk('and', *sorted(s, key=lambda t: t.id))


def or_(*xs):
    out = []
    for x in xs:
        if x.op == 'or':
            out.extend(x.args)
        else:
            out.append(x)
    s = []
    for x in out:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x not in s:
            s.append(x)
    for x in s:
        if x.op != 'and' and not_(x) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk('or', *sorted(s, key=lambda t: t.id))


BOOLOPS = ('not', 'and', 'or', 'eq', 'eq0', 'lt0', 'le0', 'in', 'isinstance', 'callable', 'any', 'all', 'hasattr')


def isbool(t):
    if t.op in BOOLOPS or (t.op == 'const' and isinstance(t.args[0], bool)):
        return True
    if t.op == 'ite':
        return isbool(t.args[1]) and isbool(t.args[2])
    if t.op == 'sym':
        return t.args[1] == 'bool'
    if t.op == 'app':
        return t.args[0] in ('np.isnan', 'np.isinf', 'np.isfinite', 'np.any', 'np.all', 'np.isin', 'str.isdigit', 'np.full_bool', 'np.allclose', 'np.logical_xor')
    if t.op in ('store',):
        return isbool(t.args[0])
    if t.op == 'sub':
        return isbool(t.args[0])
    return False


def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if y is TRUE and isbool(x):
            return x
        if y is FALSE and isbool(x):
            return not_(x)
    ca, cb = a.op == 'const', b.op == 'const'
    if ca and cb:
        return C(a.args[0] == b.args[0])
    if a.op == 'nan' or b.op == 'nan':
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'inf' and (y.op in ('const', 'len', 'ref', 'list', 'tuple', 'dict', 'set') or y.op == 'sym' and y.args[1] in ('int', 'nat', 'str')):
            return FALSE
    if nonnumeric(a) or nonnumeric(b):
        for x, y in ((a, b), (b, a)):
            if y is NONE and (x.op == 'sym' and x.args[1] in ('nat', 'int', 'float') or x.op in ('poly', 'list', 'tuple', 'dict', 'set', 'pyobj', 'cat', 'map', 'ref', 'inf', 'len', 'store', 'lam', 'strcat') or
                              (x.op == 'sym' and x.args[1] in ('int', 'arr', 'bool', 'str', 'float', 'list', 'obj')) or x.op == 'const' or isbool(x)):
                return FALSE
        if a.op == b.op and a.op in ('list', 'tuple') and len(a.args) == len(b.args):
            return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
        if a.op == 'pyobj' and b.op == 'pyobj':
            return FALSE
        for x, y in ((a, b), (b, a)):
            if y.op in ('list', 'tuple') and not y.args:
                return eq(length(x), ZERO)
            if y.op == 'const' and isinstance(y.args[0], str) and x.op == 'sym' and x.args[1] in ('int', 'arr', 'bool', 'float', 'list', 'obj'):
                return FALSE
        if a.id > b.id:
            a, b = b, a
        return mk('eq', a, b)
    if a.op == 'ref' and b.op == 'ref':
        return FALSE
    if a.op == 'ite' and b.op == 'const':
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and a.op == 'const':
        return eq(b, a)
    p = {m: c for m, c in padd(to_poly(a), to_poly(b), -1).items() if c}
    return _cmp0('eq0', p)


def _cmp0(op, p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return TRUE if op != 'lt0' else FALSE
    if set(p) == {()}:
        v = p[()]
        return C({'eq0': v == 0, 'lt0': v < 0, 'le0': v <= 0}[op])
    lead = sorted(((m, c) for m, c in p.items() if m), key=lambda mc: _monokey(mc[0]))[-1][1]
    q = from_poly({m: c / abs(lead) for m, c in p.items()})
    if op == 'eq0':
        if lead < 0:
            q = neg(q)
        return mk('eq0', q)
    # nonneg atoms (len, abs...) against constants
    if lead < 0:
        q = neg(q)
        return not_(mk('le0' if op == 'lt0' else 'lt0', q))
    return mk(op, q)


def lt(a, b):
    return _order('lt0', a, b)


def le(a, b):
    return _order('le0', a, b)


def _order(op, a, b):
    if a.op == 'nan' or b.op == 'nan':
        return FALSE
    if b.op == 'inf' and (num(a) is not None or a.op == 'len' or a.op == 'sym' and a.args[1] in ('int', 'nat')):
        return TRUE
    if a.op == 'inf':
        return FALSE if op == 'lt0' else eq(a, b)
    if a.op == 'ite' and num(b) is not None:
        return ite(a.args[0], _order(op, a.args[1], b), _order(op, a.args[2], b))
    if b.op == 'ite' and num(a) is not None:
        return ite(b.args[0], _order(op, a, b.args[1]), _order(op, a, b.args[2]))
    if a.op == b.op == 'set' and all(x.op == 'const' for x in a.args + b.args):
        p, q = set(a.args), set(b.args)
        return TRUE if p < q or op != 'lt0' and p == q else FALSE
    if nonnumeric(a) or nonnumeric(b):
        return mk('app', 'cmp_' + op, (a, b), ())
    return _cmp0(op, padd(to_poly(a), to_poly(b), -1))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if isbool(a) and isbool(b):
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    if c.op == 'or' and all(x.op == 'not' or x.op == 'and' for x in c.args):
        return ite(not_(c), b, a)
    return mk('ite', c, a, b)


# ------------------------------------------------------------------ containers
def lst(*xs):
    return mk('list', *xs)


def tup(*xs):
    return mk('tuple', *xs)


def cat(a, b):
    """list concatenation"""
    parts = []
    for x in (a, b):
        if x.op == 'cat':
            parts.extend(x.args)
        else:
            parts.append(x)
    out = []
    for x in parts:
        if x.op in ('list', 'tuple') and not x.args:
            continue
        if out and out[-1].op == 'list' and x.op == 'list':
            out[-1] = lst(*(out[-1].args + x.args))
        else:
            out.append(x)
    if not out:
        return lst()
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


SAMELEN1 = {'np.sort', 'np.abs', 'np.sqrt', 'np.exp', 'np.log', 'list', 'tolist', 'copy', 'sorted', 'np.cumsum', 'reversed', 'np.where_', 'rows', 'astype', 'elemdiv0', 'np.square'}


def length(x):
    if x.op in ('list', 'tuple'):
        if not any(a.op == 'star' for a in x.args):
            return C(len(x.args))
    if x.op == 'set' and len(x.args) <= 1:
        return C(len(x.args))
    if x.op == 'const' and isinstance(x.args[0], str):
        return C(len(x.args[0]))
    if x.op == 'cat':
        r = ZERO
        for a in x.args:
            r = add(r, length(a))
        return r
    if x.op == 'map' and x.args[2] is None:
        return x.args[1]
    if x.op == 'dict':
        return C(len(x.args[0]))
    if x.op == 'app':
        f, a = x.args[0], x.args[1]
        if f in SAMELEN1 and a:
            return length(a[0])
        if f in ('np.full', 'np.empty') and a:
            if a[0].op == 'tuple' and a[0].args:
                return a[0].args[0]
            if a[0].op in ("const", "poly", "len", "sym", "var"):
                return a[0]
            if a[0].op == 'attr' and a[0].args[1] == 'shape':
                return length(a[0].args[0])
        if f == 'np.arange' and len(a) == 1:
            return a[0]
        if (f == 'np.concat1' or f == 'np.concat' and dict(x.args[2]).get('axis') is ZERO) and a and a[0].op in ('list', 'tuple'):
            r = ZERO
            for y in a[0].args:
                r = add(r, length(y))
            return r
        if f == 'range' and len(a) == 1:
            return a[0]
        if f in ('.predict', '.predict_proba') and len(a) >= 2:
            return length(a[-1])
    if x.op in ('store', 'swap'):
        return length(x.args[0])
    if x.op == 'mstore':
        return length(x.args[0])
    if x.op == 'sub' and x.args[1].op == 'slice':
        lo, hi, st = x.args[1].args
        if st is NONE:
            n = length(x.args[0])
            if lo is NONE and hi.op != 'const':
                return mk('slicelen', x) if False else _slen(ZERO, hi, n)
            if hi is NONE and lo.op != 'const':
                return sub_(n, lo)
            if lo is not NONE and hi is not NONE and lo.op != 'const' and hi.op != 'const':
                return sub_(hi, lo)
            if lo is NONE and hi is NONE:
                return n
    if x.op == 'sub' and x.args[1].op == 'tuple' and x.args[1].args and x.args[1].args[0] is mk('slice', NONE, NONE, NONE):
        return length(x.args[0])
    if x.op == 'sub' and x.args[1].op in ('map', 'list', 'cat'):
        i = x.args[1]
        body = i.args[0].args[1] if i.op == 'map' else i.args[0] if i.op == 'list' and i.args else None
        if body is not None and not isbool(body) and not (body.op == 'const' and isinstance(body.args[0], bool)):
            return length(i)  # positions, not a mask
    if x.op == 'app' and x.args[0] == 'np.random.choice' and len(x.args[1]) > 1:
        n = x.args[1][1]
        if num(n) is not None or n.op in ('len', 'sym', 'poly') and n is not NONE:
            return n
    if x.op == 'sub' and x.args[1].op == 'app' and x.args[1].args[0] == 'np.random.choice':
        return length(x.args[1])
    if x.op == 'ite' :
        la, lb = length(x.args[1]), length(x.args[2])
        if la is lb:
            return la
    if x.op == 'poly':
        # elementwise arithmetic on arrays keeps the length of any non-constant atom when there is just one
        atoms = {a for m, _ in x.args[0] for a, _ in m}
        if len(atoms) == 1:
            return length(next(iter(atoms)))
    return mk('len', x)


def _slen(lo, hi, n):
    return hi


def app(f, *args, **kw):
    if f in ('.upper', '.lower') and args[0].op == 'app' and args[0].args[0] in ('.upper', '.lower'):
        args = args[0].args[1]
    return mk('app', f, tuple(args), tuple(sorted(kw.items())))


def appk(f, args, kw):
    return mk('app', f, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0])))


# ------------------------------------------------------------------ binders
def subst(t, m, memo=None):
    """replace sub-terms (keys of m) and re-normalise"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    r = rebuild(t, lambda x: subst(x, m, memo))
    memo[t] = r
    return r


def _mapargs(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_mapargs(x, f) for x in a)
    return a


def rebuild(t, f):
    op = t.op
    if op in ('const', 'sym', 'bv', 'pyobj', 'ref', 'inf', 'nan', 'pyconst', 'ellipsis'):
        return t
    if op == 'poly':
        r = {}
        for m, c in t.args[0]:
            pm = {(): c}
            for a, e in m:
                fa = f(a)
                if e > 0:
                    for _ in range(e):
                        pm = pmul(pm, to_poly(fa))
                else:
                    for _ in range(-e):
                        pm = to_poly(div(from_poly(pm), fa))
            r = padd(r, pm)
        return from_poly(r)
    na = tuple(_mapargs(a, f) for a in t.args)
    if na == t.args:
        return t
    return build(op, na)


def build(op, na):
    if op == 'not':
        return not_(na[0])
    if op == 'and':
        return and_(*na)
    if op == 'or':
        return or_(*na)
    if op == 'eq':
        return eq(*na)
    if op == 'eq0':
        return eq(na[0], ZERO)
    if op == 'lt0':
        return lt(na[0], ZERO)
    if op == 'le0':
        return le(na[0], ZERO)
    if op == 'ite':
        return ite(*na)
    if op == 'cat':
        r = lst()
        for x in na:
            r = cat(r, x)
        return r
    if op == 'len':
        return length(na[0])
    if op == 'sub':
        return sub(*na)
    if op == 'app' and na[0] == 'pow':
        return power(*na[1])
    return mk(op, *na)


def canon_index(idx):
    """integer positions of a mask select the same elements as the mask"""
    if idx.op == 'app' and idx.args[0] == 'nonzero' and isbool(idx.args[1][0]):
        return idx.args[1][0]
    if idx.op == 'tuple' and len(idx.args) == 1:
        return canon_index(idx.args[0])
    if idx.op == 'tuple' and idx.args and idx.args[0].op == 'app' and idx.args[0].args[0] == 'nonzero':
        return mk('tuple', canon_index(idx.args[0]), *idx.args[1:])
    return idx


def sub(base, idx):
    """pure subscript, simplified without facts"""
    idx = canon_index(idx)
    if base.op == 'lam':
        return instantiate(base, idx)
    if base.op in ('list', 'tuple') and not any(a.op == 'star' for a in base.args):
        n = num(idx)
        if n is not None and n.denominator == 1 and -len(base.args) <= n < len(base.args):
            return base.args[int(n)]
        if idx.op == 'slice' and all(a is NONE or num(a) is not None for a in idx.args):
            lo, hi, st = [None if a is NONE else int(num(a)) for a in idx.args]
            return mk(base.op, *base.args[slice(lo, hi, st)])
    if base.op == 'dict':
        for k, v in base.args[0]:
            if k is idx:
                return v
    if base.op == 'map' and base.args[2] is None and idx.op not in ('slice', 'tuple', 'list', 'map'):
        if not (num(idx) is not None and num(idx) < 0):
            return instantiate(base.args[0], idx)
    if base.op == 'attr' and base.args[1] == 'shape' and idx is ZERO:
        return length(base.args[0])
    if base.op == 'store' and base.args[1] is idx:
        return base.args[2]
    if base.op == 'store' and num(base.args[1]) is not None and num(idx) is not None and base.args[1] is not idx:
        if num(base.args[1]) >= 0 and num(idx) >= 0:
            return sub(base.args[0], idx)
    if idx.op == 'slice' and idx.args == (NONE, NONE, NONE):
        return base
    if base.op == 'sub' and base.args[1].op == 'slice' and base.args[1].args[2] is NONE and (idx.op == 'bv' or idx.op == 'sym' and idx.args[1] == 'nat'):
        lo = base.args[1].args[0]
        if lo is NONE or num(lo) is None or num(lo) >= 0:
            return sub(base.args[0], idx if lo is NONE else add(lo, idx))
    if base.op == 'app' and base.args[0] == 'np.full' and idx.op not in ('slice', 'tuple', 'list', 'map') and base.args[1][0].op != 'tuple':
        if not isbool(idx):
            return base.args[1][1]
    if base.op == 'app' and base.args[0] in ('np.arange', 'range') and len(base.args[1]) == 1 and idx.op in ('sym', 'bv', 'poly'):
        return idx
    return mk('sub', base, idx)


def lam(body, s):
    """abstract symbol s in body"""
    lv = maxbv(body) + 1
    return mk('lam', lv, subst(body, {s: mk('bv', lv)}))


_mb = {}


def maxbv(t):
    r = _mb.get(t)
    if r is None:
        if t.op == 'bv':
            r = t.args[0]
        else:
            r = -1
            for x in children(t):
                r = max(r, maxbv(x))
        _mb[t] = r
    return r


def children(t):
    out = []

    def go(a):
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                go(x)
    for a in t.args:
        go(a)
    return out


def instantiate(l, v):
    return subst(l.args[1], {mk('bv', l.args[0]): v})


def walk(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def mentions(t, s):
    return any(x is s for x in walk(t))


def subterms(t, op):
    return [x for x in walk(t) if x.op == op]


# ------------------------------------------------------------------ display
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d) for x in t) + ')'
        return repr(t)
    if d > 9:
        return '..'
    a = t.args
    s = lambda x: show(x, d + 1)
    if t.op == 'const':
        return str(a[0]) if isinstance(a[0], Fraction) else repr(a[0])
    if t.op == 'sym':
        return a[0]
    if t.op == 'bv':
        return '$%d' % a[0]
    if t.op == 'lam':
        return '\\$%d.%s' % (a[0], s(a[1]))
    if t.op == 'poly':
        out = []
        for m, c in a[0]:
            f = '*'.join(s(x) + ('' if e == 1 else '^%d' % e) for x, e in m)
            out.append(str(c) if not m else f if c == 1 else '-' + f if c == -1 else '%s*%s' % (c, f))
        return '(' + ' + '.join(out) + ')'
    if t.op == 'eq0':
        return '%s == 0' % s(a[0])
    if t.op == 'lt0':
        return '%s < 0' % s(a[0])
    if t.op == 'le0':
        return '%s <= 0' % s(a[0])
    if t.op == 'eq':
        return '%s == %s' % (s(a[0]), s(a[1]))
    if t.op == 'not':
        return 'not(%s)' % s(a[0])
    if t.op in ('and', 'or'):
        return '(' + (' %s ' % t.op).join(s(x) for x in a) + ')'
    if t.op == 'sub':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if t.op == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if t.op == 'slice':
        return ':'.join('' if x is NONE else s(x) for x in (a[:2] if a[2] is NONE else a))
    if t.op == 'app':
        return '%s(%s)' % (a[0], ', '.join([s(x) for x in a[1]] + ['%s=%s' % (k, s(v)) for k, v in a[2]]))
    if t.op == 'pyobj':
        return '<%s>' % getattr(a[0], 'name', a[0])
    if t.op in ('list', 'tuple'):
        return '[%s]' % ', '.join(s(x) for x in a) if t.op == 'list' else '(%s)' % ', '.join(s(x) for x in a)
    if t.op == 'store':
        return '%s{%s:=%s}' % (s(a[0]), s(a[1]), s(a[2]))
    return '%s(%s)' % (t.op, ', '.join(s(x) if isinstance(x, T) else repr(x) if not isinstance(x, tuple) else s(x) for x in a))

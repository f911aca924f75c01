"""Entries of matrix terms as scalar terms with explicit sums, and exact symbolic derivatives of such scalars.

el(t, (i, j)) is the scalar at that position; a contraction becomes SUM(lam r. body, n) with constants pulled out and
finite constant ranges expanded, so that two ways of writing the same linear algebra meet in one normal form."""
from .terms import *
from .interp import Undecided
from . import ext
from .rows import mk_elem, ELEMWISE
from .facts import is_int

ALL = mk('slice', NONE, NONE, NONE)
NEWAXIS = NONE


class Mat:
    def __init__(self, st, same=(), symmetric=()):
        self.st = st
        self.same = dict(same)              # canonical names of equal lengths
        self.symmetric = set(symmetric)
        self.n = 0
        self.memo = {}

    # ------------------------------------------------------------ shapes
    def shape(self, t, d=0):
        """tuple of dimension terms"""
        if d > 80:
            raise Undecided('deep shape')
        r = self._shape(t, d)
        return tuple(self.canon(x) for x in r)

    def canon(self, n):
        if isinstance(n, tuple):
            return n
        for _ in range(4):
            m = self.same.get(n)
            if m is None:
                return n
            n = m
        return n

    def _shape(self, t, d):
        op = t.op
        if t in self.memo:
            return self.memo[t]
        r = lambda x: self.shape(x, d + 1)
        if num(t) is not None:
            return ()
        if op == 'sym':
            k = t.args[1]
            if k == 'arr1':
                return (length(t),)
            if k == 'arr2':
                return (length(t), mk('sub', mk('attr', t, 'shape'), ONE))
            if k in ('float', 'int', 'nat', 'bool', 'str', None):
                return ()
            raise Undecided('shape of ' + show(t))
        if op == 'bv' or op == 'len' or op == 'inf':
            return ()
        if op == 'poly':
            return self.bcast([r(a) for m, _ in t.args[0] for a, _ in m])
        if op in ('not', 'eq0', 'lt0', 'le0', 'and', 'or', 'eq', 'ite'):
            return self.bcast([r(a) for a in t.args])
        if op in ('store', 'mstore'):
            return r(t.args[0])
        if op in ('list', 'tuple'):
            if not t.args:
                return (ZERO,)
            return (C(len(t.args)),) + r(t.args[0])
        if op == 'map' and t.args[2] is None:
            return (t.args[1],) + r(instantiate(t.args[0], sym('_i', 'nat')))
        if op == 'sub':
            b, i = t.args
            if b.op == 'attr' and b.args[1] == 'shape':
                return ()
            s = r(b)
            ix = list(i.args) if i.op == 'tuple' else [i]
            out, p = [], 0
            for x in ix:
                if x is NONE:
                    out.append(ONE)
                    continue
                if p >= len(s):
                    raise Undecided('too many indices in ' + show(t)[:80])
                if x.op == 'slice':
                    out.append(s[p] if x is ALL else self.slen(x, s[p]))
                elif x.op == 'const' and num(x) is not None or not self.isarr(x, d):
                    pass
                elif self.isbool_arr(x):
                    raise Undecided('masked entry')
                else:
                    sx = r(x)
                    out.extend(sx)
                p += 1
            return tuple(out) + s[p:]
        if op == 'app':
            f, a, kw = t.args[0], t.args[1], dict(t.args[2])
            if f in ELEMWISE or f in ('copy', 'np.asarray', 'np.array', 'np.asfortranarray', 'np.ascontiguousarray', 'xlogy', 'np.nan_to_num', 'np.cumsum_'):
                return self.bcast([r(x) for x in a])
            if f in ('np.full', 'np.empty'):
                return self.shapeval(a[0], d)
            if f in ('np.eye', 'np.identity'):
                return (a[0], a[0])
            if f in ('np.arange', 'range') and len(a) == 1:
                return (a[0],)
            if f in ('matmul', '.dot') and len(a) == 2:
                x, y = r(a[0]), r(a[1])
                if not x or not y:
                    return self.bcast([x, y])
                return x[:-1] + (y[:-2] + y[-1:] if len(y) > 1 else ())
            if f == 'T':
                return tuple(reversed(r(a[0])))
            if f in REDUCED:
                s = r(a[0])
                ax = kw.get('axis')
                keep = kw.get('keepdims') is TRUE
                if ax is None or ax is NONE:
                    return tuple(ONE for _ in s) if keep else ()
                n = num(ax)
                if n is None:
                    raise Undecided('axis ' + show(ax))
                n = int(n) % len(s)
                return s[:n] + ((ONE,) if keep else ()) + s[n + 1:]
            if f == 'np.einsum':
                return self.einsum(t, None, d)
            if f == 'ravel':
                s = r(a[0])
                return s if len(s) == 1 else (tuple(s),) if len(s) else (ONE,)
            if f == 'reshape':
                s = r(a[0])
                if a[1].op == 'tuple' and len(s) == 1 and len(a[1].args) == 2:
                    if num(a[1].args[1]) == 1 and num(a[1].args[0]) == -1 or a[1].args[1] is ONE and a[1].args[0] is s[0]:
                        return (s[0], ONE)
                    if num(a[1].args[0]) == 1 and num(a[1].args[1]) == -1:
                        return (ONE, s[0])
                if a[1].op == 'attr' and a[1].args[1] == 'shape' and self.shape(a[1].args[0], d + 1) == s:
                    return s
                raise Undecided('reshape ' + show(t)[:80])
            if f in ('sklearn.metrics.pairwise.linear_kernel', 'sklearn.metrics.pairwise.rbf_kernel', 'sklearn.metrics.pairwise.polynomial_kernel', 'sklearn.metrics.pairwise.sigmoid_kernel', 'sklearn.metrics.pairwise.euclidean_distances'):
                x = r(a[0])
                y = r(a[1]) if len(a) > 1 and a[1] is not NONE else r(kw['Y']) if kw.get('Y', NONE) is not NONE else x
                return (x[0], y[0])
            if f in ('np.diag', 'np.diagonal', 'diagonal', '.diagonal', 'arr.diagonal'):
                s = r(a[0])
                return (s[0],) if len(s) == 2 else (s[0], s[0])
            if f in ('np.trace', 'trace', 'arr.trace'):
                return ()
            if f == 'np.outer':
                return r(a[0]) + r(a[1])
            if f == 'np.concat' and a[0].op in ('tuple', 'list'):
                ss = [r(x) for x in a[0].args]
                n = int(num(kw['axis']))
                tot = ZERO
                for s in ss:
                    tot = add(tot, s[n])
                return ss[0][:n] + (tot,) + ss[0][n + 1:]
            if f == 'np.concat1' and a[0].op in ('tuple', 'list'):
                tot = ZERO
                for x in a[0].args:
                    tot = add(tot, r(x)[0])
                return (tot,)
            if f in ('SUM', 'MAX', 'MIN', 'PROD'):
                return ()
            if f in ('np.sum', 'np.trace', 'np.linalg.norm'):
                return ()
        d2 = ext.ndim(t)
        if d2 == 1:
            return (length(t),)
        if is_int(t):
            return ()
        raise Undecided('shape of ' + show(t)[:80])

    def isarr(self, x, d=0):
        if num(x) is not None or is_int(x) and x.op in ('sym', 'bv', 'poly', 'len'):
            return False
        return len(self.shape(x, d + 1)) > 0

    def isbool_arr(self, x):
        return isbool(x)

    def slen(self, s, n):
        lo, hi, stp = s.args
        if stp is not NONE and stp is not ONE:
            raise Undecided('strided slice')
        lo = ZERO if lo is NONE else lo
        hi = n if hi is NONE else hi
        if isinstance(hi, tuple):
            raise Undecided('slice of a flattened matrix')
        if num(lo) is not None and num(lo) < 0:
            lo = add(n, lo)
        if num(hi) is not None and num(hi) < 0:
            hi = add(n, hi)
        return sub_(hi, lo)

    def shapeval(self, s, d):
        if s.op in ('tuple', 'list'):
            return tuple(s.args)
        if s.op == 'attr' and s.args[1] == 'shape':
            return self.shape(s.args[0], d + 1)
        return (s,)

    def bcast(self, ss):
        ss = [s for s in ss if s]
        if not ss:
            return ()
        n = max(len(s) for s in ss)
        out = []
        for i in range(n):
            v = ONE
            for s in ss:
                j = i - (n - len(s))
                if j >= 0 and s[j] is not ONE:
                    v = s[j]
                    break
            out.append(v)
        return tuple(out)

    # ------------------------------------------------------------ entries
    def fresh(self):
        self.n += 1
        return sym('_r%d' % self.n, 'nat')

    def scalar(self, t):
        """value of a scalar term, contractions made explicit"""
        return self.el(t, ())

    def sc(self, t, idx, d):
        """entry of an operand under broadcasting"""
        s = self.shape(t)
        if not s:
            return self.el(t, (), d)
        ix = idx[len(idx) - len(s):]
        ix = tuple(ZERO if n is ONE else i for n, i in zip(s, ix))
        return self.el(t, ix, d)

    def el(self, t, idx, d=0):
        if d > 120:
            raise Undecided('deep entry')
        op = t.op
        if num(t) is not None or t in (TRUE, FALSE):
            return t
        if op in ('bv', 'len', 'inf'):
            return t
        r = lambda x: self.sc(x, idx, d + 1)
        if op == 'sym':
            if not idx:
                return t
            if t in self.symmetric and len(idx) == 2:
                idx = tuple(sorted(idx, key=lambda x: x.id))
            for i in idx:
                t = mk('sub', t, i)
            return t
        if op == 'poly':
            return self.poly(t, r)
        if op == 'not':
            return not_(r(t.args[0]))
        if op == 'and':
            return and_(*[r(x) for x in t.args])
        if op == 'or':
            return or_(*[r(x) for x in t.args])
        if op in ('eq0', 'lt0', 'le0'):
            x = r(t.args[0])
            return {'eq0': eq, 'lt0': lt, 'le0': le}[op](x, ZERO)
        if op == 'eq':
            return eq(*[r(x) for x in t.args])
        if op == 'ite':
            c = r(t.args[0])
            dec = self.st.facts.decide(c) if c not in (TRUE, FALSE) else c is TRUE
            if dec is not None:
                return r(t.args[1] if dec else t.args[2])
            return ite(c, r(t.args[1]), r(t.args[2]))
        if op == 'store':
            b, i, v = t.args
            return self.stored(b, i, v, idx, d)
        if op == 'mstore':
            b, m, v = t.args
            ms = self.shape(m)
            c = self.el(m, idx[:len(ms)], d + 1)
            dec = self.st.facts.decide(c) if c not in (TRUE, FALSE) else c is TRUE
            if dec is False:
                return self.el(b, idx, d + 1)
            val = self.scattered(v, m, idx, len(ms), d)
            return val if dec is True else ite(c, val, self.el(b, idx, d + 1))
        if op in ('list', 'tuple'):
            n = num(idx[0]) if idx else None
            if n is not None and 0 <= n < len(t.args):
                return self.el(t.args[int(n)], idx[1:], d + 1)
            if idx and len(idx) == 1:
                return mk('sub', t, idx[0])
            raise Undecided('entry of list')
        if op == 'map' and t.args[2] is None:
            return self.el(instantiate(t.args[0], idx[0]), idx[1:], d + 1)
        if op == 'sub':
            b, i = t.args
            if b.op == 'attr' and b.args[1] == 'shape' or not idx and not self.shape_safe(b):
                return t
            return self.subentry(b, i, idx, d)
        if op == 'app':
            return self.appentry(t, idx, d)
        if not idx:
            return t
        raise Undecided('entry of ' + show(t)[:80])

    def shape_safe(self, b):
        try:
            return self.shape(b)
        except Undecided:
            return None

    def poly(self, t, r):
        p = {}
        for m, c in t.args[0]:
            pm = {(): c}
            for a, e in m:
                fa = r(a)
                if e > 0:
                    for _ in range(e):
                        pm = pmul(pm, to_poly(fa))
                else:
                    x = from_poly(pm)
                    for _ in range(-e):
                        x = div(x, fa)
                    pm = to_poly(x)
            p = padd(p, pm)
        return from_poly(p)

    def subentry(self, b, i, idx, d):
        s = self.shape(b)
        ix = list(i.args) if i.op == 'tuple' else [i]
        full, q, p = [], 0, 0
        fancy = [x for x in ix if x is not NONE and x.op != 'slice' and self.isarr(x)]
        if len(fancy) > 1:
            if i.op == 'tuple' and all(len(self.shape(x)) == 1 for x in fancy) and len(ix) == len(s):    # b[i, j] with two index vectors
                return self.el(b, tuple(self.el(x, (idx[0],), d + 1) if x in fancy else x for x in ix), d + 1)
            raise Undecided('several index arrays')
        for x in ix:
            if x is NONE:
                q += 1
                continue
            if x.op == 'slice':
                lo = x.args[0]
                if lo is NONE or lo is ZERO:
                    full.append(idx[q])
                else:
                    if num(lo) is not None and num(lo) < 0:
                        lo = add(s[p], lo)
                    full.append(add(lo, idx[q]))
                if x.args[2] not in (NONE, ONE):
                    raise Undecided('strided slice')
                q += 1
            elif self.isarr(x):
                if isbool(x):
                    raise Undecided('masked entry')
                w = len(self.shape(x))
                full.append(self.el(x, tuple(idx[q:q + w]), d + 1))
                q += w
            else:
                y = x
                if num(x) is not None and num(x) < 0:
                    y = add(s[p], x)
                full.append(y)
            p += 1
        full += idx[q:]
        return self.el(b, tuple(full), d + 1)

    def stored(self, b, i, v, idx, d):
        if i.op == 'app' and i.args[0] == 'np.diag_indices_from':
            c = eq(idx[0], idx[1])
            dec = self.st.facts.decide(c) if c not in (TRUE, FALSE) else c is TRUE
            if dec is False:
                return self.el(b, idx, d + 1)
            val = self.diagval(v, i, idx[0], d)
            return val if dec is True else ite(c, val, self.el(b, idx, d + 1))
        s = self.shape(b)
        ix = list(i.args) if i.op == 'tuple' else [i]
        if any(x is NONE for x in ix):
            raise Undecided('store through a new axis')
        cond, inner = [], []
        for p, x in enumerate(ix):
            if x.op == 'slice':
                if x is ALL:
                    inner.append(idx[p])
                    continue
                lo = ZERO if x.args[0] is NONE else x.args[0]
                hi = s[p] if x.args[1] is NONE else x.args[1]
                lo = add(s[p], lo) if num(lo) is not None and num(lo) < 0 else lo
                hi = add(s[p], hi) if num(hi) is not None and num(hi) < 0 else hi
                cond += [le(lo, idx[p]), lt(idx[p], hi)]
                inner.append(sub_(idx[p], lo))
            elif x.op in ('list', 'tuple') and all(num(y) is not None for y in x.args):
                n = num(idx[p])
                if n is None:
                    raise Undecided('store at listed positions, unknown position')
                pos = [k for k, y in enumerate(x.args) if num(y) == n]
                if not pos:
                    return self.el(b, idx, d + 1)
                inner.append(C(pos[-1]))
            elif self.isarr(x):
                raise Undecided('store at an index array')
            else:
                y = add(s[p], x) if num(x) is not None and num(x) < 0 else x
                cond.append(eq(idx[p], y))
        inner += idx[len(ix):]
        c = and_(*cond) if cond else TRUE
        dec = self.st.facts.decide(c) if c not in (TRUE, FALSE) else c is TRUE
        if dec is False:
            return self.el(b, idx, d + 1)
        val = self.sc(v, tuple(inner), d + 1)
        return val if dec is True else ite(c, val, self.el(b, idx, d + 1))

    def diagval(self, v, di, i, d):
        """value written at (i, i) by K[diag_indices] = v"""
        def go(x):
            if num(x) is not None:
                return x
            if x.op == 'sub' and x.args[1] is di:
                return self.el(x.args[0], (i, i), d + 1)
            if x.op == 'poly':
                return self.poly(x, go)
            s = self.shape(x)
            return self.el(x, (i,) if s else (), d + 1)
        return go(v)

    def scattered(self, v, m, idx, w, d):
        def go(x):
            if num(x) is not None:
                return x
            if x.op == 'sub' and x.args[1] is m:
                return self.el(x.args[0], idx, d + 1)
            if x.op == 'poly':
                return self.poly(x, go)
            if x.op == 'app' and x.args[0] in ELEMWISE:
                return mk_elem(x.args[0], tuple(go(y) for y in x.args[1]), x.args[2])
            s = self.shape(x)
            if not s:
                return self.el(x, (), d + 1)
            raise Undecided('masked store of ' + show(x)[:60])
        return go(v)

    def contract(self, f, n, d, reducer='SUM'):
        """reduction of f(r) for r < n (n may be a tuple of nested ranges)"""
        if isinstance(n, tuple):
            if len(n) == 1:
                return self.contract(lambda r: f((r,)), n[0], d, reducer)
            return self.contract(lambda r: self.contract(lambda q: f((r,) + (q if isinstance(q, tuple) else (q,))), n[1:] if len(n) > 2 else n[1], d, reducer), n[0], d, reducer)
        k = num(n)
        if k is not None and k <= 12:
            xs = [f(C(i)) for i in range(int(k))]
            if reducer == 'SUM':
                r = ZERO
                for x in xs:
                    r = add(r, x)
                return r
            if reducer == 'PROD':
                r = ONE
                for x in xs:
                    r = mul(r, x)
                return r
        v = self.fresh()
        body = f(v)
        if reducer == 'SUM':
            return self.total(body, v, n)
        return mk('app', reducer, (lam(body, v), n), ())

    def total(self, body, v, n):
        out = ZERO
        for m, c in to_poly(body).items():
            dep, ind = ONE, C(c)
            for a, e in m:
                x = power(a, C(e)) if e > 0 else div(ONE, power(a, C(-e)))
                if mentions(a, v):
                    dep = mul(dep, x)
                else:
                    ind = mul(ind, x)
            if dep is ONE:
                out = add(out, mul(ind, n))
                continue
            if dep.op == 'ite' and dep.args[0].op == 'eq0':      # SUM of a Kronecker delta
                k = solve(dep.args[0].args[0], v)
                if k is not None:
                    a, b = dep.args[1], dep.args[2]
                    rest = self.total(b, v, n)
                    out = add(out, mul(ind, add(rest, subst(sub_(a, b), {v: k}))))
                    continue
            out = add(out, mul(ind, mk('app', 'SUM', (lam(dep, v), n), ())))
        return out

    def appentry(self, t, idx, d):
        f, a, kw = t.args[0], t.args[1], dict(t.args[2])
        r = lambda x: self.sc(x, idx, d + 1)
        if f in ('SUM', 'MAX', 'MIN', 'PROD'):
            return t
        if f in ELEMWISE or f in ('xlogy',):
            return mk_elem(f, tuple(r(x) for x in a), t.args[2])
        if f in ('copy', 'np.asarray', 'np.array', 'np.ascontiguousarray', 'np.asfortranarray') and a:
            return r(a[0])
        if f == 'np.full':
            return r(a[1])
        if f in ('np.eye', 'np.identity'):
            return self.delta(idx[0], idx[1])
        if f in ('np.arange', 'range') and len(a) == 1:
            return idx[0]
        if f in ('matmul', '.dot') and len(a) == 2:
            x, y = a
            sx, sy = self.shape(x), self.shape(y)
            if not sx or not sy:
                return mul(r(x), r(y))
            left = idx[:len(sx) - 1]
            right = idx[len(sx) - 1:]
            n = self.common(sx[-1], sy[-2] if len(sy) > 1 else sy[0])
            if len(sy) > 1:
                g = lambda k: mul(self.el(x, left + (k,), d + 1), self.el(y, right[:-1] + (k,) + right[-1:], d + 1))
            else:
                g = lambda k: mul(self.el(x, left + (k,), d + 1), self.el(y, (k,), d + 1))
            return self.contract(g, n, d)
        if f == 'T':
            return self.el(a[0], tuple(reversed(idx)), d + 1)
        if f in REDUCED:
            s = self.shape(a[0])
            ax = kw.get('axis')
            keep = kw.get('keepdims') is TRUE
            x = a[0]
            if f == 'np.linalg.norm':
                if 'ord' in kw and kw['ord'] is not NONE and num(kw['ord']) != 2:
                    raise Undecided('norm order')
                if num(kw.get('ord', ZERO)) == 2 and ax is None and len(s) == 2:
                    raise Undecided('spectral norm')
            if ax is None or ax is NONE:
                if not s:
                    v = self.el(x, (), d + 1)
                    return v if f != 'np.linalg.norm' else ext.t_abs(v)
                dom = tuple(s)
                get = lambda k: self.el(x, k if isinstance(k, tuple) else (k,), d + 1)
            else:
                n = int(num(ax)) % len(s)
                dom = s[n]
                ix = idx[:n] + idx[n + 1:] if keep else idx
                get = lambda k: self.el(x, ix[:n] + (k,) + ix[n:], d + 1)
            if f == 'np.sum':
                return self.contract(get, dom, d)
            if f == 'np.mean':
                tot = ONE
                for q in (dom if isinstance(dom, tuple) else (dom,)):
                    tot = mul(tot, q)
                return div(self.contract(get, dom, d), tot)
            if f == 'np.linalg.norm':
                return root(self.contract(lambda k: power(get(k), C(2)), dom, d))
            if f in ('np.max', 'np.min', 'np.prod'):
                return self.contract(get, dom, d, {'np.max': 'MAX', 'np.min': 'MIN', 'np.prod': 'PROD'}[f])
        if f == 'np.einsum':
            return self.einsum(t, idx, d)
        if f == 'ravel':
            s = self.shape(a[0])
            if len(s) == 1:
                return self.el(a[0], idx, d + 1)
            if isinstance(idx[0], tuple):
                return self.el(a[0], idx[0], d + 1)
            raise Undecided('position in a flattened matrix')
        if f == 'reshape':
            s = self.shape(a[0])
            o = self.shape(t)
            if len(s) == 1 and len(o) == 2:
                return self.el(a[0], (idx[0] if o[1] is ONE else idx[1],), d + 1)
            if s == o:
                return self.el(a[0], idx, d + 1)
        if f.startswith('sklearn.metrics.pairwise.'):
            return self.kernel(t, idx, d)
        if f in ('np.diag', 'np.diagonal', 'diagonal', '.diagonal', 'arr.diagonal'):
            s = self.shape(a[0])
            if len(s) == 2:
                return self.el(a[0], (idx[0], idx[0]), d + 1)
            return mul(self.delta(idx[0], idx[1]), self.el(a[0], (idx[0],), d + 1))
        if f in ('np.trace', 'trace', 'arr.trace'):
            return self.contract(lambda k: self.el(a[0], (k, k), d + 1), self.shape(a[0])[0], d)
        if f == 'np.outer':
            return mul(self.el(a[0], (idx[0],), d + 1), self.el(a[1], (idx[1],), d + 1))
        if f == 'np.concat' or f == 'np.concat1':
            n = int(num(kw['axis'])) if f == 'np.concat' else 0
            off = idx[n]
            out = None
            parts = list(a[0].args)
            conds = []
            for k, x in enumerate(parts):
                sx = self.shape(x)
                w = sx[n]
                ii = idx[:n] + (off,) + idx[n + 1:]
                c = lt(off, w) if k < len(parts) - 1 else TRUE
                dec = self.st.facts.decide(c) if c not in (TRUE, FALSE) else c is TRUE
                if dec is not False:
                    conds.append((c if dec is None else TRUE, self.el(x, ii, d + 1)))
                    if dec is True:
                        break
                off = sub_(off, w)
            out = conds[-1][1]
            for c, v in reversed(conds[:-1]):
                out = ite(c, v, out)
            return out
        if not idx:
            return mk('app', f, tuple(self.safe(x, d) for x in a), t.args[2])
        raise Undecided('entry of ' + show(t)[:80])

    def safe(self, x, d):
        try:
            return self.el(x, (), d + 1) if not self.shape(x) else x
        except Undecided:
            return x

    def delta(self, i, j):
        c = eq(i, j)
        if c is TRUE or c is FALSE:
            return ONE if c is TRUE else ZERO
        dec = self.st.facts.decide(c)
        return ite(c, ONE, ZERO) if dec is None else ONE if dec else ZERO

    def common(self, n, m):
        if n is m or isinstance(n, tuple) or isinstance(m, tuple):
            return n
        if num(m) is not None:
            return m
        if num(n) is not None:
            return n
        return min(n, m, key=lambda x: x.id) if isinstance(n, T) and isinstance(m, T) else n

    def einsum(self, t, idx, d):
        a = t.args[1]
        spec = a[0].args[0] if a[0].op == 'const' and isinstance(a[0].args[0], str) else None
        if spec is None:
            raise Undecided('einsum')
        spec = spec.replace(' ', '')
        if '->' in spec:
            ins, out = spec.split('->')
        else:
            ins = spec
            letters = sorted(c for c in set(ins) if c.isalpha() and ins.count(c) == 1)
            out = ''.join(letters)
        ins = ins.split(',')
        if len(ins) != len(a) - 1 or '.' in spec:
            raise Undecided('einsum ' + spec)
        dims = {}
        for p, x in zip(ins, a[1:]):
            for c, n in zip(p, self.shape(x)):
                dims[c] = self.common(dims[c], n) if c in dims else n
        if idx is None:
            return tuple(dims[c] for c in out)
        env = dict(zip(out, idx))
        free = [c for c in dims if c not in out]

        def go(fs, env):
            if not fs:
                r = ONE
                for p, x in zip(ins, a[1:]):
                    r = mul(r, self.el(x, tuple(env[c] for c in p), d + 1))
                return r
            return self.contract(lambda k: go(fs[1:], dict(env, **{fs[0]: k})), dims[fs[0]], d)
        return go(free, env)

    def kernel(self, t, idx, d):
        f, a, kw = t.args[0].rsplit('.', 1)[1], t.args[1], dict(t.args[2])
        X = a[0]
        Y = a[1] if len(a) > 1 else kw.get('Y', NONE)
        if Y is NONE:
            Y = X
        n = self.shape(X)[1]
        dot = lambda: self.contract(lambda k: mul(self.el(X, (idx[0], k), d + 1), self.el(Y, (idx[1], k), d + 1)), n, d)
        pos = {'rbf_kernel': ('gamma',), 'polynomial_kernel': ('degree', 'gamma', 'coef0'), 'linear_kernel': ('dense_output',), 'sigmoid_kernel': ('gamma', 'coef0')}.get(f)
        if pos is None:
            raise Undecided(f)
        for name, v in zip(pos, a[2:]):
            kw[name] = v
        g = kw.get('gamma', NONE)
        if g is NONE:
            g = div(ONE, n)
        elif g.op == 'ite':
            raise Undecided('gamma')
        if f == 'linear_kernel':
            return dot()
        if f == 'rbf_kernel':
            sq = self.contract(lambda k: power(sub_(self.el(X, (idx[0], k), d + 1), self.el(Y, (idx[1], k), d + 1)), C(2)), n, d)
            return ext.t_exp(mul(neg(g), sq))
        if f == 'polynomial_kernel':
            return power(add(mul(g, dot()), kw.get('coef0', ONE)), kw.get('degree', C(3)))
        raise Undecided(f)


REDUCED = ('np.sum', 'np.mean', 'np.linalg.norm', 'np.max', 'np.min', 'np.prod')


def root(x):
    n = num(x)
    if n is not None and n in (0, 1):
        return x
    return app('np.sqrt', x)


def solve(p, v):
    """k with p == 0 <=> v == k, for p linear in v with unit coefficient"""
    pp = to_poly(p)
    c = pp.get(((v, 1),))
    if c is None or abs(c) != 1 or any(a is not v and mentions(a, v) or (a is v and m != ((v, 1),)) for m in pp for a, _ in m):
        return None
    rest = sub_(p, mul(C(c), v))
    return neg(rest) if c == 1 else rest


# ------------------------------------------------------------------ derivatives
class NotDiff(Undecided):
    pass


def deriv(t, x, m):
    """d t / d x for scalar term t and entry x = sub(sub(W, p), q) or sub(w, p) of a symbol; m: the Mat (for sums)"""
    W, pos = root_of(x)

    def D(t):
        if not mentions(t, W):
            return ZERO
        W2, p2 = root_of(t)
        if W2 is W:
            c = and_(*[eq(a, b) for a, b in zip(p2, pos)])
            if c is TRUE:
                return ONE
            if c is FALSE:
                return ZERO
            r = ONE
            for a, b in zip(p2, pos):
                r = mul(r, m.delta(a, b))
            return r
        op = t.op
        if op == 'poly':
            out = ZERO
            for mo, c in t.args[0]:
                for k, (a, e) in enumerate(mo):
                    da = D(a)
                    if da is ZERO:
                        continue
                    rest = C(c * e)
                    for j, (b, f) in enumerate(mo):
                        ex = f - 1 if j == k else f
                        if ex > 0:
                            rest = mul(rest, power(b, C(ex)))
                        elif ex < 0:
                            rest = div(rest, power(b, C(-ex)))
                    out = add(out, mul(rest, da))
            return out
        if op == 'ite':
            return ite(t.args[0], D(t.args[1]), D(t.args[2]))
        if op == 'app':
            f, a = t.args[0], t.args[1]
            if f == 'SUM':
                v = m.fresh()
                body = D(instantiate(a[0], v))
                return m.total(push(body, v), v, a[1])
            if f == 'np.sqrt':
                return div(D(a[0]), mul(C(2), t))
            if f == 'np.abs':
                return mul(app('np.sign', a[0]), D(a[0]))
            if f == 'np.exp':
                return mul(t, D(a[0]))
            if f == 'np.log':
                return div(D(a[0]), a[0])
            if f == 'expit':
                return mul(mul(t, sub_(ONE, t)), D(a[0]))
            if f == 'np.logaddexp':
                x0, x1 = a
                s = sub_(x0, x1)
                e = app('expit', s)      # weight of x0
                return add(mul(e, D(x0)), mul(app('expit', neg(s)), D(x1)))
            if f == 'pow' and not mentions(a[1], W):
                return mul(mul(a[1], power(a[0], sub_(a[1], ONE))), D(a[0]))
        raise NotDiff('derivative of ' + show(t)[:80])
    return D(t)


def push(body, v):
    """distribute Kronecker deltas in v to the front of each monomial so that sums can absorb them"""
    out = ZERO
    for mo, c in to_poly(body).items():
        dl = [a for a, e in mo if a.op == 'ite' and a.args[0].op == 'eq0' and mentions(a.args[0], v) and a.args[1] is ONE and a.args[2] is ZERO]
        if not dl:
            out = add(out, from_poly({mo: c}))
            continue
        a0 = dl[0]
        rest = from_poly({tuple((a, e) for a, e in mo if a is not a0): c})
        out = add(out, mk('ite', a0.args[0], rest, ZERO))
    return out


def root_of(t):
    pos = []
    while t.op == 'sub':
        pos.append(t.args[1])
        t = t.args[0]
    return t, tuple(reversed(pos))


# ------------------------------------------------------------------ telling two normal forms apart
import math as _m
from fractions import Fraction
import random as _random


class _No(Exception):
    pass


def evalm(t, env):
    """float value of an entry term; env: sym -> float | list | list of lists. Raises _No on unknown operators"""
    op = t.op
    n = num(t)
    if n is not None:
        return float(n)
    if t is TRUE or t is FALSE:
        return t is TRUE
    if op in ('sym', 'bv'):
        v = env.get(t)
        if v is None or isinstance(v, list):
            raise _No
        return v
    e = lambda x: evalm(x, env)
    if op == 'poly':
        r = 0.
        for m, c in t.args[0]:
            p = float(c)
            for a, k in m:
                v = e(a)
                if v == 0 and k < 0:
                    raise _No
                p *= v ** k
            r += p
        return r
    if op == 'len':
        v = env.get(t.args[0])
        if isinstance(v, list):
            return len(v)
        raise _No
    if op == 'sub':
        b, i = t.args
        if b.op == 'attr' and b.args[1] == 'shape' and num(i) is not None:
            v = env.get(b.args[0])
            if isinstance(v, list):
                return len(v) if num(i) == 0 else len(v[0])
            raise _No
        w, pos = root_of(t)
        v = env.get(w)
        if v is None:
            if w.op in ('list', 'tuple'):
                v = [e(x) for x in w.args]
            else:
                raise _No
        for p in pos:
            k = e(p)
            if not isinstance(v, list) or k != int(k) or not -len(v) <= k < len(v):
                raise _No
            v = v[int(k)]
        if isinstance(v, list):
            raise _No
        return v
    if op == 'not':
        return not e(t.args[0])
    if op == 'and':
        return all(e(x) for x in t.args)
    if op == 'or':
        return any(e(x) for x in t.args)
    if op == 'eq0':
        return abs(e(t.args[0])) < 1e-12
    if op == 'lt0':
        return e(t.args[0]) < -1e-12
    if op == 'le0':
        return e(t.args[0]) <= 1e-12
    if op == 'eq':
        return e(t.args[0]) == e(t.args[1])
    if op == 'ite':
        return e(t.args[1] if e(t.args[0]) else t.args[2])
    if op == 'app':
        f, a = t.args[0], t.args[1]
        if f in ('SUM', 'MAX', 'MIN', 'PROD'):
            n = e(a[1])
            b = mk('bv', a[0].args[0])
            vs = [evalm(a[0].args[1], dict(env, **{}) | {b: float(k)}) for k in range(int(n))]
            if f == 'SUM':
                return sum(vs)
            if f == 'PROD':
                return _m.prod(vs)
            if not vs:
                raise _No
            return max(vs) if f == 'MAX' else min(vs)
        try:
            if f in FUN:
                return FUN[f](*[e(x) for x in a])
        except (ValueError, OverflowError, ZeroDivisionError):
            raise _No
    raise _No


def _expit(x):
    return 1 / (1 + _m.exp(-x)) if x > -700 else 0.


FUN = {'np.abs': abs, 'np.sqrt': _m.sqrt, 'np.exp': _m.exp, 'np.log': _m.log, 'np.sign': lambda x: (x > 0) - (x < 0), 'expit': _expit, 'max': max, 'min': min, 'pow': lambda a, b: a ** b,
       'np.logaddexp': lambda a, b: max(a, b) + _m.log1p(_m.exp(-abs(a - b))), 'np.sin': _m.sin, 'np.cos': _m.cos, 'astype': lambda x, *k: x, 'np.floor': _m.floor, 'np.log2': _m.log2,
       'xlogy': lambda x, y: 0. if x == 0 else x * _m.log(y), 'np.minimum': min, 'np.maximum': max}


def differ_at(a, b, sizes, scalars=(), consistent=None, tries=40, seed=7, symmetric=()):
    """an assignment on which two entry terms differ; 'same' when they agree on all tried ones, None when not computable.

    sizes: {array symbol: shape tuple of ints}; scalars: {symbol: list of candidate values}"""
    rnd = _random.Random(seed)
    done = 0
    for _ in range(tries):
        env = {}
        for s, sh in sizes.items():
            env[s] = [[rnd.choice([-2, -1, -.5, .25, 1, 1.5, 3]) for _ in range(sh[1])] for _ in range(sh[0])] if len(sh) == 2 else [rnd.choice([-2, -1, -.5, .25, 1, 1.5, 3]) for _ in range(sh[0])]
            if s in symmetric:
                for i in range(sh[0]):
                    for j in range(i):
                        env[s][i][j] = env[s][j][i]
        for s, vals in dict(scalars).items():
            env[s] = rnd.choice(vals)
        try:
            if consistent is not None and not all(evalm(c, env) for c in consistent):
                continue
            x, y = evalm(a, env), evalm(b, env)
        except (_No, OverflowError):
            continue
        except TypeError:
            continue
        if isinstance(x, complex) or isinstance(y, complex):
            continue
        done += 1
        if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
            return env, x, y
    return 'same' if done >= 3 else None


# ------------------------------------------------------------------ normal form at a generic point
def lead_sign(x):
    from .terms import _monokey
    p = to_poly(x)
    return -1 if p and sorted(p.items(), key=lambda mc: _monokey(mc[0]))[-1][1] < 0 else 1


def generic(t, facts, memo=None):
    """rewrite with sqrt(x)^2 = x, |x|^2 = x^2, sign(x)|x| = x, sign(x)^2 = 1 (roots and absolute values are positive at a generic point)"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    g = lambda x: generic(x, facts, memo)
    op = t.op
    r = t
    if op == 'poly':
        p = {}
        for m, c in t.args[0]:
            x = C(c)
            for a, e in m:
                x = mul(x, gpow(g(a), e))
            p = padd(p, to_poly(x))
        r = from_poly(reduce_mono(p))
    elif op in ('eq0', 'lt0', 'le0'):
        x = g(t.args[0])
        r = {'eq0': eq, 'lt0': lt, 'le0': le}[op](x, ZERO)
        d = decide_generic(r, facts)
        if d is not None:
            r = TRUE if d else FALSE
    elif op in ('not', 'and', 'or'):
        r = {'not': not_, 'and': and_, 'or': or_}[op](*[g(x) for x in t.args])
    elif op == 'ite':
        c = g(t.args[0])
        r = ite(c, g(t.args[1]), g(t.args[2])) if c not in (TRUE, FALSE) else g(t.args[1] if c is TRUE else t.args[2])
    elif op == 'app':
        f, a = t.args[0], t.args[1]
        if f in ('SUM', 'PROD'):
            v = fresh('_g', 'nat')
            b = g(instantiate(a[0], v))
            m = Mat.__new__(Mat)
            r = m.total(b, v, a[1]) if f == 'SUM' else mk('app', 'PROD', (lam(b, v), a[1]), ())
        elif f == 'np.sqrt':
            r = gsqrt(g(a[0]))
        elif f == 'np.abs':
            r = gabs(g(a[0]), facts)
        elif f == 'np.sign':
            r = gsign(g(a[0]), facts)
        elif f in ('max', 'min') and len(a) == 2:
            x, y = g(a[0]), g(a[1])
            d = decide_generic(lt(x, y), facts)
            r = ext.sorted_app(f, x, y) if d is None else (y if d == (f == 'max') else x)
        elif all(isinstance(x, T) for x in a):
            r = mk_elem(f, tuple(g(x) for x in a), t.args[2]) if f in ELEMWISE else mk('app', f, tuple(g(x) for x in a), t.args[2])
    memo[t] = r
    return r


def decide_generic(c, facts):
    if c is TRUE or c is FALSE:
        return c is TRUE
    d = facts.decide(c)
    if d is not None:
        return d
    if c.op in ('eq0', 'lt0', 'le0'):
        s = signof(c.args[0], facts)
        if s is not None:
            return {'eq0': s == 0, 'lt0': s < 0, 'le0': s <= 0}[c.op]
    return None


def signof(t, facts):
    n = num(t)
    if n is not None:
        return (n > 0) - (n < 0)
    if t.op == 'poly':
        ss = set()
        for m, c in t.args[0]:
            s = 1 if c > 0 else -1
            for a, e in m:
                if e % 2:
                    q = signof(a, facts)
                    if q is None:
                        q = 0 if False else None
                    if q is None:
                        return _bylin(t, facts)
                    s *= q
            ss.add(s)
        if len(ss) == 1:
            return ss.pop()
        return _bylin(t, facts)
    if t.op == 'app' and t.args[0] in ('np.sqrt', 'np.abs', 'np.exp', 'expit'):
        return 1
    if t.op == 'app' and t.args[0] == 'SUM':
        b = t.args[1][0].args[1]
        if b.op == 'poly' and all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in b.args[0]):
            return 1
    return _bylin(t, facts)


def _bylin(t, facts):
    if facts.decide(lt(ZERO, t)) is True:
        return 1
    if facts.decide(lt(t, ZERO)) is True:
        return -1
    return None


def gpow(a, e):
    if e == 0:
        return ONE
    if a.op == 'poly' and e < 0 and len(a.args[0]) == 1:
        m, c = a.args[0][0]
        r = C(1 / c) if e == -1 else power(C(1 / c), C(-e))
        for x, k in m:
            r = mul(r, gpow(x, k * e))
        return r
    if e > 0:
        return power(a, C(e))
    if a.op == 'app' and a.args[0] == 'np.sqrt' and e <= -2:
        return mul(gpow(a.args[1][0], -((-e) // 2)), gpow(a, -((-e) % 2)))
    return from_poly({((a, e),): Fraction(1)}) if a.op != 'poly' else div(ONE, power(a, C(-e)))


def reduce_mono(p):
    """one pass of sqrt/abs/sign reductions inside each monomial"""
    out = {}
    for m, c in p.items():
        x = {}
        for a, e in m:
            x[a] = x.get(a, 0) + e
        changed = True
        extra = ONE
        while changed:
            changed = False
            for a in list(x):
                e = x[a]
                if e == 0:
                    del x[a]
                    continue
                if a.op == 'app' and a.args[0] in ('np.sqrt', 'np.abs', 'np.sign') and abs(e) >= 2:
                    k = int(e / 2)
                    x[a] = e - 2 * k
                    if a.args[0] == 'np.sqrt':
                        extra = mul(extra, gpow(a.args[1][0], k))
                    elif a.args[0] == 'np.abs':
                        extra = mul(extra, gpow(a.args[1][0], 2 * k))
                    changed = True
                    break
                if a.op == 'app' and a.args[0] == 'np.sign':
                    b = ext.t_abs(a.args[1][0])
                    if x.get(b, 0) > 0 and e > 0:
                        x[b] -= 1
                        x[a] -= 1
                        extra = mul(extra, a.args[1][0])
                        changed = True
                        break
                    if e < 0:               # 1/sign = sign
                        x[a] = -e
                        changed = True
                        break
        mm = ONE
        for a, e in x.items():
            if e:
                mm = mul(mm, from_poly({((a, e),): Fraction(1)}))
        t = mul(mul(C(c), mm), extra)
        out = padd(out, to_poly(t))
    return out


def gsqrt(x):
    p = to_poly(x)
    if len(p) == 1:
        (m, c), = p.items()
        r, rest = ONE, {}
        n = Fraction(c)
        a, b = _m.isqrt(n.numerator) if n > 0 else 0, _m.isqrt(n.denominator)
        if n > 0 and a * a == n.numerator and b * b == n.denominator:
            r = C(Fraction(a, b))
            n = Fraction(1)
        for t, e in m:
            if e % 2 == 0:
                r = mul(r, gpow(gabs(t, None), e // 2))
            else:
                rest[t] = e
        y = C(n)
        for t, e in rest.items():
            y = mul(y, gpow(t, e))
        return mul(r, root(y)) if y is not ONE else r
    return root(x)


def gabs(x, facts):
    p = to_poly(x)
    if len(p) == 1:
        (m, c), = p.items()
        r = C(abs(c))
        for t, e in m:
            s = signof(t, facts) if facts is not None else (1 if t.op == 'app' and t.args[0] in ('np.sqrt', 'np.abs', 'np.exp') else None)
            r = mul(r, gpow(t if s == 1 else neg(t) if s == -1 else ONE if t.op == 'app' and t.args[0] == 'np.sign' else ext.t_abs(t), e))
        return r
    s = signof(x, facts) if facts is not None else None
    return x if s == 1 else neg(x) if s == -1 else ext.t_abs(x)


def gsign(x, facts):
    p = to_poly(x)
    if len(p) == 1:
        (m, c), = p.items()
        r = C(1 if c > 0 else -1)
        for t, e in m:
            if e % 2 == 0:
                continue
            s = signof(t, facts)
            r = mul(r, C(s) if s is not None else t if t.op == 'app' and t.args[0] == 'np.sign' else app('np.sign', t))
        return r
    s = signof(x, facts)
    if s is not None:
        return C(s)
    return app('np.sign', x) if lead_sign(x) > 0 else neg(app('np.sign', neg(x)))


def vanishes(t, facts):
    """True when t is identically zero (after clearing denominators), None when unknown"""
    for _ in range(8):
        t = generic(t, facts)
        if t is ZERO:
            return True
        p = to_poly(t)
        den = {}
        for m, c in p.items():
            for a, e in m:
                if e < 0:
                    den[a] = max(den.get(a, 0), -e)
        if not den:
            break
        a, e = next(iter(den.items()))
        out = {}
        for m, c in p.items():
            k = e
            mm = []
            for b, f in m:
                if b is a:
                    k += f
                else:
                    mm.append((b, f))
            x = mul(from_poly({tuple(mm): c}), power(a, C(k)) if k else ONE)
            out = padd(out, to_poly(x))
        t = from_poly(out)
    # split on the remaining conditions
    its = [x for x in walk(t) if x.op == 'ite']
    if its and len(its) < 8:
        c = its[0].args[0]
        f1, f2 = facts.fork() if hasattr(facts, 'fork') else facts.copy(), facts.fork() if hasattr(facts, 'fork') else facts.copy()
        f1.assume(c)
        f2.assume(not_(c))
        s1 = subst_ite(t, c, True)
        s2 = subst_ite(t, c, False)
        a, b = vanishes(s1, f1), vanishes(s2, f2)
        return True if a and b else None
    return None


def subst_ite(t, c, val):
    m = {x: (x.args[1] if val else x.args[2]) for x in walk(t) if x.op == 'ite' and x.args[0] is c}
    for _ in range(3):
        t = subst(t, m)
    return t

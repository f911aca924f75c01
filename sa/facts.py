"""Path facts: boolean atoms plus a convex-polyhedra domain (Fourier-Motzkin) over integer/real terms."""
from fractions import Fraction
from .terms import *
from .terms import _monokey

INT_KINDS = ('int', 'nat', 'bool')


def is_int(t):
    if t.op == 'const':
        return isinstance(t.args[0], int)
    if t.op == 'sym':
        return t.args[1] in INT_KINDS
    if t.op == 'len':
        return True
    if t.op == 'sub' and t.args[0].op == 'sym' and t.args[0].args[1] == 'rowmap':
        return True
    if t.op == 'poly':
        return all(c.denominator == 1 and all(e > 0 and is_int(a) for a, e in m) for m, c in t.args[0])
    if t.op == 'app':
        return t.args[0] in ('int', 'floordiv', 'ceil', 'floor')
    return False


def is_nat(t):
    if t.op == 'len':
        return True
    if t.op == 'sym':
        return t.args[1] == 'nat'
    return t.op == 'app' and t.args[0] in ('np.linalg.norm', 'np.abs')


class Facts:
    __slots__ = ('atoms', 'lin', 'eqc', 'log', 'cache', 'bad')

    def __init__(self, o=None):
        if o is None:
            self.atoms, self.lin, self.eqc, self.log = {}, [], {}, ()
            self.bad = False
        else:
            self.atoms, self.lin, self.eqc, self.log, self.bad = dict(o.atoms), list(o.lin), dict(o.eqc), o.log, o.bad
        self.cache = {}

    def copy(self):
        return Facts(self)

    # -- assumption -------------------------------------------------
    def assume(self, t, log=True):
        """returns False when contradictory"""
        self.cache = {}
        if log:
            self.log = self.log + (t,)
        if t is TRUE:
            return True
        if t is FALSE:
            self.bad = True
            return False
        d = self.decide(t)
        if d is True:
            return True
        if d is False:
            self.bad = True
            return False
        if t.op == 'and':
            ok = True
            for x in t.args:
                ok = self.assume(x, False) and ok
            return ok
        if t.op == 'not':
            a, v = t.args[0], False
        else:
            a, v = t, True
        self.atoms[a] = v
        self.cache = {}
        if a.op in ('lt0', 'le0', 'eq0'):
            p = to_poly(a.args[0])
            if a.op == 'eq0':
                if v:
                    self.lin.append((p, False))
                    self.lin.append(({m: -c for m, c in p.items()}, False))
            else:
                if v:
                    self._addlin(p, a.op == 'lt0')
                else:
                    self._addlin({m: -c for m, c in p.items()}, a.op == 'le0')
        if a.op in ('lt0', 'le0', 'eq0'):      # x <= y and x != y  =>  x < y
            for c, val in list(self.atoms.items()):
                if c.op == 'eq0' and val is False:
                    q = to_poly(c.args[0])
                    nq = {m: -k for m, k in q.items()}
                    if self.entails(q, False) and self.entails(nq, False):
                        self.bad = True
                        return False
                    if self.entails(q, False) and not self.entails(q, True):
                        self._addlin(q, True)
                    elif self.entails(nq, False) and not self.entails(nq, True):
                        self._addlin(nq, True)
        if a.op == 'eq' and v:
            x, y = a.args
            if y.op == 'const':
                self.eqc[x] = y
            elif x.op == 'const':
                self.eqc[y] = x
        # unit propagation over stored disjunctions
        for c, val in list(self.atoms.items()):
            if c.op == 'or' and val:
                left = [x for x in c.args if self.decide(x) is not False]
                if not left:
                    self.bad = True
                    return False
                if len(left) == 1 and self.decide(left[0]) is None:
                    del self.atoms[c]
                    if not self.assume(left[0], False):
                        return False
        return True

    def _addlin(self, p, strict):
        if strict and all(c.denominator == 1 and all(e > 0 and is_int(a) for a, e in m) for m, c in p.items()):
            p = padd(p, {(): Fraction(1)})
            strict = False
        self.lin.append((p, strict))

    def resolve(self):
        """add the consequences of recorded facts whose conditionals have become decided; False if inconsistent"""
        done = set()
        for _ in range(20):
            ch = False
            for a, v in list(self.atoms.items()):
                if a in done or a.op not in ('lt0', 'le0', 'eq0'):
                    continue
                m = {}
                for x in walk(a):
                    if x.op == 'ite':
                        d = self.decide(x.args[0])
                        if d is not None:
                            m[x] = x.args[1 if d else 2]
                if not m:
                    continue
                done.add(a)
                b = subst(a, m)
                if b is a or b in self.atoms:
                    continue
                ch = True
                if not self.assume(b if v else not_(b), False):
                    return False
            if not ch:
                return True
        return True

    # -- queries ----------------------------------------------------
    def decide(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t in self.cache:
            return self.cache[t]
        r = self._decide(t)
        self.cache[t] = r
        return r

    def _decide(self, t):
        if t in self.atoms:
            return self.atoms[t]
        op = t.op
        if op == 'not':
            d = self.decide(t.args[0])
            return None if d is None else not d
        if op == 'and':
            un = False
            for x in t.args:
                d = self.decide(x)
                if d is False:
                    return False
                un = un or d is None
            return None if un else True
        if op == 'or':
            un = False
            for x in t.args:
                d = self.decide(x)
                if d is True:
                    return True
                un = un or d is None
            return None if un else False
        if op == 'eq':
            x, y = t.args
            for a, b in ((x, y), (y, x)):
                if b.op == 'inf' and a.op in ('poly', 'app') and self.finite(a):
                    return False
            for a, b in ((x, y), (y, x)):
                if b.op == 'const' and a in self.eqc:
                    return self.eqc[a] is b
                if b.op == 'const' and a.op == 'app' and a.args[0] in ('.upper', '.lower') and a.args[1][0] in self.eqc and isinstance(self.eqc[a.args[1][0]].args[0], str):
                    v = self.eqc[a.args[1][0]].args[0]
                    return (v.upper() if a.args[0] == '.upper' else v.lower()) == b.args[0]
            return None
        if op == 'in':
            x, y = t.args
            if x in self.eqc and y.op in ('list', 'tuple', 'set'):
                return self.decide(or_(*[eq(self.eqc[x], e) for e in y.args]))
            return None
        if op == 'ite':
            d = self.decide(t.args[0])
            if d is not None:
                return self.decide(t.args[1 if d else 2])
            return None
        if op in ('lt0', 'le0', 'eq0'):
            p = to_poly(t.args[0])
            infm = ((mk('inf'), 1),)
            if infm in p and all(self.finite(a) for m in p if m != infm for a, e in m):
                if op == 'eq0':
                    return False
                return p[infm] < 0
            if op == 'eq0':
                if self.entails(p, False) and self.entails({m: -c for m, c in p.items()}, False):
                    return True
                if self.entails(p, True) or self.entails({m: -c for m, c in p.items()}, True):
                    return False
                return None
            strict = op == 'lt0'
            if self.entails(p, strict):
                return True
            if self.entails({m: -c for m, c in p.items()}, not strict):
                return False
            return None
        return None

    def entails(self, p, strict):
        """do the facts entail p < 0 (strict) or p <= 0 ?"""
        if all(c.denominator == 1 and all(e > 0 and is_int(a) for a, e in m) for m, c in p.items()):
            n = {m: -c for m, c in p.items()}
            if not strict:      # refute p >= 1
                goal = (padd(n, {(): Fraction(1)}), False)
            else:               # refute p >= 0
                goal = (n, False)
        else:
            goal = ({m: -c for m, c in p.items()}, not strict)
        extra = [({m: Fraction(-1)}, True) for m in goal[0] if (len(m) > 1 or m and m[0][1] != 1) and all(self.positive(a) for a, e in m)]
        return infeasible(self.lin + extra if extra else self.lin, goal)

    def positive(self, a):
        return self.entails({((a, 1),): Fraction(1)}, False) is False and self.entails({((a, 1),): Fraction(-1)}, True)

    def finite(self, t):
        if t.op == 'const' or is_int(t):
            return True
        if t.op == 'sym':
            return any(v is False and 'inf' in [a.op for m in to_poly(t2.args[0]) for a, e in m] and t in [a for m in to_poly(t2.args[0]) for a, e in m] for t2, v in self.atoms.items() if t2.op == 'eq0') or self.atoms.get(eq(t, mk('inf'))) is False
        if t.op == 'poly':
            return all(self.finite(a) for m, c in t.args[0] for a, e in m)
        if t.op == 'app' and t.args[0] in ('np.ceil', 'math.ceil', 'ceil', 'np.sqrt', 'np.abs', 'np.log'):
            return all(self.finite(a) for a in t.args[1])
        return False


def infeasible(cons, goal):
    vs = {m for m in goal[0] if m}
    todo = list(cons)
    sel = [goal]
    ch = True
    while ch:
        ch = False
        rest = []
        for c in todo:
            cv = {m for m in c[0] if m}
            if cv & vs:
                sel.append(c)
                vs |= cv
                ch = True
            else:
                rest.append(c)
        todo = rest
    for m in vs:
        if all(is_nat(a) for a, e in m):
            sel.append(({m: Fraction(-1)}, False))
    cur = []
    for p, s in sel:
        cur.append(({m: Fraction(c) for m, c in p.items() if c}, s))
    vars_ = sorted(vs, key=_monokey)
    for v in vars_:
        pos = [(p, s) for p, s in cur if p.get(v, 0) > 0]
        neg_ = [(p, s) for p, s in cur if p.get(v, 0) < 0]
        rest = [(p, s) for p, s in cur if not p.get(v, 0)]
        if len(pos) * len(neg_) > 400:
            return False
        for p, s in pos:
            for q, r in neg_:
                k, l = p[v], -q[v]
                c = {}
                for m, x in p.items():
                    c[m] = c.get(m, 0) + x * l
                for m, x in q.items():
                    c[m] = c.get(m, 0) + x * k
                c = {m: x for m, x in c.items() if x}
                rest.append((c, s or r))
        # normalise + dedupe, early contradiction
        seen = {}
        for p, s in rest:
            if not [m for m in p if m]:
                k = p.get((), 0)
                if k > 0 or (k == 0 and s):
                    return True
                continue
            mx = max(abs(x) for m, x in p.items() if m)
            key = tuple(sorted(((m, x / mx) for m, x in p.items()), key=lambda mc: _monokey(mc[0])))
            seen[key] = seen.get(key, False) or s
        cur = [(dict(k), s) for k, s in seen.items()]
    for p, s in cur:
        k = p.get((), 0)
        if not [m for m in p if m] and (k > 0 or (k == 0 and s)):
            return True
    return False

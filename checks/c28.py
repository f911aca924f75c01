"""C28: categorical and multi-set polytopes infer soundly."""
import itertools
from .machine import *
from .machine import run_batch, finish, holds
from sa.terms import *
from sa.drive import *
from sa.rows import at
from fractions import Fraction

EXPLAIN = ('Every field of the polytope becomes a symbol and update, predict and is_valid are abstractly executed once: this gives the transfer function of one labeled point, of the end of a batch, and of the answer for one point, as set terms. '
           'They are evaluated, starting at the constructor state, on every abstract state reachable with three categories or items in batches of one and two points, and compared with the sets of positive and negative items implied by the points seen.')
ASSUME = ['the one-hot and multi-set encodings are 0/1 matrices', 'sets of more than three items behave like sets of three: the terms use only union, difference, intersection, emptiness and singleton tests']
FLOOR = 6
R_ANS = 'answers follow from the labeled points'
R_VALID = 'the polytope becomes invalid exactly on a contradiction'
R_INV = 'an invalid polytope answers 0.5 and refuses updates'
M = 3
X = sym('X', 'arr2')
Y = sym('y', 'arr1')
K = sym('row', 'nat')


def items(row):
    return frozenset(i for i, b in enumerate(row) if b)


def subsets(n):
    return [frozenset(c) for r in range(n + 1) for c in itertools.combinations(range(n), r)]


class Categorical:
    """points are categories; seen positive and negative ones"""
    name = 'CategoricalPolytope'
    start = (frozenset(), frozenset())
    points = [tuple(int(i == j) for j in range(M)) for i in range(M)]

    @staticmethod
    def step(k, row, label):
        p, n = k
        c = items(row)
        return (p | c, n) if label else (p, n | c)

    @staticmethod
    def valid(k):
        return not k[0] & k[1]

    @staticmethod
    def answer(k, row):
        c = items(row)
        return {1} if c <= k[0] else {0} if c <= k[1] else {Fraction(1, 2)}


class MultiSet:
    """points are sets of items; positive when all its items are positive.  Knowledge: the item sets that explain all points"""
    name = 'MultiSetPolytope'
    start = (frozenset(), frozenset(subsets(M)))
    points = [tuple(int(i in s) for i in range(M)) for s in subsets(M)]

    @staticmethod
    def step(k, row, label):
        c = items(row)
        seen, cons = k
        return (seen | c if label else seen), frozenset(s for s in cons if (c <= s) == bool(label))

    @staticmethod
    def valid(k):
        return bool(k[1])

    @staticmethod
    def answer(k, row):
        c = items(row)
        seen, cons = k
        never = frozenset(i for i in range(M) if not any(i in s for s in cons))
        if c & never:
            return {0}
        if not c:
            return {1, Fraction(1, 2)}
        return {1} if c <= seen else {Fraction(1, 2)}


def matrix_env(rows):
    n = len(rows)
    best = tuple(max(range(M), key=lambda j: r[j]) for r in rows)
    e = {X: tuple(rows), length(X): n, length(Y): n}
    for t in (app('np.argmax', X, axis=ONE), app('np.argmax', X, C(1))):
        e[t] = best
        e[length(t)] = n
    for t in (app('attr', X),):
        pass
    return e


def shape_env(e, n):
    sh = mk('attr', X, 'shape')
    e[sh] = (n, M)
    e[mk('sub', sh, ZERO)] = n
    e[mk('sub', sh, ONE)] = M
    return e


def bind_rows(rows, labels):
    e = shape_env(matrix_env(rows), len(rows))
    e[Y] = tuple(labels)
    return e


class Judge:
    def __init__(self, rep, ip, spec):
        self.rep, self.ip, self.spec = rep, ip, spec

    def run(self):
        st = self.ip.start()
        outs = [(o, s) for o, s in new(self.ip, st, self.spec.name) if not isinstance(o, Exc)]
        if len(outs) != 1:
            self.rep.unk(R_ANS, self.spec.name, '%d construction outcomes' % len(outs))
            return
        o, s = outs[0]
        self.m = Machine(self.ip, s, o)
        st = self.m.st
        xr, yr = st.new('arr', val=X, tag='param:X'), st.new('arr', val=Y, tag='param:y')
        self.upd = self.m.extract('update', xr, yr, st=st)
        sp = st.fork()
        sp.facts.assume(lt(K, length(X)), log=False)
        n0 = len(sp.facts.log)
        self.pred = [(r, s2, n0) for r, s2 in meth(self.ip, sp, o, 'predict', xr)]
        self.predrow = [(None if isinstance(r, Exc) else at(s2.deep(r), K, s2), s2, n) for r, s2, n in self.pred]
        self.val = [(r, s2) for r, s2 in self.ip.getattr(o, 'is_valid', st.fork())]
        self.explore()

    def is_valid(self, state):
        e = self.m.env(state)
        hit = [r if isinstance(r, Exc) else evalv(s.deep(r), e) for r, s in self.val if holds(s.facts.log, e)]
        if len(hit) != 1 or isinstance(hit[0], Exc):
            raise Unknown('site 11')
        return truth(hit[0])

    def answer(self, state, row):
        rows = [row]
        e = bind_rows(rows, (0,))
        del e[Y]
        e.update(self.m.env(state))
        e[K] = 0
        e[mk('sub', X, K)] = row
        hit = [t for t, s, n in self.predrow if holds(s.facts.log[n:], e)]
        if len(hit) != 1 or hit[0] is None:
            raise Unknown('site 12')
        return evalv(hit[0], e)

    def atoms(self, rows, labels):
        return lambda i, k: {mk('sub', X, k): rows[i], mk('sub', Y, k): labels[i]}

    def update(self, state, rows, labels):
        return run_batch(self.upd, state, bind_rows(rows, labels), self.atoms(rows, labels), len(rows))

    def explore(self):
        rep, spec = self.rep, self.spec
        seen = {}
        bad, counts = {}, {R_ANS: 0, R_VALID: 0, R_INV: 0}
        freeze = lambda s: tuple(sorted(s.items()))
        frontier = [(dict(self.m.init), spec.start, ())]
        seen[(freeze(self.m.init), spec.start)] = 1

        def fail(rule, hist, msg):
            bad.setdefault(rule, (hist, msg))

        where = self.ip.find_class(spec.name).where if hasattr(self.ip.find_class(spec.name), 'where') else ''
        undecided = None
        try:
            last = 4 if self.rep.thorough else 3
            for depth in range(last + 1):
                nxt = []
                for state, know, hist in frontier:
                    try:
                        ok = self.is_valid(state)
                    except Unknown as e:
                        undecided = undecided or 'a transfer function cannot be evaluated ' + str(e)
                        continue
                    counts[R_VALID] += 1
                    if ok != spec.valid(know):
                        fail(R_VALID, hist, 'is_valid is %s but the points %s' % (ok, 'contradict each other' if ok else 'are consistent'))
                        continue
                    for row in spec.points:
                        try:
                            a = self.answer(state, row)
                        except Unknown as e:
                            undecided = undecided or 'a transfer function cannot be evaluated ' + str(e)
                            continue
                        want = spec.answer(know, row) if ok else {Fraction(1, 2)}
                        counts[R_ANS if ok else R_INV] += 1
                        if a not in want:
                            fail(R_ANS if ok else R_INV, hist, 'point %s is answered %s instead of %s' % (row, a, ' or '.join(str(w) for w in want)))
                    batches = [((r,), (l,)) for r in spec.points for l in (0, 1)] if depth < last else []
                    if depth < (2 if self.rep.thorough else 1):
                        batches += [((r, q), (l, j)) for r in spec.points for q in spec.points for l in (0, 1) for j in (0, 1)]
                    for rows, labels in batches:
                        try:
                            out, new_ = self.update(state, rows, labels)
                        except Unknown as e:
                            undecided = undecided or 'a transfer function cannot be evaluated ' + str(e)
                            continue
                        h = hist + ((rows, labels),)
                        if not ok:
                            counts[R_INV] += 1
                            if out != 'raises' or new_ != state:
                                fail(R_INV, h, 'an update of an invalid polytope does not raise')
                            continue
                        k2 = know
                        for r, l in zip(rows, labels):
                            k2 = spec.step(k2, r, l)
                        counts[R_VALID] += 1
                        if out == 'raises':
                            fail(R_VALID, h, 'update raises')
                            continue
                        if not isinstance(out, bool):
                            undecided = undecided or 'the outcome of an update is not a truth value'
                            continue
                        if out != spec.valid(k2):
                            fail(R_VALID, h, 'update returns %s but the points %s' % (out, 'contradict each other' if out else 'are consistent'))
                        key = (freeze(new_), k2)
                        if key not in seen:
                            seen[key] = 1
                            nxt.append((new_, k2, h))
                frontier = nxt
        except Unknown as e:
            undecided = 'a transfer function cannot be evaluated ' + str(e)
        rep.stats['abstract states of ' + spec.name] = len(seen)
        for rule in (R_ANS, R_VALID, R_INV):
            what = spec.name
            if rule in bad:
                hist, msg = bad[rule]
                rep.bad(rule, what, '%s, after the labeled points %s' % (msg, '; '.join('%s=%s' % (list(map(list, r)), list(l)) for r, l in hist) or 'none'), where)
            elif undecided:
                rep.unk(rule, what, undecided)
            else:
                rep.ok(rule, '%s (%d cases)' % (what, counts[rule]))


def run(rep):
    ip = load()
    for spec in (Categorical, MultiSet):
        rep.guard(R_ANS, spec.name, lambda: Judge(rep, ip, spec).run())
    rep.stats['classes'] = 2

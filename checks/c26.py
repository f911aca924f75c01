"""C26: the selected point minimizes the rank."""
from .comp import *
from . import c06, c08
from .c06 import DATA, SUB, rank_hook
from sa.evalv import evalv, Env, Unknown
from sa.evaln import evaln, arr, N, matmul, transpose, reduce, take
from sa.interp import Bound
import math
from itertools import product, permutations
import re
from fractions import Fraction as Fr

EXPLAIN = ('The default selection is abstractly executed over an arbitrary pool with an arbitrary rank vector. The set of rows it may return is read off the normal form of its result and compared, for every rank vector of up to four '
           'candidates over three levels, with the set of rows of minimal rank: every minimizer must be possible, nothing else may be. rank() of every learner is abstractly executed in an arbitrary fitted state and '
           'expressed in terms of its own predicted probabilities, decision values or biased labels; the candidates it ranks lowest must be exactly those its strategy prefers, for all pairs and triples of witness values.')
ASSUME = ['np.random.choice picks any of its elements', 'decision values and probabilities are finite', 'exact arithmetic (no rounding)', 'ranks supplied by a user-defined connector or loss are as documented (C29)']
FLOOR = 12
R_SEL, R_TIE, R_POOL, R_PREF = ('the selected row has minimal rank', 'every row of minimal rank may be selected', 'the ranks are those of the rows selected from', 'the preferred points rank lowest')


def vectors(levels, n):
    return product([Fr(x) for x in levels], repeat=n)


# ------------------------------------------------------------------ selection
def choices(t, env):
    """possible values of an index term that contains random draws"""
    draws = [x for x in walk(t) if x.op == 'app' and isinstance(x.args[0], str) and (x.args[0].startswith('np.random.') or x.args[0].startswith('random.')) and x not in env]
    if not draws:
        return {evalv(t, env)}
    d = draws[-1]
    for x in draws:   # innermost first
        if not any(y is not x and y in set(walk(x)) for y in draws):
            d = x
    f, a = d.args[0].split('.')[-1], d.args[1]
    kw = {k: v for k, v in d.args[2] if k != '#'}
    if f == 'choice' and len(a) == 1 and not kw:
        pool = evalv(a[0], env)
        if not isinstance(pool, tuple):
            pool = tuple(range(int(pool)))
        if not pool:
            return set()
    elif f == 'randint' and len(a) in (1, 2) and not kw:
        lo, hi = (0, evalv(a[0], env)) if len(a) == 1 else (evalv(a[0], env), evalv(a[1], env))
        pool = tuple(range(int(lo), int(hi)))
    elif f == 'permutation' and len(a) == 1:
        pool = evalv(a[0], env)
        pool = list(permutations(pool if isinstance(pool, tuple) else range(int(pool))))
    else:
        raise Unknown('draw ' + show(d)[:80])
    out = set()
    for x in pool:
        e = dict(env)
        e[d] = x
        out |= choices(t, e)
    return out


def plain(t, R, n):
    """method calls of the rank vector as functions; its length"""
    def f(x):
        if x.op == 'app' and isinstance(x.args[0], str) and x.args[0].startswith('.') and x.args[1] and x.args[0][1:] in ('min', 'max', 'sum', 'argmin', 'argmax', 'argsort', 'astype', 'nonzero', 'flatten', 'ravel', 'copy'):
            return mk('app', {'min': 'np.min', 'max': 'np.max', 'sum': 'np.sum'}.get(x.args[0][1:], x.args[0][1:]), x.args[1], tuple(k for k in x.args[2] if k[0] != '@'))
        return x
    return deep(t, f)


def deep(t, f):
    memo = {}

    def go(x):
        if x not in memo:
            memo[x] = f(rebuild(x, go))
        return memo[x]
    return go(t)


def select(rep, ip, name, c, o, s):
    what = '%s.next_points_to_label' % name
    where = '%s._select_next' % (c.find('_select_next')[1] or c).name
    ip.call_hook, ip.steps = rank_hook, 0
    try:
        outs = list(meth(ip, s, o, 'next_points_to_label', DATA, SUB))
    finally:
        ip.call_hook = None
    n = 0
    for v, s1 in outs:
        if isinstance(v, Exc):
            continue
        t = s1.deep(v)
        ranks = {x for x in walk(t) if x.op == 'app' and x.args[0] == 'ranks'}
        if not ranks and not any(x.op == 'app' and x.args[0] == 'ranks' for c_ in s1.facts.log for x in walk(c_)):
            continue      # delegates or selects without ranks
        n += 1
        tag = '%s, path %d' % (what, n)
        if t.op != 'sub' or len(ranks) != 1:
            rep.unk(R_SEL, tag, 'selection not understood: ' + show(t)[:150])
            continue
        pool, idx = t.args
        R, = ranks
        arg = R.args[1][0]
        if pool.op != 'app' and pool.op != 'oattr' or any(x is R for x in walk(pool)):
            rep.unk(R_POOL, tag, 'selected from ' + show(pool)[:120])
        elif same_rows(arg, pool):
            rep.ok(R_POOL, tag)
        else:
            rep.expect(False if other(arg, pool) or truncated(arg, pool) else None, R_POOL, tag, 'a row of %s is selected by the ranks of %s' % (show(pool)[:80], show(arg)[:80]), where)
        wrong = missing = None
        try:
            for k in (1, 2, 3, 4):
                for vec in vectors((0, 1, 2), k):
                    env = {R: vec, length(R): k, length(arg): k, length(pool): k}
                    env = {a: b for a, b in env.items() if not is_const(a)}
                    if not all(holds(c_, R, env) for c_ in s1.facts.log if R in set(walk(c_))):
                        continue
                    got = {int(x) % k if not isinstance(x, bool) else x for x in choices(plain(idx, R, k), {plain(a, R, k): b for a, b in env.items()})}
                    want = {i for i in range(k) if vec[i] == min(vec)}
                    if got - want and wrong is None:
                        wrong = (vec, got)
                    if want - got and missing is None:
                        missing = (vec, got)
        except Unknown as e:
            rep.unk(R_SEL, tag, 'index not understood: ' + (str(e) or show(idx))[:150])
            continue
        rep.expect(wrong is None, R_SEL, tag, wrong and 'for ranks %s, row %s may be selected' % (nice(wrong[0]), sorted(wrong[1])), where)
        rep.expect(missing is None, R_TIE, tag, missing and 'for ranks %s, only row %s can be selected' % (nice(missing[0]), sorted(missing[1])), where)
    return n


def nice(v):
    return '[%s]' % ', '.join(str(x) for x in v)


def holds(c, R, env):
    try:
        return bool(evalv(plain(c, R, 0), {plain(a, R, 0): b for a, b in env.items()}))
    except Unknown:
        return True


def same_rows(arg, pool):
    return arg.op == 'oattr' and arg.args[1] == 'data' and arg.args[0] is pool or arg.op == 'oattr' and C('data') in arg.args and arg.args[0] is pool


def truncated(arg, pool):
    """the ranks of a leading part of the pool: the other candidates are never considered"""
    return arg.op == 'sub' and same_rows(arg.args[0], pool) and arg.args[1].op == 'slice' and arg.args[1].args[0] in (NONE, ZERO) and is_const(arg.args[1].args[1]) and arg.args[1].args[1] is not NONE


def other(arg, pool):
    """both are plain sampled pools, but different ones"""
    return arg.op == 'oattr' and arg.args[0].op in ('app', 'oattr') and arg.args[0] is not pool


# ------------------------------------------------------------------ preference of each learner
P_LEVELS = (0, Fr(1, 10), Fr(3, 10), Fr(1, 2), Fr(3, 5), Fr(4, 5), 1)
D_LEVELS = (-3, -1, Fr(-1, 2), 0, Fr(1, 3), 1, 2)


def compare(rank, atoms, levels, score, n=2):
    """(agree?, witness): do the lowest ranks select the candidates with the lowest score?"""
    for combo in product(product(levels, repeat=len(atoms)), repeat=n):
        cols = list(zip(*combo))
        env = {a: tuple(Fr(x) for x in col) for a, col in zip(atoms, cols)}
        r = evalv(rank, env)
        if not isinstance(r, tuple):
            r = (r,) * n
        if len(r) != n or any(isinstance(x, tuple) for x in r):
            raise Unknown('shape')
        s = [score(*x) for x in combo]
        if {i for i in range(n) if r[i] == min(r)} != {i for i in range(n) if s[i] == min(s)}:
            return False, (combo, r)
    return True, None


def shape(t):
    """the symbols of a term, whatever their order and the numbers of its random samples"""
    return t.op, t.args[0] if t.op == 'app' else None, tuple(sorted(re.findall(r'[A-Za-z_.]+', repr(t))))


def prefer(rep, ip, c, o, s, label=''):
    X = A(s, 'X')
    Xt = s.deep(X)
    what = '%s.rank%s' % (c.name, label)
    where = '%s.rank' % (c.find('rank')[1] or c).name
    ip.steps = 0
    outs = [(v, s1) for v, s1 in meth(ip, s.fork(), o, 'rank', X)]
    good = [(s1.deep(v), s1) for v, s1 in outs if not isinstance(v, Exc)]
    if not good:
        return 0
    probas = []
    if any(x is not None for x in (c.find('predict_proba')[0],)):
        try:
            ip.steps = 0
            probas = [s1.deep(v) for v, s1 in meth(ip, s.fork(), o, 'predict_proba', X) if not isinstance(v, Exc)]
        except Undecided:
            probas = []
    m = 0
    for k, (t, s1) in enumerate(good):
        tag = what + (', path %d' % (k + 1) if len(good) > 1 else '')
        t0 = t
        if t.op == 'app' and t.args[0] == '.rank' and Xt in t.args[1]:
            m += 1
            rep.ok(R_PREF, tag, 'the rank of the wrapped learner')
            continue
        inside = list(walk(t))
        if any(x.op == 'app' and x.args[0] == 'np.empty' for x in inside) and not any(x is y for x in (c,) for y in [k for k in classes(ip) if k.name.startswith('Subspa')]):
            continue      # combines subspaces: decided by C29
        keys = {shape(p) for p in probas}
        ps = [p for p in probas if p in set(inside)] or [x for x in inside if shape(x) in keys]      # (random samples are drawn anew by each call)
        ds = sorted({x for x in inside if x.op == 'app' and isinstance(x.args[0], str) and x.args[0].endswith('.decision_function') and Xt in x.args[1]}, key=show)
        qs = sorted({x for x in inside if x.op == 'app' and x.args[0] == '.predict_proba' and Xt in x.args[1]}, key=show)
        ls = sorted({x for x in inside if x.op == 'app' and x.args[0] == '.predict' and Xt in x.args[1]}, key=show)
        try:
            if t.op == 'app' and t.args[0] in ('np.full', 'np.zeros', 'np.ones') or is_const(t):
                continue
            ps = sorted(ps, key=lambda p: -len(show(p)))[:1]
            if ps and is_const(ps[0]):
                ps = []
            if ps:
                okay, w = compare(t, [ps[0]], P_LEVELS, lambda p: abs(p - Fr(1, 2)))
                msg = 'predicted probabilities'
            elif len(qs) == 1:
                okay, w = compare(t, qs, P_LEVELS, lambda p: abs(p - Fr(1, 2)))
                msg = 'predicted probabilities'
            elif len(ds) == 1:
                okay, w = compare(t, ds, D_LEVELS, abs)
                msg = 'decision values'
            elif len(ls) == 2:
                okay, w = compare(t, ls, (0, 1), lambda a, b: int(a == b))
                msg = 'biased labels'
            else:
                rep.unk(R_PREF, tag, 'score not recognised: ' + show(t0)[:150])
                continue
        except Unknown as e:
            rep.unk(R_PREF, tag, 'rank not understood: ' + (str(e) or show(t0))[:150])
            continue
        m += 1
        rep.expect(okay, R_PREF, tag, w and 'for %s %s the ranks are %s' % (msg, nice([x[0] if len(x) == 1 else '(%s)' % ', '.join(map(str, x)) for x in w[0]]), nice(w[1])), where)
    return m


def run(rep):
    ip = load()
    done = []

    def sel():
        for name, c, o, s in c06.learners(ip):
            rep.guard(R_SEL, '%s.next_points_to_label' % name, lambda: done.append(select(rep, ip, name, c, o, s)))
    rep.guard(R_SEL, 'selection', sel)
    if not any(done):
        rep.unk(R_SEL, 'next_points_to_label', 'no selection by rank found')
    rep.guard(R_PREF, 'RatioMargin.rank', lambda: ratio(rep, ip))
    rep.guard(R_PREF, 'EntropyReductionLearner.rank', lambda: entropy(rep, ip))
    base = cls(ip, 'ActiveLearner')
    for c in classes(ip):
        if not c.subclass_of(base) or c.name in SKIP:
            continue

        def go(c=c):
            st = ip.start()
            for lab, rc in c08.recipes(ip, c):
                a, k = rc(st)
                for o, s in normal(new(ip, st, c, *a, **k))[:1]:
                    used = s.fork()
                    c08.havoc(ip, used, o)
                    prefer(rep, ip, c, o, used, ' (%s)' % lab if lab else '')
        rep.guard(R_PREF, '%s.rank' % c.name, go)


# ------------------------------------------------------------------ ratio margin: the two margins closest to each other
def fit_hook(fv, args, kw, s, n=None):
    if fv.op == 'oattr' and fv.args[1] == 'fit':
        s.event('fitting', s.deep(fv.args[0]), tuple(s.deep(a) for a in args) + tuple(s.deep(v) for k, v in sorted(kw.items())), '', '')
    return None


def ratio(rep, ip):
    c = cls(ip, 'RatioMargin')
    st = ip.start()
    a, k = c08.recipes(ip, c)[0][1](st)
    for o, s in normal(new(ip, st, c, *a, **k)):
        Xt, yt = A(s, 'Xt'), A(s, 'yt', 'arr1')
        for r, s in normal(meth(ip, s, o, 'fit', Xt, yt)):
            X = A(s, 'X')
            e0 = len(s.events)
            ip.call_hook, ip.steps = fit_hook, 0
            try:
                outs = meth(ip, s.fork(), o, 'rank', X)
            finally:
                ip.call_hook = None
            for v, s1 in outs:
                if isinstance(v, Exc):
                    continue
                ratio_fits(rep, s1, s1.events[e0:], s1.deep(X), s1.deep(Xt), s1.deep(yt))
                t = s1.deep(v)
                ms = sorted({x for x in walk(t) if x.op == 'app' and x.args[0] in ('.dot', 'matmul', 'np.dot', '.sum', 'np.sum') and any(y.op == 'app' and y.args[0] == '.decision_function' for y in walk(x))}, key=lambda x: len(show(x)))
                ms = [x for x in ms if not any(y is not x and x in set(walk(y)) for y in ms)]
                if len(ms) != 2:
                    rep.unk(R_PREF, 'RatioMargin.rank', '%d margins recognised' % len(ms))
                    continue
                try:
                    vals = []
                    for m0, m1 in product((Fr(1, 2), Fr(1), Fr(3, 2), Fr(2), Fr(5)), repeat=2):
                        r = evalv(t, {ms[0]: m0, ms[1]: m1, length(s1.deep(X)): 1})
                        vals.append(((m0, m1), r[0] if isinstance(r, tuple) else r, -min(m0 / m1, m1 / m0)))
                except Unknown as e:
                    rep.unk(R_PREF, 'RatioMargin.rank', 'rank not understood: ' + (str(e) or show(t))[:150])
                    continue
                bad = next(((x, y) for x in vals for y in vals if (x[1] < y[1]) != (x[2] < y[2])), None)
                rep.expect(bad is None, R_PREF, 'RatioMargin.rank, order', bad and 'margins (%s, %s) rank %s, margins (%s, %s) rank %s' % (*bad[0][0], bad[0][1], *bad[1][0], bad[1][1]), 'RatioMargin.rank')


def ratio_fits(rep, s, events, X, Xt, yt):
    n = 0
    for e in events:
        if e[0] != 'loop' or e[2] is not length(X):
            continue
        for pc, ev in e[3]:
            ev = [x for x in ev if x[0] == 'fitting']
            if not ev:
                continue
            n += 1
            labels, problem = [], None
            for x in ev:
                if len(x[2]) >= 2 and not any(X in set(walk(y)) for y in x[2]):
                    rep.bad(R_PREF, 'RatioMargin.rank, training set %d' % n, 'the candidate is not part of the training set', 'RatioMargin.rank')
                    break
                if len(x[2]) < 2 or any(y.op != 'store' for y in x[2][:2]):
                    problem = 'training set not understood: ' + ' and '.join(show(y) for y in x[2])[:150]
                    break
                (bx, ix, vx), (by, iy, vy) = x[2][0].args, x[2][1].args
                if ix is not iy:
                    if num(ix) is not None and num(iy) is not None:
                        rep.bad(R_PREF, 'RatioMargin.rank, training set %d' % n, 'the candidate is stored in row %s, its label in row %s' % (show(ix), show(iy)), 'RatioMargin.rank')
                        break
                    problem = 'point and label stored at different rows'
                    break
                if vx is not sub(X, e[1]):
                    rep.expect(False if X not in set(walk(vx)) else None, R_PREF, 'RatioMargin.rank, training set %d' % n, 'the candidate is not part of the training set: its row holds %s' % show(vx)[:80], 'RatioMargin.rank')
                labels.append(vy)
            if len(labels) < len(ev) and not problem:
                continue
            if problem:
                rep.unk(R_PREF, 'RatioMargin.rank, training set %d' % n, problem)
            elif len(labels) >= 2 and len(set(labels)) == 1:
                rep.bad(R_PREF, 'RatioMargin.rank, training set %d' % n, 'both models are trained with label %s for the candidate' % show(labels[0])[:60], 'RatioMargin.rank')
            else:
                rep.expect(len(labels) == 2 and all(classlabel(x, j) for j, x in zip((0, 1), sorted(labels, key=lambda x: show(x)[-4:]))) or None, R_PREF, 'RatioMargin.rank, training set %d' % n, 'labels %s' % [show(x)[:50] for x in labels])
    if not n:
        rep.unk(R_PREF, 'RatioMargin.rank, training sets', 'no training per candidate found')


def classlabel(x, j):
    return x is C(j) or x.op == 'sub' and x.args[1] is C(j) and x.args[0].op == 'oattr' and 'classes_' in x.args[0].args


# ------------------------------------------------------------------ entropy reduction: the expected entropy after labeling
def entropy(rep, ip):
    c = cls(ip, 'EntropyReductionLearner')
    st = ip.start()
    a, k = c08.recipes(ip, c)[0][1](st)
    cur = []

    def hook(fv, args, kw, s, n=None):
        f = ob(fv)
        if isinstance(f, Bound) and f.name in ('predict_all', 'predict_proba') and f.self_ is not cur[0]:
            return [(s.new('arr', val=app({'predict_all': 'H', 'predict_proba': 'P'}[f.name], *[s.deep(x) for x in args[-1:]])), s)]
        return None
    for o, s in normal(new(ip, st, c, *a, **k)):
        c08.havoc(ip, s, o)
        cur[:] = [o]
        ip.call_hook, ip.steps = hook, 0
        X = A(s, 'X')
        try:
            outs = meth(ip, s, o, 'rank', X)
        finally:
            ip.call_hook = None
        outs = [(s1.deep(v), s1) for v, s1 in outs if not isinstance(v, Exc)]
        Xt = s.deep(X)
        samples = {x.args[1][0] for t, s1 in outs for x in walk(t) if x.op == 'app' and x.args[0] == 'H' and Xt not in set(walk(x))}
        if len(samples) != 1:
            rep.unk(R_PREF, 'EntropyReductionLearner.rank', '%d reference samples recognised' % len(samples))
            return
        S, = samples
        bad = bad2 = None
        n = 0
        try:
            for cols in product((3, 5, 6, 12, 20, 24, 7, 11, 28, 25, 1, 30), repeat=2):
                for ref in product((3, 5, 12, 21), (6, 1, 26)):
                    Hx = transpose(arr([[(x >> b) & 1 for b in range(5)] for x in cols + (0,)]))
                    Hs = transpose(arr([[(x >> b) & 1 for b in range(5)] for x in ref]))
                    env = {Xt: arr([[0.0], [1.0], [2.0]]), S: arr([[10.0], [11.0]])}
                    lookup = lambda x: transpose(arr([[float(v) for v in (transpose(Hs).rows()[int(i) - 10] if i >= 10 else transpose(Hx).rows()[int(i)])] for i in arr(x).data])) if arr(x).data else N((5, 0), [])
                    apps = {'H': lookup, 'P': lambda x: reduce(lambda v: sum(v) / len(v), lookup(x), 0)}
                    r = []
                    for t, s1 in outs:
                        if all(truth(evaln(f, env, apps)) for f in s1.facts.log if Xt in set(walk(f))):
                            r.append(evaln(t, env, apps))
                    if len(r) != 1 or arr(r[0]).shape != (3,):
                        raise Unknown('%d outcomes' % len(r))
                    r = r[0].data
                    cut = [abs(sum(row) / 5 - 0.5) for row in transpose(Hx).rows()]
                    best = [i for i in range(3) if cut[i] < min(cut) + 1e-9]
                    n += 1
                    lo = min(r)
                    if any(r[i] < lo + 1e-9 for i in range(3) if i not in best):
                        bad = bad or (Hx, r)
                        continue
                    want = [expected([row[i] for row in Hx.rows()], Hs.rows()) for i in best]
                    for i, x in zip(best, want):
                        for j, y in zip(best, want):
                            if abs(x - y) > 1e-9 and (x < y) != (r[i] < r[j] - 1e-12) or abs(x - y) < 1e-9 < abs(r[i] - r[j]):
                                bad2 = bad2 or (Hx, Hs, r, want)
        except Unknown as e:
            rep.unk(R_PREF, 'EntropyReductionLearner.rank', 'rank not understood: ' + str(e)[:200])
            return
        where = 'EntropyReductionLearner.rank'
        rep.expect(bad is None, R_PREF, 'EntropyReductionLearner.rank, points cutting the version space best', bad and 'for predictions %s the ranks are %s' % bad, where)
        rep.expect(bad2 is None, R_PREF, 'EntropyReductionLearner.rank, expected entropy', bad2 and 'for predictions %s (sample %s) the ranks are %s, the expected entropies %s' % bad2, where)
        rep.stats['entropy witnesses'] = n
        return


def truth(x):
    if isinstance(x, N):
        raise Unknown('condition')
    return bool(x)


def expected(h, hs):
    """expected average entropy of the sample after learning the label h of one candidate"""
    tot = 0
    for lab in (0, 1):
        rows = [r for x, r in zip(h, hs) if x == lab]
        if not rows:
            return math.nan
        p = [sum(c) / len(rows) for c in zip(*rows)]
        e = sum(-sum(q * math.log(q) for q in (x, 1 - x) if q > 0) for x in p) / len(p)
        tot += e * len(rows) / len(h)
    return tot


SKIP = ('RatioMargin', 'EntropyReductionLearner', 'SubspaceLearner', 'SubspatialVersionSpace', 'SubspatialSimpleMargin')

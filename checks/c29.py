"""C29: subspace connectors compute the documented function, point by point over all subspaces."""
import itertools
from sa.drive import *
from sa.rows import at
from sa.evalt import differ
from .c17 import cases

EXPLAIN = ('SubspaceLearner / SubspatialVersionSpace / SubspatialSimpleMargin are abstractly interpreted with opaque per-subspace learners for 1, 2 and 3 subspaces (overlapping, unordered) and an arbitrary batch; the k-th '
           'label / probability / rank is a term in the per-subspace values of point k, compared in normal form with the documented function. Different normal forms are only reported when they disagree on some assignment.')
ASSUME = ['numbers of subspaces beyond 3 behave as 3', 'partial labels are 0 or 1, partial probabilities lie in [0, 1]']
FLOOR = 60
S = 'aideme.active_learning.version_space.subspace'
RULE = 'connector computes the documented function'
PARTS = [[[0, 2]], [[1], [0]], [[0, 2], [1], [2, 1]]]


def prod(xs):
    r = ONE
    for x in xs:
        r = mul(r, x)
    return r


def total(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def sq(x):
    return mul(x, x)


def nary(f, xs):
    xs = sorted(set(xs), key=lambda t: t.id)
    return xs[0] if len(xs) == 1 else mk('app', f, tuple(xs), ())


HALF = C(0.5)
LABEL = {'AND': lambda ls: nary('min', ls), 'OR': lambda ls: nary('max', ls)}
PROBA = {'MIN': lambda ps: nary('min', ps), 'MAX': lambda ps: nary('max', ps), 'PROD': prod}
RANK = {'SUM': total, 'SQUARE': lambda rs: total(sq(r) for r in rs)}
LOSS = {
    'GREEDY': lambda ps: prod(sub_(ONE, mul(C(2), mul(p, sub_(ONE, p)))) for p in ps),
    'SQUARE': lambda ps: total(sq(sub_(p, HALF)) for p in ps),
    'SQUARED': lambda ps: total(sq(sub_(p, HALF)) for p in ps),
    'PRODUCT': lambda ps: app('np.abs', sub_(prod(ps), HALF)),
}
POSITIVE = lambda p: ite(lt(HALF, p), ONE, ZERO)


def partition(st, part):
    return st.new('list', val=mk('list', *[st.new('list', val=mk('list', *[C(i) for i in g])) for g in part]))


def opaque_learners(st, o):
    """replace the per-subspace learners by opaque ones (their methods become uninterpreted functions)"""
    f = st.obj(o).fields
    lists = [n for n, v in f.items() if v.op == 'ref' and st.obj(v).kind == 'list' and st.obj(v).val.op == 'list' and st.obj(v).val.args
             and all(is_learner(x, st) for x in st.obj(v).val.args)]
    if len(lists) != 1:
        raise Undecided('cannot identify the list of per-subspace learners (%s)' % lists)
    r = f[lists[0]]
    k = len(st.obj(r).val.args)
    ls = [sym('learner%d' % i, 'obj') for i in range(k)]
    st.setval(r, mk('list', *ls))
    return ls


def is_learner(x, st):
    if x.op == 'ref':
        c = st.obj(x).cls
        return c is not None and c.find('predict')[0] is not None
    return x.op == 'app' and x.args[0] == '.clone'


def judge(rep, what, r, k, st, method, learners, X, part, want, domain):
    """r: the returned batch; want: function of the per-subspace scalars"""
    v = at(st.deep(r), k, st)
    sc = []
    m = {}
    for i, (L, g) in enumerate(zip(learners, part)):
        a = sym('%s%d' % (method[1:2], i), 'float')
        sc.append(a)
        for x in walk(v):
            if x.op == 'app' and x.args[0] == 'row' + method and x.args[1][0] is L and rowok(x.args[1][1], X, k, g):
                m[x] = a
    got = subst(v, m)
    w = want(sc)
    if got is w or st.facts.decide(eq(got, w)) is True:
        rep.ok(RULE, what)
        return
    for x in walk(got):
        if x.op == 'app' and x.args[0] in ('np.max/row', 'np.min/row', 'np.prod/row', 'np.sum/row', 'np.max', 'np.min', 'np.prod', 'np.sum') and (x.args[0][-4:] == '/row' or dict(x.args[2]).get('axis', NONE) is NONE) and any(y.op == 'app' and y.args[0] == method for y in walk(x)):
            rep.bad(RULE, what, 'reduces over the points of the batch instead of over the subspaces: ' + show(got)[:200])
            return
    d = differ(got, w, sc, domain)
    if d is None:
        rep.unk(RULE, what, 'computes ' + show(got)[:250])
    elif d == 'same':
        rep.ok(RULE, what)
    else:
        rep.bad(RULE, what, 'for %s the result is %s instead of %s (computes %s)' % (', '.join('%s=%s' % kv for kv in d[0].items()), d[1], d[2], show(got)[:200]))


def rowok(x, X, k, g):
    """is x the row k of X restricted to the columns g?"""
    idx = mk('list', *[C(i) for i in g])
    return x.op == 'sub' and x.args[0] is mk('sub', X, k) and x.args[1] is idx


LBL, PRB, RNK = (0, 1), (0, '1/4', '1/2', '3/4', 1), (-2, 0, '1/2', 3)
from fractions import Fraction as Fr
PRB = [Fr(x) for x in PRB]
RNK = [Fr(x) for x in RNK]


def run(rep):
    ip = load()
    base = sym('base', 'obj')
    full = dict(label_function='AND', probability_function='MIN', ranking_function='SQUARE')
    for part in PARTS:
        n = len(part)

        def one(name, spelled, cname, opt, method, want, domain, **kw):
            label = '%s(%s=%r) with %d subspaces: %s' % (cname, opt, spelled, n, method)

            def go():
                ip.steps = 0
                st = ip.start()
                args = dict(kw, **{opt: C(spelled) if spelled is not None else NONE}) if opt else dict(kw)
                if cname == 'SubspaceLearner':
                    args['base_learner'] = base
                f = fn(ip, S, cname)
                for o, s in call(ip, f, [], dict(args, partition=partition(st, part)), st):
                    if isinstance(o, Exc):
                        rep.bad(RULE, label, 'construction raises ' + str(o.v.args[0]))
                        continue
                    ls = opaque_learners(s, o)
                    X = A(s, 'X')
                    k = fresh('k', 'nat')
                    s.facts.assume(lt(k, length(sym('X', 'arr2'))))
                    for r, s2 in meth(ip, s, o, method, X):
                        if isinstance(r, Exc):
                            rep.bad(RULE, label, 'raises ' + str(r.v.args[0]))
                            continue
                        src = {'predict': '.predict', 'predict_proba': '.predict_proba', 'rank': '.rank'}[method]
                        if name in LOSS and opt == 'loss' or want[0] == 'proba':
                            src = '.predict_proba'
                        judge(rep, label, r, k, s2, src, ls, sym('X', 'arr2'), part, want[1], domain)
            rep.guard(RULE, label, go)
        for name, f in LABEL.items():
            for sp in cases(name)[:2]:
                one(name, sp, 'SubspaceLearner', 'label_function', 'predict', ('label', f), LBL)
            one(name, name, 'SubspatialSimpleMargin', 'label_function', 'predict', ('label', f), LBL)
            one(name, name, 'SubspatialVersionSpace', 'label_function', 'predict', ('label', f), LBL)
        for name, f in PROBA.items():
            for sp in cases(name)[:2]:
                one(name, sp, 'SubspaceLearner', 'probability_function', 'predict_proba', ('proba', f), PRB)
            # without a label connector: positive exactly when the probability exceeds one half
            one(name, name, 'SubspaceLearner', 'probability_function', 'predict', ('proba', lambda ps, f=f: POSITIVE(f(ps))), PRB, label_function=NONE)
        for name, f in RANK.items():
            for sp in cases(name)[:2]:
                one(name, sp, 'SubspaceLearner', 'ranking_function', 'rank', ('rank', f), RNK)
        for name, f in LOSS.items():
            one(name, name, 'SubspatialVersionSpace', 'loss', 'rank', ('proba', f), PRB)
        one('AND', 'AND', 'SubspatialVersionSpace', 'label_function', 'predict_proba', ('proba', PROBA['MIN']), PRB)
        one('OR', 'OR', 'SubspatialVersionSpace', 'label_function', 'predict_proba', ('proba', PROBA['MAX']), PRB)
        one('PROD', 'PROD', 'SubspatialVersionSpace', 'label_function', 'predict_proba', ('proba', PROBA['PROD']), PRB)
        one('PROD', 'PROD', 'SubspatialVersionSpace', 'label_function', 'predict', ('proba', lambda ps: POSITIVE(prod(ps))), PRB)

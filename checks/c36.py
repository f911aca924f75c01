"""C36: loss, gradient, starting point and predictions of the factorization models belong together."""
from sa.drive import *
from sa.evaln import evaln, N, arr
from sa.evalv import Unknown
import itertools, math

EXPLAIN = ('LinearFactorizationLearner.fit and KernelFactorizationLearner.fit are abstractly executed for every combination of number or list of subspaces, bias, penalty and kind of optimizer; the objective, the gradient and the '
           'starting point handed to the optimizer are captured as symbolic functions of the weights. On assignments, the objective must equal its definition, the gradient must be the derivative of the objective (without the penalty under proximal '
           'optimizers, which apply it themselves), attributes outside of a subspace must keep weight zero, mini-batches must pair points with their own labels and visit every point once per epoch, the best of several runs must be kept, and '
           'the predictions must be those of the returned weights.')
ASSUME = ['compute_loss and compute_log_probas equal their definitions (C44)', 'labels are 0 or 1', 'derivatives by central differences, equality up to 1e-6']
FLOOR = 100
R_LOSS, R_GRAD, R_START, R_BEST, R_PRED, R_BATCH, R_ZERO, R_STATE = ('the objective is the documented loss', 'the gradient is the derivative of the objective', 'the starting point has the shape of the model', 'the best run is kept',
    'predictions are those of the fitted weights', 'mini-batches pair points with labels and visit each point once per epoch', 'attributes outside a subspace have weight zero', 'fitting again does not depend on earlier fits')
X, Y, W, LAM = sym('X', 'arr2'), sym('y', 'arr1'), sym('w', 'arr2'), sym('lam', 'float')
XV = [[.3, -1., 2.], [.4, -.6, .9], [-1.2, .7, .1], [.8, 1.5, -.4]]
QV = [[.1, .2, -.7], [1., -2., .5], [-.3, .8, 1.1]]
LABELS = [[1., 0., 0., 1.], [0., 0., 0., 0.], [1., 1., 1., 1.]]
WEIGHTS = [.5, -.3, .8, .2, -.7, .4, .1, .9, -.6, .35, -.15, .25]
OTHER = [-.4, .6, .1, -.9, .3, .2, -.8, .5, .7, -.25, .45, -.05]
UTILS = 'aideme.active_learning.factorization.utils.'
LAMBDA = .2


def sigmoid(v):
    return 1 / (1 + math.exp(-v))


def lsig(v):
    return -math.log1p(math.exp(-v)) if v > 0 else v - math.log1p(math.exp(v))


def mean_loss(m, y):
    m, y = arr(m), arr(y)
    return sum(-v * sum(map(lsig, r)) if v > 0 else -math.log(max(-math.expm1(sum(map(lsig, r))), 1e-300)) for r, v in zip(m.rows(), y.data)) / m.shape[0]


APPS = {UTILS + 'compute_loss': mean_loss, UTILS + 'compute_log_probas': lambda m: N((arr(m).shape[0],), [sum(map(lsig, r)) for r in arr(m).rows()])}
ORDERS = [[2, 0, 3, 1], [1, 3, 0, 2], [3, 2, 1, 0]]


class Shuffles:
    pass


def hook(caught, n=None):
    def h(fv, args, kw, s, node=None):
        f = ob(fv)
        name = getattr(f, 'name', '') if isinstance(f, (Ext, Bound)) else ''
        if isinstance(f, Bound) and name == 'minimize':
            d = dict(zip(('x0', 'func', 'grad'), args), **kw)
            m = max([i for i, e in enumerate(s.events) if e[0] == 'fitting'], default=0)
            k = len([e for e in s.events[m:] if e[0] == 'minimized'])
            s.event('minimized', k)
            caught.append((d, s.fork()))
            r = fresh('found', 'obj')
            again = 'first ' if len([e for e in s.events if e[0] == 'fitting']) == 1 else ''
            s.oattr[(r, 'x')] = s.new('arr', val=sym('%srun %d' % (again, k), 'arr2'))
            s.oattr[(r, 'fun')] = sym('%sloss %d' % (again, k), 'float')
            return [(r, s)]
        if n and isinstance(f, Ext) and name.split('.')[-1] in ('normal', 'standard_normal', 'randn') and 'random' in name:
            s.event('drawn', {k: s.deep(v) for k, v in kw.items()}, tuple(map(s.deep, args)))
            return [(mk('list', *[s.new('arr', val=sym('x0 %d' % i, 'arr2')) for i in range(n)]), s)]
        return None
    return h


def start(t, env, apps):
    drawn = {}
    for q in walk(t):
        if q.op == 'app' and 'random' in q.args[0]:
            size = dict(q.args[2]).get('size') or (q.args[1][-1] if q.args[1] and q.args[0].endswith('normal') else None)
            if size is None or size is NONE:
                raise Unknown('starting point ' + show(q)[:80])
            dims = [int(v) for v in arr(evaln(size, env, apps)).data]
            drawn[q] = N(tuple(dims), [float(i) for i in range(math.prod(dims))])
        elif q.op == 'sym' and str(q.args[0]).startswith('k#'):
            drawn[q] = 0
    return arr(evaln(t, {**env, **drawn}, apps))


def setting(ip, opt, pen, bias, batch=None):
    st = ip.start()
    p = NONE
    if pen:
        p, st = new1(ip, st, pen, LAM, *([LAM] if pen.startswith('Sparse') else []))
    o, st = new1(ip, st, opt, **({'batch_size': C(batch)} if batch else {}))
    return o, p, st


def fact(f):
    return C(f) if isinstance(f, int) else mk('list', *[mk('list', *map(C, g)) for g in f])


def full(f, bias, flat, d=3):
    """weight rows (attributes, bias) of a model vector"""
    n = d + bias
    if isinstance(f, int):
        return [flat[i * n:(i + 1) * n] for i in range(f)]
    out, it = [], iter(flat)
    for g in f:
        out.append([next(it) if j in g or j == d else 0. for j in range(n)])
    return out


def count(f, bias, d=3):
    return f * (d + bias) if isinstance(f, int) else sum(len(set(g)) + bias for g in f)


def shape(f, bias, d=3):
    return (f, d + bias) if isinstance(f, int) else (count(f, bias),)


def penalty(pen, rows, bias):
    v = [r[:-1] if bias else r for r in rows]
    if pen is None:
        return 0.
    if pen == 'L2Penalty':
        return LAMBDA * sum(a * a for r in v for a in r)
    if pen == 'L1Penalty':
        return LAMBDA * sum(abs(a) for r in v for a in r)
    if pen == 'L2SqrtPenalty':
        return LAMBDA * sum(math.sqrt(sum(a * a for a in r)) for r in v)
    return LAMBDA * sum(math.sqrt(sum(a * a for a in r)) + sum(map(abs, r)) for r in v)


def margins(rows, bias, xs):
    return [[sum(a * b for a, b in zip(x, r)) + (r[-1] if bias else 0.) for r in rows] for x in xs]


def definition(f, bias, pen, flat, xs, ys, pen_too=True):
    rows = full(f, bias, flat)
    m = margins(rows, bias, xs)
    return mean_loss(N((len(m), len(rows)), [v for r in m for v in r]), N((len(ys),), ys)) + (penalty(pen, rows, bias) if pen_too else 0.)


def derivative(g, flat, h=1e-5):
    out = []
    for i in range(len(flat)):
        a, b = list(flat), list(flat)
        a[i] += h
        b[i] -= h
        out.append((g(a) - g(b)) / (2 * h))
    return out


def choose(outs, env, apps):
    for v, q, log in outs:
        if all(true(evaln(c, env, apps)) for c in log):
            if isinstance(v, Exc):
                raise Unknown('raises ' + show(v.v)[:60])
            return evaln(q.deep(v), env, apps)
    raise Unknown('no path')


def consistent(s, env):
    for c in s.facts.log:
        try:
            if not true(evaln(c, env, APPS)):
                return False
        except Unknown:
            pass
    return True


def true(v):
    return all(v.data) if isinstance(v, N) else bool(v)


def nice(v):
    return '(%s)' % ', '.join('%.4g' % x for x in v)


def run_term(ip, fv, s, w):
    n0 = len(s.facts.log)
    return [(v, q, q.facts.log[n0:]) for v, q in call(ip, fv, [w], {}, s.fork())]


def objective(rep, ip, opt, pen, bias, f):
    label = 'LinearFactorizationLearner(%s, %s, add_bias=%s).fit(%s)' % (opt, pen, bias, f)
    where = 'LinearFactorizationLearner.fit'
    caught = []
    ip.call_hook = hook(caught)
    prox = opt in ('FISTA', 'ProximalGradientDescent')
    try:
        o, p, st = setting(ip, opt, pen, bias)
        l, st = new1(ip, st, 'LinearFactorizationLearner', o, p, TRUE if bias else FALSE)
        x, y = A(st, 'X'), A(st, 'y', 'arr1')
        outs = meth(ip, st, l, 'fit', x, y, fact(f))
        if not caught:
            rep.unk(R_LOSS, label, 'the optimizer is not called')
            return
        known = {X: N((4, 3), [a for r in XV for a in r]), Y: N((4,), LABELS[0]), LAM: LAMBDA}
        d, s = next((c for c in caught if consistent(c[1], known)), caught[0])
        w = s.new('arr', val=W)
        fun, grad = run_term(ip, d['func'], s, w), run_term(ip, d['grad'], s, w)
        for ys, flat in itertools.product(LABELS, (WEIGHTS, OTHER)):
            flat = flat[:count(f, bias)] if count(f, bias) <= len(flat) else (flat + flat)[:count(f, bias)]

            def env(v):
                return {X: N((4, 3), [a for r in XV for a in r]), Y: N((4,), ys), W: N(shape(f, bias), v), LAM: LAMBDA}
            at = 'at %s, labels %s' % (nice(flat), nice(ys))
            try:
                got = choose(fun, env(flat), APPS)
                want = definition(f, bias, pen, flat, XV, ys)
                if not abs(float(got) - want) <= 1e-9:
                    rep.bad(R_LOSS, label, '%s is %s instead of %.6g' % (at, got, want), where)
                else:
                    rep.ok(R_LOSS, '%s %s' % (label, at))
            except Unknown as e:
                rep.unk(R_LOSS, label, str(e)[:150])
            try:
                got = arr(choose(grad, env(flat), APPS))
                want = derivative(lambda v: float(choose(fun, env(v), APPS)) - (penalty(pen, full(f, bias, v), bias) if prox else 0.), flat)
                if got.shape != shape(f, bias):
                    rep.bad(R_GRAD, label, 'has shape %s for weights of shape %s' % (got.shape, shape(f, bias)), where)
                elif any(not abs(a - b) <= 1e-6 for a, b in zip(got.data, want)):
                    rep.bad(R_GRAD, label, '%s is %s instead of %s' % (at, nice(got.data), nice(want)), where)
                else:
                    rep.ok(R_GRAD, '%s %s' % (label, at))
            except Unknown as e:
                rep.unk(R_GRAD, label, str(e)[:150])
        # starting point: random of the right shape
        try:
            a = start(s.deep(d['x0']), env(flat), APPS)
            if a.shape != shape(f, bias):
                rep.bad(R_START, label, 'starting point of shape %s for weights of shape %s' % (a.shape, shape(f, bias)), where)
            else:
                rep.ok(R_START, label)
        except Unknown as e:
            rep.unk(R_START, label, str(e)[:150])
    finally:
        ip.call_hook = None


def given_start(rep, ip, f, bias):
    """x0 given: the optimizer starts there"""
    label = 'LinearFactorizationLearner(add_bias=%s).fit(%s, x0=...)' % (bias, f)
    caught = []
    ip.call_hook = hook(caught)
    try:
        o, p, st = setting(ip, 'Adam', None, bias)
        l, st = new1(ip, st, 'LinearFactorizationLearner', o, p, TRUE if bias else FALSE)
        x, y, x0 = A(st, 'X'), A(st, 'y', 'arr1'), A(st, 'x0')
        meth(ip, st, l, 'fit', x, y, fact(f), x0=x0)
        k, n = f if isinstance(f, int) else len(f), 3 + bias
        vals = [float(i + 1) for i in range(k * n)]
        for d, s in caught[:1]:
            t = s.deep(d['x0'])
            env = {X: N((4, 3), [a for r in XV for a in r]), sym('x0', 'arr2'): N((k, n), vals), **{q: 0 for q in walk(t) if q.op == 'sym' and str(q.args[0]).startswith('k#')}}
            try:
                got = arr(evaln(t, env, APPS))
                want = vals if isinstance(f, int) else [vals[i * n + j] for i, g in enumerate(f) for j in range(n) if j in g or j == 3]
                if list(got.data) != want or got.shape != shape(f, bias):
                    rep.bad(R_START, label, 'starts at %s instead of %s' % (nice(got.data), nice(want)), 'LinearFactorizationLearner.fit')
                else:
                    rep.ok(R_START, label)
            except Unknown as e:
                rep.unk(R_START, label, str(e)[:150])
        if not caught:
            rep.unk(R_START, label, 'the optimizer is not called')
    finally:
        ip.call_hook = None


def results(rep, ip, f, bias, runs, second=False):
    """fitted weights and predictions"""
    label = 'LinearFactorizationLearner(add_bias=%s).fit(%s, retries=%d)' % (bias, f, runs)
    where = 'LinearFactorizationLearner.fit'
    caught = []
    ip.call_hook = hook(caught, runs)
    try:
        o, p, st = setting(ip, 'Adam', None, bias)
        l, st = new1(ip, st, 'LinearFactorizationLearner', o, p, TRUE if bias else FALSE)
        outs = []
        for again in (0, 1) if second else (0,):
            zs = [st] if not again else [z for v, z in outs if not isinstance(v, Exc)]
            outs = []
            for z in zs:
                z = z.fork()
                z.event('fitting')
                if not again and not second:
                    z.event('fitting')
                x, y = A(z, 'X'), A(z, 'y', 'arr1')
                outs += meth(ip, z, l, 'fit', x, y, fact(f), C(runs))
            if again or not second:
                check_results(rep, ip, l, outs, f, bias, runs, label + (', second fit' if again else ''), where)
    finally:
        ip.call_hook = None


def check_results(rep, ip, l, outs, f, bias, runs, label, where):
    flats = [(WEIGHTS + OTHER)[i:i + count(f, bias)] for i in (0, 3, 6)][:runs]
    for losses in itertools.permutations([.5, .2, .9][:runs]):
        env = {X: N((4, 3), [a for r in XV for a in r]), Y: N((4,), LABELS[0]), sym('q', 'arr2'): N((3, 3), [a for r in QV for a in r])}
        for i in range(runs):
            env[sym('run %d' % i, 'arr2')] = N(shape(f, bias), flats[i])
            env[sym('loss %d' % i, 'float')] = losses[i]
            env[sym('first run %d' % i, 'arr2')] = N(shape(f, bias), [.1 + .1 * i] * count(f, bias))
            env[sym('first loss %d' % i, 'float')] = [.05, .3, .01][i]
        best = losses.index(min(losses))
        rows = full(f, bias, flats[best])
        done = False
        for v, z in outs:
            try:
                if not all(true(evaln(c, env, APPS)) for c in z.facts.log if any(q.op == 'sym' and 'loss ' in str(q.args[0]) for q in walk(c))):
                    continue
            except Unknown as e:
                rep.unk(R_BEST, label, str(e)[:120])
                continue
            if isinstance(v, Exc):
                rep.bad(R_BEST, label, 'raises %s with losses %s' % (show(v.v)[:60], nice(losses)), where)
                continue
            done = True
            m = margins(rows, bias, QV)
            full_p = [math.prod(map(sigmoid, r)) for r in m]
            want = {'weights': [a for r in rows for a in r[:3]], 'bias': [r[3] for r in rows] if bias else None, 'weight_matrix': [a for r in rows for a in r], 'num_subspaces': [len(rows)],
                    'predict_proba': full_p, 'predict': [1. if a > .5 else 0. for a in full_p], 'partial_proba': [sigmoid(a) for r in m for a in r], 'partial_predict': [1. if sigmoid(a) > .5 else 0. for r in m for a in r]}
            for k, w in want.items():
                if w is None:
                    continue
                try:
                    s = z.fork()
                    if 'p' in k and k.split('_')[0] in ('predict', 'partial'):
                        r = meth(ip, s, l, k, A(s, 'q'))
                    else:
                        r = [attr(ip, s, l, k)]
                    if len(r) == 1 and isinstance(r[0][0], Exc) and all(true(evaln(c, env, apps)) for c in r[0][1].facts.log):
                        rep.bad(R_PRED, '%s: %s' % (label, name), 'raises ' + show(r[0][0].v)[:80], where)
                        continue
                    if len(r) != 1 or isinstance(r[0][0], Exc):
                        rep.unk(R_PRED, '%s: %s' % (label, k), '%d outcomes' % len(r))
                        continue
                    got = arr(evaln(r[0][1].deep(r[0][0]), env, APPS)).data
                    if len(got) != len(w) or any(not abs(a - b) <= 1e-9 for a, b in zip(got, w)):
                        rep.bad(R_STATE if 'second' in label else R_BEST if runs > 1 else R_ZERO if k == 'weights' and not isinstance(f, int) else R_PRED, '%s: %s' % (label, k), 'with losses %s it is %s instead of %s' % (nice(losses), nice(got), nice(w)), where)
                    else:
                        rep.ok(R_STATE if 'second' in label else R_BEST if runs > 1 else R_PRED, '%s: %s' % (label, k))
                except Unknown as e:
                    rep.unk(R_PRED, '%s: %s' % (label, k), str(e)[:150])
        if not done:
            rep.unk(R_BEST, label, 'no path for losses %s' % nice(losses))


def batches(rep, ip, f, bias, batch, calls):
    label = 'LinearFactorizationLearner(batch_size=%d, add_bias=%s).fit(%s), %d gradients' % (batch, bias, f, calls)
    where = 'LinearFactorizationLearner.fit'
    caught = []
    ip.call_hook = hook(caught)
    try:
        o, p, st = setting(ip, 'Adam', None, bias, batch)
        l, st = new1(ip, st, 'LinearFactorizationLearner', o, p, TRUE if bias else FALSE)
        x, y = A(st, 'X'), A(st, 'y', 'arr1')
        meth(ip, st, l, 'fit', x, y, fact(f))
        known = {X: N((4, 3), [a for r in XV for a in r]), Y: N((4,), LABELS[0]), LAM: LAMBDA}
        for d, s in [c for c in caught if consistent(c[1], known)][:1]:
            w = s.new('arr', val=W)
            states = [([], s.fork())]
            for _ in range(calls):
                states = [(g + [(q.deep(v) if not isinstance(v, Exc) else v, q)], q) for g, z in states for v, q in call(ip, d['grad'], [w], {}, z.fork())]
            flat = (WEIGHTS + OTHER)[:count(f, bias)]
            env = {X: N((4, 3), [a for r in XV for a in r]), Y: N((4,), LABELS[0]), W: N(shape(f, bias), flat), LAM: LAMBDA}
            done = False
            n0 = len(s.facts.log)
            for gs, z in states:
                try:
                    seen = {}

                    def shuffled(v, *a):
                        k = tuple(arr(v).data)
                        return N(arr(v).shape, [arr(v).data[i] for i in ORDERS[0]])
                    apps = {**APPS, 'shuffled': shuffled}
                    if not all(true(evaln(c, env, apps)) for c in z.facts.log[n0:]):
                        continue
                    done = True
                    used = []
                    for i, (t, q) in enumerate(gs):
                        if isinstance(t, Exc):
                            rep.bad(R_BATCH, label, 'gradient %d raises %s' % (i + 1, show(t.v)[:60]), where)
                            break
                        got = arr(evaln(t, env, apps)).data
                        hit = [c for r in range(1, batch + 1) for c in itertools.combinations(range(4), r)
                               if all(abs(a - b) <= 1e-6 for a, b in zip(got, derivative(lambda v: definition(f, bias, None, v, [XV[j] for j in c], [LABELS[0][j] for j in c], False), flat)))]
                        if len(got) != len(flat) or not hit:
                            rep.bad(R_BATCH, label, 'gradient %d, %s, is not that of any set of at most %d points with their labels' % (i + 1, nice(got), batch), where)
                            break
                        used.append(set(hit[0]))
                    else:
                        per = -(-4 // batch)
                        for e in range(0, len(used), per):
                            ep = used[e:e + per]
                            if sum(map(len, ep)) != len(set().union(*ep)) or len(ep) == per and len(set().union(*ep)) < 4:
                                rep.bad(R_BATCH, label, 'an epoch uses the points %s' % [sorted(u) for u in ep], where)
                                break
                        else:
                            rep.ok(R_BATCH, label)
                except Unknown as e:
                    rep.unk(R_BATCH, label, str(e)[:150])
            if not done:
                rep.unk(R_BATCH, label, 'no path')
    finally:
        ip.call_hook = None


KW = [[.1, -.3, .25, .4, .2], [-.5, .15, .3, -.2, .1]]


def kernel_model(rep, ip, f, bias):
    label = 'KernelFactorizationLearner(kernel=linear, add_bias=%s).fit(%s)' % (bias, f)
    where = 'KernelFactorizationLearner'
    caught = []
    ip.call_hook = hook(caught, 1)
    try:
        o, p, st = setting(ip, 'Adam', None, bias)
        outs = normal(new(ip, st, 'KernelFactorizationLearner', o, add_bias=TRUE if bias else FALSE, kernel=C('linear')))
        l, st = outs[0]
        st.event('fitting')
        st.event('fitting')
        x, y = A(st, 'X'), A(st, 'y', 'arr1')
        starts = []
        ip.call_hook = hook(starts)
        meth(ip, st.fork(), l, 'fit', x, y, fact(f))
        ip.call_hook = hook(caught, 1)
        outs = meth(ip, st, l, 'fit', x, y, fact(f))
        k = f if isinstance(f, int) else len(f)
        groups = [[0, 1, 2]] * f if isinstance(f, int) else f
        rows = [r[:4 + bias] for r in (KW + [KW[0][::-1]])[:k]]
        flat = [a for r in rows for a in r]

        def margin(q, rs):
            return [[sum(r[i] * sum(q_[j] * XV[i][j] for j in g) for i in range(4)) + (r[4] if bias else 0.) for r, g in zip(rs, groups)] for q_ in q]
        ys = LABELS[0]

        def loss(v):
            n = 4 + bias
            m = margin(XV, [v[i * n:(i + 1) * n] for i in range(k)])
            return mean_loss(N((4, k), [a for r in m for a in r]), N((4,), ys))
        apps = {**APPS, **{a: (lambda a, b=None: evaln(app('matmul', sym('a'), app('T', sym('b'))), {sym('a'): arr(a), sym('b'): arr(a if b is None else b)})) for a in ('linear_kernel', 'sklearn.metrics.pairwise.linear_kernel')}}
        env = {X: N((4, 3), [a for r in XV for a in r]), Y: N((4,), ys), W: N((k, 4 + bias), flat), sym('run 0', 'arr2'): N((k, 4 + bias), flat), sym('loss 0', 'float'): .3, sym('q', 'arr2'): N((3, 3), [a for r in QV for a in r])}
        if not caught:
            rep.unk(R_LOSS, label, 'the optimizer is not called')
        for d, s in starts[:1]:
            try:
                a = start(s.deep(d['x0']), env, apps)
                if math.prod(a.shape) != len(flat) or len(a.shape) == 2 and a.shape[0] != k:
                    rep.bad(R_START, label, 'starting point of shape %s for weights of shape %s' % (a.shape, (k, 4 + bias)), where)
                else:
                    rep.ok(R_START, label)
            except Unknown as e:
                rep.unk(R_START, label, str(e)[:150])
        for d, s in caught[:1]:
            w = s.new('arr', val=W)
            try:
                got = choose(run_term(ip, d['func'], s, w), env, apps)
                if not abs(float(got) - loss(flat)) <= 1e-6:
                    rep.bad(R_LOSS, label, 'is %s instead of %.6g' % (got, loss(flat)), where)
                else:
                    rep.ok(R_LOSS, label)
                got = arr(choose(run_term(ip, d['grad'], s, w), env, apps)).data
                want = derivative(loss, flat)
                if len(got) != len(want) or any(not abs(a - b) <= 1e-6 for a, b in zip(got, want)):
                    rep.bad(R_GRAD, label, 'is %s instead of %s' % (nice(got), nice(want)), where)
                else:
                    rep.ok(R_GRAD, label)
            except Unknown as e:
                rep.unk(R_GRAD, label, str(e)[:150])
        for v, z in outs:
            if isinstance(v, Exc):
                try:
                    if all(true(evaln(c, env, apps)) for c in z.facts.log):
                        rep.bad(R_LOSS, label, 'raises ' + show(v.v)[:80], where)
                except Unknown:
                    pass
                continue
            try:
                if not all(true(evaln(c, env, apps)) for c in z.facts.log):
                    continue
            except Unknown:
                pass
            m = margin(QV, rows)
            ps = [math.prod(map(sigmoid, r)) for r in m]
            for name, want in (('predict_proba', ps), ('predict', [1. if a > .5 else 0. for a in ps]), ('partial_proba', [sigmoid(a) for r in m for a in r])):
                try:
                    s = z.fork()
                    r = meth(ip, s, l, name, A(s, 'q'))
                    if len(r) > 1:
                        r = [(u, w) for u, w in r if all(true(evaln(c, env, apps)) for c in w.facts.log)]
                    if len(r) == 1 and isinstance(r[0][0], Exc) and all(true(evaln(c, env, apps)) for c in r[0][1].facts.log):
                        rep.bad(R_PRED, '%s: %s' % (label, name), 'raises ' + show(r[0][0].v)[:80], where)
                        continue
                    if len(r) != 1 or isinstance(r[0][0], Exc):
                        rep.unk(R_PRED, '%s: %s' % (label, name), '%d outcomes %s' % (len(r), [show(u.v)[:100] if isinstance(u, Exc) else '' for u, _ in r]))
                        continue
                    got = arr(evaln(r[0][1].deep(r[0][0]), env, apps)).data
                    if len(got) != len(want) or any(not abs(a - b) <= 1e-6 for a, b in zip(got, want)):
                        rep.bad(R_PRED, '%s: %s' % (label, name), 'is %s instead of %s' % (nice(got), nice(want)), where)
                    else:
                        rep.ok(R_PRED, '%s: %s' % (label, name))
                except Unknown as e:
                    rep.unk(R_PRED, '%s: %s' % (label, name), str(e)[:150])
    finally:
        ip.call_hook = None


FACTS = [1, 2, [[0, 1, 2]], [[0], [1, 2]], [[2, 0], [1]], [[0, 1], [1, 2]], [[0], [2, 0]]]


def run(rep):
    ip = load()
    for f in FACTS + ([3, [[0], [1], [2]], [[1]]] if rep.thorough else []):
        for bias in (True, False):
            for opt, pen in (('Adam', None), ('GradientDescent', 'L2Penalty'), ('Adam', 'L1Penalty'), ('FISTA', 'SparseGroupLassoPenalty'), ('ProximalGradientDescent', 'L2SqrtPenalty')):
                rep.guard(R_LOSS, 'fit', lambda: objective(rep, ip, opt, pen, bias, f))
            if f in (1, 2) or not isinstance(f, int) and len(f) > 1:
                rep.guard(R_LOSS, 'kernel fit', lambda: kernel_model(rep, ip, f, bias))
            rep.guard(R_START, 'fit', lambda: given_start(rep, ip, f, bias))
            for runs in (1, 2, 3) if isinstance(f, int) else (1,):
                rep.guard(R_BEST, 'fit', lambda: results(rep, ip, f, bias, runs))
                if runs < 3:
                    rep.guard(R_STATE, 'fit', lambda: results(rep, ip, f, bias, runs, True))
            for batch, calls in ((2, 4), (3, 4), (4, 2), (7, 2)):
                if f in (1, 2, [[0], [1, 2]]):
                    rep.guard(R_BATCH, 'fit', lambda: batches(rep, ip, f, bias, batch, calls))

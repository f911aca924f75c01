"""C24: optimizers start fresh, report the point they computed and follow their update rule."""
from sa.drive import *
from sa.evaln import evaln, N, arr
from sa.evalv import Unknown
import math

EXPLAIN = ('Every optimizer is abstractly executed for one to three iterations with an opaque objective and gradient, once and then again on the same object. The returned iterate, objective value and gradient are terms in the starting '
           'point: value and gradient must be those of the returned iterate, the second run must compute the same terms as the first one, and the iterates must equal those of the documented update rule (compared on assignments).')
ASSUME = ['the objective and the gradient are functions of their argument (full batches)', 'optimizers are used for one run at a time']
FLOOR = 60
R_FUN, R_GRAD, R_ITER, R_FRESH, R_RULE, R_STOP, R_START, R_ARG, R_BFGS = ('the objective value is that of the returned point', 'the gradient is that of the returned point', 'at most the configured number of iterations',
    'a second run equals the first one', 'iterates follow the update rule', 'early stop only on convergence', 'the first point is the starting point', 'the starting point is left unchanged', 'the library routine gets the objective, gradient and limits')
FUNC, GRAD, BACK = sym('func', 'obj'), sym('grad', 'obj'), sym('callback', 'obj')
LAM, GTOL = sym('penalty', 'float'), sym('gtol', 'float')
SHAPE, X0 = (2, 2), [.7, -1.1, .4, 2.]
CS, BS = [1., .5, 2., 1.5], [.3, -.4, .1, -2.]
NOISE = [[.3, -.2, .5, .1], [-.4, .2, .2, .6], [.1, .1, -.7, .2], [.5, -.5, .3, .2], [.2, .1, .4, -.6]]


def external(fv):
    f = ob(fv)
    return getattr(f, 'name', '') if isinstance(f, Ext) else ''


def since(s, kind, mark='run'):
    k = max([i for i, e in enumerate(s.events) if e[0] == mark], default=-1)
    return [e for e in s.events[k + 1:] if e[0] == kind]


def hooks(ip):
    def hook(fv, args, kw, s, n=None):
        args = list(args) + list(kw.values()) if fv in (FUNC, GRAD, BACK) else args
        if fv is FUNC:
            s.event('asks', 'objective', s.deep(args[0]))
            return [(app('objective', s.deep(args[0])), s)]
        if fv is GRAD:
            x = s.deep(args[0])
            s.event('asks', 'gradient', x)
            return [(s.new('arr', val=app('gradient', x)), s)]
        if fv is BACK:
            s.event('back', s.deep(args[0]))
            return [(NONE, s)]
        name = external(fv)
        if name.endswith('OptimizeResult') and not args and not kw:
            return [(fresh('result', 'obj'), s)]
        if fv.op == 'oattr' and fv.args[0].op == 'sym' and str(fv.args[0].args[0]).startswith('result') and fv.args[1] == 'get':
            v = s.oattr.get((fv.args[0], args[0].args[0] if args[0].op == 'const' else None))
            return [(v if v is not None else args[1] if len(args) > 1 else NONE, s)]
        if name.split('.')[-1] in ('normal', 'standard_normal', 'randn') and 'random' in name:
            k = len(since(s, 'noise'))
            s.event('noise')
            return [(s.new('arr', val=sym('noise %d' % k, 'arr2')), s)]
        if name.endswith('minimize_scalar'):
            k = len(since(s, 'search'))
            t = sym('t', 'float')
            out = []
            for v, s1 in normal(call(ip, args[0], [t], {}, s.fork())):
                if not [e for e in s1.events if e[0] == 'search' and e[1] == k]:
                    out.append(s1.deep(v))
            s.event('search', k, tuple(out))
            r = fresh('lr', 'obj')
            s.oattr[(r, 'x')] = sym('alpha %d' % k, 'float')
            return [(r, s)]
        return None
    ip.call_hook = hook


def configs(thorough):
    base = [('', {}), ('adapted step', dict(adapt_step_size=TRUE, step_size=C(Fraction(1, 10)), power=C(1), adapt_every=C(2))), ('decaying step', dict(adapt_step_size=TRUE, step_size=C(Fraction(1, 10)), exp_decay=C(Fraction(1, 2)), adapt_every=C(2))),
            ('step 1/2', dict(step_size=C(Fraction(1, 2))))]
    for name in ('GradientDescent', 'NoisyGradientDescent', 'ProximalGradientDescent', 'FISTA', 'Adam'):
        for what, kw in base:
            yield name, what, dict(kw)
    yield 'GradientDescent', 'no momentum', dict(momentum=C(0), step_size=C(Fraction(1, 4)))
    yield 'GradientDescent', 'momentum 1/2', dict(momentum=C(Fraction(1, 2)), step_size=C(Fraction(1, 4)))
    yield 'GradientDescent', 'line search', dict(step_size=NONE)
    yield 'Adam', 'line search', dict(step_size=NONE)
    yield 'Adam', 'betas', dict(beta1=C(Fraction(1, 2)), beta2=C(Fraction(1, 4)), epsilon=C(Fraction(1, 8)))
    yield 'GradientDescent', 'relative tolerance', dict(rel_tol=sym('rel_tol', 'float'))
    yield 'ProximalGradientDescent', 'bias column', dict(bias=True, step_size=C(Fraction(1, 2)))
    yield 'FISTA', 'bias column', dict(bias=True, step_size=C(Fraction(1, 2)))
    for name in ('ProximalGradientDescent', 'FISTA'):
        for bias in (True, False):
            yield name, 'handed the penalty by a learner with%s bias' % ('' if bias else 'out'), dict(bias=bias, learner=True, step_size=C(Fraction(1, 2)))
    yield 'GradientDescent', 'batches', dict(batch_size=C(3))


def rate(kw, it):
    s = float(kw['step_size'].args[0]) if 'step_size' in kw and kw['step_size'] is not NONE else .001
    if kw.get('step_size') is NONE:
        return [.3, .7, .2, .9][it]
    if 'adapt_step_size' not in kw:
        return s
    every = float(kw['adapt_every'].args[0]) if 'adapt_every' in kw else 1.
    if 'exp_decay' in kw:
        return s * float(kw['exp_decay'].args[0]) ** (it // every)
    return s / (1 + it // every) ** float(kw['power'].args[0])


def val(kw, k, d):
    return float(kw[k].args[0]) if k in kw else d


def grad_(x):
    return [c * v + b for c, v, b in zip(CS, x, BS)]


def fun_(x):
    return sum(c * v * v / 2 + b * v for c, v, b in zip(CS, x, BS))


def soft(x, t, bias):
    return [v if bias and i % SHAPE[1] == SHAPE[1] - 1 else math.copysign(max(abs(v) - t, 0.), v) for i, v in enumerate(x)]


def reference(name, kw, n, lam, searches):
    """iterates x0 .. xn of the documented rule"""
    x, xs = list(X0), [list(X0)]
    v, m, w = [0.] * 4, [0.] * 4, [0.] * 4
    y, th = list(X0), 1.
    for it in range(n):
        g, a = grad_(x), rate(kw, it)
        d = None
        if name == 'GradientDescent':
            mu = val(kw, 'momentum', .9)
            v = [mu * p + (1 - mu) * q for p, q in zip(v, g)]
            d = v
        elif name == 'NoisyGradientDescent':
            z = NOISE[it]
            r = math.sqrt(sum(p * p for p in z))
            d = [p + q / r for p, q in zip(g, z)]
        elif name == 'Adam':
            b1, b2, e = val(kw, 'beta1', .9), val(kw, 'beta2', .999), val(kw, 'epsilon', 1e-8)
            m = [b1 * p + (1 - b1) * q for p, q in zip(m, g)]
            w = [b2 * p + (1 - b2) * q * q for p, q in zip(w, g)]
            d = [p / (1 - b1 ** (it + 1)) / (math.sqrt(q / (1 - b2 ** (it + 1))) + e) for p, q in zip(m, w)]
        if d is not None:
            searches.append((x, d))
            x = [p - a * q for p, q in zip(x, d)]
        elif name == 'ProximalGradientDescent':
            x = soft([p - a * q for p, q in zip(x, g)], a * lam, bool(kw.get('bias')))
        else:
            z = soft([p - a * q for p, q in zip(y, grad_(y))], a * lam, bool(kw.get('bias')))
            t2 = (1 + math.sqrt(1 + 4 * th * th)) / 2
            y = [p + (th - 1) / t2 * (p - q) for p, q in zip(z, x)]
            x, th = z, t2
        xs.append(x)
    return xs


def residuals(name, x, lam, bias):
    """what the convergence test compares with gtol at x"""
    g = grad_(x)
    if name != 'ProximalGradientDescent':
        return [math.sqrt(sum(v * v for v in g))]
    cols = [i for i in range(len(x)) if bias and i % SHAPE[1] == SHAPE[1] - 1]
    u = max(abs(-g[i] - lam * ((x[i] > 0) - (x[i] < 0))) - (lam if x[i] == 0 else 0) for i in range(len(x)) if i not in cols)
    return [u] + ([math.sqrt(sum(g[i] ** 2 for i in cols))] if bias else [])


def apps():
    return {'objective': lambda x: fun_(arr(x).data), 'gradient': lambda x: N(arr(x).shape, grad_(arr(x).data))}


def field(ip, s, v, k):
    t = s.oattr.get((v, k))
    if t is None and v.op == 'ref':
        t, s = attr(ip, s, v, k)
    return None if t is None else s.deep(t)


def build(ip, st, name, kw, n):
    kw = dict(kw)
    bias, learner = kw.pop('bias', False), kw.pop('learner', False)
    if name in ('ProximalGradientDescent', 'FISTA'):
        p, st = new1(ip, st, 'L1Penalty', LAM)
        if not learner:
            kw['penalty_term'] = p
    kw.setdefault('gtol', GTOL)
    outs = normal(new(ip, st, name, max_iter=C(n), callback=BACK, **kw))
    if not outs:
        raise Gone('constructor of ' + name)
    o, st = outs[-1]
    if learner:
        outs = normal(new(ip, st, 'LinearFactorizationLearner', o, p, TRUE if bias else FALSE))
        if not outs:
            raise Gone('constructor of LinearFactorizationLearner')
        st = outs[-1][1]
    elif bias:
        st.setfield(o, 'remove_bias_column', TRUE)
    return o, st


def optimizer(rep, ip, name, what, kw, n):
    label = '%s.minimize(%s%d iteration%s)' % (name, what + ', ' if what else '', n, 's' if n > 1 else '')
    ip.unroll_while, ip.cut_off, ip.steps = n + 2, [], 0
    hooks(ip)
    try:
        st = ip.start()
        o, st = build(ip, st, name, kw, n)
        n0 = len(st.facts.log)
        x0 = A(st, 'x0')
        st.event('run')
        outs = meth(ip, st, o, 'minimize', x0, FUNC, GRAD)
        outs += [(None, s) for s in ip.cut_off]
        ip.cut_off = []
        env = {sym('x0', 'arr2'): N(SHAPE, X0), LAM: .13, GTOL: 0., sym('rel_tol', 'float'): 0.}
        env.update({sym('noise %d' % i, 'arr2'): N(SHAPE, z) for i, z in enumerate(NOISE)})
        env.update({sym('alpha %d' % i, 'float'): rate(dict(step_size=NONE), i) for i in range(4)})
        matched = False
        if outs and all(isinstance(v, Exc) for v, _ in outs):
            rep.bad(R_RULE, label, 'raises ' + show(outs[0][1].deep(outs[0][0].v))[:80], name)
            return
        for v, s in outs:
            if v is None:
                rep.bad(R_ITER, label, 'still running after %d steps' % (n + 2), name)
                continue
            if isinstance(v, Exc):
                rep.unk(R_FUN, label, 'raises ' + show(v.v)[:80])
                continue
            x, f, g, succ = [field(ip, s, v, k) for k in ('x', 'fun', 'grad', 'success')]
            if x is None or f is None:
                rep.unk(R_FUN, label, 'result is not understood: ' + show(v)[:60])
                continue
            # value and gradient of the returned point
            for rule, t, want in ((R_FUN, f, app('objective', x)), (R_GRAD, g, app('gradient', x))):
                if t is None or t is NONE:
                    if rule is R_FUN:
                        rep.bad(rule, label, 'no objective value', name)
                    continue
                if t is want:
                    rep.ok(rule, label, show(x)[:80])
                else:
                    try:
                        a, b = [arr(evaln(z, env, apps())).data for z in (t, want)]
                        if len(a) != len(b) or any(abs(p - q) > 1e-9 for p, q in zip(a, b)):
                            rep.bad(rule, label, 'reported %s, but at the returned point it is %s' % (nice(a), nice(b)), name)
                        else:
                            rep.ok(rule, label)
                    except Unknown as e:
                        rep.unk(rule, label, str(e)[:120])
            # iterations
            steps = [e[1] for e in since(s, 'back')]
            if len(steps) > n + 1:
                rep.bad(R_ITER, label, '%d iterates' % len(steps), name)
            elif steps:
                rep.ok(R_ITER, label, '%d iterates' % len(steps))
            else:
                rep.unk(R_ITER, label, 'callback not called')
            if steps and len(steps) < n + 1:
                d = s.facts.decide(succ) if succ is not None else None
                if d is True or succ is TRUE:
                    rep.ok(R_STOP, label)
                else:
                    rep.bad(R_STOP, label, 'stops after %d iterations without convergence' % (len(steps) - 1), name)
            asked = [e for e in since(s, 'asks')]
            if steps and steps[0] is sym('x0', 'arr2'):
                rep.ok(R_START, label)
            elif steps:
                rep.bad(R_START, label, 'first point is %s' % show(steps[0])[:80], name)
            if s.deep(x0) is sym('x0', 'arr2'):
                rep.ok(R_ARG, label)
            else:
                rep.bad(R_ARG, label, 'starting point becomes %s' % show(s.deep(x0))[:80], name)
            if steps and steps[-1] is not x:
                rep.bad(R_FUN, label, 'the returned point is not the last iterate', name)
            # when it stops
            cases = [(0., 0., n), (1e3, 0., n if name == 'FISTA' else 0), (0., 100., min(n, 1) if 'rel_tol' in kw else n), (0., 1e-6, n)]
            if 'rel_tol' not in kw and name != 'FISTA' and kw.get('step_size') is not NONE:
                ref = reference(name, kw, n, env[LAM], [])
                res = [residuals(name, q, env[LAM], bool(kw.get('bias'))) for q in ref[:n]]
                for tol in sorted({r * f for rs in res for r in rs for f in (.99, 1.01)}):
                    cases.append((tol, 0., next((k for k in range(n) if max(res[k]) < tol), n)))
            for tol, rel, stop in cases:
                try:
                    if all(truth(evaln(q, {**env, GTOL: tol, sym('rel_tol', 'float'): rel}, apps())) for q in s.facts.log[n0:]):
                        if steps and len(steps) - 1 != stop:
                            rep.bad(R_STOP, label, 'stops after %d iterations instead of %d with gtol=%g, rel_tol=%g (x0=%s, gradient %s*x+%s)' % (len(steps) - 1, stop, tol, rel, nice(X0), nice(CS), nice(BS)), name)
                        else:
                            rep.ok(R_STOP, '%s, gtol=%g, rel_tol=%g' % (label, tol, rel))
                        if succ is not None and steps:
                            won = bool(evaln(succ, {**env, GTOL: tol, sym('rel_tol', 'float'): rel}, apps()))
                            if won and tol == 0 and rel < 1:
                                rep.bad(R_STOP, label, 'reports convergence after %d iterations with gtol=0, rel_tol=%g (x0=%s, gradient %s*x+%s)' % (len(steps) - 1, rel, nice(X0), nice(CS), nice(BS)), name)
                except Unknown as e:
                    rep.unk(R_STOP, label, str(e)[:120])
            # update rule
            try:
                ok = all(truth(evaln(q, env, apps())) for q in s.facts.log[n0:])
            except Unknown as e:
                rep.unk(R_RULE, label, 'condition: ' + str(e)[:120])
                continue
            if not ok:
                continue
            matched = True
            searches = []
            xs = reference(name, kw, n, env[LAM], searches)
            try:
                got = arr(evaln(x, env, apps())).data
                if any(abs(p - q) > 1e-9 for p, q in zip(got, xs[len(steps) - 1])):
                    rep.bad(R_RULE, label, 'iterate %d is %s instead of %s (x0=%s, gradient %s*x+%s)' % (len(steps) - 1, nice(got), nice(xs[len(steps) - 1]), nice(X0), nice(CS), nice(BS)), name)
                else:
                    rep.ok(R_RULE, label)
                for _, k, ts in since(s, 'search'):
                    for t in ts:
                        for tv in (0., .4, 1.):
                            got = evaln(t, dict(env, **{}) | {sym('t', 'float'): tv}, apps())
                            want = fun_([p - tv * q for p, q in zip(*searches[k])])
                            if abs(got - want) > 1e-9:
                                rep.bad(R_RULE, label, 'line search %d minimises another function than the objective along the search direction' % (k + 1), name)
            except Unknown as e:
                rep.unk(R_RULE, label, str(e)[:120])
            # a second run
            s2 = s.fork()
            x1 = A(s2, 'x0')
            s2.event('run')
            again = meth(ip, s2, o, 'minimize', x1, FUNC, GRAD) + [(None, z) for z in ip.cut_off]
            ip.cut_off = []
            for w, z in again:
                if w is None or isinstance(w, Exc):
                    rep.bad(R_FRESH, label, 'the second run %s' % ('does not end' if w is None else 'raises ' + show(w.v)[:60]), name)
                    continue
                y = field(ip, z, w, 'x')
                if y is x:
                    rep.ok(R_FRESH, label)
                    continue
                try:
                    if not all(truth(evaln(q, env, apps())) for q in z.facts.log[n0:]):
                        continue
                    a, b = arr(evaln(y, env, apps())).data, arr(evaln(x, env, apps())).data
                    if any(abs(p - q) > 1e-9 for p, q in zip(a, b)):
                        rep.bad(R_FRESH, label, 'a second run from the same point ends at %s instead of %s' % (nice(a), nice(b)), name)
                    else:
                        rep.ok(R_FRESH, label)
                except Unknown as e:
                    rep.unk(R_FRESH, label, str(e)[:120])
        if not matched:
            rep.unk(R_RULE, label, 'no path for the assignment')
    finally:
        ip.call_hook, ip.unroll_while, ip.cut_off = None, 0, []


def truth(v):
    return all(v.data) if isinstance(v, N) else bool(v)


def nice(v):
    return '(%s)' % ', '.join('%.4g' % x for x in v)


def bfgs(rep, ip):
    label = 'BFGS.minimize'
    hooks(ip)
    h0 = ip.call_hook

    def hook(fv, args, kw, s, n=None):
        name = external(fv)
        if name.endswith('optimize.minimize'):
            d = dict(zip(('fun', 'x0', 'args', 'method', 'jac'), args), **kw)
            s.event('minimize', d)
            return [(sym('scipy result', 'obj'), s)]
        return h0(fv, args, kw, s, n)
    ip.call_hook = hook
    try:
        st = ip.start()
        outs = normal(new(ip, st, 'BFGS', max_iter=C(7), gtol=GTOL, callback=BACK))
        for o, s in outs:
            x0 = A(s, 'x0')
            for v, s1 in normal(meth(ip, s, o, 'minimize', x0, FUNC, GRAD)):
                ev = [e[1] for e in s1.events if e[0] == 'minimize']
                if len(ev) != 1:
                    rep.unk(R_BFGS, label, '%d library calls' % len(ev))
                    continue
                d, x = ev[0], s1.new('arr', val=sym('p', 'arr1'))
                if v is not sym('scipy result', 'obj'):
                    rep.unk(R_BFGS, label, 'result: ' + show(v)[:60])
                for key, f in (('fun', 'objective'), ('jac', 'gradient')):
                    if key not in d:
                        rep.bad(R_BFGS, label, 'no %s is passed' % f, label)
                        continue
                    r = normal(call(ip, d[key], [x], {}, s1.fork())) if ob(d[key]) is not None or d[key] in (FUNC, GRAD) else []
                    for t, s2 in r:
                        t = s2.deep(t)
                        try:
                            env = {sym('p', 'arr1'): N((4,), X0)}
                            got = arr(evaln(t, env, apps())).data
                            want = [fun_(X0)] if key == 'fun' else grad_(X0)
                            if len(got) != len(want) or any(abs(a - b) > 1e-9 for a, b in zip(got, want)):
                                rep.bad(R_BFGS, label, '%s at %s is %s instead of %s' % (f, nice(X0), nice(got), nice(want)), label)
                            else:
                                rep.ok(R_BFGS, label + ', ' + f)
                        except Unknown as e:
                            rep.unk(R_BFGS, label, str(e)[:100])
                if s1.deep(d.get('x0', NONE)) is sym('x0', 'arr2') or 'x0' in show(s1.deep(d.get('x0', NONE))):
                    rep.ok(R_BFGS, label + ', starting point')
                else:
                    rep.bad(R_BFGS, label, 'starting point is %s' % show(s1.deep(d.get('x0', NONE)))[:60], label)
                o_ = show(s1.deep(d.get('options', NONE)))
                if "'maxiter'" in o_ and '7' in o_:
                    rep.ok(R_BFGS, label + ', iteration limit')
                else:
                    rep.unk(R_BFGS, label, 'options: ' + o_[:80])
    finally:
        ip.call_hook = None


def run(rep):
    ip = load()
    for name, what, kw in configs(rep.thorough):
        for n in ((1, 2, 3, 4) if (not what or rep.thorough) and name not in ('FISTA', 'ProximalGradientDescent') else (1, 2, 3) if not what or rep.thorough else (3,) if name != 'ProximalGradientDescent' else (2,)):
            rep.guard(R_FUN, name, lambda: optimizer(rep, ip, name, what, kw, n))
    rep.guard(R_BFGS, 'BFGS', lambda: bfgs(rep, ip))

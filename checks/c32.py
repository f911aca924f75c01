"""C32: hand-written gradients are the derivatives of their losses; proximal operators belong to the same penalty."""
from sa.drive import *
from sa.mat import *
from sa.mat import Mat
from .c20 import X, Y
from sa.evaln import evaln, N, arr
from sa.evalv import Unknown
from .c36 import choose, derivative, true
import math

EXPLAIN = ('Every penalty class (weights symbolic, feature groups absent, disjoint and overlapping) and every loss handed to scipy.optimize.minimize by the Bayesian learners is abstractly interpreted; the loss becomes a '
           'scalar term with explicit sums over entries, which is differentiated symbolically (product and chain rule, Kronecker deltas absorbed by sums) and compared in normal form with the corresponding entry of the '
           'returned gradient. Proximal operators are checked by their optimality condition (x - y) / eta = gradient of the same penalty at y, where y is not zero. A difference is only reported when the two terms disagree at a concrete point.')
EXPLAIN += ' In addition every extracted loss, gradient and proximal operator is compared on assignments: central differences of the loss, and no smaller value of penalty + distance next to the proximal point.'
ASSUME = ['equalities hold in real arithmetic, at points where roots and absolute values are positive', 'kernel matrices given to the kernel learner are symmetric', 'labels are 0 or 1']
FLOOR = 20
GRAD = 'gradient is the derivative of the loss'
PROX = 'proximal operator belongs to the same penalty'
P_, Q_ = sym('p', 'nat'), sym('q', 'nat')
PEN = {n: sym(n, 'float') for n in ('penalty', 'l1_penalty', 'l2_sqrt_penalty', 'delta')}
ETA = sym('eta', 'float')
VALS = {s: [.3, .7, 1.9] for s in PEN.values()}
VALS[ETA] = [.05, .1]
GROUPS = [None, [[0, 2], [1]], [[0, 1], [1, 2]]]


def penalties(ip):
    base = cls(ip, 'PenaltyTerm')
    out = []
    for m in ip.prog.mods:
        for n, v in sorted(ip.st0.obj(ip.modenv[m]).fields.items()):
            c = ob(v)
            if isinstance(c, ClassV) and c.mod.name == m and c is not base and base in c.getmro():
                out.append(c)
    return out


def params(c):
    init = ob(c.find('__init__')[0])
    return [a.arg for a in init.node.args.args[1:]]


def instances(ip, st, c, groups):
    kw = {}
    for p in params(c):
        if p == 'groups':
            kw[p] = NONE if groups is None else st.new('list', val=mk('list', *[st.new('list', val=mk('list', *[C(i) for i in g])) for g in groups]))
        else:
            kw[p] = PEN.get(p, sym(p, 'float'))
            st.facts.assume(lt(ZERO, kw[p]))
    for o, s in new(ip, st, c, **kw):
        if not isinstance(o, Exc):
            yield o, s


def scalar(st, t):
    return Mat(st).scalar(t)


def entry(st, t, idx):
    M = Mat(st)
    sh = M.shape(t)
    if not sh:
        return M.scalar(t)
    return M.el(t, idx[len(idx) - len(sh):])


def compare(rep, rule, what, got, want, st, shapes, vals, consistent=(), symmetric=(), msg='gradient entry'):
    f = st.facts.copy()
    if got is want or vanishes(sub_(got, want), f):
        rep.ok(rule, what)
        return
    d = differ_at(got, want, shapes, vals, consistent=consistent, symmetric=symmetric, tries=120)
    if d is None or d == 'same':
        rep.unk(rule, what, '%s: computes %s, derived %s' % (msg, show(generic(got, f))[:200], show(generic(want, f))[:200]))
    else:
        rep.bad(rule, what, '%s is %s where the loss requires %s' % (msg, show(generic(got, f))[:200], show(generic(want, f))[:200]))


def usable(conds):
    """path conditions that can be evaluated on a concrete matrix"""
    return [c for c in conds if all(x.op != 'ref' for x in walk(c))]


def run(rep):
    ip = load()
    cs = penalties(ip)
    rep.stats['penalty_classes'] = [c.name for c in cs]
    for c in cs:
        for groups in (GROUPS if 'groups' in params(c) else [None]):
            what = c.name + ('' if groups is None else '(groups=%s)' % groups)
            cols = [Q_] if groups is None else [C(0), C(1), C(2)]
            for q in cols:
                def grad():
                    ip.steps = 0
                    for o, s in instances(ip, ip.start(), c, groups):
                        x = A(s, 'X')
                        for r, s1 in meth(ip, s.fork(), o, 'loss', x):
                            if isinstance(r, Exc):
                                continue
                            for g, s2 in meth(ip, s1.fork(), o, 'grad', x):
                                if isinstance(g, Exc):
                                    continue
                                L = scalar(s2, s2.deep(r))
                                w = mk('sub', mk('sub', X, P_), q)
                                G = entry(s2, s2.deep(g), (P_, q))
                                M = Mat(s2)
                                D = deriv(L, w, M)
                                one = s2.facts.decide(eq(length(X), ONE)) is True
                                compare(rep, GRAD, what + ('' if groups is None else ' column %s' % show(q)) + (' (one row)' if one else ''), G, D, s2, {X: (1 if one else 3, 3)},
                                        dict(VALS, **{}) | {P_: [0.] if one else [0., 1., 2.], Q_: [0., 1., 2.]})
                rep.guard(GRAD, what, grad)

                def prox():
                    ip.steps = 0
                    st = ip.start()
                    st.facts.assume(lt(ZERO, ETA))
                    for o, s in instances(ip, st, c, groups):
                        x = A(s, 'X')
                        for r, s1 in meth(ip, s.fork(), o, 'proximal', x, ETA):
                            if isinstance(r, Exc):
                                continue
                            t = s1.deep(r)
                            if t is NONE:
                                return
                            y = sym('Yprox', 'arr2')
                            ys = s1.new('arr', val=y, tag='param:Yprox')
                            for g, s2 in meth(ip, s1.fork(), o, 'grad', ys):
                                if isinstance(g, Exc):
                                    continue
                                yi = entry(s2, t, (P_, q))
                                gi = entry(s2, s2.deep(g), (P_, q))
                                gi = plug(gi, y, lambda idx: entry(s2, t, idx), Mat(s2))
                                inside(s2.facts, yi)
                                cond = [not_(eq(yi, ZERO))]
                                want = div(sub_(mk('sub', mk('sub', X, P_), q), yi), ETA)
                                compare(rep, PROX, what + ('' if groups is None else ' column %s' % show(q)), gi, want, s2, {X: (3, 3)}, dict(VALS) | {P_: [0., 1., 2.], Q_: [0., 1., 2.]},
                                        consistent=cond, msg='gradient at the proximal point')
                if groups is None or not overlap(groups):
                    rep.guard(PROX, what, prox)
    for c in cs:
        for groups in (GROUPS if 'groups' in params(c) else [None]):
            rep.guard(GRAD, c.name, lambda: assignments(rep, ip, c, groups))
    laplace(rep, ip)


def huber(w, penalty, delta):
    return penalty * sum(v * v / 2 if abs(v) <= delta else delta * (abs(v) - delta / 2) for v in arr(w).data)


APPS = {'aideme.active_learning.factorization.utils.compute_huber_penalty': huber}
POINTS = [[.9, -.35, 1.2, .08, -.6, .27, -1.4, .55, -.21], [-.12, .31, .07, 1.8, -.95, .62, .44, -.77, 1.1]]
SETTINGS = [dict(penalty=.7, l1_penalty=.3, l2_sqrt_penalty=.6, delta=.4), dict(penalty=.25, l1_penalty=.8, l2_sqrt_penalty=.15, delta=.9)]


def assignments(rep, ip, c, groups):
    """loss, gradient and proximal operator of a penalty as symbolic functions, compared on assignments of their arguments"""
    what = c.name + ('' if groups is None else '(groups=%s)' % groups)
    st = ip.start()
    st.facts.assume(lt(ZERO, ETA))
    for o, s in instances(ip, st, c, groups):
        x = A(s, 'X')
        n0 = len(s.facts.log)

        def fun(name, *more):
            outs = meth(ip, s.fork(), o, name, x, *more)
            return [(r, q, q.facts.log[n0:]) for r, q in outs]
        loss, grad, prox = fun('loss'), fun('grad'), fun('proximal', ETA)
        for k, vals in enumerate(SETTINGS):
            for n in (1, 2, 3):
                for j, flat in enumerate(POINTS):
                    flat = flat[:3 * n]
                    lab = '%s, %d rows, assignment %d.%d' % (what, n, k + 1, j + 1)

                    def env(w, eta=.3):
                        e = {PEN[a]: v for a, v in vals.items()}
                        e.update({X: N((n, 3), w), ETA: eta})
                        return e

                    def F(w):
                        v = choose(loss, env(w), APPS)
                        v = v.data[0] if isinstance(v, N) else v
                        if v != v or isinstance(v, complex):
                            raise Unknown('loss')
                        return float(v)
                    try:
                        want = derivative(F, flat)
                        g = choose(grad, env(flat), APPS)
                        got = list(arr(g).data)
                        if len(got) == 1 and len(flat) != 1:
                            got = got * len(flat)
                        d = [i for i in range(len(flat)) if abs(got[i] - want[i]) > 1e-5 * (1 + abs(want[i]))]
                        if len(got) != len(want):
                            rep.bad(GRAD, lab, 'the gradient has %d entries for %d weights' % (len(got), len(want)))
                            return
                        if d:
                            rep.bad(GRAD, lab, 'entry (%d, %d) of the gradient is %.5g where the loss changes by %.5g per unit (weights %s, %s)' % (
                                d[0] // 3, d[0] % 3, got[d[0]], want[d[0]], flat, ', '.join('%s=%g' % q for q in vals.items() if PEN[q[0]] in {y for v, q_, l in loss if not isinstance(v, Exc) for y in walk(q_.deep(v))})))
                            return
                        rep.ok(GRAD, lab)
                    except (Unknown, OverflowError, TypeError, IndexError, ValueError, ZeroDivisionError) as e:
                        rep.unk(GRAD, lab, str(e)[:100])
                    if groups is not None and overlap(groups) or any(not isinstance(v, Exc) and v is NONE for v, q, l in prox):
                        continue
                    for eta in (.3, 1.5):
                        try:
                            y = list(arr(choose(prox, env(flat, eta), APPS)).data)
                            if len(y) != len(flat):
                                raise Unknown('shape')

                            def obj(z):
                                return F(z) + sum((a - b) ** 2 for a, b in zip(z, flat)) / (2 * eta)
                            base = obj(y)
                            worst = None
                            for i in range(len(y)):
                                for h in (1e-3, -1e-3, .05, -.05):
                                    z = list(y)
                                    z[i] += h
                                    if obj(z) < base - 1e-8:
                                        worst = i, h
                            if worst:
                                rep.bad(PROX, lab + ', step %g' % eta, 'moving entry (%d, %d) of the proximal point by %g lowers penalty + distance / (2 step): it is not the minimiser (weights %s)' % (
                                    worst[0] // 3, worst[0] % 3, worst[1], flat))
                                return
                            rep.ok(PROX, lab + ', step %g' % eta)
                        except (Unknown, OverflowError, TypeError, IndexError, ValueError, ZeroDivisionError) as e:
                            rep.unk(PROX, lab + ', step %g' % eta, str(e)[:100])


def overlap(groups):
    flat = [i for g in groups for i in g]
    return len(set(flat)) < len(flat)


def inside(facts, y):
    """assume the proximal point is not clipped to zero"""
    for x in walk(y):
        if x.op == 'app' and x.args[0] == 'max' and len(x.args[1]) == 2 and any(num(a) == 0 for a in x.args[1]):
            a = [b for b in x.args[1] if num(b) != 0][0]
            facts.assume(lt(ZERO, a))


def plug(t, y, f, M):
    """replace the entries of the matrix y in t (also inside sums) by f(index)"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if not mentions(x, y):
            return x
        w, pos = root_of(x)
        if w is y and len(pos) == 2:
            r = f(pos)
        elif x.op == 'app' and x.args[0] == 'SUM':
            v = fresh('_s', 'nat')
            n = x.args[1][1]
            n = subst(n, {y: X})
            r = M.total(go(instantiate(x.args[1][0], v)), v, n)
        elif x.op == 'poly':
            r = M.poly(x, go)
        elif x.op == 'app':
            r = mk_elem(x.args[0], tuple(go(z) for z in x.args[1]), x.args[2])
        elif x.op == 'ite':
            r = ite(*[go(z) for z in x.args])
        else:
            r = build(x.op, tuple(go(z) for z in x.args))
        memo[x] = r
        return r
    return go(t)


# ------------------------------------------------------------------ losses handed to scipy
def captured(ip, st, thunk):
    """calls of scipy.optimize.minimize met while running thunk: [(function, args, jac, state)]"""
    got = []

    def hook(fv, args, kw, s, n=None):
        o = ob(fv)
        if isinstance(o, Ext) and o.name == 'scipy.optimize.minimize':
            a = list(args)
            f = a[0] if a else kw.get('fun')
            x0 = a[1] if len(a) > 1 else kw.get('x0')
            extra = a[2] if len(a) > 2 else kw.get('args')
            got.append((f, x0, extra, kw.get('jac'), s.fork()))
        return None
    ip.call_hook = hook
    try:
        for _ in thunk():
            if got:
                break
    finally:
        ip.call_hook = None
    return got


def laplace(rep, ip):
    W = sym('w', 'arr1')
    y = sym('y', 'arr1')
    STD = sym('prior_std', 'float')
    for cname, kws in (('LaplaceBayesianLogisticRegression', [dict(prior=C('gaussian'), prior_std=STD), dict(prior=C('improper')), dict(prior=C('gaussian'), prior_std=STD, add_intercept=TRUE)]),
                       ('KernelLaplaceBayesianLogisticRegression', [dict(prior_std=STD)])):
        for kw in kws:
            what = '%s(%s)' % (cname, ', '.join('%s=%s' % (k, show(v)) for k, v in kw.items()))
            kernel = cname.startswith('Kernel')

            def go():
                ip.steps = 0
                st = ip.start()
                st.facts.assume(lt(ZERO, STD))
                for o, s in new(ip, st, cname, **kw):
                    if isinstance(o, Exc):
                        continue
                    x, yy = A(s, 'X'), A(s, 'y', 'arr1')
                    for f, x0, extra, jac, s1 in captured(ip, s, lambda: meth(ip, s.fork(), o, 'fit', x, yy)):
                        w = A(s1, 'w', 'arr1')
                        ex = s1.deep(extra) if extra is not None else tup()
                        ex = list(s1.obj(extra).val.args) if extra is not None and extra.op == 'ref' else list(extra.args) if extra is not None and extra.op == 'tuple' else [extra] if extra is not None and extra is not NONE else []
                        outs = call(ip, f, [w] + ex, {}, s1)
                        for r, s2 in outs:
                            if isinstance(r, Exc):
                                rep.bad(GRAD, what, 'loss raises ' + str(r.v.args[0]))
                                continue
                            L, G = parts(ip, r, s2, f, jac, [w] + ex)
                            same = {length(y): length(X)}
                            nc = mk('sub', mk('attr', X, 'shape'), ONE)
                            ncw = add(nc, ONE) if kw.get('add_intercept') is TRUE else nc
                            same[length(W)] = ncw
                            if kernel:
                                same[nc] = length(X)
                                same[length(W)] = length(X)
                            M = Mat(s2, same=same, symmetric=[X] if kernel else [])
                            k = P_
                            l = M.scalar(s2.deep(L))
                            sh = M.shape(s2.deep(G))
                            if len(sh) != 1:
                                raise Undecided('gradient shape')
                            g = M.el(s2.deep(G), (k,))
                            d = deriv(l, mk('sub', W, k), M)
                            compare(rep, GRAD, what, g, d, s2, {X: (3, 3) if kernel else (3, 2), y: (3,), W: (3,) if kernel or kw.get('add_intercept') is TRUE else (2,)}, {STD: [.5, 1.5], k: [0., 1.]},
                                    symmetric=[X] if kernel else [])
                            return
                rep.unk(GRAD, what, 'no call of scipy.optimize.minimize found')
            rep.guard(GRAD, what, go)


def parts(ip, r, st, f, jac, args):
    t = st.obj(r).val if r.op == 'ref' and st.obj(r).kind in ('tuple', 'list') else r
    if (jac is None or jac is TRUE) and t.op == 'tuple' and len(t.args) == 2:
        return t.args
    if jac is not None and jac.op != 'const':
        outs = call(ip, jac, args, {}, st)
        if len(outs) == 1 and not isinstance(outs[0][0], Exc):
            return r, outs[0][0]
    raise Undecided('loss and gradient of the optimizer call')

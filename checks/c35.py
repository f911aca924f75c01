"""C35: proximal operators minimise, subgradient tests decide membership."""
from sa.drive import *
from sa.evaln import evaln, N, arr
from sa.evalv import Unknown
import itertools, math, random

EXPLAIN = ('proximal, is_subgradient and loss of every penalty that has a proximal operator are abstractly executed with a symbolic weight matrix, penalties, step and tolerance (feature groups absent and given). '
           'The resulting terms are evaluated on assignments with zero rows, zero entries, shrunk and surviving groups and compared with the definition: the proximal point is the closed-form minimiser of '
           'penalty + squared distance, and a matrix is accepted as subgradient exactly when it lies in the subdifferential. Changing the penalty weight or the groups of a penalty object must act as building a new one.')
ASSUME = ['feature groups are disjoint and cover all columns', 'equalities up to 1e-9']
FLOOR = 60
R_PROX, R_SUB, R_LOSS, R_SET, R_ARG = ('the proximal point is the minimiser', 'subgradient test decides membership in the subdifferential', 'the loss is the penalty', 'setting a parameter acts as building a new penalty', 'arguments are left alone')
L = [sym('l0', 'float'), sym('l1', 'float')]
ETA, TOL = sym('eta', 'float'), sym('tol', 'float')
X, V = sym('x', 'arr2'), sym('v', 'arr2')
GROUPS = {'no groups': None, 'groups {0,1},{2}': [[0, 1], [2]], 'groups {2,0},{1}': [[2, 0], [1]]}
KINDS = [('L1Penalty', 1, 'no groups'), ('L2Penalty', 1, 'no groups')] + [('L2SqrtPenalty', 1, g) for g in GROUPS] + [('SparseGroupLassoPenalty', 2, g) for g in GROUPS]
POINTS = [[.3, -1., 2., .4, -.6, .9], [0., 0., 0., 1., -2., .5], [.05, -.02, .01, .2, .1, -3.], [0., 2., 0., -.04, 0., 0.], [.25, 0., -.25, 0., .6, .1], [0., 0., 0., 0., 0., 0.], [1., 1., 1., -.11, .07, .02]]
PARAMS = [(.25, .2, .5), (.6, .05, 1.), (.01, .3, 2.)]


def nrm(v):
    return math.sqrt(sum(a * a for a in v))


def soft(v, t):
    return [math.copysign(max(abs(a) - t, 0.), a) for a in v]


def shrink(v, t):
    n = nrm(v)
    return [a * max(0., 1 - t / n) if n > 0 else 0. for a in v]


def rows(x):
    return [x[:3], x[3:]]


def bygroup(f, r, gs, t):
    out = list(r)
    for g in gs or [[0, 1, 2]]:
        for i, a in zip(g, f([r[i] for i in g], t)):
            out[i] = a
    return out


def ref_prox(kind, gs, lam, eta, x):
    out = []
    for r in rows(x):
        if kind == 'L1Penalty':
            r = soft(r, lam[0] * eta)
        elif kind == 'L2Penalty':
            r = [a / (1 + 2 * eta * lam[0]) for a in r]
        elif kind == 'L2SqrtPenalty':
            r = bygroup(shrink, r, gs, lam[0] * eta)
        else:
            r = bygroup(shrink, r, gs, lam[0] * eta) if gs else soft(r, lam[0] * eta)
            r = shrink(r, lam[1] * eta)
        out += r
    return out


def ref_loss(kind, gs, lam, x):
    s = 0.
    for r in rows(x):
        if kind == 'L1Penalty':
            s += lam[0] * sum(map(abs, r))
        elif kind == 'L2Penalty':
            s += lam[0] * sum(a * a for a in r)
        elif kind == 'L2SqrtPenalty':
            s += lam[0] * sum(nrm([r[i] for i in g]) for g in gs or [[0, 1, 2]])
        else:
            s += lam[0] * (sum(nrm([r[i] for i in g]) for g in gs) if gs else sum(map(abs, r))) + lam[1] * nrm(r)
    return s


def ref_sub(kind, gs, lam, v, x):
    """smallest violation of membership (0: member)"""
    worst = 0.
    for rv, r in zip(rows(v), rows(x)):
        if kind == 'L2Penalty':
            worst = max([worst] + [abs(a - 2 * lam[0] * b) for a, b in zip(rv, r)])
        elif kind == 'SparseGroupLassoPenalty':
            n = nrm(r)
            if n > 0:
                worst = max(worst, inner([a - lam[1] * b / n for a, b in zip(rv, r)], r, gs, lam[0]))
            else:
                p = bygroup(shrink, rv, gs, lam[0]) if gs else soft(rv, lam[0])
                worst = max(worst, nrm(p) - lam[1])
        else:
            worst = max(worst, inner(rv, r, (gs or [[0, 1, 2]]) if kind == 'L2SqrtPenalty' else None, lam[0]))
    return max(worst, 0.)


def inner(rv, r, gs, lam):
    if not gs:
        return max([abs(a - math.copysign(lam, b)) if b else abs(a) - lam for a, b in zip(rv, r)])
    w = 0.
    for g in gs:
        a, b = [rv[i] for i in g], [r[i] for i in g]
        n = nrm(b)
        w = max(w, nrm([p - lam * q / n for p, q in zip(a, b)]) if n > 0 else nrm(a) - lam)
    return w


def candidates(kind, gs, lam, x):
    """matrices inside and outside of the subdifferential at x"""
    rnd = random.Random(str((kind, gs, lam, x)))
    out = []
    for eta in (.5, 1.):
        # x is the proximal point of x + eta*v for v in the subdifferential: build members from proximal points instead
        z = [a + rnd.uniform(-.3, .3) for a in x]
        p = ref_prox(kind, gs, lam, eta, z)
        out.append((p, [(a - b) / eta for a, b in zip(z, p)]))
    base = []
    for _ in range(4):
        v = [rnd.uniform(-1, 1) * (lam[0] + (lam[1] if kind.startswith('Sparse') else 0)) for _ in x]
        base.append(v)
    g = []
    for r in rows(x):
        if kind == 'L2Penalty':
            g += [2 * lam[0] * a for a in r]
            continue
        n = nrm(r)
        v = [0.] * 3
        if kind in ('L1Penalty',) or kind.startswith('Sparse') and not gs:
            v = [math.copysign(lam[0], a) if a else 0. for a in r]
        else:
            for q in gs or [[0, 1, 2]]:
                m = nrm([r[i] for i in q])
                for i in q:
                    v[i] = lam[0] * r[i] / m if m else 0.
        if kind.startswith('Sparse') and n:
            v = [a + lam[1] * b / n for a, b in zip(v, r)]
        g += v
    out.append((x, g))
    for i in range(6):
        for d in (.9 * lam[0], -.9 * lam[0], 1.5 * lam[0], .2):
            out.append((x, [a + (d if j == i else 0.) for j, a in enumerate(g)]))
    out += [(x, v) for v in base] + [(x, [-a for a in g]), (x, [0.] * 6), (x, [a * 1.2 for a in g])]
    return out


def build(ip, st, kind, n, gs):
    kw = {}
    if gs is not None:
        kw['groups'] = mk('list', *[mk('list', *map(C, g)) for g in gs])
    return normal(new(ip, st, kind, *L[:n], **kw))


def paths(ip, s, o, name, *args):
    out = []
    n0 = len(s.facts.log)
    xs = [a for a in args]
    for v, q in meth(ip, s.fork(), o, name, *xs):
        out.append((v, q, q.facts.log[n0:]))
    return out


def pick(outs, env):
    """the value of the path whose conditions hold"""
    for v, q, log in outs:
        if all(true(evaln(c, env)) for c in log):
            if isinstance(v, Exc):
                return v, q
            return evaln(q.deep(v), env), q
    raise Unknown('no path')


def true(v):
    return all(v.data) if isinstance(v, N) else bool(v)


def nice(v):
    return '(%s)' % ', '.join('%.3g' % x for x in v)


def one(rep, ip, kind, n, gname):
    gs = GROUPS[gname]
    made = [(o, s, '') for o, s in build(ip, ip.start(), kind, n, gs)]
    if not made:
        rep.unk(R_PROX, kind, 'cannot be built')
    # given to a proximal optimizer by a learner
    for o, s in build(ip, ip.start(), kind, n, gs):
        opt, s1 = new1(ip, s, 'ProximalGradientDescent')
        made += [(o, q, ' (used by a learner)') for _, q in normal(new(ip, s1, 'LinearFactorizationLearner', opt, o))]
    # the same parameters set afterwards
    for o, s in build(ip, ip.start(), kind, n, None):
        if gs:
            todo = [q for q, r in ip.setattr(o, 'groups', mk('list', *[mk('list', *map(C, g)) for g in gs]), s, None) if r is None]
            made += [(o, q, ' (groups set later)') for q in todo]
    if gs is None and kind in ('L2SqrtPenalty', 'SparseGroupLassoPenalty'):
        for o, s in build(ip, ip.start(), kind, n, GROUPS['groups {2,0},{1}']):
            made += [(o, q, ' (groups removed later)') for q, r in ip.setattr(o, 'groups', NONE, s, None) if r is None]
    if n == 1:
        for o, s in normal(new(ip, ip.start(), kind, C(Fraction(1, 3)), **({'groups': mk('list', *[mk('list', *map(C, g)) for g in gs])} if gs else {}))):
            made += [(o, q, ' (penalty set later)') for q, r in ip.setattr(o, 'penalty', L[0], s, None) if r is None]
    for o, s, how in made:
        label = '%s, %s%s' % (kind, gname, how)
        x, v = A(s, 'x'), A(s, 'v')
        prox = paths(ip, s, o, 'proximal', x, ETA)
        sub = paths(ip, s, o, 'is_subgradient', v, x, TOL)
        loss = paths(ip, s, o, 'loss', x)
        for name, outs in (('proximal', prox), ('is_subgradient', sub), ('loss', loss)):
            for r, q, _ in outs:
                if isinstance(r, Exc):
                    continue
                for a, w in ((x, X), (v, V)):
                    if q.deep(a) is w:
                        rep.ok(R_ARG, '%s.%s' % (label, name))
                    else:
                        rep.bad(R_ARG, '%s.%s' % (label, name), 'argument becomes ' + show(q.deep(a))[:80], kind + '.' + name)
        for pt, (l0, l1, eta) in itertools.product(POINTS, PARAMS):
            lam = (l0, l1)
            base = {L[0]: l0, L[1]: l1, ETA: eta, TOL: 1e-9, X: N((2, 3), pt)}
            try:
                got, _ = pick(prox, base)
                want = ref_prox(kind, gs, lam, eta, pt)
                if isinstance(got, Exc):
                    rep.bad(R_PROX, label, 'raises ' + show(got.v)[:80], kind + '.proximal')
                elif any(not abs(a - b) <= 1e-9 for a, b in zip(arr(got).data, want)) or len(arr(got).data) != 6:
                    rep.bad(R_PROX, label, 'of %s with penalty %s, step %g is %s instead of %s' % (nice(pt), lam[:n], eta, nice(arr(got).data), nice(want)), kind + '.proximal')
                else:
                    rep.ok(R_PROX, '%s at %s' % (label, nice(pt)))
            except Unknown as e:
                rep.unk(R_PROX, label, str(e)[:120])
            try:
                got, _ = pick(loss, base)
                want = ref_loss(kind, gs, lam, pt)
                if isinstance(got, Exc) or not abs(float(got) - want) <= 1e-9:
                    rep.bad(R_LOSS, label, 'of %s with penalty %s is %s instead of %g' % (nice(pt), lam[:n], got, want), kind + '.loss')
                else:
                    rep.ok(R_LOSS, '%s at %s' % (label, nice(pt)))
            except Unknown as e:
                rep.unk(R_LOSS, label, str(e)[:120])
            for p, w in candidates(kind, gs, lam, pt):
                d = ref_sub(kind, gs, lam, w, p)
                if 1e-12 < d < 1e-3:
                    continue
                for tol in (1e-9, 1e-4):
                    try:
                        got, _ = pick(sub, {**base, X: N((2, 3), p), V: N((2, 3), w), TOL: tol})
                        if isinstance(got, Exc):
                            rep.bad(R_SUB, label, 'raises ' + show(got.v)[:80], kind + '.is_subgradient')
                        elif bool(got) != (d <= 1e-12):
                            rep.bad(R_SUB, label, '%s %s at %s with penalty %s although it is %s the subdifferential' % ('accepts' if got else 'rejects', nice(w), nice(p), lam[:n], 'outside of' if got else 'in'), kind + '.is_subgradient')
                        else:
                            rep.ok(R_SUB, '%s at %s' % (label, nice(p)))
                    except Unknown as e:
                        rep.unk(R_SUB, label, str(e)[:120])


def run(rep):
    ip = load()
    for kind, n, g in KINDS:
        rep.guard(R_PROX, kind, lambda: one(rep, ip, kind, n, g))

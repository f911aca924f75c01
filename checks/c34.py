"""C34: copies are faithful and independent."""
from sa.drive import *
from sa.evaln import evaln, N, arr
from sa.evalv import Unknown
from sa.terms import subst
import math

EXPLAIN = ('Every operation that produces a second object from a first one (LinearFactorizationLearner.copy, prune_irrelevant_subspaces, the clones of the kernel transformers, '
           'Cloneable.clone) is abstractly executed for every kind of optimizer, penalty, bias setting and kernel. The second object must answer every query with the same term as '
           'the first, must share no mutable array with it, and refitting or clearing either must leave the answers of the other unchanged. For pruning, the kept rows are compared '
           'with the documented selection on assignments.')
ASSUME = ['sklearn.base.clone returns an unfitted independent learner with the same parameters', 'optimizer and penalty objects are shared by design']
FLOOR = 60
R_MADE, R_SAME, R_SHARE, R_INDEP, R_PRUNE, R_KEEP = ('a copy can be made', 'the copy answers as the original', 'no array is shared', 'later changes to one leave the other alone',
    'pruning keeps the relevant subspaces, weights with their bias', 'the original is unchanged')
X, W, B = sym('X', 'arr2'), sym('w', 'arr2'), sym('b', 'arr1')
QUERIES = ('predict', 'predict_proba', 'partial_proba', 'partial_predict')
FIELDS = ('weights', 'bias', 'weight_matrix', 'num_subspaces', 'feature_groups', 'add_bias', 'penalty_term', 'optimizer')


def hook(fv, args, kw, s, n=None):
    f = ob(fv)
    name = getattr(f, 'name', '') if isinstance(f, (Ext, Bound)) else ''
    if isinstance(f, Bound) and name == 'minimize':
        r = fresh('found', 'obj')
        s.oattr[(r, 'x')] = s.new('arr', val=sym('found weights', 'arr2'))
        s.oattr[(r, 'fun')] = sym('found loss', 'float')
        return [(r, s)]
    if isinstance(f, Ext) and name.split('.')[-1] in ('normal', 'standard_normal', 'randn') and 'random' in name:
        return [(mk('list', s.new('arr', val=sym('x0', 'arr2'))), s)]
    return None


def answers(ip, st, o, thorough=True):
    """all answers of a learner, as terms, on a fork of the state"""
    out = {}
    for k in FIELDS:
        r = [(s.deep(v) if not isinstance(v, Exc) else v, s) for v, s in ip.getattr(o, k, st.fork())]
        out[k] = [v for v, _ in r]
    for k in QUERIES:
        s = st.fork()
        x = A(s, 'X')
        out[k] = [z.deep(v) if not isinstance(v, Exc) else mk('raises', z.deep(v.v)) for v, z in meth(ip, s, o, k, x)]
    return out


def arrays(s, o, seen=None):
    """heap arrays reachable from an object through its fields (optimizer and penalty excluded)"""
    seen = set() if seen is None else seen
    if getattr(o, 'op', None) != 'ref' or o in seen:
        return set()
    seen.add(o)
    c = s.obj(o)
    if c.kind == 'arr':
        return {o}
    out = set()
    if c.kind == 'inst':
        for k, v in (c.fields or {}).items():
            if k not in ('optimizer', 'penalty_term'):
                out |= arrays(s, v, seen)
    return out


def learner(ip, st, opt, penalty, bias):
    p = NONE
    if penalty:
        a = {'SparseGroupLassoPenalty': [C(Fraction(1, 4)), C(Fraction(1, 8))]}.get(penalty, [C(Fraction(1, 4))])
        p, st = new1(ip, st, penalty, *a)
    o, st = new1(ip, st, opt)
    outs = normal(new(ip, st, 'LinearFactorizationLearner', o, p, TRUE if bias else FALSE))
    return outs


def fitted(ip, s, l, bias):
    x, y = A(s, 'data'), A(s, 'y', 'arr1')
    return [z for v, z in normal(meth(ip, s, l, 'fit', x, y, C(2)))]


def copies(rep, ip, opt, penalty, bias):
    label = 'LinearFactorizationLearner(%s, %s, add_bias=%s).copy()' % (opt, penalty, bias)
    ip.call_hook = hook
    try:
        n = 0
        for l, s in learner(ip, ip.start(), opt, penalty, bias):
            for state, zs in (('unfitted', [s]), ('fitted', fitted(ip, s.fork(), l, bias))):
                for z in zs:
                    what = '%s, %s' % (label, state)
                    before = answers(ip, z, l)
                    outs = meth(ip, z.fork(), l, 'copy')
                    for c, z1 in outs:
                        n += 1
                        if isinstance(c, Exc):
                            rep.bad(R_MADE, what, 'raises ' + show(z1.deep(c.v))[:100], 'LinearFactorizationLearner.copy')
                            continue
                        rep.ok(R_MADE, what)
                        mine = answers(ip, z1, c)
                        for k in before:
                            compare(rep, R_SAME, '%s: %s' % (what, k), mine[k], before[k], 'LinearFactorizationLearner.copy')
                        theirs = answers(ip, z1, l)
                        for k in before:
                            compare(rep, R_KEEP, '%s: %s' % (what, k), theirs[k], before[k], 'LinearFactorizationLearner.copy')
                        common = arrays(z1, l) & arrays(z1, c)
                        if common:
                            rep.bad(R_SHARE, what, 'original and copy share %s' % ', '.join(sorted(show(z1.deep(a))[:40] for a in common)), 'LinearFactorizationLearner.copy')
                        else:
                            rep.ok(R_SHARE, what)
                        for first, second, who in ((l, c, 'original'), (c, l, 'copy')):
                            for op in ('clear', 'fit'):
                                ref = answers(ip, z1, second)
                                if op == 'clear':
                                    nxt = [q for v, q in normal(meth(ip, z1.fork(), first, 'clear'))]
                                else:
                                    nxt = fitted(ip, z1.fork(), first, bias)
                                for q in nxt:
                                    got = answers(ip, q, second)
                                    for k in ref:
                                        compare(rep, R_INDEP, '%s: %s after %s of the %s' % (what, k, op, who), got[k], ref[k], 'LinearFactorizationLearner.copy')
        if not n:
            rep.unk(R_MADE, label, 'no path')
    finally:
        ip.call_hook = None


def strip(v):
    return v


def compare(rep, rule, what, got, want, where):
    bias = 'add_bias=True' in what
    if len(got) == len(want) and all(a is b or isinstance(a, Exc) and isinstance(b, Exc) for a, b in zip(got, want)):
        rep.ok(rule, what)
        return
    try:
        env = {X: N((2, 2), [.3, -1., 2., .4]), sym('data', 'arr2'): N((2, 2), [.1, .2, .3, .4]), sym('found weights', 'arr2'): N((2, 3 if bias else 2), [.3, -.2, .5, 1.1, .7, -.4] if bias else [.3, -.2, .5, 1.1]), sym('x0', 'arr2'): N((2, 3 if bias else 2), [.3, -.2, .5, 1.1, .7, -.4] if bias else [.3, -.2, .5, 1.1])}
        for a in got:
            for b in want:
                p, q = evaln(a, env), evaln(b, env)
                p, q = arr(p), arr(q)
                if p.shape != q.shape or any(abs(u - v) > 1e-9 for u, v in zip(p.data, q.data)):
                    rep.bad(rule, what, 'gives %s instead of %s' % (show(a)[:80], show(b)[:80]), where)
                    return
        rep.ok(rule, what)
    except (Unknown, TypeError, AttributeError) as e:
        flat = [t for t in got + want]
        if len(got) == len(want) == 1 and all(getattr(t, 'op', None) in ('const', 'sym', 'ref') for t in flat):
            rep.bad(rule, what, 'gives %s instead of %s' % (show(got[0])[:80], show(want[0])[:80]), where)
        else:
            rep.unk(rule, what, str(e)[:100])


PRUNE = [([.3, -.2, .5, 1.1, .7, -.4, -2., 1., .3], 'three relevant rows'), ([1e-9, -1e-9, .5, 1.1, .7, -.4, -2., 1., .3], 'first row has no weight'), ([.3, -.2, .5, .1, .1, 9., -2., 1., .3], 'second row is always true'),
         ([.3, -.2, .5, .1, .2, 4., -2., 1., .3], 'second row nearly always true'), ([.1, .1, 8., 1e-10, 0., -3., -2., 1., .3], 'two irrelevant rows'), ([.3, -.2, .5, .004, .003, -1., -.01, .02, 1.], 'small weights')]
POOL = [.3, -1., 2., .4, -.6, .9]


def pruning(rep, ip, opt, pen, bias, args):
    label = 'prune_irrelevant_subspaces(%s, %s, add_bias=%s%s)' % (opt, pen, bias, ''.join(', %s=%g' % (k, float(v.args[0])) for k, v in args.items()))
    where = 'prune_irrelevant_subspaces'
    thr, tol = [float(args[k].args[0]) if k in args else d for k, d in (('threshold', .99), ('tol', 1e-8))]
    ip.call_hook = hook
    try:
        done = 0
        for l, s in learner(ip, ip.start(), opt, pen, bias):
            for z in fitted(ip, s, l, bias):
                before = answers(ip, z, l)
                pool = z.new('arr', val=sym('pool', 'arr2'))
                for c, z1 in call(ip, fn(ip, 'aideme.active_learning.factorization.learn', where), [pool, l], args, z.fork()):
                    done += 1
                    if isinstance(c, Exc):
                        rep.bad(R_MADE, label, 'raises ' + show(z1.deep(c.v))[:100], where)
                        continue
                    theirs = answers(ip, z1, l)
                    for k in before:
                        compare(rep, R_KEEP, '%s: %s' % (label, k), theirs[k], before[k], where)
                    if arrays(z1, l) & arrays(z1, c):
                        rep.bad(R_SHARE, label, 'original and pruned learner share an array', where)
                    else:
                        rep.ok(R_SHARE, label)
                    got = [q.deep(v) for v, q in (attr(ip, z1.fork(), c, k) for k in ('weights', 'bias', 'num_subspaces'))]
                    for flat, name in PRUNE:
                        rows = [flat[i:i + 3] for i in (0, 3, 6)]
                        if not bias:
                            rows = [r[:2] for r in rows]
                        want = []
                        for r in rows:
                            pr = [1 / (1 + math.exp(-(r[0] * POOL[2 * i] + r[1] * POOL[2 * i + 1] + (r[2] if bias else 0)))) for i in range(3)]
                            if min(pr) < thr and math.hypot(r[0], r[1]) > tol:
                                want.append(r)
                        env = {sym('pool', 'arr2'): N((3, 2), POOL), sym('found weights', 'arr2'): N((3, len(rows[0])), [v for r in rows for v in r]), sym('data', 'arr2'): N((2, 2), [.1, .2, .3, .4])}
                        try:
                            w = arr(evaln(got[0], env))
                            k = evaln(got[2], env)
                            b = arr(evaln(got[1], env)).data if bias else None
                            rw = [v for r in want for v in r[:2]]
                            rb = [r[2] for r in want] if bias else None
                            if len(w.data) != len(rw) or any(abs(p - q) > 1e-12 for p, q in zip(w.data, rw)):
                                rep.bad(R_PRUNE, '%s: %s' % (label, name), 'keeps weights %s instead of %s' % (w.data, rw), where)
                            elif bias and (len(b) != len(rb) or any(abs(p - q) > 1e-12 for p, q in zip(b, rb))):
                                rep.bad(R_PRUNE, '%s: %s' % (label, name), 'keeps biases %s instead of %s' % (b, rb), where)
                            elif int(k) != len(want):
                                rep.bad(R_PRUNE, '%s: %s' % (label, name), 'counts %s subspaces instead of %d' % (k, len(want)), where)
                            else:
                                rep.ok(R_PRUNE, '%s: %s' % (label, name))
                        except Unknown as e:
                            rep.unk(R_PRUNE, '%s: %s' % (label, name), str(e)[:120])
        if not done:
            rep.unk(R_PRUNE, label, 'no path')
    finally:
        ip.call_hook = None


def transformed(ip, st, o, train, x):
    out = []
    s = st.fork()
    for _, s1 in normal(meth(ip, s, o, 'fit', A(s, train))) if train else [(None, s)]:
        for v, s2 in meth(ip, s1, o, 'transform', A(s1, x)):
            out.append((mk('raises', s2.deep(v.v)) if isinstance(v, Exc) else s2.deep(v), s2))
    return out


def kernels(rep, ip, kw):
    label = 'KernelTransformer.get(%s).clone()' % ', '.join('%s=%s' % (k, v.args[0]) for k, v in kw.items())
    kt = cls(ip, 'KernelTransformer')
    st = ip.start()
    outs = [(v, s) for f, s0 in ip.getattr(P(kt), 'get', st) for v, s in normal(call(ip, f, [], kw, s0))]
    if not outs:
        rep.unk(R_MADE, label, 'cannot be built')
    for o, s in outs:
        for state in ('unfitted', 'fitted'):
            what = '%s, %s' % (label, state)
            z = s.fork()
            if state == 'fitted':
                z = (normal(meth(ip, z, o, 'fit', A(z, 'first')))[:1] or [(None, z)])[0][1]
            for c, z1 in meth(ip, z.fork(), o, 'clone'):
                if isinstance(c, Exc):
                    rep.bad(R_MADE, what, 'raises ' + show(z1.deep(c.v))[:80], 'clone')
                    continue
                rep.ok(R_MADE, what)
                if c is o:
                    rep.bad(R_SHARE, what, 'the clone is the original', 'clone')
                    continue
                # a clone fitted on other data behaves as a new transformer, and leaves the first one alone
                want = transformed(ip, s, o, 'second', 'X')
                mine = transformed(ip, z1, c, 'second', 'X')
                same(rep, R_SAME, what, [v for v, _ in mine], [v for v, _ in want])
                old = transformed(ip, z1, o, None, 'X')
                for _, z2 in mine[:1]:
                    same(rep, R_INDEP, what, [v for v, _ in transformed(ip, z2, o, None, 'X')], [v for v, _ in old])


def same(rep, rule, what, got, want):
    if len(got) == len(want) and got and all(norm(a) is norm(b) for a, b in zip(got, want)):
        rep.ok(rule, what)
    elif len(got) == len(want) == 1 and all(known(norm(t)) for t in got + want):
        rep.bad(rule, what, 'gives %s instead of %s' % (show(norm(got[0]))[:180], show(norm(want[0]))[:180]), 'clone')
    else:
        rep.unk(rule, what, 'gives %s instead of %s' % ([show(v)[:60] for v in got[:2]], [show(v)[:60] for v in want[:2]]))


def norm(t):
    """a library learner cloned from a learner has the same parameters"""
    m = {x: x.args[1][0] for x in walk(t) if x.op == 'app' and x.args[0].startswith('sklearn.') and x.args[0].endswith('clone') and x.args[1]}
    m.update({x: dict(x.args[0].args[2])[x.args[1]] for x in walk(t) if x.op == 'oattr' and x.args[0].op == 'app' and x.args[1] in dict(x.args[0].args[2])})
    return norm(subst(t, m)) if m else t


def known(t):
    return all(x.op in ('app', 'sym', 'const', 'poly', 'store', 'tuple', 'list', 'slice', 'raises') for x in walk(t))


def factory(rep, ip):
    label = 'Cloneable(klass, **params).clone()'
    st = ip.start()
    k, p = sym('klass', 'obj'), sym('value', 'obj')
    o, st = new1(ip, st, 'Cloneable', k, first=p, second=C(3))
    made = []

    def h(fv, args, kw, s, n=None):
        if fv is k:
            r = fresh('made', 'obj')
            made.append((r, tuple(args), dict(kw)))
            return [(r, s)]
        return None
    ip.call_hook = h
    try:
        a = normal(meth(ip, st, o, 'clone'))
        for v, s in a:
            b = normal(meth(ip, s, o, 'clone'))
            for w, s2 in b:
                calls = [m for m in made if m[0] in (v, w)]
                if v is w:
                    rep.bad(R_SHARE, label, 'two clones are the same object', 'Cloneable.clone')
                elif len(calls) == 2 and all(not m[1] and set(m[2]) == {'first', 'second'} and m[2]['first'] is p and m[2]['second'] is C(3) for m in calls):
                    rep.ok(R_SAME, label)
                elif len(calls) == 2:
                    rep.bad(R_SAME, label, 'built with %s' % [dict((q, show(x)) for q, x in m[2].items()) for m in calls], 'Cloneable.clone')
                else:
                    rep.unk(R_SAME, label, 'the class is not called for every clone')
    finally:
        ip.call_hook = None


def run(rep):
    ip = load()
    for args in ({}, dict(threshold=C(Fraction(9, 10)), tol=C(Fraction(1, 100)))):
        for opt, pen, bias in (('Adam', None, True), ('Adam', None, False), ('FISTA', 'SparseGroupLassoPenalty', True)):
            rep.guard(R_PRUNE, 'prune', lambda: pruning(rep, ip, opt, pen, bias, args))
    for kw in [dict(kernel=C(k)) for k in ('linear', 'rbf', 'poly')] + [dict(kernel=C('rbf'), gamma=C(Fraction(1, 2)), jitter=C(Fraction(1, 10))), dict(kernel=C('rbf'), nystroem_components=C(5)),
                                                                      dict(kernel=C('poly'), nystroem_components=C(7), degree=C(2), gamma=C(Fraction(1, 2)), coef0=C(2))]:
        rep.guard(R_MADE, 'KernelTransformer.clone', lambda: kernels(rep, ip, kw))
    rep.guard(R_MADE, 'Cloneable', lambda: factory(rep, ip))
    for opt, pens in (('Adam', (None, 'L2Penalty')), ('FISTA', ('L1Penalty', 'SparseGroupLassoPenalty')), ('ProximalGradientDescent', ('L2SqrtPenalty',))):
        for pen in pens:
            for bias in (True, False):
                rep.guard(R_MADE, opt, lambda: copies(rep, ip, opt, pen, bias))

"""C37: learned factorizations and partial labels follow from the fitted weights."""
from sa.drive import *
from sa.evaln import evaln, N, arr
from sa.evalv import evalv, Unknown
from checks.c36 import mean_loss, sigmoid, APPS, full, count, margins, derivative
import itertools, math

EXPLAIN = ('compute_factorization, compute_relevant_attributes and compute_factorization_and_partial_labels are abstractly executed; only the numerical minimiser is replaced by an opaque solution. The factorization is compared with the sorted list of the '
           'maximal distinct attribute sets for every 0/1 matrix of up to three rows and columns, the relevant attributes with the attributes (groups) of more than average share, and the whole procedure on assignments: what each of the two models is '
           'trained on and started from, which subspaces survive pruning on the whole data set, and the partial labels derived from the second model.')
ASSUME = ['the minimiser is replaced by an arbitrary solution (C42)', 'compute_loss equals its definition (C44)', 'every subspace keeps a nonzero weight (weights of a row sum to a positive number)']
FLOOR = 20
R_FACT, R_REL, R_KEEP, R_TRAIN, R_RES, R_PART = ('the factorization is the sorted list of the maximal distinct subspaces', 'relevant attributes are those of more than average share', 'the fitted learner is left unchanged',
    'models are trained on the training set from the current weights', 'the returned factorization comes from the relevant attributes of the pruned model', 'partial labels combine the subspaces contained in each factor')
L = 'aideme.active_learning.factorization.learn'
R, W, DATA = sym('R', 'arr2'), sym('w', 'arr2'), sym('data', 'arr2')


def maximal(rows):
    s = sorted({tuple(i for i, v in enumerate(r) if v) for r in rows})
    return tuple(a for a in s if not any(set(a) < set(b) for b in s))


def factorizations(rep, ip):
    st = ip.start()
    name = 'compute_factorization'
    outs = call(ip, fn(ip, L, name), [st.new('arr', val=R)], {}, st)
    terms = [(r, s, s.facts.log) for r, s in outs]
    sizes = [(n, d) for d in (1, 2, 3) for n in (1, 2, 3)] + ([(4, 3), (3, 4)] if rep.thorough else [])
    for n, d in sizes:
        what = '%s: every %d x %d matrix' % (name, n, d)
        bad = unk = None
        for bits in itertools.product((False, True), repeat=n * d):
            m = tuple(tuple(bits[i * d:(i + 1) * d]) for i in range(n))
            env = {R: m}
            try:
                hit = [(r, s) for r, s, log in terms if all(evalv(c, env) for c in log)]
                if len(hit) != 1:
                    raise Unknown('%d paths' % len(hit))
                r, s = hit[0]
                if isinstance(r, Exc):
                    bad = bad or 'raises %s for %s' % (show(s.deep(r.v))[:60], [list(map(int, x)) for x in m])
                    continue
                got = evalv(s.deep(r), env)
                got = tuple(tuple(int(v) for v in g) for g in got)
            except (Unknown, TypeError, ValueError, IndexError) as e:
                unk = unk or str(e)[:100]
                continue
            if got != maximal(m):
                bad = bad or 'gives %s instead of %s for %s' % (list(map(list, got)), list(map(list, maximal(m))), [list(map(int, x)) for x in m])
        if bad:
            rep.bad(R_FACT, what, bad, name)
        elif unk:
            rep.unk(R_FACT, what, unk)
        else:
            rep.ok(R_FACT, what)


ROWS = [[[.3, -.2, .5], [1.1, .7, -.4]], [[-2., 1., .3], [.1, .1, .1], [5., 0., 0.]], [[.3, -.2, .5], [-.4, 1.2, 1.1], [0., .6, -.61]], [[-.1, -.5, -.6]]]
GROUPS = [None, [[0, 1], [2]], [[2, 0], [1]], [[0], [1], [2]], [[0, 1, 2]]]


def shares(rows, groups):
    out = []
    for r in rows:
        a = [abs(v) for v in r]
        t = sum(a)
        if groups is None:
            out.append([v / t > 1 / len(r) for v in a])
            continue
        g = {i: sum(a[j] for j in grp) / t for grp in groups for i in grp}
        out.append([g[i] > 1 / len(groups) for i in range(len(r))])
    return out


def const(mask):
    return mk('list', *[mk('list', *[TRUE if v else FALSE for v in r]) for r in mask])


def hook(caught, mask=None, ip=None):
    def h(fv, args, kw, s, n=None):
        f = ob(fv)
        name = getattr(f, 'name', '') if isinstance(f, (Ext, Bound, Func, ExtBound)) else ''
        if isinstance(f, Bound) and name == 'minimize':
            k = len([e for e in s.events if e[0] == 'minimized'])
            s.event('minimized', k)
            caught.append(('min', dict(zip(('x0', 'func', 'grad'), args), **kw), s.fork()))
            r = fresh('found', 'obj')
            s.oattr[(r, 'x')] = s.new('arr', val=sym('found %d' % k, 'arr2'))
            s.oattr[(r, 'fun')] = sym('loss %d' % k, 'float')
            return [(r, s)]
        if mask is not None and isinstance(f, Bound) and name == 'fit':
            # the start is recorded; the fit itself runs from an arbitrary one (C36 decides that a fit starts from its x0)
            par = [a.arg for a in f.func.node.args.args][1:]
            kw2 = {**dict(zip(par, args)), **kw}
            x0 = kw2.pop('x0', NONE)
            caught.append(('fit', {**kw2, 'x0': x0}, s.fork()))
            old, ip.call_hook = ip.call_hook, hook(caught)
            try:
                return list(meth(ip, s, f.self_, 'fit', **kw2))
            finally:
                ip.call_hook = old
        if mask is not None and isinstance(f, Func) and name == 'compute_relevant_attributes':
            caught.append(('rel', args, s.fork()))
            return [(const(mask), s)]
        if mask is not None and isinstance(f, Func) and name == 'compute_factorization' and s.deep((list(args) + list(kw.values()))[0]) is const(mask):
            return [(mk('list', *[mk('list', *map(C, g)) for g in maximal(mask)]), s)]
        if isinstance(f, Ext) and name.split('.')[-1] in ('normal', 'standard_normal', 'randn') and 'random' in name:
            return [(mk('list', s.new('arr', val=sym('drawn', 'arr2'))), s)]
        return None
    return h


def learner(ip, st, opt, pen, bias, factorization, found):
    """fitted learners, whose weights come from the opaque solution"""
    p = NONE
    if pen:
        p, st = new1(ip, st, pen, *([C(Fraction(1, 4))] * (2 if pen.startswith('Sparse') else 1)))
    o, st = new1(ip, st, opt)
    l, st = new1(ip, st, 'LinearFactorizationLearner', o, p, TRUE if bias else FALSE)
    return [(l, s) for _, s in normal(meth(ip, st, l, 'fit', A(st, 'data0'), A(st, 'y0', 'arr1'), factorization))]


def relevance(rep, ip):
    name = 'compute_relevant_attributes'
    for groups, bias in itertools.product(GROUPS, (False, True)):
        label = '%s(groups=%s, add_bias=%s)' % (name, groups, bias)
        caught = []
        ip.call_hook = hook(caught)
        try:
            st = ip.start()
            p = NONE
            if groups:
                gt = mk('list', *[mk('list', *map(C, g)) for g in groups])
                p, st = new1(ip, st, 'SparseGroupLassoPenalty', C(Fraction(1, 4)), C(Fraction(1, 4)), gt)
            o, st = new1(ip, st, 'Adam')
            l, st = new1(ip, st, 'LinearFactorizationLearner', o, p, TRUE if bias else FALSE)
            d = 3 + bias
            for _, s in normal(meth(ip, st, l, 'fit', A(st, 'data0'), A(st, 'y0', 'arr1'), C(2))):
                base = s.facts.log
                before = [q.deep(v) for v, q in (attr(ip, s.fork(), l, k) for k in ('weight_matrix', 'num_subspaces'))]
                for r, z in call(ip, fn(ip, L, name), [l], {}, s.fork()):
                    if isinstance(r, Exc):
                        rep.bad(R_REL, label, 'raises ' + show(z.deep(r.v))[:80], name)
                        continue
                    after = [q.deep(v) for v, q in (attr(ip, z.fork(), l, k) for k in ('weight_matrix', 'num_subspaces'))]
                    for rows in ROWS:
                        what = '%s: weights %s' % (label, rows)
                        flat = [v for x in rows for v in x + ([.7] if bias else [])]
                        env = {sym('found 0', 'arr2'): N((len(rows), d), flat), sym('data0', 'arr2'): N((2, 3), [.1] * 6), sym('y0', 'arr1'): N((2,), [1., 0.]), sym('drawn', 'arr2'): N((2, d), [.1] * 2 * d)}
                        want = shares(rows, groups)
                        try:
                            got = arr(evaln(z.deep(r), env))
                            flag = [[bool(v) for v in x] for x in got.rows()]
                            if got.shape != (len(rows), 3) or flag != want:
                                rep.bad(R_REL, what, 'gives %s instead of %s' % (flag, want), name)
                            else:
                                rep.ok(R_REL, what)
                        except (Unknown, IndexError) as e:
                            rep.unk(R_REL, what, str(e)[:100])
                        try:
                            if any(arr(evaln(a, env)).data != arr(evaln(b, env)).data for a, b in zip(before, after)):
                                rep.bad(R_KEEP, what, 'the weights of the learner change', name)
                            else:
                                rep.ok(R_KEEP, what)
                        except Unknown as e:
                            rep.unk(R_KEEP, what, str(e)[:100])
        finally:
            ip.call_hook = None


XV, YV = [[.3, -1., 2.], [.4, -.6, .9], [-1.2, .7, .1], [.8, 1.5, -.4]], [1., 0., 0., 1.]
POOL = [[.2, .3, .1], [-.5, 1., -1.], [4., -3., .5], [.4, .3, .2], [-2., .1, .9]]
START = [[.5, -.3, .8, .2], [-.7, .4, .1, .9], [-.6, .35, -.15, .25], [.2, .1, -.3, .6]]
# solution of the first model (four subspaces: one always true on the data set, one without weights), relevant attributes of the two others
FIRST = [[.3, -.2, .5, .4], [.01, 0., 0., 9.], [1., 1.5, -2., -.3], [0., 0., 1e-10, -1.]]
FIRST3 = [[.3, -.2, .5, .4], [2., -.7, .3, .8], [1., 1.5, -2., -.3], [0., 0., 1e-10, -1.]]
FIRST4 = [[.3, -.2, .5, .4], [2., -.7, .3, .8], [1., 1.5, -2., -.3], [.4, .6, .8, -1.]]
CASES = [(FIRST, [[1, 0, 0], [1, 1, 0]]), (FIRST, [[0, 1, 1], [1, 0, 0]]), (FIRST, [[0, 1, 0], [0, 1, 0]]), (FIRST3, [[0, 1, 0], [0, 1, 1], [1, 1, 0]]), (FIRST3, [[1, 0, 1], [0, 0, 1], [0, 1, 0]]),
         (FIRST4, [[0, 0, 1], [1, 0, 1], [0, 0, 1], [0, 1, 1]]), (FIRST4, [[1, 1, 0], [0, 1, 0], [0, 0, 1], [0, 0, 1]])]
SECOND = [.5, 1.3, .8, .6, .7, .4, 1.1, .9, .6, .35, .15, .25, 1.5, -.8, .45, .3]


def kept(rows):
    out = []
    for r in rows:
        p = [sigmoid(sum(a * b for a, b in zip(x, r)) + r[3]) for x in POOL]
        if min(p) < .99 and math.sqrt(sum(v * v for v in r[:3])) > 1e-8:
            out.append(r)
    return out


def possible(log, env, seen={}):
    """False when some condition of a path is known to fail under the assignment"""
    for c in log:
        try:
            v = evaln(c, env, APPS)
        except Unknown:
            continue
        if isinstance(v, (bool, int, float)) and not v:
            return False
    return True


def close(a, b):
    a, b = arr(a), arr(b)
    return len(a.data) == len(b.data) and all(abs(u - v) <= 1e-9 * (1 + abs(v)) for u, v in zip(a.data, b.data))


def procedure(rep, ip):
    name = 'compute_factorization_and_partial_labels'
    for first, mask in CASES:
        label = '%s, relevant attributes %s' % (name, mask)
        caught = []
        ip.call_hook = hook(caught)
        try:
            st = ip.start()
            d = fresh('dataset', 'obj')
            st.oattr[(d, 'data')] = st.new('arr', val=DATA)
            ts = [q.deep(v) for v, q in normal(meth(ip, st.fork(), d, 'training_set'))][0]
            TX, TY = [mk('sub', ts, C(i)) for i in (0, 1)]
            o, st = new1(ip, st, 'Adam')
            l, st = new1(ip, st, 'LinearFactorizationLearner', o)
            for _, s in normal(meth(ip, st, l, 'fit', A(st, 'data0'), A(st, 'y0', 'arr1'), C(4))):
                del caught[:]
                m0 = len([e for e in s.events if e[0] == 'minimized'])
                ip.call_hook = hook(caught, mask, ip)
                outs = call(ip, fn(ip, L, name), [d, l], {}, s.fork())
                ip.call_hook = hook(caught)
                subs = [[i for i, v in enumerate(r) if v] for r in mask]
                n2 = sum(len(g) + 1 for g in subs)
                env = {TX: N((4, 3), [v for r in XV for v in r]), TY: N((4,), YV), DATA: N((5, 3), [v for r in POOL for v in r]), sym('found 0', 'arr2'): N((4, 4), [v for r in START for v in r]),
                       sym('found 1', 'arr2'): N((4, 4), [v for r in first for v in r]), sym('found 2', 'arr2'): N((n2,), SECOND[:n2]),
                       sym('data0', 'arr2'): N((4, 3), [v for r in XV for v in r]), sym('y0', 'arr1'): N((4,), YV), sym('drawn', 'arr2'): N((4, 4), [.1] * 16), sym('loss 0', 'float'): .3, sym('loss 1', 'float'): .2, sym('loss 2', 'float'): .25}
                if not possible(s.facts.log, env):
                    continue
                mins, rels, fits = [[c for c in caught if c[0] == k and possible(c[2].facts.log, env)] for k in ('min', 'rel', 'fit')]
                outs = [(r, z) for r, z in outs if possible(z.facts.log, env)]
                if len(mins) != 2 or len(fits) != 2 or len(rels) != 1 or len(outs) != 1:
                    rep.unk(R_TRAIN, label, '%d fits, %d sets of relevant attributes, %d outcomes' % (len(mins), len(rels), len(outs)))
                    continue
                want, pr = maximal(mask), kept(first)
                if len(pr) != len(mask):
                    raise Unknown('case')
                # 1. training
                for k, (what, x0, rows, pen) in enumerate((('first model', [v for r in START for v in r], None, True), ('second model', [r[i] for r, g in zip(pr, subs) for i in g + [3]], subs, False))):
                    _, a, sm = mins[k]
                    try:
                        _, fa, fs = fits[k]
                        want0 = arr([START, pr][k])
                        got0 = NONE if fa['x0'] is NONE else arr(evaln(fs.deep(fa['x0']), env, APPS))
                        if got0 is NONE or got0.shape != want0.shape or not close(got0, want0):
                            rep.bad(R_TRAIN, '%s: start of the %s' % (label, what), 'starts at %s instead of %s' % (got0 if got0 is not NONE else 'a random point', want0), name)
                        else:
                            rep.ok(R_TRAIN, '%s: start of the %s' % (label, what))
                        flat = x0
                        w = full(4 if rows is None else rows, 1, flat)
                        mm = margins(w, 1, XV)
                        loss = mean_loss(N((4, len(w)), [v for r in mm for v in r]), N((4,), YV))
                        if pen:
                            loss += sum(1e-4 * (sum(map(abs, r[:3])) + math.sqrt(sum(v * v for v in r[:3]))) for r in w)
                        P_ = sym('at', 'arr2')
                        sf = sm.fork()
                        vs = call(ip, a['func'], [sf.new('arr', val=P_)], {}, sf)
                        e2 = {**env, P_: N((4, 4) if rows is None else (len(flat),), flat)}
                        vs = [evaln(z.deep(v), e2, APPS) for v, z in vs if not isinstance(v, Exc) and possible(z.facts.log, e2)]
                        if len(vs) != 1:
                            raise Unknown('objective')
                        if abs(vs[0] - loss) > 1e-9:
                            rep.bad(R_TRAIN, '%s: objective of the %s' % (label, what), 'is %g instead of %g' % (vs[0], loss), name)
                        else:
                            rep.ok(R_TRAIN, '%s: objective of the %s' % (label, what))
                    except (Unknown, IndexError, KeyError) as e:
                        rep.unk(R_TRAIN, '%s: %s' % (label, what), str(e)[:100])
                # 2. pruning on the whole data set
                _, ra, rs = rels[0]
                try:
                    w, q = attr(ip, rs.fork(), ra[0], 'weight_matrix')
                    if not close(evaln(q.deep(w), env, APPS), arr(pr)):
                        rep.bad(R_RES, '%s: pruned model' % label, 'relevant attributes are those of %s instead of %s' % (evaln(q.deep(w), env, APPS), pr), name)
                    else:
                        rep.ok(R_RES, '%s: pruned model' % label)
                except (Unknown, IndexError) as e:
                    rep.unk(R_RES, '%s: pruned model' % label, str(e)[:100])
                # 3. results
                r, z = outs[0]
                if isinstance(r, Exc):
                    rep.bad(R_RES, label, 'raises ' + show(z.deep(r.v))[:80], name)
                    continue
                r = z.deep(r)
                if r.op != 'tuple' or len(r.args) != 2:
                    rep.unk(R_RES, label, 'result ' + show(r)[:60])
                    continue
                try:
                    got = tuple(tuple(int(v) for v in g) for g in evalv(r.args[0], {}))
                    if got != want:
                        rep.bad(R_RES, label, 'factorization %s instead of %s' % (list(map(list, got)), list(map(list, want))), name)
                    else:
                        rep.ok(R_RES, label)
                except (Unknown, TypeError) as e:
                    rep.unk(R_RES, label, str(e)[:100])
                bad = None
                try:
                    for sgn in itertools.product((1, -1), repeat=len(subs)):
                        flat, it = [], iter(SECOND)
                        for g, sg in zip(subs, sgn):
                            flat += [sg * next(it) for _ in g] + [next(it)]
                        w = full(subs, 1, flat)
                        p = [[sigmoid(v) for v in mr] for mr in margins(w, 1, XV)]
                        exp = [[float(math.prod(row[j] ** (1 / len([f for f in want if set(g) <= set(f)])) for j, g in enumerate(subs) if set(g) <= set(f)) > .5) for f in want] for row in p]
                        got = arr(evaln(r.args[1], {**env, sym('found 2', 'arr2'): N((n2,), flat)}, APPS))
                        if got.shape != (4, len(want)) or [float(v) for v in got.data] != [v for x in exp for v in x]:
                            bad = bad or 'partial labels %s instead of %s for the weights %s' % (got, exp, flat)
                    if bad:
                        rep.bad(R_PART, label, bad, name)
                    else:
                        rep.ok(R_PART, label)
                except (Unknown, IndexError) as e:
                    rep.unk(R_PART, label, str(e)[:100])
        finally:
            ip.call_hook = None


def run(rep):
    ip = load()
    rep.guard(R_FACT, 'compute_factorization', lambda: factorizations(rep, ip))
    rep.guard(R_REL, 'compute_relevant_attributes', lambda: relevance(rep, ip))
    rep.guard(R_PART, 'compute_factorization_and_partial_labels', lambda: procedure(rep, ip))
    rep.stats['procedures'] = 3

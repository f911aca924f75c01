"""C46: kernel transformers map points to their kernel with the points of the last fit."""
from checks.c20 import *

EXPLAIN = ('KernelTransformer.get is called with every kernel name and with symbolic parameters (jitter absent or positive, Nystroem components absent or symbolic); the transformer it returns is fitted on one point set, fitted again on '
           'another and asked to transform a third. Entry (i, j) of the result must be the kernel the parameters define, between point i and the j-th point of the last fit. For a Nystroem transformer the object that '
           'answers must have been built with exactly the given settings and its last fit must be on the last point set. Over a factorization, no array may be sized by the requested number of components, since fewer '
           'points than components give fewer columns.')
ASSUME = ['sklearn linear_kernel, rbf_kernel, polynomial_kernel and Nystroem do what they document', 'equalities hold in real arithmetic']
FLOOR = 20
R_ENT, R_NY, R_FT, R_N, R_COL = ('entry (i, j) is the kernel of point i and fitted point j', 'the Nystroem map has the given settings and the last fit', 'fit_transform fits and then transforms', 'one component per fitted point', 'columns follow the fit, not the requested number')
SK = 'sklearn.metrics.pairwise.'
DEG, NC = sym('degree', 'nat'), sym('components', 'nat')
CK = {'linear': 'linear', 'rbf': 'rbf', 'gaussian': 'rbf', 'poly': 'polynomial'}


def reference(k, kw, a, b):
    g = (('gamma', kw.get('gamma', NONE)),)
    if CK[k] == 'linear':
        return mk('app', SK + 'linear_kernel', (a, b), ())
    if CK[k] == 'rbf':
        return mk('app', SK + 'rbf_kernel', (a, b), g)
    return mk('app', SK + 'polynomial_kernel', (a, b), (('coef0', kw.get('coef0', ONE)), ('degree', kw.get('degree', C(3)))) + g)


def made(ip, kw):
    """transformers KernelTransformer.get returns for the settings"""
    ip.steps = 0
    st = ip.start()
    for p in (G, JI):
        st.facts.assume(lt(ZERO, p))
    st.facts.assume(lt(ZERO, NC))
    outs = [(o, s) for o, s in meth(ip, st, P(cls(ip, 'KernelTransformer')), 'get', **kw) if not isinstance(o, Exc)]
    if not outs:
        raise Undecided('no transformer is returned')
    return outs


def fits(ip, s, o, *names):
    """states after fitting on the named point sets in turn: [(array of the last, st)]"""
    cur = [(None, s.fork())]
    for n in names:
        nxt = []
        for _, z in cur:
            x = A(z, n)
            nxt += [(x, z2) for r, z2 in meth(ip, z, o, 'fit', x) if not isinstance(r, Exc)]
        cur = nxt
    return cur


def on(ip, st, o, m, name):
    z = st.fork()
    return list(paths(ip, z, o, m, A(z, name)))


def exact(rep, ip, k, kw):
    what = 'KernelTransformer.get(%s)' % ', '.join('%s=%s' % (n, show(v)) for n, v in kw.items())
    for o, s in made(ip, kw):
        n = 0
        for x, z in fits(ip, s, o, 'Z', 'X'):
            for T, z2 in on(ip, z, o, 'transform', 'Y'):
                n += 1
                rep.guard(R_ENT, what, lambda: same(rep, R_ENT, what, entry(z2, T, (I_, J_)), entry(z2, reference(k, kw, Y, X), (I_, J_)), z2, 'transform(Y) after fit(X)'))
            for v, z2 in ip.getattr(o, 'n_components', z.fork()):
                if not isinstance(v, Exc):
                    v = z2.deep(v)
                    if v is mk('len', X) or z2.facts.decide(eq(v, mk('len', X))) is True:
                        rep.ok(R_N, what)
                    else:
                        d = differ_at(v, mk('len', X), {X: (3, 2)}, {})
                        (rep.unk if d in (None, 'same') else rep.bad)(R_N, what, '%s instead of the number of fitted points' % show(v)[:80])
        if not n:
            rep.unk(R_ENT, what, 'no path transforms')
        for off in (False, True):
            st = s.fork()
            if off:
                st.facts.assume(not_(eq(I_, J_)))
            i, j = (I_, J_) if off else (I_, I_)
            first = on(ip, st, o, 'fit_transform', 'X')
            if not first:
                rep.bad(R_FT, what, 'fit_transform of a new transformer always raises')
            again = [r for _, z in fits(ip, st, o, 'Z')[:1] for r in on(ip, z, o, 'fit_transform', 'X')]
            for T, z2 in first + again:
                want = entry(z2, reference(k, kw, X, X), (i, j))
                if not off and 'jitter' in kw:
                    want = add(want, JI)
                rep.guard(R_FT, what, lambda: same(rep, R_FT, what + (' off the diagonal' if off else ' on the diagonal'), entry(z2, T, (i, j)), want, z2, 'fit_transform(X)'))


def same(rep, rule, what, a, b, st, msg):
    if a is b or st.facts.decide(eq(a, b)) is True:
        rep.ok(rule, what)
        return
    d = differ_at(a, b, {X: (3, 2), Y: (3, 2), sym('Z', 'arr2'): (3, 2)}, {**VALS, DEG: [2., 3.]}, consistent=None)
    if d == 'same':
        rep.ok(rule, what)
    elif d is None:
        rep.unk(rule, what, '%s: %s against %s' % (msg, show(a)[:150], show(b)[:150]))
    else:
        rep.bad(rule, what, '%s: %s against %s' % (msg, show(a)[:200], show(b)[:200]))


NY = 'sklearn.kernel_approximation.Nystroem'
DEF = dict(kernel=C('rbf'), gamma=NONE, coef0=NONE, degree=NONE, n_components=C(100), kernel_params=NONE, random_state=NONE, n_jobs=NONE)
USES = dict(linear=(), rbf=('gamma',), poly=('gamma', 'coef0', 'degree'))


def settings(t):
    if t.op != 'app' or t.args[0] != NY:
        return None
    d = dict(DEF, **{n: v for n, v in t.args[2] if n != '@'})
    if t.args[1]:
        d['kernel'] = t.args[1][0]
    return d


def nystroem(rep, ip, k, kw):
    what = 'KernelTransformer.get(%s)' % ', '.join('%s=%s' % (n, show(v)) for n, v in kw.items())
    want = dict(kernel=kw['kernel'], n_components=NC)
    for p in USES[k]:
        want[p] = kw.get(p, {'degree': C(3), 'coef0': ONE}.get(p, NONE))
    for o, s in made(ip, kw):
        runs = [('transform(Y) after fit(Z), fit(X)', Y, z2, T) for x, z in fits(ip, s, o, 'Z', 'X') for T, z2 in on(ip, z, o, 'transform', 'Y')]
        st = s.fork()
        runs += [('fit_transform(X)', X, z2, T) for T, z2 in on(ip, st, o, 'fit_transform', 'X')]
        if len(runs) < 2:
            rep.unk(R_NY, what, 'no path transforms')
        for lab, arg, z, T in runs:
            w = '%s: %s' % (what, lab)
            if not (T.op == 'app' and T.args[0] in ('.transform', '.fit_transform') and T.args[1]):
                rep.unk(R_NY, w, 'result is %s' % show(T)[:150])
                continue
            recv = T.args[1][0]
            got = settings(recv)
            if got is None:
                rep.unk(R_NY, w, 'answered by %s' % show(recv)[:150])
                continue
            for p, v in sorted(want.items()):
                if got[p] is v or z.facts.decide(eq(got[p], v)) is True:
                    rep.ok(R_NY, w + ': ' + p)
                else:
                    rep.bad(R_NY, w + ': ' + p, '%s is %s instead of %s' % (p, show(got[p]), show(v)))
            last = None
            for e in flat_events(z.events):
                if e[0] == 'call' and e[2] in ('fit', 'fit_transform') and z.deep(e[1]) is recv:
                    a = list(e[3]) + [v for _, v in e[4]]
                    last = z.deep(a[0]) if a else None
            if last is X:
                rep.ok(R_NY, w + ': last fit')
            elif last is None or last in (Y, sym('Z', 'arr2')):
                rep.bad(R_NY, w + ': last fit', 'last fitted on %s instead of X' % ('nothing' if last is None else show(last)))
            else:
                rep.unk(R_NY, w + ': last fit', show(last)[:150])
            if len(T.args[1]) > 1 and T.args[1][1] is not arg:
                (rep.bad if T.args[1][1] in (X, Y, sym('Z', 'arr2')) else rep.unk)(R_NY, w + ': argument', 'maps %s instead of %s' % (show(T.args[1][1])[:100], show(arg)))


def sized(t):
    """the shape of an array made inside t that is the requested number of components itself"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not hasattr(x, 'op'):
            continue
        todo.extend(x.args)
        head = x.args[0] if x.op == 'app' else x.op
        if head in MAKE:
            shape = x.args[1][:1] if x.op == 'app' else x.args[:1]
            for e in shape:
                for d in (e if isinstance(e, tuple) else e.args if getattr(e, 'op', None) in ('tuple', 'list') else (e,)):
                    if d is NC or getattr(d, 'op', None) == 'oattr' and d.args[1] == 'n_components':
                        return x
    return None


MAKE = ('np.empty', 'np.zeros', 'np.ones', 'np.full', 'np.ndarray')


def columns(rep, ip):
    what = 'FactorizedKernelTransform over Nystroem'
    for o, s in made(ip, dict(kernel=C('rbf'), gamma=G, nystroem_components=NC)):
        for g in ([[0], [1]], [[0, 1], [1]]):
            lst = s.new('list', val=mk('list', *[s.new('list', val=mk('list', *[C(i) for i in q])) for q in g]))
            for f, s1 in new(ip, s, 'FactorizedKernelTransform', o, lst):
                if isinstance(f, Exc):
                    continue
                for m in ('transform', 'fit_transform'):
                    starts = fits(ip, s1, f, 'X') if m == 'transform' else [(None, s1.fork())]
                    for _, z in starts:
                        n0 = len(z.events)
                        done = False
                        for T, z2 in on(ip, z, f, m, 'Y'):
                            done = True
                            hit = sized(T)
                            if hit is not None:
                                rep.bad(R_COL, '%s%s.%s' % (what, g, m), 'the result is an array sized by the requested number of components (%s), but a fit on fewer points gives fewer columns' % show(hit)[:60])
                            else:
                                rep.ok(R_COL, '%s%s.%s' % (what, g, m))
                        if not done:
                            rep.unk(R_COL, '%s%s.%s' % (what, g, m), 'no path')


def run(rep):
    ip = load()
    for k in ('linear', 'rbf', 'gaussian', 'poly'):
        opts = [dict()]
        if k != 'linear':
            opts.append(dict(gamma=G))
        if k == 'poly':
            opts += [dict(gamma=G, coef0=CO, degree=C(2)), dict(coef0=CO)]
        for kw in opts:
            kw = dict(kernel=C(k), **kw)
            for j in (False, True):
                q = dict(kw, jitter=JI) if j else kw
                rep.guard(R_ENT, 'KernelTransformer ' + k, lambda: exact(rep, ip, k, q))
            if k != 'gaussian':
                rep.guard(R_NY, 'KernelTransformer ' + k, lambda: nystroem(rep, ip, k, dict(kw, nystroem_components=NC)))
    rep.guard(R_COL, 'FactorizedKernelTransform', lambda: columns(rep, ip))

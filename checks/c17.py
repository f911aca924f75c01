"""C17: documented option names select the documented implementation; every other string raises ValueError."""
from sa.drive import *
from .c16 import entry, outcomes

EXPLAIN = ('Each entry point with a named option is abstractly interpreted once per documented name (several letter cases where the option is case-insensitive), checking which package class the constructed object '
           'reaches or which term it computes, and once with a symbolic string assumed different from every documented name, where every path must raise ValueError.')
ASSUME = ['a string option is compared by equality, membership or dictionary lookup (after upper/lower); other string processing is reported as undecided']
FLOOR = 100
AL = 'aideme.active_learning.'
V = AL + 'version_space.'


def reach(ip, st, v, seen=None):
    """classes of the package reachable from a value"""
    out, todo, seen = [], [v], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ref':
            o = st.obj(x)
            if o.cls is not None:
                out.append(o.cls.name)
            if o.fields:
                todo.extend(o.fields.values())
            if o.val is not None:
                todo.append(o.val)
        else:
            todo.extend(a for a in subterms1(x))
    return out


def subterms1(t):
    st = list(t.args)
    while st:
        a = st.pop()
        if isinstance(a, T):
            yield a
        elif isinstance(a, (tuple, list)):
            st.extend(a)


def cases(name):
    return sorted({name.lower(), name.upper(), name.lower().capitalize()})


def dispatch(rep, ip, st, what, run, options, nocase, unknown=True, kind='str'):
    """run(option term, st) -> [(value|Exc, st)]; options: {name: check(value, st) -> True/False/None}"""
    for name, chk in options.items():
        for spelled in (cases(name) if nocase else [name]):
            label = '%s option %r' % (what, spelled)

            def go():
                outs = run(C(spelled), st.fork())
                ex = [v for v, s in outs if isinstance(v, Exc)]
                ok = [(v, s) for v, s in outs if not isinstance(v, Exc)]
                if not ok and ex:
                    rep.bad('documented names are accepted', label, 'raises ' + ', '.join(sorted({str(e.v.args[0]) for e in ex})))
                    return
                if ex:
                    rep.unk('documented names are accepted', label, 'raises on some paths')
                    return
                rep.ok('documented names are accepted', label)
                if chk is not None:
                    res = [chk(v, s) for v, s in ok]
                    r = False if any(x is False or isinstance(x, str) for x in res) else None if any(x is None for x in res) else True
                    rep.expect(r, 'the name selects the documented implementation', label, next((x for x in res if isinstance(x, str)), 'a different implementation is selected'))
            rep.guard('documented names are accepted', label, go)
    if not unknown:
        return

    def go():
        s0 = st.fork()
        opt = sym('option', 'str')
        for name in options:
            for sp in {name, name.lower(), name.upper()} if nocase else {name}:
                s0.facts.assume(not_(eq(opt, C(sp))))
            if nocase:
                s0.facts.assume(not_(eq(app('.upper', opt), C(name.upper()))))
                s0.facts.assume(not_(eq(app('.lower', opt), C(name.lower()))))
        near = {x for n in options for x in (n[:1], n[:-1], n[1:], n + 'x', 'x' + n, n[::-1])} | {'', 'unknown'}
        for x in sorted(near - {x for n in options for x in (n, n.upper(), n.lower())}):
            if x.upper() in {n.upper() for n in options}:
                continue
            try:
                for v, s in run(C(x), st.fork()):
                    if not isinstance(v, Exc) and not s.facts.log[len(st.facts.log):]:
                        rep.bad('other strings raise ValueError', '%s: %r' % (what, x), 'is accepted')
            except Undecided:
                pass
        n0 = len(s0.facts.log)
        label = '%s: any other string' % what
        outs = run(opt, s0)
        bad = None
        for v, s in outs:
            if isinstance(v, Exc):
                if str(v.v.args[0]) != 'ValueError':
                    bad = 'raises %s instead of ValueError' % v.v.args[0]
                continue
            if any(mentions(f, opt) for f in s.facts.log[n0:] if f.op not in ('not',)):
                rep.unk('other strings raise ValueError', label, 'accepted under ' + '; '.join(show(f) for f in s.facts.log[n0:] if mentions(f, opt))[:200])
                return
            bad = 'some string that is not a documented option is accepted'
        rep.expect(bad is None, 'other strings raise ValueError', label, bad or '')
        for odd in ('', 'x', next(iter(options)) + '_', next(iter(options))[:-1]):
            if any(odd.upper() == o.upper() for o in options):
                continue
            outs = run(C(odd), st.fork())
            good = all(isinstance(v, Exc) and str(v.v.args[0]) == 'ValueError' for v, s in outs) and outs
            rep.expect(bool(good), 'other strings raise ValueError', '%s option %r' % (what, odd), 'accepted, or another exception is raised')
    rep.guard('other strings raise ValueError', what, go)


def mentions(t, x):
    return t is x or any(mentions(a, x) for a in subterms1(t))


def selects(ip, wanted, family):
    def chk(v, st):
        got = [c for c in reach(ip, st, v) if c in family]
        if wanted is None:
            return True if not got else 'selects ' + ', '.join(sorted(set(got)))
        if set(got) == {wanted}:
            return True
        return 'selects %s instead of %s' % (', '.join(sorted(set(got))) or 'none of the known implementations', wanted) if got else None
    return chk


def builder(ip, path, param, **kw):
    def run(opt, st):
        ip.steps = 0
        return call(ip, entry(ip, path), [], dict(kw, **{param: opt}), st)
    return run


POLY = {'positive': 'Polytope', 'negative': 'FlippedPolytope', 'persist': 'PersistentPolytope', 'categorical': 'CategoricalPolytope', 'multiset': 'MultiSetPolytope'}
KERN = {'linear': 'LinearKernel', 'rbf': 'GaussianKernel', 'gaussian': 'GaussianKernel', 'poly': 'PolynomialKernel'}
POLYFAM = set(POLY.values())
KERNFAM = set(KERN.values())


def run(rep):
    ip = load()
    st = ip.start()
    o = lambda n: sym(n, 'obj')
    learner = o('learner')
    # polytope modes ------------------------------------------------
    def poly(wanted):      # PersistentPolytope and FlippedPolytope may wrap or extend Polytope
        def chk(v, s):
            got = [c for c in reach(ip, s, v) if c in POLYFAM]
            allowed = {'Polytope': {'Polytope'}, 'FlippedPolytope': {'FlippedPolytope', 'Polytope'}, 'PersistentPolytope': {'PersistentPolytope', 'Polytope', 'FlippedPolytope'}}.get(wanted, {wanted})
            if wanted in got and set(got) <= allowed:
                return True
            return 'selects %s instead of %s' % (', '.join(sorted(set(got))) or 'no polytope', wanted) if got else None
        return chk
    pm = {k: poly(w) for k, w in POLY.items()}
    part = st.new('list', val=mk('list', st.new('list', val=mk('list', C(0))), st.new('list', val=mk('list', C(1)))))
    D = AL + 'dsm.'
    dispatch(rep, ip, st, 'PolytopeModel(mode)', builder(ip, D + 'model.PolytopeModel', 'mode'), pm, False)
    dispatch(rep, ip, st, 'FactorizedPolytopeModel(mode)', builder(ip, D + 'model.FactorizedPolytopeModel', 'mode', partition=part), pm, False)
    dispatch(rep, ip, st, 'DualSpaceModel(mode)', builder(ip, 'aideme.active_learning.dsm.DualSpaceModel', 'mode', active_learner=learner), pm, False)
    dispatch(rep, ip, st, 'FactorizedDualSpaceModel(mode)', builder(ip, 'aideme.active_learning.dsm.FactorizedDualSpaceModel', 'mode', active_learner=learner, partition=part), pm, False)
    # kernels -------------------------------------------------------
    K = AL + 'kernel.'
    km = {k: selects(ip, w, KERNFAM) for k, w in KERN.items()}

    def kget(opt, s):
        out = []
        for f, s1 in ip.getattr(P(cls(ip, 'Kernel')), 'get', s):
            out += call(ip, f, [opt], {}, s1)
        return out
    dispatch(rep, ip, st, 'Kernel.get', kget, km, True)
    dispatch(rep, ip, st, 'KernelVersionSpace(kernel)', builder(ip, V + 'base.KernelVersionSpace', 'kernel'), km, True)
    # subspace connectors -------------------------------------------
    S = V + 'subspace.'
    LF = {'AND': None, 'OR': None}
    sl = lambda p: builder(ip, S + 'SubspaceLearner', p, base_learner=o('base'), partition=part)
    dispatch(rep, ip, st, 'SubspaceLearner(label_function)', sl('label_function'), LF, True)
    dispatch(rep, ip, st, 'SubspaceLearner(probability_function)', sl('probability_function'), {'MIN': None, 'MAX': None, 'PROD': None}, True)
    dispatch(rep, ip, st, 'SubspaceLearner(ranking_function)', sl('ranking_function'), {'SUM': None, 'SQUARE': None}, True)
    dispatch(rep, ip, st, 'SubspatialVersionSpace(label_function)', builder(ip, S + 'SubspatialVersionSpace', 'label_function', partition=part), {'AND': None, 'OR': None, 'PROD': None}, True)
    dispatch(rep, ip, st, 'SubspatialVersionSpace(loss)', builder(ip, S + 'SubspatialVersionSpace', 'loss', partition=part), {'GREEDY': None, 'SQUARE': None, 'SQUARED': None, 'PRODUCT': None}, True)
    fam = {'CategoricalActiveLearner', 'MultiSetActiveLearner'}
    mm = {k: selects(ip, w, fam) for k, w in {'numerical': None, 'positive': None, 'negative': None, 'persist': None, 'categorical': 'CategoricalActiveLearner', 'multiset': 'MultiSetActiveLearner'}.items()}
    dispatch(rep, ip, st, 'SubspatialVersionSpace(mode)', builder(ip, S + 'SubspatialVersionSpace', 'mode', partition=part), mm, True)
    none = {k: selects(ip, None, fam) for k in mm}
    dispatch(rep, ip, st, 'SubspatialVersionSpace(mode, numerical_only)', builder(ip, S + 'SubspatialVersionSpace', 'mode', partition=part, numerical_only=TRUE), none, True, unknown=False)
    dispatch(rep, ip, st, 'SubspatialSimpleMargin(label_function)', builder(ip, S + 'SubspatialSimpleMargin', 'label_function', partition=part), LF, True)
    # rounding ------------------------------------------------------
    H = V + 'hit_and_run.rounding.'
    fam2 = {'OptimizedStrategy'}
    dispatch(rep, ip, st, 'RoundingAlgorithm(strategy)', builder(ip, H + 'RoundingAlgorithm', 'strategy'), {'default': selects(ip, None, fam2), 'opt': selects(ip, 'OptimizedStrategy', fam2)}, True)
    dispatch(rep, ip, st, 'SphericalGradientDescent(retraction)', builder(ip, H + 'SphericalGradientDescent', 'retraction'), {'sphere': None, 'project': None}, True)
    # priors and samplers ---------------------------------------------
    B = V + 'bayesian.'
    for cn in ('LaplaceBayesianLogisticRegression',):
        dispatch(rep, ip, st, cn + '(prior)', builder(ip, B + 'laplace.' + cn, 'prior'), {'gaussian': None, 'improper': None}, False)
    SF = {'StanBayesianLogisticRegression', 'LaplaceBayesianLogisticRegression', 'KernelLaplaceBayesianLogisticRegression'}
    sm = {'stan': 'StanBayesianLogisticRegression', 'laplace': 'LaplaceBayesianLogisticRegression', 'kernel-laplace': 'KernelLaplaceBayesianLogisticRegression'}
    smc = {k: selects(ip, w, SF) for k, w in sm.items()}
    smc['stan'] = None
    for cn in ('BayesianLinearVersionSpace', 'BayesianKernelVersionSpace'):
        opts = {k: v for k, v in smc.items() if k != 'stan' and (k != 'kernel-laplace' or 'Kernel' in cn)}
        full = dict(opts, stan=None)
        r = builder(ip, B + 'base.' + cn, 'sampler')
        dispatch(rep, ip, st, cn + '(sampler)', r, opts, False, unknown=False)
        dispatch(rep, ip, st, cn + '(sampler)', lambda opt, s, r=r: r(opt, s) if opt is not C('stan') else [(NONE, s)], full, False)
    # metric log -----------------------------------------------------------
    metric_log(rep, ip, st)
    metric_names(rep, ip, st)


def metric_log(rep, ip, st):
    M = 'aideme.utils.metric_logger'
    log, getm, flush = fn(ip, M, 'log_metric'), fn(ip, M, 'get_metrics'), fn(ip, M, 'flush')
    key = C('some_key')
    v1, v2 = sym('v1', 'float'), sym('v2', 'float')

    def session(values, opt, s):
        outs = [(NONE, s2) for v, s2 in call(ip, flush, [], {}, s) if not isinstance(v, Exc)]
        for v in values:
            nxt = []
            for r, s2 in outs:
                nxt += [(r, s2)] if isinstance(r, Exc) else call(ip, log, [key, v, opt], {}, s2)
            outs = nxt
        res = []
        for r, s2 in outs:
            if isinstance(r, Exc):
                res.append((r, s2))
                continue
            for d, s3 in call(ip, getm, [], {}, s2):
                res.append((ip.ext.dict_value(d, key, s3, ip) if hasattr(ip.ext, 'dict_value') else d, s3))
        return res

    def value(want):
        def chk(d, s):
            g = s.deep(d)
            if g.op != 'dict':
                return None
            got = dict(g.args[0]).get(key)
            if got is None:
                return 'the value is not stored under its name'
            got = s.deep(got)
            if got is want:
                return True
            return 'stores %s instead of %s' % (show(got), show(want)) if simple(got) else None
        return chk
    two = lambda opt, s: session([v1, v2], opt, s)
    one = lambda opt, s: session([v1], opt, s)
    dispatch(rep, ip, st, 'log_metric(on_duplicates), second value', two, {'overwrite': value(v2), 'sum': value(add(v1, v2)), 'append': value(mk('list', v1, v2))}, True)
    dispatch(rep, ip, st, 'log_metric(on_duplicates), first value', one, {'overwrite': value(v1), 'sum': value(v1), 'append': value(mk('list', v1))}, True)


NAMES = ['true_positive', 'false_positive', 'true_negative', 'false_negative', 'accuracy', 'precision', 'recall', 'fscore']


def metric_names(rep, ip, st):
    M = 'aideme.utils.metrics.'

    def training(opt, s):
        return call(ip, entry(ip, M + 'training_classification_metrics'), [mk('list', opt)], {}, s)

    def test(opt, s):
        return call(ip, entry(ip, M + 'classification_metrics'), [A(s, 'X_test'), A(s, 'y_test', 'arr1'), mk('list', opt)], {}, s)
    for what, r in (('training_classification_metrics', training), ('classification_metrics', test)):
        dispatch(rep, ip, st, what, r, {n: None for n in NAMES}, False)
        # an unknown name next to a known one
        def both(opt, s, r=r):
            return call(ip, entry(ip, M + what), ([A(s, 'X_test'), A(s, 'y_test', 'arr1')] if what[0] == 'c' else []) + [mk('list', C('fscore'), opt)], {}, s)
        dispatch(rep, ip, st, what + ' (second of two)', both, {n: None for n in NAMES}, False)

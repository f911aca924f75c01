"""C16: invalid numeric parameters are rejected at construction.

The domain of a parameter is split into classes (None, infinities, NaN, a string, zero, positive / negative integers and floats); one
member per class is a symbol with the class as its only known fact.  Every entry point is analysed with each class."""
from sa.drive import *

EXPLAIN = ('For every validation helper and every public constructor or factory listed, the value domain of each numeric parameter is partitioned into abstract classes '
           '(None, +inf, NaN, string, zero, arbitrary positive/negative integer, arbitrary positive/negative float, numbers beyond the upper end); the code is abstractly interpreted once per class. '
           'Invalid classes must raise on every path; valid classes must have no rejecting path. One abstract run covers all members of a class.')
ASSUME = ['booleans and numpy scalars as parameter values are not considered']
FLOOR = 300
AL = 'aideme.active_learning.'


def classes(st):
    """name -> (value, tags); tags of validity: int, pos, zero, in01, ..."""
    out = {}
    def s(name, kind, *facts):
        v = sym('p_' + name, kind)
        for f in facts:
            st.facts.assume(f(v))
        return v
    out['None'] = NONE
    out['inf'] = mk('inf')
    out['nan'] = mk('nan')
    out['str'] = C('some text')
    out['0'] = C(0)
    out['int>=1'] = s('posint', 'int', lambda v: le(C(1), v))
    out['int<0'] = s('negint', 'int', lambda v: le(v, C(-1)))
    fin = lambda v: not_(eq(v, mk('inf')))
    out['float in (0,1)'] = s('fraction', 'float', lambda v: lt(C(0), v), lambda v: lt(v, C(1)), fin)
    out['float>1'] = s('bigfloat', 'float', lambda v: lt(C(1), v), fin)
    out['float<0'] = s('negfloat', 'float', lambda v: lt(v, C(0)), fin)
    out['1'] = C(1)
    return out


POSINT = {'1', 'int>=1'}
POS = POSINT | {'float in (0,1)', 'float>1'}
KINDS = {
    'posint': POSINT, 'posint?': POSINT | {'None'},
    'posint*': POSINT,     # None left open
    'nnint': POSINT | {'0'}, 'nnintinf': POSINT | {'0', 'inf'},
    'pos': POS, 'pos?': POS | {'None'},
    'nonneg': POS | {'0'},
    'in01': {'0', '1', 'float in (0,1)'},
}
SKIP = {  # classes left open for a kind (documented nowhere either way)
    'in01': {'int>=1', 'None', 'str'}, 'posint*': {'None'},
}

HELPERS = [
    ('assert_positive', POS), ('assert_non_negative', POS | {'0'}),
    ('assert_positive_integer', POSINT), ('assert_non_negative_integer', POSINT | {'0'}),
]


def opaque(st, name):
    return sym(name, 'callable')


# (construct, kind of construct, base keyword arguments, {parameter: domain})
def specs(ip, st):
    o = lambda n: sym(n, 'obj')
    SCHED = dict(adapt_step_size=TRUE)
    OPT = dict(gtol='nonneg', rel_tol='nonneg', max_iter='posint?')
    SD = dict(OPT, batch_size='posint?', step_size='pos?')
    HR = dict(warmup='posint', thin='posint')
    F = AL + 'factorization.'
    V = AL + 'version_space.'
    D = AL + 'dsm.convex.'
    learner = lambda: o('learner')
    yield 'aideme.initial_sampling.stratified_sampler', dict(true_labels=o('labels')), dict(pos='posint', neg='posint')
    yield 'aideme.initial_sampling.random_sampler', {}, dict(sample_size='posint')
    yield 'aideme.utils.convergence.max_iter_reached', {}, dict(max_iters='nnintinf')
    yield 'aideme.utils.noise.random_noise_injector', dict(noise=C(0.25)), dict(noise='in01', skip_initial='nnint')
    for c in ('aideme.explore.explore.PoolBasedExploration', 'aideme.explore.command_line_explore.CommandLineExploration'):
        yield c, {}, dict(subsampling='posint?', callback_skip='posint')
    yield 'aideme.explore.manager.ExplorationManager', dict(data=o('data'), active_learner=learner()), dict(subsampling='posint?', callback_skip='posint')
    yield AL + 'entropy.EntropyReductionLearner', {}, dict(HR, data_sample_size='posint?', jitter='pos', gamma='pos?')
    yield F + 'active_learning.SwapLearner', dict(active_learner=learner(), swap_model=learner()), dict(
        swap_iter='posint', num_subspaces='posint', retries='posint', train_sample_size='posint?', prune_threshold='in01')
    yield F + 'active_learning.SimplifiedSwapLearner', {}, dict(swap_iter='posint', num_subspaces='posint', retries='posint', train_sample_size='posint*', prune_threshold='in01')
    yield F + 'active_learning.FactorizationManager', dict(user_fact=NONE), dict(compute_every='posint', stable_count='posint', max_iter='posint', step_size='pos', l1_penalty='pos', l2_sqrt_penalty='pos')
    yield F + 'active_learning.FLMUncertaintySampler', {}, dict(penalty='nonneg', max_iter='posint?', step_size='pos?')
    for c in ('L1Penalty', 'L2Penalty', 'L2SqrtPenalty'):
        yield F + 'penalty.' + c, {}, dict(penalty='pos')
    yield F + 'penalty.HuberPenalty', dict(penalty=C(0.25)), dict(penalty='pos', delta='pos')
    yield F + 'penalty.SparseGroupLassoPenalty', dict(l1_penalty=C(0.25), l2_sqrt_penalty=C(0.25)), dict(l1_penalty='pos', l2_sqrt_penalty='pos')
    yield F + 'partitioning.learn.GreedySelector', {}, dict(max_partitions='posint?', max_dim='posint?')
    yield F + 'optimization.GradientDescent', {}, dict(SD, momentum='in01')
    yield F + 'optimization.GradientDescent', dict(SCHED), dict(power='pos', adapt_every='posint', step_size='pos?')
    yield F + 'optimization.GradientDescent', dict(SCHED, exp_decay=C(0.25)), dict(adapt_every='posint', step_size='pos?')
    yield F + 'optimization.NoisyGradientDescent', {}, dict(SD)
    yield F + 'optimization.ProximalGradientDescent', {}, dict(SD)
    yield F + 'optimization.FISTA', {}, dict(SD)
    yield F + 'optimization.Adam', {}, dict(SD, beta1='in01', beta2='in01', epsilon='pos')
    S = F + 'step_size_scheduler.'
    yield S + 'FixedScheduler', dict(step_size=C(0.25)), dict(step_size='pos')
    yield S + 'PowerDecayScheduler', dict(step_size=C(0.25), power=C(1)), dict(step_size='pos', power='pos', adapt_every='posint')
    yield S + 'ExponentialDecayScheduler', dict(step_size=C(0.25), decay=C(0.25)), dict(step_size='pos', decay='pos', adapt_every='posint')
    H = V + 'hit_and_run.'
    yield H + 'hit_and_run.HitAndRunSampler', {}, HR
    yield H + 'hit_and_run.HitAndRunSampler', dict(single_chain=FALSE), HR
    yield H + 'hit_and_run.single_chain_sampler', dict(warmup=C(10), thin=C(10)), HR
    yield H + 'hit_and_run.multiple_chain_sampler', dict(chain_length=C(10)), dict(chain_length='posint')
    yield H + 'rounding.RoundingAlgorithm', {}, dict(max_iter='posint?')
    yield H + 'rounding.SphericalGradientDescent', {}, dict(grad_norm_threshold='pos', rel_tol='pos', max_iter='posint?', step_size='pos?')
    yield H + 'ellipsoid.Ellipsoid', dict(dim=C(3)), dict(dim='posint')
    yield V + 'bayesian.laplace.LaplaceBayesianLogisticRegression', {}, dict(prior_std='pos', tol='pos', max_iter='pos')
    yield V + 'bayesian.laplace.KernelLaplaceBayesianLogisticRegression', {}, dict(prior_std='pos', tol='pos', max_iter='pos')
    yield V + 'bayesian.stan.StanLogisticRegressionSampler', {}, dict(HR, prior_std='pos')
    yield V + 'base.LinearVersionSpace', {}, HR
    yield V + 'base.KernelVersionSpace', {}, dict(HR, jitter='pos', gamma='pos?')
    yield V + 'base.KernelVersionSpace', dict(kernel=C('poly')), dict(degree='posint', gamma='pos?')
    yield V + 'linear.DeterministicLogisticRegression', {}, HR
    yield AL + 'nlp.TwoStepsLearner', dict(al_struct=learner(), al_text=learner(), switch_iter=C(3), text_column_start=C(2)), dict(switch_iter='posint')
    yield AL + 'aluma.aluma_preprocessing', dict(X=A(st, 'X'), kernel=NONE, margin=C(0.25), H=C(1), delta=C(0.25)), dict(H='nonneg', margin='pos', delta='in01')
    yield AL + 'query_by_disagreement.QueryByDisagreement', dict(learner=learner()), dict(background_sample_size='posint', background_sample_weight='pos')
    yield D + 'convex.ConvexHull', dict(points=A(st, 'points')), dict(tol='pos')
    yield D + 'convex.ConvexCone', dict(points=A(st, 'points'), vertex=A(st, 'vertex', 'arr1')), dict(tol='pos')
    yield D + 'geometry.PositiveRegion', {}, dict(tol='pos')
    yield D + 'geometry.NegativeCone', dict(vertex=A(st, 'vertex', 'arr1')), dict(tol='pos')
    yield AL + 'random.RandomSampler', dict(clf=o('clf')), dict(batch_size='posint')
    K = AL + 'kernel.'
    yield K + 'GaussianKernel', {}, dict(gamma='pos?')
    yield K + 'PolynomialKernel', {}, dict(degree='posint', gamma='pos?')
    yield K + 'IncrementedDiagonalKernel', dict(kernel=o('kernel')), dict(jitter='pos')


def entry(ip, path):
    mod, name = path.rsplit('.', 1)
    return fn(ip, mod, name)


def excname(e):
    return getattr(e.cls, 'name', None) or str(e.cls)


def outcomes(ip, f, kw, st):
    ip.steps = 0
    ok, exc, unk = 0, [], None
    try:
        for r, s in ip.call(f, [], dict(kw), st):
            if isinstance(r, Exc):
                exc.append(r)
            else:
                ok += 1
    except Undecided as e:
        unk = str(e)
    return ok, exc, unk


def run(rep):
    ip = load()
    st = ip.start()
    cl = classes(st)
    n = 0
    for h, valid in HELPERS:
        f = entry(ip, 'aideme.utils.validation.' + h)
        for inf_ok in (False, True):
            for none_ok in (False, True):
                dom = valid | ({'inf'} if inf_ok else set()) | ({'None'} if none_ok else set())
                for c, v in cl.items():
                    one(rep, ip, f, dict(value=v, name=C('x'), allow_inf=C(inf_ok), allow_none=C(none_ok)), st, '%s(%s, allow_inf=%s, allow_none=%s)' % (h, c, inf_ok, none_ok), c in dom, True)
    f = entry(ip, 'aideme.utils.validation.assert_in_range')
    for c, v in cl.items():
        if c not in ('None', 'str', 'int>=1'):
            one(rep, ip, f, dict(value=v, name=C('x'), low=C(0), high=C(1)), st, 'assert_in_range(%s, low=0, high=1)' % c, c in KINDS['in01'], True)
    lo, hi, v = sym('lo', 'float'), sym('hi', 'float'), sym('v', 'float')
    for facts, want in (((le(lo, v), le(v, hi)), True), ((lt(v, lo), le(v, hi)), False), ((le(lo, v), lt(hi, v)), False)):
        s = st.fork()
        for x in facts:
            s.facts.assume(x)
        one(rep, ip, f, dict(value=v, name=C('x'), low=lo, high=hi), s, 'assert_in_range with ' + ' and '.join(show(x) for x in facts), want, True)
    for path, base, params in specs(ip, st):
        f = rep.guard('entry point exists', path, lambda: entry_or_none(rep, ip, path))
        if f is None:
            continue
        short = path.split('.')[-1]
        for p, kind in params.items():
            dom = KINDS[kind]
            for c, v in cl.items():
                if c in SKIP.get(kind, ()) and c not in dom:
                    continue
                kw = dict(base)
                kw[p] = v
                shown = ', '.join('%s=%s' % (a, show(b)) for a, b in base.items() if a != p and b.op == 'const')
                one(rep, ip, f, kw, st, '%s(%s=%s%s)' % (short, p, c, ', ' + shown if shown else ''), c in dom, False)
    rep.stats['value_classes'] = sorted(cl)


def entry_or_none(rep, ip, path):
    try:
        return entry(ip, path)
    except Gone as e:
        rep.unk('entry point exists', path, str(e))


ACC, REJ = 'accepts exactly the valid values', 'rejects invalid values'


def one(rep, ip, f, kw, st, what, valid, exact):
    ok, ex, unk = outcomes(ip, f, kw, st.fork())
    where = ip.where(f) if hasattr(ip, 'where') else None
    names = sorted({str(e.v.args[0]) for e in ex})
    if valid:
        if ok and not ex and not unk:
            rep.ok('accepts valid values', what)
        elif ok == 0 and ex and not unk:
            rep.bad('accepts valid values', what, 'a valid value raises ' + ', '.join(names))
        elif not ok and not ex:
            rep.unk('accepts valid values', what, unk or 'no outcome')
        elif unk:
            rep.unk('accepts valid values', what, unk)
        elif not [n for n in names if n not in ('ConvexError',)]:
            rep.ok('accepts valid values', what)
        else:
            rep.unk('accepts valid values', what, 'raises %s on some paths' % names)
    else:
        if ok:
            rep.bad('rejects invalid values', what, 'an invalid value is accepted on a path that does not raise')
        elif unk or not ex:
            rep.unk('rejects invalid values', what, unk or 'no outcome')
        elif exact and any(n != 'ValueError' for n in names):
            rep.bad('rejects invalid values', what, 'raises %s instead of ValueError' % ', '.join(names))
        else:
            rep.ok('rejects invalid values', what)

"""Abstract runs of PoolBasedExploration over an opaque dataset and learner, used by C07, C09, C10 and C22.

The dataset, learner, initial sampler, callbacks, criteria and noise injector are opaque: every call on them is an event and
invalidates what was known about them.  The main loop is cut at its head by an inductive summary: everything a previous
iteration may have changed is arbitrary there."""
from sa.drive import *

DATA, LEARNER, SAMPLER, CB, CC, NOISE = [sym(n, 'obj') for n in ('data', 'active_learner', 'initial_sampler', 'callback', 'criterion', 'noise_injector')]
CB2, CC2 = sym('callback2', 'obj'), sym('criterion2', 'obj')
SKIP, SUB = sym('callback_skip', 'int'), sym('subsampling', 'int')
OLD = sym('metrics_of_an_earlier_run', 'obj')


def opaque_data(ip):
    """constructor of PartitionedDataset intercepted: one opaque dataset"""
    pd = cls(ip, 'PartitionedDataset')

    def hook(fv, args, kw, s, n=None):
        if ob(fv) is pd:
            s.event('dataset', tuple(s.deep(a) for a in args), tuple(sorted((k, s.deep(v)) for k, v in kw.items())), ip.where(n))
            return [(DATA, s)]
        return None
    return hook


def start(ip):
    st = ip.start()
    st.facts.assume(lt(ZERO, SKIP))
    st.facts.assume(lt(ZERO, SUB))
    for f in (CB, CB2, CC, CC2):
        st.facts.assume(app('callable', f))
    # sizes of the opaque dataset
    return st


def size(name, ver=0):
    return mk('oattr', DATA, name, ver)


def lst(st, *xs):
    return st.new('list', val=mk('list', *xs))


def old_metrics(ip, st):
    """make the process-wide metric log non-empty"""
    lg = getter(ip)
    for v, s in call(ip, lg, [], {}, st):
        if v.op == 'ref' and s.obj(v).kind == 'dict':
            s.setval(v, mk('dict', ((C('old metric'), OLD),)))
            return s
    raise Undecided('metric log is not a dictionary')


def getter(ip):
    return fn(ip, 'aideme.utils.metric_logger', 'get_metrics')


def metrics(ip, st):
    r = normal(call(ip, getter(ip), [], {}, st.fork()))
    if len(r) != 1:
        raise Undecided('outcomes of get_metrics')
    return r[0][0], r[0][1]


class Run:
    pass


def runs(ip, st, noise, sampler, seeds, **kw):
    """abstractly execute PoolBasedExploration.run; returns the runs' loops"""
    loops = []

    def body(n, entry, paths, k, dom, elem):
        if any(any(e[0] in ('yield',) for e in s.events[len(entry.events):]) for s, g in paths):
            r = Run()
            r.node, r.pre, r.entry, r.paths = n, ip.loop_pre.fork(), entry, [(s.fork(), g) for s, g in paths]
            loops.append(r)
    ip.steps = 0
    st = start(ip)
    if kw.pop('old', False):
        st = old_metrics(ip, st)
    ip.call_hook, ip.body_hook = opaque_data(ip), body
    done = []
    try:
        args = dict(subsampling=SUB, callback=lst(st, CB), callback_skip=SKIP, convergence_criteria=lst(st, CC))
        if noise:
            args['noise_injector'] = NOISE
        if sampler:
            args['initial_sampler'] = SAMPLER
        for o, s in normal(new(ip, st, 'PoolBasedExploration', **args)):
            for L, s in normal(new(ip, s, 'LabeledSet', A(s, 'labels', 'arr1'))):
                n0 = len(s.events)
                for r, s2 in meth(ip, s, o, 'run', A(s, 'X'), L, LEARNER, repeat=C(len(seeds)), seeds=lst(s, *seeds), return_generator=FALSE, **kw):
                    done.append((r, s2, n0, L))
    finally:
        ip.call_hook = ip.body_hook = None
    return loops, done

"""C07: seeded runs are reproducible."""
from .loop import *
from . import api, loop
from .comp import *
from sa.interp import Func
import ast

EXPLAIN = ('Every public call of every class and function is abstractly executed and each random draw on any path is attributed to its generator: the process-wide NumPy or Python generator, or a generator built during the call from an explicit '
           'seed. Values read from the clock, object identities and hashes are tracked through the same executions: they may reach the metric log but no branch, seed or random draw. PoolBasedExploration.run is abstractly executed for '
           'two runs over opaque components: both process-wide generators must be seeded with the seed of that run, inside the generator that produces the run, before any component is called, and not again with another value.')
ASSUME = ['components supplied by the caller and third-party libraries draw only from the process-wide generators unless given a generator', 'iteration order of sets of numbers and tuples of numbers is deterministic',
          'the dataset, learner and manager start every run in the same state (C05, C08)', 'objects given to different runs are used by one run at a time']
FLOOR = 300
R_SRC, R_KEEP, R_CLOCK, R_SEED, R_LAZY = ('random draws come from the seeded generators', 'no generator outlives the run', 'the clock and object identities do not influence a run',
                                          'both generators are seeded before the first draw of each run', 'the seed is installed when the run starts, not when it is created')
MAKERS = ('RandomState', 'default_rng', 'Generator', 'PCG64', 'SeedSequence', 'MT19937', 'Philox', 'SFC64', 'SystemRandom', 'Random', 'BitGenerator')


def nondet(t):
    return [x for x in walk(t) if x.op == 'app' and isinstance(x.args[0], str) and x.args[0].startswith('nondet:')]


def presence(t):
    """a test whether a value is None: readings and what is computed from them never are"""
    while t.op == 'not':
        t = t.args[0]
    if t.op == 'in':  # presence of a key: what is stored under the keys does not matter
        keys, c = [t.args[0]], t.args[1]
        while c.op == 'store':
            keys.append(c.args[1])
            c = c.args[0]
        return not any(nondet(k) for k in keys + [c])
    return t.op in ('eq', 'is') and NONE in t.args


def makers(t):
    return [x for x in walk(t) if x.op == 'app' and x.args[0] == 'RandomState']


def visit(ip, construct, kind, outs, err, info):
    if err:
        return [(R_SRC, None, construct, 'analysis: ' + err[:200], None)]
    bad, unk, n = {}, {}, 0
    for v, s in outs:
        for e in flat_events(s.events[info['e0']:]):
            if e[0] != 'rng':
                continue
            n += 1
            fn, args, kw, where = e[1].split('.')[-1], e[2], dict(e[3]), e[4]
            if fn in MAKERS:
                seeds = list(args) + list(kw.values())
                if fn == 'SystemRandom' or not seeds or all(x is NONE for x in seeds):
                    bad.setdefault((R_SRC, 'a generator without an explicit seed (%s)' % e[1], where))
                elif any(makers(x) for x in seeds):
                    unk.setdefault((R_SRC, 'seed of the generator: ' + show(seeds[0])[:80], where))
            elif not e[1].startswith(('np.random.', 'random.')):
                unk.setdefault((R_SRC, 'drawn from ' + e[1], where))
            for x in list(args) + list(kw.values()):
                for y in nondet(x):
                    bad.setdefault((R_CLOCK, '%s reaches %s' % (y.args[0][7:], e[1]), where))
        for t in s.facts.log:
            if presence(t):
                continue
            for y in nondet(t):
                nm = y.args[0][7:]
                (unk if nm.startswith('builtins.') else bad).setdefault((R_CLOCK, 'a branch depends on %s' % nm, construct))
        for y in nondet(s.deep(v)) if not isinstance(v, Exc) else ():
            unk.setdefault((R_CLOCK, 'the result depends on %s' % y.args[0][7:], construct))
        # generators kept by the object
        for r in {v if not isinstance(v, Exc) else NONE, info['obj'] or NONE}:
            if r.op != 'ref' or '(in use)' in construct:
                continue
            for p, x in reach(s, r):
                o = s.obj(x)
                for f, w in (o.fields or {}).items() if o.kind == 'inst' else [('', o.val)] if o.val is not None else []:
                    if makers(w):
                        (unk if reseeded(o) else bad).setdefault((R_KEEP, 'attribute %s keeps a generator that seeding a run does not reset' % ((p + '.' if p else '') + f), construct))
    res = [(r, False, construct, m, w) for (r, m, w) in sorted(bad)] + [(r, None, construct, m, w) for (r, m, w) in sorted(unk)]
    for r in (R_SRC, R_CLOCK):
        if not any(x[0] == r for x in res):
            res.append((r, True, construct, '', None))
    return res


def reseeded(o):
    """does the object drop the generator in clear() or fit()? (then its draws only depend on what happens in the run)"""
    return False


def seed_args(e):
    a = list(e[2]) + [v for k, v in e[3]]
    return a[0] if a else NONE


def one(rep, ip, what, noise, sampler, seeds, seeds_arg=None):
    frames = []

    def spy(fv, args, kw, st, n=None):
        o = ob(fv)
        if isinstance(o, Ext) and o.name in ('np.random.seed', 'random.seed'):
            frames.append((o.name, [f for f in ip.stack if f.isgen], ip.where(n)))
        return hook0(fv, args, kw, st, n)
    real = loop.opaque_data
    hook0 = real(ip)
    loop.opaque_data = lambda ip: spy
    try:
        loops, done = runs(ip, None, noise, sampler, seeds)
    finally:
        loop.opaque_data = real
    if len(loops) < len(seeds):
        rep.unk(R_SEED, what, '%d run loops found' % len(loops))
        return
    COMP = (DATA, LEARNER, SAMPLER, NOISE)  # (criteria and callbacks close the previous run too)
    for n, l in enumerate(loops):
        i = len({len(x.pre.events) for x in loops if len(x.pre.events) < len(l.pre.events) and all(a is b for a, b in zip(x.pre.events, l.pre.events))})
        if i >= len(seeds):
            continue
        lab = '%s, run %d%s' % (what, i + 1, '' if n < len(seeds) else ', path %d' % n)
        evs = list(l.pre.events)
        last = max([k for k, e in enumerate(evs) if e[0] in ('loop', 'loopprefix')] + [-1])
        # events of this run: from its first event after the end of the previous run
        mine = evs[last + 1:]
        first = next((k for k, e in enumerate(mine) if (e[0] == 'rng' and not e[1].endswith('.seed')) or (e[0] == 'call' and e[1] in COMP and fills(e))), len(mine))
        for g in ('np.random.seed', 'random.seed'):
            hits = [(k, e) for k, e in enumerate(mine) if e[0] == 'rng' and e[1] == g]
            good = [k for k, e in hits if seed_args(e) is seeds[i]]
            wrong = [e for k, e in hits if seed_args(e) is not seeds[i]]
            if wrong:
                rep.bad(R_SEED, lab, '%s is called with %s instead of the seed of the run' % (g, show(seed_args(wrong[0]))[:60]), wrong[0][4])
            elif not good:
                rep.bad(R_SEED, lab, '%s is not called with the seed of the run' % g, l_where(l))
            elif good[0] > first:
                rep.bad(R_SEED, lab, '%s is called after %s' % (g, describe(mine[first])), mine[first][-1])
            else:
                rep.ok(R_SEED, '%s, %s' % (lab, g))
        # nothing in an iteration seeds the generators again with something else
        again = []
        for s, g in l.paths:
            for e in flat_events(s.events[len(l.entry.events):]):
                if e[0] == 'rng' and e[1].endswith('.seed') and seed_args(e) is not seeds[i]:
                    again.append(e)
        rep.expect(not again, R_SEED, lab + ', iterations', 'the generators are seeded again with %s during the run' % (show(seed_args(again[0]))[:60] if again else ''), again[0][4] if again else None)
    # laziness: the generator function that yields the metrics must be running when the seed is installed
    inner = {id(l.node) for l in loops}
    for g, gens, where in frames:
        inside = any(any(id(x) in inner for x in ast.walk(f.node)) for f in gens)
        rep.expect(True if inside else False if lazy(ip, loops) else None, R_LAZY, '%s, %s' % (what, g), 'the seed is installed when the run object is created: runs created before they are consumed would share the generators\' state', where)


def lazy(ip, loops):
    """is the loop of a run in a generator function?"""
    for l in loops:
        for m in ip.prog.mods.values():
            for f in ast.walk(m.tree):
                if isinstance(f, ast.FunctionDef) and any(x is l.node for x in ast.walk(f)):
                    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f))
    return False


def fills(e):
    """a call that may draw random numbers (queries of the opaque dataset do not)"""
    return e[2] is None or e[2] in ('fit_data', 'fit', 'next_points_to_label', 'sample', 'rank', '__call__', 'predict')


def describe(e):
    return 'a draw (%s)' % e[1] if e[0] == 'rng' else '%s.%s()' % (show(e[1])[:40], e[2] or '__call__')


def l_where(l):
    return 'PoolBasedExploration.run'


def run(rep):
    ip = load()
    S1, S2 = sym('seed1', 'int'), sym('seed2', 'int')
    for noise in (False, True):
        for sampler in (False, True):
            what = 'run(%s noise, %s initial sampler)' % ('with' if noise else 'no', 'with' if sampler else 'no')
            rep.guard(R_SEED, what, lambda: one(rep, ip, what, noise, sampler, [S1, S2]))
    api.sweep(rep, visit, R_SRC, rep.thorough)

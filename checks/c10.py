"""C10: protocol of the exploration loop."""
import itertools
from .loop import *
from sa.evalt import evalt

EXPLAIN = ('ExplorationManager and PoolBasedExploration.run are abstractly interpreted over an opaque dataset, learner, sampler, callbacks and criteria. Every path of update / get_next_to_label / converged / get_callback_metrics is '
           'an ordered trace of calls on the opaque parties together with its path condition; for every combination of pool size, phase before and after the update, criteria, iteration counter and callback_skip the traces that '
           'can be taken are compared with the documented protocol. One generic iteration of the loop is judged the same way.')
ASSUME = ['conditions on the iteration counter and callback_skip are compared for counters up to 13 and callback_skip up to 5', 'at most two user criteria and callbacks']
FLOOR = 20
R_UPD, R_NEXT, R_CONV, R_CB, R_LOOP, R_PHASE, R_LIB = ('update records the labels, then refits only in the exploration phase, and counts once', 'proposals follow the phase and the pool', 'convergence criteria',
                                                 'callback metrics schedule', 'one iteration of a run', 'both labels present', 'library criteria')
IT = sym('iters', 'nat')
PARTIES = {DATA: 'data', LEARNER: 'learner', SAMPLER: 'sampler', CB: 'cb', CB2: 'cb2', CC: 'cc', CC2: 'cc2', NOISE: 'noise'}


def trace(evs):
    """calls on the opaque parties"""
    return [e for e in flat_events(evs) if e[0] == 'call' and e[1] in PARTIES]


ATOMS, VALUES = {}, {}


class Env:
    """truth of the observations a path condition may contain"""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def value(self, x):
        if x.op == 'oattr' and x.args[0] is DATA:
            return {'unlabeled_size': self.U, 'unknown_size': self.U - self.inf, 'inferred_size': self.inf, 'labeled_size': self.lab}.get(x.args[1])
        if x is length(DATA):
            return self.U + self.lab
        if x.op == 'in' and x.args[1].op == 'truthy':
            c = x.args[0]
            if c.op == 'app' and c.args[0] == '.has_positive_and_negative_labels' and c.args[1][0].op == 'oattr' and c.args[1][0].args[:2] == (DATA, 'labeled_set'):
                return self.phase(c.args[1][0].args[2])
            if c.op == 'app' and c.args[0] == 'call' and c.args[1][0] in (CC, CC2):
                return self.c1 if c.args[1][0] is CC else self.c2
            if c.op == 'app' and c.args[0] == 'call' and c.args[1][0] in (CB, CB2):
                return self.m1 if c.args[1][0] is CB else self.m2
            if c is SAMPLER or c is NOISE:
                return True
        if x.op == 'eq' and NONE in x.args:
            y = x.args[0] if x.args[1] is NONE else x.args[1]
            if y in PARTIES:
                return False
            if y.op == 'app' and y.args[0] == 'call' and y.args[1][0] in (CB, CB2) and (self.m1 if y.args[1][0] is CB else self.m2):
                return False
        if x is self.it:
            return self.iters
        if x is SKIP:
            return self.skip
        if x is SUB:
            return 3
        return None

    def holds(self, conds, evs=()):
        """True / False / None"""
        r = True
        for c in conds:
            if c not in ATOMS:
                ATOMS[c] = [x for x in walk(c) if x.op in ('oattr', 'in', 'eq', 'sym', 'len')]
            vals = tuple(self.value(x) for x in ATOMS[c])
            key = (c, vals)
            if key not in VALUES:
                VALUES[key] = evalt(c, {x: v for x, v in zip(ATOMS[c], vals) if v is not None})
            v = VALUES[key]
            if v is False:
                return False
            if v is None:
                r = None
        return r


def outcomes(ip, s, o, m, *a):
    """[(conditions, result, trace, state)] of a method call"""
    n, k = len(s.facts.log), len(s.events)
    res = []
    for r, s2 in meth(ip, s.fork(), o, m, *a):
        res.append((s2.facts.log[n:], r, s2.events[k:], s2))
    return res


def managers(ip, sampler, ncrit):
    st = start(ip)
    kw = dict(subsampling=SUB, callback=lst(st, CB, CB2), callback_skip=SKIP)
    if sampler:
        kw['initial_sampler'] = SAMPLER
    if ncrit:
        kw['convergence_criteria'] = lst(st, CC, CC2)
    for o, s in new(ip, st, 'ExplorationManager', DATA, LEARNER, **kw):
        if isinstance(o, Exc):
            continue
        yield o, s


def set_iters(ip, s, o):
    """the field behind the public iters property gets an arbitrary value"""
    v, _ = attr(ip, s, o, 'iters')
    if v is not ZERO:
        raise Undecided('iters of a new manager is ' + show(v))
    for f, x in list(s.obj(o).fields.items()):
        if x is ZERO:
            s2 = s.fork()
            s2.setfield(o, f, IT)
            if attr(ip, s2, o, 'iters')[0] is IT:
                return s2
    raise Undecided('cannot locate the iteration counter')


def compare(rep, rule, what, outs, envs, want):
    """want(env, result, trace, state) -> None when right, else message; 'unk:...' when not known"""
    bad = unk = None
    n = 0
    for env in envs:
        hit = False
        for conds, r, evs, s in outs:
            h = env.holds(conds, evs)
            if h is False:
                continue
            m = want(env, r, evs, s)
            if h is None:
                # a path whose condition is not understood
                if m:
                    unk = unk or '%s (path condition not understood: %s)' % (m, show(and_(*conds))[:150])
                hit = True
                continue
            hit = True
            n += 1
            if m and m.startswith('unk:'):
                unk = unk or m[4:]
            elif m:
                where = next((e[-1] for e in trace(evs)), '')
                bad = bad or ('%s: %s' % (env.name, m), where)
        if not hit:
            unk = unk or 'no path for ' + env.name
    if bad:
        rep.bad(rule, what, bad[0], bad[1])
    elif unk:
        rep.unk(rule, what, unk)
    else:
        rep.ok(rule, what)
    rep.stats['situations'] = rep.stats.get('situations', 0) + n


def names(evs):
    return ['%s.%s' % (PARTIES[e[1]], e[2]) if e[2] else PARTIES[e[1]] for e in trace(evs)]


def library(rep, ip):
    """the criteria offered by utils.convergence, on every small case"""
    M = 'aideme.utils.convergence'
    mgr = sym('manager', 'obj')

    def judge(what, make, cases):
        ip.steps = 0
        bad = unk = None
        for label, iters, unl, unk_, metrics, want in cases:
            st = ip.start()
            d = fresh('dataset', 'obj')
            n = {'iters': C(iters), 'data': d}
            for k, v in n.items():
                st.oattr[(mgr, k)] = v
            for k, v in {'unlabeled_size': unl, 'unknown_size': unk_, 'inferred_size': unl - unk_, 'labeled_size': 7 - unl}.items():
                st.oattr[(d, k)] = C(v)
            for crit, s in make(st):
                if isinstance(crit, Exc):
                    bad = bad or '%s: raises %s' % (label, show(s.deep(crit.v))[:60])
                    continue
                md = s.new('dict', val=mk('dict', tuple((C(k), C(Fraction(str(v)))) for k, v in metrics.items())))
                for r, s2 in call(ip, crit, [mgr, md], {}, s):
                    if isinstance(r, Exc):
                        bad = bad or '%s: raises %s' % (label, show(s2.deep(r.v))[:60])
                        continue
                    r = s2.deep(r)
                    v = bool(r.args[0]) if r.op == 'const' else s2.facts.decide(r)
                    if v is None:
                        unk = unk or '%s: %s' % (label, show(r)[:80])
                    elif v != want:
                        bad = bad or '%s: the criterion is %s' % (label, 'satisfied' if v else 'not satisfied')
        if bad:
            rep.bad(R_LIB, what, bad, what)
        elif unk:
            rep.unk(R_LIB, what, unk)
        else:
            rep.ok(R_LIB, what)

    for n in (0, 1, 2, 5):
        judge('max_iter_reached(%d)' % n, lambda st: call(ip, fn(ip, M, 'max_iter_reached'), [C(n)], {}, st), [('after %d updates' % k, k, u, u, {'a': .5}, k > n) for k in range(9) for u in (1, 4)])
    judge('all_points_are_labeled', lambda st: [(fn(ip, M, 'all_points_are_labeled'), st)], [('%d unlabeled points of which %d unknown' % (u, v), k, u, v, {'a': .5}, u == 0) for u in (0, 1, 4) for v in range(u + 1) for k in (0, 1, 3)])
    for t in (.5, 0, 1):
        judge('metric_reached_threshold(a, %s)' % t, lambda st: call(ip, fn(ip, M, 'metric_reached_threshold'), [C('a'), C(Fraction(str(t)))], {}, st),
              [('metrics %s' % m, k, 4, 4, m, 'a' in m and m['a'] >= t) for m in ({}, {'b': .9}, {'a': .4, 'b': .9}, {'a': .5}, {'b': .1, 'a': .6}, {'a': 0}, {'a': 1}) for k in (1, 3)])


def run(rep):
    ip = load()
    for sampler in (True, False):
        for ncrit in (2, 0):
            what = 'manager with%s initial sampler, %d user criteria' % ('' if sampler else 'out', ncrit)

            def go():
                ip.steps = 0
                for o, s in managers(ip, sampler, ncrit):
                    s = set_iters(ip, s, o)
                    manager(rep, ip, o, s, sampler, ncrit, what)
            rep.guard(R_UPD, what, go)
    for noise in (False, True):
        for sampler in (False, True):
            what = 'run(%s noise, %s initial sampler)' % ('with' if noise else 'no', 'with' if sampler else 'no')
            rep.guard(R_LOOP, what, lambda: loop(rep, ip, what, noise, sampler))
    rep.guard(R_PHASE, 'LabeledSet', lambda: phase(rep, ip))
    rep.guard(R_LIB, 'utils.convergence', lambda: library(rep, ip))


def exc(r):
    return 'raises ' + str(r.v.args[0]) if isinstance(r, Exc) else None


def manager(rep, ip, o, s, sampler, ncrit, what):
    ls = sym('labeled_set', 'obj')
    base = dict(it=IT, iters=3, skip=1, inf=0, U=5, lab=4, c1=False, c2=False, m1=True, m2=True)

    # ---------------------------------------------------------------- update
    outs = outcomes(ip, s, o, 'update', ls)
    envs = []
    for before, after, U, inf, k in itertools.product((False, True), (False, True), (0, 5), (0, 2), (0, 1, 3, 50)):
        if inf > U:
            continue
        envs.append(Env(**dict(base, phase=lambda v, b=before, a=after: b if ver(v) == 0 else a, P=after, U=U, inf=inf, iters=k, name='both labels present before=%s after=%s, %d unlabeled points' % (before, after, U))))

    def upd(env, r, evs, st):
        if exc(r):
            return exc(r)
        t = trace(evs)
        ns = names(evs)
        moves = [e for e in t if e[1] is DATA and e[2] == 'move_to_labeled']
        if len(moves) != 1:
            return 'the new labels are recorded %d times' % len(moves)
        if not (len(moves[0][3]) == 1 and moves[0][3][0] is ls or dict(moves[0][4]).get('labeled_set') is ls):
            return 'the new labels are not the ones recorded'
        if any(e[1] is DATA and e[2] not in ('move_to_labeled',) and e[2].startswith(('move', 'clear', 'remove', 'flush')) for e in t):
            return 'unk: other operations on the dataset: ' + ', '.join(ns)
        fits = [e for e in t if e[1] is LEARNER]
        want = env.P or not sampler
        if [e[2] for e in fits] != (['fit_data'] if want else []):
            return 'in the %s phase the learner gets the calls %s' % ('exploration' if want else 'initial sampling', [e[2] for e in fits])
        if fits:
            if t.index(fits[0]) < t.index(moves[0]):
                return 'the learner is fit before the labels are recorded'
            if not (list(fits[0][3]) + [v for k, v in fits[0][4]] == [DATA]):
                return 'the learner is fit on something else than the dataset'
        it = attr(ip, st, o, 'iters')[0]
        if it is not add(IT, ONE):
            return 'the iteration counter becomes ' + show(it)
        if any(e[1] in (SAMPLER, CB, CB2, NOISE) for e in t):
            return 'also calls ' + ', '.join(ns)
        return None
    compare(rep, R_UPD, what, outs, envs, upd)

    # ---------------------------------------------------------------- proposals
    outs = outcomes(ip, s, o, 'get_next_to_label')
    envs = []
    for ph, U, inf, k in itertools.product((False, True), (0, 5), (0, 2, 5), (0, 1, 3, 50)):
        if inf > U:
            continue
        envs.append(Env(**dict(base, phase=lambda v, p=ph: p, P=ph, U=U, inf=inf, iters=k, name='both labels present=%s, %d unlabeled points of which %d inferred' % (ph, U, inf))))

    def nxt(env, r, evs, st):
        if exc(r):
            return exc(r)
        t = trace(evs)
        asked = [e for e in t if e[1] in (LEARNER, SAMPLER) or e[1] is DATA and e[2] == 'from_index']
        ns = ['%s.%s' % (PARTIES[e[1]], e[2]) if e[2] else PARTIES[e[1]] for e in asked]
        if any(e[1] is DATA and e[2].startswith(('move', 'clear', 'remove', 'flush')) for e in t):
            return 'modifies the dataset: ' + ', '.join(names(evs))
        if env.U == 0:
            if r is not NONE:
                return 'something is proposed: ' + show(st.deep(r))[:100]
            return None
        if r is NONE:
            return 'nothing is proposed'
        if sampler and not env.P:
            if ns != ['sampler', 'data.from_index']:
                return 'before both labels are present the proposal comes from %s' % ns
            if list(asked[0][3]) != [DATA]:
                return 'the initial sampler is not given the dataset'
            a = list(asked[1][3]) + [v for k, v in asked[1][4]]
            if len(a) != 1 or not mentions(st.deep(a[0]), asked[0]):
                return 'the proposed indexes are not those of the initial sampler'
            return None if result(r, asked[1]) else 'unk: proposes ' + show(st.deep(r))[:100]
        if ns != ['learner.next_points_to_label']:
            return 'in the exploration phase the proposal comes from %s' % ns
        a = asked[0]
        kw = dict(a[4])
        got = list(a[3]) + [kw[k] for k in ('data', 'subsample') if k in kw]
        if got[:1] != [DATA]:
            return 'the learner is not given the dataset'
        if got[1:] != [SUB]:
            return 'the configured subsample size is not passed to the learner (%s)' % ', '.join(show(x) for x in got[1:])
        return None if result(r, a) else 'unk: proposes ' + show(st.deep(r))[:100]
    compare(rep, R_NEXT, what, outs, envs, nxt)

    # ---------------------------------------------------------------- convergence
    outs = outcomes(ip, s, o, 'converged')
    envs = []
    for U, inf, c1, c2 in itertools.product((0, 1, 5), (0, 1, 5), (False, True), (False, True)):
        if inf > U or not ncrit and (c1 or c2):
            continue
        envs.append(Env(**dict(base, phase=lambda v: True, U=U, inf=inf, c1=c1, c2=c2, name='%d unlabeled points of which %d inferred, user criteria %s' % (U, inf, (c1, c2) if ncrit else 'none'))))

    def conv(env, r, evs, st):
        if exc(r):
            return exc(r)
        want = env.U == 0 or env.c1 or env.c2
        got = truth(env, st.deep(r))
        if got is None:
            return 'unk: result ' + show(st.deep(r))[:150]
        if got != want:
            return 'converged() is %s' % got
        for e in trace(evs):
            if e[1] in (CC, CC2):
                a = list(e[3])
                if len(a) != 2 or a[0] is not o:
                    return 'criteria are not given the manager and the metrics'
                m, _ = metrics(ip, st)
                if a[1] is not m and st.deep(a[1]) is not st.deep(m):
                    return 'criteria are not given the current metrics'
            elif e[1] is DATA and e[2].startswith(('move', 'clear', 'remove')) or e[1] in (LEARNER, SAMPLER):
                return 'unk: also calls ' + ', '.join(names(evs))
        return None
    compare(rep, R_CONV, what, outs, envs, conv)

    # ---------------------------------------------------------------- callbacks
    outs = outcomes(ip, s, o, 'get_callback_metrics')
    envs = []
    for it, skip, (U, c1), (m1, m2) in itertools.product(range(1, 14), range(1, 6), ((5, False), (0, False), (5, True)), ((True, True), (True, False), (False, True), (False, False))):
        if not ncrit and c1:
            continue
        envs.append(Env(**dict(base, phase=lambda v: True, U=U, iters=it, skip=skip, c1=c1, m1=m1, m2=m2, name='iteration %d, callback_skip=%d, converged=%s' % (it, skip, U == 0 or c1))))

    def cbs(env, r, evs, st):
        if exc(r):
            return exc(r)
        want = (env.iters - 1) % env.skip == 0 or env.U == 0 or env.c1
        t = [e for e in trace(evs) if e[1] in (CB, CB2)]
        called = [PARTIES[e[1]] for e in t]
        if sorted(called) != (['cb', 'cb2'] if want else []):
            return 'callbacks called: %s' % (called or 'none')
        if any(list(e[3]) + [v for k, v in e[4]] != [DATA, LEARNER] for e in t):
            return 'a callback is not given the dataset and the learner'
        d = st.deep(r)
        if not want:
            return None if d.op == 'dict' and not d.args[0] else 'metrics are reported although callbacks are not due: ' + show(d)[:100]
        for e, m in zip(t, [env.m1, env.m2] if called == ['cb', 'cb2'] else [env.m2, env.m1]):
            if m and not mentions(d, e):
                return 'the metrics of a callback are lost: ' + show(d)[:120]
        return None
    compare(rep, R_CB, what, outs, envs, cbs)


def result(t, e):
    """is t the value returned by the call event e?"""
    return t.op == 'app' and t.args[0] == ('.' + e[2] if e[2] else 'call') and t.args[1] and t.args[1][0] is e[1] and ver(dict(t.args[2]).get('@', e[5])) == ver(e[5])


def mentions(d, e):
    return any(result(x, e) for x in walk(d))


def truth(env, t):
    e = {}
    for x in walk(t):
        v = env.value(x)
        if v is not None:
            e[x] = v
    v = evalt(t, e)
    if v is None:
        return None
    return bool(v)


def loop(rep, ip, what, noise, sampler):
    loops, done = runs(ip, None, noise, sampler, [sym('seed1', 'int'), sym('seed2', 'int')])
    if len(loops) != 2:
        rep.unk(R_LOOP, what, '%d run loops found' % len(loops))
        return
    for i, l in enumerate(loops):
        lab = '%s, run %d' % (what, i + 1)
        crit = [e for s, g in l.paths for e in trace(s.events[len(l.entry.events):]) if e[1] is CC]
        mgrs = {e[3][0] for e in crit if e[3]}
        if len(mgrs) != 1:
            rep.bad(R_LOOP, lab, 'the user criterion is not evaluated by the loop')
            continue
        mgr = mgrs.pop()
        it = attr(ip, l.entry, mgr, 'iters')[0]
        it0 = attr(ip, l.pre, mgr, 'iters')[0]
        if it0 is not ZERO:
            rep.bad(R_LOOP, lab, 'the run starts with %s iterations counted' % show(it0))
        n = len(l.entry.facts.log)
        outs = []
        for s, g in l.paths:
            evs = s.events[len(l.entry.events):]
            outs.append((s.facts.log[n:], g, evs, s))
        envs = []
        for U, left, c1, c1b, before, after, k, skip, m1 in itertools.product((0, 5), (0, 3), (False, True), (False, True), (False, True), (False, True), (0, 1, 2, 3, 40), (1, 2, 3), (True, False)):
            if U == 0 and left or before and not after:
                continue
            envs.append(LoopEnv(U, left, c1, c1b, before, after, it, k, skip, m1))

        def want(env, g, evs, st):
            t, ns = trace(evs), [x for x in names(evs) if x != 'cc']
            ys = [e for e in evs if e[0] == 'yield']
            stop = g is not None and g[0] in ('stop', 'break', 'return')
            if env.U == 0 or env.c1:
                if not stop:
                    return 'another iteration is run although the exploration is converged'
                return 'calls %s after convergence' % ns if [x for x in ns if x not in ('data.is_empty',)] else None
            if g is not None and g[0] == 'exc':
                return exc(g[1])
            if stop:
                return 'the run stops although nothing is converged'
            exp = []
            exp += ['learner.next_points_to_label'] if env.before or not sampler else ['sampler', 'data.from_index']
            if noise and (env.before or not sampler):
                exp.append('noise')
            exp.append('data.move_to_labeled')
            if env.after or not sampler:
                exp.append('learner.fit_data')
            if (env.iters) % env.skip == 0 or env.left == 0 or env.c1b:
                exp.append('cb')
            if ns != exp:
                return 'performs %s instead of %s' % (ns, exp)
            if len(ys) != 1:
                return '%d metrics dictionaries are yielded' % len(ys)
            x = attr(ip, st, mgr, 'iters')[0]
            if x is not add(it, ONE):
                return 'the iteration counter becomes ' + show(x)
            return None
        compare(rep, R_LOOP, lab, outs, envs, want)


def ver(v):
    return v if isinstance(v, int) else int(num(v))


SEEN = {}


class LoopEnv(Env):
    def __init__(self, U, left, c1, c1b, before, after, it, k, skip, m1):
        self.U, self.left, self.c1, self.c1b, self.before, self.after, self.it, self.iters, self.skip, self.m1, self.m2 = U, left, c1, c1b, before, after, it, k, skip, m1, m1
        self.move = None
        self.name = 'iteration counter %d, callback_skip %d, %d unlabeled points before and %d after, criterion %s/%s, both labels present %s/%s' % (k, skip, U, left, c1, c1b, before, after)

    def holds(self, conds, evs=()):
        k = id(evs)
        if k not in SEEN:
            some = [e for e in flat_events(evs) if e[0] == 'call' and (e[1] is CC or e[1] is DATA and e[2] == 'move_to_labeled')]
            SEEN[k] = (evs, [e[5] for e in some if e[1] is DATA], some)
        _, self.move, self.events = SEEN[k]
        return Env.holds(self, conds, evs)

    def late(self, v):
        return bool(self.move) and ver(v) > ver(self.move[-1])

    def phase(self, v):
        return self.after if self.late(v) else self.before

    def value(self, x):
        if x.op == 'oattr' and x.args[0] is DATA and x.args[1] == 'unlabeled_size':
            return self.left if self.late(x.args[2]) else self.U
        if x.op == 'in' and x.args[1].op == 'truthy' and x.args[0].op == 'app' and x.args[0].args[0] == 'call' and x.args[0].args[1][0] is CC:
            v = dict(x.args[0].args[2]).get('@')
            if v is None:
                return None
            # before or after the update of this iteration?
            pos = [i for i, e in enumerate(self.events) if e[0] == 'call' and e[1] is CC and C(ver(e[5])) is C(ver(v))]
            mv = [i for i, e in enumerate(self.events) if e[0] == 'call' and e[1] is DATA and e[2] == 'move_to_labeled']
            if not pos:
                return None
            return self.c1b if mv and pos[-1] > mv[-1] else self.c1
        if x.op == 'oattr' and x.args[0] is DATA:
            return None
        return Env.value(self, x)


def phase(rep, ip):
    """LabeledSet.has_positive_and_negative_labels for 0/1 labels"""
    y = sym('labels', 'arr1')
    n = length(y)
    for name, pos in (('no label', None), ('only negative labels', 0), ('only positive labels', 'n'), ('both labels', 'mid')):
        ip.steps = 0
        st = ip.start()
        outs = []
        for L, s in normal(new(ip, st, 'LabeledSet', A(st, 'labels', 'arr1'))):
            t = None
            s1 = s.fork()
            for r, s1 in meth(ip, s1, A(s1, 'labels', 'arr1'), 'sum'):
                t = s1.deep(r)
            s.facts.assume(eq(n, ZERO) if pos is None else lt(ZERO, n))
            if pos is None or pos == 0:
                s.facts.assume(eq(t, ZERO))
            elif pos == 'n':
                s.facts.assume(eq(t, n))
            else:
                s.facts.assume(lt(ZERO, t))
                s.facts.assume(lt(t, n))
            for r, s2 in meth(ip, s, L, 'has_positive_and_negative_labels'):
                if s2.facts.decide(TRUE) is None:
                    continue
                r = s2.deep(r) if not isinstance(r, Exc) else r
                v = None if isinstance(r, Exc) else s2.facts.decide(r) if r.op != 'const' else bool(r.args[0])
                outs.append((v, r, s2))
        want = pos == 'mid'
        if not outs:
            rep.unk(R_PHASE, name, 'no outcome')
        elif any(isinstance(r, Exc) for v, r, _ in outs):
            rep.bad(R_PHASE, name, 'raises')
        elif any(v is (not want) for v, r, _ in outs):
            rep.bad(R_PHASE, name, 'answers %s' % (not want))
        elif all(v is want for v, r, _ in outs):
            rep.ok(R_PHASE, name)
        else:
            rep.unk(R_PHASE, name, 'answers ' + show(outs[0][1])[:150])

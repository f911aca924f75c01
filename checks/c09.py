"""C09: metrics of one iteration never leak into another iteration or run."""
from .loop import *

EXPLAIN = ('PoolBasedExploration.run is abstractly executed (two consecutive runs, opaque dataset, learner, sampler, callbacks, criteria and noise) starting from a non-empty process-wide metric log; the main loop is cut by an '
           'inductive summary in which the log of the previous iteration is arbitrary. Every path of an iteration must yield a dictionary that is created in that iteration, whose value does not depend on the log found at the loop head, '
           'and that no later event of the iteration, of the next iteration or of the end of the run modifies.')
ASSUME = ['callers do not modify the yielded dictionaries']
FLOOR = 40
R_START = 'a run starts with an empty metric log'
R_FRESH = 'the yielded dictionary belongs to one iteration'
R_CONTENT = 'the yielded dictionary contains only metrics of its iteration'
R_AFTER = 'the yielded dictionary is not modified later'


def mentions(t, xs):
    return any(x in xs for x in walk(t))


def muts(evs):
    for e in flat_events(evs):
        if e[0] == 'mut':
            yield e[1], e[-1]
        elif e[0] == 'mutval':
            yield e[1], e[-1]


def one(rep, ip, what, noise, sampler):
    loops, done = runs(ip, None, noise, sampler, [sym('seed1', 'int'), sym('seed2', 'int')], old=True)
    if len(loops) < 2:
        rep.unk(R_FRESH, what, '%d run loops found' % len(loops))
        return
    prev = [OLD]
    for i, l in enumerate(loops):
        lab = '%s, run %d' % (what, i + 1)
        m0, s0 = metrics(ip, l.pre)
        at_start = s0.deep(m0)
        mh, sh = metrics(ip, l.entry)
        head = sh.deep(mh)
        # whatever earlier iterations left in the log or in any other container the loop modifies
        old = set()
        for o in l.pre.heap.values():
            if o.val is not None and o.kind in ('dict', 'list', 'set'):
                old.update(walk(o.val))
        syms = {x for o in l.entry.heap.values() if o.val is not None and o.kind in ('dict', 'list', 'set') for x in walk(o.val) if x.op == 'sym' and x not in old}
        syms |= {x for x in walk(head) if x.op == 'sym'} | {OLD}
        head_objs = set(l.entry.heap)
        stale = mentions(at_start, prev)
        conts = []
        for j, (s, g) in enumerate(l.paths):
            path = '%s, path %d of an iteration' % (lab, j + 1)
            evs = s.events[len(l.entry.events):]
            if stale:
                for e in flat_events(evs):
                    if e[0] == 'call' and e[1] is CC and any(mentions(s.deep(a), syms) or a is mh for a in e[3]):
                        rep.bad(R_START, lab, 'criteria of the new run are evaluated on metrics left over from an earlier run', e[-1])
                        break
            ys = [k for k, e in enumerate(evs) if e[0] == 'yield']
            if not ys:
                continue
            if len(ys) > 1:
                rep.bad(R_FRESH, path, '%d dictionaries yielded in one iteration' % len(ys), evs[ys[1]][-1])
                continue
            k = ys[0]
            y, where = evs[k][1], evs[k][2]
            if y.op != 'ref' or s.obj(y).kind != 'dict':
                rep.unk(R_FRESH, path, 'yields ' + show(s.deep(y))[:120])
                continue
            later = [w for r, w in muts(evs[k + 1:]) if r is s.root(y)]
            if later:
                rep.bad(R_AFTER, path, 'modified after it was yielded', later[0])
            else:
                rep.ok(R_AFTER, path)
            if mentions(s.deep(y), syms):
                rep.bad(R_CONTENT, path, 'contains the metrics found when the iteration started: ' + show(s.deep(y))[:150], where)
            else:
                rep.ok(R_CONTENT, path)
            oid = s.root(y).args[0]
            me, se = metrics(ip, s)
            if oid not in head_objs:
                # created in this iteration; the log at the next head may be this very dictionary
                reused = me is y
            elif y is mh:
                # the log found at the loop head is yielded: it must not be the one yielded before
                if me is y:
                    rep.bad(R_FRESH, path, 'yields the dictionary that the previous iteration already yielded', where)
                    continue
                reused = False
            else:
                rep.bad(R_FRESH, path, 'yields a dictionary shared by all iterations', where)
                continue
            rep.ok(R_FRESH, path)
            conts.append((path, reused))
        if any(r for _, r in conts):
            # then an iteration must not modify the log it found
            for j, (s, g) in enumerate(l.paths):
                w = [w for r, w in muts(s.events[len(l.entry.events):]) if r is mh]
                path = '%s, path %d after a yielded iteration' % (lab, j + 1)
                if w:
                    rep.bad(R_AFTER, path, 'the dictionary yielded by the previous iteration is modified', w[0])
                else:
                    rep.ok(R_AFTER, path)
        if not stale:
            rep.ok(R_START, lab)
        elif not any(o[0] == R_START and o[1] == lab for o in rep.obs):
            rep.ok(R_START, lab)
        prev = [OLD] + list(syms)
    heads = {metrics(ip, l.entry)[0] for l in loops}
    for r, s, n0, L in done:
        for root, w in muts([e for e in s.events[n0:] if e[0] not in ('loop', 'loopprefix')]):
            if root in heads:
                rep.bad(R_AFTER, what + ', end of the run', 'the last yielded dictionary is modified when the run ends', w)


def run(rep):
    ip = load()
    for noise in (False, True):
        for sampler in (False, True):
            what = 'run(%s noise, %s initial sampler)' % ('with' if noise else 'no', 'with' if sampler else 'no')
            rep.guard(R_FRESH, what, lambda: one(rep, ip, what, noise, sampler))
    rep.guard(R_CONTENT, 'metric log', lambda: across(rep, ip))


def across(rep, ip):
    """values logged under a key in an earlier iteration neither show in a later one nor are they changed by it"""
    from .c39 import A_, B_, play, log, equal
    st = ip.start()
    for opt in ('overwrite', 'sum', 'append'):
        kw = {'on_duplicates': C(opt)}
        want = {'overwrite': 3, 'sum': 3, 'append': [3]}[opt]
        for keys in ((A_, A_), (B_, A_)):
            what = 'values logged with %s%s' % (opt, '' if keys[0] is A_ else ' under another key')
            bad = unk = None
            for r, s, raised in play(ip, st.fork(), ('flush', [], {}), ('log_metric', [keys[0], C(50)], kw)):
                old = None if raised else log_object(ip, s)
                if old is None:
                    unk = 'no log'
                    continue
                before = s.deep(old)
                for r2, s2, raised2 in play(ip, s, ('flush', [], {}), ('log_metric', [keys[1], C(3)], kw)):
                    d = None if raised2 else log(ip, s2)
                    if d is None:
                        unk = 'no log'
                    elif set(d) != {'a'} or equal(d['a'], want) is False:
                        bad = 'after an iteration that logged 50, logging 3 leaves %s' % {k: show(v)[:40] for k, v in d.items()}
                    elif equal(d['a'], want) is None:
                        unk = show(d['a'])[:60]
                    elif s2.deep(old) is not before:
                        bad = 'the metrics of the earlier iteration become ' + show(s2.deep(old))[:60]
            if bad:
                rep.bad(R_CONTENT, what, bad, 'aideme.utils.metric_logger')
            elif unk:
                rep.unk(R_CONTENT, what, unk)
            else:
                rep.ok(R_CONTENT, what)


def log_object(ip, s):
    outs = [o for o in call(ip, fn(ip, 'aideme.utils.metric_logger', 'get_metrics'), [], {}, s.fork()) if not isinstance(o[0], Exc)]
    return outs[0][0] if len(outs) == 1 else None

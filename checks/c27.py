"""C27: inferred and self-labeled points are always certain."""
from .dsmx import *

EXPLAIN = ('fit_data and next_points_to_label of every dual-space model are abstractly interpreted with opaque dataset, polytope and wrapped learner, from a state with any number of self-labeled points. Points moved to the inferred '
           'partition, appended to the self-labeled training data or returned to the user are selections whose mask, at an arbitrary row, must imply (un)certainty of a polytope answer given after its last update for that same '
           'batch; the arguments of every fit of the wrapped learner, the order of calls on each path and the training data carried to the next fit are judged. The selection loop is cut by an inductive summary.')
ASSUME = ['an answer different from 0.5 is certain (C12)', 'a self-labeled point the polytope stays certain about keeps its label']
FLOOR = 20
R_INF, R_SELF, R_ASK, R_FLUSH, R_DROP, R_KEEP, R_ALL = ('only certain points are inferred', 'self-labeled points are certain and carry the polytope label', 'the user is asked about uncertain points only', 'a contradiction flushes the inferred points',
                                                 'a contradiction drops self-labeled points no longer certain, with their labels', 'self-labeled points stay in the training data', 'every certain unknown point is inferred')


def run(rep):
    ip = load()
    st = ip.start()

    def go():
        for cname, o, s0 in models(ip, st):
            rep.guard(R_INF, cname + '.fit_data', lambda: fit(rep, ip, cname, o, s0))
            rep.guard(R_ASK, cname + '.next_points_to_label', lambda: ask(rep, ip, cname, o, s0))
    rep.guard(R_INF, 'dual-space models', go)


def fitargs(e):
    d = dict(e[2])
    a = list(e[1]) + [None] * 2
    return a[0] if a[0] is not None else d.get('X'), a[1] if a[1] is not None else d.get('y')


def pairs(e):
    """[(X part, y part)] of a fit call, None when not paired"""
    X, y = fitargs(e)
    if X is None or y is None:
        return None
    xs, ys = segments(X), segments(y)
    return list(zip(xs, ys)) if len(xs) == len(ys) else None


def filtered(t):
    """(list, index symbol, condition) of a filtered list of entries"""
    k = fresh('i', 'nat')
    if t.op == 'map' and t.args[2] is not None:
        return instantiate(t.args[0], k), t.args[1], k, instantiate(t.args[2], k)
    if t.op == 'sub' and isbool(t.args[1]):
        return mk('sub', t.args[0], k), length(t.args[1]), k, None
    return None


def judge_pair(rep, what, s, x, y, where, upto):
    """a part of the training data; returns 'user' | 'cache' | ('filtered', condition...) | None"""
    if user_part(x, y):
        return 'user'
    ux, uy = (t.op == 'sub' and t.args[0].op == 'app' and t.args[0].args[0] == '.training_set' for t in (x, y))
    if ux != uy and (cachelike(y if ux else x) or any(z.op == 'app' and z.args[0] == '.predict' or z.op == 'sym' and cachelike(z) for z in walk(y if ux else x))):
        rep.bad(R_SELF, what, 'points and labels of different origin are paired: %s / %s' % (show(x)[:80], show(y)[:80]), where)
        return None
    if cachelike(x) and cachelike(y):
        if x is y:
            rep.bad(R_SELF, what, 'the same list is used for points and labels', where)
        return 'cache'
    if x.op == 'sub' and y.op == 'sub' and isbool(x.args[1]) and isbool(y.args[1]):
        base, P = x.args[0], y.args[0]
        if P.op == 'app' and P.args[0] == '.predict' and P.args[1][0] is POL:
            if P.args[1][1] is not base:
                rep.bad(R_SELF, what, 'labels of %s are attached to points of %s' % (show(P.args[1][1])[:100], show(base)[:100]), where)
                return None
            if x.args[1] is not y.args[1]:
                rep.bad(R_SELF, what, 'points are selected by %s and labels by %s' % (show(x.args[1])[:100], show(y.args[1])[:100]), where)
                return None
            c = mask_ok(s, x.args[1], P)
            (rep.ok if c else rep.bad if c is False else rep.unk)(R_SELF, what, '' if c else 'appends points the polytope is not certain about (mask %s)' % show(x.args[1])[:150], *([where] if c is False else []))
            return 'new'
        if any(z.op == 'app' and z.args[0] == '.predict' and z.args[1][0] is AL for z in walk(P)) and not any(z.op == 'app' and z.args[0] == '.predict' and z.args[1][0] is POL for z in walk(P)):
            rep.bad(R_SELF, what, 'self-labels with the wrapped learner', where)
            return None
    if x.op == 'app' and x.args[0] == '.predict' or y.op == 'app' and y.args[0] == '.predict' and y.args[1][0] is POL and y.args[1][1] is x:
        rep.bad(R_SELF, what, 'appends every selected point, certain or not', where)
        return None
    if x.op == 'map' and y.op == 'map' and x.args[2] is not None and y.args[2] is not None:
        k = fresh('i', 'nat')
        ca, cb = instantiate(x.args[2], k), instantiate(y.args[2], k)
        if ca is not cb:
            (rep.bad if understood_cond(ca) and understood_cond(cb) else rep.unk)(R_DROP, what, 'points and labels are filtered by different conditions: %s and %s' % (show(ca)[:100], show(cb)[:100]), *([where] if understood_cond(ca) and understood_cond(cb) else []))
            return None
        return ('filtered', x, y, ca, k)
    if x.op == 'map' and y.op != 'map' or y.op == 'map' and x.op != 'map':
        if (cachelike(x) or cachelike(y)) and (x.op == 'map' and x.args[2] is not None or y.op == 'map' and y.args[2] is not None):
            rep.bad(R_DROP, what, 'only %s are filtered' % ('points' if x.op == 'map' else 'labels'), where)
            return None
    rep.unk(R_SELF, what, 'part of the training data: %s / %s' % (show(x)[:120], show(y)[:120]))
    return None


def cachelike(x):
    return x in CACHE or x.op == 'sym' and x.args[1] == 'list' or x.op == 'sym' and x.args[0].startswith('acc#')


def understood_cond(c):
    return all(z.op in PLAIN or z.op in ('oattr', 'map', 'lam', 'bv') or z.op == 'app' and z.args[0] in ('.predict', 'row.predict') for z in walk(c))


def mask_ok(s, mask, P, when=False):
    """certain() with the batch P answered for read as a plain array"""
    base = P.args[1][1]
    B = sym('batch', 'arr2')
    m = {base: B}
    k = fresh('k', 'nat')
    return certain(s, subst(mask, m), subst(P, m), k, when)


def calls(evs, recv, meth=None):
    return [(i, e) for i, e in enumerate(evs) if e[0] == 'call' and e[1] is recv and (meth is None or e[2] == meth)]


def fit(rep, ip, cname, o, s0):
    what = cname + '.fit_data'
    for cached in (False, True):
        s1, nl = with_cache(s0, o) if cached else (s0.fork(), 0)
        if cached and not nl:
            continue
        w = what + (' with self-labeled points' if cached else '')
        n0, f0 = len(s1.events), len(s1.facts.log)
        stats = dict(conflict=0, fine=0)
        for r, s in record_fits(ip, lambda: meth(ip, s1.fork(), o, 'fit_data', DATA)):
            if isinstance(r, Exc):
                if not infeasible(s):
                    rep.unk(R_INF, w, 'raises ' + show(r.v)[:80])
                continue
            evs = list(flat_events(s.events[n0:]))
            conds = s.facts.log[f0:]
            upd = calls(evs, POL, 'update_data') + calls(evs, POL, 'update')
            lastup = max([i for i, e in upd] or [-1])
            vup = max([e[5] if isinstance(e[5], int) else 0 for i, e in upd] or [-1])
            # points moved to inferred
            for i, e in calls(evs, DATA, 'move_to_inferred'):
                idx = s.deep(e[3][0]) if e[3] else None
                moved(rep, w, s, idx, e, i, lastup, vup)
            complete(rep, w, s, conds, evs, upd, lastup)
            # training data
            fits = [(i, e) for i, e in enumerate(evs) if e[0] == 'fitting']
            kinds = []
            for i, e in fits:
                ps = pairs(e)
                if ps is None:
                    X, y = fitargs(e)
                    bad = X is not None and y is not None and len(segments(X)) != len(segments(y))
                    (rep.bad if bad and all(user_part(a, b) or cachelike(a) for a, b in zip(segments(X), segments(y))) else rep.unk)(R_SELF, w, 'points and labels of different parts: %s / %s' % (show(X)[:100] if X is not None else '', show(y)[:100] if y is not None else ''))
                    continue
                kinds.append((i, e, [judge_pair(rep, w, s, x, y, e[-1], lastup) for x, y in ps], ps))
            conflict = [c for c in conds if any(y.op == 'app' and y.args[0] in ('.update_data', '.update') and y.args[1][0] is POL for y in walk(c))]
            failed = None
            for c in conflict:
                cell = [y for y in walk(c) if y.op == 'in' and y.args[0].op == 'app' and y.args[0].args[0] in ('.update_data', '.update')]
                if cell:
                    v = evalt(c, {cell[0]: False}), evalt(c, {cell[0]: True})
                    failed = True if v == (True, False) else False if v == (False, True) else failed
            if not upd:
                # invalid polytope: no update, nothing inferred
                continue
            if failed is None:
                rep.bad(R_FLUSH, w, 'the outcome of the polytope update is ignored', upd[-1][1][-1])
                continue
            carried = probe(ip, s, o)
            if not failed:
                stats['fine'] += 1
                if cached:
                    good = carried is not None and len(carried) == 1 and [k for x, y in carried[0] if not user_part(x, y) for k in (x, y)] in ([a for a in CACHE[:nl]], [a for a in CACHE[:nl]][::-1])
                    (rep.ok if good else rep.unk)(R_KEEP, w, '' if good else 'carries ' + ('; '.join(show(x)[:80] for c_ in carried for x, y in c_) if carried else 'unknown training data'))
                continue
            stats['conflict'] += 1
            rem = [i for i, e in calls(evs, DATA, 'remove_inferred')]
            mv = [i for i, e in calls(evs, DATA, 'move_to_inferred')]
            if not rem:
                rep.bad(R_FLUSH, w, 'the inferred partition is not flushed after a failed update', upd[-1][1][-1])
            elif any(i < lastup for i in rem) and not any(i > lastup for i in rem):
                rep.unk(R_FLUSH, w, 'flushes before the update')
            elif mv and any(m_ < max(rem) for m_ in mv):
                rep.bad(R_FLUSH, w, 'points are inferred before the flush', evs[mv[0]][-1])
            else:
                rep.ok(R_FLUSH, w)
            if not cached:
                continue
            if carried is None:
                rep.unk(R_DROP, w, 'training data carried on is not understood')
                continue
            for c_ in carried:
                dropped(rep, ip, w, s, c_, conds, vup, evs, kinds, lastup, upd[-1][1][-1])
        if not stats['conflict']:
            rep.unk(R_FLUSH, w, 'no path for a failed update')
        if not stats['fine']:
            rep.unk(R_KEEP, w, 'no path for a successful update')


def complete(rep, w, s, conds, evs, upd, lastup):
    """unless the polytope is invalid or no unknown point is left, every certain unknown point is inferred"""
    mv = [e for i, e in calls(evs, DATA, 'move_to_inferred') if i > lastup]
    open_ = None
    for unknown, inferred in ((5, 3), (1, 0)):
        env = {}
        for c in conds:
            for x in walk(c):
                if x.op == 'oattr' and x.args[0] is DATA:
                    v = {'unknown_size': unknown, 'inferred_size': inferred, 'unlabeled_size': unknown + inferred, 'labeled_size': 4}.get(x.args[1])
                    if v is not None:
                        env[x] = v
                elif x.op == 'in' and x.args[1].op == 'truthy' and x.args[0].op == 'oattr' and x.args[0].args[:2] == (POL, 'is_valid'):
                    env[x] = True
        vals = [evalt(c, env) for c in conds]
        if False not in vals:
            left = [c for c, v in zip(conds, vals) if v is None]
            open_ = left if open_ is None or len(left) < len(open_) else open_
    if open_ is None:
        return
    open_ = [c for c in open_ if not any(y.op == 'app' and y.args[0] in ('.update_data', '.update') and y.args[1][0] is POL for y in walk(c))]
    if not upd:
        if not open_:
            rep.bad(R_ALL, w, 'a valid polytope model is not updated with the new labels', 'fit_data')
        return
    if not mv:
        if not open_:
            rep.bad(R_ALL, w, 'no unknown point is inferred although the polytope is valid and unknown points remain', upd[-1][1][-1])
        elif not any(y.op == 'app' and y.args[0] == '.predict' for c in open_ for y in walk(c)):
            rep.unk(R_ALL, w, 'no inference when ' + show(open_[0])[:100])
        return
    if len(mv) != 1 or not mv[0][3]:
        rep.unk(R_ALL, w, '%d moves' % len(mv))
        return
    idx = s.deep(mv[0][3][0])
    if idx.op == 'oattr' and idx.args[1] == 'index' and idx.args[0].op == 'sub' and isbool(idx.args[0].args[1]):
        idx = mk('sub', mk('oattr', idx.args[0].args[0], 'index', 0), idx.args[0].args[1])
    base, mask = idx.args[:2] if idx.op == 'sub' else (None, None)
    ps = [x for x in walk(mask) if x.op == 'app' and x.args[0] == '.predict'] if mask is not None else []
    if len(ps) != 1 or base.op != 'oattr' or base.args[1] != 'index' or not isbool(mask):
        rep.unk(R_ALL, w, 'moves ' + show(idx)[:120])
        return
    U = base.args[0]
    if not (U.op == 'oattr' and U.args[0] is DATA and U.args[1] in ('unknown', 'unlabeled')):
        rep.unk(R_ALL, w, 'candidates are ' + show(U)[:80])
        return
    k, B = fresh('k', 'nat'), sym('batch', 'arr2')
    m = {ps[0].args[1][1]: B}
    c, p = at(subst(mask, m), k, s), at(subst(ps[0], m), k, s)
    vals = [evalt(c, {p: v}) for v in (Fr(0), Fr(1))]
    if False in vals:
        rep.bad(R_ALL, w, 'points the polytope labels %d are not inferred' % vals.index(False), mv[0][-1])
    elif None in vals:
        rep.unk(R_ALL, w, 'mask ' + show(mask)[:100])
    else:
        rep.ok(R_ALL, w)


def infeasible(s):
    return False


def probe(ip, s, o):
    """possible training data of the next fit: [[(X part, y part)]]"""
    s = s.fork()
    n0 = len(s.events)
    got = None
    for r, s2 in record_fits(ip, lambda: meth(ip, s, o, 'fit_data', DATA)):
        e = next((e for e in flat_events(s2.events[n0:]) if e[0] == 'fitting'), None)
        p = pairs(e) if e else None
        if p is None:
            return None
        got = got or []
        if p not in got:
            got.append(p)
    return got


def moved(rep, w, s, idx, e, pos, lastup, vup):
    if idx is not None and idx.op == 'oattr' and idx.args[1] == 'index' and idx.args[0].op == 'sub' and isbool(idx.args[0].args[1]):
        # index of a selection is the selection of the index
        idx = mk('sub', mk('oattr', idx.args[0].args[0], 'index', 0), idx.args[0].args[1])
    if idx is None or idx.op != 'sub':
        whole = idx is not None and idx.op == 'oattr' and idx.args[1] == 'index' and idx.args[0].op == 'oattr' and idx.args[0].args[0] is DATA
        (rep.bad if whole else rep.unk)(R_INF, w, 'moves %s' % (show(idx)[:150] if idx is not None else '?'), *([e[-1]] if whole else []))
        return
    base, mask = idx.args
    if base.op != 'oattr' or base.args[1] != 'index' or not isbool(mask):
        rep.unk(R_INF, w, 'moves ' + show(idx)[:150])
        return
    U = base.args[0]
    ps = [x for x in walk(mask) if x.op == 'app' and x.args[0] == '.predict']
    if len(ps) != 1:
        rep.unk(R_INF, w, 'moves ' + show(idx)[:150])
        return
    P = ps[0]
    if P.args[1][0] is AL:
        rep.bad(R_INF, w, 'certainty is read from the wrapped learner', e[-1])
        return
    if P.args[1][0] is not POL:
        rep.unk(R_INF, w, 'moves ' + show(idx)[:150])
        return
    b = P.args[1][1]
    if not (b.op == 'oattr' and b.args[1] == 'data' and b.args[0] is U):
        (rep.bad if b.op == 'oattr' else rep.unk)(R_INF, w, 'the answers are for %s, the moved indexes of %s' % (show(b)[:80], show(U)[:80]), *([e[-1]] if b.op == 'oattr' else []))
        return
    if version(P) <= vup:
        rep.bad(R_INF, w, 'the answers were given before the last update of the polytope', e[-1])
        return
    c = mask_ok(s, mask, P)
    (rep.ok if c else rep.bad if c is False else rep.unk)(R_INF, w, '' if c else 'moves points the polytope is not certain about (mask %s)' % show(mask)[:150], *([e[-1]] if c is False else []))


def dropped(rep, ip, w, s, carried, conds, vup, evs, kinds, lastup, where):
    """after a contradiction the carried training data has only certain self-labeled points, and the learner was fitted on it"""
    rest = [(x, y) for x, y in carried if not user_part(x, y)]
    ok = True
    for x, y in rest:
        if cachelike(x) and cachelike(y):
            # nothing dropped: every point must still be certain
            good = False
            why = 'self-labeled points are kept without asking the polytope again'
            for c in conds:
                neg = c.op == 'not'
                z = c.args[0] if neg else c
                if z.op == 'app' and z.args[0] in ('np.any', 'np.all') and any(p.op == 'app' and p.args[0] == '.predict' and p.args[1][0] is POL for p in walk(z)):
                    P = norm_pred(next(p for p in walk(z) if p.op == 'app' and p.args[0] == '.predict' and p.args[1][0] is POL))
                    mask = norm(z.args[1][0])
                    if P.args[1][1] is not x:
                        continue
                    if version(P) <= vup:
                        why = 'certainty of the self-labeled points was asked before the update'
                        continue
                    every = not_(mask) if z.args[0] == 'np.any' and neg else mask if z.args[0] == 'np.all' and not neg else None
                    if every is None:
                        continue
                    r = mask_ok(s, every, P)
                    if r:
                        good = True
                    elif r is None:
                        good = None
                    else:
                        why = 'kept when %s, which does not mean that all are certain' % show(c)[:120]
            if good is False:
                rep.bad(R_DROP, w, why, where)
                return
            if good is None:
                rep.unk(R_DROP, w, 'kept on condition ' + show(and_(*conds))[:150])
                ok = False
            continue
        sx, sy = selection(x), selection(y)
        if sx and sy and sx[0] is not sy[0]:
            if sx[1] is not sy[1]:
                u = understood_cond(sx[1]) and understood_cond(sy[1])
                (rep.bad if u else rep.unk)(R_DROP, w, 'points and labels are filtered by different conditions: %s and %s' % (show(sx[1])[:100], show(sy[1])[:100]))
                return
            mask = norm(sx[1])
            ps = {p for p in walk(mask) if p.op == 'app' and p.args[0] == '.predict' and p.args[1][0] is POL}
            if len(ps) == 1:
                P = ps.pop()
                if P.args[1][1] is sx[0]:
                    if version(P) <= vup:
                        rep.bad(R_DROP, w, 'certainty of the self-labeled points was asked before the update', where)
                        return
                    r = mask_ok(s, mask, P)
                    if r:
                        continue
                    (rep.bad if r is False else rep.unk)(R_DROP, w, 'keeps points the polytope is not certain about: ' + show(mask)[:150], *([where] if r is False else []))
                    return
        if x.op == 'map' and y.op == 'map' and x.args[2] is not None and y.args[2] is not None:
            k = fresh('i', 'nat')
            ca, cb = norm(instantiate(x.args[2], k)), norm(instantiate(y.args[2], k))
            ex, ey = instantiate(x.args[0], k), instantiate(y.args[0], k)
            if ca is not cb:
                (rep.bad if understood_cond(ca) and understood_cond(cb) else rep.unk)(R_DROP, w, 'points and labels are filtered by different conditions: %s and %s' % (show(ca)[:100], show(cb)[:100]))
                return
            if not (ex.op == 'sub' and cachelike(ex.args[0]) and ex.args[1] is k and ey.op == 'sub' and cachelike(ey.args[0]) and ey.args[1] is k and ex is not ey):
                rep.unk(R_DROP, w, 'keeps ' + show(ex)[:80])
                ok = False
                continue
            ps = [p for p in walk(ca) if p.op == 'app' and p.args[0] in ('.predict', 'row.predict') and p.args[1][0] is POL]
            if len(set(ps)) != 1 or ps[0].args[1][1] is not (ex.args[0] if ps[0].args[0] == '.predict' else ex):
                rep.unk(R_DROP, w, 'kept on condition ' + show(ca)[:150])
                ok = False
                continue
            P = ps[0]
            if version(P) <= vup:
                rep.bad(R_DROP, w, 'certainty of the self-labeled points was asked before the update', where)
                return
            B = sym('batch', 'arr2')
            c2 = at_cond(ca, P, ex.args[0], k, s)
            v = evalt(c2[0], {c2[1]: Fr(1, 2)})
            if v is False:
                continue
            (rep.bad if v is True else rep.unk)(R_DROP, w, 'keeps points the polytope is not certain about: ' + show(ca)[:150], *([where] if v is True else []))
            return
        if any(a.op == 'map' and a.args[2] is not None and b.op == 'sub' and cachelike(b.args[0]) and b.args[1].op == 'slice' for a, b in ((x, y), (y, x))):
            rep.bad(R_DROP, w, 'points are filtered, labels cut: %s / %s' % (show(x)[:100], show(y)[:80]), where)
            return
        rep.unk(R_DROP, w, 'carries %s' % show(x)[:120])
        ok = False
    # the learner must have been fitted on what is carried
    if ok:
        last = kinds[-1] if kinds else None
        strip = lambda ps: [(x, y) for x, y in ps if not user_part(x, y)]
        if last is None or strip(last[3]) != rest:
            rep.bad(R_DROP, w, 'self-labeled points are dropped but the wrapped learner is still fitted on them', where)
        else:
            rep.ok(R_DROP, w)


def selection(t):
    """(list, mask) when t is the entries of a list selected by a boolean mask, in order"""
    if t.op == 'sub' and isbool(t.args[1]):
        return t.args
    if t.op == 'map':
        k = fresh('i', 'nat')
        e = instantiate(t.args[0], k)
        if e.op != 'sub' or not cachelike(e.args[0]):
            return None
        if t.args[2] is not None:
            c = instantiate(t.args[2], k)
            if e.args[1] is k and c.op == 'sub' and c.args[1] is k:
                return e.args[0], c.args[0]
            return None
        j = e.args[1]
        if j.op == 'sub' and j.args[1] is k and j.args[0].op == 'app' and j.args[0].args[0] == 'nonzero' and len(j.args[0].args[1]) == 1:
            return e.args[0], j.args[0].args[1][0]
    return None


def norm_pred(P):
    return norm(P)


def at_cond(c, P, base, k, s):
    """condition and polytope answer at position k as scalars"""
    a = sym('answer', 'float')
    m = {}
    for x in walk(c):
        if x.op == 'sub' and x.args[1] is k and any(y is P for y in walk(x.args[0])):
            B = sym('batch', 'arr2')
            t = at(subst(x.args[0], {base: B}), k, s)
            p = at(subst(P, {base: B}), k, s)
            m[x] = subst(t, {p: a})
    c = subst(c, m)
    if P.args[0] == 'row.predict':
        c = subst(c, {P: a})
    return c, a


def ask(rep, ip, cname, o, s0):
    what = cname + '.next_points_to_label'
    SUB = sym('subsample', 'int')
    for cached in (False, True):
        s1, nl = with_cache(s0, o) if cached else (s0.fork(), 0)
        if cached and not nl:
            continue
        w = what + (' with self-labeled points' if cached else '')
        n0, f0 = len(s1.events), len(s1.facts.log)
        got = []

        def body(n, entry, paths, k, dom, elem):
            ne = len(entry.events)
            for s, g in paths:
                got.append((list(flat_events(s.events[ne:])), s.fork()))
        ip.body_hook = body
        try:
            outs = record_fits(ip, lambda: meth(ip, s1.fork(), o, 'next_points_to_label', DATA, SUB))
        finally:
            ip.body_hook = None
        for evs, s in got + [(list(flat_events(s.events[n0:])), s) for r, s in outs]:
            for e in evs:
                if e[0] != 'fitting':
                    continue
                ps = pairs(e)
                if ps is None:
                    rep.unk(R_SELF, w, 'training data is not understood')
                    continue
                for x, y in ps:
                    if judge_pair(rep, w, s, x, y, e[-1], -1) in ('user', 'cache'):
                        rep.ok(R_SELF, w)
        for r, s in outs:
            if isinstance(r, Exc):
                rep.unk(R_ASK, w, 'raises ' + show(r.v)[:80])
                continue
            asked(rep, w, s, s.deep(r), s.facts.log[f0:])


def asked(rep, w, s, v, conds):
    valid = [y for c in conds for y in walk(c) if y.op == 'in' and y.args[0].op == 'oattr' and y.args[0].args[:2] == (POL, 'is_valid')]
    unknown = [y for c in conds for y in walk(c) if y.op == 'oattr' and y.args[0] is DATA and y.args[1] == 'unknown_size']
    if v.op == 'app' and v.args[0] == '.next_points_to_label' and v.args[1][0] is AL:
        # allowed only when the polytope is invalid or nothing is unknown
        bad = True
        for val, un in itertools.product((True, False), (0, 1, 5)):
            if not val or not un:
                continue
            env = {y: val for y in valid}
            env.update({y: un for y in unknown})
            if not any(evalt(c, env) is False for c in conds):
                rep.bad(R_ASK, w, 'the wrapped learner chooses among all points although the polytope is valid and some points are unknown')
                return
        rep.ok(R_ASK, w)
        return
    if v.op == 'sub' and isbool(v.args[1]):
        SEL, mask = v.args
        ps = [x for x in walk(mask) if x.op == 'app' and x.args[0] == '.predict']
        if len(set(ps)) == 1 and ps[0].args[1][0] is POL:
            P = ps[0]
            b = P.args[1][1]
            if b is not mk('oattr', SEL, 'data', b.args[2] if b.op == 'oattr' else 0):
                rep.unk(R_ASK, w, 'asks about ' + show(v)[:150])
                return
            c = mask_ok(s, mask, P, when=True)
            (rep.ok if c else rep.bad if c is False else rep.unk)(R_ASK, w, '' if c else 'asks about points the polytope is certain about (mask %s)' % show(mask)[:150])
            return
        if ps and ps[0].args[1][0] is AL:
            rep.bad(R_ASK, w, 'certainty is read from the wrapped learner')
            return
    if v.op == 'app' and v.args[0] == '._select_next':
        # returned whole: every point of it must be uncertain
        rowk = sym('k', 'nat')
        for c in conds:
            z = c.args[0] if c.op == 'not' else c
            if z.op == 'app' and z.args[0] in ('np.any', 'np.all'):
                ps = [x for x in walk(z) if x.op == 'app' and x.args[0] == '.predict' and x.args[1][0] is POL and x.args[1][1].op == 'oattr' and x.args[1][1].args[0] is v]
                every = not_(z.args[1][0]) if z.args[0] == 'np.any' and c.op == 'not' else z.args[1][0] if z.args[0] == 'np.all' and c.op != 'not' else None
                if ps and every is not None and mask_ok(s, every, ps[0], when=True):
                    rep.ok(R_ASK, w)
                    return
        if not any(x.op == 'app' and x.args[0] == '.predict' and any(y is v for y in walk(x)) for c in conds for x in walk(c)):
            rep.bad(R_ASK, w, 'returns the selected points without asking the polytope')
            return
        rep.bad(R_ASK, w, 'returns all selected points, also those the polytope is certain about')
        return
    rep.unk(R_ASK, w, 'asks about ' + show(v)[:200])

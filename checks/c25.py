"""C25: query by disagreement trains on what it documents."""
from sa.drive import *
from sa.rows import at
from sa.evalt import evalt
import itertools

EXPLAIN = ('QueryByDisagreement is abstractly interpreted with an opaque dataset and learner. The arguments of every fit call are recorded as terms at the moment of the call; an arbitrary row of them (a labeled or a sampled one) is '
           'compared with the documented training point, label and weight, and their lengths with the numbers of labeled and actually sampled points. Predictions must come from the learner fitted on the labeled data, the rank from '
           'the two biased ones. IndexedDataset.sample is interpreted for requests above the number of points.')
ASSUME = ['sklearn.base.clone returns an independent learner of the same kind', 'training_set() returns rows and labels of equal number (C04)']
FLOOR = 16
R_MAIN, R_BG, R_POS, R_NEG, R_PRED, R_RANK, R_FEW = ('main learner is trained on the labeled data only', 'background points are a sample of the unlabeled points with the configured size', 'positively biased training set',
                                                    'negatively biased training set', 'predictions come from the main learner', 'first ranked exactly on disagreement', 'fewer points than requested')
DATA, LEARNER = sym('data', 'obj'), sym('learner', 'obj')
SZ, WT = sym('background_sample_size', 'nat'), sym('background_sample_weight', 'float')


def fits(ip, st, o):
    """outcomes of fit_data with the fit calls [(learner, arguments at the time of the call, where)]"""
    def hook(fv, args, kw, s, n=None):
        if fv.op == 'oattr' and fv.args[1] == 'fit':
            s.event('fitting', s.deep(fv.args[0]), tuple(s.deep(a) for a in args), tuple(sorted((k, s.deep(v)) for k, v in kw.items())), ip.where(n))
        return None
    ip.call_hook = hook
    try:
        return meth(ip, st, o, 'fit_data', DATA)
    finally:
        ip.call_hook = None


def named(args, kw, *names):
    d = dict(kw)
    return [args[i] if i < len(args) else d.get(n) for i, n in enumerate(names)]


def same(st, a, b):
    return a is b or st.facts.decide(eq(a, b)) is True


def asnum(t):
    """truth values used as labels"""
    return t


def training(rep, ip, rule, what, st, call_, X, y, label, where):
    """one biased learner's training set"""
    Xt, yt, w = named(call_[2], call_[3], 'X', 'y', 'sample_weight')
    if Xt is None or yt is None:
        rep.unk(rule, what, 'arguments of fit are not understood')
        return
    bg = sym('background', 'arr2')
    bg = bg if bg in walk(Xt) else None
    if bg is None:
        rep.unk(rule, what, 'no sampled points in the training rows: ' + show(Xt)[:200])
        return
    nl, nb = length(X), length(bg)
    i, j = fresh('i', 'nat'), fresh('j', 'nat')
    s = st.fork()
    s.facts.assume(lt(i, nl))
    s.facts.assume(lt(j, nb))
    s.facts.assume(eq(length(y), nl))
    for nm, v in (('rows', Xt), ('labels', yt), ('weights', w)):
        if v is None:
            if nm == 'weights':
                rep.bad(rule, what + ': weights', 'no sample weights are passed: sampled points weigh as much as labeled ones', where)
            continue
        n = s.val(v) if v.op == 'ref' else v
        d = s.facts.decide(eq(length(n), add(nl, nb)))
        if d is True:
            rep.ok(rule, what + ': number of ' + nm)
        else:
            (rep.bad if d is False or understood(length(n), X, y, bg) else rep.unk)(rule, what + ': number of ' + nm, '%s instead of labeled + sampled points' % show(length(n))[:150], where)
        for which, k, want in (('labeled', i, {'rows': mk('sub', X, i), 'labels': mk('sub', y, i), 'weights': ONE}[nm]), ('sampled', add(nl, j), {'rows': mk('sub', bg, j), 'labels': label, 'weights': WT}[nm])):
            w2 = '%s: %s of a %s point' % (what, nm, which)
            got = at(n, k, s)
            if same(s, got, want):
                rep.ok(rule, w2)
                continue
            d = witness(got, want, nl, nb, y, i, j) if nm != 'rows' else None
            if nm == 'rows' and simple(got) and understood(got, X, y, bg) or d not in (None, 'same'):
                rep.bad(rule, w2, 'is %s instead of %s' % (show(got)[:150], show(want)[:100]), where)
            elif d == 'same':
                rep.ok(rule, w2)
            else:
                rep.unk(rule, w2, show(got)[:200])


def witness(got, want, nl, nb, y, i, j):
    """an assignment of sizes, positions and values on which the terms differ"""
    some = False
    for a, b, p, q, sz, w, l in itertools.product((1, 2, 4), (1, 2, 3), (0, 1, 3), (0, 1, 2), (1, 2, 3, 5), (3,), (0, 1)):
        if p >= a or q >= b or b > sz:
            continue
        env = {nl: a, nb: b, i: p, j: q, SZ: sz, WT: w, mk('sub', y, i): l, length(y): a}
        u, v = evalt(got, env), evalt(want, env)
        if u is None or v is None:
            return None
        if u != v:
            return [{'labeled': a, 'sampled': b, 'requested': sz, 'row': p if want is not WT else a + q}, u, v]
    return 'same'


def understood(t, X, y, bg):
    return all(x.op in ('poly', 'const', 'len', 'sym', 'sub', 'oattr') or x.op == 'app' and x.args[0].startswith('.') for x in walk(t))


def background(Xt):
    """the sampled rows met in the training rows"""
    c = [x for x in walk(Xt) if x.op in ('oattr', 'attr') and x.args[1] == 'data' and x.args[0].op == 'app' and x.args[0].args[0] == '.sample']
    return c[0] if c else None


def run(rep):
    ip = load()
    st = ip.start()
    st.facts.assume(lt(ZERO, SZ))
    st.facts.assume(lt(ZERO, WT))
    X0 = A(st, 'X')
    for o, s0 in new(ip, st, 'QueryByDisagreement', LEARNER, background_sample_size=SZ, background_sample_weight=WT):
        if isinstance(o, Exc):
            continue

        def go(o=o, s0=s0):
            for r, s in fits(ip, s0.fork(), o):
                if isinstance(r, Exc):
                    rep.bad(R_FEW, 'fit_data', 'raises ' + show(r.v)[:100])
                    continue
                fc = [e for e in flat_events(s.events) if e[0] == 'fitting']
                ts = [e for e in flat_events(s.events) if e[0] == 'call' and e[1] is DATA and e[2] == 'training_set']
                other = [e for e in flat_events(s.events) if e[0] == 'call' and e[1] is DATA and e[2] in ('last_training_set', 'last_user_labels')]
                if not ts and fc and other:
                    rep.bad(R_MAIN, 'fit_data', 'trains on data.%s() instead of all user-labeled data' % other[0][2], other[0][-1])
                    continue
                if not ts or not fc:
                    rep.unk(R_MAIN, 'fit_data', 'no training set or fit call')
                    continue
                tset = ts[0]
                samples = [x for e in fc for a in e[2] for x in walk(a) if background(x) is x]
                BG = sym('background', 'arr2')
                T = next(x for e in fc for a in e[2] for x in walk(a) if x.op == 'app' and x.args[0] == '.training_set')
                X, y = sym('X_labeled', 'arr2'), sym('y_labeled', 'arr1')
                if len(set(samples)) > 1:
                    rep.unk(R_BG, 'fit_data', 'several samples are drawn')
                    continue
                m = {mk('sub', T, ZERO): X, mk('sub', T, ONE): y}
                m.update({x: BG for x in samples})
                fc = [(e[0], e[1], tuple(subst(a, m) for a in e[2]), tuple((k, subst(v, m)) for k, v in e[3]), e[4]) for e in fc]
                if dict(tset[4]).get('get_partial') not in (None, FALSE) or tset[3] and tset[3][0] is not FALSE:
                    rep.bad(R_MAIN, 'training_set()', 'partial labels are requested')
                # roles: the learner that predicts, and the two that rank
                main = set(e[1] for m in ('predict', 'predict_proba') for r2, s2 in meth(ip, s.fork(), o, m, X0) for e in s2.events[len(s.events):] if e[0] == 'call' and e[2] in ('predict', 'predict_proba'))
                if len(main) != 1:
                    rep.bad(R_PRED, 'predict / predict_proba', 'use different learners: ' + ', '.join(show(m) for m in main)) if main else rep.unk(R_PRED, 'predict', 'no learner is called')
                    continue
                main = main.pop()
                for m in ('predict', 'predict_proba'):
                    for r2, s2 in meth(ip, s.fork(), o, m, X0):
                        v = s2.deep(r2) if not isinstance(r2, Exc) else None
                        good = v is not None and v.op == 'app' and v.args[0] == '.' + m and v.args[1][0] is main and v.args[1][1] is s2.deep(X0)
                        (rep.ok if good else rep.unk)(R_PRED, m, '' if good else show(v)[:150] if v is not None else 'raises')
                # final fit of each learner
                last = {}
                for e in fc:
                    last[e[1]] = e
                if main not in last:
                    rep.bad(R_MAIN, 'fit_data', 'the learner used for predictions is never fitted')
                    continue
                e = last[main]
                a, b, w = named(e[2], e[3], 'X', 'y', 'sample_weight')
                if same(s, a, X) and same(s, b, y) and (w is None or w is NONE):
                    rep.ok(R_MAIN, 'fit of the main learner')
                elif any(x is BG for q in (a, b) if q is not None for x in walk(q)):
                    rep.bad(R_MAIN, 'fit of the main learner', 'is fitted on %s, %s' % (show(a)[:150], show(b)[:100]), e[-1])
                else:
                    rep.unk(R_MAIN, 'fit of the main learner', show(a)[:100] + show(b)[:100])
                # sampling
                for ev in flat_events(s.events):
                    if ev[0] == 'call' and ev[2] == 'sample':
                        n_ = named(ev[3], ev[4], 'subsample')[0]
                        src = ev[1].op == 'oattr' and ev[1].args[0] is DATA
                        if src and ev[1].args[1] == 'unlabeled' and n_ is SZ:
                            rep.ok(R_BG, 'sample')
                        elif src and n_ is not None:
                            rep.bad(R_BG, 'sample', 'samples %s of data.%s' % (show(n_), ev[1].args[1]), ev[-1])
                        else:
                            rep.unk(R_BG, 'sample', show(ev[1])[:100])
                biased = [k for k in last if k is not main]
                roles = {}
                for k in biased:
                    _, yt, _ = named(last[k][2], last[k][3], 'X', 'y', 'sample_weight')
                    bg = BG if samples else None
                    lab = None
                    if bg is not None and yt is not None:
                        s3 = s.fork()
                        j = fresh('j', 'nat')
                        s3.facts.assume(lt(j, length(bg)))
                        s3.facts.assume(eq(length(y), length(X)))
                        lab = at(yt, add(length(X), j), s3)
                    roles[k] = lab
                if len(biased) != 2:
                    (rep.bad if len(biased) < 2 else rep.unk)(R_POS, 'fit_data', '%d biased learners are fitted' % len(biased))
                    continue
                pos = [k for k in biased if roles[k] is ONE] or [k for k in biased if roles[k] is not ZERO]
                pos = pos[0] if pos else biased[0]
                neg = [k for k in biased if k is not pos][0]
                training(rep, ip, R_POS, 'positively biased learner', s, last[pos], X, y, ONE, last[pos][-1])
                training(rep, ip, R_NEG, 'negatively biased learner', s, last[neg], X, y, ZERO, last[neg][-1])
                # rank
                for r2, s2 in meth(ip, s.fork(), o, 'rank', X0):
                    if isinstance(r2, Exc):
                        rep.bad(R_RANK, 'rank', 'raises')
                        continue
                    k = fresh('k', 'nat')
                    s2.facts.assume(lt(k, length(sym('X', 'arr2'))))
                    v = at(s2.deep(r2), k, s2)
                    row = mk('sub', sym('X', 'arr2'), k)
                    L = {}
                    for x in walk(v):
                        if x.op == 'app' and x.args[0] in ('row.predict', 'row.predict_proba') and x.args[1][1] is row:
                            L[x] = x.args[1][0]
                    who = set(L.values())
                    if main in who:
                        rep.bad(R_RANK, 'rank', 'compares with the main learner: ' + show(v)[:150])
                        continue
                    if who != {pos, neg} or len(L) != 2 or any(x.args[0] != 'row.predict' for x in L):
                        (rep.bad if len(who) == 1 and len(L) == 1 and simple_pred(v) else rep.unk)(R_RANK, 'rank', show(v)[:200])
                        continue
                    pa = {a: sym('label_' + ('pos' if L[a] is pos else 'neg'), 'int') for a in L}
                    v = subst(v, pa)
                    vals = {}
                    for p in (0, 1):
                        for q in (0, 1):
                            vals[p, q] = evalt(v, {a: (p if a.args[0] == 'label_pos' else q) for a in pa.values()})
                    if any(z is None for z in vals.values()):
                        rep.unk(R_RANK, 'rank', show(v)[:200])
                    elif max(vals[0, 1], vals[1, 0]) < min(vals[0, 0], vals[1, 1]):
                        rep.ok(R_RANK, 'rank')
                    else:
                        rep.bad(R_RANK, 'rank', 'disagreement does not rank first: %s' % vals)
        rep.guard(R_POS, 'fit_data', go)
    rep.guard(R_FEW, 'IndexedDataset.sample', lambda: few(rep, ip))


def simple_pred(v):
    return all(x.op in PLAIN or x.op == 'app' and x.args[0].startswith('row.') or x.op == 'app' and x.args[0] == 'astype' for x in walk(v))


def few(rep, ip):
    st = ip.start()
    c = cls(ip, 'IndexedDataset')
    for o, s in normal(call(ip, P(c), [A(st, 'data'), A(st, 'index', 'arr1')], {}, st)):
        n = length(sym('data', 'arr2'))
        s.facts.assume(eq(length(sym('index', 'arr1')), n))
        for name, cond in (('more points than requested', lt(SZ, n)), ('exactly the requested points', eq(SZ, n)), ('fewer points than requested', lt(n, SZ))):
            s1 = s.fork()
            s1.facts.assume(cond)
            s1.facts.assume(lt(ZERO, SZ))
            for r, s2 in meth(ip, s1, o, 'sample', SZ):
                if isinstance(r, Exc):
                    rep.bad(R_FEW, 'sample with ' + name, 'raises ' + show(r.v)[:100])
                    continue
                if r.op == 'ref' and s2.obj(r).kind == 'inst':
                    d = s2.val(attr(ip, s2, r, 'data')[0])
                    want = n if name[0] == 'f' else SZ
                    q = s2.facts.decide(eq(length(d), want))
                    if any(x.op == 'app' and x.args[0] == 'np.random.choice' and dict(x.args[2]).get('replace', TRUE) is not FALSE and len(x.args[1]) < 3 for x in walk(d)) and name[0] == 'm':
                        rep.bad(R_FEW, 'sample with ' + name, 'draws with replacement')
                    else:
                        (rep.ok if q is True else rep.bad if q is False else rep.unk)(R_FEW, 'sample with ' + name, '' if q is True else 'returns %s points' % show(length(d))[:100])
                else:
                    rep.unk(R_FEW, 'sample with ' + name, show(r)[:100])
                bad = [e for e in s2.events if e[0] == 'raises']

"""C39: the metric log combines values as requested and times exactly the wrapped call."""
from sa.drive import *
from sa.terms import fresh

EXPLAIN = ('The metric log is abstractly executed through its public functions on sequences of logged values for every duplicate strategy, spelled in lower and upper case, with other keys present; the '
           'dictionary reported afterwards is compared with the strategy. The timing decorator is applied to an opaque function: the logged value must be the difference of two clock readings that enclose the only call.')
ASSUME = ['three values per key stand for any number', 'the wrapped function is opaque and does not read the clock of the decorator']
FLOOR = 12
R_DUP = 'values of one key are combined as on_duplicates says'
R_ISO = 'other keys keep their values, and flush() empties the log'
R_TIME = 'log_execution_time logs the duration of the call and returns its result'
M = 'aideme.utils.metric_logger'
A_, B_ = C('a'), C('b')


def report(rep, rule, what, problems, undecided=()):
    if problems:
        rep.bad(rule, what, problems[0], M)
    elif undecided:
        rep.unk(rule, what, undecided[0])
    else:
        rep.ok(rule, what)


def play(ip, st, *calls):
    """[(dictionary or Exc, state)] after a sequence of calls; stops at exceptions"""
    cur, ends = [st], []
    for name, args, kw in calls:
        nxt = []
        for s in cur:
            for r, s2 in call(ip, fn(ip, M, name), [a(s) if callable(a) else a for a in args], kw, s):
                (ends if isinstance(r, Exc) else nxt).append((r, s2))
        cur = [s for _, s in nxt]
    return [(r, s, True) for r, s in ends] + [(None, s, False) for s in cur]


def log(ip, s):
    """contents {key: value term} of the log, or None"""
    outs = [o for o in call(ip, fn(ip, M, 'get_metrics'), [], {}, s.fork()) if not isinstance(o[0], Exc)]
    if len(outs) != 1:
        return None
    t = outs[0][1].deep(outs[0][0])
    if t.op != 'dict':
        return None
    items = t.args[0] if len(t.args) == 1 and isinstance(t.args[0], tuple) else t.args
    out = {}
    for kv in items:
        if not (isinstance(kv, tuple) and len(kv) == 2) or kv[0].op != 'const':
            return None
        out[kv[0].args[0]] = kv[1]
    return out


def equal(t, want):
    """True / False / None"""
    if isinstance(want, list):
        if t.op in ('list', 'tuple'):
            if len(t.args) != len(want):
                return False
            rs = [equal(x, w) for x, w in zip(t.args, want)]
            return False if False in rs else None if None in rs else True
        return False if num(t) is not None else None
    n = num(t)
    if n is not None:
        return n == want
    return False if t.op in ('list', 'const') else None


def sequences(rep, ip, st):
    vals = (2, 3, 7)
    for opt in (None, 'overwrite', 'sum', 'append', 'OVERWRITE', 'SUM', 'APPEND'):
        kind = (opt or 'overwrite').lower()
        kw = {} if opt is None else {'on_duplicates': C(opt)}
        for n in (1, 2, 3):
            for how in ('log_metric', 'log_metrics'):
                what = '%s, %s, %d values' % (how, opt or 'default', n)
                calls = [('flush', [], {}), ('log_metric', [A_, C(50)], kw), ('flush', [], {}), ('log_metric', [B_, C(11)], {})]
                for v in vals[:n]:
                    if how == 'log_metric':
                        calls.append((how, [A_, C(v)], kw))
                    else:
                        calls.append((how, [lambda s, v=v: s.new('dict', val=mk('dict', ((A_, C(v)),)))], kw))
                want = {'overwrite': vals[n - 1], 'sum': sum(vals[:n]), 'append': list(vals[:n])}[kind]
                bad, unk, iso, iu = [], [], [], []
                for r, s, raised in play(ip, st.fork(), *calls):
                    if raised:
                        bad.append('raises ' + show(s.deep(r.v))[:80])
                        continue
                    d = log(ip, s)
                    if d is None:
                        unk.append('the log is not a literal dictionary')
                        iu.append(unk[-1])
                        continue
                    ok = equal(d['a'], want) if 'a' in d else False
                    msg = 'logging %s leaves %s instead of %s' % (list(vals[:n]), show(d['a'])[:60] if 'a' in d else 'nothing', want)
                    if ok is False:
                        bad.append(msg)
                    elif ok is None:
                        unk.append(msg)
                    if 'b' not in d or equal(d['b'], 11) is False or set(d) - {'a', 'b'}:
                        iso.append('a key logged before is %s' % ('lost' if 'b' not in d else 'changed' if set(d) <= {'a', 'b'} else 'joined by ' + str(sorted(set(d) - {'a', 'b'}))))
                report(rep, R_DUP, what, bad, unk)
                report(rep, R_ISO, what, iso, iu)
    bad, unk = [], []
    for r, s, raised in play(ip, st.fork(), ('log_metric', [A_, C(1)], {}), ('flush', [], {})):
        d = None if raised else log(ip, s)
        if d is None:
            unk.append('outcome of flush')
        elif d:
            bad.append('flush leaves %s' % sorted(d))
    report(rep, R_ISO, 'flush', bad, unk)
    bad, unk = [], []
    for r, s, raised in play(ip, st.fork(), ('flush', [], {}), ('log_metric', [A_, C(1)], {}), ('log_metric', [A_, C(2)], {'on_duplicates': C('nothing')})):
        if not raised:
            bad.append('an unknown strategy is accepted')
        else:
            d = log(ip, s)
            if d is not None and ('a' not in d or equal(d['a'], 1) is False):
                bad.append('a refused value changes the log')
    report(rep, R_DUP, 'unknown strategy', bad, unk)


def timing(rep, ip, st):
    f, x, res = sym('f', 'obj'), sym('x', 'obj'), sym('result', 'obj')
    for opt, n in ((None, 1), ('sum', 1), ('sum', 2), ('append', 2), ('overwrite', 2)):
        what = 'log_execution_time, %s, %d calls' % (opt or 'default', n)
        marks = []

        def hook(fv, args, kw, s, nd=None):
            if fv is f:
                m = fresh('reading')
                s.event('wrapped', m, tuple(args), tuple(sorted(kw.items())), None)
                return [(res, s)]
            return None
        bad, unk = [], []
        ip.call_hook = hook
        try:
            cur = [s for r, s, raised in play(ip, st.fork(), ('flush', [], {}))]
            n_ok = 0
            for s in cur:
                for d, s1 in call(ip, fn(ip, M, 'log_execution_time'), [A_] + ([C(opt)] if opt else []), {}, s):
                    for w, s2 in call(ip, d, [f], {}, s1):
                        todo = [s2]
                        for i in range(n):
                            nxt = []
                            for s3 in todo:
                                for r, s4 in call(ip, w, [x], {'k': C(5)}, s3):
                                    if isinstance(r, Exc):
                                        bad.append('the call raises ' + show(s4.deep(r.v))[:60])
                                    elif s4.deep(r) is not res:
                                        (bad if s4.deep(r) is NONE else unk).append('the result of the function is replaced by ' + show(s4.deep(r))[:60])
                                    else:
                                        nxt.append(s4)
                            todo = nxt
                        for s5 in todo:
                            n_ok += 1
                            calls = [e for e in flat_events(s5.events) if e[0] == 'wrapped']
                            if len(calls) != n:
                                bad.append('the function is called %d times' % len(calls))
                                continue
                            for e in calls:
                                if [s5.deep(a) for a in e[2]] != [x] or [(k, s5.deep(v)) for k, v in e[3] if k != '@'] != [('k', C(5))]:
                                    bad.append('the arguments do not reach the function')
                            d_ = log(ip, s5)
                            if d_ is None:
                                unk.append('log')
                                continue
                            if 'a' not in d_:
                                bad.append('nothing is logged under the key')
                                continue
                            if set(d_) != {'a'}:
                                bad.append('another key is logged')
                                continue
                            v = d_['a']
                            spans = list(v.args) if v.op == 'list' else [v]
                            kind = opt or 'overwrite'
                            groups = [calls[-1:]] if kind == 'overwrite' else [calls] if kind == 'sum' else [[c] for c in calls]
                            if len(spans) != len(groups):
                                bad.append('%d durations are kept of %d calls' % (len(spans), n))
                                continue
                            for t, cs in zip(spans, groups):
                                m = encloses(t, cs)
                                if m is not None:
                                    (bad if m[0] else unk).append(m[1])
            if not n_ok and not bad:
                unk.append('no outcome')
        finally:
            ip.call_hook = None
        report(rep, R_TIME, what, bad, unk)


def order(t):
    """serial number of a fresh term"""
    s = show(t)
    k = s.rsplit('#', 1)[-1]
    return int(k) if k.isdigit() else None


def encloses(t, calls):
    """None when t is the sum over the calls of (a reading after it) - (a reading before it)"""
    if t.op != 'poly':
        return (num(t) is not None, 'the value %s is logged' % show(t)[:60])
    plus, minus = [], []
    for m, c in t.args[0]:
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'app' or not m[0][0].args[0].startswith('nondet:time.'):
            return (False, 'the value %s is logged' % show(t)[:60])
        if c not in (1, -1):
            return (True, 'the duration is scaled by %s' % abs(c))
        o = order(m[0][0].args[1][0])
        if o is None:
            return (False, 'reading')
        (plus if c == 1 else minus).append(o)
    names = {m[0][0].args[0] for m, c in t.args[0]}
    if len(names) > 1:
        return (True, 'readings of different clocks are subtracted: ' + ', '.join(sorted(names)))
    plus, minus = sorted(plus), sorted(minus)
    at = [order(e[1]) for e in calls]
    if len(plus) != len(at) or len(minus) != len(at):
        return (True, '%d end and %d start readings for %d calls' % (len(plus), len(minus), len(at)))
    for a, b, k in zip(minus, plus, at):
        if not a < k < b:
            return (True, 'the clock readings do not enclose the call')
    return None


def run(rep):
    ip = load()
    st = ip.start()
    rep.guard(R_DUP, 'metric log', lambda: sequences(rep, ip, st))
    rep.guard(R_TIME, 'timing decorator', lambda: timing(rep, ip, st))

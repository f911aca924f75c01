"""C23: interactive labeling accepts only well-formed answers."""
from .loop import *
from . import loop
from .comp import *
from sa.interp import exc
from sa.evalv import evalv, Unknown
from itertools import product

EXPLAIN = ('CommandLineExploration.run is abstractly executed over an opaque data set and learner with every typed answer an arbitrary string; its question loops are followed for three answers. The conditions on the answers along every path '
           'and the labels recorded at its end are evaluated on scripts of answers (every string of up to three characters over 0, 1, 2 and the blank, and special strings; one, two or three displayed points): a malformed answer must lead to '
           'another question, a well-formed one to labels equal to its tokens, paired with the indexes of the displayed points.')
ASSUME = ['input() returns the line the user typed', 'the learner returns as many rows as indexes']
FLOOR = 20
R_BAD, R_GOOD, R_LAB, R_IDX, R_CRASH = ('malformed answers are not recorded', 'well-formed answers are recorded', 'recorded labels are the tokens typed', 'labels are attached to the displayed points', 'malformed answers do not end the exploration')
INDEX = (102., 104., 100.)
SPECIAL = ['', ' ', '0\t1', '01', '10', ' 0 1 ', '0  1', '+1', '-1', '-0', '1_0', '0,1', '1 0 1', '0 0 0 1', '1 1 1 1', '\u0661', '\uff11', 'y', 'n', 'a', '0.0', '1.', 'True', '0 2', '2 2', '1 -1', '0 1 2', '0 1 x', '00 1', '1 01', '1 1 01', '0b1', '\u00b2 1', '\u00b2', '1e0', 'nan', 'inf 0', '0 1\x0b0', '0\u00a01']


def strings(thorough):
    out = [''.join(p) for k in (1, 2, 3) for p in product('01 2', repeat=k)]
    if thorough:
        out += [''.join(p) for k in (4, 5) for p in product('01 2', repeat=k)]
    return list(dict.fromkeys(out + SPECIAL))


def wellformed(s, n):
    t = s.split()
    return len(t) == n and all(x in ('0', '1') for x in t)


def canonical(s, n):
    return wellformed(s, n) and s == ' '.join(s.split())


def paths(ip):
    h = opaque_data(ip)

    def hook(fv, args, kw, s, n=None):
        f = ob(fv)
        if getattr(f, 'name', None) in ('input', 'builtins.input'):
            k = len([e for e in s.events if e[0] == 'asked'])
            if k > 6:
                return [(exc('SystemExit'), s)]      # longer than every script
            x = sym('answer %d' % k, 'str')
            s.event('asked', x, tuple(s.deep(a) for a in args), ip.where(n))
            return [(x, s)]
        if fv.op == 'oattr' and fv.args[0] is DATA and fv.args[1] == 'move_to_labeled':
            s.event('recorded', tuple(args) + tuple(v for k, v in sorted(kw.items())), ip.where(n))
            return [(exc('SystemExit'), s)]      # what happens later is not followed
        return h(fv, args, kw, s, n)

    ip.unroll_while, ip.cut_off, ip.steps = 3, [], 0
    ip.call_hook = hook
    out = []
    try:
        st = start(ip)
        for o, s in normal(new(ip, st, 'CommandLineExploration')):
            for v, s1 in meth(ip, s, o, 'run', A(s, 'X'), LEARNER):
                out.append((v, s1))
            out += [(None, s1) for s1 in ip.cut_off]
    finally:
        ip.call_hook, ip.unroll_while, ip.cut_off = None, 0, []
    return out


def labels_of(ip, s, args):
    """(labels, index) of what is recorded"""
    for a in args:
        if a.op == 'ref' and s.obj(a).kind == 'inst':
            got = []
            for f in ('labels', 'index'):
                v, s1 = attr(ip, s.fork(), a, f)
                got.append(s1.deep(v))
            return got
    return None


def displayed(x):
    """an attribute of what the learner proposed"""
    return x.op == 'oattr' and x.args[1] in ('data', 'index') and x.args[0].op == 'app' and x.args[0].args[0] == '.next_points_to_label'


def run(rep):
    ip = load()
    outs = []

    def go():
        outs.extend(paths(ip))
    rep.guard(R_BAD, 'CommandLineExploration.run', go)
    if not outs:
        return
    info = []
    for v, s in outs:
        rec = [e for e in s.events if e[0] == 'recorded']
        L = labels_of(ip, s, rec[0][1]) if rec else None
        if rec and L is None:
            rep.unk(R_LAB, 'CommandLineExploration.run', 'what is recorded is not understood: ' + ', '.join(show(s.deep(a)) for a in rec[0][1])[:120])
            return
        facts = [f for f in s.facts.log if any(displayed(x) or x.op == 'sym' and str(x.args[0]).startswith('answer ') for x in walk(f))]
        asked = [e[1] for e in s.events if e[0] == 'asked']
        if asked or rec:
            info.append((v, s, rec, L, facts, asked))
    shown_ = {x for v, s, rec, L, facts, asked in info for t in facts + (L or []) for x in walk(t) if displayed(x)}
    problems, unknown, done = {}, set(), {r: 0 for r in (R_BAD, R_GOOD, R_LAB, R_IDX, R_CRASH)}

    def play(script, n):
        """the path taken by a script of answers: (labels, index, answers used) | 'asks' | ('crash', what)"""
        env = {sym('answer %d' % i, 'str'): a for i, a in enumerate(script)}
        for x in shown_:
            env[x] = INDEX[:n] if x.args[1] == 'index' else tuple((7 * i, 5, 6, 8) for i in range(n))
        took = []
        for v, s, rec, L, facts, asked in info:
            try:
                if all(bool(evalv(f, env)) for f in facts if known(f, len(script))):
                    took.append((v, s, rec, L, asked))
            except Unknown as e:
                unknown.add('condition: ' + str(e)[:150])
                return None
        if not took:
            unknown.add('no path for the answers %r' % (script,))
            return None
        res = set()
        for v, s, rec, L, asked in took:
            if len(asked) > len(script):
                res.add('asks')
            elif rec:
                try:
                    res.add((tuple('None' if x is None else float(x) for x in evalv(L[0], env)), tuple(float(x) for x in evalv(L[1], env)), len(asked)))
                except Unknown as e:
                    unknown.add('labels: ' + (str(e) or show(L[0]))[:150])
                    return None
            elif isinstance(v, Exc):
                res.add(('crash', show(v.v)[:80], len(asked)))
            else:
                res.add('asks' if v is None else 'ends')
        return res

    def known(f, n):
        return all(int(x.args[0].split()[1]) < n for x in walk(f) if x.op == 'sym' and str(x.args[0]).startswith('answer '))
    for n in (1, 2, 3):
        good = ' '.join(['1', '0', '0'][:n])
        for a in strings(rep.thorough):
            what = 'answer %r for %d points' % (a, n)
            r = play(['y', a, good], n)
            if r is None:
                continue
            if len(r) != 1:
                r = {x for x in r if x != 'asks'} or r
            x = sorted(r, key=str)[0]
            well = wellformed(a, n)
            if isinstance(x, tuple) and x[0] == 'crash':
                if not well:
                    problems.setdefault(R_CRASH, '%s: %s' % (what, x[1]))
                elif canonical(a, n):
                    problems.setdefault(R_GOOD, '%s: %s' % (what, x[1]))
                continue
            done[R_CRASH] += 1
            if not isinstance(x, tuple):
                if x == 'ends':
                    problems.setdefault(R_CRASH, what + ' ends the exploration')
                else:
                    problems.setdefault(R_GOOD, what + ', then %r: nothing is recorded' % good)
                continue
            labs, idx, used = x
            if used == 2 and not well:
                problems.setdefault(R_BAD, '%s is recorded as %s' % (what, nice(labs)))
            elif used == 2:
                if labs != tuple(float(t) for t in a.split()):
                    problems.setdefault(R_LAB, '%s is recorded as %s' % (what, nice(labs)))
                done[R_LAB] += 1
            elif used == 3:
                if canonical(a, n):
                    problems.setdefault(R_GOOD, what + ' is not accepted')
                elif labs != tuple(float(t) for t in good.split()):
                    problems.setdefault(R_LAB, '%s, then %r: recorded as %s' % (what, good, nice(labs)))
                done[R_BAD] += 1
            done[R_GOOD] += canonical(a, n)
            if idx != INDEX[:n]:
                problems.setdefault(R_IDX, '%s: labels %s are attached to rows %s of the displayed points' % (what, nice(labs), nice([INDEX.index(i) if i in INDEX else -1 for i in idx])))
            done[R_IDX] += 1
    for a, b in [('x', '0 0 0 0'), ('0 0 0 0', ''), ('', '0 2'), ('2', 'x'), ('x', 'x')]:
        for n in (1, 2, 3):
            good, what = ' '.join(['1', '0', '0'][:n]), 'answers %r, then %r for %d points' % (a, b, n)
            r = play(['y', a, b, good], n) or set()
            for x in r - {'asks'}:
                if x == 'ends' or x[0] == 'crash':
                    problems.setdefault(R_CRASH, what + (': ' + x[1] if x != 'ends' else ' ends the exploration'))
                elif x[2] < 4:
                    problems.setdefault(R_BAD, '%s: recorded as %s' % (what, nice(x[0])))
                elif x[0] != tuple(float(t) for t in good.split()):
                    problems.setdefault(R_LAB, '%s, then %r: recorded as %s' % (what, good, nice(x[0])))
            done[R_BAD] += 1
    for m in sorted(unknown)[:5]:
        rep.unk(R_BAD, 'CommandLineExploration.run', m)
    where = 'CommandLineExploration.run'
    for rule, k in done.items():
        if rule in problems:
            rep.bad(rule, where, problems[rule], where)
        elif k:
            rep.ok(rule, where, '%d scripts' % k)
            for i in range(min(k, 50)):
                rep.ok(rule, '%s, script %d' % (where, i + 1))
        else:
            rep.unk(rule, where, 'no script decided')
    rep.stats['scripts'] = sum(done.values())
    rep.stats['paths'] = len(info)


def nice(v):
    return '[%s]' % ', '.join('%g' % x if isinstance(x, float) else str(x) for x in v)

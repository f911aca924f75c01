"""C11: dual-space predictions: polytope first, learner only for the unknown."""
from .dsmx import *

EXPLAIN = ('predict and predict_proba of every dual-space model are abstractly interpreted with an opaque polytope model and wrapped learner on an arbitrary batch; the answer for an arbitrary row is a term in the polytope answer and '
           'the learner answer for that row, evaluated for every polytope answer and compared with the documented combination, for valid and invalid polytope models.')
ASSUME = ['the polytope model answers 0, 0.5 or 1 (C12)', 'polytope and learner answer row by row (C29, C12)']
FLOOR = 12
RULE = 'polytope answers first, the learner answers exactly the uncertain points'


def run(rep):
    ip = load()
    st = ip.start()

    def go():
        for cname, o, s0 in models(ip, st):
            for m in ('predict', 'predict_proba'):
                one(rep, ip, cname, o, s0, m)
    rep.guard(RULE, 'dual-space models', go)


def one(rep, ip, cname, o, s0, m):
    X = A(s0, 'X')
    k = sym('k', 'nat')
    row = mk('sub', sym('X', 'arr2'), k)
    s0 = s0.fork()
    s0.facts.assume(lt(k, length(sym('X', 'arr2'))))
    what = '%s.%s' % (cname, m)
    n0 = len(s0.facts.log)
    pol, al = mk('app', 'row.predict', (POL, row), ()), mk('app', 'row.' + m, (AL, row), ())
    hit = set()
    for r, s in meth(ip, s0, o, m, X):
        if isinstance(r, Exc):
            rep.bad(RULE, what, 'raises ' + show(r.v)[:80])
            continue
        # calls of the opaque parties: the answers may carry the version of the party
        v = at(s.deep(r), k, s)
        m2 = {}
        wrong = misplaced(v, row)
        if wrong:
            rep.bad(RULE, what, wrong)
            continue
        for x in walk(v):
            if x.op == 'app' and x.args[0].startswith('row.') and x.args[1][0] in (POL, AL):
                y = mk('app', x.args[0], x.args[1], ())
                if y in (pol, al):
                    m2[x] = y
                else:
                    # an answer about another row, or another question
                    other = x.args[1][-1]
                    if x.args[1][0] is AL and x.args[0] != 'row.' + m and other is row:
                        rep.bad(RULE, what, 'uses %s of the wrapped learner' % x.args[0][4:])
        lits = [c for c in s.facts.log[n0:] if any(y.op == 'oattr' and y.args[1] == 'is_valid' for y in walk(c))]
        vl = {y for c in lits for y in walk(c) if y.op == 'in' and y.args[0].op == 'oattr' and y.args[0].args[1] == 'is_valid'}
        for validity in (True, False):
            fixed = {y: validity for y in vl}
            if any(evalt(c, fixed) is False for c in lits):
                continue
            if not vl and not validity:
                # validity is not looked at on this path: an invalid model answers 0.5 everywhere (C12)
                dom = ((Fr(1, 2),), VALS[m])
            else:
                dom = ((Fr(0), Fr(1, 2), Fr(1)) if validity else (Fr(1, 2),), VALS[m])

            def want(env):
                p, a = env[pol], env[al]
                return a if not validity or p == Fr(1, 2) else p
            # read the row with version-free answers
            w = at(s.deep(r), k, s)
            if table(rep, what + (' (valid)' if validity else ' (invalid)'), subst(w, m2), [subst(c, m2) for c in conds_at(s, k, n0)], (pol, al), dom, want, fixed):
                hit.add(validity)
    for validity in (True, False):
        if validity not in hit:
            rep.unk(RULE, what, 'no path for a%s polytope' % (' valid' if validity else 'n invalid'))


def simple1(y):
    return y.op in PLAIN


def misplaced(v, row):
    """an answer that is certainly one about another point"""
    for x in walk(v):
        if x.op == 'app' and x.args[0].startswith('row.') and x.args[1][0] in (POL, AL) and x.args[1][-1] is not row and all(y.op == 'slice' or simple1(y) for y in walk(x.args[1][-1])):
            return 'answers with %s, that is for another point' % show(x)[:150]
        if x.op == 'mstore':
            mask, val = x.args[1], x.args[2]
            if val.op == 'app' and val.args[0] in ('.predict', '.predict_proba') and val.args[1][-1].op == 'sub' and isbool(val.args[1][-1].args[1]) and val.args[1][-1].args[1] is not mask:
                if val.args[1][-1].args[1] is not_(mask) or simple_mask(val.args[1][-1].args[1]):
                    return 'answers of the points selected by %s are written to those selected by %s' % (show(val.args[1][-1].args[1])[:100], show(mask)[:100])
            if val.op == 'sub' and val.args[0].op == 'app' and val.args[0].args[0] in ('.predict', '.predict_proba') and val.args[1].op == 'slice' and any(a is not NONE for a in val.args[1].args):
                return 'answers of the points %s are written to those selected by %s' % (show(val.args[1]), show(mask)[:100])
    return None


def simple_mask(m):
    return all(x.op in PLAIN or x.op == 'app' and x.args[0] == '.predict' for x in walk(m))


VALS = {'predict': (Fr(0), Fr(1)), 'predict_proba': (Fr(1, 8), Fr(7, 8))}


def table(rep, what, v, cs, atoms, domain, want, fixed):
    seen, unk = 0, None
    for vals in itertools.product(*domain):
        env = dict(zip(atoms, vals))
        env.update(fixed)
        known = [evalt(c, env) for c in cs]
        if False in known:
            continue
        w, got = want(env), evalt(v, env)
        if got is None:
            unk = unk or show(v)[:200]
        elif got == w:
            seen += 1
        elif None in known:
            unk = unk or 'path condition ' + show(cs[known.index(None)])[:150]
        else:
            rep.bad(RULE, what, 'when the polytope says %s and the learner %s the answer is %s instead of %s (computes %s)' % (vals[0], vals[1], got, w, show(v)[:150]))
            return True
    if unk:
        rep.unk(RULE, what, unk)
    elif seen:
        rep.ok(RULE, what)
    return bool(seen)

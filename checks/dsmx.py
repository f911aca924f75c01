"""Opaque parties of a dual-space model, shared by C06, C11, C27 and C33."""
from sa.drive import *
from sa.rows import at, isarray
from sa.evalt import evalt
import itertools
from fractions import Fraction as Fr

POL, AL, DATA = [sym(n, 'obj') for n in ('polytope', 'learner', 'data')]
HALF = C(0.5)


def models(ip, st):
    """[(name, object, state)] of every dual-space model, with an opaque polytope model and learner"""
    for o, s in normal(new(ip, st.fork(), 'DualSpaceModelBase', POL, AL)):
        yield 'DualSpaceModelBase', o, s
    for cname in ('DualSpaceModel', 'FactorizedDualSpaceModel'):
        kw = dict(partition=st.new('list', val=mk('list', st.new('list', val=mk('list', ZERO)), st.new('list', val=mk('list', ONE))))) if cname[0] == 'F' else {}
        got = normal(new(ip, st.fork(), cname, AL, **kw))
        for o, s in got[:1]:
            if 'polytope_model' not in s.obj(o).fields:
                raise Undecided('no polytope_model')
            s.setfield(o, 'polytope_model', POL)
            yield cname, o, s


def conds_at(s, k, n0=0):
    """path condition with the facts about all rows instantiated at row k"""
    out = []
    for c in s.facts.log[n0:]:
        neg = c.op == 'not'
        x = c.args[0] if neg else c
        if x.op in ('eq0', 'le0', 'lt0') and x.args[0].op in ('poly', 'len', 'app'):
            # a count of true elements compared with zero
            cnt = [y for y in walk(x) if y.op == 'len' and y.args[0].op == 'app' and y.args[0].args[0] == 'nonzero' or y.op == 'app' and y.args[0] in ('np.sum', 'sum', 'np.count_nonzero', '.sum') and isbool(y.args[1][0])]
            if len(cnt) == 1:
                vals = [evalt(c, {cnt[0]: n}) for n in (0, 1, 2, 3, 4, 5)]
                mm = cnt[0].args[0].args[1][0] if cnt[0].op == 'len' else cnt[0].args[1][0]
                if not any(vals[1:]) and None not in vals:
                    out.append(not_(at(mm, k, s)))
                    continue
                if None not in vals:
                    continue
        if x.op == 'app' and x.args[0] in ('np.any', 'np.all', 'any', 'all') and len(x.args[1]) == 1 and not x.args[2]:
            m = x.args[1][0]
            if x.args[0][-3:] == 'any' and neg:
                out.append(not_(at(m, k, s)))
            elif x.args[0][-3:] == 'all' and not neg:
                out.append(at(m, k, s))
            continue      # the existence of some row says nothing about row k
        out.append(c)
    return out


def empty_lists(s, o):
    """lists reachable from o that are empty, with the instances holding them"""
    seen, todo, out = set(), [o], []
    while todo:
        r = todo.pop()
        if r in seen:
            continue
        seen.add(r)
        x = s.obj(r)
        if x.kind == 'inst':
            todo += [v for v in x.fields.values() if v.op == 'ref']
        elif x.kind == 'list' and s.val(r) is mk('list'):
            out.append(r)
    return sorted(out, key=lambda r: r.args[0])


CACHE = [sym('cache%d' % i, 'list') for i in range(4)]


def with_cache(s, o):
    """the model's internal (initially empty) lists hold any number of entries, as many in each"""
    s = s.fork()
    ls = empty_lists(s, o)
    for r, c in zip(ls, CACHE):
        s.setval(r, c)
        if c is not CACHE[0]:
            s.facts.assume(eq(length(CACHE[0]), length(c)))
    if ls:
        s.facts.assume(lt(ZERO, length(CACHE[0])))
    return s, len(ls)


def record_fits(ip, thunk):
    """run thunk, recording the arguments of every fit call of the learner at the time of the call as ('fitting', args, kw, where)"""
    def hook(fv, args, kw, s, n=None):
        if fv.op == 'oattr' and fv.args[1] == 'fit' and fv.args[0] is AL:
            s.event('fitting', tuple(norm(s.deep(a)) for a in args), tuple(sorted((k, norm(s.deep(v))) for k, v in kw.items())), ip.where(n))
        return None
    ip.call_hook = hook
    try:
        return thunk()
    finally:
        ip.call_hook = None


def norm(t):
    """stacking the entries of one list is reading that list; attributes of a selection are selections of the attribute"""
    for _ in range(6):
        m = {}
        for x in walk(t):
            if x.op == 'oattr' and x.args[1] in ('data', 'index') and x.args[0].op == 'sub' and isbool(x.args[0].args[1]):
                m[x] = mk('sub', mk('oattr', x.args[0].args[0], x.args[1], 0), x.args[0].args[1])
            elif x.op == 'oattr' and x.args[1] in ('data', 'index') and x.args[2] != 0:
                m[x] = mk('oattr', x.args[0], x.args[1], 0)
            if x.op == 'app' and x.args[0] in ('np.vstack', 'np.array', 'np.hstack', 'np.asarray') and len(x.args[1]) == 1:
                y = x.args[1][0]
                if y.op == 'app' and y.args[0] == 'list':
                    y = y.args[1][0]
                if y.op in ('sym', 'map', 'cat') and (y.op != 'sym' or y.args[1] == 'list'):
                    m[x] = y
        if not m:
            return t
        t = subst(t, m)
    return t


def segments(t):
    """concatenated parts of a batch"""
    if t.op == 'cat':
        return [y for x in t.args for y in segments(x)]
    if t.op == 'app':
        f, a = t.args[0], t.args[1]
        if f in ('np.concat', 'np.concat1', 'np.vstack', 'np.hstack') and len(a) == 1 and a[0].op in ('tuple', 'list') and dict(t.args[2]).get('axis', ZERO) is ZERO:
            return [y for x in a[0].args for y in segments(x)]
        if f in ('list', 'tolist', 'np.array', 'np.asarray', 'copy') and len(a) == 1:
            return segments(a[0])
    return [t]


def user_part(x, y):
    """(X, y) of the training set of user labels"""
    return x.op == 'sub' and y.op == 'sub' and x.args[0] is y.args[0] and x.args[0].op == 'app' and x.args[0].args[0] == '.training_set' and x.args[1] is ZERO and y.args[1] is ONE


def version(t):
    """version of the party at the time of an answer"""
    v = dict(t.args[2]).get('@')
    return int(num(v)) if v is not None else 0


def certain(s, mask, answers, k, when=False):
    """does mask[k] imply that the polytope is certain (when=False) / uncertain (when=True) about row k of the batch it answered for? True/False/None"""
    m, p = at(mask, k, s), at(answers, k, s)
    dom = (Fr(1, 2),) if not when else (Fr(0), Fr(1))
    vals = [evalt(m, {p: v}) for v in dom]
    if True in vals:
        return False
    if None in vals:
        return None
    return True

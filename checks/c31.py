"""C31: saved convex hulls restore completely."""
from sa.drive import *
from .c30 import unwrap

EXPLAIN = ('ConvexHull (and every other package class with custom pickling) is abstractly interpreted: built from arbitrary points, optionally extended, then __getstate__ is evaluated and its result fed to __setstate__ of an object '
           'without any attribute. The restored attributes must be exactly those of the original; each must have the original value or, for the scipy hull (which cannot be pickled), be rebuilt with the same options from all vertices '
           'of the original hull in their order of insertion, to which cones refer by position. Every public method must find all attributes it reads.')
ASSUME = ['scipy hulls rebuilt from the vertices of a hull describe the same region']
FLOOR = 3
R_ATTR, R_VAL, R_READ, R_PICK = ('every attribute is restored', 'restored values are the original ones', 'no method misses an attribute after loading', 'objects holding a scipy hull can be pickled')
MOD = 'aideme.active_learning.dsm.convex.convex'


def hulls(s, o):
    return {f: v for f, v in s.obj(o).fields.items() if v.op == 'app' and v.args[0].startswith('scipy.') and 'ConvexHull' in v.args[0]}


def run(rep):
    ip = load()
    f = fn(ip, MOD, 'ConvexHull')
    c = ob(f)
    tol = sym('tol', 'float')
    P0, P1 = sym('P0', 'arr2'), sym('P1', 'arr2')

    def arr(s, t):
        return s.new('arr', val=t, tag='param:' + t.args[0])

    def go():
        st = ip.start()
        st.facts.assume(lt(ZERO, tol))
        for o, s in normal(call(ip, f, [arr(st, P0), tol], {}, st)):
            states = [('after construction', s)]
            z = s.fork()
            states += [('after add_points', s2) for r, s2 in normal(meth(ip, z, o, 'add_points', arr(z, P1)))]
            for label, s1 in states:
                restore(rep, ip, c, o, s1, label)
    rep.guard(R_ATTR, 'ConvexHull', go)


def restore(rep, ip, c, o, s1, label):
    what = 'ConvexHull ' + label
    has = lambda n: c.find(n)[0] is not None
    hs = hulls(s1, o)
    if not (has('__getstate__') or has('__reduce__') or has('__reduce_ex__')):
        if hs:
            rep.bad(R_PICK, what, 'no __getstate__: the scipy hull in %s cannot be pickled' % sorted(hs))
        else:
            rep.unk(R_PICK, what, 'default pickling')
        return
    if not has('__getstate__'):
        rep.unk(R_PICK, what, 'uses __reduce__')
        return
    orig = s1.obj(o).fields
    n0 = len(s1.facts.log)
    for state, s2 in meth(ip, s1.fork(), o, '__getstate__'):
        if isinstance(state, Exc):
            rep.bad(R_PICK, what, '__getstate__ raises ' + show(state.v)[:100])
            continue
        d = s2.val(state) if state.op == 'ref' else state
        if any(x.op == 'app' and x.args[0].startswith('scipy.') and 'ConvexHull' in x.args[0] and x in direct(s2.deep(state)) for x in walk(s2.deep(state))):
            rep.bad(R_PICK, what, '__getstate__ includes the scipy hull itself, which cannot be pickled')
            continue
        rep.ok(R_PICK, what)
        r = s2.new('inst', cls=c, fields={}, tag='restored')
        if has('__setstate__'):
            outs = meth(ip, s2, r, '__setstate__', state)
        elif d.op == 'dict':
            s3 = s2.fork()
            for k, v in d.args[0]:
                s3.setfield(r, k.args[0], v)
            outs = [(NONE, s3)]
        else:
            rep.unk(R_ATTR, what, 'state is ' + show(d)[:100])
            continue
        for x, s3 in outs:
            if isinstance(x, Exc):
                if len(s3.facts.log) == len(s2.facts.log) or 'KeyError' in str(x.v):
                    rep.bad(R_ATTR, what, '__setstate__ raises ' + show(x.v)[:120])
                continue
            got = s3.obj(r).fields
            missing, extra = set(orig) - set(got), set(got) - set(orig)
            # an attribute may be created lazily: it is missing only when a method cannot do without it (below)
            bad = unk = None
            for a in sorted(set(orig) & set(got)):
                u, v = s3.deep(orig[a]), s3.deep(got[a])
                if u is v or s3.facts.decide(eq(u, v)) is True:
                    continue
                if a in hs:
                    bad, unk = rebuilt(u, v, s3, bad, unk, a)
                elif simple_value(v):
                    bad = bad or 'attribute %s becomes %s instead of %s' % (a, show(v)[:60], show(u)[:60])
                else:
                    unk = unk or 'attribute %s becomes %s instead of %s' % (a, show(v)[:60], show(u)[:60])
            if bad:
                rep.bad(R_VAL, what, bad)
            elif unk:
                rep.unk(R_VAL, what, unk)
            else:
                rep.ok(R_VAL, '%s: %s' % (what, ', '.join(sorted(got))))
            methods(rep, ip, c, o, r, s3, what, missing)


def direct(t):
    """parts of a pickled state (not what they were computed from)"""
    if t.op in ('dict',):
        return {y for k, v in t.args[0] for y in direct(v)}
    if t.op in ('list', 'tuple'):
        return {y for v in t.args for y in direct(v)}
    return {t}


def simple_value(v):
    return all(x.op in ('const', 'sym', 'poly') for x in walk(v))


def rebuilt(u, v, st, bad, unk, a):
    """v: the restored scipy hull, u: the original one"""
    if v.op != 'app' or v.args[0] != u.args[0]:
        return (bad or 'attribute %s is %s' % (a, show(v)[:60]), unk) if simple_value(v) else (bad, unk or 'attribute %s is %s' % (a, show(v)[:100]))
    if v.args[2] != u.args[2] or v.args[1][1:] != u.args[1][1:]:
        return bad or 'attribute %s is rebuilt with other options: %s' % (a, dict((k, show(x)) for k, x in v.args[2])), unk
    pts = unwrap(v.args[1][0])
    H = u
    ver = max([x.args[2] if isinstance(x.args[2], int) else int(num(x.args[2])) for x in walk(pts) if x.op == 'oattr' and x.args[0] is H] + [0])
    isP = lambda x: x.op == 'oattr' and x.args[:2] == (H, 'points')
    isV = lambda x: x.op == 'oattr' and x.args[:2] == (H, 'vertices')
    if isP(pts):
        return bad, unk
    if pts.op == 'sub' and isP(pts.args[0]):
        i = pts.args[1]
        if isV(i):
            return bad or 'the vertices are saved in the order scipy lists them, so positions in the restored hull (to which cones refer) change', unk
        if i.op == 'app' and i.args[0] in ('np.sort', 'sorted', 'np.unique') and isV(i.args[1][0]) and set(dict(i.args[2])) <= {'axis'}:
            return bad, unk
        if i.op in ('slice', 'const') or i.op == 'sub' and (isV(i.args[0]) or i.args[1].op == 'slice'):
            return bad or 'only part of the vertices is saved: ' + show(i)[:80], unk
    if pts.op == 'sym':
        if pts is unwrap(H.args[1][0]) and not any(True for x in walk(pts) if x.op == 'oattr'):
            return bad, unk or 'rebuilt from the points given to the constructor'
    return bad, unk or 'attribute %s is rebuilt from %s' % (a, show(pts)[:120])


def methods(rep, ip, c, o, r, s3, what, missing):
    """methods of the restored object find their attributes"""
    bad = unk = None
    n = 0
    X = sym('X', 'arr2')
    names = []
    for k in c.getmro():
        names += [m for m in getattr(k, 'attrs', {}) if not m.startswith('_') and m not in names]
    for m in names:
        z = s3.fork()
        got = list(ip.getattr(r, m, z))
        args = None
        for v, s4 in got:
            if isinstance(v, Exc):
                if 'AttributeError' in str(v.v):
                    bad = bad or '%s is not available after loading: %s' % (m, show(v.v)[:100])
                continue
            b = ob(v)
            if b is None or type(b).__name__ != 'Bound':
                n += 1
                continue
            for args in ([s4.new('arr', val=X, tag='param:X')], [ZERO], []):
                try:
                    outs = list(ip.call(v, args, {}, s4.fork()))
                except Undecided as e:
                    unk = unk or '%s: %s' % (m, e)
                    continue
                for x, s5 in outs:
                    if isinstance(x, Exc) and 'AttributeError' in str(x.v):
                        # the original object must not fail the same way
                        y = []
                        s6 = s3.fork()
                        args = [s6.new('arr', val=X, tag='param:X') if a.op == 'ref' else a for a in args]
                        for w, s6 in ip.getattr(o, m, s6):
                            if not isinstance(w, Exc):
                                y += [q for q, _ in ip.call(w, args, {}, s6) if isinstance(q, Exc) and 'AttributeError' in str(q.v)]
                        if not y:
                            bad = bad or '%s fails after loading: %s' % (m, show(x.v)[:100])
                n += 1
                break
    if bad:
        rep.bad(R_READ, what, bad)
    elif unk:
        rep.unk(R_READ, what, unk)
    elif missing and not n:
        rep.unk(R_READ, what, 'attributes %s are missing' % sorted(missing))
    elif n:
        rep.ok(R_READ, '%s (%d members)' % (what, n))

"""C30: convex regions only claim what convexity implies."""
import itertools
from fractions import Fraction as Fr
from sa.drive import *
from sa.rows import at
from sa.evalt import evalt
from .c12 import TRUTHY
from .c13 import hide, is_part, partition

EXPLAIN = ('The hull and cone classes are abstractly interpreted from construction through every sequence of up to three batches of points (scipy\'s hull opaque, with the version of its equations tracked); the membership test of a '
           'generic query point is reduced to a normal form over the extreme points (one dimension) or the facet equations (several) and compared with the convexity definition, one-dimensional forms for all orderings of the values '
           'involved. Polytope, FlippedPolytope and FactorizedPolytopeModel are interpreted with opaque regions: which region justifies each answer, and which points every region is given.')
ASSUME = ['scipy.spatial.ConvexHull computes the facets of the hull of the points it was given', 'row-wise membership of opaque regions', 'histories of at most three batches per region, two cones, two subspaces']
FLOOR = 14
D = 'aideme.active_learning.dsm.convex.'
R_IN, R_HULL, R_CONF, R_CLAIM, R_FEED, R_FLIP, R_FACT = ('membership is what convexity implies', 'the hull is that of all positive points', 'a negative point inside the hull raises a conflict', 'answers are justified by a region',
                                                        'regions and cones are given the right points', 'the flipped polytope exchanges the labels', 'factorized answers combine the subspaces')
WRAP = {'ravel', 'np.atleast_2d', 'reshape', 'copy', 'np.asarray', 'np.array', 'column_or_1d', 'tolist', 'list', 'squeeze', 'float', 'item', 'np.atleast_1d', 'row.atleast_2d', 'astype'}
MINS, MAXS = ('np.min', 'minof', 'min'), ('np.max', 'maxof', 'max')


def unwrap(t):
    while True:
        if t.op == 'app' and t.args[0] in WRAP and t.args[1]:
            t = t.args[1][0]
        elif t.op == 'sub' and (t.args[1].op == 'slice' or t.args[1].op == 'tuple' and all(x.op in ('slice', 'const') for x in t.args[1].args)):
            t = t.args[0]
        else:
            return t


def sources(t):
    """the arrays a stacked array is made of, in order; None if something else is in it"""
    t = unwrap(t)
    if t.op == 'sym':
        return [t]
    if t.op == 'cat' or t.op in ('list', 'tuple'):
        parts = t.args
    elif t.op == 'app' and t.args[0] in ('np.concat', 'np.concat1', 'np.vstack', 'np.hstack', 'np.append') and t.args[1]:
        parts = t.args[1][0].args if t.args[1][0].op in ('list', 'tuple') else t.args[1]
    else:
        return None
    out = []
    for p in parts:
        s = sources(p)
        if s is None:
            return None
        out += s
    return out


def scalarize(t, vals, bounds):
    """replace extrema of stacked batches by min/max over per-batch symbols, and scalar spellings of given arrays by symbols"""
    m = {}
    for x in walk(t):
        if x.op == 'app' and x.args[0] in ('np.min', 'np.max', 'minof', 'maxof') and len(x.args[1]) == 1 and not set(dict(x.args[2])) - {'axis'}:
            src = sources(x.args[1][0])
            if src is not None and all(s in bounds for s in src):
                w = 'min' if x.args[0] in ('np.min', 'minof') else 'max'
                xs = sorted({bounds[s][0 if w == 'min' else 1] for s in src}, key=lambda q: q.id)
                m[x] = xs[0] if len(xs) == 1 else mk('app', w, tuple(xs), ())
        b = x
        while True:
            c = unwrap(b)
            if c in vals:
                m[x] = vals[c]
                break
            if c.op == 'sub' and c.args[0] not in vals and c.args[1].op in ('const', 'sym'):
                b = c.args[0]
                if b in vals and isarr(b):
                    continue
                if c is not b:
                    continue
            elif c.op == 'sub' and c.args[0] in vals:
                m[x] = vals[c.args[0]]
                break
            break
    return subst(t, m)


def isarr(t):
    return t.op == 'sym' and str(t.args[1]).startswith('arr')


# ---------------------------------------------------------------- one dimension
class Line:
    """values of the extremes of every batch, of the vertex and of the query point"""

    def __init__(self, batches, vertex=False):
        self.b = {p: (sym('lo.' + p.args[0], 'float'), sym('hi.' + p.args[0], 'float')) for p in batches}
        self.v, self.x = sym('vertex', 'float'), sym('query', 'float')
        n = 2 * len(batches) + (2 if vertex else 1)
        self.grid = [Fr(i) for i in range(4 if n <= 5 else 3)]
        self.vertex = vertex

    def envs(self):
        ps = list(self.b)
        pairs = [(a, b) for a in self.grid for b in self.grid if a <= b]
        for e in itertools.product(pairs, repeat=len(ps)):
            for v in (self.grid if self.vertex else (None,)):
                for x in self.grid + [Fr(-1), Fr(1, 2), self.grid[-1] + 1]:
                    env = {self.x: x}
                    for p, (lo, hi) in zip(ps, e):
                        env[self.b[p][0]], env[self.b[p][1]] = lo, hi
                    if v is not None:
                        env[self.v] = v
                    yield env, e, v, x


def possible(log, env):
    """False when some condition is known to be false, None when something is not evaluated, else True"""
    sure = True
    for c in log:
        v = evalt(c, env)
        if v is None:
            sure = None
        elif not v:
            return False
    return sure


def show_env(env):
    return ', '.join('%s=%s' % (k.args[0], v) for k, v in env.items())


# ---------------------------------------------------------------- facets
def facet_form(v):
    """(all|any, direction, bound, rows): 'for all facets, rows <= bound'"""
    neg = False
    while v.op == 'not':
        v, neg = v.args[0], not neg
    if v.op == 'app' and v.args[0] in ('np.all/row', 'np.any/row'):
        q, c = v.args[0][3:6], v.args[1][0]
        n2 = False
        while c.op == 'not':
            c, n2 = c.args[0], not n2
        if c.op not in ('lt0', 'le0'):
            return None
        if neg:
            q, n2 = ('any' if q == 'all' else 'all'), not n2
        rest = [a for m, _ in to_poly(c.args[0]).items() for a, _ in m]
        rows = [a for a in rest if a.op == 'app' and a.args[0] == 'matmul' or a.op == 'sub']
        p = c.args[0]
        bound = ZERO
        for m, k in to_poly(p).items():
            if all(a not in rows for a, _ in m):
                bound = add(bound, from_poly({m: k}))
        rows = sub_(p, bound)
        # rows + bound <= 0 (or the contrary)
        sign = -1 if any(k < 0 for m, k in to_poly(rows).items()) else 1
        d = '<=' if not n2 else '>='
        if sign < 0:
            rows, d, b = sub_(ZERO, rows), {'<=': '>=', '>=': '<='}[d], bound
        else:
            b = sub_(ZERO, bound)
        return q, d, b, rows
    if v.op not in ('lt0', 'le0'):
        return None
    p = to_poly(v.args[0])
    red = [(m, k) for m, k in p.items() if any(a.op == 'app' and a.args[0] in ('np.max/row', 'np.min/row') for a, _ in m)]
    if len(red) != 1 or len(red[0][0]) != 1 or red[0][0][0][1] != 1 or abs(red[0][1]) != 1:
        return None
    (m, k), = red
    r = m[0][0]
    rest = from_poly({a: b for a, b in p.items() if a != m})
    d = '<=' if (k > 0) != neg else '>='
    b = sub_(ZERO, rest) if k > 0 else rest
    q = 'all' if (r.args[0] == 'np.max/row') == (d == '<=') else 'any'
    rows = r.args[1][0]
    ks = to_poly(rows)
    if ks and all(c < 0 for c in ks.values()):
        rows, d, b = sub_(ZERO, rows), {'<=': '>=', '>=': '<='}[d], sub_(ZERO, b)
    return q, d, b, rows


FULL = mk('slice', NONE, NONE, NONE)
NORMALS = mk('tuple', FULL, mk('slice', NONE, C(-1), NONE))
OFFSETS = mk('tuple', FULL, C(-1))


def facets(rows, xk):
    """the equations E with rows = E[:, :-1] . x + E[:, -1]"""
    off = [x for x in walk(rows) if x.op == 'sub' and x.args[1] is OFFSETS]
    for o in off:
        E = o.args[0]
        want = add(o, mk('app', 'matmul', (xk, mk('app', 'T', (mk('sub', E, NORMALS),), ())), ()))
        want2 = add(o, mk('app', 'matmul', (mk('sub', E, NORMALS), xk), ()))
        if rows is want or rows is want2:
            return E
    return None


class Region:
    """judges hulls (vertex None) and cones"""

    def __init__(self, rep, ip, label, vertex=None):
        self.rep, self.ip, self.label, self.vertex = rep, ip, label, vertex
        self.bad, self.unk, self.n = {}, {}, {}

    def note(self, d, rule, msg):
        d.setdefault(rule, msg)

    def count(self, rule):
        self.n[rule] = self.n.get(rule, 0) + 1

    def report(self):
        for rule in (R_IN, R_HULL, R_CONF):
            if rule in self.bad:
                self.rep.bad(rule, self.label, self.bad[rule])
            elif rule in self.unk:
                self.rep.unk(rule, self.label, self.unk[rule])
            elif self.n.get(rule):
                self.rep.ok(rule, '%s (%d cases)' % (self.label, self.n[rule]))

    def classify(self, v):
        if v.op == 'const' and v.args[0] is False:
            return 'nothing'
        if any(x.op == 'oattr' and x.args[1] in ('equations', 'simplices') for x in walk(v)):
            return 'facets'
        return 'line'

    def judge(self, hist, outs, k, exact):
        """outs: [(value at row k | Exc, state, step at which it raised)]; hist: the batches given so far"""
        line = []
        xk = mk('sub', sym('X', 'arr2'), k)
        for v, s, step, log in outs:
            if isinstance(v, Exc):
                line.append((v, s, step, log))
                continue
            c = self.classify(v)
            if v is TRUE and all(not values(x, {y: 0 for h in [*hist, sym('X', 'arr2'), *([self.vertex] if self.vertex is not None else [])] for y in [h]}) for x in log):
                self.note(self.bad, R_IN, 'after %d batches every point is claimed' % len(hist))
                continue
            if c == 'facets':
                self.facet(v, s, xk, hist)
            else:
                line.append((v, s, step, log))
        self.line(hist, line, k, exact)

    # -- one dimension
    def line(self, hist, outs, k, exact):
        L = Line(hist, self.vertex is not None)
        vals = {mk('sub', sym('X', 'arr2'), k): L.x}
        if self.vertex is not None:
            vals[self.vertex] = L.v
        rows = []
        for v, s, step, log in outs:
            sl = [scalarize(c, vals, L.b) for c in log]
            if isinstance(v, Exc):
                if 'ConvexError' in str(v.v):
                    if any(x.op == 'oattr' for c in log for x in walk(c)):
                        continue
                    rows.append((None, sl, step))
                continue
            rows.append((scalarize(v, vals, L.b), sl, step))
        if not any(r[0] is None or self.classify(r[0]) != 'nothing' for r in rows):
            return
        for env, ext, v, x in L.envs():
            los, his = [e[0] for e in ext], [e[1] for e in ext]
            inside = min(los) <= x <= max(his)
            first = None
            if v is not None:
                for i in range(len(ext)):
                    if min(los[:i + 1]) <= v <= max(his[:i + 1]):
                        first = i
                        break
            want = inside if v is None else (x >= v if v > max(his) else x <= v)
            for val, sl, step in rows:
                p = possible(sl, env)
                if p is False:
                    continue
                if val is None:
                    self.count(R_CONF)
                    if first is None and p is True:
                        self.note(self.bad, R_CONF, 'for %s a conflict is raised' % show_env(env))
                    elif first is None:
                        # only sizes may be unknown here
                        if sizes_only(sl, env):
                            self.note(self.bad, R_CONF, 'for %s a conflict is raised' % show_env(env))
                        else:
                            self.note(self.unk, R_CONF, 'for %s a conflict may be raised' % show_env(env))
                    continue
                if self.classify(val) == 'nothing':
                    continue
                got = evalt(val, env)
                if got is None:
                    self.note(self.unk, R_IN, 'membership is ' + show(val)[:150])
                    continue
                sure = p is True or sizes_only(sl, env)
                if first is not None:
                    self.count(R_CONF)
                    self.note(self.bad if sure else self.unk, R_CONF, 'for %s the negative point lies in the hull but no conflict is raised' % show_env(env))
                    continue
                self.count(R_IN)
                if bool(got) != want and (exact or got):
                    self.note(self.bad if sure else self.unk, R_IN, 'for %s a query point is %s (claims %s)' % (show_env(env), 'inside' if got else 'outside', show(val)[:100]))

    # -- several dimensions
    def facet(self, v, s, xk, hist):
        f = facet_form(v)
        if f is None:
            self.note(self.unk, R_IN, 'membership is ' + show(v)[:200])
            return
        q, d, b, rows = f
        E = facets(rows, xk)
        if E is None:
            self.note(self.unk, R_IN, 'facet rows are ' + show(rows)[:200])
            return
        tol = [x for x in walk(b) if x.op == 'sym']
        base, mask = (E, None) if E.op != 'sub' else E.args
        if base.op != 'oattr' or base.args[1] != 'equations':
            self.note(self.unk, R_IN, 'equations are ' + show(E)[:200])
            return
        self.count(R_IN)
        H, ver = base.args[0], num(base.args[2]) if isinstance(base.args[2], T) else base.args[2]
        adds = [e for e in flat_events(s.events) if e[0] == 'call' and e[1] is H and e[2] == 'add_points']
        cur = max([vnum(e[5]) + 1 for e in adds], default=0)
        if ver is not None and ver < cur:
            self.note(self.bad, R_IN, 'the facets used are those before the last points were added')
        src = sources(H.args[1][0]) if H.op == 'app' and H.args[1] else None
        given = [sources(s.deep(e[3][0])) if e[3] else None for e in adds]
        allp = None if src is None or None in given else src + [x for g in given for x in g]
        self.count(R_HULL)
        want = set(hist) | ({self.vertex} if self.vertex is not None else set())
        if allp is None:
            self.note(self.unk, R_HULL, 'hull of ' + show(H)[:150])
        elif set(allp) != want:
            miss, extra = want - set(allp), set(allp) - want
            self.note(self.bad, R_HULL, 'after the batches %s the hull %s' % ([h.args[0] for h in hist], 'lacks %s' % [m.args[0] for m in miss] if miss else 'contains %s' % [m.args[0] for m in extra]))
        up = s.facts.decide
        if self.vertex is None:
            if mask is not None:
                self.note(self.bad if masked(mask) else self.unk, R_IN, 'only some of the facets are tested: ' + show(mask)[:100])
            if (q, d) != ('all', '<='):
                self.note(self.bad, R_IN, 'a point is claimed when %s facet has n.x + b %s %s' % ('every' if q == 'all' else 'some', d, show(b)))
            elif up(eq(b, TOL)) is not True:
                self.note(self.bad if up(lt(TOL, b)) is True or up(lt(b, TOL)) is True else self.unk, R_IN, 'the tolerance is %s' % show(b))
        else:
            if mask is None:
                self.note(self.unk, R_IN, 'all facets are tested')
            else:
                self.mask(mask, H, ver, src)
            if (q, d) != ('all', '>='):
                self.note(self.bad, R_IN, 'a point is claimed when %s facet has n.x + b %s %s' % ('every' if q == 'all' else 'some', d, show(b)))
            elif up(eq(sub_(ZERO, TOL), b)) is not True:
                self.note(self.bad if up(lt(b, sub_(ZERO, TOL))) is True or up(lt(sub_(ZERO, TOL), b)) is True else self.unk, R_IN, 'the tolerance is %s' % show(b))

    def mask(self, mask, H, ver, src):
        i = fresh('f', 'nat')
        m = instantiate(mask.args[0], i) if mask.op == 'map' and mask.args[2] is None else None
        if m is None and not masked(mask):
            self.note(self.unk, R_IN, 'facets selected by ' + show(mask)[:150])
            return
        if m is None:
            from sa.interp import Undecided
            raise Undecided('facet mask')
        if m.op == 'in' and m.args[1].op == 'sub' and m.args[1].args[1] is i and m.args[1].args[0].op == 'oattr' and m.args[1].args[0].args[:2] == (H, 'simplices'):
            sver = m.args[1].args[0].args[2]
            if vnum(sver) != ver:
                self.note(self.bad, R_IN, 'facets are selected by the simplices of another state of the hull')
            pos = num(m.args[0])
            if pos is None or src is None:
                self.note(self.unk, R_IN, 'facets of vertex ' + show(m.args[0])[:80])
            elif not (pos == 0 and src[0] is self.vertex):
                if src[0] is not self.vertex or pos != 0:
                    self.note(self.bad, R_IN, 'the facets used are those of point %s of the hull, which is not the negative point' % pos)
        else:
            self.note(self.unk, R_IN, 'facets selected by ' + show(m)[:150])


def vnum(v):
    return int(num(v)) if isinstance(v, T) else int(v)


def masked(m):
    return m.op == 'map' or isbool(m)


def sizes_only(sl, env):
    """the conditions that cannot be evaluated only look at the number of points, their dimension, the tolerance, or whether something was built"""
    for c in sl:
        if evalt(c, env) is None and values(c, env):
            return False
    return True


def values(c, env):
    """does the condition look at values (not only at sizes) of env?"""
    if c in env and c.op == 'sym':
        return True
    if c.op in ('len', 'shape'):
        return False

    def parts(a):
        if isinstance(a, T):
            yield a
        elif isinstance(a, (tuple, list)):
            for b in a:
                yield from parts(b)
    return any(values(a, env) for x in c.args for a in parts(x))


TOL = sym('tol', 'float')


def run(rep):
    ip = load()
    Ps = [sym('P%d' % i, 'arr2') for i in range(4)]
    V = sym('v', 'arr1')
    depth = 3

    def arr(s, t):
        return s.new('arr', val=t, tag='param:' + t.args[0])

    def histories(label, cname, mod, first, make_args, add, vertex, exact):
        f = fn(ip, D + mod, cname)

        def go():
            R = Region(rep, ip, label, vertex)
            st = ip.start()
            n0 = len(st.facts.log)
            st.facts.assume(lt(ZERO, TOL))
            ip.steps = 0
            live, done = [], []
            hist = list(Ps[:first])
            for o, s in call(ip, f, make_args(st), {}, st):
                if isinstance(o, Exc):
                    done.append((o, s, 0, s.facts.log[n0:]))
                else:
                    live.append((o, s))
            claims = 0
            for step in range(first, depth + 1):
                k = fresh('k', 'nat')
                outs = list(done)
                for o, s in live:
                    z = s.fork()
                    z.facts.assume(lt(k, length(sym('X', 'arr2'))))
                    n1 = len(z.events)
                    for r, s2 in meth(ip, z, o, 'is_inside', arr(z, sym('X', 'arr2'))):
                        if isinstance(r, Exc):
                            if 'NoneType' in str(r.v):
                                R.note(R.bad, R_IN, 'after %d batches membership raises %s' % (step, str(r.v)[:100]))
                            continue
                        v = at(s2.deep(r), k, s2)
                        claims += v is not FALSE
                        outs.append((v, s2, step, s2.facts.log[n0:]))
                if hist:
                    R.judge(hist, outs, k, exact)
                if step == depth:
                    break
                nxt = []
                hist.append(Ps[step])
                conflicts = 0
                built = 0
                for o, s in live:
                    z = s.fork()
                    for r, s2 in meth(ip, z, o, add, arr(z, Ps[step])):
                        if isinstance(r, Exc):
                            done.append((r, s2, step, s2.facts.log[n0:]))
                            conflicts += 'ConvexError' in str(r.v)
                        else:
                            nxt.append((o, s2))
                fails = {str(r.v.args[0]) for r, _, t, _ in done if isinstance(r, Exc) and t == step}
                if live and not nxt and fails & {'AttributeError', 'TypeError', 'NameError'} and 'ConvexError' not in fails:
                    R.note(R.bad, R_IN, 'batch %d always raises %s' % (step + 1, ', '.join(sorted(fails))))
                if vertex is not None and claims and not conflicts and step > first:
                    R.note(R.bad, R_CONF, 'no later batch can raise a conflict')
                live = nxt
                if len(live) > 60:
                    break
            if not claims:
                R.note(R.bad, R_IN, 'no point is ever a member, whatever points were given')
            R.report()
        rep.guard(R_IN, label, go)

    histories('OneDimensionalConvexHull', 'OneDimensionalConvexHull', 'one_dim_convex', 1, lambda s: [arr(s, Ps[0])], 'add_points', None, True)
    histories('OneDimensionalConvexCone', 'OneDimensionalConvexCone', 'one_dim_convex', 1, lambda s: [arr(s, Ps[0]), arr(s, V)], 'add_points_to_hull', V, True)
    histories('ConvexHull', 'ConvexHull', 'convex', 1, lambda s: [arr(s, Ps[0]), TOL], 'add_points', None, True)
    histories('ConvexCone', 'ConvexCone', 'convex', 1, lambda s: [arr(s, Ps[0]), arr(s, V), TOL], 'add_points_to_hull', V, True)
    histories('PositiveRegion', 'PositiveRegion', 'geometry', 0, lambda s: [TOL], 'update', None, False)
    histories('NegativeCone', 'NegativeCone', 'geometry', 0, lambda s: [arr(s, V), TOL], 'add_points_to_hull', V, False)
    polytope(rep, ip)
    factorized(rep, ip)


# ---------------------------------------------------------------- polytopes
def opaque_regions(fv, args, kw, s, n=None):
    c = ob(fv)
    if isinstance(c, ClassV) and '.convex' in c.mod.name and 'Error' not in c.name:
        return [(mk('app', 'region.' + c.name, tuple(s.deep(a) for a in args), ()), s)]
    return None


def boolean(t):
    return isbool(t) or t.op == 'const' and isinstance(t.args[0], bool)


def polytope(rep, ip):
    X, Yv = sym('X', 'arr2'), sym('y', 'arr1')
    k = fresh('k', 'nat')
    xk, yk = mk('sub', X, k), mk('sub', Yv, k)
    old = ip.call_hook
    for ncones in (0, 1, 2):
        label = 'Polytope with %d cones' % ncones

        def go():
            ip.call_hook = opaque_regions
            ip.steps = 0
            try:
                st = ip.start()
                outs = list(normal(new(ip, st, 'Polytope', TOL)))
                for o, s in outs:
                    ob_ = s.heap[o.args[0]].copy()
                    s.heap[o.args[0]] = ob_
                    region = [v for v in ob_.fields.values() if v.op == 'app' and v.args[0].startswith('region.')]
                    lists = [f for f, v in ob_.fields.items() if v.op == 'ref' and s.obj(v).kind == 'list']
                    if len(region) != 1 or len(lists) != 1:
                        rep.unk(R_CLAIM, label, 'cannot identify the region and the cones')
                        continue
                    P = region[0]
                    cones = [sym('cone%d' % i, 'obj') for i in range(ncones)]
                    ob_.fields[lists[0]] = s.new('list', val=mk('list', *cones))
                    predict(rep, ip, label, o, s, P, cones, X, k, xk)
                    if ncones == 2:
                        update(rep, ip, label, o, s, P, cones, lists[0], X, Yv, k, xk, yk)
            finally:
                ip.call_hook = old
        rep.guard(R_CLAIM, label, go)


def masks(t):
    """membership answers used as an index are masks"""
    for x in walk(t):
        if x.op == 'store' and any(y.op == 'app' and y.args[0] == '.is_inside' for y in walk(x.args[1])):
            return subst(t, {x: mk('mstore', masks(x.args[0]), x.args[1], x.args[2])})
    return t


def predict(rep, ip, label, o, s, P, cones, X, k, xk):
    z = s.fork()
    z.facts.assume(lt(k, length(X)))
    n0 = len(z.facts.log)
    bad = unk = None
    n = ones = zeros = 0
    rows = []
    for r, s2 in meth(ip, z, o, 'predict', z.new('arr', val=X, tag='param:X')):
        if isinstance(r, Exc):
            unk = unk or 'raises ' + show(r.v)[:80]
        else:
            rows.append((at(masks(s2.deep(r)), k, s2), s2.facts.log[n0:]))
    inside = {c: sym('inside%d' % i, 'bool') for i, c in enumerate([P] + cones)}
    for ins in itertools.product((True, False), repeat=1 + len(cones)):
        for bl in itertools.product((True, False), repeat=1 + len(cones)):
            state = dict(zip([P] + cones, zip(ins, bl)))
            if any(i and not b for i, b in state.values()):
                continue  # a region that is not built contains nothing
            for v, log in rows:
                env = {}
                for t in [v] + list(log):
                    for x in walk(t):
                        if x.op == 'app' and x.args[0] in ('row.is_inside',) and x.args[1][0] in state and unwrap(x.args[1][1]) in (xk, X):
                            env[x] = state[x.args[1][0]][0]
                            env[mk('in', x, TRUTHY)] = env[x]
                        if x.op == 'oattr' and x.args[0] in state and x.args[1] == 'is_built':
                            env[x] = state[x.args[0]][1]
                            env[mk('in', x, TRUTHY)] = env[x]
                p = possible(log, env)
                if p is False:
                    continue
                n += 1
                got = evalt(v, env)
                if got is None:
                    unk = unk or 'answers ' + show(v)[:150]
                    continue
                wrong = got == 1 and not state[P][0] or got == 0 and not any(state[c][0] for c in cones) or got not in (0, 1, Fr(1, 2))
                cone = any(state[c][0] for c in cones)
                wrong = wrong or got != 1 and state[P][0] and not cone or got != 0 and cone and not state[P][0]
                ones += got == 1
                zeros += got == 0
                if wrong:
                    m = 'answers %s although %s' % (got, ', '.join('%s %s' % ('the positive region' if c is P else c.args[0], 'contains the point' if i else 'does not contain it') for c, (i, b) in state.items()))
                    if p is True:
                        bad = bad or m
                    else:
                        unk = unk or m
    what = label + '.predict'
    if bad:
        rep.bad(R_CLAIM, what, bad)
    elif unk:
        rep.unk(R_CLAIM, what, unk)
    else:
        rep.ok(R_CLAIM, '%s (%d cases)' % (what, n))


def selects(t, X, yv, k, yk, st):
    """which rows of X the batch t holds: {label: bool} for y in 0, 1; None if not understood"""
    t = unwrap(t)
    if t.op != 'sub' or unwrap(t.args[0]) is not X:
        return None
    m = at(t.args[1], k, st) if isbool(t.args[1]) else None
    return chosen(m, yk)


def chosen(m, yk):
    if m is None:
        return None
    out = {}
    for y in (0, 1):
        v = evalt(m, {yk: Fr(y), mk('in', yk, TRUTHY): bool(y)})
        if v is None:
            return None
        out[y] = bool(v)
    return out


def update(rep, ip, label, o, s, P, cones, lst, X, Yv, k, xk, yk):
    z = s.fork()
    n0, e0 = len(z.facts.log), len(z.events)
    bad = unk = None
    done = 0
    kinds = set()

    def fed(q, e, s2):
        t = s2.deep(q[3][0])
        sel = selects(t, X, Yv, k, yk, s2)
        if unwrap(t).op == 'oattr' and unwrap(t).args[:2] == (P, 'vertices') and vnum(unwrap(t).args[2]) > vnum(e[5]):
            return True
        if sel is None:
            return None
        return True if sel == {0: False, 1: True} else 'negative points as positive ones' if sel[0] else 'no points'
    for r, s2 in meth(ip, z, o, 'update', z.new('arr', val=X, tag='param:X'), z.new('arr', val=Yv, tag='param:y')):
        if isinstance(r, Exc):
            continue
        evs = list(flat_events(s2.events[e0:]))
        calls = [e for e in evs if e[0] == 'call']
        pos = [e for e in calls if e[1] is P and e[2] == 'update']
        log = s2.facts.log[n0:]
        feeds, vague = feeding(s2.events[e0:], cones, s2)
        if not pos:
            # allowed only without positive points
            if all(len_condition(c, X) for c in log) and log:
                kinds.add('no positives')
                batches = {x for c in log for x in walk(c) if x.op == 'len' and selects(x.args[0], X, Yv, k, yk, s2) == {0: False, 1: True}}
                for m in (1, 2, 3):
                    if batches and possible(log, {x: Fr(m) for x in batches}) is True:
                        bad = bad or 'a batch of %d positive points does not reach the positive region' % m
                        break
            elif not log:
                bad = bad or 'the positive region is never updated'
            else:
                unk = unk or 'a path does not update the positive region'
        for e in pos:
            kinds.add('positives')
            sel = selects(s2.deep(e[3][0]), X, Yv, k, yk, s2)
            if sel is None:
                unk = unk or 'the positive region is given ' + show(s2.deep(e[3][0]))[:100]
            elif sel != {0: False, 1: True}:
                bad = bad or 'the positive region is given %s points (%s)' % ('negative' if sel[0] else 'no', e[-1])
            for c in cones:
                mine = [q for ts, q in feeds if c in ts]
                if not mine:
                    if vague:
                        unk = unk or 'which cones are fed is not understood'
                    else:
                        bad = bad or 'a cone built earlier is not given the new positive points'
                for q in mine:
                    h = fed(q, e, s2)
                    if h is None:
                        unk = unk or 'a cone is given ' + show(s2.deep(q[3][0]))[:100]
                    elif h is not True:
                        bad = bad or 'a cone built earlier is given ' + h
        # new cones
        items = s2.deep(s2.obj(o).fields[lst])
        parts = list(items.args) if items.op == 'cat' else [items]
        newc = [p for p in parts if p.op == 'map']
        kept = [x for p in parts if p.op == 'list' for x in p.args]
        if not all(c in kept for c in cones):
            if items.op in ('cat', 'list', 'map'):
                bad = bad or 'a cone built earlier is dropped'
            else:
                unk = unk or 'cones become ' + show(items)[:100]
        made = [e for e in evs if e[0] == 'call' and e[2] == 'add_points_to_hull' and e[1].op == 'app' and e[1].args[0].startswith('region.')]
        if len(newc) == 1 and newc[0].args[2] is not None:
            ats = {x for x in walk(newc[0].args[2].args[1]) if x.op in ('oattr', 'sym', 'bv')} - {P}
            if ats and all(x.op == 'oattr' and x.args[0] is P or x.op == 'sym' and any(x in set(walk(y)) for y in [P]) for x in ats):
                bad = bad or 'a negative point gets no cone when not (%s)' % show(newc[0].args[2].args[1])[:100]
                continue
        if len(newc) != 1:
            unk = unk or 'cones become ' + show(items)[:150]
            continue
        j = fresh('j', 'nat')
        c = instantiate(newc[0].args[0], j)
        if c.op != 'app' or not c.args[0].startswith('region.') or not c.args[1]:
            unk = unk or 'new cones are ' + show(c)[:100]
            continue
        vert = unwrap(c.args[1][0])
        if vert.op == 'sub' and newc[0].args[2] is None and vert.args[1].op != 'slice':
            size = length(vert.args[0])
            for m in (1, 2, 3):
                sizes = {size: Fr(m)}
                for x in walk(newc[0].args[1]):
                    if x.op == 'len' and x.args[0].op == 'sub' and x.args[0].args[0] is vert.args[0] and x.args[0].args[1].op == 'slice':
                        b = [None if a is NONE else num(a) for a in x.args[0].args[1].args]
                        if all(a is not None or q is NONE for a, q in zip(b, x.args[0].args[1].args)):
                            sizes[x] = Fr(len(range(m)[slice(*[None if a is None else int(a) for a in b])]))
                d = evalt(newc[0].args[1], sizes)
                got = None if d is None else [evalt(vert.args[1], {size: Fr(m), j: Fr(i)}) for i in range(int(d))]
                if got is None or None in got:
                    unk = unk or 'cones are built for %s of %s' % (show(vert)[:100], show(newc[0].args[1])[:60])
                elif {g % m if -m <= g < m else g for g in got} != set(range(m)):
                    bad = bad or 'of %d negative points only %s get a cone' % (m, sorted(int(g) + 1 for g in set(got)))
                    break
            sel = selects(vert.args[0], X, Yv, k, yk, s2)
        elif vert is mk('sub', X, j) and newc[0].args[2] is not None:
            sel = chosen(subst(instantiate(newc[0].args[2], j), {mk('sub', Yv, j): yk}), yk)
        else:
            sel = None
        if sel is None:
            unk = unk or 'new cones are ' + show(c)[:150]
        elif sel != {0: True, 1: False}:
            bad = bad or 'cones are built for %s points' % ('positive' if sel[1] else 'no')
        last = max([vnum(e[5]) + 1 for e in pos], default=0)
        later = [q for ts, q in feeds if 'new' in ts and pos and fed(q, pos[-1], s2) is True]
        if not made:
            bad = bad or 'new cones are never given the positive points seen so far'
        for e in made:
            t = unwrap(s2.deep(e[3][0]))
            if t.op == 'oattr' and t.args[:2] == (P, 'vertices'):
                if vnum(t.args[2]) < last and not later:
                    bad = bad or 'new cones are given the positive points before this batch'
            else:
                unk = unk or 'new cones are given ' + show(t)[:100]
        done += 1
    if 'positives' not in kinds and not unk:
        bad = bad or 'the positive region is never updated'
    if bad:
        rep.bad(R_FEED, label + '.update', bad)
    elif unk:
        rep.unk(R_FEED, label + '.update', unk)
    elif done:
        rep.ok(R_FEED, '%s.update (%d paths)' % (label, done))


def feeding(evs, cones, s):
    """[(cones addressed, call)] of every add_points_to_hull; and whether some call addresses cones in a way that is not understood"""
    out, vague = [], False

    def go(evs, loops):
        nonlocal vague
        for e in evs:
            if e[0] in ('loop', 'loopprefix'):
                for pc, sub in e[3]:
                    go(sub, loops + [(e, pc)])
            elif e[0] == 'call' and e[2] == 'add_points_to_hull':
                if e[1] in cones:
                    out.append(({e[1]}, e))
                    if loops:
                        vague = True
                    continue
                if e[1].op == 'app' and e[1].args[0].startswith('region.'):
                    continue
                t = e[1]
                ok = False
                if len(loops) == 1 and loops[0][0][0] == 'loop' and loops[0][1] is TRUE and t.op == 'sub' and t.args[1] is loops[0][0][1] and length(t.args[0]) is loops[0][0][2]:
                    parts = t.args[0].args if t.args[0].op == 'cat' else (t.args[0],)
                    if all(p.op in ('list', 'map') for p in parts):
                        ts = {x for p in parts if p.op == 'list' for x in p.args}
                        if any(p.op == 'map' for p in parts):
                            ts.add('new')
                        out.append((ts, e))
                        ok = True
                vague = vague or not ok
    go(evs, [])
    return out, vague


def len_condition(c, X):
    return any(x.op == 'len' for x in walk(c)) or any(x.op == 'app' and x.args[0] in ('np.any', 'np.all', 'np.sum') for x in walk(c))


def factorized(rep, ip):
    X, Yv = sym('X', 'arr2'), sym('y', 'arr1')
    k = fresh('k', 'nat')

    def flipped():
        ip.steps = 0
        for o, s in normal(new(ip, ip.start(), 'FlippedPolytope', TOL)):
            f = s.obj(o).fields
            inner = [n for n, v in f.items() if v.op == 'ref' and is_part(v, s)]
            if len(inner) != 1:
                rep.unk(R_FLIP, 'FlippedPolytope', 'cannot identify the polytope it wraps')
                continue
            p = sym('inner', 'obj')
            ob_ = s.heap[o.args[0]].copy()
            s.heap[o.args[0]] = ob_
            ob_.fields[inner[0]] = p
            z = s.fork()
            z.facts.assume(lt(k, length(X)))
            for r, s2 in meth(ip, z, o, 'predict', z.new('arr', val=X, tag='param:X')):
                if isinstance(r, Exc):
                    continue
                v = at(s2.deep(r), k, s2)
                ats = [x for x in walk(v) if x.op == 'app' and x.args[0] == 'row.predict' and x.args[1][0] is p]
                res = {}
                for a in (Fr(0), Fr(1, 2), Fr(1)):
                    res[a] = evalt(v, {x: a for x in ats})
                if None in res.values():
                    rep.unk(R_FLIP, 'FlippedPolytope.predict', show(v)[:150])
                elif any(g == 1 and a != 0 or g == 0 and a != 1 or g not in (0, 1, Fr(1, 2)) for a, g in res.items()):
                    rep.bad(R_FLIP, 'FlippedPolytope.predict', 'answers of the inner polytope become %s' % {str(a): str(g) for a, g in res.items()})
                else:
                    rep.ok(R_FLIP, 'FlippedPolytope.predict')
            z = s.fork()
            e0 = len(z.events)
            for r, s2 in meth(ip, z, o, 'update', z.new('arr', val=X, tag='param:X'), z.new('arr', val=Yv, tag='param:y')):
                if isinstance(r, Exc):
                    continue
                ups = [e for e in flat_events(s2.events[e0:]) if e[0] == 'call' and e[1] is p and e[2] == 'update']
                if len(ups) != 1 or len(ups[0][3]) != 2:
                    rep.unk(R_FLIP, 'FlippedPolytope.update', '%d updates of the inner polytope' % len(ups))
                    continue
                xs, ys = [s2.deep(a) for a in ups[0][3]]
                y = at(ys, k, s2)
                got = [evalt(y, {mk('sub', Yv, k): Fr(b)}) for b in (0, 1)]
                if unwrap(xs) is not X or None in got:
                    rep.unk(R_FLIP, 'FlippedPolytope.update', 'inner update(%s, %s)' % (show(xs)[:60], show(ys)[:60]))
                elif got[0] != 1 or got[1] == 1:
                    rep.bad(R_FLIP, 'FlippedPolytope.update', 'labels 0, 1 are passed on as %s' % [str(g) for g in got])
                else:
                    rep.ok(R_FLIP, 'FlippedPolytope.update')
    rep.guard(R_FLIP, 'FlippedPolytope', flipped)

    def fact():
        ip.steps = 0
        st = ip.start()
        part = [[2, 0], [1]]
        f = fn(ip, 'aideme.active_learning.dsm.model', 'FactorizedPolytopeModel')
        for o, s in normal(call(ip, f, [partition(st, part)], {}, st)):
            ps = hide(s, o, is_part)
            z = s.fork()
            z.facts.assume(lt(k, length(X)))
            n0 = len(z.facts.log)
            bad = unk = None
            n = 0
            for r, s2 in meth(ip, z, o, 'predict', z.new('arr', val=X, tag='param:X')):
                if isinstance(r, Exc):
                    unk = unk or 'raises'
                    continue
                v = at(s2.deep(r), k, s2)
                log = s2.facts.log[n0:]
                for valid in itertools.product((True, False), repeat=2):
                    for ans in itertools.product((Fr(0), Fr(1, 2), Fr(1)), repeat=2):
                        if any(a != Fr(1, 2) and not b for a, b in zip(ans, valid)):
                            continue
                        env = {}
                        for t in [v] + list(log):
                            for x in walk(t):
                                if x.op == 'oattr' and x.args[0] in ps and x.args[1] == 'is_valid':
                                    env[x] = env[mk('in', x, TRUTHY)] = valid[ps.index(x.args[0])]
                                if x.op == 'app' and x.args[0] == 'row.predict' and x.args[1][0] in ps:
                                    env[x] = ans[ps.index(x.args[1][0])]
                        p = possible(log, env)
                        if p is False:
                            continue
                        n += 1
                        got = evalt(v, env)
                        if got is None:
                            unk = unk or show(v)[:150]
                        elif got == 1 and set(ans) != {Fr(1)} or got == 0 and Fr(0) not in ans or got not in (0, 1, Fr(1, 2)):
                            m = 'answers %s when the subspaces answer %s' % (got, [str(a) for a in ans])
                            bad, unk = (bad or m, unk) if p is True else (bad, unk or m)
            w = 'FactorizedPolytopeModel.predict'
            if bad:
                rep.bad(R_FACT, w, bad)
            elif unk:
                rep.unk(R_FACT, w, unk)
            elif n:
                rep.ok(R_FACT, '%s (%d cases)' % (w, n))
    rep.guard(R_FACT, 'FactorizedPolytopeModel', fact)

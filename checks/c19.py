"""C19: version-space sampling stays inside the version space."""
from sa.drive import *
from sa.evaln import evaln, N, arr
from sa.evalv import Unknown
from .comp import classes
import math
from itertools import product

EXPLAIN = ('HitAndRunSampler.sample is abstractly executed (one and two calls on one object, with and without rounding, one and several chains) with symbolic training data, directions, random numbers, rounding ellipsoid and solution of '
           'the linear program. On every path the conditions, the arguments of the linear program and the returned samples are terms in these; they are evaluated on small assignments: the path taken must return points strictly inside '
           'the version space and the unit ball, for any number drawn between the limits. The public geometry of BoundedPolyhedralCone is decided likewise, and the consumers of samples must read the columns as they were written.')
ASSUME = ['scipy.optimize.linprog solves the linear program it is given', 'np.random.uniform(a, b) lies between a and b', 'the rounding algorithm may return any ellipsoid of the right dimension']
FLOOR = 20
R_IN, R_LP, R_START, R_INSIDE, R_LINE, R_ORACLE, R_READ, R_CRASH = ('samples are inside the version space', 'the linear program finds interior points', 'an impossible starting point is refused', 'membership of the version space',
                                                                   'line intersection', 'separating half-spaces', 'samples are read in the column order of the constraints', 'sampling a non-empty version space succeeds')
EPS = 1e-7


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def external(fv):
    f = ob(fv)
    return getattr(f, 'name', '') if isinstance(f, Ext) else ''


def instance(s, v):
    return s.obj(v).cls.name if isinstance(v, T) and v.op == 'ref' and getattr(s.obj(v).cls, 'name', None) else None


def hooks(ip, sampler=None):
    """random draws, the linear program and the rounding algorithm as symbolic inputs"""
    def hook(fv, args, kw, s, n=None):
        name = external(fv)
        if name.startswith('np.random.') or name.startswith('numpy.random.'):
            d, k = name.split('.')[-1], len([e for e in s.events if e[0] == 'drawn'])
            if d in ('normal', 'standard_normal', 'randn'):
                s.event('drawn', d)
                return [(s.new('arr', val=sym('direction %d' % k, 'arr1')), s)]
            if d == 'uniform' and len(args) + len(kw) == 2:
                v = dict(zip(('low', 'high'), args), **kw)
                s.event('drawn', d)
                a, b = s.deep(v['low']), s.deep(v['high'])
                return [(add(a, mul(sym('u %d' % k, 'float'), sub_(b, a))), s)]
            if d in ('rand', 'random', 'random_sample') and not args and not kw:
                s.event('drawn', d)
                return [(sym('u %d' % k, 'float'), s)]
        if name.endswith('linprog'):
            k = len([e for e in s.events if e[0] == 'lp'])
            names = ('c', 'A_ub', 'b_ub', 'A_eq', 'b_eq', 'bounds')
            d = dict(zip(names, args), **kw)
            s.event('lp', {x: s.deep(v) for x, v in d.items()}, ip.where(n))
            return [(s.new('inst', cls=classes(ip)[0], fields={'success': sym('success %d' % k, 'bool'), 'x': s.new('arr', val=sym('lp x %d' % k, 'arr1')), 'status': sym('status %d' % k, 'int'), 'fun': sym('fun %d' % k, 'float')}), s)]
        f = ob(fv)
        if isinstance(f, Bound) and instance(s, f.self_) == 'RoundingAlgorithm' and args and instance(s, args[0]) == 'BoundedPolyhedralCone':
            k = len([e for e in s.events if e[0] == 'rounded'])
            s.event('rounded', tuple(s.deep(a) for a in args))
            out = []
            for e, s1 in normal(new(ip, s, 'Ellipsoid', sym('dim %d' % k, 'nat'))):
                for nm, kind in (('center', 'arr1'), ('L', 'arr2'), ('D', 'arr1')):
                    s1.setfield(e, nm, s1.new('arr', val=sym('%s %d' % (nm, k), kind)))
                out.append((e, s1))
            return out
        return None
    ip.call_hook = hook


def sub_(a, b):
    return add(a, mul(C(-1), b))


DATA2 = [([[1., 1.], [1., -0.5]], [1., 0.]), ([[1., 2.], [1., -1.], [0.5, -2.]], [1., 0., 0.]), ([[1., 0.]], [1.]), ([[1., 3.]], [0.]), ([[1., .5], [1., 1.5]], [1., 1.]), ([[1., -3.], [1., 1.]], [0., 0.])]
DATA3 = [([[1., 1., 0.], [1., -0.5, 1.]], [1., 0.]), ([[1., 2., -1.], [1., -1., .5], [.5, 0., 2.]], [0., 1., 1.]), ([[1., 0., 0.], [0., 1., 0.]], [1., 0.])]
DIRS = {2: [(1., 0.), (0., 1.), (-.6, .8), (2., 1.), (-1., -3.)], 3: [(1., 0., 0.), (0., -1., .5), (-.6, .8, .2), (1., 1., 1.)]}


def grid(d):
    return [w for w in product((-1., -.5, -.2, 0., .2, .5, 1.), repeat=d)]


def margin(X, y, w):
    """smallest y_i x_i.w"""
    return min((1 if l == 1 else -1) * dot(x, w) for x, l in zip(X, y))


def solution(X, y):
    """(s, w) of the linear program on a grid"""
    d = len(X[0])
    w = max(grid(d), key=lambda w: (round(margin(X, y, w), 9), [-abs(x) for x in w]))
    return -margin(X, y, w), w


def inside(X, y, w):
    return margin(X, y, w) > 0 and dot(w, w) < 1


class Check:
    def __init__(self, rep):
        self.rep, self.seen, self.n = rep, {}, {}

    def bad(self, rule, where, what):
        self.seen.setdefault((rule, where), what)

    def ok(self, rule, where, k=1):
        self.n[rule, where] = self.n.get((rule, where), 0) + k

    def unk(self, rule, where, what):
        self.rep.unk(rule, where, what)

    def done(self):
        for (rule, where), what in self.seen.items():
            self.rep.bad(rule, where, what, where)
        for (rule, where), k in self.n.items():
            if (rule, where) not in self.seen:
                for i in range(min(k, 20)):
                    self.rep.ok(rule, where + (', assignment %d' % (i + 1) if i else ''), '%d assignments' % k)
        self.rep.stats['assignments'] = sum(self.n.values())


def holds(facts, env, memo=None):
    for f in facts:
        v = evaln(f, env, None, memo)
        if not (all(v.data) if isinstance(v, N) else v):
            return False
    return True


def prepare(outs, skip=0):
    """[(value, state, conditions without and with positions found by a search loop, those positions)]"""
    res = []
    for v, s in outs:
        ks, plain, late_ = [], [], []
        for f in s.facts.log[skip:]:
            k = [x for x in walk(f) if x.op == 'sym' and str(x.args[0]).startswith(('k#', 'i#', 'j#'))]
            ks += [x for x in k if x not in ks]
            (late_ if k else plain).append(f)
        res.append((v, s, plain, late_, ks))
    return res


def taken(outs, env, n=2):
    """(value, state, assignment) of the outcomes whose path conditions hold; Unknown when one cannot be evaluated.  A position found by a search
    is the first one that satisfies the conditions."""
    res, memo, memos = [], {}, {}
    for v, s, plain, late_, ks in outs:
        ks = [k for k in ks if k not in env]
        if len(ks) > 2:
            raise Unknown('searches')
        if not holds(plain, env, memo):
            continue
        for pos in product(range(n), repeat=len(ks)):
            key = tuple(zip(ks, map(float, pos)))
            e = dict(env)
            e.update(key)
            if holds(late_, e, memos.setdefault(key, {}) if ks else memo):
                res.append((v, s, e))
                break
    return res


def config(st, rounding, single):
    kw = dict(single_chain=C(bool(single)), warmup=C(1), cache_samples=C(True), rounding=C(bool(rounding)))
    if single:
        kw['thin'] = C(1)
    return kw


def assignment(k, X, y, dirs, us, lp, elp=None, base=0):
    """values of the symbols of call k"""
    n, d = len(X), len(X[0])
    env = {sym('X%d' % k, 'arr2'): arr(X), sym('y%d' % k, 'arr1'): arr(y)}
    for i in range(12):
        env[sym('direction %d' % i, 'arr1')] = arr(list(dirs[i % len(dirs)]))
        env[sym('u %d' % i, 'float')] = us[i % len(us)]
    env[sym('lp x %d' % base, 'arr1')] = arr([lp[0]] + list(lp[1]))
    env[sym('success %d' % base, 'bool')] = True
    if elp:
        c, L, D = elp
        env.update({sym('center %d' % k, 'arr1'): arr(list(c)), sym('L %d' % k, 'arr2'): arr(L), sym('D %d' % k, 'arr1'): arr(list(D)), sym('dim %d' % k, 'nat'): float(d)})
    return env


def ellipsoids(X, y):
    d = len(X[0])
    eye = [[1. if i == j else 0. for j in range(d)] for i in range(d)]
    low = [[1. if i == j else .3 if j < i else 0. for j in range(d)] for i in range(d)]
    s, w = solution(X, y)
    return [([x + .04 + .03 * i for i, x in enumerate(w)], low, [.5 + i for i in range(d)]), ([0.] * d, eye, [1.] * d), ([-.9 * x for x in w], low, [1.] * d)]


def judge(ck, X, y, v, s, env, what, where, lpbase=None):
    """the outcome of sampling X, y"""
    if isinstance(v, Exc):
        ck.bad(R_CRASH, where, '%s: %s' % (what, show(v.v)[:80]))
        return None
    try:
        r = arr(evaln(s.deep(v), env))
    except Unknown as e:
        ck.unk(R_IN, where, 'samples: ' + str(e)[:150])
        return None
    if len(r.shape) != 2 or r.shape[1] != len(X[0]):
        ck.unk(R_IN, where, 'shape of the samples: %s' % (r.shape,))
        return None
    for w in r.rows():
        if any(x != x for x in w):
            ck.bad(R_IN, where, '%s: a sample is not a number' % what)
        elif margin(X, y, w) <= 0:
            ck.bad(R_IN, where, '%s: sample %s violates a training label (signed margin %.3g)' % (what, nice(w), margin(X, y, w)))
        elif dot(w, w) >= 1 + EPS:
            ck.bad(R_IN, where, '%s: sample %s lies outside the unit ball' % (what, nice(w)))
        else:
            ck.ok(R_IN, where)
            ck.ok(R_CRASH, where)
    return r


def nice(w):
    return '(%s)' % ', '.join('%.3g' % x for x in w)


def draws(d, thorough):
    ds = DIRS[d]
    for i in range(len(ds)):
        for us in ((.5, .25), (.02, .97)) if not thorough else ((.5, .25), (.02, .97), (.75, .5, .1), (.999, .001)):
            yield [ds[i], ds[(i + 1) % len(ds)], ds[(i + 2) % len(ds)]], us


def expand(ds, us):
    """values for draws numbered in one sequence (direction, number, direction, number ...)"""
    return [ds[(i // 2) % len(ds)] for i in range(12)], [us[(i // 2) % len(us)] for i in range(12)]


def sampling(rep, ck, ip, rounding, single):
    where = 'HitAndRunSampler.sample(%s, %s)' % ('rounding' if rounding else 'no rounding', 'one chain' if single else 'several chains')
    st = ip.start()
    hooks(ip)
    try:
        o, st = new1(ip, st, 'HitAndRunSampler', **config(st, rounding, single))
        n0 = len(st.facts.log)
        outs = prepare(meth(ip, st, o, 'sample', A(st, 'X0'), A(st, 'y0', 'arr1'), C(2)), n0)
        kept = {}
        for X, y in DATA2 + DATA3:
            sol = solution(X, y)
            if sol[0] >= 0:
                continue
            for elp in ellipsoids(X, y) if rounding else [None]:
                for ds, us in draws(len(X[0]), rep.thorough):
                    env = assignment(0, X, y, *expand(ds, us), sol, elp)
                    what = 'X=%s, y=%s, direction %s' % (X, y, nice(ds[0]))
                    try:
                        t = taken(outs, env)
                    except Unknown as e:
                        ck.unk(R_IN, where, 'condition: ' + str(e)[:150])
                        return
                    if not t:
                        ck.unk(R_IN, where, 'no path for ' + what)
                        return
                    for v, s, env in t:
                        r = judge(ck, X, y, v, s, env, what, where)
                    if r is None:
                        if isinstance(v, Exc):
                            continue
                        return
                    if len(kept) < 4:
                        kept.setdefault(id(s), (s, []))
                    if id(s) in kept:
                        kept[id(s)][1].append((X, y, env))
        # an impossible starting point
        for X, y in [([[1., 0.], [-1., 0.]], [1., 1.])]:
            for ok, x in ((True, (0., (0., 0.))), (True, (.3, (.3, .1))), (False, (-.5, (.5, .1)))):
                env = assignment(0, X, y, *expand(DIRS[2], (.5,)), x, ([0., 0.], [[1., 0.], [0., 1.]], [1., 1.]))
                env[sym('success 0', 'bool')] = ok
                lpsyms = {sym('success 0', 'bool'), sym('lp x 0', 'arr1'), sym('X0', 'arr2'), sym('y0', 'arr1')} | {k for k in env if str(k.args[0]).rsplit(' ', 1)[0] in ('center', 'L', 'D', 'dim')}
                for v, s, fs, late_, ks in outs:
                    first = [f for f in fs if all(y in lpsyms for y in walk(f) if y.op == 'sym')]
                    if ks or not holds(first, env) or not any(e[0] == 'lp' for e in s.events):
                        continue
                    if any(e[0] == 'drawn' for e in s.events):
                        ck.bad(R_START, where, 'a chain is started although the linear program %s' % ('finds no interior point (slack %g)' % x[0] if ok else 'failed'))
                    elif isinstance(v, Exc):
                        ck.ok(R_START, where)
        # the linear program
        progs = {}
        for v, s, *_ in outs:
            for e in s.events:
                if e[0] == 'lp':
                    progs.setdefault(tuple(sorted((k, show(x, 40)) if not isinstance(x, T) else (k, x.id if hasattr(x, 'id') else id(x)) for k, x in e[1].items())), e[1])
                    break
        for d in progs.values():
            program(ck, d, where)
        # a second call on the same object
        for s, cases in kept.values():
            later(rep, ck, ip, o, s, cases, rounding, where)
    except Unknown as e:
        ck.unk(R_IN, where, str(e)[:150])
    finally:
        ip.call_hook = None


def later(rep, ck, ip, o, st, cases, rounding, where):
    where += ', second call'
    nd, nl, n0 = len([e for e in st.events if e[0] == 'drawn']), len([e for e in st.events if e[0] == 'lp']), len(st.facts.log)
    outs = prepare(meth(ip, st, o, 'sample', A(st, 'X1'), A(st, 'y1', 'arr1'), C(1)), n0)
    for X, y, env0 in cases[::max(1, len(cases) // (20 if rep.thorough else 3))]:
        more = []
        if not rounding:
            for X2, y2 in DATA2 + DATA3:
                if abs(len(X2[0]) - len(X[0])) <= 1:
                    more.append((X2, y2))
        else:
            more = [(X2, y2) for X2, y2 in DATA2 + DATA3 if len(X2[0]) in (len(X[0]), len(X[0]) + 1)]
        for X2, y2 in more:
            sol = solution(X2, y2)
            if sol[0] >= 0:
                continue
            ds = DIRS[len(X2[0])]
            for elp, turn in product(ellipsoids(X2, y2)[1:] if rounding else [None], range(len(ds))):
                env = dict(assignment(1, X2, y2, *expand(ds[turn:] + ds[:turn], (.3, .9)), sol, elp, base=nl))
                env.update({k: v for k, v in env0.items() if not late(k, nd, nl)})
                what = 'after X=%s, y=%s: X=%s, y=%s' % (X, y, X2, y2)
                try:
                    t = taken(outs, env)
                except Unknown as e:
                    ck.unk(R_IN, where, 'condition: ' + str(e)[:150])
                    return
                if not t:
                    ck.unk(R_IN, where, 'no path for ' + what)
                    return
                for v, s, e in t:
                    if judge(ck, X2, y2, v, s, e, what, where) is None and not isinstance(v, Exc):
                        return


def late(k, nd, nl):
    n = k.args[0].rsplit(' ', 1)
    return n[0] in ('direction', 'u') and int(n[1]) >= nd or n[0] in ('lp x', 'success') and int(n[1]) >= nl


def program(ck, d, where):
    """c, A_ub, b_ub, bounds describe: minimize s with A w <= s and |w_i| <= 1"""
    for X, y in DATA2 + DATA3:
        env = {sym('X0', 'arr2'): arr(X), sym('y0', 'arr1'): arr(y)}
        dim = len(X[0])
        try:
            c, A_, b = [arr(evaln(d[k], env)) for k in ('c', 'A_ub', 'b_ub')]
            bounds = limits(d.get('bounds'), env, dim + 1)
        except (Unknown, KeyError) as e:
            ck.unk(R_LP, where, 'arguments of the linear program: ' + str(e)[:120])
            return
        if len(c.data) != dim + 1 or A_.shape != (len(X), dim + 1) or len(b.data) != len(X) or any(k in d for k in ('A_eq', 'b_eq')):
            ck.unk(R_LP, where, 'shape of the linear program')
            return
        if any(abs(x) > EPS for x in c.data[1:]) or c.data[0] <= 0:
            ck.unk(R_LP, where, 'objective of the linear program: ' + nice(c.data))
            return
        for w in grid(dim):
            for s in (-1.5, -.5, -.1, .1, .7):
                m = margin(X, y, w)
                if abs(-m - s) < 1e-6:
                    continue
                p = (s,) + w
                feas = all(dot(r, p) <= z + EPS for r, z in zip(A_.rows(), b.data)) and all((lo is None or x >= lo - EPS) and (hi is None or x <= hi + EPS) for x, (lo, hi) in zip(p, bounds))
                if feas and -m > s:
                    ck.bad(R_LP, where, 'X=%s, y=%s: the linear program admits w=%s with slack %.3g although a training point has signed margin %.3g' % (X, y, nice(w), s, m))
                elif not feas and -m <= s and max(map(abs, w)) <= .5:
                    ck.bad(R_LP, where, 'X=%s, y=%s: the linear program excludes w=%s with slack %.3g although every training point has signed margin at least %.3g' % (X, y, nice(w), s, m))
                else:
                    ck.ok(R_LP, where)


def limits(t, env, n):
    if t is None:
        return [(0., None)] * n

    def one(x):
        if x.op in ('tuple', 'list') and len(x.args) == 2:
            return tuple(None if y is NONE or y.op == 'inf' else evaln(y, env) for y in x.args)
        raise Unknown('bounds ' + show(x)[:60])

    def go(x):
        if x.op == 'cat':
            return [v for y in x.args for v in go(y)]
        if x.op == 'map' and x.args[2] in (None, NONE):
            return [one(x.args[0].args[-1] if x.args[0].op == 'lam' else x.args[0])] * int(evaln(x.args[1], env))
        if x.op in ('list', 'tuple') and x.args and x.args[0].op in ('tuple', 'list'):
            return [one(y) for y in x.args]
        if x.op in ('list', 'tuple') and len(x.args) == 2:
            return [one(x)] * n
        raise Unknown('bounds ' + x.op + show(x)[:60])
    r = go(t)
    if len(r) != n:
        raise Unknown('number of bounds')
    return r


def geometry(rep, ck, ip):
    st = ip.start()
    Am, w, d = sym('A', 'arr2'), sym('w', 'arr1'), sym('d', 'arr1')
    o, st = new1(ip, st, 'BoundedPolyhedralCone', A(st, 'A'))
    n0 = len(st.facts.log)
    p_, d_ = A(st, 'w', 'arr1'), A(st, 'd', 'arr1')
    mem = prepare(meth(ip, st.fork(), o, 'is_inside_polytope', p_), n0)
    lin = prepare(meth(ip, st.fork(), o, 'intersection', p_, d_), n0)
    try:
        oracle(ck, prepare(meth(ip, st.fork(), o, 'get_separating_oracle', p_), n0), Am, w)
    except Unknown as e:
        ck.unk(R_ORACLE, 'BoundedPolyhedralCone.get_separating_oracle', str(e)[:150])
    for X, y in DATA2 + DATA3:
        Av = [[-x if l == 1 else x for x in r] for r, l in zip(X, y)]
        for p in grid(len(X[0])):
            env = {Am: arr(Av), w: arr(list(p))}
            m, where = margin(X, y, p), 'BoundedPolyhedralCone.is_inside_polytope'
            if abs(m) < 1e-9 and any(abs(x) > 1e-9 for x in p):
                m = 0.
            try:
                t = taken(mem, env)
                r = evaln(t[0][1].deep(t[0][0]), t[0][2]) if len(t) == 1 and not isinstance(t[0][0], Exc) else None
            except Unknown as e:
                ck.unk(R_INSIDE, where, str(e)[:150])
                break
            if r is None:
                ck.unk(R_INSIDE, where, 'outcome')
                break
            if bool(r) != (m > 0):
                ck.bad(R_INSIDE, where, 'A=%s, w=%s: %s although the largest constraint value is %.3g' % (Av, nice(p), bool(r), -m))
            else:
                ck.ok(R_INSIDE, where)
            where = 'BoundedPolyhedralCone.intersection'
            if m <= 1e-9 or dot(p, p) >= 1:
                continue
            for v in DIRS[len(p)]:
                env[d] = arr(list(v))
                try:
                    t = taken(lin, env)
                    if len(t) != 1:
                        raise Unknown('%d paths' % len(t))
                    if isinstance(t[0][0], Exc):
                        ck.bad(R_LINE, where, 'A=%s, centre %s, direction %s: %s' % (Av, nice(p), nice(v), show(t[0][0].v)[:60]))
                        continue
                    rv = t[0][1].deep(t[0][0])
                    lo, hi = arr(evaln(rv, env)).data
                except (Unknown, ValueError) as e:
                    ck.unk(R_LINE, where, str(e)[:150])
                    return
                a, b, c = dot(v, v), dot(p, v), dot(p, p) - 1
                q = math.sqrt(b * b - a * c)
                l, h = (-b - q) / a, (-b + q) / a
                for r in Av:
                    n, e = -dot(r, p), dot(r, v)
                    if e > 1e-12:
                        h = min(h, n / e)
                    elif e < -1e-12:
                        l = max(l, n / e)
                if abs(lo - l) > EPS or abs(hi - h) > EPS:
                    ck.bad(R_LINE, where, 'A=%s, centre %s, direction %s: limits (%.4g, %.4g), but the line leaves the body at %.4g and %.4g' % (Av, nice(p), nice(v), lo, hi, l, h))
                else:
                    ck.ok(R_LINE, where)


def oracle(ck, outs, Am, w):
    where = 'BoundedPolyhedralCone.get_separating_oracle'
    for X, y in DATA2 + DATA3:
        Av = [[-x if l == 1 else x for x in r] for r, l in zip(X, y)]
        body = [p for p in grid(len(X[0])) if inside(X, y, p)]
        for p in grid(len(X[0])):
            m, q = margin(X, y, p), dot(p, p)
            if abs(m) < 1e-9 or abs(q - 1) < 1e-9:
                continue
            for v, s, env in taken(outs, {Am: arr(Av), w: arr(list(p))}, len(X)):
                what = 'A=%s, point %s' % (Av, nice(p))
                if isinstance(v, Exc):
                    ck.bad(R_ORACLE, where, '%s: %s' % (what, show(v.v)[:60]))
                    continue
                v = s.deep(v)
                if v is NONE:
                    if m > 0 and q < 1:
                        ck.ok(R_ORACLE, where)
                    elif not ambiguous(outs, env, Am):
                        ck.bad(R_ORACLE, where, '%s: no half-space although the point is outside' % what)
                    continue
                if v.op not in ('tuple', 'list') or len(v.args) != 2:
                    raise Unknown('result ' + show(v)[:60])
                b, g = evaln(v.args[0], env), arr(evaln(v.args[1], env)).data
                if m > 0 and q < 1:
                    ck.bad(R_ORACLE, where, '%s: a half-space although the point is inside' % what)
                elif dot(g, p) < b - EPS:
                    ck.bad(R_ORACLE, where, '%s: half-space g=%s, b=%.3g contains the point' % (what, nice(g), b))
                elif any(dot(g, x) > b + EPS for x in body):
                    ck.bad(R_ORACLE, where, '%s: half-space g=%s, b=%.3g cuts off a part of the version space' % (what, nice(g), b))
                else:
                    ck.ok(R_ORACLE, where)


def ambiguous(outs, env, Am):
    """another path through a search loop is possible for this assignment"""
    return len(taken(outs, {k: v for k, v in env.items() if not str(k.args[0]).startswith(('k#', 'i#', 'j#'))}, arr(env[Am]).shape[0])) > 1


def consumers(rep, ck, ip):
    """the margin a sample gives to a training point has the sign of the constraint built for it"""
    for icpt, cname in product((True, False), ('DeterministicLogisticRegression',)):
        where = '%s(add_intercept=%s)' % (cname, icpt)

        def hook(fv, args, kw, s, n=None):
            f = ob(fv)
            if isinstance(f, Bound) and instance(s, f.self_) == 'HitAndRunSampler' and len(args) + len(kw) == 3:
                d = dict(zip(('X', 'y', 'n_samples'), args), **kw)
                s.event('sampled', s.deep(d.get('X', NONE)), s.deep(d.get('y', NONE)))
                return [(s.new('arr', val=sym('samples', 'arr2')), s)]
            return None
        ip.call_hook = hook
        try:
            st = ip.start()
            o, st = new1(ip, st, cname, add_intercept=C(icpt))
            n0 = len(st.facts.log)
            for _, s in normal(meth(ip, st, o, 'fit', A(st, 'X'), A(st, 'y', 'arr1'))):
                ev = [e for e in s.events if e[0] == 'sampled']
                if len(ev) != 1:
                    ck.unk(R_READ, where, 'fit samples %d times' % len(ev))
                    continue
                for v, s1 in normal(meth(ip, s, o, 'predict_proba', A(s, 'P'))):
                    for X, y in DATA2 + DATA3:
                        env = {sym('X', 'arr2'): arr(X), sym('y', 'arr1'): arr(y), sym('P', 'arr2'): arr(X)}
                        Z, yv = evaln(ev[0][1], env), evaln(ev[0][2], env)
                        if arr(yv).data != [float(x) for x in y]:
                            ck.bad(R_READ, where, 'labels given to the sampler are not the training labels')
                            continue
                        if icpt and sorted(map(sorted, arr(Z).rows())) != sorted(sorted(r + [1.]) for r in X):
                            ck.bad(R_READ, where, 'X=%s: constraints are built from %s' % (X, arr(Z).tolist()))
                            continue
                        k = arr(Z).shape[1]
                        S = [[((3 * i + 5 * j + i * j) % 7 - 3) / 4. + .01 * (j + 1) for j in range(k)] for i in range(3)]
                        env[sym('samples', 'arr2')] = arr(S)
                        if not holds(s1.facts.log[n0:], env):
                            continue
                        got = arr(evaln(s1.deep(v), env)).data
                        want = [sum(dot(z, w) > 0 for w in S) / len(S) for z in arr(Z).rows()]
                        if len(got) != len(want) or any(abs(a - b) > EPS for a, b in zip(got, want)):
                            ck.bad(R_READ, where, 'X=%s, samples %s: probabilities %s on the training points, but the constraints of the samples give %s' % (X, S, nice(got), nice(want)))
                        else:
                            ck.ok(R_READ, where)
        except Unknown as e:
            ck.unk(R_READ, where, str(e)[:150])
        finally:
            ip.call_hook = None


def run(rep):
    ip = load()
    ck = Check(rep)
    rep.guard(R_INSIDE, 'BoundedPolyhedralCone', lambda: geometry(rep, ck, ip))
    rep.guard(R_READ, 'DeterministicLogisticRegression', lambda: consumers(rep, ck, ip))
    for rounding in (False, True):
        for single in (True, False):
            rep.guard(R_IN, 'HitAndRunSampler.sample', lambda: sampling(rep, ck, ip, rounding, single))
    ck.done()

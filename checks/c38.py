"""C38: initial samples have the requested composition."""
import itertools
from fractions import Fraction as Fr
from sa.drive import *

EXPLAIN = ('Each initial sampler is abstractly executed with opaque labels, sizes and data set; its answer is decomposed into random draws, and for each draw the pool (evaluated for every label '
           'and every combination of partial labels), the number of keys and the absence of repetition are compared with the request.')
ASSUME = ['labels are the minimum of the partial labels', 'numpy.random.choice without replacement draws distinct elements of its pool', 'one to three subspaces stand for any number']
FLOOR = 6
R_POOL = 'keys come from the points with the requested label'
R_SIZE = 'the requested number of distinct keys is drawn'
R_PASS = 'a fixed selection is returned as given'
LS, DATA, POS, NEG = sym('ls', 'obj'), sym('data', 'obj'), sym('pos', 'nat'), sym('neg', 'nat')
MOD = 'aideme.initial_sampling'


class Unknown(Exception):
    pass


def strip(t):
    while t.op == 'app' and t.args[0] in ('list', 'tuple', 'np.array', 'np.asarray', 'copy', 'np.copy', '.tolist', 'tolist', 'shuffled', '.copy', 'np.random.permutation', 'np.ravel', '.flatten') and t.args[1]:
        t = t.args[1][0]
    return t


def parts(t):
    t = strip(t)
    if t.op == 'cat':
        return [p for x in t.args for p in parts(x)]
    if t.op == 'app' and t.args[0] in ('np.concat', 'np.hstack', 'np.concat1', 'np.append', 'np.concatenate'):
        xs = t.args[1]
        if len(xs) == 1 and xs[0].op in ('list', 'tuple'):
            xs = xs[0].args
        return [p for x in xs for p in parts(x)]
    return [t]


def labels(t):
    return t.op == 'oattr' and t.args[0] is LS and t.args[1] == 'labels'


def partial(t):
    return t.op == 'oattr' and t.args[0] is LS and t.args[1] == 'partial'


def ev(t, y, p):
    """value of a mask (or number) at a point with label y and partial labels p"""
    r = lambda x: ev(x, y, p)
    if labels(t):
        return Fr(y)
    if partial(t):
        return [Fr(x) for x in p]
    n = num(t)
    if n is not None:
        return Fr(n)
    if t.op == 'const' and isinstance(t.args[0], bool):
        return t.args[0]
    up = lambda f, a: [f(x) for x in a] if isinstance(a, list) else f(a)
    if t.op == 'poly':
        tot = Fr(0)
        for m, c in t.args[0]:
            v = Fr(c)
            for a, e in m:
                x = r(a)
                if e < 0:
                    raise Unknown(show(t)[:60])
                v = zipop(lambda q, w: q * w ** e, v, x)
            tot = zipop(lambda q, w: q + w, tot, v)
        return tot
    if t.op in ('eq0', 'lt0', 'le0'):
        return up({'eq0': lambda x: x == 0, 'lt0': lambda x: x < 0, 'le0': lambda x: x <= 0}[t.op], r(t.args[0]))
    if t.op == 'not':
        return up(lambda x: not x, r(t.args[0]))
    if t.op in ('and', 'or'):
        out = r(t.args[0])
        for x in t.args[1:]:
            out = zipop((lambda a, b: bool(a) and bool(b)) if t.op == 'and' else (lambda a, b: bool(a) or bool(b)), out, r(x))
        return out
    if t.op == 'eq':
        return zipop(lambda a, b: a == b, r(t.args[0]), r(t.args[1]))
    if t.op == 'in' and t.args[1] is mk('truthy'):
        return up(bool, r(t.args[0]))
    if t.op == 'app':
        f, a, kw = t.args[0], t.args[1], dict(t.args[2])
        g = f.split('.')[-1]
        if g in ('max', 'min', 'sum', 'mean', 'prod', 'all', 'any', 'amax', 'amin', 'count_nonzero') and a:
            ax = kw.get('axis', a[1] if len(a) > 1 else None)
            if ax is None or num(ax) not in (1, -1):
                raise Unknown(show(t)[:60])
            v = r(a[0])
            if not isinstance(v, list):
                raise Unknown(show(t)[:60])
            prod = Fr(1)
            for x in v:
                prod *= x
            return {'max': max, 'amax': max, 'min': min, 'amin': min, 'sum': sum, 'mean': lambda q: Fr(sum(q)) / len(q), 'prod': lambda q: prod, 'all': all, 'any': any,
                    'count_nonzero': lambda q: sum(bool(x) for x in q)}[g](v)
        if f in ('astype', 'np.asarray', 'np.array', 'copy', 'np.ravel') and a:
            return r(a[0])
        if f in ('np.logical_and', 'np.logical_or', 'bitand', 'bitor') and len(a) == 2:
            return zipop((lambda x, z: bool(x) and bool(z)) if 'and' in f else (lambda x, z: bool(x) or bool(z)), r(a[0]), r(a[1]))
        if f in ('np.logical_not', 'invert') and a:
            return up(lambda x: not x, r(a[0]))
    raise Unknown(show(t)[:80])


def zipop(f, a, b):
    if isinstance(a, list) or isinstance(b, list):
        a = a if isinstance(a, list) else [a] * len(b)
        b = b if isinstance(b, list) else [b] * len(a)
        return [f(x, z) for x, z in zip(a, b)]
    return f(a, b)


def pool(t):
    """(mask, None) when the pool is the keys under a mask, or (mask, complaint)"""
    t = strip(t)
    if t.op == 'sub':
        base, m = strip(t.args[0]), t.args[1]
        if base.op == 'oattr' and base.args[0] is LS and base.args[1] == 'index':
            q = where(m)
            return (q if q is not None else m), None
        q = where(t)
        if q is not None:
            return q, 'positions are drawn instead of keys'
        if labels(base) or partial(base):
            return None, 'labels are drawn instead of keys'
    q = where(t)
    if q is not None:
        return q, 'positions are drawn instead of keys'
    if t.op == 'oattr' and t.args[0] is LS and t.args[1] == 'index':
        return TRUE, None
    raise Unknown('pool ' + show(t)[:80])


def where(t):
    """mask of np.where(mask)[0] and the like"""
    if t.op == 'sub' and num(t.args[1]) == 0:
        t = t.args[0]
        if t.op == 'app' and t.args[0] in ('np.where', 'np.nonzero', '.nonzero', 'nonzero') and len(t.args[1]) == 1:
            return t.args[1][0]
        return None
    if t.op == 'app' and t.args[0] in ('np.flatnonzero', 'np.argwhere', 'nonzero', 'nonzero0') and len(t.args[1]) == 1:
        return t.args[1][0]
    return None


POINTS = [(min(p), p) for k in (1, 2, 3) for p in itertools.product((0, 1), repeat=k)]


def draw(t):
    """(pool, size, replace) of a random draw"""
    if t.op == 'sub' and t.args[1].op == 'slice':
        a, b, c = t.args[1].args
        x = t.args[0]
        if x.op == 'app' and x.args[0] == 'np.random.permutation' and c in (NONE, C(1)) and a in (NONE, ZERO):
            return x.args[1][0], b, FALSE
    if t.op == 'app' and t.args[0].split('.')[-1] == 'choice' and 'random' in t.args[0]:
        a, kw = list(t.args[1]), dict(t.args[2])
        g = lambda i, n, d: a[i] if len(a) > i else kw.get(n, d)
        if 'p' in kw:
            raise Unknown('weighted draw')
        return g(0, 'a', None), g(1, 'size', None), g(2, 'replace', TRUE)
    raise Unknown('draw ' + show(t)[:80])


def stratified(rep, ip, st, flag):
    what = 'stratified_sampler' + (', negatives in all subspaces' if flag is TRUE else '')
    wants = {'positive': (POS, {p for p in POINTS if p[0] == 1}), 'negative': (NEG, {p for p in POINTS if (max(p[1]) == 0 if flag is TRUE else p[0] == 0)})}
    n = 0
    for r, s in call(ip, fn(ip, MOD, 'stratified_sampler'), [LS, POS, NEG], {'neg_in_all_subspaces': flag}, st.fork()):
        if isinstance(r, Exc):
            continue
        for run_ in (1, 2):
            outs = call(ip, r, [DATA], {}, s.fork())
            if run_ == 2:
                outs = [o for v, s1 in outs if not isinstance(v, Exc) for o in call(ip, r, [DATA], {}, s1)]
            for v, s2 in outs:
                if isinstance(v, Exc):
                    rep.unk(R_SIZE, what, 'raises ' + show(s2.deep(v.v))[:60])
                    continue
                n += 1
                lab = what + (', second call' if run_ == 2 else '')
                got = {}
                try:
                    for p in parts(s2.deep(v)):
                        a, size, repl = draw(p)
                        m, complaint = pool(s2.deep(a) if a.op == 'ref' else a)
                        if complaint:
                            rep.bad(R_POOL, lab, complaint, MOD)
                            return
                        pts = {q for q in POINTS if ev(m, *q) in (True, 1)}
                        k = [w for w, (sz, ps) in wants.items() if ps == pts]
                        if not k:
                            rep.bad(R_POOL, lab, 'a draw of %s keys uses the points with (label, partial labels) in %s' % (show(size) if size is not None else 1, sorted(pts)), MOD)
                            return
                        got.setdefault(k[0], []).append((size, repl))
                except Unknown as e:
                    rep.unk(R_POOL, lab, str(e))
                    rep.unk(R_SIZE, lab, str(e))
                    continue
                for w, (sz, ps) in wants.items():
                    ds = got.get(w, [])
                    if len(ds) != 1:
                        rep.bad(R_SIZE, lab, '%d draws of %s points' % (len(ds), w), MOD)
                        continue
                    size, repl = ds[0]
                    if size is None or size is not sz:
                        (rep.bad if size is None or not [x for x in walk(size) if x.op not in ('sym', 'const', 'poly')] else rep.unk)(R_SIZE, lab, '%s %s points are drawn instead of %s' % (1 if size is None else show(size), w, show(sz)), MOD)
                    elif repl is not FALSE:
                        (rep.bad if repl is TRUE else rep.unk)(R_SIZE, lab, 'the %s points are drawn with repetition' % w, MOD)
                    else:
                        rep.ok(R_SIZE, '%s, %s points' % (lab, w))
                        rep.ok(R_POOL, '%s, %s points' % (lab, w))
    if not n:
        rep.unk(R_POOL, what, 'no outcome')


def others(rep, ip, st):
    ix = sym('indexes', 'list')
    for r, s in call(ip, fn(ip, MOD, 'fixed_sampler'), [ix], {}, st.fork()):
        if isinstance(r, Exc):
            rep.bad(R_PASS, 'fixed_sampler', 'raises ' + show(s.deep(r.v))[:60], MOD)
            continue
        for v, s2 in call(ip, r, [DATA], {}, s):
            t = None if isinstance(v, Exc) else strip(s2.deep(v))
            if t is ix:
                rep.ok(R_PASS, 'fixed_sampler')
            else:
                (rep.bad if t is None or t.op in ('sub', 'const') else rep.unk)(R_PASS, 'fixed_sampler', 'returns ' + ('an exception' if t is None else show(t)[:80]), MOD)
    n = sym('n', 'nat')
    for r, s in call(ip, fn(ip, MOD, 'random_sampler'), [n], {}, st.fork()):
        if isinstance(r, Exc):
            continue
        for v, s2 in call(ip, r, [DATA], {}, s):
            if isinstance(v, Exc):
                rep.unk(R_SIZE, 'random_sampler', 'raises')
                continue
            t = strip(s2.deep(v))
            what, msg = 'random_sampler', None
            if t.op == 'oattr' and t.args[0].op == 'app' and t.args[0].args[0] == '.sample':
                c = t.args[0]
                src, size = c.args[1][0], (list(c.args[1][1:]) + [x for k, x in c.args[2] if k in ('size', 'sample_size', 'n')] + [None])[0]
                if t.args[1] != 'index':
                    msg = 'the %s of the sample is returned instead of its keys' % t.args[1]
                elif src.op == 'oattr' and src.args[0] is DATA and src.args[1] != 'unlabeled':
                    msg = 'the sample is drawn from the %s points' % src.args[1]
                elif not (src.op == 'oattr' and src.args[0] is DATA):
                    rep.unk(R_POOL, what, show(src)[:60])
                    continue
                elif size is not n:
                    msg = '%s keys are drawn' % (show(size)[:60] if size is not None else 'no')
                if msg:
                    rep.bad(R_POOL, what, msg, MOD)
                else:
                    rep.ok(R_POOL, what)
            else:
                try:
                    a, size, repl = draw(t)
                    a = strip(a)
                    if not (a.op == 'oattr' and a.args[1] == 'index' and a.args[0].op == 'oattr' and a.args[0].args == (DATA, 'unlabeled', a.args[0].args[2])) or size is not n or repl is not FALSE:
                        raise Unknown(show(t)[:80])
                    rep.ok(R_POOL, what)
                except Unknown as e:
                    rep.unk(R_POOL, what, str(e))


def run(rep):
    ip = load()
    st = ip.start()
    for flag in (FALSE, TRUE):
        rep.guard(R_POOL, 'stratified_sampler', lambda: stratified(rep, ip, st, flag))
    rep.guard(R_PASS, 'samplers', lambda: others(rep, ip, st))
    rep.stats['samplers'] = 3

"""C06: only unlabeled points are ever proposed."""
from .comp import *
from . import c08, dsmx, loop
from .dsmx import DATA

EXPLAIN = ('next_points_to_label of every learner class is abstractly executed on an opaque data set and subsample size, in an arbitrary state of the learner; the provenance of the returned points (attribute of the data set, sampling, row selection, '
           'delegation to another learner) must lead to a pool of unlabeled points, through a sampling step with exactly the given size. Row selection and sampling of IndexedDataset are checked on its own code: the same rows of data and index, '
           'drawn without replacement from all rows. The exploration manager must pass its subsampling on.')
ASSUME = ['the partitions offered by PartitionedDataset hold the points they name (C02, C03)', 'np.random.choice(n, k, replace=False) draws k distinct elements of range(n)']
FLOOR = 14
R_POOL, R_SUB, R_OWN, R_SAMPLE, R_PASS, R_NOMOVE = ('proposed points come from the unlabeled pool', 'the subsample size is respected', 'points are returned with their own index', 'sampling is without replacement', 'the manager passes its subsampling on',
                                                    'looking for points does not label them')
SUB = sym('subsample', 'int')
POOLS = ('unlabeled', 'unknown', 'inferred')


class Bad(Exception):
    pass


def prov(t, sizes):
    """pool a set of points comes from; sizes collects the sampling sizes met"""
    if t.op == 'oattr' and t.args[0] is DATA:
        if t.args[1] in POOLS:
            return t.args[1]
        if t.args[1] == 'labeled':
            raise Bad('taken from the labeled points')
        if t.args[1] in ('data', 'index'):
            raise Bad('taken from the whole data set')
        return None
    if t is DATA:
        raise Bad('taken from the whole data set')
    if t.op == 'sub':
        return prov(t.args[0], sizes)
    if t.op == 'app':
        f, a, kw = t.args[0], t.args[1], dict(t.args[2])
        if f == '.sample' and a:
            sizes.append(a[1] if len(a) > 1 else kw.get('size', NONE))
            return prov(a[0], sizes)
        if f == '._select_next' and len(a) == 2:
            return prov(a[1], sizes)
        if f == '.next_points_to_label' and len(a) >= 2:
            sizes.append(a[2] if len(a) > 2 else kw.get('subsample', NONE))
            return 'delegated' if a[1] is DATA else None
    return None


def selectors(t):
    """(base, selections) of nested row selections"""
    out = []
    while t.op == 'sub':
        out.append(t.args[1])
        t = t.args[0]
    return t, out[::-1]


def proposal(rep, ip, tag, v, s, where):
    if v.op == 'ref' and s.obj(v).kind == 'inst':
        x = s.obj(v)
        if 'data' not in x.fields or 'index' not in x.fields:
            rep.unk(R_POOL, tag, 'returns a ' + x.cls.name)
            return
        d, i = (dsmx.norm(s.deep(x.fields[f])) for f in ('data', 'index'))
        bd, sd = selectors(d)
        bi, si = selectors(i)
        if bd.op == 'oattr' and bi.op == 'oattr' and bd.args[1] == 'data' and bi.args[1] == 'index' and bd.args[0] is bi.args[0]:
            if sd == si:
                rep.ok(R_OWN, tag)
            else:
                rep.bad(R_OWN, tag, 'rows %s of the data but rows %s of the index' % (show(mk('list', *sd))[:120], show(mk('list', *si))[:120]), where)
            t = bd.args[0]
        else:
            rep.unk(R_OWN, tag, 'returns data %s and index %s' % (show(d)[:100], show(i)[:100]))
            return
    else:
        t = s.deep(v)
        rep.ok(R_OWN, tag)
    sizes = []
    try:
        p = prov(t, sizes)
    except Bad as e:
        rep.bad(R_POOL, tag, '%s: %s' % (e, show(t)[:150]), where)
        return
    if p is None:
        rep.unk(R_POOL, tag, 'origin of %s' % show(t)[:150])
        return
    rep.ok(R_POOL, tag)
    if any(x is SUB for x in sizes):
        rep.ok(R_SUB, tag)
    elif all(x is NONE for x in sizes):
        rep.bad(R_SUB, tag, 'the candidates are not sampled with the given size: ' + show(t)[:150], where)
    else:
        rep.unk(R_SUB, tag, 'sampling sizes %s' % [show(x)[:40] for x in sizes])


def learners(ip):
    """[(label, object, state)] one per pair of inherited selection methods, with arbitrary run state"""
    base = cls(ip, 'ActiveLearner')
    dsm = cls(ip, 'DualSpaceModelBase')
    seen = set()
    for c in classes(ip):
        if not c.subclass_of(base):
            continue
        key = tuple((c.find(m)[1] or c).name for m in ('next_points_to_label', '_select_next'))
        if key in seen:
            continue
        st = ip.start()
        if c.subclass_of(dsm):
            seen.add(key)
            for n, o, s in dsmx.models(ip, st):
                s, k = dsmx.with_cache(s, o)
                yield n, c, o, s
            continue
        a, k = c08.recipes(ip, c)[0][1](st)
        got = normal(new(ip, st, c, *a, **k))
        if not got:
            continue
        seen.add(key)
        for o, s in got[:1]:
            c08.havoc(ip, s, o)
            yield c.name, c, o, s


def rank_hook(fv, args, kw, s, n=None):
    f = ob(fv)
    if isinstance(f, Bound) and f.name == 'rank':
        return [(app('ranks', *[s.deep(x) for x in args[-1:]]), s)]
    return None


def propose(rep, ip, name, c, o, s):
    what = '%s.next_points_to_label' % name
    where = '%s.next_points_to_label' % c.find('next_points_to_label')[1].name
    e0 = len(s.events)
    ip.call_hook = rank_hook
    ip.steps = 0
    try:
        outs = list(meth(ip, s, o, 'next_points_to_label', DATA, SUB))
    finally:
        ip.call_hook = None
    n = 0
    for v, s1 in outs:
        if isinstance(v, Exc):
            continue
        n += 1
        tag = '%s, path %d' % (what, n)
        proposal(rep, ip, tag, v, s1, where)
        moves = [e for e in flat_events(s1.events[e0:]) if e[0] == 'call' and e[1] is DATA and e[2] in ('move_to_labeled', 'clear')]
        if moves:
            rep.bad(R_NOMOVE, tag, 'calls %s on the data set' % moves[0][2], moves[0][-1])
        else:
            rep.ok(R_NOMOVE, tag)
    if not n:
        raise Undecided('no outcome')


X, I = sym('X', 'arr2'), sym('index', 'arr1')
SIZE = sym('size', 'int')


def dataset(ip):
    st = ip.start()
    st.facts.assume(eq(length(X), length(I)))
    st.facts.assume(lt(ZERO, SIZE))
    return new1(ip, st, 'IndexedDataset', A(st, 'X'), A(st, 'index', 'arr1'), check_data=FALSE)


def rows_of(rep, ip, tag, v, s, where):
    """selections applied to data and index; reports a difference"""
    if v.op != 'ref' or s.obj(v).kind != 'inst' or 'data' not in s.obj(v).fields:
        rep.unk(R_OWN, tag, 'returns ' + show(s.deep(v))[:100])
        return None
    d, i = s.deep(s.obj(v).fields['data']), s.deep(s.obj(v).fields['index'])
    (bd, sd), (bi, si) = selectors(d), selectors(i)
    if bd is not X or bi is not I:
        if bd is I or bi is X or (bd.op, bi.op) == ('sym', 'sym'):
            rep.bad(R_OWN, tag, 'data %s, index %s' % (show(d)[:100], show(i)[:100]), where)
        else:
            rep.unk(R_OWN, tag, 'data %s, index %s' % (show(d)[:100], show(i)[:100]))
        return None
    if sd != si:
        rep.bad(R_OWN, tag, 'rows %s of the data but rows %s of the index' % (show(mk('list', *sd))[:120], show(mk('list', *si))[:120]), where)
        return None
    rep.ok(R_OWN, tag)
    return sd


def indexed(rep, ip):
    for what, item in (('IndexedDataset[row]', sym('row', 'nat')), ('IndexedDataset[mask]', mk('lt0', sym('z', 'arr1'))), ('IndexedDataset[rows]', mk('list', sym('r0', 'nat'), sym('r1', 'nat'))), ('IndexedDataset[slice]', mk('slice', sym('a', 'nat'), sym('b', 'nat'), NONE))):
        def go():
            o, s = dataset(ip)
            k = 0
            for v, s1 in normal(meth(ip, s, o, '__getitem__', item)):
                k += 1
                rows_of(rep, ip, '%s, path %d' % (what, k), v, s1, 'IndexedDataset.__getitem__')
            if not k:
                raise Undecided('no outcome')
        rep.guard(R_OWN, what, go)

    def sample(size, what):
        o, s = dataset(ip)
        n = 0
        for v, s1 in meth(ip, s, o, 'sample', size):
            if isinstance(v, Exc):
                rep.unk(R_SAMPLE, what, 'raises %s' % (v.v,))
                continue
            n += 1
            tag = '%s, path %d' % (what, n)
            sel = rows_of(rep, ip, tag, v, s1, 'IndexedDataset.sample')
            if sel is None:
                continue
            small = s1.facts.decide(le(length(X), size)) if size is not NONE else True
            if not sel:
                if size is NONE or small is True:
                    rep.ok(R_SAMPLE, tag)
                elif small is False:
                    rep.bad(R_SAMPLE, tag, 'all points are returned although more than `size` exist', 'IndexedDataset.sample')
                else:
                    # not known to be small: is it possible that it is not?
                    f = s1.fork()
                    rep.expect(False if f.facts.assume(lt(size, length(X))) is not False and f.facts.decide(lt(size, length(X))) else None, R_SAMPLE, tag, 'all points are returned although more than `size` may exist', 'IndexedDataset.sample')
                continue
            if len(sel) == 1 and sel[0].op == 'app' and sel[0].args[0] == 'np.random.randint':
                rep.bad(R_SAMPLE, tag, 'independent draws may repeat points', 'IndexedDataset.sample')
            elif len(sel) == 1 and sel[0].op == 'app' and sel[0].args[0] == 'np.random.choice':
                a, kw = list(sel[0].args[1]), dict(sel[0].args[2])
                names = ['a', 'size', 'replace', 'p']
                kw = {**dict(zip(names, a)), **kw}
                pool, k, rp = kw.get('a'), kw.get('size', NONE), kw.get('replace', TRUE)
                full = pool is length(X) or pool is length(I) or s1.facts.decide(eq(pool, length(X))) is True
                if rp is not FALSE and num(rp) != 0:
                    rep.bad(R_SAMPLE, tag, 'points are drawn with replacement', 'IndexedDataset.sample')
                elif k is not size and s1.facts.decide(eq(k, size)) is not True:
                    d = s1.facts.decide(le(k, size))
                    rep.expect(None if d is None else d, R_SAMPLE, tag, '%s points are drawn' % show(k)[:60], 'IndexedDataset.sample')
                elif not full:
                    rep.unk(R_SAMPLE, tag, 'drawn from ' + show(pool)[:80])
                else:
                    rep.ok(R_SAMPLE, tag)
            else:
                rep.unk(R_SAMPLE, tag, 'rows ' + show(mk('list', *sel))[:120])
        if not n:
            raise Undecided('no outcome')
    rep.guard(R_SAMPLE, 'IndexedDataset.sample(size)', lambda: sample(SIZE, 'IndexedDataset.sample(size)'))
    rep.guard(R_SAMPLE, 'IndexedDataset.sample(None)', lambda: sample(NONE, 'IndexedDataset.sample(None)'))


def manager(rep, ip):
    loops, done = loop.runs(ip, None, False, False, [sym('seed1', 'int')])
    n = 0
    for l in loops:
        for j, (s, g) in enumerate(l.paths):
            for e in flat_events(s.events[len(l.entry.events):]):
                if e[0] == 'call' and e[1] is loop.LEARNER and e[2] == 'next_points_to_label':
                    n += 1
                    tag = 'ExplorationManager, path %d of an iteration' % (j + 1)
                    kw = dict(e[4])
                    d, z = (list(e[3]) + [None, None])[:2]
                    d, z = d if d is not None else kw.get('data'), z if z is not None else kw.get('subsample', NONE)
                    if d is not loop.DATA:
                        rep.unk(R_PASS, tag, 'called on ' + show(s.deep(d))[:80])
                    else:
                        rep.expect(z is loop.SUB, R_PASS, tag, 'passes %s' % show(z)[:60], e[-1])
    if not n:
        raise Undecided('no call of next_points_to_label in the loop')


def random_sampler(rep, ip):
    f = fn(ip, 'aideme.initial_sampling', 'random_sampler')
    st = ip.start()
    st.facts.assume(lt(ZERO, SUB))
    for sm, s in normal(call(ip, f, [SUB], {}, st)):
        for v, s1 in normal(call(ip, sm, [DATA], {}, s)):
            t = s1.deep(v)
            tag = 'random_sampler'
            if t.op == 'oattr' and t.args[1] == 'index':
                proposal(rep, ip, tag, t.args[0], s1, 'random_sampler')
            elif t.op == 'oattr' and t.args[1] == 'data':
                rep.bad(R_OWN, tag, 'returns the data instead of the indexes', 'random_sampler')
            else:
                rep.unk(R_POOL, tag, 'returns ' + show(t)[:100])


def run(rep):
    ip = load()
    for name, c, o, s in learners(ip):
        rep.guard(R_POOL, name + '.next_points_to_label', lambda: propose(rep, ip, name, c, o, s))
    indexed(rep, ip)
    rep.guard(R_POOL, 'random_sampler', lambda: random_sampler(rep, ip))
    rep.guard(R_PASS, 'ExplorationManager', lambda: manager(rep, ip))

"""C22: noise injection flips labels with the requested probability and nothing else."""
from fractions import Fraction as Fr
import itertools
from .loop import *
from . import c10
from sa.rows import at
from sa.evalt import evalt

EXPLAIN = ('The injector returned by random_noise_injector is abstractly interpreted on a symbolic LabeledSet; the new label, partial label and index of an arbitrary row are terms in the old ones and in the random draws. For every old '
           'label and position of the draw relative to the noise level the terms are compared with the contract; the draw must be an independent element of one vector per row and flip on a set of measure `noise`. '
           'Mutations of arrays of the original labels are violations. The loop of PoolBasedExploration.run must call the injector in the exploration phase only, and record its result.')
ASSUME = ['labels and partial labels of the input are 0 or 1; with a single partition the partial label is the label', 'np.random.rand and its aliases draw independent uniform numbers in [0, 1)']
FLOOR = 14
R_LAB, R_PAR, R_IDX, R_SKIP, R_MUT, R_LOOP = ('each label is flipped with the requested probability', 'partial labels stay consistent', 'indexes are unchanged', 'no noise in the skipped iterations',
                                               'the original labels are not modified', 'noise is injected in the exploration phase only')
Y, PA, IX = sym('labels', 'arr1'), sym('partial', 'arr2'), sym('index', 'arr1')
N, SK, ITN = sym('noise', 'float'), sym('skip_initial', 'nat'), sym('iteration', 'nat')
I_, J_ = sym('i', 'nat'), sym('j', 'nat')
YI, PI = mk('sub', Y, I_), mk('sub', PA, I_)
K = mk('sub', mk('attr', PA, 'shape'), ONE)
UNIT = ('np.random.rand', 'np.random.random', 'np.random.random_sample', 'np.random.uniform', 'np.random.ranf', 'np.random.sample')
GRID = [Fr(2 * k + 1, 40) for k in range(20)]


class Skip(Exception):
    pass


def draws(t):
    """random draws met in a row term: [(atom, vector, independent per row?)]"""
    out = []
    for x in walk(t):
        if x.op == 'app' and x.args[0].startswith('np.random.') or x.op == 'app' and x.args[0].startswith('random.'):
            el = [y for y in walk(t) if y.op == 'sub' and y.args[0] is x]
            out.append((x, el))
    return out


def unit(x):
    """is the draw uniform on [0, 1)?"""
    if x.args[0] == 'np.random.uniform':
        pos = list(x.args[1])
        kw = dict(x.args[2])
        lo, hi = kw.get('low', pos[0] if pos else ZERO), kw.get('high', pos[1] if len(pos) > 1 else ONE)
        return lo is ZERO and hi is ONE
    return x.args[0] in UNIT


def scalar(x):
    """a single draw?"""
    kw = dict(x.args[2])
    if 'size' in kw and kw['size'] is not NONE:
        return False
    n = len(x.args[1])
    return n == 0 if x.args[0] in ('np.random.rand', 'np.random.random', 'np.random.random_sample', 'np.random.ranf', 'np.random.sample', 'random.random') else n < 3


def domain(x):
    """equally likely values standing for the draw"""
    if x.args[0] == 'random.random' or unit(x):
        return GRID
    if x.args[0] == 'np.random.randint':
        pos, kw = list(x.args[1]), dict(x.args[2])
        v = [num(y) for y in pos[:2]]
        lo, hi = (v[0], v[1]) if len(v) == 2 else (0, v[0]) if v and 'high' not in kw else (None, None)
        if lo is not None and hi is not None and 0 < hi - lo < 10:
            return [Fr(y) for y in range(int(lo), int(hi))]
    return None


def value(t, env):
    return evalt(t, env)


def cell(t, i, j, env, st):
    """entry (i, j): ('is', value) or ('one of', value, columns, rest)"""
    if t.op == 'store':
        base, idx, v = t.args
        if idx.op == 'tuple' and len(idx.args) == 2:
            m, c = idx.args
            b = value(at(m, i, st), env)
            if isinstance(b, bool):
                if not b:
                    return cell(base, i, j, env, st)
                return ('one of', v, c, base)
            raise Undecided('store at ' + show(idx)[:100])
        b = value(at(idx, i, st), env)
        if isinstance(b, bool):
            if not b:
                return cell(base, i, j, env, st)
            x = value(v, env)
            if x is not None:
                return ('is', x)
            return cell(v, i, j, env, st)
        raise Undecided('store at ' + show(idx)[:100])
    if t.op == 'ite':
        b = value(at(t.args[0], i, st), env)
        if isinstance(b, bool):
            return cell(t.args[1 if b else 2], i, j, env, st)
        raise Undecided('condition ' + show(t.args[0])[:100])
    if t.op == 'const':
        return ('is', Fr(t.args[0]))
    if t is PA:
        return ('old',)
    if t.op == 'app' and t.args[0] == 'reshape':
        x = value(at(t, i, st), env)
        if x is not None:
            return ('is', x)
    if t.op == 'app' and t.args[0] in ('copy', 'np.copy', 'np.array', 'np.asarray', 'astype'):
        return cell(t.args[1][0], i, j, env, st)
    raise Undecided('entry of ' + show(t)[:120])


def injectors(ip):
    st = ip.start()
    for x in (PA, IX):
        st.facts.assume(eq(length(x), length(Y)), log=False)
    st.facts.assume(le(ZERO, N))
    st.facts.assume(le(N, ONE))
    f = fn(ip, 'aideme.utils.noise', 'random_noise_injector')
    for L, s in normal(new(ip, st, 'LabeledSet', A(st, 'labels', 'arr1'), A(st, 'partial', 'arr2'), A(st, 'index', 'arr1'))):
        for inj, s1 in normal(call(ip, f, [N], {'skip_initial': SK}, s)):
            yield L, inj, s1


def given(st, L):
    """containers of the original labels"""
    out = {}
    for o, ob_ in st.heap.items():
        if ob_.tag and str(ob_.tag).startswith('param:'):
            out[o] = str(ob_.tag)[6:]
    out[L.args[0]] = 'the LabeledSet'
    for f, v in st.obj(L).fields.items():
        if v.op == 'ref':
            out.setdefault(st.root(v).args[0], f)
    return out


def feasible(conds, env):
    for c in conds:
        v = evalt(c, env)
        if v is False:
            return False
        if v is None and any(x in (ITN, SK) for x in walk(c)):
            raise Undecided('path condition ' + show(c)[:100])
    return True


def injector(rep, ip):
    for L, inj, s in injectors(ip):
        n, k = len(s.facts.log), len(s.events)
        own = given(s, L)
        for r, s2 in call(ip, inj, [ITN, L], {}, s):
            conds = s2.facts.log[n:]
            for e in flat_events(s2.events[k:]):
                if e[0] in ('mut', 'setattr') and e[1].op == 'ref' and e[1].args[0] in own:
                    rep.bad(R_MUT, own[e[1].args[0]], 'is modified in place', e[-1])
            if isinstance(r, Exc):
                continue
            lab = 'path ' + (show(and_(*conds))[:90] if conds else '')
            rep.guard(R_LAB, lab, lambda: path(rep, ip, L, r, s2, conds))
        for w in ('labels', 'partial', 'index'):
            if not any(o[0] == R_MUT and o[1] == w for o in rep.obs):
                rep.ok(R_MUT, w)


def path(rep, ip, L, r, st, conds):
    def field(name):
        v, s = attr(ip, st.fork(), r, name)
        return s.deep(v)
    labels, index, partial = field('labels'), field('index'), field('partial')
    ix = at(index, I_, st)
    if ix is mk('sub', IX, I_):
        rep.ok(R_IDX, show(and_(*conds))[:90])
    elif simple(ix):
        rep.bad(R_IDX, show(and_(*conds))[:90], 'index of row i becomes ' + show(ix)[:120])
    else:
        rep.unk(R_IDX, show(and_(*conds))[:90], show(ix)[:150])
    l = at(labels, I_, st)
    ds = draws(l)
    atoms = []
    for x, el in ds:
        dom = domain(x)
        if not el or scalar(x):
            rep.bad(R_LAB, show(and_(*conds))[:90], 'one random draw decides for all labels together: ' + show(x)[:100])
            return
        if any(e.args[1] is not I_ for e in el):
            raise Undecided('draws of other rows: ' + show(l)[:150])
        if dom is None:
            raise Undecided('draw ' + show(x)[:100])
        for e in el:
            if e not in [y for y, _ in atoms]:
                atoms.append((e, dom))
    if len(atoms) > 2:
        raise Undecided('several draws per label')
    seen = 0
    for it, sk in itertools.product(range(4), range(4)):
        for kk in (1, 2, 3):
            base = {ITN: it, SK: sk, K: kk}
            if not feasible(conds, base):
                continue
            seen += 1
            noisy = it > sk
            what = 'iteration %d, skip_initial %d, %d partitions' % (it, sk, kk)
            if not check(rep, what, noisy, labels, l, partial, atoms, base, kk, st):
                return
    rep.stats['situations'] = rep.stats.get('situations', 0) + seen


def check(rep, what, noisy, labels, l, partial, atoms, base, kk, st):
    for nz in (Fr(0), Fr(1, 4), Fr(7, 10), Fr(1)):
        for old in (0, 1):
            flips = 0
            combos = list(itertools.product(*[d for _, d in atoms]))
            for us in combos:
                env = dict(base)
                env.update({N: nz, YI: Fr(old)})
                env.update((x, u) for (x, _), u in zip(atoms, us))
                new_ = evalt(l, env)
                if new_ is None:
                    raise Undecided('label of a row: ' + show(l)[:150])
                if new_ not in (0, 1):
                    rep.bad(R_LAB, what, 'a label %d becomes %s' % (old, new_))
                    return False
                flips += new_ != old
                # partial labels of the row
                if kk == 1:
                    env[PI] = Fr(old)
                c = cell(partial, I_, J_, env, st)
                m = None
                if new_ == old:
                    if not (c == ('old',) or kk == 1 and c == ('is', old)):
                        m = 'an unchanged label %d has partial labels changed' % old
                elif new_ == 1:
                    if c != ('is', 1):
                        m = 'a point turned positive does not get all partial labels positive'
                else:
                    if c == ('is', 0) and kk > 1:
                        pass
                    elif kk == 1 and c == ('is', 0):
                        pass
                    elif c[0] == 'one of':
                        if num(c[1]) != 0:
                            m = 'a point turned negative gets the partial label ' + show(c[1])
                        elif cell(c[3], I_, J_, env, st) != ('old',):
                            m = 'the other partial labels of a point turned negative change'
                        else:
                            m = column(c[2], kk, env)
                    else:
                        m = 'a point turned negative gets no negative partial label'
                if m:
                    if m.startswith('unk:'):
                        raise Undecided(m[4:])
                    rep.bad(R_PAR, what, m)
                    return False
            want = (nz if noisy else 0) * len(combos)
            if flips != want:
                rep.bad(R_LAB if noisy else R_SKIP, what, 'with noise %s a label %d is flipped with probability %s' % (nz, old, Fr(flips, len(combos))))
                return False
    rep.ok(R_LAB if noisy else R_SKIP, what)
    rep.ok(R_PAR, what)
    return True


def column(c, kk, env):
    """the randomly chosen column must be one of 0..K-1"""
    if c.op == 'app' and c.args[0] in ('np.random.randint', 'np.random.choice', 'np.random.random_integers'):
        pos = list(c.args[1])
        kw = dict(c.args[2])
        v = [evalt(x, env) for x in pos]
        if c.args[0] == 'np.random.randint':
            if len(pos) == 1 and 'high' not in kw:
                lo, hi = 0, v[0]
            else:
                lo, hi = v[0] if pos else evalt(kw.get('low', ZERO), env), v[1] if len(pos) > 1 else evalt(kw['high'], env) if 'high' in kw else None
            if lo is None or hi is None:
                return 'unk: columns ' + show(c)[:100]
            if lo < 0 or hi > kk:
                return 'the negative partial label may fall outside the partitions (%s)' % show(c)[:80]
            return None
        if c.args[0] == 'np.random.choice' and v and v[0] is not None:
            return None if v[0] <= kk else 'the negative partial label may fall outside the partitions'
        return 'unk: columns ' + show(c)[:100]
    v = evalt(c, env)
    if v is not None and 0 <= v < kk:
        return None
    return 'unk: columns ' + show(c)[:100]


def loop(rep, ip, sampler):
    what = 'run(%s initial sampler)' % ('with' if sampler else 'no')
    loops, _ = runs(ip, None, True, sampler, [sym('seed1', 'int')])
    if len(loops) != 1:
        raise Undecided('%d run loops' % len(loops))
    l = loops[0]
    n = len(l.entry.facts.log)
    called = False
    for i, (s, g) in enumerate(l.paths):
        evs = s.events[len(l.entry.events):]
        t = [e for e in flat_events(evs) if e[0] == 'call']
        nz = [e for e in t if e[1] is NOISE]
        mv = [e for e in t if e[1] is DATA and e[2] == 'move_to_labeled']
        if not mv:
            continue
        lab = '%s, path %d of an iteration' % (what, i + 1)
        outs = [(s.facts.log[n:], g, evs, s)]
        explore = {b for b in (False, True) for a in (False, True) for k in (0, 1, 4) for U, left in ((5, 0), (5, 3)) for c1b in (False, True) for m1 in (False, True)
                   if (a or not b) and c10.LoopEnv(U, left, False, c1b, b, a, itersym(ip, l, t), k, 2, m1).holds(outs[0][0], evs) is not False}
        if nz and sampler and False in explore:
            rep.bad(R_LOOP, lab, 'noise is injected while positive and negative labels are not both present', nz[0][-1])
            continue
        if nz:
            called = True
            a = mv[0][3][0] if mv[0][3] else None
            d = s.deep(a) if a is not None else None
            if d is None or not any(c10.result(x, nz[0]) for x in walk(d)):
                rep.bad(R_LOOP, lab, 'the noisy labels are not the ones recorded', mv[0][-1])
                continue
        rep.ok(R_LOOP, lab)
    if not called:
        rep.bad(R_LOOP, what, 'the configured noise injector is never called')


def itersym(ip, l, t):
    for e in t:
        if e[1] is CC and e[3]:
            return attr(ip, l.entry, e[3][0], 'iters')[0]
    return sym('no iters', 'int')


def run(rep):
    ip = load()
    rep.guard(R_LAB, 'random_noise_injector', lambda: injector(rep, ip))
    for sampler in (True, False):
        rep.guard(R_LOOP, 'run(%s initial sampler)' % ('with' if sampler else 'no'), lambda: loop(rep, ip, sampler))

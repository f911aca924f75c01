"""C13: factorized components keep subspaces paired."""
import itertools
from sa.drive import *
from sa.rows import at
from .c12 import opaque as opaque_parts
from .c29 import S, partition, is_learner

EXPLAIN = ('Every factorized model (SubspaceLearner, SubspatialVersionSpace, SubspatialSimpleMargin, FactorizedPolytopeModel, FactorizedKernelTransform) is abstractly interpreted with opaque components for 1 to 3 overlapping, '
           'unordered attribute subsets and arbitrary data. On every path (every combination of valid and skipped components included) each call on component k must receive exactly the k-th attribute subset of every row and the k-th '
           'column of the partial labels, and the k-th slot of the output must be what component k returned. Changing the factorization is interpreted the same way: the components afterwards are new ones, one per new subset and '
           'of the class its mode asks for.')
ASSUME = ['numbers of subspaces beyond 3 behave as 3', 'components behave as functions of the data they are given']
FLOOR = 40
R_IN, R_OUT, R_SET, R_MODE = ('component k sees subset k (and label column k)', 'output k comes from component k', 'changing the factorization replaces the components', 'component k has the kind mode k asks for')
PARTS = [[[0, 2]], [[1], [0]], [[0, 2], [1], [2, 1]], [[2], [3, 0, 1], [0]]]
QUERY = {'fit', 'update', 'predict', 'predict_proba', 'predict_partial', 'rank', 'transform', 'fit_transform'}
CLASSES = {'positive': 'Polytope', 'negative': 'FlippedPolytope', 'persist': 'PersistentPolytope', 'categorical': 'CategoricalPolytope', 'multiset': 'MultiSetPolytope'}
X, Y = sym('X', 'arr2'), sym('y', 'arr2')
PLAIN = ('sub', 'sym', 'const', 'list', 'tuple', 'slice', 'poly', 'len')


def subset(g):
    return mk('list', *[C(i) for i in g])


def plain(t):
    return all(x.op in PLAIN for x in walk(t))


def holds_row(t, k, src, g, st):
    """is row k of t the row k of src restricted to the columns g (None: all columns)?  True / False / None"""
    v = at(t, k, st)
    r = mk('sub', src, k)
    if g is None:
        if v is r or (v.op == 'sub' and v.args[0] is r and v.args[1].op == 'slice'):
            return True
    elif v is mk('sub', r, subset(g) if isinstance(g, list) else g):
        return True
    if isinstance(g, list) and v.op in ('list', 'tuple') and [mk('sub', r, C(i)) for i in g] == list(v.args):
        return True
    return False if plain(v) else None


def cell(t, idx, st):
    """element of a multi-dimensional array built by slice assignments; None when not understood"""
    while True:
        if not idx:
            return t
        if t.op == 'store':
            base, key, val = t.args
            keys = key.args if key.op in ('tuple', 'list') else (key,)
            if len(keys) > len(idx):
                return None
            rest, hit = [], True
            for q, i in itertools.zip_longest(keys, idx):
                if q is None or (q.op == 'slice' and all(a is NONE for a in q.args)):
                    rest.append(i)
                elif q is i:
                    pass
                elif st.facts.decide(eq(q, i)) is False or (q.op == 'const' and i.op == 'const'):
                    hit = False
                else:
                    return None
            if not hit:
                t = base
                continue
            t, idx = val, rest
            continue
        if t.op == 'sub' and t.args[1].op not in ('slice', 'list', 'tuple'):
            t, idx = t.args[0], [t.args[1]] + list(idx)
            if t.op != 'store':
                return mk('sub', *_nest(t, idx))
            continue
        if t.op == 'app' and t.args[0] in ('np.column_stack', 'np.stack', 'np.vstack', 'np.array', 'np.asarray', 'np.dstack', '.T', 'np.transpose', 'np.hstack', 'np.concatenate'):
            name, args, kw = t.args[0], t.args[1], dict(t.args[2])
            items = args[0].args if args and args[0].op in ('list', 'tuple') else None
            if name in ('.T', 'np.transpose') and len(args) == 1:
                t, idx = args[0], list(idx)[::-1]
                continue
            if items is None:
                return None
            ax = kw.get('axis', args[1] if len(args) > 1 else ZERO)
            pos = {'np.column_stack': 1, 'np.dstack': 2, 'np.vstack': 0, 'np.array': 0, 'np.asarray': 0}.get(name)
            if name == 'np.stack':
                if ax.op != 'const':
                    return None
                pos = int(ax.args[0]) if ax.args[0] >= 0 else len(idx) + int(ax.args[0])
            if pos is None or pos >= len(idx) or idx[pos].op != 'const':
                return None
            j = int(idx[pos].args[0])
            if j >= len(items):
                return None
            t, idx = items[j], list(idx[:pos]) + list(idx[pos + 1:])
            continue
        if t.op in ('list', 'tuple') and idx[0].op == 'const':
            t, idx = t.args[int(idx[0].args[0])], idx[1:]
            continue
        if t.op == 'app' and t.args[0][1:] in QUERY:
            return mk('sub', *_nest(t, idx))
        v = at(t, idx[0], st)
        if v.op == 'sub' and v.args[0] is t:
            return v if len(idx) == 1 else mk('sub', *_nest(v, idx[1:]))
        t, idx = v, idx[1:]


def _nest(t, idx):
    for i in idx[:-1]:
        t = mk('sub', t, i)
    return t, idx[-1]


class Model:
    """one factorized model with its components made opaque"""

    def __init__(self, rep, ip, label, o, s, comps, part):
        self.rep, self.ip, self.label, self.o, self.s, self.comps, self.part = rep, ip, label, o, s, comps, part

    def paths(self, method, *args):
        s = self.s.fork()
        self.ip.steps = 0
        n0, e0 = len(s.facts.log), len(s.events)
        for r, s2 in meth(self.ip, s, self.o, method, *[s.new('arr', val=a, tag='param:' + str(a.args[0])) for a in args]):
            self.loops = any(e[0] in ('loop', 'loopprefix') for e in s2.events[e0:])
            yield r, s2, s2.facts.log[n0:], [e for e in flat_events(s2.events[e0:]) if e[0] == 'call' and e[1] in self.comps and e[2] in QUERY]

    def inputs(self, method, *args):
        """R_IN on all paths; each path must also reach every component it does not skip"""
        what = '%s.%s' % (self.label, method)
        bad = unk = None
        n = ran = 0
        k = fresh('k', 'nat')
        for r, s2, log, evs in self.paths(method, *args):
            if isinstance(r, Exc):
                continue
            ran = 1
            s2.facts.assume(lt(k, length(X)))
            seen = {}
            for e in evs:
                i = self.comps.index(e[1])
                n += 1
                g = self.part[i] if self.part else None
                given = [s2.deep(a) for a in e[3]] + [s2.deep(a) for nm, a in (e[4].items() if isinstance(e[4], dict) else e[4]) if nm not in ('@',)]
                if not given:
                    unk = unk or '%s of component %d is called without data' % (e[2], i)
                    continue
                h = holds_row(given[0], k, X, g, s2)
                if h is False:
                    bad = bad or 'component %d is given %s instead of the columns %s (%s)' % (i, show(given[0])[:80], g, e[-1])
                elif h is None:
                    unk = unk or 'component %d is given %s' % (i, show(given[0])[:150])
                if len(args) > 1:
                    if len(given) < 2:
                        unk = unk or 'component %d gets no labels' % i
                    else:
                        h = holds_row(given[1], k, Y, C(i), s2)
                        if h is False:
                            bad = bad or 'component %d is given the labels %s instead of column %d (%s)' % (i, show(given[1])[:80], i, e[-1])
                        elif h is None:
                            unk = unk or 'component %d is given the labels %s' % (i, show(given[1])[:150])
                seen.setdefault(i, set()).add(e[2])
            for i, c in enumerate(self.comps):
                if i in seen:
                    continue
                if self.loops or n < len(self.comps) and any(x.op == 'choose' for e in evs for x in walk(e[1])):
                    unk = unk or 'component %d not recognised' % i
                    continue
                skipped = [p for p in log if any(y.op == 'oattr' and y.args[0] is c for y in walk(p))]
                if not skipped and not any(y is c for p in log for y in walk(p)):
                    bad = bad or 'component %d is never reached although nothing says it may be skipped' % i
                elif s2.facts.decide(mk('in', mk('oattr', c, 'is_valid', ZERO), truthy())) is True:
                    bad = bad or 'component %d is valid but not reached' % i
        if bad:
            self.rep.bad(R_IN, what, bad)
        elif unk:
            self.rep.unk(R_IN, what, unk)
        elif n:
            self.rep.ok(R_IN, '%s (%d calls)' % (what, n))
        elif ran:
            self.rep.unk(R_IN, what, 'no call on a component seen')

    def outputs(self, method, source, index):
        """index(k, j, i): position of the value of component i for row k (and column j)"""
        what = '%s.%s' % (self.label, method)
        bad = unk = None
        n = 0
        k, j = fresh('k', 'nat'), fresh('j', 'nat')
        for r, s2, log, evs in self.paths(method, X):
            if isinstance(r, Exc):
                continue
            s2.facts.assume(lt(k, length(X)))
            v = s2.deep(r)
            for i, c in enumerate(self.comps):
                mine = [e for e in evs if e[1] is c]
                if not mine:
                    continue
                n += 1
                got = cell(v, index(k, j, i), s2)
                if got is None:
                    unk = unk or 'slot %d of %s' % (i, show(v)[:150])
                    continue
                heads = [x for x in walk(got) if x.op == 'app' and x.args[0] in ('row' + source, source)]
                top = got
                while top.op == 'sub':
                    top = top.args[0]
                if top in heads and len(heads) == 1:
                    if top.args[1][0] is c:
                        ks = [x for x in walk(got) if x is k]
                        if not ks:
                            unk = unk or 'slot %d: %s' % (i, show(got)[:150])
                    elif top.args[1][0] in self.comps:
                        bad = bad or 'slot %d holds the answer of component %d' % (i, self.comps.index(top.args[1][0]))
                    else:
                        unk = unk or 'slot %d: %s' % (i, show(got)[:150])
                elif not heads and all(x.op in PLAIN or x.op == 'store' or x.op == 'app' and x.args[0] in ('np.full', 'np.empty', 'np.zeros', 'np.ones') for x in walk(got)):
                    bad = bad or 'slot %d never receives the answer of component %d (%s)' % (i, i, show(got)[:100])
                else:
                    unk = unk or 'slot %d: %s' % (i, show(got)[:150])
        if bad:
            self.rep.bad(R_OUT, what, bad)
        elif unk:
            self.rep.unk(R_OUT, what, unk)
        elif n:
            self.rep.ok(R_OUT, '%s (%d slots)' % (what, n))
        else:
            self.rep.unk(R_OUT, what, 'no component reached')


def truthy():
    from .c12 import TRUTHY
    return TRUTHY


ROW = lambda k, j, i: [C(i), k]
COL = lambda k, j, i: [k, C(i)]
CUBE = lambda k, j, i: [k, j, C(i)]


def comp_list(s, o, pred):
    f = s.obj(o).fields
    got = [(n, v) for n, v in f.items() if v.op == 'ref' and s.obj(v).kind in ('list', 'tuple') and s.obj(v).val.op in ('list', 'tuple') and s.obj(v).val.args and all(pred(x, s) for x in s.obj(v).val.args)]
    got += [(n, v) for n, v in f.items() if v.op in ('list', 'tuple') and v.args and all(pred(x, s) for x in v.args)]
    if len(got) != 1:
        raise Undecided('cannot identify the list of components (%s)' % [n for n, v in got])
    n, v = got[0]
    return n, v, list(s.obj(v).val.args if v.op == 'ref' else v.args)


def hide(s, o, pred, pre='component'):
    """replace the components by opaque ones"""
    n, v, items = comp_list(s, o, pred)
    cs = [sym('%s%d' % (pre, i), 'obj') for i in range(len(items))]
    lst = mk(v.op if v.op != 'ref' else s.obj(v).val.op, *cs)
    ob = s.heap[o.args[0]].copy()
    s.heap[o.args[0]] = ob
    ob.fields[n] = lst if v.op != 'ref' else s.new(s.obj(v).kind, val=lst)
    return cs


def is_part(x, s):
    c = s.obj(x).cls if x.op == 'ref' else None
    return c is not None and c.find('update')[0] is not None


def is_transformer(x, s):
    return x.op == 'app' and x.args[0] == '.clone' or x.op == 'ref' and s.obj(x).cls is not None and s.obj(x).cls.find('transform')[0] is not None


def class_of(x, s):
    return s.obj(x).cls.name if x.op == 'ref' and s.obj(x).cls is not None else None


def strs(st, xs):
    return C(xs) if isinstance(xs, str) else st.new('list', val=mk('list', *[C(x) for x in xs]))


def run(rep):
    ip = load()
    base = sym('base', 'obj')

    def built(rep, rule, label, f, args, kw, st):
        out = []
        for o, s in call(ip, f, args, kw, st):
            if isinstance(o, Exc):
                rep.bad(rule, label, 'construction raises ' + show(o.v)[:100])
            else:
                out.append((o, s))
        return out

    def learner_methods(M):
        M.inputs('fit', X, Y)
        for m, src in (('predict_all', '.predict'), ('predict_proba_all', '.predict_proba'), ('rank_all', '.rank')):
            M.inputs(m, X)
            M.outputs(m, src, ROW)
        for m in ('predict', 'predict_proba', 'rank'):
            M.inputs(m, X)

    def replaced(s2, o, old, p2, label, pred, after):
        n, v, items = comp_list(s2, o, lambda x, s: pred(x, s) or x in old)
        if old & set(items):
            rep.bad(R_SET, label, '%d components trained on the old subsets are kept' % len(old & set(items)))
            return
        if len(items) != len(p2):
            rep.bad(R_SET, label, '%d components for %d subsets' % (len(items), len(p2)))
            return
        cs = hide(s2, o, pred, 'fresh')
        rep.ok(R_SET, label)
        after(Model(rep, ip, label, o, s2, cs, p2))

    # subspace learners
    OPTS = dict(label_function=C('AND'), probability_function=C('MIN'), ranking_function=C('SUM'))
    for cname in ('SubspaceLearner', 'SubspatialVersionSpace', 'SubspatialSimpleMargin'):
        f = fn(ip, S, cname)
        kw = dict(OPTS, base_learner=base) if cname == 'SubspaceLearner' else {}
        for part in PARTS + [None]:
            label = '%s%s' % (cname, part or ' without partition')

            def go():
                st = ip.start()
                for o, s in built(rep, R_IN, label, f, [], dict(kw, partition=NONE if part is None else partition(st, part)), st):
                    cs = hide(s, o, is_learner)
                    if len(cs) != (len(part) if part else 1):
                        rep.bad(R_IN, label, '%d components for %d subsets' % (len(cs), len(part or [0])))
                        continue
                    learner_methods(Model(rep, ip, label, o, s, cs, part))
            if cname == 'SubspaceLearner' or part == PARTS[2] or rep.thorough:
                rep.guard(R_IN, label, go)

        # changing the factorization
        for p1, p2 in ((PARTS[2], PARTS[1]), (PARTS[1], PARTS[3]), (PARTS[2], PARTS[3])):
            label = '%s %s -> %s' % (cname, p1, p2)

            def go2():
                st = ip.start()
                for o, s in built(rep, R_SET, label, f, [], dict(kw, partition=partition(st, p1)), st):
                    old = set(hide(s, o, is_learner))
                    ip.steps = 0
                    info = dict(partition=partition(s, p2))
                    if cname == 'SubspatialVersionSpace':
                        info['mode'] = C('numerical')
                    for r, s2 in meth(ip, s, o, 'set_factorization_structure', **info):
                        if isinstance(r, Exc):
                            rep.bad(R_SET, label, 'raises ' + show(r.v)[:100])
                            continue
                        replaced(s2, o, old, p2, label, is_learner, lambda M: learner_methods(M))
            rep.guard(R_SET, label, go2)

    # the kind of learner of each subspace
    def kind_is(rule, label, s, o, pred, want, numerical):
        n, v, items = comp_list(s, o, pred)
        got = [class_of(x, s) for x in items]
        if None in got:
            rep.unk(rule, label, 'kinds %s' % got)
        elif len(got) == len(want) and all(g == w if w else g not in numerical for g, w in zip(got, want)):
            rep.ok(rule, label)
        else:
            rep.bad(rule, label, 'components are %s' % got)
    ACT = {'CATEGORICAL': 'CategoricalActiveLearner', 'MULTISET': 'MultiSetActiveLearner', 'NUMERICAL': None, 'PERSIST': None, 'POSITIVE': None, 'NEGATIVE': None}
    f = fn(ip, S, 'SubspatialVersionSpace')
    for modes in (['categorical', 'numerical', 'multiset'], ['numerical', 'multiset', 'categorical'], ['persist', 'Categorical', 'numerical'], 'multiset', 'categorical', 'numerical', 'negative'):
        for via in ('constructor', 'set_factorization_structure'):
            for only in (False, True):
                label = 'SubspatialVersionSpace mode=%s numerical_only=%s via %s' % (modes, only, via)

                def go3():
                    st = ip.start()
                    each = [modes] * 3 if isinstance(modes, str) else modes
                    want = [None if only else ACT[m.upper()] for m in each]
                    kw = dict(numerical_only=C(only))
                    pm = lambda s: dict(partition=partition(s, PARTS[2]), mode=strs(s, modes))
                    if via == 'constructor':
                        kw.update(pm(st))
                    for o, s in built(rep, R_MODE, label, f, [], kw, st):
                        if via == 'constructor':
                            kind_is(R_MODE, label, s, o, is_learner, want, ACT.values())
                            continue
                        for r, s2 in meth(ip, s, o, via, **pm(s)):
                            if isinstance(r, Exc):
                                rep.bad(R_MODE, label, 'raises ' + show(r.v)[:100])
                            else:
                                kind_is(R_MODE, label, s2, o, is_learner, want, ACT.values())
                rep.guard(R_MODE, label, go3)

    # factorized polytopes
    f = fn(ip, 'aideme.active_learning.dsm.model', 'FactorizedPolytopeModel')

    def polytope_methods(M):
        for m in ('predict', 'predict_partial'):
            M.inputs(m, X)
        M.inputs('update', X, Y)
        M.outputs('predict_partial', '.predict', COL)
    for part in PARTS + [None]:
        label = 'FactorizedPolytopeModel%s' % (part or ' without partition')

        def go4():
            st = ip.start()
            for o, s in built(rep, R_IN, label, f, [NONE if part is None else partition(st, part)], {}, st):
                cs = hide(s, o, is_part)
                if len(cs) != (len(part) if part else 1):
                    rep.bad(R_IN, label, '%d components for %d subsets' % (len(cs), len(part or [0])))
                    continue
                polytope_methods(Model(rep, ip, label, o, s, cs, part))
        rep.guard(R_IN, label, go4)
    for modes in (['categorical', 'persist', 'multiset'], ['positive', 'negative', 'categorical'], ['persist', 'multiset', 'positive'], 'negative', 'persist'):
        label = 'FactorizedPolytopeModel mode=%s' % modes

        def go5():
            st = ip.start()
            for o, s in built(rep, R_MODE, label, f, [partition(st, PARTS[2])], dict(mode=strs(st, modes)), st):
                each = [modes] * 3 if isinstance(modes, str) else modes
                kind_is(R_MODE, label, s, o, is_part, [CLASSES[m] for m in each], ())
        rep.guard(R_MODE, label, go5)
    # incompatible lengths are refused
    for p, modes in ((PARTS[2], ['persist', 'persist']), (PARTS[1], ['persist'] * 3)):
        for cname, g in (('FactorizedPolytopeModel', f), ('SubspatialVersionSpace', fn(ip, S, 'SubspatialVersionSpace'))):
            label = '%s with %d subsets and %d modes' % (cname, len(p), len(modes))

            def go6():
                st = ip.start()
                outs = list(call(ip, g, [], dict(partition=partition(st, p), mode=strs(st, modes)), st))
                if outs and all(isinstance(o, Exc) for o, s in outs):
                    rep.ok(R_MODE, label)
                elif outs:
                    rep.bad(R_MODE, label, 'is accepted')
            rep.guard(R_MODE, label, go6)
    # the factorized dual space model builds new polytopes
    for p1, p2, modes in ((PARTS[2], PARTS[1], ['negative', 'persist']), (PARTS[1], PARTS[3], ['multiset', 'persist', 'positive'])):
        label = 'FactorizedDualSpaceModel %s -> %s' % (p1, p2)

        def go7():
            st = ip.start()
            for o, s in built(rep, R_SET, label, fn(ip, 'aideme.active_learning.dsm.dsm', 'FactorizedDualSpaceModel'), [base], dict(partition=partition(st, p1)), st):
                pol, s = attr(ip, s, o, 'polytope_model')
                old = set(hide(s, pol, is_part))
                for r, s2 in meth(ip, s, o, 'set_factorization_structure', partition=partition(s, p2), mode=strs(s, modes)):
                    if isinstance(r, Exc):
                        rep.bad(R_SET, label, 'raises ' + show(r.v)[:100])
                        continue
                    pol2, s2 = attr(ip, s2, o, 'polytope_model')
                    kind_is(R_MODE, label, s2, pol2, lambda x, s: is_part(x, s) or x in old, [CLASSES[m] for m in modes], ())
                    replaced(s2, pol2, old, p2, label, is_part, polytope_methods)
        rep.guard(R_SET, label, go7)

    # factorized kernels
    f = fn(ip, 'aideme.active_learning.kernel', 'FactorizedKernelTransform')
    for part in PARTS:
        label = 'FactorizedKernelTransform%s' % part

        def go8():
            st = ip.start()
            for o, s in built(rep, R_IN, label, f, [base, partition(st, part)], {}, st):
                for o2, s2, tag in [(o, s, '')] + [(c, z, '.clone()') for c, z in normal(meth(ip, s.fork(), o, 'clone'))]:
                    z = s2.fork()
                    cs = hide(z, o2, is_transformer)
                    if len(cs) != len(part):
                        rep.bad(R_IN, label + tag, '%d components for %d subsets' % (len(cs), len(part)))
                        continue
                    M = Model(rep, ip, label + tag, o2, z, cs, part)
                    for m in ('fit', 'transform', 'fit_transform'):
                        M.inputs(m, X)
                    M.outputs('transform', '.transform', CUBE)
                    M.outputs('fit_transform', '.fit_transform', CUBE)
        rep.guard(R_IN, label, go8)
    rep.stats.update(models=5, partitions=[str(p) for p in PARTS])

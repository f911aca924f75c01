"""C08: clear() returns a component to its initial state."""
from .comp import *
from . import comp, pd, loop
import ast

EXPLAIN = ('Every class of the package that offers clear() is abstractly constructed; then every attribute that any of its methods other than the constructor changes (and, recursively, those of the clearable components it owns) is '
           'overwritten by an arbitrary value, clear() is abstractly executed, and the resulting heap is compared, object by object, with the heap after construction. Components supplied by the caller must receive a clear() call. '
           'Attributes that only training creates must be rewritten by fit() before they are read. For the dataset, the sizes, labels and order after clear() are decided on an arbitrary state; for exploration runs, the dataset and the '
           'learner must be cleared before the first label of each run is recorded.')
ASSUME = ['objects that offer no clear() of their own (optimizers, scikit-learn estimators, kernels) reset themselves when they are used again (optimizers: see C24)',
          'parameters changed by set_* methods are configuration, not run state']
FLOOR = 40
R_STATE, R_COMP, R_TRAIN, R_RUN = ('clear() restores the state after construction', 'clear() clears the given components', 'state created by training is rewritten before it is read', 'every run starts from cleared components')

# caller-supplied components that can be cleared, by constructor parameter
GIVEN = {'active_learner', 'polytope_model', 'swap_model', 'refining_model', 'fact_model', 'al_struct', 'al_text', 'data', 'logreg', 'pol', 'sampler'}
SKIP = {'PartitionedDataset'}


def listof(st, *xs):
    return st.new('list', val=mk('list', *xs))


def partition(st):
    return listof(st, listof(st, ZERO), listof(st, ONE, C(2)))


def recipes(ip, c):
    """[(label, function st -> (args, kw))]: ways to construct the class"""
    init, d = c.find('__init__')
    f = ob(init) if init is not None else None
    node = getattr(f, 'node', None)
    if node is None:
        return [('', lambda st: ([], {}))]
    a = node.args
    names = [x.arg for x in a.args[1:]] + [x.arg for x in a.kwonlyargs]
    dn = len(a.defaults)
    optional = {x.arg for x in a.args[1:][len(a.args) - 1 - dn:]} if dn else set()
    optional |= {x.arg for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}

    def base(st, extra=()):
        kw = {}
        for n in names:
            if n in optional and n not in extra:
                continue
            if n == 'partition':
                kw[n] = partition(st)
            elif n in ('X', 'data') and c.name not in ('ExplorationManager',):
                kw[n] = A(st, n)
            elif n in ('dim', 'n', 'switch_iter', 'text_column_start'):
                kw[n] = sym(n, 'nat')
            elif n == 'vertex':
                kw[n] = A(st, n, 'arr1')
            elif n == 'user_fact':
                kw[n] = partition(st)
            elif n == 'factorized':
                kw[n] = FALSE
            else:
                kw[n] = sym(n, 'obj')
        return kw
    out = [('', lambda st: ([], base(st)))]
    if 'partition' in optional:
        out.append(('partition=...', lambda st: ([], base(st, ('partition',)))))
    if 'mode' in names:
        one = c.name in ('PolytopeModel', 'DualSpaceModel')
        modes = ('positive', 'negative', 'persist', 'categorical', 'multiset') if c.name != 'SubspatialVersionSpace' else ('numerical', 'categorical', 'multiset')
        for m in modes:
            def mk_(st, m=m):
                kw = base(st, ('partition',))
                kw['mode'] = C(m)
                return [], kw
            out.append(('mode=' + m, mk_))
    for extra in ('fact_model', 'refining_model'):
        if extra in optional:
            def mk_(st, extra=extra):
                kw = base(st, (extra,))
                if extra == 'fact_model':
                    kw['user_fact'] = partition(st)
                return [], kw
            out.append((extra + '=...', mk_))
    if 'sampler' in names and 'sampler' in optional:
        for m in ('laplace', 'kernel-laplace'):
            out.append(('sampler=' + m, lambda st, m=m: ([], dict(base(st), sampler=C(m)))))
    if 'full_fact' in names:
        out.append(('full_fact', lambda st: ([], dict(base(st), full_fact=TRUE))))
        out.append(('full_fact, use_fact_vs', lambda st: ([], dict(base(st), full_fact=TRUE, use_fact_vs=TRUE))))
        out.append(('use_vs=False', lambda st: ([], dict(base(st), use_vs=FALSE))))
    return out


def config_methods(c):
    """methods that set parameters: set_*, property setters, and private helpers used by these and the constructor only"""
    out, calls, private = set(), {}, set()
    for k in c.getmro():
        n = node_of(k) if isinstance(k, ClassV) else None
        for m in n.body if n is not None else ():
            if not isinstance(m, ast.FunctionDef):
                continue
            if m.name.startswith('set_') or any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in m.decorator_list):
                out.add(m.name)
            if m.name.startswith('_') and not m.name.endswith('__'):
                private.add(m.name)
            for x in ast.walk(m):
                if isinstance(x, ast.Attribute):
                    calls.setdefault(x.attr, set()).add(m.name)
    while True:
        new_ = {m for m in private - out if calls.get(m) and calls[m] <= out | {'__init__'}}
        if not new_:
            return out
        out |= new_


HAVOC = 'state of an earlier run'


def stale(t, s, d=0):
    return any(x.op == 'sym' and isinstance(x.args[0], str) and x.args[0].startswith(HAVOC) for x in walk(t))


def clearable(c):
    f, d = c.find('clear')
    return f is not None


def resets_itself(ip, c):
    """optimizers start afresh on every use (C24)"""
    return c.find('_reset')[0] is not None or c.find('minimize')[0] is not None


def havoc(ip, s, o):
    """overwrite all run state reachable from o; returns {(ref, field)} of fields that did not exist after construction"""
    extra = []
    for path, r in reach(s, o):
        x = s.obj(r)
        if x.kind != 'inst' or not isinstance(x.cls, ClassV) or x.cls.name in SKIP or resets_itself(ip, x.cls):
            continue
        conf = config_methods(x.cls)
        for f, (ms, how) in sorted(all_changed(x.cls).items()):
            if not ms - conf:
                continue
            v = x.fields.get(f)
            name = '%s (%s%s)' % (HAVOC, path + '.' if path else '', f)
            if v is None:
                extra.append((path, r, f))
                s.setfield(r, f, sym(name, 'obj'))
                continue
            if v.op == 'ref':
                y = s.obj(v)
                if y.kind == 'inst' and isinstance(y.cls, ClassV) and (clearable(y.cls) or how == {'call'}):
                    continue
                if y.kind == 'inst':
                    s.setfield(r, f, sym(name, 'obj'))
                    continue
                h = sym(name, {'list': 'list', 'arr': 'arr'}.get(y.kind, y.kind))
                if how & {'mut', 'call'}:
                    s.setval(v, h)
                if 'set' in how:
                    s.setfield(r, f, s.new(y.kind, val=h))
            elif how == {'call'}:
                continue
            else:
                k = 'int' if v.op == 'const' and isinstance(num(v), int) and not isbool(v) else 'bool' if isbool(v) else 'obj'
                s.setfield(r, f, sym(name, k))
    return extra


def same(s0, a, s1, b, pairs, path=''):
    """differences between two heaps: [(path, before, after)]"""
    if a is b and a.op not in ('ref', 'list', 'tuple', 'set', 'dict'):
        return []
    if a.op == 'ref' and b.op == 'ref':
        if (a, b) in pairs:
            return []
        pairs.add((a, b))
        x, y = s0.obj(a), s1.obj(b)
        if x.kind != y.kind or x.cls is not y.cls:
            return [(path, show(s0.deep(a))[:80], show(s1.deep(b))[:80], b, s1)]
        if x.kind == 'inst':
            out = []
            for f in sorted(set(x.fields) | set(y.fields)):
                p = (path + '.' if path else '') + f
                if f not in x.fields:
                    out.append((p, None, y.fields[f], y.fields[f], s1))
                elif f not in y.fields:
                    out.append((p, show(s0.deep(x.fields[f]))[:80], 'deleted', None, s1))
                else:
                    out += same(s0, x.fields[f], s1, y.fields[f], pairs, p)
            return out
        va, vb = s0.val(a), s1.val(b)
        if va is a and vb is b:
            return []
        return same(s0, va, s1, vb, pairs, path)
    if a.op == b.op and a.op in ('list', 'tuple', 'set') and len(a.args) == len(b.args):
        return [d for i, (x, y) in enumerate(zip(a.args, b.args)) for d in same(s0, x, s1, y, pairs, '%s[%d]' % (path, i))]
    if a.op == 'pyobj' and b.op == 'pyobj':
        x, y = ob(a), ob(b)
        if type(x) is type(y) and getattr(x, 'node', x) is getattr(y, 'node', y):
            return []
    if s0.deep(a) is s1.deep(b):
        return []
    return [(path, show(s0.deep(a))[:80], show(s1.deep(b))[:80], b, s1)]


def known_value(t):
    return all(x.op in ('const', 'list', 'set', 'dict', 'tuple', 'none') or x is NONE or (x.op == 'app' and x.args[0] in ('np.array', 'np.zeros')) for x in walk(t))


def one(rep, ip, c, label, make):
    what = c.name + ('(%s)' % label if label else '')
    st = ip.start()
    ip.steps = 0
    args, kw = make(st)
    got = normal(new(ip, st, c, *args, **kw))
    if not got and label:
        return      # not an option of this class
    if not got:
        raise Undecided('no normal construction of ' + what)
    for i, (o, s0) in enumerate(got[:3]):
        tag = what + (', outcome %d' % (i + 1) if len(got) > 1 else '')
        s = s0.fork()
        extra = havoc(ip, s, o)
        n0 = len(s.events)
        outs = list(meth(ip, s, o, 'clear'))
        f, d = c.find('clear')
        where = '%s.clear' % d.name
        for v, s1 in outs:
            if isinstance(v, Exc):
                if 'NotImplementedError' in str(v.v) or 'NotImplementedError' in str(getattr(v.v, 'args', '')):
                    continue
                rep.unk(R_STATE, tag, 'clear raises %s' % (v.v,))
                continue
            diffs = same(s0, o, s1, o, set())
            comps = {f for p, r in reach(s0, o) if s0.obj(r).kind == 'inst' for f, x in s0.obj(r).fields.items() if x.op == 'sym' and x.args[0] in GIVEN}
            cleared = {e[1] for e in flat_events(s1.events[n0:]) if e[0] == 'call' and e[2] == 'clear'}
            xs = {(p + '.' if p else '') + f for p, r, f in extra}
            nd = 0
            for p, b, a, t, sx in diffs:
                if p in xs:
                    continue
                nd += 1
                dt = sx.deep(t) if t is not None else None
                if t is not None and t.op == 'sym' and stale(t, sx) and p.split('.')[-1] in comps and any(t is k for k in cleared):
                    nd -= 1
                    rep.ok(R_COMP, '%s.%s' % (tag, p), 'the component that replaced the given one is cleared')
                    continue
                if t is not None and stale(dt, sx):
                    rep.bad(R_STATE, '%s.%s' % (tag, p), 'keeps its value (%s after construction)' % b, where)
                elif t is None or known_value(dt):
                    rep.bad(R_STATE, '%s.%s' % (tag, p), '%s after construction, %s after clear' % (b, a), where)
                else:
                    rep.unk(R_STATE, '%s.%s' % (tag, p), '%s after construction, %s after clear' % (b, a))
            if not nd:
                rep.ok(R_STATE, tag)
            # components given by the caller
            for p, r in reach(s0, o):
                x = s0.obj(r)
                if x.kind != 'inst':
                    continue
                for fld, v in x.fields.items():
                    if v.op == 'sym' and v.args[0] in GIVEN and v.args[1] == 'obj' and isinstance(x.cls, ClassV) and clearable(x.cls) and x.cls.name not in SKIP:
                        w = s.obj(r).fields[fld]
                        if any(k is v or k is w for k in cleared):
                            rep.ok(R_COMP, '%s.%s' % (tag, fld))
                        else:
                            rep.bad(R_COMP, '%s.%s' % (tag, fld), 'is not cleared', where)
            # clones made by the given factory
            for p, r in reach(s0, o):
                x = s0.obj(r)
                if x.kind == 'list':
                    for k, v in enumerate(s0.val(r).args if s0.val(r).op == 'list' else ()):
                        if v.op in ('app', 'call', 'res') and any(y.op == 'sym' and y.args[0] == 'base_learner' for y in walk(v)):
                            rep.expect(any(y is v for y in cleared), R_COMP, '%s.%s[%d]' % (tag, p, k), 'is not cleared', where)
            mine = [x for x in extra if not x[0] and x[2] in changed(c)]
            if mine:
                rep.guard(R_TRAIN, tag, lambda: training(rep, ip, tag, o, s1, mine))


def training(rep, ip, tag, o, s, extra):
    names = sorted({f for p, r, f in extra})
    s = s.fork()
    n0, e0 = len(s.facts.log), len(s.events)
    outs = normal(meth(ip, s, o, 'fit', A(s, 'X'), A(s, 'y', 'arr1')))
    if not outs:
        raise Undecided('no outcome of fit')
    for v, s1 in outs:
        for p, r, f in extra:
            t = s1.deep(s1.obj(r).fields[f])
            n = '%s.%s%s' % (tag, p + '.' if p else '', f)
            if stale(t, s1):
                rep.unk(R_TRAIN, n, 'fit leaves or uses the value of an earlier run: ' + show(t)[:120])
            elif any(stale(x, s1) for x in s1.facts.log[n0:]):
                rep.unk(R_TRAIN, n, 'fit branches on the value of an earlier run')
            else:
                rep.ok(R_TRAIN, n)


def run_level(rep, ip):
    for noise, sampler in ((False, False), (True, True)):
        what = 'run(%s noise, %s initial sampler)' % ('with' if noise else 'no', 'with' if sampler else 'no')
        loops, done = loop.runs(ip, None, noise, sampler, [sym('seed1', 'int'), sym('seed2', 'int')])
        if len(loops) < 2:
            raise Undecided('%d run loops found' % len(loops))
        e_prev = 0
        for i, l in enumerate(loops):
            evs = l.pre.events
            # since the end of the previous loop: dataset construction or clear
            k0 = max([k for k, e in enumerate(evs) if e[0] in ('loop', 'loopprefix')] + [-1]) + 1 if i else 0
            seg = list(evs[k0:])
            cl = {n: [k for k, e in enumerate(seg) if e[0] == 'call' and e[1] is x and e[2] == 'clear'] for n, x in (('dataset', loop.DATA), ('learner', loop.LEARNER))}
            made = [k for k, e in enumerate(seg) if e[0] == 'dataset']
            use = [k for k, e in enumerate(seg) if e[0] == 'call' and e[1] in (loop.DATA, loop.LEARNER) and e[2] in ('move_to_labeled', 'fit_data', 'fit', 'next_points_to_label', 'move_to_inferred')]
            for n in ('dataset', 'learner'):
                ks = cl[n] + (made if n == 'dataset' else [])
                lab = '%s, run %d: %s' % (what, i + 1, n)
                if not ks:
                    rep.bad(R_RUN, lab, 'is not cleared before the run starts', 'PoolBasedExploration.run')
                elif use and min(use) > max(ks):
                    rep.ok(R_RUN, lab)
                elif use and max(ks) > min(use):
                    rep.bad(R_RUN, lab, 'is cleared after it has been used in the run', seg[max(ks)][-1])
                else:
                    rep.ok(R_RUN, lab)


def run(rep):
    ip = load()
    base = cls(ip, 'ActiveLearner')
    n = 0
    for c in classes(ip):
        if not clearable(c) or c.name in SKIP:
            continue
        if c.find('clear')[1].name == 'ActiveLearner' and not any(ms - config_methods(c) for ms, how in all_changed(c).values()):
            continue
        n += 1
        for label, make in recipes(ip, c):
            what = c.name + ('(%s)' % label if label else '')
            rep.guard(R_STATE, what, lambda: one(rep, ip, c, label, make))
    rep.stats['classes with clear()'] = n
    rep.guard(R_RUN, 'PoolBasedExploration.run', lambda: run_level(rep, ip))
    pd.run_filtered(rep, ('clear',))

"""A sweep over the public interface: every class in every way to construct it, every public method and every public function, on arguments owned by the caller.

Used by the checks that quantify over all public operations (C14, C15, C18): each call is analysed abstractly, and the visitor looks at its effects."""
import ast, os, time
from multiprocessing import get_context
from .comp import *
from .c08 import recipes, listof, partition, havoc
from sa.drive import *

ARR2 = {'X', 'Z', 'points', 'X_test', 'chain', 'pos_points', 'H', 'vertices', 'convex_body_A', 'A', 'samples'}
ARR1 = {'y', 'x0', 'x', 'v', 'w', 'weights', 'y_test', 'y_pred', 'y_true', 'true_labels', 'labels', 'index', 'indexes', 'idx', 'idx_i', 'idx_j', 'mask', 'sample_weight', 'sample_weights', 'grad', 'center', 'direction', 'point', 'vertex',
        'scores', 'pos', 'neg', 'elp', 'relevant_attrs', 'y_partial', 'indexes'}
GROUPS = {'partition', 'user_fact', 'factorization', 'one_hot_groups', 'groups', 'user_factorization'}
LISTS = {'callback', 'convergence_criteria', 'score_functions', 'seeds', 'Cs', 'clfs', 'learners', 'criteria'}
DICTS = {'rounding_options', 'sphere_cuts_optimizer', 'params', 'config'}
COUNTS = {'dim', 'n', 'switch_iter', 'text_column_start', 'size'}
BUDGET = 100000


def value(st, name, kind='obj', owner=None):
    if name in ARR2 or (name in ('Y', 'data') and owner in ('kernel', 'dataset')):
        return A(st, name)
    if name in ARR1:
        return A(st, name, 'arr1')
    if name in GROUPS:
        return partition(st)
    if name in LISTS:
        return listof(st, sym(name + '[0]', 'obj'), sym(name + '[1]', 'obj'))
    if name in DICTS:
        return st.new('dict', val=mk('dict', ((C('given key'), sym(name + ' value', 'obj')),)))
    if name in COUNTS:
        return sym(name, 'nat')
    return sym(name, 'obj')


def params(node, skip=1):
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    dn = len(a.defaults)
    opt = set(pos[len(pos) - dn:]) if dn else set()
    kwo = [x.arg for x in a.kwonlyargs]
    opt |= {x.arg for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
    return pos[skip:], kwo, opt, a.vararg.arg if a.vararg else None


def decor(node):
    out = set()
    for d in node.decorator_list:
        for x in ast.walk(d):
            if isinstance(x, ast.Name):
                out.add(x.id)
            elif isinstance(x, ast.Attribute):
                out.add(x.attr)
    return out


def methods(c):
    """public methods of a class, inherited ones included: [(name, Func)]"""
    out, seen = [], set()
    for k in c.getmro():
        if not isinstance(k, ClassV) or node_of(k) is None:
            continue
        for x in node_of(k).body:
            if isinstance(x, ast.FunctionDef) and x.name not in seen and (not x.name.startswith('_') or x.name in ('__call__', '__getitem__', '__len__')):
                seen.add(x.name)
                f, d = c.find(x.name)
                f = ob(f) if f is not None else None
                if getattr(f, 'node', None) is not None or 'property' in decor(x) or 'staticmethod' in decor(x) or 'classmethod' in decor(x) or 'setter' in decor(x):
                    out.append((x.name, x))
    return out


MODES = {'on_duplicates': ('error', 'overwrite', 'ignore', 'append')}


def defaults_of(node):
    a = node.args
    d = dict(zip([x.arg for x in a.args[len(a.args) - len(a.defaults):]], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d


def typed(node, name):
    """kind of a parameter by its annotation"""
    for x in node.args.args + node.args.kwonlyargs:
        if x.arg == name and x.annotation is not None:
            t = ast.unparse(x.annotation)
            return 'nat' if t in ('int', 'Optional[int]') else 'real' if t in ('float', 'Optional[float]') else 'obj'
    return 'obj'


def variants(node, skip, owner):
    """ways to call a function: [(label, st -> (args, kw))]"""
    pos, kwo, opt, var = params(node, skip)

    def base(st, on=(), off=()):
        kw = {}
        for n in pos + kwo:
            if n in off or (n in opt and n not in on):
                continue
            kw[n] = value(st, n, owner=owner)
        return [], kw
    out = [('', lambda st: base(st))]
    extra = [n for n in pos + kwo if n in opt and n in (ARR1 | ARR2 | GROUPS | LISTS | DICTS | {'Y'})]
    if extra:
        out.append(('%s given' % ', '.join(extra), lambda st: base(st, extra)))
    dflt = defaults_of(node)
    scal = {n: typed(node, n) for n in pos + kwo if n in dflt and n not in extra and isinstance(dflt[n], ast.Constant) and dflt[n].value is None}
    flags = {n: TRUE if dflt[n].value is False else FALSE for n in pos + kwo if n in dflt and isinstance(dflt[n], ast.Constant) and isinstance(dflt[n].value, bool) and n not in ('copy', 'verbose')}

    def rest(st):
        a, kw = base(st)
        kw.update({n: sym(n, k) for n, k in scal.items()})
        return a, dict(kw, **flags)
    if scal or flags:
        out.append(('%s given' % ', '.join(sorted(set(scal) | set(flags))), rest))
    return with_copy(out, pos + kwo)


def with_copy(out, names):
    """also with copy=True and copy=False, where there is such a parameter"""
    if 'copy' not in names:
        return out

    def given(mk_, b):
        def f(st):
            a, kw = mk_(st)
            return a, dict(kw, copy=b)
        return f
    return out + [((lab + ', ' if lab else '') + 'copy=%s' % (b is TRUE), given(mk_, b)) for lab, mk_ in out for b in (TRUE, FALSE)]


def constructions(ip, c):
    """recipes of C08, plus one that gives every optional array, list or dictionary"""
    out = list(recipes(ip, c))
    init, d = c.find('__init__')
    node = getattr(ob(init) if init is not None else None, 'node', None)
    if node is not None:
        pos, kwo, opt, var = params(node)
        extra = [n for n in pos + kwo if n in (ARR1 | ARR2 | GROUPS | LISTS | DICTS)]

        def given(st):
            args, kw = out[0][1](st)
            for n in extra:
                kw[n] = value(st, n)
            return args, kw
        if extra and any(n not in ('partition', 'X', 'vertex', 'user_fact') for n in extra):
            out.append(('%s given' % ', '.join(extra), given))
        a = node.args
        defaults = dict(zip([x.arg for x in a.args[len(a.args) - len(a.defaults):]], a.defaults))
        defaults.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        flags = {n: v.value for n, v in defaults.items() if isinstance(v, ast.Constant) and isinstance(v.value, bool) and n not in ('copy', 'verbose')}

        def flipped(st):
            args, kw = out[0][1](st)
            for n, v in flags.items():
                kw[n] = FALSE if v else TRUE
            return args, kw
        nones = [n for n, v in defaults.items() if isinstance(v, ast.Constant) and v.value is None and n not in extra and n not in ('partition', 'user_fact')]

        def every(st):
            args, kw = out[0][1](st)
            for n in nones:
                kw[n] = sym(n, 'obj')
            return args, kw
        if len(nones) > 0:
            out.append(('all optional arguments given', every))
        if flags:
            out.append(('%s flipped' % ', '.join(sorted(flags)), flipped))
        out = with_copy(out, pos + kwo)
    return out


LEAF = ('hit_and_run', 'dsm/convex', 'factorization/optimization', 'validation')


def cuts(ip, c):
    """public operations of self-contained numeric components, analysed on their own, are opaque in their clients"""
    out = set()
    for k in classes(ip):
        rel = k.mod.rel
        if not any(p in rel for p in LEAF) or (c is not None and (k.mod is c.mod or c.subclass_of(k))):
            continue
        if c is not None and any(p in rel and p in c.mod.rel for p in LEAF):
            continue
        for m in ('sample', 'cut', 'fit', 'minimize', 'optimize', 'run', 'is_inside', 'add_points', 'compute_center', 'is_cache_enabled'):
            f, d = k.find(m)
            f = ob(f) if f is not None else None
            if isinstance(f, Func):
                out.add(f.qual)
    return out


def modular(ip, c):
    """every public operation of unrelated classes in other modules: for a second, compositional attempt"""
    out = set(cuts(ip, c))
    for k in classes(ip):
        if k.mod is c.mod or c.subclass_of(k):
            continue
        for m, node in methods(k):
            f, d = k.find(m)
            f = ob(f) if f is not None else None
            if isinstance(f, Func) and not decor(node) & {'property', 'setter'} and not m.startswith('__'):
                out.add(f.qual)
    for m in ip.prog.mods:
        if m != c.mod.name:
            out |= {f.qual for n, f in functions(ip, m)}
    return out


def symbols(st, args, kw):
    """the symbols the caller's values are made of"""
    return {x for a in list(args) + list(kw.values()) for x in walk(st.deep(a)) if x.op == 'sym'}


def owned(st, before):
    return {i for i in st.heap if i not in before}


def calls(ip, c, thorough=False):
    """yields (construct, kind, outcomes | error, info) for every way to use the class; info = dict(caller=heap ids of caller memory, obj, pre state, e0)"""
    ip.cut = cuts(ip, c) if not thorough else set()
    owner = 'kernel' if c.mod.rel.endswith('active_learning/kernel.py') else 'dataset' if 'explore/' in c.mod.rel else None
    try:
        for lab, rc in constructions(ip, c):
            name = c.name + (' (%s)' % lab if lab else '')
            st = ip.start()
            before = set(st.heap)
            args, kw = rc(st)
            caller = owned(st, before)
            syms = symbols(st, args, kw)
            e0 = len(st.events)
            err, outs = None, []
            try:
                outs = call(ip, P(c), args, kw, st)
            except Undecided as e:
                err = str(e)
            except Exception as e:
                err = '%s: %s' % (type(e).__name__, str(e)[:100])
            yield name, 'constructor', outs, err, dict(caller=caller, syms=syms, obj=None, e0=e0, cls=c, label=lab, before=before)
            outs = normal(outs)
            for o, s in outs[:2]:
                if o.op != 'ref':
                    continue
                used = s.fork()
                try:
                    havoc(ip, used, o)
                except Exception:
                    used = None
                for m, node in methods(c):
                    yield from one(ip, c, name, o, s, m, node, caller, owner, syms=syms)
                    if used is not None and m not in ('clear', 'reset'):
                        yield from one(ip, c, name, o, used, m, node, caller, owner, prefix='(in use) ', syms=syms)
    finally:
        ip.cut = set()


def one(ip, c, name, o, s, m, node, caller, owner, prefix='', syms=frozenset()):
    dec = decor(node)
    if 'setter' in dec:
        return
    vs = [('', lambda st: ([], {}))] if 'property' in dec else variants(node, 0 if 'staticmethod' in dec else 1, owner)
    for lab, mkargs in vs:
        s2 = s.fork()
        ip.steps = 0
        before = set(s2.heap)
        args, kw = mkargs(s2)
        mine = owned(s2, before)
        more = symbols(s2, args, kw)
        e0 = len(s2.events)
        cut = ip.cut
        for attempt in (0, 1):
            err, r = None, []
            try:
                if 'property' in dec:
                    r = list(ip.getattr(o, m, s2.fork()))
                else:
                    r = meth(ip, s2.fork(), o, m, *args, **kw)
                break
            except Undecided as e:
                err = str(e)
            except Exception as e:
                err = '%s: %s' % (type(e).__name__, str(e)[:100])
            ip.cut, ip.steps = modular(ip, c), 0
        ip.cut = cut
        yield '%s.%s%s%s' % (name, prefix, m, ' (%s)' % lab if lab else ''), 'method', r, err, dict(caller=caller | mine, syms=syms | more, obj=o, e0=e0, cls=c, method=m, node=node, before=before, args=kw)


def functions(ip, mod):
    for n, v in sorted(ip.st0.obj(ip.modenv[mod]).fields.items()):
        f = ob(v)
        if isinstance(f, Func) and f.mod.name == mod and not n.startswith('_'):
            yield n, f


def fcalls(ip, mod):
    for n, f in functions(ip, mod):
        for lab, mkargs in variants(f.node, 0, None):
            st = ip.start()
            before = set(st.heap)
            args, kw = mkargs(st)
            caller = owned(st, before)
            syms = symbols(st, args, kw)
            e0 = len(st.events)
            for attempt in (0, 1):
                err, r = None, []
                try:
                    r = call(ip, P(f), args, kw, st.fork())
                    break
                except Undecided as e:
                    err = str(e)
                except Exception as e:
                    err = '%s: %s' % (type(e).__name__, str(e)[:100])
                ip.cut, ip.steps = {g.qual for m in ip.prog.mods if m != mod for k, g in functions(ip, m)}, 0
                for k in classes(ip):
                    if k.mod.name != mod:
                        ip.cut |= {g.qual for g in (ob(k.find(m)[0]) for m, node in methods(k) if not m.startswith('__') and not decor(node) & {'property', 'setter'}) if isinstance(g, Func)}
            ip.cut = set()
            yield '%s.%s%s' % (mod, n, ' (%s)' % lab if lab else ''), 'function', r, err, dict(caller=caller, syms=syms, obj=None, e0=e0, cls=None, node=f.node, before=before)
            for v, s in r:
                g = ob(v) if not isinstance(v, Exc) else None
                if isinstance(g, Func) and getattr(g, 'node', None) is not None and isinstance(g.node, ast.FunctionDef):
                    yield from closure(ip, '%s.%s%s' % (mod, n, ' (%s)' % lab if lab else ''), g, s, caller, syms)


def closure(ip, name, g, s, caller, syms):
    """calls of a function that was returned by a function: with opaque arguments, or a LabeledSet with and without partial labels"""
    types = {x.arg: ast.unparse(x.annotation) if x.annotation is not None else '' for x in g.node.args.args}
    sets = [x for x, t in types.items() if t == 'LabeledSet' or x == 'labeled_set']
    for partial in (False, True) if sets else (False,):
        st = s.fork()
        ip.steps = 0
        before = set(st.heap)
        args, todo = {}, [st]
        for x in types:
            if x in sets:
                outs = normal(new(ip, st, 'LabeledSet', A(st, 'labels', 'arr1'), **(dict(partial=A(st, 'partial')) if partial else {}), index=A(st, 'index', 'arr1')))
                if len(outs) != 1:
                    return
                args[x], st = outs[0]
            else:
                args[x] = value(st, x)
        mine = owned(st, before)
        more = symbols(st, list(args.values()), {})
        e0 = len(st.events)
        err, r = None, []
        try:
            r = call(ip, P(g), [], args, st)
        except Undecided as e:
            err = str(e)
        except Exception as e:
            err = '%s: %s' % (type(e).__name__, str(e)[:100])
        yield '%s()%s' % (name, ' (partial labels)' if partial else ''), 'function', r, err, dict(caller=caller | mine, syms=syms | more, obj=None, e0=e0, cls=None, node=g.node, before=before)


_G = {}


def _work(job):
    ip, visit, thorough = _G['ip'], _G['visit'], _G['thorough']
    ip.rec_opaque = True
    ip.max_steps = BUDGET * (10 if thorough else 1)
    kind, i = job
    out, n, t0 = [], 0, time.time()
    gen = calls(ip, _G['classes'][i], thorough) if kind == 'class' else fcalls(ip, i)
    for construct, k, outs, err, info in gen:
        n += 1
        try:
            got = visit(ip, construct, k, outs, err, info)
        except Undecided as e:
            got = [(None, None, construct, 'analysis: ' + str(e)[:200], None)]
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            got = [(None, None, construct, 'analysis: internal %s: %s' % (type(e).__name__, str(e)[:160]), None)]
        out += [g for g in got]
    return out, n, time.time() - t0


def sweep(rep, visit, default_rule, thorough=False):
    """visit(ip, construct, kind, outcomes, error, info) -> [(rule, True|False|None, construct, message, where)]"""
    ip = load()
    cs = classes(ip)
    _G.update(ip=ip, visit=visit, thorough=thorough, classes=cs)
    heavy = ('SubspatialVersionSpace', 'SimplifiedSwapLearner', 'LinearVersionSpace', 'KernelVersionSpace', 'EntropyReductionLearner', 'FactorizedDualSpaceModel', 'FactorizedPolytopeModel', 'DualSpaceModel', 'CommandLineExploration')
    order = sorted(range(len(cs)), key=lambda i: heavy.index(cs[i].name) if cs[i].name in heavy else 99)
    jobs = [('class', i) for i in order] + [('mod', m) for m in ip.prog.mods]
    with get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        res = p.map(_work, jobs, chunksize=1)
    total = 0
    for out, n, t in res:
        total += n
        for rule, ok, construct, msg, where in out:
            rep.expect(ok, rule or default_rule, construct, msg, where)
    rep.stats['calls analysed'] = total
    rep.stats['classes'] = len(cs)
    rep.stats['slowest'] = [(jobs[i][1] if jobs[i][0] == 'mod' else cs[jobs[i][1]].name, round(res[i][2], 1)) for i in sorted(range(len(res)), key=lambda i: -res[i][2])[:5]]
    return ip

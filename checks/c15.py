"""C15: independent objects and runs share no mutable state."""
from .comp import *
from . import api
from sa.drive import *

EXPLAIN = ('Every public call of every class (in every supported configuration, freshly constructed and in use) is abstractly executed. A write to an object that exists before any call -- a default argument, a class-level or module-level table, '
           'a class or module attribute -- is a violation, the metric log excepted. Two objects constructed one after the other must not reach a common mutable object, and the components an object keeps per subspace must be distinct objects. '
           'Functions whose results are memoised process-wide must not return mutable objects.')
ASSUME = ['components supplied by the caller to two objects are shared by the caller\'s choice']
FLOOR = 300
R_W, R_2, R_D, R_M = 'process-wide objects are not written', 'two objects share no mutable object', 'per-subspace components are distinct', 'memoised results are immutable'
LOG = 'metric_logger'


def allowed(ip):
    out = set()
    for m in ip.prog.mods:
        if m.endswith(LOG):
            out.add(ip.modenv[m].args[0])
            for v in ip.st0.obj(ip.modenv[m]).fields.values():
                if v.op == 'ref':
                    out.add(v.args[0])
                    o = ip.st0.obj(v)
                    out |= {w.args[0] for w in (o.fields or {}).values() if w.op == 'ref'}
    return out


def shared_writes(ip, s, e0):
    ok = allowed(ip)
    out = set()
    for e in flat_events(s.events[e0:]):
        if e[0] == 'mut' and e[1].op == 'ref' and e[1].args[0] in ip.st0.heap and e[1].args[0] not in ok:
            o = ip.st0.heap[e[1].args[0]]
            out.add(('an object that exists once per process (created at %s)' % (o.tag or 'import',), str(e[2]), str(e[4])))
        elif e[0] == 'setattr' and len(e) > 3 and hasattr(e[1], 'op') and e[1].op == 'ref' and e[1].args[0] in ip.st0.heap and e[1].args[0] not in ok:
            out.add(('a process-wide object', 'attribute %s' % (e[2],), str(e[-1])))
        elif e[0] in ('classmut', 'modmut') and not str(e[1]).endswith(LOG):
            out.add(('%s %s' % ('class' if e[0] == 'classmut' else 'module', e[1]), 'attribute %s' % (e[2],), str(e[3])))
    return sorted(out)


def refs(s, o):
    """mutable objects reachable from o: {ref: path}"""
    out, todo = {}, [(o, '')]
    while todo:
        x, p = todo.pop()
        if x.op in ('list', 'tuple', 'set'):
            todo += [(y, '%s[%d]' % (p, i)) for i, y in enumerate(x.args)]
        elif x.op == 'dict':
            todo += [(v, '%s[%s]' % (p, show(k)[:30])) for k, v in x.args[0]]
        if x.op != 'ref':
            continue
        r = s.root(x)
        for y in {x, r}:
            if y in out:
                continue
            out[y] = p
            ob_ = s.obj(y)
            if ob_.kind == 'inst':
                todo += [(v, (p + '.' if p else '') + f) for f, v in ob_.fields.items()]
            elif ob_.val is not None:
                todo.append((ob_.val, p))
    return out


def twice(s, o, caller):
    """lists of components in which one object occurs twice: [(path, what)]"""
    out = []
    for r, p in refs(s, o).items():
        if r.args[0] in caller:
            continue
        ob_ = s.obj(r)
        v = ob_.val if ob_.kind != 'inst' else None
        if v is None:
            continue
        if v.op in ('list', 'tuple'):
            xs = [x for x in v.args if x.op == 'ref' and s.obj(x).kind in ('inst', 'list', 'set', 'dict') or (x.op == 'sym' and x.args[0] in LEARNERS)]
            for x in set(xs):
                if xs.count(x) > 1:
                    out.append((p, s.obj(x).cls.name if x.op == 'ref' and s.obj(x).cls is not None else show(x)))
        for y in walk(v):
            if y.op == 'app' and y.args[0] in ('repeat', 'list.repeat', 'replicate', 'list*') and any(z.op == 'ref' and s.obj(z).kind == 'inst' for a in y.args[1] for z in walk(a)):
                out.append((p, 'a repeated object'))
    return out


LEARNERS = {'learner', 'base_learner', 'clf', 'active_learner', 'base_transformer', 'logreg', 'pol'}


def visit(ip, construct, kind, outs, err, info):
    res = []
    if err:
        return [(R_W, None, construct, 'analysis: ' + err[:200], None)]
    w = sorted({x for v, s in outs for x in shared_writes(ip, s, info['e0'])})
    res.append((R_W, not w, construct, '%s is written (%s)' % w[0][:2] if w else '', w[0][2] if w else None))
    o = info['obj']
    if '(in use)' in construct:
        return res
    for v, s in normal(outs)[:4]:
        x = v if kind == 'constructor' else o
        if x is None or x.op != 'ref':
            continue
        d = twice(s, x, info['caller'])
        if d or kind == 'constructor':
            res.append((R_D, not d, construct, '%s holds one %s several times' % d[0] if d else '', None))
        if kind == 'constructor':
            c = info['cls']
            mk_ = next((rc for lab, rc in api.constructions(ip, c) if lab == info['label']), None)
            if mk_ is None:
                continue
            s2 = s.fork()
            before = set(s2.heap)
            args, kw = mk_(s2)
            for y, s3 in normal(call(ip, P(c), args, kw, s2))[:2]:
                if y.op != 'ref':
                    continue
                common = {r: p for r, p in refs(s3, x).items() if r in refs(s3, y)}
                mine = sorted(p for r, p in common.items() if r.args[0] in s.heap and r.args[0] not in ip.st0.heap)
                glob_ = sorted((p, r) for r, p in common.items() if r.args[0] in ip.st0.heap and s3.obj(r).kind == 'inst' and changes(ip, s3.obj(r).cls))
                bad = mine or [p for p, r in glob_]
                res.append((R_2, not bad, construct, 'both hold the same %s' % bad[0] if bad else '', None))
    return res


def changes(ip, c):
    """do methods of the class (other than the constructor) change its state?"""
    return isinstance(c, ClassV) and bool(all_changed(c, skip=('__init__',)))


def memoised(rep, ip):
    n = 0
    for m in sorted(ip.prog.mods):
        mod = ip.prog.mods[m]
        for x in ast.walk(mod.tree):
            if not isinstance(x, ast.FunctionDef):
                continue
            n += 1
            if not api.decor(x) & {'lru_cache', 'cache', 'memoize', 'cached'}:
                continue
            name = '%s.%s' % (m, x.name)
            rets = [r.value for r in ast.walk(x) if isinstance(r, ast.Return) and r.value is not None]
            for r in rets:
                if immutable(r):
                    rep.ok(R_M, name)
                elif mutable(r, x):
                    rep.bad(R_M, name, 'the memoised result is a mutable object shared by all callers', '%s:%d' % (mod.rel, r.lineno))
                else:
                    rep.unk(R_M, name, 'kind of the memoised result unknown')
    rep.stats['functions checked for memoisation'] = n
    rep.ok(R_M, 'package', '%d functions' % n)


def immutable(e):
    if isinstance(e, ast.Tuple):
        return all(immutable(x) for x in e.elts)
    if isinstance(e, ast.Constant) or isinstance(e, ast.Compare):
        return True
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('len', 'int', 'float', 'bool', 'str', 'tuple', 'frozenset', 'max', 'min', 'sum')


def mutable(e, f, d=0):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        g = e.func
        if isinstance(g, ast.Name):
            return g.id in ('list', 'dict', 'set') or g.id[:1].isupper()
        while isinstance(g, ast.Attribute):
            g = g.value
        return isinstance(g, ast.Name) and g.id in ('np', 'numpy', 'scipy', 'sklearn')
    if isinstance(e, ast.Name) and d < 4:
        vals = [a.value for a in ast.walk(f) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in a.targets)]
        return bool(vals) and all(mutable(v, f, d + 1) for v in vals)
    return False


def run(rep):
    ip = api.sweep(rep, visit, R_W, rep.thorough)
    memoised(rep, ip)

"""Transfer functions of a small object, extracted from the source: every field becomes a symbol, a method is abstractly executed once, its outermost
loop over the points of a batch becomes a transition of one point plus what follows the loop.  The functions are then evaluated on values of a finite domain."""
from sa.drive import *
from sa.evalv import evalv, Unknown, truth, Env
from sa.rows import at

__all__ = ['Machine', 'Unknown', 'truth', 'evalv']


def symbol_like(name, v, st):
    if v.op == 'ref':
        o = st.heap.get(v.args[0])
        if o is not None and o.kind in ('set', 'list', 'dict') and o.base is None:
            return st.new(o.kind, val=sym(name, o.kind))
        return None
    if v.op == 'const' and isinstance(v.args[0], bool):
        return sym(name, 'bool')
    if v.op == 'const' and isinstance(v.args[0], int):
        return sym(name, 'int')
    return None


class Path:
    pass


class Machine:
    def __init__(self, ip, st, obj):
        """fields of obj that hold a container or a flag become symbols"""
        self.ip, self.obj = ip, obj
        self.st = st.fork()
        self.fields, self.init = {}, {}
        o = self.st.obj(obj)
        fs = dict(o.fields)
        for f, v in fs.items():
            s = symbol_like('field.' + f, v, self.st)
            if s is None:
                continue
            self.init[f] = evalv(st.deep(v), {})
            o2 = self.st.heap[obj.args[0]].copy()
            o2.fields[f] = s
            self.st.heap[obj.args[0]] = o2
            self.fields[f] = self.st.deep(s)

    def extract(self, name, *args, st=None):
        """paths of a method call over the field symbols"""
        ip, loops = self.ip, []
        st = (st or self.st).fork()

        def body(n, entry, paths, k, dom, elem):
            if ip.loop_depth == 0:
                loops.append(dict(n=n, entry=entry, paths=paths, k=k, dom=dom, pre=ip.loop_pre, accs=dict(ip.loop_accs or {}), post=None))

        def after(n, s, accs):
            if ip.loop_depth:
                return
            l = [x for x in loops if x['n'] is n][-1:]
            if not l:
                return
            l = l[0]
            m = {}
            for loc in accs:
                oid, f = loc
                o = s.heap[oid].copy()
                if f is None:
                    v = o.val = fresh('end', o.kind if o.kind in ('set', 'list', 'dict') else None)
                else:
                    old = o.fields.get(f)
                    if old is None:
                        continue
                    if old.op == 'ref' and s.heap[old.args[0]].kind in ('set', 'list', 'dict'):
                        kd = s.heap[old.args[0]].kind
                        v = fresh('end', kd)
                        o.fields[f] = s.new(kd, val=v)
                    else:
                        from sa.interp import kind_of
                        v = o.fields[f] = fresh('end', kind_of(old))
                s.heap[oid] = o
                m[loc] = v
            l['post'] = (m, len(s.facts.log))

        hooks = ip.body_hook, ip.after_hook
        ip.body_hook, ip.after_hook = body, after
        try:
            outs = list(meth(ip, st, self.obj, name, *args))
        finally:
            ip.body_hook, ip.after_hook = hooks
        r = Path()
        r.outs, r.loops, r.machine = outs, loops, self
        return r

    def value(self, s, f):
        return s.deep(s.obj(self.obj).fields[f])

    def env(self, state):
        return {self.fields[f]: v for f, v in state.items() if v is not TOP}


class _Top:
    def __repr__(self):
        return '?'

    def __lt__(self, o):
        return False


TOP = _Top()


def holds(conds, env):
    return all(truth(evalv(c, env)) for c in conds)


def maybe(conds, env):
    """False when some condition is known to fail, True when all hold, None otherwise"""
    r = True
    for c in conds:
        try:
            if not truth(evalv(c, env)):
                return False
        except Unknown:
            r = None
    return r


def choose(paths, conds, env):
    """the paths taken: the one whose conditions hold, or those left when all others are excluded"""
    known, open_ = [], []
    for p in paths:
        m = maybe(conds(p), env)
        if m is True:
            known.append(p)
        elif m is None:
            open_.append(p)
    if len(known) == 1:
        return known
    if known or not open_:
        raise Unknown('%d paths are taken' % len(known))
    return open_


def agree(rs):
    """one result for several possible ones"""
    out, state = rs[0]
    for o, s in rs[1:]:
        if o != out or type(o) is not type(out):
            raise Unknown('several outcomes are possible')
        state = {f: v if v is not TOP and s[f] is not TOP and v == s[f] else TOP for f, v in state.items()}
    return out, state


def evalt_(t, env):
    try:
        return evalv(t, env)
    except Unknown:
        return TOP


def run_batch(ex, state, env, atoms, n):
    """the method on a batch of n points; atoms(k) are the values of the terms of point k.  Returns (outcome, state) with outcome a value or 'raises'"""
    m = ex.machine
    env = dict(env)
    env.update(m.env(state))
    env = Env(env)
    if not ex.loops:
        return finish(ex.outs, 0, state, env, m)
    if len(ex.loops) != 1:
        raise Unknown('site 1')
    l = ex.loops[0]
    entry, k = l['entry'], l['k']
    if k is None or n is None:
        raise Unknown('site 2')
    base = len(entry.facts.log)
    # an outcome before the loop
    prelog = l['pre'].facts.log
    early = [(r, s) for r, s in ex.outs if not loop_seen(s, prelog)]
    for r, s in early:
        if holds(s.facts.log, env):
            return result(r, s, state, env, m)
    if not holds(prelog, env):
        raise Unknown('site 3')
    cur = {loc: evalv(l['pre'].deep(m.ip.value_at(l['pre'], loc)), env) for loc in l['accs'] if known_at(m.ip, l['pre'], loc)}
    n = int(evalv(l['dom'], env))
    flds = {f: l['pre'].deep(l['pre'].obj(m.obj).fields[f]) for f in m.fields}
    for i in range(n):
        e = dict(env)
        for loc, a in l['accs'].items():
            if loc in cur:
                e[entry.deep(a)] = cur[loc]
        e[k] = i
        e.update(atoms(i, k))
        e = Env(e)
        hit = choose(l['paths'], lambda p: p[0].facts.log[base:], e)
        if all(g is None or g[0] == 'continue' for s, g in hit):
            news = [{loc: evalt_(s.deep(m.ip.value_at(s, loc)), e) for loc in cur} for s, g in hit]
            cur = {loc: v if all(x[loc] == v for x in news) else TOP for loc, v in news[0].items()}
            cur = {loc: v for loc, v in cur.items() if v is not TOP}
            continue
        if any(g is None or g[0] not in ('ret', 'exc', 'break') for s, g in hit):
            raise Unknown('several ways out of an iteration: %s' % [show(c)[:150] for x, g in hit for c in x.facts.log[base:] if maybe([c], e) is None][:3])
        rs = []
        for s, g in hit:
            # the final outcomes that continue this path
            fin = [(r, s2) for r, s2 in ex.outs if loop_tail(s2, s)]
            for r, s2 in choose(fin, lambda p: p[1].facts.log[len(s.facts.log):], e):
                rs.append(result(r, s2, state, e, m))
        return agree(rs)
    if l['post'] is None:
        raise Unknown('site 8')
    ends, nlog = l['post']
    e = dict(env)
    for loc, v in ends.items():
        if loc in cur:
            e[v] = cur[loc]
    fin = []
    for r, s in ex.outs:
        if not any(loop_tail(s, x) for x, g in l['paths'] if g is not None and g[0] in ('ret', 'exc', 'break')) and len(s.facts.log) >= nlog and loop_seen(s, prelog):
            if holds(s.facts.log[nlog:], e):
                fin.append((r, s))
    if len(fin) != 1:
        raise Unknown('site 9')
    return result(fin[0][0], fin[0][1], state, e, m)


def known_at(ip, s, loc):
    return loc[0] in s.heap and ip.value_at(s, loc) is not None


def loop_seen(s, prelog):
    return list(s.facts.log[:len(prelog)]) == list(prelog)


def loop_tail(s, x):
    return list(s.facts.log[:len(x.facts.log)]) == list(x.facts.log)


def finish(outs, skip, state, env, m):
    return agree([result(r, s, state, env, m) for r, s in choose(outs, lambda p: p[1].facts.log[skip:], env)])


def result(r, s, state, env, m):
    new = {f: evalt_(m.value(s, f), env) for f in m.fields}
    if isinstance(r, Exc):
        return 'raises', new
    return evalv(s.deep(r), env), new

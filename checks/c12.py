"""C12: the protocol every polytope model follows."""
import itertools
from fractions import Fraction as Fr
from sa.drive import *
from sa.rows import at
from sa.evalv import evalv, Unknown, truth

EXPLAIN = ('Every polytope class is abstractly interpreted with its flags replaced by symbols and the polytopes and regions it is made of by opaque parties that follow the same protocol (structural induction); a party may also report a conflict. '
           'For every combination of valid and invalid parts before and after an update and every answer of the parts, each path of predict, update, is_valid and clear is evaluated: answers, who receives the batch and with which labels, what is reported, what is refused and what is reset.')
ASSUME = ['parts follow the protocol themselves: they answer 0, 0.5 or 1, 0.5 when invalid, refuse updates when invalid, and report whether they stayed valid', 'a factorized model of two subspaces represents every number of subspaces (C13)']
FLOOR = 25
R_ANS = 'answers are 0, 0.5 or 1'
R_INV = 'an invalid model answers 0.5 and refuses updates'
R_UPD = 'an update gives the batch to every valid part and reports whether all of them stayed valid'
R_CLEAR = 'only clear() makes a model valid again, and it resets every part'
HALF = Fr(1, 2)
X, Y = sym('X', 'arr2'), sym('y', 'arr1')
Y2 = sym('y', 'arr2')
TRUTHY = mk('truthy')


def bases(s, v):
    if v.op != 'ref' or v.args[0] not in s.heap or s.heap[v.args[0]].kind != 'inst':
        return ()
    return [getattr(c, 'name', None) for c in s.heap[v.args[0]].cls.getmro()]


def foreign(s, v):
    """a part made by another class of the package"""
    return v.op == 'ref' and v.args[0] in s.heap and s.heap[v.args[0]].kind == 'inst'


def opaque(ip, s, o):
    """flags become symbols, parts opaque; returns ({part: kind}, {flag symbol: initial value})"""
    ob = s.heap[o.args[0]].copy()
    s.heap[o.args[0]] = ob
    parts, flags = {}, {}

    def part(v):
        p = sym('part%d' % len(parts), 'obj')
        parts[p] = 'polytope' if 'PolytopeBase' in bases(s, v) else 'region'
        return p
    for f, v in list(ob.fields.items()):
        if foreign(s, v):
            ob.fields[f] = part(v)
        elif v.op == 'const' and isinstance(v.args[0], bool):
            ob.fields[f] = sym('flag.' + f, 'bool')
            flags[f] = v
        elif v.op == 'ref' and s.heap[v.args[0]].kind in ('list', 'set', 'dict'):
            lv = s.heap[v.args[0]].val
            if lv.op == 'list' and lv.args and all(foreign(s, x) for x in lv.args):
                ob.fields[f] = s.new('list', val=mk('list', *[part(x) for x in lv.args]))
            elif lv.op in ('list', 'set', 'dict') and not any(x for x in lv.args if x):
                ob.fields[f] = s.new(s.heap[v.args[0]].kind, val=sym('field.' + f, s.heap[v.args[0]].kind))
    return parts, flags


def configurations(ip, st):
    """(label, object, state, factorized)"""
    def lits(*groups):
        return st.new('list', val=mk('list', *[st.new('list', val=mk('list', *[C(i) for i in g])) for g in groups]))
    names = ['Polytope', 'FlippedPolytope', 'PersistentPolytope', 'CategoricalPolytope', 'MultiSetPolytope', 'PolytopeModel', 'FactorizedPolytopeModel']
    for n in names:
        args = (lits((2, 0), (1,)),) if n == 'FactorizedPolytopeModel' else ()
        got = normal(new(ip, st.fork(), n, *args))
        if not got:
            yield n, None, None, False
        for o, s in got[:1]:
            yield n, o, s, n.startswith('Factorized')


class conflicts:
    """regions and cones are opaque and may report a conflict"""

    def __init__(self, ip, parts):
        self.ip, self.parts = ip, parts

    def __enter__(self):
        ip = self.ip
        regions = {p for p, k in self.parts.items() if k == 'region'}
        busy = []

        def is_exc(c):
            return any(getattr(x, 'name', None) in ('Exception', 'BaseException') or 'Exception' in str(x) for x in c.getmro())

        def conflict(s):
            busy.append(1)
            try:
                out = []
                for v, s1 in new(ip, s, 'ConvexError'):
                    if not isinstance(v, Exc):
                        s1.event('conflict', '')
                        out.append((Exc(v), s1))
                return out
            finally:
                busy.pop()

        def hook(fv, args, kw, s, n=None):
            if busy:
                return None
            c = ob(fv)
            if isinstance(c, ClassV) and c.mod.name.startswith('aideme') and not is_exc(c) and '.convex' in c.mod.name:
                s1 = s.fork()
                return [(fresh('region', 'obj'), s)] + conflict(s1)
            if fv.op == 'oattr' and fv.args[1] in ('update', 'add_points_to_hull', 'add_points') and (fv.args[0] in regions or not (fv.args[0].op == 'sym' and fv.args[0].args[0].startswith('part'))):
                busy.append(1)
                try:
                    s1 = s.fork()
                    return list(ip.call(fv, args, kw, s, n)) + conflict(s1)
                finally:
                    busy.pop()
            return None
        ip.call_hook = hook

    def __exit__(self, *a):
        self.ip.call_hook = None


class values(object):
    """possible values of a term at one row, under a partial assignment"""

    def __init__(self, env):
        self.env, self.exact, self.branchy = env, True, False

    def ev(self, t, d=0):
        if d > 40:
            raise Unknown('deep')
        try:
            v = evalv(t, self.env)
            if not isinstance(v, (tuple, frozenset, str)):
                return {Fr(v)}
        except Unknown:
            pass
        op = t.op
        r = lambda x: self.ev(x, d + 1)
        if op == 'ite':
            try:
                return r(t.args[1 if truth(evalv(t.args[0], self.env)) else 2])
            except Unknown:
                self.exact = False
                self.branchy = True
                return r(t.args[1]) | r(t.args[2])
        if op == 'mstore' or op == 'store':
            self.exact = False
            return r(t.args[0]) | r(t.args[2])
        if op == 'fill':
            self.exact = False
            return r(t.args[0]) | r(t.args[2].args[1])
        if op == 'fold':
            self.exact = False
            body = t.args[1]
            if body.op != 'lam' or body.args[1].op != 'lam':
                raise Unknown(show(t)[:80])
            acc = mk('bv', body.args[0])
            init = r(t.args[0])
            self.fold = getattr(self, 'fold', {})
            self.fold[acc] = init
            out = set(init)
            for _ in range(4):
                self.fold[acc] = set(out)
                new_ = out | r(body.args[1].args[1])
                if new_ == out:
                    return out
                out = new_
            raise Unknown(show(t)[:80])
        if op == 'bv' and t in getattr(self, 'fold', {}):
            return self.fold[t]
        if op == 'map' or op == 'flatmap':
            return r(t.args[0].args[1])
        if op == 'sub':
            return r(t.args[0])
        if op == 'poly':
            out = {Fr(0)}
            for m, c in t.args[0]:
                term = {Fr(c)}
                for a, e in m:
                    if e < 0:
                        raise Unknown(show(t)[:80])
                    term = {x * y ** e for x in term for y in r(a)}
                out = {x + y for x in out for y in term}
            return out
        if op == 'app':
            f, a = t.args[0], t.args[1]
            if f == 'np.full' and len(a) > 1:
                return r(a[1])
            if f in ('np.fromiter', 'np.array', 'np.asarray', 'copy', 'astype', 'np.copy', 'list'):
                return r(a[0])
            if f in ('min', 'max', 'np.minimum', 'np.maximum'):
                g = min if 'min' in f else max
                out = None
                for x in a:
                    v = r(x)
                    out = v if out is None else {g(p, q) for p in out for q in v}
                return out
        raise Unknown(show(t)[:120])


def possible(conds, env):
    """False: excluded; True: holds; None: open"""
    res = True
    for c in conds:
        try:
            if not truth(evalv(c, env)):
                return False
        except Unknown:
            res = None
    return res


def both(env, t, v):
    env[t] = v
    env[mk('in', t, TRUTHY)] = bool(v) if not isinstance(v, bool) else v


class Judge:
    def __init__(self, rep, ip, name, o, s, fact):
        self.rep, self.ip, self.name, self.o, self.fact = rep, ip, name, o, fact
        self.s = s.fork()
        self.parts, self.flags = opaque(ip, self.s, o)
        seen = set()
        for r, s2 in ip.getattr(o, 'is_valid', self.s.fork()):
            if not isinstance(r, Exc):
                seen |= set(walk(s2.deep(r))) | {x for c in s2.facts.log for x in walk(c)}
        for f in list(self.flags):
            if self.s.obj(o).fields[f] not in seen:      # not part of the validity
                ob = self.s.heap[o.args[0]].copy()
                ob.fields[f] = self.flags.pop(f)
                self.s.heap[o.args[0]] = ob
        self.pols = [p for p, k in self.parts.items() if k == 'polytope']
        self.fl = {f: self.s.obj(o).fields[f] for f in self.flags}
        self.where = ''

    def envs(self):
        """assignments of the flags and of the validity of the parts before an operation"""
        ps, fs = self.pols, list(self.flags)
        for vs in itertools.product((True, False), repeat=len(ps) + len(fs)):
            env = {}
            for p, v in zip(ps, vs):
                both(env, mk('oattr', p, 'is_valid', ZERO), v)
            for f, v in zip(fs, vs[len(ps):]):
                env[self.fl[f]] = v
            yield dict(zip(ps, vs)), dict(zip(fs, vs[len(ps):])), env

    def valid(self, s, env):
        """the is_valid observer in a state"""
        out = set()
        n0 = len(s.facts.log)
        for r, s2 in self.ip.getattr(self.o, 'is_valid', s.fork()):
            if isinstance(r, Exc):
                raise Unknown('is_valid raises')
            if possible(s2.facts.log[n0:], env) is not False:
                out.add(truth(evalv(s2.deep(r), env)))
        if len(out) != 1:
            raise Unknown('is_valid is not determined')
        return out.pop()

    def predict(self):
        rep, ip = self.rep, self.ip
        k = sym('k', 'nat')
        s = self.s.fork()
        s.facts.assume(lt(k, length(X)), log=False)
        xa = s.new('arr', val=X, tag='param:X')
        n0 = len(s.facts.log)
        before = s.fork()
        with conflicts(ip, self.parts):
            outs = list(meth(ip, s, self.o, 'predict', xa))
        rows = []
        for r, s2 in outs:
            if isinstance(r, Exc):
                rows.append((None, s2, r))
                continue
            t = s2.deep(r)
            try:
                t = at(t, k, s2)
            except Undecided:
                pass
            rows.append((t, s2, r))
        cases = {R_ANS: 0, R_INV: 0}
        bad, unk = {}, {}
        for vs, fs, env in self.envs():
            ok = self.valid(before, env)
            rule = R_ANS if ok else R_INV
            state = self.describe(vs, fs)
            for t, s2, r in rows:
                p = possible(free(s2.facts.log[n0:]), env)
                if p is False:
                    continue
                if t is None:
                    if p is True:
                        bad.setdefault(rule, '%s: predict raises %s' % (state, show(r.v)[:80]))
                    else:
                        unk.setdefault(rule, 'predict may raise')
                    continue
                atoms = {}
                for x in walk(t):
                    if x.op == 'app' and x.args[0] in ('row.predict', '.predict') and x.args[1][0] in self.pols:
                        atoms[x] = x.args[1][0]
                names = sorted(set(atoms.values()), key=lambda q: q.id)
                for ans in itertools.product(*[(Fr(0), HALF, Fr(1)) if vs[q] else (HALF,) for q in names]):
                    e = dict(env)
                    for x, q in atoms.items():
                        e[x] = ans[names.index(q)]
                    cases[rule] += 1
                    v = values(e)
                    try:
                        got = v.ev(t)
                    except Unknown as ex:
                        unk.setdefault(rule, str(ex))
                        continue
                    wrong = got - ({Fr(0), HALF, Fr(1)} if ok else {HALF})
                    if wrong:
                        msg = '%s, parts answer %s: the answer may be %s' % (state, [str(a) for a in ans], ', '.join(map(str, sorted(wrong))))
                        if v.exact and p is True:
                            bad.setdefault(rule, msg)
                        elif not v.branchy and (p is True or not flagged(s2.facts.log[n0:], self)):
                            bad.setdefault(rule, msg)
                        elif not ok and not flagged(s2.facts.log[n0:], self):
                            bad.setdefault(rule, msg + ' although validity is not looked at')
                        else:
                            unk.setdefault(rule, msg)
            self.same(before, [s2 for t, s2, r in rows], 'predict', bad)
        for rule in (R_ANS, R_INV):
            self.report(rule, 'predict', bad, unk, cases[rule])
        if R_CLEAR in bad:
            self.report(R_CLEAR, 'predict', bad, unk, 1)

    def partial(self):
        """predict_partial: one answer per part, 0.5 where the part is invalid"""
        if not self.fact or not self.pols:
            return
        k = sym('k', 'nat')
        s = self.s.fork()
        s.facts.assume(lt(k, length(X)), log=False)
        xa = s.new('arr', val=X, tag='param:X')
        n0 = len(s.facts.log)
        before = s.fork()
        with conflicts(self.ip, self.parts):
            outs = list(meth(self.ip, s, self.o, 'predict_partial', xa))
        cases = {R_ANS: 0, R_INV: 0}
        bad, unk = {}, {}
        for vs, fs, env in self.envs():
            state = self.describe(vs, fs)
            for r, s2 in outs:
                log = free(s2.facts.log[n0:])
                p = possible(log, env)
                if p is False:
                    continue
                sure = p is True or not flagged(log, self)
                for j, q in enumerate(self.pols):
                    rule = R_ANS if vs[q] else R_INV
                    cases[rule] += 1
                    if isinstance(r, Exc):
                        (bad if p is True else unk).setdefault(rule, '%s: predict_partial raises %s' % (state, show(r.v)[:80]))
                        continue
                    try:
                        t = column(s2.deep(r), j, k, s2)
                    except Undecided as e:
                        unk.setdefault(rule, str(e))
                        continue
                    if t is None:
                        (bad if sure else unk).setdefault(rule, '%s: column %d of predict_partial is never filled' % (state, j))
                        continue
                    atoms = [x for x in walk(t) if x.op == 'app' and x.args[0] in ('row.predict', '.predict') and x.args[1][0] in self.pols]
                    for ans in (Fr(0), HALF, Fr(1)) if vs[q] else (HALF,):
                        # the other parts answer differently, so that an exchange shows
                        for other in (Fr(0), HALF, Fr(1)):
                            e = dict(env)
                            for x in atoms:
                                z = x.args[1][0]
                                e[x] = ans if z is q else other if vs.get(z) else HALF
                            v = values(e)
                            try:
                                got = v.ev(t)
                            except Unknown as ex:
                                unk.setdefault(rule, str(ex))
                                continue
                            if got != {ans}:
                                msg = '%s, part %d answers %s and the others %s: column %d of predict_partial may be %s' % (state, j + 1, ans, other, j, ', '.join(map(str, sorted(got))))
                                (bad if sure and not v.branchy else unk).setdefault(rule, msg)
            self.same(before, [s2 for r, s2 in outs], 'predict_partial', bad)
        for rule in (R_ANS, R_INV):
            self.report(rule, 'predict_partial', bad, unk, cases[rule])
        if R_CLEAR in bad:
            self.report(R_CLEAR, 'predict_partial', bad, unk, 1)

    def same(self, before, states, what, bad):
        """predict leaves the validity state alone"""
        for s in states:
            for f in self.flags:
                if s.deep(s.obj(self.o).fields[f]) is not self.fl[f]:
                    bad.setdefault(R_CLEAR, what + ' changes the validity flag')
            for e in flat_events(s.events):
                if e[0] == 'call' and e[1] in self.pols and e[2] in ('clear', 'update'):
                    bad.setdefault(R_CLEAR, '%s calls %s of a part' % (what, e[2]))

    def describe(self, vs, fs):
        out = ['%s part %d' % ('valid' if v else 'invalid', i + 1) for i, v in enumerate(vs.values())]
        out += ['valid' if v else 'invalid' for v in fs.values()]
        return ', '.join(out) or 'no state'

    def report(self, rule, what, bad, unk, n):
        w = '%s.%s' % (self.name, what)
        if rule in bad:
            self.rep.bad(rule, w, bad[rule], self.where)
        elif rule in unk:
            self.rep.unk(rule, w, unk[rule])
        elif n:
            self.rep.ok(rule, '%s (%d cases)' % (w, n))

    def update(self):
        ip = self.ip
        s = self.s.fork()
        yv = Y2 if self.fact else Y
        xa, ya = s.new('arr', val=X, tag='param:X'), s.new('arr', val=yv, tag='param:y')
        n0, before = len(s.facts.log), s.fork()
        with conflicts(ip, self.parts):
            outs = list(meth(ip, s, self.o, 'update', xa, ya))
        bad, unk = {}, {}
        cases = {R_UPD: 0, R_INV: 0}
        for vs, fs, env0 in self.envs():
            ok = self.valid(before, env0)
            rule = R_UPD if ok else R_INV
            alive = [p for p in self.pols if vs[p]]
            hits = 0
            for after in itertools.product((True, False), repeat=len(alive)):
                aft = dict(zip(alive, after))
                for r, s2 in outs:
                    env = dict(env0)
                    ups = [e for e in flat_events(s2.events) if e[0] == 'call' and e[1] in self.pols and e[2] == 'update']
                    for x in terms_of(s2, r, n0):
                        for y in walk(x):
                            if y.op == 'oattr' and y.args[1] == 'is_valid' and y.args[0] in self.pols and y.args[2] is not ZERO:
                                both(env, y, aft.get(y.args[0], False))
                            if y.op == 'app' and y.args[0] == '.update' and y.args[1][0] in self.pols:
                                both(env, y, aft.get(y.args[1][0], False))
                    p = possible(s2.facts.log[n0:], env)
                    if p is False:
                        continue
                    hits += 1
                    cases[rule] += 1
                    state = self.describe(vs, fs)
                    dead = [e for e in ups if not vs[e[1]]]
                    raises = isinstance(r, Exc) or bool(dead)
                    note = bad if p is True or not flagged(s2.facts.log[n0:], self) else unk
                    if not ok:
                        if not raises:
                            note.setdefault(R_INV, '%s: update is accepted' % state)
                        continue
                    if raises:
                        # the own exception of a part that reports a conflict must not escape either
                        note.setdefault(R_UPD, '%s: update raises%s' % (state, ' ' + show(r.v)[:80] if isinstance(r, Exc) else ': an invalid part is updated'))
                        continue
                    got = [e[1] for e in ups]
                    for q in alive:
                        if got.count(q) != 1:
                            note.setdefault(R_UPD, '%s: part %d receives the batch %d times' % (state, self.pols.index(q) + 1, got.count(q)))
                    for e in ups:
                        msg = self.batch(e, s2)
                        if msg:
                            note.setdefault(R_UPD, msg)
                    if not self.pols and self.parts:
                        clash = any(e[0] == 'conflict' for e in flat_events(s2.events))
                        try:
                            if self.valid(s2, env) == clash:
                                (bad if clash or p is True else unk).setdefault(R_UPD, 'the model is %s although %s' % ('valid' if clash else 'invalid', 'a region reports a conflict' if clash else 'no region reports a conflict'))
                        except Unknown as ex:
                            unk.setdefault(R_UPD, str(ex))
                    if not self.pols:
                        ts = {s3.deep(v) for v, s3 in self.ip.getattr(self.o, 'is_valid', s2.fork()) if not isinstance(v, Exc)}
                        if ts == {s2.deep(r)}:
                            continue
                    try:
                        res = truth(evalv(s2.deep(r), env))
                        want = all(after) if self.pols else self.valid(s2, env)
                    except Unknown as ex:
                        unk.setdefault(R_UPD, str(ex))
                        continue
                    if res != want:
                        note.setdefault(R_UPD, '%s, afterwards %s: update reports %s' % (state, ['valid' if a else 'invalid' for a in after] if self.pols else ('valid' if want else 'invalid'), res))
            if not hits:
                unk.setdefault(rule, 'no path for ' + self.describe(vs, fs))
        for rule in (R_UPD, R_INV):
            self.report(rule, 'update', bad, unk, cases[rule])

    def batch(self, e, s):
        """what is wrong with the batch given to a part"""
        a = [s.deep(v) for v in list(e[3]) + [v for k, v in (e[4] or ())]]
        if len(a) != 2:
            return None
        x, y = a
        if self.fact:
            return None
        if y not in (Y, sub_(ONE, Y)) or x not in (X, app('np.atleast_2d', X)):
            return None
        want = sub_(ONE, Y) if self.name == 'FlippedPolytope' else Y
        if y is not want:
            return 'the part is updated with %s instead of %s' % ('flipped labels' if y is not Y else 'the labels as given', 'the flipped ones' if want is not Y else 'as given')
        return None

    def clear(self):
        bad, unk = {}, {}
        n = 0
        s = self.s.fork()
        with conflicts(self.ip, self.parts):
            outs = list(meth(self.ip, s, self.o, 'clear'))
        for r, s2 in outs:
            n += 1
            if isinstance(r, Exc):
                bad.setdefault(R_CLEAR, 'clear raises ' + show(r.v)[:80])
                continue
            for f, v in self.flags.items():
                got = s2.deep(s2.obj(self.o).fields[f])
                if got is not v:
                    (bad if got.op == 'const' or got is self.fl[f] else unk).setdefault(R_CLEAR, 'clear leaves %s at %s' % (f, show(got)[:60]))
            cleared = {e[1] for e in flat_events(s2.events) if e[0] == 'call' and e[2] == 'clear'}
            held = self.held(s2)
            for i, p in enumerate(self.parts):
                if p not in cleared and p in held:
                    bad.setdefault(R_CLEAR, 'clear does not clear part %d' % (i + 1))
        self.report(R_CLEAR, 'clear', bad, unk, n)

    def held(self, s):
        out = set()
        for v in s.obj(self.o).fields.values():
            out |= set(walk(s.deep(v)))
        return out


def column(t, j, k, s):
    """entry (k, j) of a matrix"""
    full = mk('slice', NONE, NONE, NONE)
    if t.op == 'store' and t.args[1].op == 'tuple' and len(t.args[1].args) == 2:
        rows, c = t.args[1].args
        if rows is not full or num(c) is None:
            raise Undecided('writes ' + show(t.args[1])[:60])
        return at(t.args[2], k, s) if int(num(c)) == j else column(t.args[0], j, k, s)
    if t.op == 'app':
        f, a, kw = t.args[0], t.args[1], dict(x for x in t.args[2] if x[0] != '@')
        if f == 'np.full' and len(a) > 1:
            return a[1]
        if f == 'np.empty':
            return None
        if f in ('np.array', 'np.asarray', 'copy', 'astype', 'np.copy'):
            return column(a[0], j, k, s)
        cols = None
        if f in ('.T', 'np.transpose', 'T') and len(a) == 1:
            cols = a[0]
            while cols.op == 'app' and cols.args[0] in ('np.array', 'np.asarray', 'np.vstack', 'np.stack') and cols.args[1] and not [x for x in cols.args[2] if x[0] == 'axis']:
                cols = cols.args[1][0]
        elif f == 'np.column_stack' or f == 'np.stack' and num(kw.get('axis', ZERO)) in (1, -1):
            cols = a[0]
        if cols is not None and cols.op in ('list', 'tuple') and j < len(cols.args):
            return at(cols.args[j], k, s)
    raise Undecided('column of ' + show(t)[:80])


def flagged(conds, j):
    """some condition looks at the validity"""
    fl = set(j.fl.values())
    return any(x in fl or x.op == 'oattr' and x.args[1] == 'is_valid' for c in conds for x in walk(c))


def free(conds):
    """conditions other than distinct truth values of opaque attributes, which may be anything"""
    seen, out = set(), []
    for c in conds:
        a = c.args[0] if c.op == 'not' else c
        if a.op == 'in' and a.args[0].op == 'oattr' and a.args[0].args[1] != 'is_valid' and a not in seen:
            seen.add(a)
            continue
        out.append(c)
    return out


def terms_of(s, r, n0):
    out = list(s.facts.log[n0:])
    if not isinstance(r, Exc):
        out.append(s.deep(r))
    return out


def from_dataset(rep, ip, name, o, s, fact):
    """update_data(data) is an update with the points of the last labeling and their labels (partial labels for factorized models)"""
    what = name + '.update_data'
    seen = []

    def hook(fv, args, kw, st, n=None):
        f = ob(fv)
        if isinstance(f, Bound) and f.name == 'update' and f.self_ is o:
            par = [a.arg for a in f.func.node.args.args][1:]
            if len(args) == 1 and st.deep(args[0]).op == 'star':
                args = [mk('sub', st.deep(args[0]).args[0], C(i)) for i in (0, 1)]
            d = {**dict(zip(par, args)), **kw}
            seen.append(([st.deep(d.get(p, NONE)) for p in par[:2]], st.fork()))
            return [(sym('updated', 'bool'), st)]
        return None
    data = sym('data', 'obj')
    ip.call_hook = hook
    try:
        outs = meth(ip, s.fork(), o, 'update_data', data)
    finally:
        ip.call_hook = None
    bad = unk = None
    for r, s2 in outs:
        if isinstance(r, Exc):
            bad = bad or 'raises ' + show(s2.deep(r.v))[:60]
        elif s2.deep(r) is not sym('updated', 'bool'):
            bad = bad or 'the outcome of the update is not reported' if r is NONE or s2.deep(r).op == 'const' else bad
            unk = unk or 'returns ' + show(s2.deep(r))[:60]
    for (x, y), s2 in seen:
        for t, pos, part in ((x, 0, 'points'), (y, 1, 'labels')):
            if t.op != 'sub' or t.args[0].op != 'app' or num(t.args[1]) is None:
                unk = unk or 'the %s are %s' % (part, show(t)[:60])
                continue
            f, a, kw = t.args[0].args
            kw = {k: v for k, v in kw if k != '@'}
            if a[0] is not data or f != '.last_training_set':
                if a[0] is data and f == '.training_set':
                    bad = bad or 'the whole training set is handed over again'
                else:
                    unk = unk or 'the %s are %s' % (part, show(t)[:60])
                continue
            flag = kw.get('get_partial', a[1] if len(a) > 1 else FALSE)
            if flag.op != 'const':
                unk = unk or 'partial labels: ' + show(flag)[:60]
            elif bool(flag.args[0]) != fact:
                bad = bad or ('partial labels are used by a model that is not factorized' if not fact else 'labels are used instead of partial labels')
            if int(num(t.args[1])) != pos:
                bad = bad or 'points and labels are exchanged'
    if not seen and not bad:
        bad = 'the model is not updated'
    if bad:
        rep.bad(R_UPD, what, bad, what)
    elif unk:
        rep.unk(R_UPD, what, unk)
    else:
        rep.ok(R_UPD, what)


def run(rep):
    ip = load()
    st = ip.start()
    for name, o, s, fact in configurations(ip, st):
        if o is None:
            rep.unk(R_ANS, name, 'cannot be constructed')
            continue

        def go():
            j = Judge(rep, ip, name, o, s, fact)
            for part, rule in ((j.predict, R_ANS), (j.partial, R_ANS), (j.update, R_UPD), (j.clear, R_CLEAR)):
                def one(part=part, rule=rule):
                    try:
                        part()
                    except Unknown as e:
                        rep.unk(rule, '%s.%s' % (name, part.__name__), str(e))
                rep.guard(rule, '%s.%s' % (name, part.__name__), one)
        rep.guard(R_ANS, name, go)
        if 'Model' in name:
            rep.guard(R_UPD, name + '.update_data', lambda: from_dataset(rep, ip, name, o, s, 'Factorized' in name))
    rep.stats['classes'] = 7

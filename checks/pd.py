"""Inductive analysis of PartitionedDataset, used by C02-C05.

The abstract state is an arbitrary state satisfying the class invariant, expressed only through the public observers:
sizes are non-negative and add up, the i-th row of `data` belongs to the i-th entry of `index`, and the internal
index-to-row map inverts `index`.  Each public mutator is analysed from that state; loops are cut at their heads, where the same
invariant is assumed, and each iteration must re-establish it and change the partition of exactly one point."""
from sa.drive import *
from sa.rows import at, isarray
from sa import ext

NAMES = ('labeled', 'inferred', 'unknown')


class Tie:
    """index array, row map and data array of one epoch"""
    def __init__(self, idx, rm, data):
        self.idx, self.rm, self.data = idx, rm, data


class Model:
    def __init__(self, rep):
        self.rep = rep
        self.ip = load()
        self.ip.find_class
        self.ties = {}          # sym -> Tie
        self.sorted_of = {}
        ext.SIMP[:] = [self.simp]
        self.ip.index_eq = self.index_eq
        self.build()

    # ---------------------------------------------------------------- rewriting rules of the invariant
    def simp(self, t, st):
        if t.op != 'sub':
            return None
        b, i = t.args
        if b in self.ties and self.ties[b].rm is b:
            tie = self.ties[b]
            if i.op == 'sub' and i.args[0] is tie.idx and is_int(i.args[1]):
                return i.args[1]
            if i.op == 'ite':
                return ite(i.args[0], ext.simp_sub(mk('sub', b, i.args[1]), st), ext.simp_sub(mk('sub', b, i.args[2]), st))
            if i.op == 'sub' and i.args[0].op == 'swap':
                j = at(i.args[0], i.args[1], st)
                if j is not i:
                    return ext.simp_sub(mk('sub', b, j), st)
            st.facts.assume(le(ZERO, t), log=False)
            st.facts.assume(lt(t, self.N), log=False)
            return None
        if b in self.ties and self.ties[b].idx is b:
            if i.op == 'sub' and i.args[0] is self.ties[b].rm:
                return i.args[1]
            return None
        if b.op == 'swap' and (is_int(i) or num(i) is not None):
            return at(b, i, st)
        if b.op == 'app' and b.args[0] == 'dict' and len(b.args[1]) == 1:      # {x: p for p, x in enumerate(x_list)}
            m = b.args[1][0]
            if m.op == 'map' and m.args[2] is None:
                p = m.args[0].args[1]
                bvk = mk('bv', m.args[0].args[0])
                if p.op == 'tuple' and p.args[1] is bvk and p.args[0].op == 'sub' and p.args[0].args[1] is bvk:
                    r = mk('sub', sym('rowof<%d>' % p.args[0].args[0].id, 'rowmap'), i)
                    self.invs[r.args[0]] = p.args[0].args[0]
                    if i.op == 'sub' and i.args[0] is p.args[0].args[0]:
                        return i.args[1]
                    # labels are stored for the labeled rows in row order
                    return r
        if i.op == 'sub' and i.args[0] in self.invs and self.invs[i.args[0]] is b:
            return i.args[1]
        return None

    def rowterm(self, x, st):
        if x.op == 'sub' and x.args[0] in self.ties and self.ties[x.args[0]].idx is x.args[0]:
            return self.ties[x.args[0]], x.args[1]
        if x.op == 'sub' and x.args[0].op == 'swap':
            y = at(x.args[0], x.args[1], st)
            if y is not x and y.op == 'sub' and y.args[0] in self.ties:
                return self.ties[y.args[0]], y.args[1]
        return None, x

    def index_eq(self, a, b, st):
        if a.op == 'sub' and a.args[0].op == 'swap':
            a = at(a.args[0], a.args[1], st)
        if b.op == 'sub' and b.args[0].op == 'swap':
            b = at(b.args[0], b.args[1], st)
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite':
                c = x.args[0]
                d = st.facts.decide(c)
                if d is not None:
                    return self.index_eq(x.args[1 if d else 2], y, st)
                return or_(and_(c, self.index_eq(x.args[1], y, st)), and_(not_(c), self.index_eq(x.args[2], y, st)))
        ta, ra = self.rowterm(a, st)
        tb, rb = self.rowterm(b, st)
        if ta and tb and ta is tb:
            return eq(ra, rb)
        t = ta or tb
        if t:
            conv = lambda tt, r, x: r if tt is t else ext.simp_sub(mk('sub', t.rm, x), st)
            return eq(conv(ta, ra, a), conv(tb, rb, b))
        return eq(a, b)

    # ---------------------------------------------------------------- the general state
    def build(self):
        ip = self.ip
        self.invs = {}
        st = ip.start()
        X, IX = A(st, 'X'), A(st, 'IX', 'arr1')
        self.N = length(sym('IX', 'arr1'))
        st.facts.assume(eq(length(sym('X', 'arr2')), self.N))
        ds, st = new1(ip, st, 'PartitionedDataset', X, IX)
        self.ds = ds
        # what the mutators change
        locs = set()
        ls, st = self.labeled_set(st, 'probe')
        ids = A(st, 'ids', 'arr1')
        reach = self.reachable(st, ds)
        for name, args in (('move_to_labeled', [ls]), ('move_to_inferred', [ids]), ('move_to_unknown', [ids]), ('remove_inferred', []), ('clear', [])):
            for v, s in meth(ip, st.fork(), ds, name, *args):
                for oid, f in ip.changed(st, s):
                    if oid in reach:
                        locs.add((oid, f))
        self.locs = sorted(locs, key=str)
        di, _ = attr(ip, st, ds, 'index')
        dd, _ = attr(ip, st, ds, 'data')
        self.idx_root, self.data_root = st.root(di).args[0], st.root(dd).args[0]
        self.int_locs, self.set_locs, self.map_locs = [], [], []
        for oid, f in self.locs:
            o = st.heap[oid]
            if f is None:
                if oid in (self.idx_root, self.data_root):
                    continue
                if o.kind == 'dict':
                    self.map_locs.append(oid)
                else:
                    raise Undecided('PartitionedDataset keeps state in a %s' % o.kind)
            else:
                v = o.fields.get(f)
                if v is not None and v.op == 'ref' and st.heap[v.args[0]].kind == 'inst' and st.heap[v.args[0]].cls.name == 'LabeledSet':
                    self.set_locs.append((oid, f))
                elif v is not None and (is_int(v)):
                    self.int_locs.append((oid, f))
                else:
                    raise Undecided('PartitionedDataset keeps state in attribute %s of an unknown kind' % f)
        if len(self.map_locs) != 1:
            raise Undecided('index-to-row map not identified')
        self.rm_oid = self.map_locs[0]
        g = st.fork()
        g.events = ()
        self.arbitrary(g, 'pre', roles=None)
        for i, (oid, f) in enumerate(self.set_locs):
            v, g = self.labeled_set(g, 'LS%d' % i)
            g.setfield(mk('ref', oid), f, v)
        self.assume_inv(g)
        # the labels kept for training follow the labeled rows
        lsv, g = attr(ip, g, ds, 'labeled_set')
        self.lsv = lsv
        self.LI = g.deep(attr(ip, g, lsv, 'index')[0])
        self.LL = g.deep(attr(ip, g, lsv, 'labels')[0])
        self.LP = g.deep(attr(ip, g, lsv, 'partial')[0])
        I0 = self.sizes(g)[0]
        g.facts.assume(eq(length(self.LI), I0))
        g.facts.assume(eq(length(self.LL), I0))
        g.facts.assume(eq(length(self.LP), I0))
        self.aligned = (self.LI, g.deep(attr(ip, g, ds, 'index')[0]))
        self.pre = g

    def labeled_set(self, st, nm):
        L, PL, LI = A(st, nm + '.labels', 'arr1'), A(st, nm + '.partial', 'arr2'), A(st, nm + '.index', 'arr1')
        n = length(sym(nm + '.labels', 'arr1'))
        st.facts.assume(eq(length(sym(nm + '.partial', 'arr2')), n))
        st.facts.assume(eq(length(sym(nm + '.index', 'arr1')), n))
        return new1(self.ip, st, 'LabeledSet', L, PL, LI)

    def reachable(self, st, r):
        seen, stack = set(), [r]
        while stack:
            x = stack.pop()
            if x.op != 'ref' or x.args[0] in seen:
                for y in (children(x) if x.op in ('list', 'tuple', 'dict') else ()):
                    stack.append(y)
                continue
            seen.add(x.args[0])
            o = st.heap.get(x.args[0])
            if o is None or o.kind == 'env':
                continue
            for v in (o.fields or {}).values():
                stack.append(v)
            if o.base is not None:
                stack.append(o.base[0])
            if o.val is not None:
                stack += [y for y in walk(o.val) if y.op == 'ref']
        return seen

    def arbitrary(self, st, tag, roles):
        """replace the given locations (None: all) by unconstrained values, tied by the coherence invariant"""
        def put(oid, val):
            o = st.heap[oid].copy()
            o.val = val
            st.heap[oid] = o
        todo = (lambda l: True) if roles is None else (lambda l: l in roles)
        if roles is None or any((x, None) in roles for x in (self.idx_root, self.data_root, self.rm_oid)):
            i, r, d = fresh('index', 'arr1'), fresh('rowmap', 'rowmap'), fresh('data', 'arr2')
            t = Tie(i, r, d)
            self.ties[i] = self.ties[r] = self.ties[d] = t
            put(self.idx_root, i)
            put(self.rm_oid, r)
            put(self.data_root, d)
            st.facts.assume(eq(length(i), self.N), log=False)
            st.facts.assume(eq(length(d), self.N), log=False)
        for oid, f in self.int_locs:
            if todo((oid, f)):
                st.setfield(mk('ref', oid), f, fresh(f.split('__')[-1], 'int'))

    def assume_inv(self, st):
        for x in self.sizes(st):
            st.facts.assume(le(ZERO, x), log=False)
        st.facts.assume(eq(length(self.index(st)), self.N), log=False)
        st.facts.assume(eq(length(self.data(st)), self.N), log=False)

    # ---------------------------------------------------------------- observers
    def obs(self, st, name):
        v, s = attr(self.ip, st.fork(), self.ds, name)
        return s.deep(v)

    def sizes(self, st):
        return tuple(self.obs(st, n + '_size') for n in NAMES)

    def index(self, st):
        return self.obs(st, 'index')

    def data(self, st):
        return self.obs(st, 'data')

    def rowmap(self, st):
        return st.heap[self.rm_oid].val

    # ---------------------------------------------------------------- running one operation
    def run_op(self, name, args, st, target=None, tag=''):
        self.op, self.target, self.after = name, target, None
        self.loops = 0
        ip = self.ip
        ip.loop_mode, ip.havoc_hook, ip.body_hook = 'havoc', self.havoc_hook, self.body_hook
        ip.steps = 0
        try:
            return meth(ip, st, self.ds, name, *args)
        finally:
            ip.loop_mode, ip.havoc_hook, ip.body_hook = 'fold', None, None

    def havoc_hook(self, st, locs):
        roles = {l for l in locs if l in self.locs}
        if not roles:
            return
        self.arbitrary(st, 'loop', roles)
        self.assume_inv(st)
        self.after = (self.sizes(st), self.index(st))

    def touched(self, entry, s):
        return any((oid, f) in set(self.locs) for oid, f in self.ip.changed(entry, s))

    def body_hook(self, n, entry, paths, k, dom, elem):
        if not any(self.touched(entry, s) for s, g in paths):
            return
        self.loops += 1
        where = self.ip.where(n)
        construct = 'PartitionedDataset.%s loop' % self.op
        if k is None:
            raise Undecided('while loop over the partition')
        if self.op == 'clear':
            self.clear_body(construct, where, entry, paths, k, dom, elem)
            return
        xs = [x for x in ([elem] + (list(elem.args) if elem.op == 'tuple' else [])) if x.op == 'sub' and x.args[0] is self.ids and x.args[1] is k]
        if not xs:
            raise Undecided('the loop does not run over the given indexes')
        if length(self.ids) is not dom and entry.facts.decide(eq(length(self.ids), dom)) is not True:
            self.rep.bad('every given index is visited', construct, 'the loop visits %s of the given indexes' % show(dom), where)
        tie = self.ties[self.index(entry)]
        pos = mk('sub', tie.rm, xs[0])
        for s, g in paths:
            self.move_path(construct, where, entry, s, g, pos)

    def partition(self, st, sizes, p):
        """forks: yields (0|1|2, st)"""
        for b, s in self.ip.fork_on(lt(p, sizes[0]), st):
            if b:
                yield 0, s
                continue
            for b2, s2 in self.ip.fork_on(lt(p, add(sizes[0], sizes[1])), s):
                yield (1 if b2 else 2), s2

    def newpos(self, chain, base, p, st):
        """position, after the swaps of chain, of what was at p: yields (pos, st)"""
        if chain is base:
            yield p, st
            return
        if chain.op != 'swap':
            raise Undecided('index array is rearranged by something else than swaps')
        b, i, j = chain.args
        for q, s in self.newpos(b, base, p, st):
            for e, s1 in self.ip.fork_on(eq(q, i), s):
                if e:
                    yield j, s1
                    continue
                for e2, s2 in self.ip.fork_on(eq(q, j), s1):
                    yield (i if e2 else q), s2

    def move_path(self, construct, where, entry, s, g, pos):
        rep = self.rep
        pre = self.sizes(entry)
        idx0 = self.index(entry)
        if g is not None and g[0] == 'exc':
            nm = g[1].v.args[0]
            for part, leaf in self.partition(s.fork(), pre, pos):
                rep.expect(nm == 'ValueError' and part == self.target, 'only points already in the target partition are refused', construct,
                           'moving a point of the %s partition to %s raises %s' % (NAMES[part], NAMES[self.target], nm), where)
            return
        if g is not None and g[0] != 'continue':
            rep.bad('every given index is visited', construct, 'the loop is left early by ' + g[0], where)
            return
        post, idx1 = self.sizes(s), self.index(s)
        self.coherent(construct, where, s, idx0)
        for part, leaf in self.partition(s.fork(), pre, pos):
            if part == self.target:
                rep.bad('a point already in the target partition is refused', construct, 'a point already in the %s partition is moved without ValueError' % NAMES[part], where)
                continue
            for q, l2 in self.newpos(idx1, idx0, pos, leaf):
                for part2, l3 in self.partition(l2, post, q):
                    rep.expect(part2 == self.target, 'the given point reaches the requested partition', construct,
                               'a point of the %s partition ends up %s instead of %s when %s' % (NAMES[part], NAMES[part2], NAMES[self.target], facts_text(l3)), where)
        p = fresh('p', 'nat')
        o = s.fork()
        o.facts.assume(lt(p, self.N))
        o.facts.assume(not_(eq(p, pos)))
        for part, leaf in self.partition(o, pre, p):
            for q, l2 in self.newpos(idx1, idx0, p, leaf):
                for part2, l3 in self.partition(l2, post, q):
                    rep.expect(part2 == part, 'all other points keep their partition', construct,
                               'another point goes from %s to %s when %s' % (NAMES[part], NAMES[part2], facts_text(l3)), where)
        rep.expect(all(s.facts.decide(le(ZERO, x)) for x in post) or None, 'partition sizes stay non-negative', construct, 'sizes %s' % (post,), where)
        tot = add(add(*post[:2]), post[2])
        rep.expect(s.facts.decide(eq(tot, self.N)), 'the three partitions cover the data set', construct, 'sizes add up to ' + show(tot), where)

    def coherent(self, construct, where, s, idx0):
        """rows, indexes and row map moved together (from a coherent state with index array idx0)"""
        rep = self.rep
        idx1, data1, rm1 = self.index(s), self.data(s), self.rowmap(s)
        p = fresh('p', 'nat')
        st = s.fork()
        st.facts.assume(lt(p, self.N))
        tie = self.ties.get(idx0)
        if tie is None:
            raise Undecided('index array of unknown origin')
        for (v, row, r), leaf in leaves(self.ip, st, lambda z: (at(idx1, p, z), at(data1, p, z), None)):
            if row.op == 'sub' and row.args[0] is tie.data and (v.op == 'sub' or v.op == 'sym'):
                old = v.args[1] if v.op == 'sub' and v.args[0] is tie.idx else ext.simp_sub(mk('sub', tie.rm, v), leaf)
                d = leaf.facts.decide(eq(old, row.args[1]))
                rep.expect(d, 'each row stays with its own index', construct, 'row %s holds the index of old row %s but the data of old row %s (%s)' % (p, old, row.args[1], facts_text(leaf)), where)
            else:
                rep.unk('each row stays with its own index', construct, 'row %s / %s' % (v, row), where)
                continue
            for (r,), l2 in leaves(self.ip, leaf, lambda z: (self.ip.read(rm1, v, z),)):
                d = l2.facts.decide(eq(r, p)) if is_int(r) else None
                if d is None and is_int(r):
                    # consistent facts under which the map points elsewhere?
                    d = None
                rep.expect(d, 'the index-to-row map points to the row of each index', construct, 'index stored in row %s is looked up in row %s (%s)' % (p, r, facts_text(l2)), where)

    def clear_body(self, construct, where, entry, paths, k, dom, elem):
        rep = self.rep
        xs = [x for x in ([elem] + (list(elem.args) if elem.op == 'tuple' else [])) if x.op == 'sub' and x.args[0].op == 'app' and x.args[0].args[0] in ('np.sort', 'sorted') and x.args[1] is k]
        if not xs:
            raise Undecided('clear does not run over the sorted indexes')
        x = xs[0]
        idx0 = self.index(entry)
        tie = self.ties[idx0]
        pos = ext.simp_sub(mk('sub', tie.rm, x), entry)
        for s, g in paths:
            if g is not None and g[0] != 'continue':
                rep.bad('clear orders all points', construct, 'the loop is left early', where)
                continue
            self.coherent(construct, where, s, idx0)
            st = s.fork()
            # induction: rows before k already hold the k smallest indexes, so the next one is at k or later
            st.facts.assume(le(k, pos), log=False)
            st.facts.assume(le(ZERO, pos), log=False)
            st.facts.assume(lt(pos, self.N), log=False)
            idx1 = self.index(s)
            for (v,), l in leaves(self.ip, st.fork(), lambda z: (at(idx1, k, z),)):
                d = l.facts.decide(self.index_eq(v, x, l))
                rep.expect(d, 'clear orders all points', construct, 'row %s holds %s instead of the %s-th smallest index' % (k, v, k), where)
            p = fresh('p', 'nat')
            st.facts.assume(lt(p, k))
            for (v,), l in leaves(self.ip, st.fork(), lambda z: (at(idx1, p, z),)):
                d = l.facts.decide(self.index_eq(v, mk('sub', idx0, p), l))
                rep.expect(d, 'clear orders all points', construct, 'an already ordered row is disturbed', where)
        rep.expect(entry.facts.decide(eq(dom, self.N)), 'clear orders all points', construct, 'the loop covers %s rows' % show(dom), where)


def facts_text(st, n=4):
    return '; '.join(show(x) for x in st.facts.log[-n:])


def leaves(ip, st, f, depth=0):
    """evaluate f under enough case distinctions to remove its conditionals"""
    if depth == 0:
        st = st.fork()
        if not st.facts.resolve():
            return
    ts = f(st)
    if depth > 14:
        raise Undecided('too many cases')
    for t in list(ts) + [a for a in st.facts.atoms if a.op in ('eq0', 'lt0', 'le0')]:
        if t is None:
            continue
        for x in walk(t):
            if x.op == 'ite' and st.facts.decide(x.args[0]) is None and maxbv(x.args[0]) < 0:
                c = x.args[0]
                for v in (c, not_(c)):
                    s = st.fork()
                    if s.facts.assume(v) and s.facts.resolve():
                        yield from leaves(ip, s, f, depth + 1)
                return
            if t in ts and x.op == 'ite' and st.facts.decide(x.args[0]) is not None:
                d = st.facts.decide(x.args[0])
                m = {x: x.args[1 if d else 2]}
                g = lambda z, f=f, m=m: tuple(subst(y, m) if y is not None else None for y in f(z))
                yield from leaves(ip, st, g, depth + 1)
                return
    yield ts, st


_cache = {}


def analyse(rep):
    m = Model(rep)
    ip = m.ip
    # ------------------------------------------------------------ moves
    for name, target in (('move_to_labeled', 0), ('move_to_inferred', 1), ('move_to_unknown', 2)):
        def one(name=name, target=target):
            construct = 'PartitionedDataset.' + name
            st = m.pre.fork()
            if target == 0:
                arg, st = m.labeled_set(st, 'given')
                m.ids = st.deep(attr(ip, st, arg, 'index')[0])
            else:
                arg = A(st, 'given.ids', 'arr1')
                m.ids = sym('given.ids', 'arr1')
            m.given = arg
            outs = m.run_op(name, [arg], st, target)
            if not m.loops:
                pre = m.sizes(m.pre)
                fine = [s for v, s in outs if not isinstance(v, Exc)]
                if fine and all(s.facts.decide(eq(a, b)) for s in fine for a, b in zip(m.sizes(s), pre)):
                    rep.expect(False, 'the given point reaches its partition', construct, 'no outcome moves anything')
                    return
                raise Undecided('no loop over the given indexes')
            fin = 0
            for v, s in outs:
                if isinstance(v, Exc):
                    continue
                fin += 1
                after_sizes, after_idx = m.after
                for i in range(3):
                    rep.expect(s.facts.decide(eq(m.sizes(s)[i], after_sizes[i])) or None, 'partition sizes only change inside the loop', construct, '%s' % m.sizes(s)[i])
                m_index_same(m, rep, construct, s)
                labels_follow(m, rep, construct, s, target)
            rep.expect(fin > 0, 'the move can complete', construct, 'every outcome raises')
        rep.guard('move', 'PartitionedDataset.' + name, one)

    # ------------------------------------------------------------ flush
    def flush():
        construct = 'PartitionedDataset.remove_inferred'
        for v, s in m.run_op('remove_inferred', [], m.pre.fork()):
            if isinstance(v, Exc):
                rep.bad('flushing the inferred partition', construct, 'raises %s' % v.v)
                continue
            pre, post = m.sizes(m.pre), m.sizes(s)
            idx0, idx1 = m.index(m.pre), m.index(s)
            p = fresh('p', 'nat')
            st = s.fork()
            st.facts.assume(lt(p, m.N))
            for part, leaf in m.partition(st, pre, p):
                for q, l2 in m.newpos(idx1, idx0, p, leaf):
                    for part2, l3 in m.partition(l2, post, q):
                        rep.expect(part2 == (2 if part == 1 else part), 'flushing the inferred partition', construct, 'a point goes from %s to %s' % (NAMES[part], NAMES[part2]))
            rep.expect(s.facts.decide(eq(add(add(*post[:2]), post[2]), m.N)), 'the three partitions cover the data set', construct, str(post))
            if idx1 is not idx0:
                m.coherent(construct, None, s, idx0)
            labels_follow(m, rep, construct, s, None)
    rep.guard('flush', 'PartitionedDataset.remove_inferred', flush)

    # ------------------------------------------------------------ clear
    def clear():
        construct = 'PartitionedDataset.clear'
        outs = m.run_op('clear', [], m.pre.fork())
        for v, s in outs:
            if isinstance(v, Exc):
                rep.bad('clear empties the partitions', construct, 'raises %s' % v.v)
                continue
            post = m.sizes(s)
            for i, want in ((0, ZERO), (1, ZERO), (2, m.N)):
                rep.expect(s.facts.decide(eq(post[i], want)), 'clear puts all points in the unknown partition', construct, '%s_size is %s' % (NAMES[i], post[i]))
            lsv, s2 = attr(ip, s.fork(), m.ds, 'labeled_set')
            for what in ('labels', 'index', 'partial'):
                t = s2.deep(attr(ip, s2, lsv, what)[0])
                z = t.op == 'list' and not t.args or s2.facts.decide(eq(length(t), ZERO))
                rep.expect(True if z else s2.facts.decide(eq(length(base_list(t)), ZERO)), 'clear forgets all labels', construct, '%s are %s' % (what, t))
            for (X, y), s3 in training(m, s, 'last_training_set'):
                rep.expect(s3.facts.decide(eq(length(base_list(y)), ZERO)), 'clear forgets all labels', construct + ' / last_training_set', 'last labels are %s' % show(y))
        if not m.loops:
            raise Undecided('clear has no loop over the points')
    rep.guard('clear', 'PartitionedDataset.clear', clear)

    # ------------------------------------------------------------ observers of the general state
    def views():
        st = m.pre
        I, U = m.sizes(st)[0], add(*m.sizes(st)[:2])
        idx, tie = m.index(st), m.ties[m.index(st)]
        for nm, lo, n in (('labeled', ZERO, I), ('inferred', I, sub_(U, I)), ('unknown', U, sub_(m.N, U)), ('unlabeled', I, sub_(m.N, I))):
            construct = 'PartitionedDataset.' + nm
            v, s = attr(ip, st.fork(), m.ds, nm)
            k = fresh('k', 'nat')
            s.facts.assume(lt(k, n))
            for what, src in (('index', tie.idx), ('data', tie.data)):
                t = s.deep(attr(ip, s, v, what)[0])
                x = at(t, k, s)
                good = x.op == 'sub' and x.args[0] is src and s.facts.decide(eq(x.args[1], add(lo, k)))
                rep.expect(True if good else (False if x.op == 'sub' and x.args[0] in (tie.idx, tie.data) else None), 'partition views expose exactly their rows', construct + '.' + what, 'row k is %s' % show(x))
                ln = length(t)
                if t.op == 'sub' and t.args[1].op == 'slice':
                    lo2 = ZERO if t.args[1].args[0] is NONE else t.args[1].args[0]
                    hi2 = m.N if t.args[1].args[1] is NONE else t.args[1].args[1]
                    ln = sub_(hi2, lo2)
                rep.expect(s.facts.decide(eq(ln, n)), 'partition views expose exactly their rows', construct + '.' + what + ' length', 'length %s instead of %s' % (show(ln), show(n)))
        rep.expect(st.facts.decide(eq(m.obs(st, 'unlabeled_size'), sub_(m.N, I))), 'partition sizes agree', 'PartitionedDataset.unlabeled_size', show(m.obs(st, 'unlabeled_size')))
        for v, s in call(ip, P(Ext('builtins.len')), [m.ds], {}, st.fork()):
            rep.expect(s.facts.decide(eq(v, m.N)), 'partition sizes agree', 'PartitionedDataset.__len__', show(v))
        tot = add(add(*m.sizes(st)[:2]), m.sizes(st)[2])
        rep.expect(st.facts.decide(eq(tot, m.N)), 'the three partitions cover the data set', 'PartitionedDataset sizes', show(tot))
    rep.guard('views', 'PartitionedDataset views', views)

    # ------------------------------------------------------------ lookups
    def lookup():
        st = m.pre.fork()
        ids = A(st, 'ask', 'arr1')
        for v, s in meth(ip, st, m.ds, 'from_index', ids):
            if isinstance(v, Exc):
                rep.bad('lookups return the rows of the given points', 'PartitionedDataset.from_index', 'raises %s' % v.v)
                continue
            tie = m.ties[m.index(s)]
            k = fresh('k', 'nat')
            s.facts.assume(lt(k, length(sym('ask', 'arr1'))))
            want = mk('sub', sym('ask', 'arr1'), k)
            i = at(s.deep(attr(ip, s, v, 'index')[0]), k, s)
            d = at(s.deep(attr(ip, s, v, 'data')[0]), k, s)
            wd = mk('sub', tie.data, mk('sub', tie.rm, want))
            voc = simple
            rep.expect(True if i is want else False if voc(i) else None, 'lookups return the rows of the given points', 'PartitionedDataset.from_index index', 'k-th index is %s' % show(i))
            rep.expect(True if d is wd else False if voc(d) else None, 'lookups return the rows of the given points', 'PartitionedDataset.from_index data', 'k-th row is %s, expected %s' % (show(d), show(wd)))
    rep.guard('lookup', 'PartitionedDataset.from_index', lookup)

    # ------------------------------------------------------------ construction
    def construction():
        ip2 = ip
        st = ip2.start()
        X, IX = A(st, 'X'), A(st, 'IX', 'arr1')
        st.facts.assume(eq(length(sym('X', 'arr2')), length(sym('IX', 'arr1'))))
        m.op, m.target = 'clear', None
        for v, s in new(ip2, st, 'PartitionedDataset', X, IX):
            if isinstance(v, Exc):
                rep.bad('construction succeeds', 'PartitionedDataset.__init__', 'raises %s' % v.v)
                continue
            z = [s.deep(attr(ip2, s.fork(), v, n + '_size')[0]) for n in NAMES]
            rep.expect(z[0] is ZERO and z[1] is ZERO, 'a new data set is entirely unknown', 'PartitionedDataset.__init__', str(z))
            init_coherent(m, rep, v, s)
    rep.guard('construction', 'PartitionedDataset.__init__', construction)
    # ------------------------------------------------------------ training sets and predicted labels
    rep.guard('training_set', 'PartitionedDataset.training_set', lambda: training_sets(m, rep))
    rep.guard('predict_user_labels', 'PartitionedDataset.predict_user_labels', lambda: user_labels(m, rep))
    rep.guard('LabeledSet', 'LabeledSet', lambda: labeled_sets(m, rep))
    rep.stats = dict(functions_analysed=sorted(f for f in ip.visited if f.startswith('aideme.explore')), abstract_steps=ip.steps)
    return m


def init_coherent(m, rep, ds, s):
    """before clear() runs in the constructor, the row map must invert the index array and rows be paired"""
    ip = m.ip
    idx = s.deep(attr(ip, s.fork(), ds, 'index')[0])
    data = s.deep(attr(ip, s.fork(), ds, 'data')[0])
    IX, X = sym('IX', 'arr1'), sym('X', 'arr2')
    # what the loop of clear() starts from
    for t, src, nm in ((idx, IX, 'index'), (data, X, 'data')):
        b = t
        while b.op in ('fold', 'mfold', 'swap', 'fill', 'store'):
            b = b.args[1] if b.op == 'mfold' else b.args[0]
        rep.expect(True if b is src else None, 'the constructor keeps rows and indexes as given', 'PartitionedDataset.__init__ ' + nm, 'starts from ' + show(b))


def base_list(t):
    """the list behind reshape / ravel / asarray views"""
    while t.op == 'app' and t.args[0] in ('reshape', 'ravel', 'np.atleast_2d', 'astype', 'tolist'):
        t = t.args[1][0]
    if t.op == 'app' and t.args[0] in ('np.arange', 'range') and len(t.args[1]) == 1:
        n = t.args[1][0]
        if n.op == 'len':
            return base_list(n.args[0])
        return lst() if n is ZERO else t
    if t.op == 'sub' and t.args[1].op in ('map', 'list') and length(t.args[1]) is ZERO:
        return lst()
    return t


def m_index_same(m, rep, construct, s):
    a = m.after[1]
    rep.expect(True if m.index(s) is a else None, 'rows only move inside the loop', construct, 'index array is changed after the loop')


def training(m, st, name, **kw):
    """outcomes of training_set / last_training_set as ((X, y), st)"""
    for v, s in meth(m.ip, st.fork(), m.ds, name, **kw):
        if isinstance(v, Exc):
            m.rep.bad('training sets can be read', 'PartitionedDataset.' + name, 'raises %s' % v.v)
            continue
        w = s.val(v)
        if w.op != 'tuple' or len(w.args) != 2:
            raise Undecided(name + ' does not return a pair')
        yield (s.deep(w.args[0]), s.deep(w.args[1])), s


def labels_follow(m, rep, construct, s, target):
    """after the operation, the stored labels belong to the labeled rows, in row order"""
    ip = m.ip
    rule = 'stored labels follow the labeled rows'
    lsv, s = attr(ip, s.fork(), m.ds, 'labeled_set')
    li, ll, lp = [s.deep(attr(ip, s, lsv, w)[0]) for w in ('index', 'labels', 'partial')]
    I1 = m.sizes(s)[0]
    idx1 = m.index(s)
    if target is None:
        same = li is m.LI and ll is m.LL and lp is m.LP
        rep.expect(True if same else None, rule, construct, 'labels replaced by %s' % show(ll))
        return
    if target == 0:
        g = [s.deep(attr(ip, s, m.given, w)[0]) for w in ('index', 'labels', 'partial')]
        old = (m.LI, m.LL, m.LP)
        new_ = (li, ll, lp)
        ok = True
        for o, gv, nv, nm in zip(old, g, new_, ('index', 'labels', 'partial')):
            parts = pieces(nv, s)
            want = [x for x in (o, gv) if s.facts.decide(eq(length(x), ZERO)) is not True]
            parts = [x for x in parts if s.facts.decide(eq(length(x), ZERO)) is not True]
            if parts == want:
                rep.ok(rule, construct + ' ' + nm)
            elif all(x in old + tuple(g) for x in parts):
                rep.bad(rule, construct + ' ' + nm, 'the labeled set holds %s %s, expected the old labels followed by the new ones' % (nm, [show(x) for x in parts]))
            elif nv.op == 'sub' or (nv.op == 'app' and nv.args[0] == 'np.concat1'):
                rep.unk(rule, construct + ' ' + nm, show(nv))
            else:
                rep.unk(rule, construct + ' ' + nm, show(nv))
        # the last training set
        for (X, y), s3 in training(m, s, 'last_training_set'):
            k = fresh('k', 'nat')
            s3.facts.assume(lt(k, length(g[0])))
            tie = m.ties.get(m.index(s3))
            x = at(X, k, s3)
            want = mk('sub', tie.data, mk('sub', tie.rm, mk('sub', g[0], k)))
            rep.expect(True if x is want else False if simple(x) else None, 'the last training set holds the latest labeled points', construct + ' / last_training_set rows', 'row k is %s, expected %s' % (show(x), show(want)))
            yk = at(y, k, s3)
            rep.expect(True if yk is mk('sub', g[1], k) else False if simple(yk) else None, 'the last training set holds the latest labeled points', construct + ' / last_training_set labels', 'label k is %s' % show(yk))
        for (X, y), s3 in training(m, s, 'last_training_set', get_partial=TRUE):
            k = fresh('k', 'nat')
            s3.facts.assume(lt(k, length(g[0])))
            yk = at(y, k, s3)
            rep.expect(True if yk is mk('sub', g[2], k) else False if simple(yk) else None, 'the last training set holds the latest labeled points', construct + ' / last_training_set partial labels', 'row k is %s' % show(yk))
        return
    # a move out of the labeled partition: either nothing left it, or labels are re-aligned with the rows
    p = fresh('p', 'nat')
    s.facts.assume(lt(p, I1))
    i1, l1, p1 = at(li, p, s), at(ll, p, s), at(lp, p, s)
    want = ext.simp_sub(mk('sub', idx1, p), s) if idx1.op == 'sym' else at(idx1, p, s)
    if li is m.LI:
        rep.bad(rule, construct, 'the labels of points that left the labeled partition are kept, and the remaining ones are not re-ordered with their rows')
        return
    good = i1 is want
    rep.expect(True if good else False if simple(i1) and i1.op == 'sub' else None, rule, construct + ' index', 'label %s belongs to %s, row %s to %s' % (p, show(i1), p, show(want)))
    rr = row_of(m, i1)
    for nm, got, src in (('labels', l1, m.LL), ('partial', p1, m.LP)):
        if got.op == 'sub' and got.args[0] is src:
            t = got.args[1]
            ok = ext.simp_sub(mk('sub', m.LI, t), s) is i1
            rep.expect(True if ok else False if simple(got) else None, rule, construct + ' ' + nm, '%s come from entry %s' % (nm, show(t)))
        else:
            rep.expect(False if simple(got) else None, rule, construct + ' ' + nm, '%s are %s' % (nm, show(got)))
    n = length(li)
    rep.expect(s.facts.decide(eq(length_sel(li), I1)), rule, construct + ' count', '%s labels for %s rows' % (show(n), show(I1)))


def length_sel(t):
    return length(t)


def row_of(m, x):
    return x


def pieces(t, st):
    if t.op == 'app' and t.args[0] in ('np.concat1', 'np.hstack', 'np.vstack', 'np.concat') and t.args[1] and t.args[1][0].op in ('list', 'tuple'):
        out = []
        for x in t.args[1][0].args:
            out += pieces(x, st)
        return out
    return [t]


def training_sets(m, rep):
    ip = m.ip
    for partial, src in ((FALSE, m.LL), (TRUE, m.LP)):
        for (X, y), s in training(m, m.pre, 'training_set', get_partial=partial):
            construct = 'PartitionedDataset.training_set(get_partial=%s)' % (partial is TRUE)
            I = m.sizes(s)[0]
            tie = m.ties[m.index(s)]
            k = fresh('k', 'nat')
            s.facts.assume(lt(k, I))
            x, yk = at(X, k, s), at(y, k, s)
            rep.expect(True if x is mk('sub', tie.data, k) else False if simple(x) else None, 'training rows and labels are paired', construct + ' rows', 'row k is %s' % show(x))
            rep.expect(True if yk is mk('sub', src, k) else False if simple(yk) else None, 'training rows and labels are paired', construct + ' labels', 'label k is %s' % show(yk))
            rep.expect(s.facts.decide(eq(slice_len(X, m.N), I)), 'training rows and labels are paired', construct + ' size', '%s rows' % show(length(X)))
            rep.expect(s.facts.decide(eq(slice_len(y, m.N), I)), 'training rows and labels are paired', construct + ' number of labels', '%s labels' % show(length(y)))


def slice_len(t, N):
    if t.op == 'sub' and t.args[1].op == 'slice':
        lo = ZERO if t.args[1].args[0] is NONE else t.args[1].args[0]
        hi = length(t.args[0]) if t.args[1].args[1] is NONE else t.args[1].args[1]
        return sub_(hi, lo)
    return length(t)


def user_labels(m, rep):
    ip = m.ip
    construct = 'PartitionedDataset.predict_user_labels'
    st = m.pre.fork()
    al = sym('learner', 'obj')
    n = 0
    for v, s in meth(ip, st, m.ds, 'predict_user_labels', al):
        if isinstance(v, Exc):
            rep.bad('predicted labels cover the data set', construct, 'raises %s' % v.v)
            continue
        n += 1
        I, U = m.sizes(s)[0], m.N
        tie = m.ties[m.index(s)]
        iref, lref = attr(ip, s, v, 'index')[0], attr(ip, s, v, 'labels')[0]
        li, ll = s.deep(iref), s.deep(lref)
        allab = s.facts.decide(eq(I, m.N))
        if v is m.lsv or (li is m.LI and ll is m.LL):
            rep.expect(True if allab else False, 'user labels are kept and other points predicted', construct, 'only the labeled points are returned although others may exist')
            continue
        p = fresh('p', 'nat')
        s.facts.assume(lt(p, m.N))
        for b, s2 in ip.fork_on(lt(p, I), s):
            for (x, i), s3 in leaves(ip, s2, lambda z: (at(ll, p, z), at(li, p, z))):
                if i.op == 'sub' and i.args[0] is tie.idx:
                    q = i.args[1]
                elif i.op == 'sub' and i.args[0] is m.LI:
                    q = i.args[1]
                else:
                    rep.expect(False if simple(i) and i.op == 'sub' else None, 'each predicted label is paired with its point', construct, 'index %s' % show(i))
                    continue
                same = s3.facts.decide(eq(q, p))
                if x.op == 'sub' and x.args[0] is m.LL:
                    d = s3.facts.decide(eq(x.args[1], q))
                    rep.expect(d if b else False, 'user labels are kept and other points predicted', construct, 'point %s gets stored label %s' % (show(q), show(x)))
                elif x.op == 'app' and x.args[0] == 'row.predict':
                    row = x.args[1][-1]
                    if b:
                        rep.bad('user labels are kept and other points predicted', construct, 'a labeled point gets the learner prediction')
                    elif row.op == 'sub' and row.args[0] is tie.data:
                        rep.expect(s3.facts.decide(eq(row.args[1], q)), 'user labels are kept and other points predicted', construct, 'point at row %s gets the prediction for row %s' % (show(q), show(row.args[1])))
                        rep.expect(x.args[1][0] is al, 'user labels are kept and other points predicted', construct + ' learner', 'prediction by ' + show(x.args[1][0]))
                    else:
                        rep.unk('user labels are kept and other points predicted', construct, show(x))
                else:
                    rep.expect(False if any(y.op == 'app' and y.args[0] == 'uninit' for y in walk(x)) or x.op == 'const' else None, 'user labels are kept and other points predicted', construct, 'label of %s point is %s' % ('a labeled' if b else 'an unlabeled', show(x)))
        # snapshot
        for nm, r in (('index', iref), ('labels', lref)):
            root = s.root(r).args[0] if r.op == 'ref' else None
            live = root in (m.idx_root, m.data_root)
            rep.expect(not live, 'the result is a snapshot', construct + ' ' + nm, 'the returned %s array is the live one that later moves rearrange' % nm)
    rep.expect(n > 0, 'predicted labels cover the data set', construct, 'every outcome raises')


def labeled_sets(m, rep):
    ip = m.ip
    st = ip.start()
    a, st = m.labeled_set(st, 'a')
    b, st = m.labeled_set(st, 'b')
    val = lambda s, r, w: s.deep(attr(ip, s, r, w)[0])
    for v, s in meth(ip, st.fork(), a, 'concat', b):
        if isinstance(v, Exc):
            rep.bad('concatenation keeps labels and indexes paired', 'LabeledSet.concat', 'raises %s' % v.v)
            continue
        for w in ('labels', 'partial', 'index'):
            parts = [x for x in pieces(val(s, v, w), s) if s.facts.decide(eq(length(x), ZERO)) is not True]
            want = [x for x in (val(s, a, w), val(s, b, w)) if s.facts.decide(eq(length(x), ZERO)) is not True]
            known_ = [val(s, q, z) for q in (a, b) for z in ('labels', 'partial', 'index')]
            rep.expect(True if parts == want else False if all(x in known_ for x in parts) else None, 'concatenation keeps labels and indexes paired', 'LabeledSet.concat ' + w, '%s are %s' % (w, [show(x) for x in parts]))
    ids = A(st, 'ask', 'arr1')
    for v, s in meth(ip, st.fork(), a, 'get_index', ids):
        if isinstance(v, Exc):
            rep.bad('selection keeps labels and indexes paired', 'LabeledSet.get_index', 'raises %s' % v.v)
            continue
        k = fresh('k', 'nat')
        s.facts.assume(lt(k, length(sym('ask', 'arr1'))))
        i = at(val(s, v, 'index'), k, s)
        rep.expect(True if i is mk('sub', sym('ask', 'arr1'), k) else False if simple(i) else None, 'selection keeps labels and indexes paired', 'LabeledSet.get_index index', show(i))
        for w in ('labels', 'partial'):
            x = at(val(s, v, w), k, s)
            ok = x.op == 'sub' and x.args[0] is val(s, a, w) and ext.simp_sub(mk('sub', val(s, a, 'index'), x.args[1]), s) is i
            rep.expect(True if ok else False if simple(x) else None, 'selection keeps labels and indexes paired', 'LabeledSet.get_index ' + w, show(x))


def run_filtered(rep, prefixes):
    """analyse, keeping the obligations of one property"""
    from sa.report import Report
    r = Report(rep.prop, rep.thorough)
    try:
        analyse(r)
    except Undecided as e:
        rep.unk('analysis', 'PartitionedDataset', str(e))
    for o in r.obs:
        if o[0].startswith(tuple(prefixes)):
            rep._add(*o)
    rep.stats = r.stats

"""C20: the diagonal of every kernel equals the diagonal of its kernel matrix; jitter only on the diagonal."""
from sa.drive import *
from sa.mat import Mat, differ_at

EXPLAIN = ('Every Kernel class of the package is constructed with symbolic parameters and compute(X), compute(X, Y), diagonal(X) are abstractly interpreted; entry (i, j) of each result is an explicit scalar term '
           '(sums over attributes in normal form). Entry (i, i) of the matrix must be the diagonal entry i; adding a jitter must add it at (i, i) and change no other entry, and nothing when the point sets differ. '
           'Differing normal forms are only reported when they disagree on a concrete matrix.')
ASSUME = ['sklearn linear_kernel, rbf_kernel and polynomial_kernel compute their documented formulas (default gamma 1/n_features)', 'equalities hold in real arithmetic']
FLOOR = 25
X, Y = sym('X', 'arr2'), sym('Y', 'arr2')
I_, J_ = sym('i', 'nat'), sym('j', 'nat')
G, CO, JI = sym('gamma', 'float'), sym('coef0', 'float'), sym('jitter', 'float')
VALS = {G: [.25, .5, 2.], CO: [-1., 0., .5, 1.], JI: [.125, 1.], I_: [0., 1., 2.], J_: [0., 1., 2.]}
DIAG = 'diagonal agrees with the kernel matrix'
JIT = 'jitter only on the diagonal of a kernel matrix of one point set'


def kernels(ip):
    """Kernel classes of the package other than the base"""
    base = cls(ip, 'Kernel')
    out = []
    for m in ip.prog.mods:
        for n, v in sorted(ip.st0.obj(ip.modenv[m]).fields.items()):
            c = ob(v)
            if isinstance(c, ClassV) and c.mod.name == m and c is not base and base in c.getmro():
                out.append(c)
    return out


def options(c):
    """constructor arguments to try: every parameter symbolic, optional ones also absent"""
    init = c.find('__init__')[0]
    init = ob(init) or init
    ps = [] if init is None or not hasattr(init, 'node') else [a.arg for a in init.node.args.args[1:]]
    base = {}
    for p in ps:
        base[p] = {'gamma': G, 'coef0': CO, 'degree': C(3), 'jitter': JI}.get(p, sym(p, 'float'))
    if 'kernel' in ps:
        return None, ps
    res = [base]
    if 'gamma' in ps:
        res.append(dict(base, gamma=NONE))
    if 'degree' in ps:
        res.append(dict(base, degree=C(2)))
        res.append(dict(base, degree=ONE))
    return res, ps


def entry(st, t, idx):
    M = Mat(st, same={})
    sh = M.shape(t)
    if len(sh) != len(idx):
        raise Undecided('result with %d dimensions' % len(sh))
    return M.el(t, idx)


def agree(rep, rule, what, a, b, st, msg):
    if a is b or st.facts.decide(eq(a, b)) is True:
        rep.ok(rule, what)
        return
    cons = [c for c in st.facts.log]
    d = differ_at(a, b, {X: (3, 2), Y: (3, 2)}, VALS, consistent=None)
    if d is None or d == 'same':
        rep.unk(rule, what, '%s: %s against %s' % (msg, show(a)[:150], show(b)[:150]))
    else:
        rep.bad(rule, what, '%s: %s against %s' % (msg, show(a)[:200], show(b)[:200]))


def paths(ip, st, o, m, *a):
    for r, s in meth(ip, st, o, m, *a):
        if isinstance(r, Exc):
            continue
        yield s.deep(r), s


def run(rep):
    ip = load()
    ks = kernels(ip)
    rep.stats['kernel_classes'] = [c.name for c in ks]
    plain = [c for c in ks if options(c)[0] is not None]
    wrap = [c for c in ks if options(c)[0] is None]

    def built(c, kw, st):
        for o, s in new(ip, st, c, **kw):
            if not isinstance(o, Exc):
                yield o, s

    def diag(what, mk_):
        def go():
            ip.steps = 0
            st = ip.start()
            for p in (G, JI):
                st.facts.assume(lt(ZERO, p))
            found = False
            for o, s in mk_(st):
                found = True
                x = A(s, 'X')
                for same in (False, True):
                    args = [x, x] if same else [x]
                    lab = what + (': compute(X, X)' if same else ': compute(X)')
                    for K, s1 in paths(ip, s.fork(), o, 'compute', *args):
                        for D, s2 in paths(ip, s1.fork(), o, 'diagonal', x):
                            if s2.facts.bottom if hasattr(s2.facts, 'bottom') else False:
                                continue
                            rep.guard(DIAG, lab, lambda: agree(rep, DIAG, lab, entry(s2, K, (I_, I_)), entry(s2, D, (I_,)), s2, 'entry (i, i) against diagonal entry i'))
            if not found:
                rep.unk(DIAG, what, 'no instance could be constructed')
        rep.guard(DIAG, what, go)

    for c in plain:
        for kw in options(c)[0]:
            what = '%s(%s)' % (c.name, ', '.join('%s=%s' % (k, show(v)) for k, v in kw.items()))
            diag(what, lambda st: built(c, kw, st))
    for w in wrap:
        for c in plain:
            for kw in options(c)[0]:
                ps = options(w)[1]
                inner = '%s(%s)' % (c.name, ', '.join('%s=%s' % (k, show(v)) for k, v in kw.items()))

                def both(st):
                    for k0, s in built(c, kw, st):
                        for o, s2 in built(w, {p: k0 if p == 'kernel' else JI if p == 'jitter' else sym(p, 'float') for p in ps}, s):
                            yield o, s2
                diag('%s over %s' % (w.name, inner), both)

                def jitter():
                    ip.steps = 0
                    st = ip.start()
                    for p in (G, JI):
                        st.facts.assume(lt(ZERO, p))
                    st.facts.assume(not_(eq(I_, J_)))
                    for k0, s in built(c, kw, st):
                        for o, s2 in built(w, {p: k0 if p == 'kernel' else JI if p == 'jitter' else sym(p, 'float') for p in ps}, s):
                            x, y = A(s2, 'X'), A(s2, 'Y')
                            for K, s3 in paths(ip, s2.fork(), o, 'compute', x):
                                for K0, s4 in paths(ip, s3.fork(), k0, 'compute', x):
                                    lab = '%s over %s' % (w.name, inner)
                                    rep.guard(JIT, lab, lambda: agree(rep, JIT, lab + ': entry (i, j)', entry(s4, K, (I_, J_)), entry(s4, K0, (I_, J_)), s4, 'entry off the diagonal'))
                                    rep.guard(JIT, lab, lambda: agree(rep, JIT, lab + ': entry (i, i)', entry(s4, K, (I_, I_)), add(entry(s4, K0, (I_, I_)), JI), s4, 'entry (i, i) with jitter'))
                            for K, s3 in paths(ip, s2.fork(), o, 'compute', x, y):
                                for K0, s4 in paths(ip, s3.fork(), k0, 'compute', x, y):
                                    lab = '%s over %s' % (w.name, inner)
                                    rep.guard(JIT, lab, lambda: agree(rep, JIT, lab + ': different point sets', entry(s4, K, (I_, I_)), entry(s4, K0, (I_, I_)), s4, 'kernel of two point sets'))
                rep.guard(JIT, '%s over %s' % (w.name, inner), jitter)

"""C21: classification metrics equal their definitions, for every label and prediction vector."""
from sa.drive import *
from sa.facts import Facts

EXPLAIN = ('The callbacks returned by classification_metrics and training_classification_metrics are abstractly interpreted with opaque labels and an opaque learner; each reported score is a term over the four cells of the '
           'confusion matrix (cells identified from the argument order and labels= of the call), compared in normal form with the textbook definition on every path (zero and non-zero denominators).')
ASSUME = ['sklearn.metrics.confusion_matrix(a, b, labels=L)[i, j] counts the points with a == L[i] and b == L[j]', 'labels are 0/1']
FLOOR = 20
TP, FP, FN, TN = (sym(n, 'nat') for n in ('TP', 'FP', 'FN', 'TN'))
DEFS = {
    'true_positive': (TP, None), 'false_positive': (FP, None), 'false_negative': (FN, None), 'true_negative': (TN, None),
    'accuracy': (add(TP, TN), add(add(TP, TN), add(FP, FN))), 'precision': (TP, add(TP, FP)), 'recall': (TP, add(TP, FN)),
    'fscore': (mul(C(2), TP), add(mul(C(2), TP), add(FP, FN))),
}
CELL = {(0, 0): TN, (0, 1): FP, (1, 0): FN, (1, 1): TP}     # (true, predicted)
RULE = 'scores equal their definition'


def cmap(t, true, pred, problems):
    """substitution of confusion-matrix cells by the four counts"""
    m = {}
    for x in walk(t):
        if x.op == 'sub' and iscm(x.args[0]) and x.args[1].op == 'tuple' and all(num(i) is not None for i in x.args[1].args):
            tab = table(x.args[0], true, pred, problems)
            ij = tuple(int(num(i)) % 2 for i in x.args[1].args)
            if tab:
                m[x] = tab[ij]
        if x.op == 'app' and x.args[0] in ('.sum', 'np.sum') and x.args[1] and iscm(x.args[1][0]) and len(x.args[1]) == 1:
            if table(x.args[1][0], true, pred, problems):
                m[x] = add(add(TP, TN), add(FP, FN))
    return m


def iscm(t):
    return t.op == 'app' and t.args[0].endswith('confusion_matrix')


def table(cm, true, pred, problems):
    a, kw = cm.args[1], dict(cm.args[2])
    ps = list(a) + [kw.get('y_true'), kw.get('y_pred')][len(a):]
    lab = kw.get('labels')
    if any(k not in ('y_true', 'y_pred', 'labels') for k in kw) or len(ps) != 2:
        problems.append(None)
        return None
    if lab is None or lab is NONE:
        problems.append('confusion matrix without labels=[0, 1]: its shape and cells depend on which classes occur')
        return None
    if lab.op not in ('list', 'tuple') or [num(x) for x in lab.args] not in ([0, 1], [1, 0]):
        problems.append(None)
        return None
    L = [int(num(x)) for x in lab.args]
    if ps == [true, pred]:
        return {(i, j): CELL[L[i], L[j]] for i in (0, 1) for j in (0, 1)}
    if ps == [pred, true]:
        return {(i, j): CELL[L[j], L[i]] for i in (0, 1) for j in (0, 1)}
    problems.append(None)
    return None


def judge(rep, what, outs, true_pred, name, prefix):
    for d, s in outs:
        if isinstance(d, Exc):
            rep.bad(RULE, what, 'computing the score raises ' + str(d.v.args[0]))
            continue
        g = s.deep(d)
        if g.op != 'dict':
            rep.unk(RULE, what, 'the result is not a dictionary: ' + show(g)[:100])
            continue
        items = dict(g.args[0])
        key = C(prefix + name)
        if key not in items:
            known = all(k.op == 'const' for k in items)
            (rep.bad if known else rep.unk)('each score appears under its own name', what, 'reported under ' + ', '.join(show(k) for k in items)[:200])
            continue
        rep.ok('each score appears under its own name', what)
        val = s.deep(items[key])
        true, pred = true_pred(s)
        problems = []
        f = Facts()
        for fact in s.facts.log:
            f.assume(subst(fact, cmap(fact, true, pred, problems)))
        v = subst(val, cmap(val, true, pred, problems))
        if any(problems):
            rep.bad(RULE, what, [p for p in problems if p][0])
            continue
        n, den = DEFS[name]
        zero = None if den is None else f.decide(eq(den, ZERO))
        if den is None:
            want, case = [n], ''
        elif zero is True:
            want, case = [ZERO], ' when the denominator is zero'
        elif zero is False:
            want, case = [div(n, den)], ' when the denominator is not zero'
        else:
            want, case = [ite(eq(den, ZERO), ZERO, div(n, den))], ''
            if v is div(n, den):
                rep.bad(RULE, what, 'a zero denominator is not handled')
                continue
        if v in want or f.decide(eq(v, want[0])) is True:
            rep.ok(RULE, what + case)
        else:
            ok = all(x.op in ('sym', 'poly', 'const', 'ite', 'eq0', 'not', 'lt0', 'le0') for x in walk(v)) and all(x in (TP, FP, FN, TN) for x in walk(v) if x.op == 'sym')
            (rep.bad if ok else rep.unk)(RULE, what + case, 'reports %s instead of %s' % (show(v)[:120], show(want[0])))


def run(rep):
    ip = load()
    M = 'aideme.utils.metrics'
    learner, data = sym('learner', 'obj'), sym('dataset', 'obj')
    for prefix in ('', 'pre_'):
        for name in DEFS:
            for what, build, tp in (
                ('classification_metrics', lambda s, l: call(ip, fn(ip, M, 'classification_metrics'), [A(s, 'X_test'), A(s, 'y_test', 'arr1'), l, C(prefix)], {}, s),
                 lambda s: (sym('y_test', 'arr1'), app('.predict', learner, sym('X_test', 'arr2')))),
                ('training_classification_metrics', lambda s, l: call(ip, fn(ip, M, 'training_classification_metrics'), [l, C(prefix)], {}, s),
                 lambda s: (mk('sub', app('.training_set', data), C(1)), app('.predict', learner, mk('sub', app('.training_set', data), C(0))))),
            ):
                label = '%s([%r], prefix=%r)' % (what, name, prefix)

                def go():
                    st = ip.start()
                    # a second score precedes it: names and values must not be mixed up
                    first = next(n for n in DEFS if n != name)
                    l = st.new('list', val=mk('list', C(first), C(name)))
                    for cb, s in build(st, l):
                        if isinstance(cb, Exc):
                            rep.bad(RULE, label, 'raises ' + str(cb.v.args[0]))
                            continue
                        judge(rep, label, call(ip, cb, [data, learner], {}, s), tp, name, prefix)
                rep.guard(RULE, label, go)
    other(rep, ip, data, learner)


def other(rep, ip, data, learner):
    """three-set metric and prediction entropy"""
    M = 'aideme.utils.metrics'

    def tsm():
        st = ip.start()
        pred = app('.predict', mk('oattr', learner, C('polytope_model'), C(0)), mk('oattr', data, C('data'), C(0)))
        for d, s in call(ip, fn(ip, M, 'three_set_metric'), [data, learner], {}, st):
            g = s.deep(d)
            if g.op != 'dict' or not g.args[0]:
                continue
            v = s.deep(dict(g.args[0]).get(C('tsm'), NONE))
            preds = {x for x in walk(v) if x.op == 'app' and x.args[0] == '.predict'}
            if len(preds) != 1:
                rep.unk(RULE, 'three_set_metric', show(v)[:200])
                continue
            p = preds.pop()
            # counting terms become linear combinations of the numbers of points predicted 1, 0.5 and 0
            m = {}
            for x in walk(v):
                if x.op == 'app' and x.args[0] in ('np.sum', '.sum', 'np.count_nonzero') and len(x.args[1]) == 1 and p in set(walk(x.args[1][0])):
                    tot = ZERO
                    for c, n in ((ONE, TP), (C(0.5), FP), (ZERO, TN)):
                        w = subst(x.args[1][0], {p: c})
                        w = ONE if w is TRUE else ZERO if w is FALSE else w if num(w) is not None else None
                        if w is None:
                            break
                        tot = add(tot, mul(w, n))
                    else:
                        m[x] = tot
            sv = subst(v, m)
            want = div(TP, add(TP, FP))
            vals = [want, ite(eq(add(TP, FP), ZERO), ZERO, want), ZERO]
            known = all(x.op in ('sym', 'poly', 'const') and (x.op != 'sym' or x in (TP, FP, TN)) for x in walk(sv))
            rep.expect(True if sv in vals else False if known else None, RULE, 'three_set_metric', 'reports ' + show(sv)[:200] + ' (TP, FP, TN: numbers of points predicted 1, 0.5, 0)')
    rep.guard(RULE, 'three_set_metric', tsm)

    def ent():
        st = ip.start()
        for d, s in call(ip, fn(ip, M, 'prediction_entropy'), [data, learner], {}, st):
            g = s.deep(d)
            v = s.deep(dict(g.args[0]).get(C('prediction_entropy'), NONE)) if g.op == 'dict' else NONE
            ps = {x for x in walk(v) if x.op == 'app' and x.args[0] == '.predict_proba'}
            if len(ps) != 1:
                rep.unk(RULE, 'prediction_entropy', show(v)[:200])
                continue
            p = ps.pop()
            mp = sub_(ONE, p)
            h = neg(add(mk('app', 'xlogy', (p, p), ()), mk('app', 'xlogy', (mp, mp), ())))
            sym_p = subst(v, {p: sym('p', 'arr1')})
            known = all(x.op in ('sym', 'poly', 'const') or x.op == 'app' and x.args[0] in ('np.mean', 'np.sum', 'xlogy') for x in walk(sym_p))
            rep.expect(True if v is app('np.mean', h) else False if known else None, RULE, 'prediction_entropy', 'reports ' + show(sym_p)[:200])
    rep.guard(RULE, 'prediction_entropy', ent)

"""C14: caller-supplied data is never modified."""
from .comp import *
from . import api
from sa.drive import *

EXPLAIN = ('Every class is abstractly constructed in every supported way and every public method (and every public function) is abstractly executed on arrays, label vectors, index arrays, partitions, lists and dictionaries owned by the caller. '
           'The memory behind views is tracked to the object that owns it: an element assignment, in-place operator, sort, shuffle, append or out= argument whose memory belongs to the caller is a violation, during the call itself or in a later '
           'call on the same object that kept a reference.')
ASSUME = ['NumPy and scikit-learn functions modify only the argument their documentation names', 'user-supplied callables return values they do not keep',
          'a partitioned dataset created with copy=False may reorder the data it was given (documented)']
FLOOR = 300
RULE = 'memory of the caller is not written'
R_LATER = 'memory kept from an earlier call is not written'
INPLACE = {'append', 'extend', 'insert', 'sort', 'fill', 'reverse', 'pop', 'remove', 'setdefault', 'popitem', 'put', 'resize', 'itemset', 'partition', '__setitem__', 'setfield', 'byteswap'}


VIEWS = {'.training_set', '.last_training_set'}      # hand out the data and labels stored in a dataset, not copies


def chain(t):
    """the value at the start of a chain of element and attribute accesses"""
    while True:
        if t.op in ('sub', 'attr', 'oattr'):
            t = t.args[0]
        elif t.op == 'app' and t.args[0] in ('view', 'T', 'ravel', 'reshape', 'np.asarray', 'np.squeeze', 'squeeze', 'np.atleast_2d', 'np.atleast_1d', 'np.ravel', 'np.reshape', 'np.transpose'):
            t = t.args[1][0]
        elif t.op == 'app' and t.args[0] in VIEWS and t.args[1]:
            t = t.args[1][0]
        else:
            return t


def writes(s, e0, caller, syms):
    """[(what, how, where)] writes to memory of the caller"""
    out = []
    for e in flat_events(s.events[e0:]):
        if e[0] == 'mut' and e[1].op == 'ref' and e[1].args[0] in caller:
            out.append((s.heap[e[1].args[0]].tag or 'an argument', str(e[2]), e[4]))
        elif e[0] in ('mutval', 'augval'):
            b = chain(e[1]) if hasattr(e[1], 'op') else None
            if b is not None and (b in syms or (b is not e[1] and b.op == 'ref' and b.args[0] in caller)) and not (e[0] == 'augval' and b is e[1] and b not in syms):
                out.append((show(e[1])[:60], str(e[2]) if e[0] == 'mutval' else 'in-place operator', e[-1]))
        elif e[0] == 'call' and e[2] in INPLACE:
            b = chain(e[1]) if hasattr(e[1], 'op') else None
            if b is not None and b in syms:
                out.append((show(e[1])[:60], '.%s()' % e[2], e[-1]))
    return out


def held(ip, s, o, caller):
    """caller memory the object refers to"""
    out, todo, seen = set(), [o], set()
    while todo:
        x = todo.pop()
        if x.op in ('list', 'tuple', 'set'):
            todo += list(x.args)
        elif x.op == 'dict':
            todo += [v for k, v in x.args[0]]
        if x.op != 'ref' or x in seen:
            continue
        seen.add(x)
        r = s.root(x)
        if r.args[0] in caller:
            out.add(r.args[0])
        ob_ = s.obj(x)
        if ob_.kind == 'inst':
            todo += list(ob_.fields.values())
        elif ob_.val is not None:
            todo.append(ob_.val)
    return out


def visit(ip, construct, kind, outs, err, info):
    got, caller = [], info['caller']
    res = []
    if err:
        return [(RULE, None, construct, 'analysis: ' + err[:200], None)]
    # copy=False lets a dataset or run reorder the data matrix (and a dataset the index) it was given; an IndexedDataset is a view unless copy=True
    free = set()
    name = info['cls'].name if info['cls'] is not None else ''
    if 'copy=False' in construct or (name == 'IndexedDataset' and 'copy=True' not in construct):
        free = {'param:data', 'param:index'} if name in ('IndexedDataset', 'PartitionedDataset') else {'param:data'}
    hits = {}
    for v, s in outs:
        for what, how, where in writes(s, info['e0'], caller, info['syms']):
            if what not in free:
                hits.setdefault((what, how, where), 1)
    if hits:
        what, how, where = sorted(hits)[0]
        res.append((RULE, False, construct, '%s is modified in place (%s)' % (what, how), where))
    else:
        res.append((RULE, True, construct, '', None))
    # functions handed out by the call
    if kind == 'function':
        for v, s in normal(outs)[:3]:
            f = ob(v) if v.op == 'pyobj' else None
            if isinstance(f, Func) and isinstance(f.node, (ast.Lambda, ast.FunctionDef)):
                s2 = s.fork()
                args = [api.value(s2, n) for n in api.params(f.node, 0)[0]]
                e0 = len(s2.events)
                w = sorted({x for v2, s3 in call(ip, v, args, {}, s2) for x in writes(s3, e0, {i for i in s2.heap if i in caller or i not in s.heap}, info['syms'])})
                if w:
                    res.append((R_LATER, False, construct + ' (the returned function)', '%s is modified in place (%s)' % w[0][:2], w[0][2]))
                else:
                    res.append((R_LATER, True, construct + ' (the returned function)', '', None))
    # what the call leaves behind: later calls on the same object must not write to memory of this one
    if kind == 'method' and info['obj'] is not None and '(in use)' not in construct:
        mine = {i for i in caller if i not in info['before']}
        o, c = info['obj'], info['cls']
        for v, s in normal(outs)[:6]:
            kept = held(ip, s, o, mine)
            if not kept:
                continue
            for m, node in api.methods(c):
                if m == info['method'] and 'property' in api.decor(node):
                    continue
                for construct2, k2, outs2, err2, info2 in api.one(ip, c, construct, o, s, m, node, caller, None, 'then .'):
                    if err2:
                        res.append((R_LATER, None, construct2, 'analysis: ' + err2[:160], None))
                        continue
                    w = sorted({x for v2, s2 in outs2 for x in writes(s2, info2['e0'], kept, info['syms'])})
                    if w:
                        res.append((R_LATER, False, construct2, '%s, given to an earlier call, is modified in place (%s)' % w[0][:2], w[0][2]))
                    else:
                        res.append((R_LATER, True, construct2, '', None))
    return res


def run(rep):
    api.sweep(rep, visit, RULE, rep.thorough)

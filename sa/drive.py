"""Small helpers to analyse public entry points with symbolic arguments."""
from .terms import *
from .interp import *
from .program import Program


class Gone(Exception):
    """a public anchor of the property no longer exists"""


def load():
    return Interp(Program())


def A(st, name, kind='arr2'):
    """a caller-supplied array"""
    return st.new('arr', val=sym(name, kind), tag='param:' + name)


def cls(ip, name):
    try:
        return ip.find_class(name)
    except KeyError:
        raise Gone('class ' + name)


def fn(ip, mod, name):
    try:
        return ip.glob(mod, name)
    except KeyError:
        raise Gone('%s.%s' % (mod, name))


def call(ip, f, args=(), kw=None, st=None):
    """all abstract outcomes of a call: [(value | Exc, st)]"""
    return list(ip.call(f, list(args), dict(kw or {}), st))


def new(ip, st, cname, *args, **kw):
    """outcomes of constructing cname"""
    c = cls(ip, cname) if isinstance(cname, str) else cname
    return call(ip, P(c), args, kw, st)


def new1(ip, st, cname, *args, **kw):
    ok = [(v, s) for v, s in new(ip, st, cname, *args, **kw) if not isinstance(v, Exc)]
    if len(ok) != 1:
        raise Undecided('%d construction outcomes of %s' % (len(ok), cname))
    return ok[0]


def meth(ip, st, obj, name, *args, **kw):
    out = []
    for m, s in ip.getattr(obj, name, st):
        if isinstance(m, Exc):
            out.append((m, s))
        else:
            out.extend(call(ip, m, args, kw, s))
    return out


def attr(ip, st, obj, name):
    """value of an attribute/property that must evaluate without forking"""
    r = list(ip.getattr(obj, name, st))
    if len(r) != 1:
        raise Undecided('%d outcomes of attribute %s' % (len(r), name))
    if isinstance(r[0][0], Exc):
        raise Gone('attribute ' + name)
    return r[0]


def normal(outs):
    return [(v, s) for v, s in outs if not isinstance(v, Exc)]


def flat_events(evs):
    """all events, entering loops"""
    for e in evs:
        if e[0] in ('loop', 'loopprefix'):
            for pc, sub_ in e[3]:
                yield from flat_events(sub_)
        else:
            yield e


PLAIN = ('sub', 'sym', 'poly', 'const', 'ite', 'eq0', 'lt0', 'le0', 'not', 'and', 'or', 'len')
REORDER = ('np.sort', 'sorted', 'reversed', 'np.unique', 'shuffled')


def simple(t):
    """only reads of given arrays (possibly after sorting them: an arbitrary array is not sorted): nothing the analysis does not understand"""
    return all(x.op in PLAIN or x.op in ('map', 'lam', 'var', 'bv') or (x.op == 'app' and (x.args[0].startswith('row.') or x.args[0] in REORDER)) for x in walk(t))

"""Models of everything outside the package: Python builtins, numpy, a little of scipy / sklearn.

Every model is a generator yielding (value | Exc, state).  Unknown functions become uninterpreted applications."""
from .terms import *
from .facts import is_int
import math
from . import interp as I

ARRKINDS = ('arr', 'arr1', 'arr2')

CONSTS = {'np.inf': mk('inf'), 'np.Inf': mk('inf'), 'math.inf': mk('inf'), 'np.nan': mk('nan'), 'np.NaN': mk('nan'), 'np.newaxis': NONE,
          'np.pi': sym('np.pi', 'float'), 'math.pi': sym('np.pi', 'float'), 'math.e': sym('np.e', 'float'), 'np.e': sym('np.e', 'float'),
          'typing.TYPE_CHECKING': FALSE, 'builtins.NotImplemented': mk('pyconst', 'NotImplemented'), 'builtins.__debug__': TRUE,
          'builtins.Ellipsis': mk('ellipsis')}


def ext_const(full):
    return CONSTS.get(full)


def NA(st, t, **k):
    return st.new('arr', val=t, **k)


def isarr(v, st):
    return v.op == 'ref' and st.obj(v).kind == 'arr'


def arrayish(v, st):
    if v.op == 'ref':
        return st.obj(v).kind in ('arr', 'list')
    return v.op in ('list', 'map', 'cat')


def _rows_of_oattr(b):
    while b.op == 'sub' and (b.args[1].op in ('map', 'slice') or isbool(b.args[1])):
        b = b.args[0]
    return b.op == 'oattr'


def ndim(t):
    """1, 2 or None"""
    if t.op == 'sym':
        return {'arr1': 1, 'arr2': 2}.get(t.args[1])
    if t.op == 'map':
        b = t.args[0].args[1]
        if num(b) is not None or is_int(b) or isbool(b) or b.op in ('poly',):
            return 1
        return None
    if t.op in ('list', 'tuple'):
        if all(num(a) is not None or is_int(a) or isbool(a) for a in t.args):
            return 1
        return None
    if t.op in ('store', 'mstore', 'fill', 'not', 'swap'):
        return ndim(t.args[0])
    if t.op in ('eq0', 'lt0', 'le0'):
        return ndim(t.args[0])
    if t.op in ('and', 'or', 'eq'):
        for a in t.args:
            if ndim(a):
                return ndim(a)
    if t.op == 'ite':
        return ndim(t.args[1]) or ndim(t.args[2]) or ndim(t.args[0])
    if t.op == 'sub':
        b, i = t.args
        nb = ndim(b)
        if i.op == 'slice' or isbool(i) or i.op in ('map', 'list', 'cat') or ndim(i) == 1 or (i.op == 'app' and i.args[0] in ('np.random.choice', 'nonzero', 'np.argsort')):
            return nb
        if is_int(i) or i.op in ('bv',) or num(i) is not None:
            return nb - 1 if nb == 2 else None
        if i.op == 'tuple' and nb in (2, None) and len(i.args) == 2 and (nb == 2 or _rows_of_oattr(b) and all(x.op == 'slice' or num(x) is not None for x in i.args)):
            ints = sum(1 for x in i.args if num(x) is not None or is_int(x))
            if NONE not in i.args:
                return 2 - ints
        return None
    if t.op == 'poly':
        ds = {ndim(a) for m, _ in t.args[0] for a, _ in m}
        ds.discard(None)
        return max(ds) if ds else None
    if t.op == 'app':
        f, a = t.args[0], t.args[1]
        kw = dict(t.args[2])
        if f in ('np.abs', 'np.sqrt', 'np.exp', 'np.log', 'np.sign', 'expit', 'astype', 'np.sort', 'np.cumsum', 'np.minimum', 'np.maximum', 'copy'):
            return max([d for d in (ndim(x) for x in a) if d] or [0]) or None
        if f in ('np.full', 'np.empty'):
            return len(a[0].args) if a[0].op == 'tuple' else 1 if is_int(a[0]) or num(a[0]) is not None else ndim(a[0].args[0]) if a[0].op == 'attr' and a[0].args[1] == 'shape' else None
        if f in ('np.arange', 'range', 'ravel', 'nonzero', '.predict', 'np.random.choice', 'np.concat1'):
            return 1
        if f == 'np.concat':
            return ndim(a[0].args[0]) if a[0].args else None
        if f in ('np.sum', 'np.max', 'np.min', 'np.mean', 'np.prod', 'np.linalg.norm', 'np.any', 'np.all', 'np.argmax', 'np.argmin'):
            if 'axis' in kw and 'keepdims' not in kw and ndim(a[0]) == 2:
                return 1
            return None
        if f == 'reshape' and a[1].op == 'tuple':
            return len(a[1].args)
        if f == 'np.atleast_2d':
            return 2
        if f == 'matmul':
            x, y = ndim(a[0]), ndim(a[1])
            if x and y:
                return x + y - 2 or None
        if f == 'T':
            return ndim(a[0])
    return None


# --------------------------------------------------------------------------- attributes
ARR_METHODS = {'copy', 'astype', 'reshape', 'ravel', 'flatten', 'sum', 'mean', 'max', 'min', 'prod', 'any', 'all', 'dot', 'fill', 'sort', 'tolist', 'argmax',
               'argmin', 'argsort', 'nonzero', 'item', 'squeeze', 'transpose', 'take', 'clip', 'cumsum', 'std', 'var', 'round', 'diagonal', 'repeat', 'trace', 'view', 'resize', 'partition', 'put', 'itemset', 'swapaxes', 'conj', 'searchsorted'}


def T_of(t):
    if t.op == 'app' and t.args[0] == 'T':
        return t.args[1][0]
    if ndim(t) == 1:
        return t
    return app('T', t)


def arr_attr(ip, v, name, st, n):
    if name == 'T':
        yield st.new('arr', base=(v, T_of, lambda b, nv: T_of(nv))), st
        return
    if name in ARR_METHODS:
        yield I.P(I.ExtBound(v, name)), st
        return
    t = st.deep(v)
    yield shape_attr(t, name, st, v), st


def shape_attr(t, name, st=None, v=None):
    if name == 'shape':
        d = ndim(t)
        if d == 1:
            return tup(length(t))
        return mk('attr', shape_base(t), 'shape')
    if name == 'size' and ndim(t) == 1:
        return length(t)
    if name == 'ndim':
        d = ndim(t)
        if d:
            return C(d)
        return mk('attr', t, 'ndim')
    return mk('attr', t, name)


def shape_base(t):
    """an array of the same shape as t, as simple as possible"""
    while True:
        if t.op in ('store', 'mstore'):
            t = t.args[0]
        elif t.op == 'app' and t.args[0] in ('np.abs', 'np.sqrt', 'np.exp', 'np.log', 'np.sign', 'expit', 'astype', 'np.sort') and t.args[1]:
            t = t.args[1][0]
        elif t.op == 'app' and t.args[0] == 'np.full' and t.args[1][0].op == 'attr' and t.args[1][0].args[1] == 'shape':
            t = t.args[1][0].args[0]
        else:
            return t


STR_METHODS = {'upper', 'lower', 'strip', 'split', 'join', 'format', 'isdigit', 'startswith', 'endswith', 'replace', 'title', 'lstrip', 'rstrip', 'isnumeric', 'isdecimal', 'casefold', 'capitalize', 'splitlines', 'partition', 'count', 'find', 'encode', 'ljust', 'rjust', 'zfill'}


def val_attr(ip, v, name, st, n):
    """attribute of a non-reference, non-python-object term"""
    k = I.kind_of(v)
    if I.isstr(v) or k == 'str':
        yield I.P(I.ExtBound(v, name)), st
        return
    if v.op in ('list', 'tuple', 'cat', 'map', 'dict', 'set'):
        yield I.P(I.ExtBound(v, name)), st
        return
    if name == 'T':
        yield T_of(v), st
        return
    if (v, name) in st.oattr:
        yield st.oattr[(v, name)], st
        return
    if name in ('shape', 'ndim', 'size') and v.op != 'sym':
        yield shape_attr(v, name), st
        return
    yield mk('oattr', v, name, C(st.ver.get(v, 0))), st


# --------------------------------------------------------------------------- calling opaque things
PURE = {'predict', 'predict_proba', 'decision_function', 'transform', 'rank', 'is_inside', 'loss', 'grad', 'get_params', 'kernel', 'diagonal', 'training_set', 'last_training_set', 'from_index', 'partial_proba', 'compute', 'extremes', 'intersection', 'cdf', 'keys', 'values', 'items', 'get',
        'get_rows', 'get_index', 'asdict', 'has_positive_and_negative_labels', 'norm', 'proj', 'equations_defining_vertex', 'is_valid', 'predict_all', 'predict_proba_all', 'rank_all', 'sigmoid', 'predict_partial', 'select_cols', 'index', 'extract', 'copy'}
ARRAY_METHODS = {'predict', 'predict_proba', 'decision_function', 'transform', 'rank', 'partial_proba', 'rank_all', 'predict_all', 'predict_proba_all', 'grad', 'fit_transform', 'diagonal', 'is_inside'}


def call_opaque(ip, fv, args, kw, st, n):
    """call of an unknown function value (a parameter, an attribute, ...)"""
    if fv.op == 'oattr':        # method of an opaque object
        yield from opaque_method(ip, fv.args[0], fv.args[1], args, kw, st, n)
        return
    if fv.op == 'attr' and isinstance(fv.args[1], str):
        yield from opaque_method(ip, fv.args[0], fv.args[1], args, kw, st, n)
        return
    if fv.op == 'const':
        st.event('badcall', 'const', repr(fv), ip.where(n))
        yield I.exc('TypeError', C('not callable')), st
        return
    a = tuple(st.deep(x) for x in args)
    k = tuple(sorted((x, st.deep(y)) for x, y in kw.items()))
    v = st.ver.get(fv, 0)
    st.event('call', fv, None, tuple(args), tuple(sorted(kw.items())), v, ip.where(n))
    st.ver[fv] = v + 1 if 'fnpure' not in (I.kind_of(fv) or '') else v
    if fv.op == 'sym' and fv.args[1] in ('fn', 'obj', None, 'fnpure'):
        r = mk('app', 'call', (fv,) + a, k + (() if fv.args[1] == 'fnpure' else (('@', C(v)),)))
    else:
        r = mk('app', 'call', (fv,) + a, k)
    yield r, st


def opaque_method(ip, recv, meth, args, kw, st, n):
    a = tuple(st.deep(x) for x in args)
    k = tuple(sorted((x, st.deep(y)) for x, y in kw.items()))
    v = st.ver.get(recv, 0)
    st.event('call', recv, meth, tuple(args), tuple(sorted(kw.items())), v, ip.where(n))
    pure = meth in PURE
    rr = recv if recv.op != 'ref' else recv
    if not pure:
        st.ver[recv] = v + 1
    at = (('@', C(v)),) if (v or not pure) else ()
    r = mk('app', '.' + meth, (rr,) + a, k + at)
    if meth in ARRAY_METHODS:
        r = NA(st, r)
    yield r, st


# --------------------------------------------------------------------------- helpers
def argget(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def lift(st, ins, t, out=None):
    """wrap an elementwise result: an array when some input is one"""
    if any(arrayish(v, st) for v in ins):
        return NA(st, t)
    return t


def elementwise(name, f):
    def g(ip, args, kw, st, n, name=name, f=f):
        nargs = [a for a in args]
        out, where = kw.get('out'), kw.get('where')
        arity = f.__code__.co_argcount
        if len(nargs) > arity and out is None:
            out = nargs[arity]
            nargs = nargs[:arity]
        xs = [st.deep(a) for a in nargs]
        t = f(*xs)
        if where is not None and where is not TRUE:
            w = st.deep(where)
            old = st.deep(out) if out is not None and out is not NONE else mk('uninit', C(name), fresh('u'))
            if out is None or out is NONE:
                st.event('uninit', 'np.' + name.split('.')[-1] + ' with where= but no out=', ip.where(n))
            t = ite(w, t, old)
        if out is not None and out is not NONE:
            if out.op == 'ref':
                st.event('mut', st.root(out), 'out=', None, ip.where(n))
                st.setval(out, t)
                yield out, st
            else:
                st.event('mutval', out, 'out=', None, ip.where(n))
                yield t, st
            return
        yield lift(st, nargs, t), st
    return g


def _and(a, b):
    return and_(a, b) if isbool(a) and isbool(b) else app('np.logical_and', a, b)


def _or(a, b):
    return or_(a, b) if isbool(a) and isbool(b) else app('np.logical_or', a, b)


def _not(a):
    return not_(a) if isbool(a) else app('np.logical_not', a)


def sorted_app(f, *xs):
    out = []
    for x in xs:
        if x.op == 'app' and x.args[0] == f:
            out += [y for y in x.args[1] if y not in out]
        elif x not in out:
            out.append(x)
    if len(out) == 1:
        return out[0]
    ns = [x for x in out if num(x) is not None]
    if len(ns) > 1:
        b = (min if f == 'min' else max)(ns, key=num)
        out = [x for x in out if num(x) is None] + [b]
        if len(out) == 1:
            return out[0]
    return mk('app', f, tuple(sorted(out, key=lambda t: t.id)), ())


def t_abs(x):
    if num(x) is not None:
        return C(abs(num(x)))
    if x.op == 'app' and x.args[0] == 'np.abs':
        return x
    p = to_poly(x)
    from .terms import _monokey
    lead = sorted(p.items(), key=lambda mc: _monokey(mc[0]))[-1][1] if p else 1
    return app('np.abs', neg(x) if lead < 0 else x)


def t_sqrt(x):
    v = num(x)
    if v is not None and v in (0, 1, 4, 9):
        return C(int(float(v) ** .5))
    return app('np.sqrt', x)


def t_sigmoid(x):
    return app('expit', x)


def t_exp(x):
    return ONE if x is ZERO else app('np.exp', x)


def t_log(x):
    return ZERO if x is ONE else app('np.log', x)


ELEM = {'np.abs': t_abs, 'np.absolute': t_abs, 'np.fabs': t_abs, 'np.sqrt': t_sqrt, 'np.exp': t_exp, 'np.log': t_log,
        'np.square': lambda x: mul(x, x), 'np.sin': lambda x: app('np.sin', x), 'np.cos': lambda x: app('np.cos', x), 'np.tan': lambda x: app('np.tan', x),
        'np.sign': lambda x: app('np.sign', x), 'np.log2': lambda x: app('np.log2', x), 'np.log10': lambda x: app('np.log10', x), 'np.log1p': lambda x: app('np.log', add(ONE, x)),
        'np.expm1': lambda x: sub_(app('np.exp', x), ONE),
        'np.power': lambda x, y: power(x, y), 'np.maximum': lambda x, y: sorted_app('max', x, y), 'np.minimum': lambda x, y: sorted_app('min', x, y),
        'np.fmax': lambda x, y: sorted_app('max', x, y), 'np.fmin': lambda x, y: sorted_app('min', x, y),
        'np.logical_and': lambda x, y: _and(x, y), 'np.logical_or': lambda x, y: _or(x, y), 'np.logical_not': lambda x: _not(x), 'np.invert': lambda x: _not(x),
        'np.logical_xor': lambda x, y: app('np.logical_xor', *sorted((x, y), key=lambda t: t.id)),
        'np.add': lambda x, y: add(x, y), 'np.subtract': lambda x, y: sub_(x, y), 'np.multiply': lambda x, y: mul(x, y), 'np.negative': lambda x: neg(x),
        'np.divide': lambda x, y: div(x, y), 'np.true_divide': lambda x, y: div(x, y), 'np.reciprocal': lambda x: div(ONE, x),
        'np.equal': lambda x, y: eq(x, y), 'np.not_equal': lambda x, y: not_(eq(x, y)), 'np.less': lambda x, y: lt(x, y), 'np.less_equal': lambda x, y: le(x, y),
        'np.greater': lambda x, y: lt(y, x), 'np.greater_equal': lambda x, y: le(y, x), 'np.isnan': lambda x: app('np.isnan', x), 'np.isinf': lambda x: app('np.isinf', x),
        'np.isfinite': lambda x: app('np.isfinite', x), 'np.logaddexp': lambda x, y: app('np.logaddexp', *sorted((x, y), key=lambda t: t.id)), 'scipy.special.expit': t_sigmoid, 'np.floor': lambda x: app('np.floor', x), 'np.ceil': lambda x: app('np.ceil', x),
        'scipy.special.xlogy': lambda x, y: app('xlogy', x, y), 'np.mod': lambda x, y: app('mod', x, y), 'np.floor_divide': lambda x, y: app('floordiv', x, y),
        'math.sqrt': t_sqrt, 'math.exp': t_exp, 'math.log': t_log, 'math.sin': lambda x: app('np.sin', x), 'math.cos': lambda x: app('np.cos', x),
        'math.ceil': lambda x: C(math.ceil(num(x))) if num(x) is not None else app('ceil', x), 'math.floor': lambda x: C(math.floor(num(x))) if num(x) is not None else app('floor', x), 'math.log2': lambda x: app('np.log2', x), 'math.pow': lambda x, y: power(x, y), 'math.fabs': t_abs,
        'builtins.abs': t_abs, 'math.isnan': lambda x: app('np.isnan', x), 'math.isinf': lambda x: app('np.isinf', x)}
ELEM = {k: elementwise(k, f) for k, f in ELEM.items()}

REDUCE = {'np.sum', 'np.prod', 'np.mean', 'np.max', 'np.min', 'np.amax', 'np.amin', 'np.any', 'np.all', 'np.argmax', 'np.argmin', 'np.cumsum', 'np.std', 'np.var', 'np.median', 'np.count_nonzero', 'np.linalg.norm', 'np.argsort', 'np.nansum', 'np.nanmax', 'np.nanmin', 'np.nanmean', 'np.unique', 'np.diff'}
RED_ALIAS = {'np.amax': 'np.max', 'np.amin': 'np.min'}


def reduce_(ip, name, args, kw, st, n):
    name = RED_ALIAS.get(name, name)
    kw = {k: v for k, v in kw.items() if k not in ('dtype', 'out')}
    x = st.deep(args[0])
    pos = ['axis'] if name != 'np.linalg.norm' else ['ord', 'axis', 'keepdims']
    for k, v in zip(pos, args[1:]):
        kw[k] = v
    kw = {k: st.deep(v) for k, v in kw.items()}
    kw = {k: v for k, v in kw.items() if not (k in ('axis', 'ord') and v is NONE) and not (k == 'keepdims' and v is FALSE)}
    if 'axis' in kw:
        d = ndim(x)
        if d == 1 and num(kw['axis']) in (0, -1) and name not in ('np.cumsum', 'np.argsort'):
            if 'keepdims' not in kw:
                del kw['axis']
        elif d == 2 and num(kw['axis']) == -1:
            kw['axis'] = ONE
        elif d == 2 and num(kw['axis']) == -2:
            kw['axis'] = ZERO
    full = 'axis' not in kw
    t = None
    if name in ('np.any', 'np.all') and full:
        if x.op in ('list', 'tuple'):
            t = (or_ if name == 'np.any' else and_)(*[ip.boolterm(e, st) if not isbool(e) else e for e in x.args])
        elif isbool(x):
            t = quant(name == 'np.any', x)
    if name == 'np.sum' and full and isbool(x) and False:
        t = app('np.count_nonzero', x)
    if name in ('np.max', 'np.min') and full and x.op in ('list', 'tuple') and x.args:
        t = sorted_app('max' if name == 'np.max' else 'min', *x.args)
    if t is None:
        t = appk(name, (x,), kw)
    if not full or name in ('np.cumsum', 'np.argsort', 'np.unique', 'np.diff'):
        yield NA(st, t), st
    else:
        yield t, st


def quant(isany, x):
    """any/all of a boolean array term.  all x == not any not x"""
    if x is TRUE or x is FALSE:
        return app('np.any', x) if isany else not_(app('np.any', not_(x)))
    return app('np.any', x) if isany else not_(app('np.any', not_(x)))


def shape_norm(t):
    if t.op == 'list':
        t = tup(*t.args)
    if t.op == 'tuple' and len(t.args) == 1:
        return t.args[0]
    return t


def full_term(shape, v):
    return app('np.full', shape_norm(shape), v)


def reshape_term(x, shape):
    if shape.op == 'tuple' and len(shape.args) == 1:
        shape = shape.args[0]
    if num(shape) == -1:
        return ravel_term(x)
    if x.op == 'app' and x.args[0] == 'reshape':
        x = x.args[1][0]
    elif x.op == 'app' and x.args[0] == 'ravel':
        x = x.args[1][0]
    return app('reshape', x, shape)


def ravel_term(x):
    if ndim(x) == 1:
        return x
    if x.op == 'app' and x.args[0] in ('ravel', 'reshape') and ndim(x.args[1][0]) == 1:
        return x.args[1][0]
    if x.op == 'app' and x.args[0] in ('ravel', 'reshape'):
        return app('ravel', x.args[1][0])
    if num(x) is not None or x.op in ('list',) or x.op in ('map',) and ndim(x) == 1:
        return x
    return app('ravel', x)


def unravel_write(base, nv):
    if ndim(base) == 1:
        return nv
    return app('reshape', nv, mk('attr', shape_base(base), 'shape'))


def mkview(st, v, rd, wr):
    if v.op == 'ref' and st.obj(v).kind == 'arr':
        return st.new('arr', base=(v, rd, wr), tag='view')
    return NA(st, rd(st.deep(v)))


def matmul(a, b):
    # (a @ b) @ c is kept left associated
    return app('matmul', a, b)


def concat(parts, axis):
    return app('np.concat', tup(*parts), axis=C(axis))


def hstack_term(x):
    if x.op in ('list', 'tuple'):
        if not x.args:
            return app('np.hstack', x)
        ds = {ndim(a) for a in x.args}
        if 2 in ds and 1 not in ds:
            return concat(x.args, 1)
        if 1 in ds and 2 not in ds:
            return app('np.concat1', tup(*x.args))
        return app('np.hstack', tup(*x.args))
    return app('np.hstack', x)


def vstack_term(x):
    if x.op in ('list', 'tuple') and x.args and all(ndim(a) != 1 for a in x.args):
        return concat(x.args, 0)
    return app('np.vstack', tup(*x.args) if x.op == 'list' else x)


def is_fn(t):
    return I.ob(t) is not None or (t.op == 'sym' and t.args[1] in ('fn', 'fnpure'))


TYPE_KINDS = {'int': ('int', 'nat'), 'np.integer': (), 'float': ('float',), 'str': ('str',), 'bool': ('bool',), 'list': ('list',), 'dict': ('dict',), 'set': ('set',), 'tuple': (),
              'np.ndarray': ARRKINDS}


def isinst(x, c, st):
    """x: value, c: class value"""
    if c.op == 'tuple':
        return or_(*[isinst(x, e, st) for e in c.args])
    o = I.ob(c)
    cn = getattr(o, 'name', '?').split('builtins.')[-1]
    if x.op == 'ref':
        ob_ = st.obj(x)
        if ob_.kind == 'inst':
            if isinstance(o, I.ClassV):
                return C(ob_.cls.subclass_of(o))
            if not isinstance(o, I.ClassV) and isinstance(ob_.cls, I.ClassV):
                if any(getattr(b, 'name', '') == getattr(o, 'name', '?') for b in ob_.cls.getmro()):
                    return TRUE
                if not ob_.cls.opaque_base():
                    return C(cn == 'object')
            return mk('isinstance', x, c)
        kn = {'arr': 'np.ndarray'}.get(ob_.kind, ob_.kind)
        if isinstance(o, I.ClassV):
            return FALSE
        return C(kn == cn or cn == 'object')
    k = I.kind_of(x)
    if x.op == 'slice':
        return C(cn == 'slice')
    if x.op in ('tuple', 'list', 'set', 'dict'):
        return C(cn == x.op)
    if x.op == 'const' and x.args[0] is None:
        return FALSE
    if x.op == 'exc':
        return C(cn == x.args[0]) if cn == x.args[0] else mk('isinstance', x, c)
    if x.op == 'pyobj':
        if isinstance(o, I.ClassV) or cn in TYPE_KINDS:
            return FALSE
        return mk('isinstance', x, c)
    if k in ('str', 'int', 'nat', 'float', 'bool', 'list', 'dict', 'set') or k in ARRKINDS:
        if isinstance(o, I.ClassV):
            return FALSE
        if k == 'bool' and cn == 'int':
            return TRUE
        if cn in TYPE_KINDS:
            if cn in ('np.integer',):
                return mk('isinstance', x, c) if k in ('int', 'nat') and x.op != 'const' else FALSE
            return C(k in TYPE_KINDS[cn])
        if cn == 'object':
            return TRUE
        if x.op == 'const':
            return C(cn in {'int': ('numbers.Integral', 'numbers.Real', 'numbers.Number'), 'float': ('numbers.Real', 'numbers.Number'), 'bool': ('numbers.Integral', 'numbers.Real', 'numbers.Number')}.get(k, ()))
    return mk('isinstance', x, c)


# --------------------------------------------------------------------------- builtins
def iter_generic(ip, v, st, n):
    for it, s in ip.iterate(v, st, n):
        yield it, s


def seq_map(ip, v, st, n, f):
    """apply f(elem) to every element of v: yields (list/map term, st)"""
    for it, s in ip.iterate(v, st, n):
        if isinstance(it, list):
            yield lst(*[f(e, s) for e in it]), s
        else:
            k, dom, elem, cond = it
            yield I.mkmap(k, f(elem, s), dom, cond), s


def as_list_term(ip, v, st):
    w = st.val(v)
    if w.op in ('tuple', 'set'):
        return lst(*w.args)
    if w.op == 'dict':
        return lst(*[k for k, _ in w.args[0]])
    if w.op == 'const' and isinstance(w.args[0], str):
        return lst(*[C(c) for c in w.args[0]])
    if w.op in ('list', 'map', 'cat', 'flatmap'):
        return w
    w = st.deep(w)
    if w.op == 'app' and w.args[0] == 'range' and all(num(a) is not None for a in w.args[1]):
        r = range(*[int(num(a)) for a in w.args[1]])
        if len(r) <= 32:
            return lst(*[C(i) for i in r])
    if w.op == 'app' and w.args[0] == 'list':
        return w
    return app('list', w)


def b_len(ip, args, kw, st, n):
    v = args[0]
    if v.op == 'ref' and st.obj(v).kind == 'inst':
        m, _ = st.obj(v).cls.find('__len__')
        if m is not None:
            yield from ip.call(I.P(I.Bound(I.ob(m), v)), [], {}, st, n)
            return
        if not st.obj(v).cls.opaque_base():
            st.event('attrerror', v, '__len__', st.obj(v).cls.name, ip.where(n))
            yield I.exc('TypeError', C('no len')), st
            return
        yield app('lenof', v), st
        return
    w = st.val(v)
    yield length(w if w.op in ('list', 'tuple', 'dict', 'set', 'cat', 'map') else st.deep(w)), st


def b_range(ip, args, kw, st, n):
    a = [st.deep(x) for x in args]
    if len(a) >= 2 and a[0] is ZERO and (len(a) == 2 or a[2] is ONE):
        a = [a[1]]
    yield app('range', *a), st


def b_enumerate(ip, args, kw, st, n):
    start = st.deep(argget(args, kw, 1, 'start', ZERO))
    for it, s in ip.iterate(args[0], st, n):
        if isinstance(it, list):
            yield lst(*[tup(add(start, C(i)), e) for i, e in enumerate(it)]), s
        else:
            k, dom, elem, cond = it
            if cond is not None or dom.op == 'unordered':
                yield app('enumerate', s.deep(args[0])), s
            else:
                yield mk('map', lam(tup(add(start, k), elem), k), dom, None), s


def b_zip(ip, args, kw, st, n):
    def go(i, its, s):
        if i == len(args):
            yield its, s
            return
        for it, s2 in ip.iterate(args[i], s, n):
            yield from go(i + 1, its + [it], s2)
    for its, s in go(0, [], st):
        if all(isinstance(i, list) for i in its):
            yield lst(*[tup(*z) for z in zip(*its)]), s
            continue
        k = fresh('k', 'nat')
        doms, elems, ok = [], [], True
        for a, it in zip(args, its):
            if isinstance(it, list):
                doms.append(C(len(it)))
                elems.append(sub(lst(*it), k))
            else:
                k0, dom, elem, cond = it
                if cond is not None or dom.op == 'unordered':
                    ok = False
                doms.append(dom)
                elems.append(subst(elem, {k0: k}))
        if not ok:
            yield app('zip', *[s.deep(a) for a in args]), s
            continue
        dom = doms[0]
        for d in doms[1:]:
            if d is not dom and s.facts.decide(eq(d, dom)) is not True:
                dom = sorted_app('min', dom, d)
        yield mk('map', lam(tup(*elems), k), dom, None), s


def b_anyall(isany):
    def f(ip, args, kw, st, n):
        v = args[0]
        for it, s in ip.iterate(v, st, n):
            if isinstance(it, list):
                yield (or_ if isany else and_)(*[tb(ip, e, s) for e in it]), s
            else:
                k, dom, elem, cond = it
                b = tb(ip, elem, s)
                if not isany:
                    b = not_(b)
                if cond is not None:
                    b = and_(cond, b)
                if b is FALSE:
                    r = FALSE
                else:
                    r = mk('any', lam(b, k), dom)
                yield (r if isany else not_(r)), s
    return f


def tb(ip, e, st):
    b = ip.boolterm(e, st)
    return b if isinstance(b, T) else C(b)


def b_minmax(name):
    def f(ip, args, kw, st, n):
        xs = [st.deep(a) for a in args]
        if len(xs) == 1:
            x = xs[0]
            if x.op in ('list', 'tuple') and x.args and 'key' not in kw:
                yield sorted_app(name, *x.args), st
                return
            yield appk(name + 'of', (x,), {k: st.deep(v) for k, v in kw.items()}), st
            return
        yield (sorted_app(name, *xs) if not kw else appk(name + '_key', tuple(xs), {k: st.deep(v) for k, v in kw.items()})), st
    return f


def b_sum(ip, args, kw, st, n):
    init = st.deep(argget(args, kw, 1, 'start', ZERO))
    for it, s in ip.iterate(args[0], st, n):
        if isinstance(it, list):
            r = init
            for e in it:
                r = add(r, s.deep(e))
            yield r, s
        else:
            k, dom, elem, cond = it
            yield add(init, mk('sum', lam(s.deep(elem), k), dom, lam(cond, k) if cond is not None else None)), s


def b_isinstance(ip, args, kw, st, n):
    yield isinst(args[0], args[1], st), st


def b_hasattr(ip, args, kw, st, n):
    x, name = args[0], args[1]
    if x.op == 'ref' and st.obj(x).kind == 'inst' and name.op == 'const':
        o = st.obj(x)
        if name.args[0] in o.fields or o.cls.find(name.args[0])[0] is not None:
            yield TRUE, st
            return
        if not o.cls.opaque_base():
            yield FALSE, st
            return
    if x.op == 'ref' and st.obj(x).kind == 'arr' and name.op == 'const':
        yield C(name.args[0] in ARR_METHODS or name.args[0] in ('shape', 'ndim', 'size', 'dtype', 'T', '__len__', '__iter__')), st
        return
    if x.op == 'ref' and st.obj(x).kind in ('list', 'dict', 'set', 'tuple') and name.op == 'const':
        yield C(hasattr({'list': [], 'dict': {}, 'set': set()}[st.obj(x).kind], name.args[0])), st
        return
    if name.op == 'const' and x.op in ('list', 'tuple', 'const'):
        py = {'list': [], 'tuple': ()}.get(x.op, x.args[0] if x.op == 'const' else None)
        yield C(hasattr(py, name.args[0])), st
        return
    if name.op == 'const' and x.op == 'sym' and x.args[1] in ('int', 'nat', 'float', 'str', 'fn', 'bool'):
        py = {'int': 1, 'nat': 1, 'float': 1.0, 'str': '', 'bool': True, 'fn': len}[x.args[1]]
        yield C(hasattr(py, name.args[0])), st
        return
    if isinstance(I.ob(x), (I.Func, I.Bound)) and name.op == 'const':
        yield C(hasattr(b_hasattr, name.args[0])), st
        return
    yield mk('hasattr', x, name), st


def b_getattr(ip, args, kw, st, n):
    x, name = args[0], args[1]
    if name.op != 'const':
        raise I.Undecided('getattr with dynamic name')
    for v, s in ip.getattr(x, name.args[0], st, n):
        if isinstance(v, I.Exc) and len(args) > 2:
            s.events = s.events[:-1]
            yield args[2], s
        else:
            yield v, s


def b_callable(ip, args, kw, st, n):
    x = args[0]
    if I.ob(x) is not None or (x.op == 'sym' and x.args[1] in ('fn', 'fnpure')):
        yield TRUE, st
    elif x.op == 'ref':
        o = st.obj(x)
        if o.kind != 'inst':
            yield FALSE, st
        else:
            yield C(o.cls.find('__call__')[0] is not None), st
    elif x.op in ('const', 'list', 'tuple', 'poly') or I.kind_of(x) in ('str', 'int', 'nat', 'float', 'list', 'dict', 'arr', 'bool'):
        yield FALSE, st
    else:
        yield mk('callable', x), st


def b_list(ip, args, kw, st, n):
    if not args:
        yield st.new('list', val=lst(), tag=ip.where(n)), st
        return
    for it, s in list_of(ip, args[0], st, n):
        yield s.new('list', val=it, tag=ip.where(n)), s


def list_of(ip, v, st, n):
    if v.op == 'ref' and st.obj(v).kind == 'inst':
        for it, s in ip.iterate(v, st, n):
            if isinstance(it, list):
                yield lst(*it), s
            else:
                k, dom, e, cond = it
                yield I.mkmap(k, e, dom, cond), s
        return
    yield as_list_term(ip, v, st), st


def b_tuple(ip, args, kw, st, n):
    if not args:
        yield tup(), st
        return
    for t, s in list_of(ip, args[0], st, n):
        yield (tup(*t.args) if t.op == 'list' else t), s


def b_set(ip, args, kw, st, n):
    if not args:
        yield st.new('set', val=mk('set'), tag=ip.where(n)), st
        return
    w = st.val(args[0])
    if w.op in ('list', 'tuple', 'set'):
        r = mk('set', *dict.fromkeys(st.deep(a) for a in w.args))
    elif w.op == 'dict':
        r = mk('set', *[k for k, _ in w.args[0]])
    else:
        w = st.deep(w)
        r = w if (w.op == 'sym' and w.args[1] == 'set') or (w.op == 'app' and w.args[0] in ('set', 'union', 'inter', 'setdiff')) else app('set', w)
    yield st.new('set', val=r, tag=ip.where(n)), st


def b_dict(ip, args, kw, st, n):
    d = mk('dict', ())
    if args:
        w = st.val(args[0])
        if w.op == 'dict':
            d = w
        elif w.op in ('list',) and all(e.op == 'tuple' and len(e.args) == 2 for e in w.args):
            for e in w.args:
                d = I.dict_set(d, st.deep(e.args[0]), e.args[1])
        else:
            w = st.deep(w)
            d = w if w.op == 'sym' and w.args[1] == 'dict' else app('dict', w)
    for k, v in kw.items():
        if d.op != 'dict' or k == '**':
            d = app('dictmerge', d, mk('dict', ((C(k), v),)) if k != '**' else v)
        else:
            d = I.dict_set(d, C(k), v)
    yield st.new('dict', val=d, tag=ip.where(n)), st


def _plainkey(t):
    if t.op == 'const' and t.args[0] is not None:
        return t.args[0] if not isinstance(t.args[0], str) else (t.args[0],)
    if t.op in ('list', 'tuple'):
        ks = [_plainkey(e) for e in t.args]
        return None if any(k is None for k in ks) else tuple(ks)
    return None


def _sort_literal(ip, args, kw, st, n):
    """sorted() of a known list whose keys are known constants"""
    rev = kw.get('reverse', C(False))
    if rev.op != 'const' or set(kw) - {'key', 'reverse'}:
        return None
    its = list(ip.iterate(args[0], st.fork(), n))
    if len(its) != 1 or not isinstance(its[0][0], list):
        return None
    keys = []
    for e in its[0][0]:
        k = e
        if kw.get('key', NONE) is not NONE:
            r = list(ip.call(kw['key'], [e], {}, st.fork(), n))
            if len(r) != 1 or isinstance(r[0][0], I.Exc):
                return None
            k = r[0][1].deep(r[0][0])
        keys.append(_plainkey(st.deep(k)))
    if any(k is None for k in keys):
        return None
    try:
        order = sorted(range(len(keys)), key=lambda i: keys[i], reverse=bool(rev.args[0]))
    except TypeError:
        return None
    return mk('list', *[its[0][0][i] for i in order])


def b_sorted(ip, args, kw, st, n):
    try:
        lit = _sort_literal(ip, args, kw, st, n)
    except I.Undecided:
        lit = None
    if lit is not None:
        yield st.new('list', val=lit), st
        return
    x = st.deep(as_list_term(ip, args[0], st))
    if x.op == 'app' and x.args[0] == 'list':
        x = x.args[1][0]
    yield st.new('list', val=appk('sorted', (x,), {k: st.deep(v) for k, v in kw.items()})), st


def b_reversed(ip, args, kw, st, n):
    x = as_list_term(ip, args[0], st)
    if x.op == 'list':
        yield lst(*reversed(x.args)), st
    else:
        x = st.deep(x)
        N = length(x)
        k = fresh('k', 'nat')
        yield mk('map', lam(sub(x, sub_(sub_(N, ONE), k)), k), N, None), st


def b_int(ip, args, kw, st, n):
    x = st.deep(args[0]) if args else ZERO
    if num(x) is not None:
        yield C(int(num(x))), st
    elif is_int(x):
        yield x, st
    elif isbool(x):
        yield ite(x, ONE, ZERO), st
    else:
        st.event('intcall', x, ip.where(n))
        yield app('int', x), st


def b_float(ip, args, kw, st, n):
    x = st.deep(args[0]) if args else ZERO
    if x.op == 'const' and isinstance(x.args[0], str):
        try:
            yield C(float(x.args[0])), st
        except ValueError:
            yield I.exc('ValueError'), st
    elif isbool(x) and x.op != 'const':
        yield ite(x, ONE, ZERO), st
    elif I.isstr(x):
        yield app('float', x), st
    else:
        yield x, st


def b_str(ip, args, kw, st, n):
    x = st.deep(args[0]) if args else C('')
    if I.isstr(x):
        yield x, st
    elif num(x) is not None:
        yield C(str(x.args[0])), st
    else:
        yield app('str', x), st


def b_bool(ip, args, kw, st, n):
    yield tb(ip, args[0], st), st


def b_map(ip, args, kw, st, n):
    f = args[0]
    if len(args) > 2:
        for z, s in b_zip(ip, args[1:], {}, st, n):
            yield from _map_over(ip, f, z, s, n, True)
        return
    yield from _map_over(ip, f, args[1], st, n, False)


def _map_over(ip, f, seq, st, n, star):
    for it, s in ip.iterate(seq, st, n):
        if isinstance(it, list):
            def go(i, acc, s):
                if i == len(it):
                    yield lst(*acc), s
                    return
                for r, s2 in ip.call(f, list(it[i].args) if star else [it[i]], {}, s, n):
                    if isinstance(r, I.Exc):
                        yield r, s2
                    else:
                        yield from go(i + 1, acc + [r], s2)
            yield from go(0, [], s)
        else:
            k, dom, elem, cond = it
            base = s.fork()
            if dom.op != 'unordered':
                base.facts.assume(lt(k, dom))
            nf, nev = len(base.facts.log), len(base.events)
            out = list(ip.call(f, list(elem.args) if star else [elem], {}, base, n))
            vals = [(r, s2) for r, s2 in out if not isinstance(r, I.Exc)]
            for r, s2 in out:
                if isinstance(r, I.Exc):
                    yield r, s2
            if not vals:
                return
            t = None
            for r, s2 in reversed(vals):
                x = s2.deep(r)
                t = x if t is None else ite(and_(*s2.facts.log[nf:]), x, t)
            after = s.fork()
            evs = [v[1].events[nev:] for v in vals]
            if any(evs):
                after.events = after.events + (('loop', k, dom, tuple((and_(*v[1].facts.log[nf:]), e) for v, e in zip(vals, evs)), ip.where(n)),)
            for oid, o in vals[-1][1].heap.items():
                if oid not in after.heap:
                    after.heap[oid] = o
            yield I.mkmap(k, t, dom, cond), after


def b_filter(ip, args, kw, st, n):
    f = args[0]
    for it, s in ip.iterate(args[1], st, n):
        if isinstance(it, list):
            raise I.Undecided('filter over concrete list')
        k, dom, elem, cond = it
        rs = list(ip.call(f, [elem], {}, s.fork(), n))
        if len(rs) != 1 or isinstance(rs[0][0], I.Exc):
            raise I.Undecided('filter')
        c = tb(ip, rs[0][0], rs[0][1])
        if cond is not None:
            c = and_(cond, c)
        yield mk('map', lam(elem, k), dom, lam(c, k)), s


def b_type(ip, args, kw, st, n):
    x = args[0]
    if x.op == 'ref' and st.obj(x).kind == 'inst':
        yield I.P(st.obj(x).cls), st
    else:
        yield app('type', st.deep(x)), st


def b_print(ip, args, kw, st, n):
    st.event('io', 'print', tuple(st.deep(a) for a in args), ip.where(n))
    yield NONE, st


def b_input(ip, args, kw, st, n):
    r = fresh('input', 'str')
    st.event('io', 'input', (r,), ip.where(n))
    yield r, st


def b_slice(ip, args, kw, st, n):
    a = [st.deep(x) for x in args]
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    if a[0] is ZERO:
        a[0] = NONE
    if a[2] is ONE:
        a[2] = NONE
    yield mk('slice', *a), st


def b_iter(ip, args, kw, st, n):
    yield args[0], st


def b_next(ip, args, kw, st, n):
    v = args[0]
    w = st.val(v)
    if w.op == 'list' and w.args:
        yield w.args[0], st
        return
    c = st.ver.get(v, 0)
    st.ver[v] = c + 1
    st.event('call', v, '__next__', (), (), c, ip.where(n))
    yield mk('app', 'next', (st.deep(v),), (('@', C(c)),)), st


BUILTINS = {'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'any': b_anyall(True), 'all': b_anyall(False), 'min': b_minmax('min'), 'max': b_minmax('max'),
            'sum': b_sum, 'isinstance': b_isinstance, 'hasattr': b_hasattr, 'getattr': b_getattr, 'callable': b_callable, 'list': b_list, 'tuple': b_tuple, 'set': b_set, 'frozenset': b_set,
            'dict': b_dict, 'sorted': b_sorted, 'reversed': b_reversed, 'int': b_int, 'float': b_float, 'str': b_str, 'repr': b_str, 'bool': b_bool, 'map': b_map, 'filter': b_filter,
            'type': b_type, 'print': b_print, 'input': b_input, 'slice': b_slice, 'iter': b_iter, 'next': b_next}


# --------------------------------------------------------------------------- numpy
def nonzero(st, c):
    """positions of the true elements; known when every element is a constant"""
    if c.op in ('list', 'tuple') and all(x.op == 'const' and isinstance(x.args[0], (bool, int, float, Fraction)) for x in c.args):
        return NA(st, mk('list', *[C(i) for i, x in enumerate(c.args) if x.args[0]]))
    return NA(st, app('nonzero', c))


def n_where(ip, args, kw, st, n):
    c = st.deep(args[0])
    if len(args) == 1:
        yield tup(nonzero(st, c)), st
        return
    a, b = st.deep(args[1]), st.deep(args[2])
    if not isbool(c):
        c = I._truth(c)
    yield NA(st, ite(c, a, b)), st


def n_nonzero(ip, args, kw, st, n):
    yield tup(nonzero(st, st.deep(args[0]))), st


def n_flatnonzero(ip, args, kw, st, n):
    yield nonzero(st, st.deep(args[0])), st


def n_full(ip, args, kw, st, n):
    shape, v = st.deep(argget(args, kw, 0, 'shape')), st.deep(argget(args, kw, 1, 'fill_value'))
    yield NA(st, full_term(shape, v)), st


def n_const(val):
    def f(ip, args, kw, st, n):
        dt = argget(args, kw, 1, 'dtype')
        v = val
        if dt is not None and 'bool' in str(getattr(I.ob(dt), 'name', dt)):
            v = C(val is ONE)
        yield NA(st, full_term(st.deep(argget(args, kw, 0, 'shape')), v)), st
    return f


def n_const_like(val):
    def f(ip, args, kw, st, n):
        x = st.deep(args[0])
        sh = shape_attr(x, 'shape')
        v = val if val is not None else st.deep(argget(args, kw, 1, 'fill_value'))
        yield NA(st, full_term(sh, v)), st
    return f


def n_empty(ip, args, kw, st, n):
    t = app('np.empty', shape_norm(st.deep(argget(args, kw, 0, 'shape'))), fresh('uninit'))
    r = NA(st, t, tag='empty')
    st.event('alloc', r, ip.where(n))
    yield r, st


def n_empty_like(ip, args, kw, st, n):
    t = app('np.empty', shape_attr(st.deep(args[0]), 'shape'), fresh('uninit'))
    r = NA(st, t, tag='empty')
    st.event('alloc', r, ip.where(n))
    yield r, st


def n_arange(ip, args, kw, st, n):
    a = [st.deep(x) for x in args]
    if 'stop' in kw:
        a.append(st.deep(kw['stop']))
    if len(a) >= 2 and a[0] is ZERO and (len(a) == 2 or a[2] is ONE):
        a = [a[1]]
    yield NA(st, app('np.arange', *a)), st


def n_asarray(copy):
    def f(ip, args, kw, st, n):
        v = argget(args, kw, 0, 'a', None) or kw.get('object')
        cp = copy
        if 'copy' in kw:
            cp = kw['copy'] is not FALSE
        if isarr(v, st):
            if cp:
                yield NA(st, st.deep(v)), st
            else:
                yield v, st
            return
        w = st.deep(v)
        yield NA(st, w), st
    return f


def n_ravel(ip, args, kw, st, n):
    yield mkview(st, args[0], ravel_term, unravel_write), st


def n_reshape(ip, args, kw, st, n):
    sh = st.deep(argget(args, kw, 1, 'newshape') or kw.get('shape'))
    yield do_reshape(st, args[0], sh), st


def do_reshape(st, v, sh):
    sh = tup(*sh.args) if sh.op == 'list' else sh
    rd = lambda b, sh=sh: reshape_term(b, sh)

    def wr(b, nv, sh=sh):
        if nv.op == 'app' and nv.args[0] == 'reshape':
            return nv.args[1][0]
        return unravel_write(b, nv)
    return mkview(st, v, rd, wr)


def n_atleast_2d(ip, args, kw, st, n):
    def rd(b):
        return b if ndim(b) == 2 else app('np.atleast_2d', b)
    yield mkview(st, args[0], rd, lambda b, nv: nv if ndim(b) == 2 else app('unatleast', b, nv)), st


def n_hstack(ip, args, kw, st, n):
    yield NA(st, hstack_term(st.deep(as_list_term(ip, args[0], st)))), st


def n_vstack(ip, args, kw, st, n):
    yield NA(st, vstack_term(st.deep(as_list_term(ip, args[0], st)))), st


def n_concatenate(ip, args, kw, st, n):
    x = st.deep(as_list_term(ip, args[0], st))
    ax = num(st.deep(argget(args, kw, 1, 'axis', ZERO)))
    if x.op in ('list', 'tuple'):
        ds = {ndim(a) for a in x.args}
        if ax == 0 and 1 in ds:
            yield NA(st, app('np.concat1', tup(*x.args))), st
            return
        yield NA(st, concat(x.args, int(ax) if ax is not None else 0)), st
        return
    yield NA(st, app('np.concatenate', x, axis=C(int(ax or 0)))), st


def n_matmul(ip, args, kw, st, n):
    r = matmul(st.deep(args[0]), st.deep(args[1]))
    yield NA(st, r), st


def n_clip(ip, args, kw, st, n):
    x, lo, hi = st.deep(args[0]), st.deep(argget(args, kw, 1, 'a_min') or kw.get('min') or NONE), st.deep(argget(args, kw, 2, 'a_max') or kw.get('max') or NONE)
    t = x
    if lo is not NONE:
        t = sorted_app('max', t, lo)
    if hi is not NONE:
        t = sorted_app('min', t, hi)
    out = kw.get('out')
    if out is not None and out.op == 'ref':
        st.event('mut', st.root(out), 'out=', None, ip.where(n))
        st.setval(out, t)
        yield out, st
        return
    yield lift(st, [args[0]], t), st


def n_sort(ip, args, kw, st, n):
    yield NA(st, appk('np.sort', (st.deep(args[0]),), {k: st.deep(v) for k, v in kw.items() if k == 'axis'})), st


def n_copyto(ip, args, kw, st, n):
    dst, src = args[0], st.deep(args[1])
    if dst.op == 'ref':
        st.event('mut', st.root(dst), 'copyto', None, ip.where(n))
        w = kw.get('where')
        st.setval(dst, ite(st.deep(w), src, st.deep(dst)) if w is not None else bcast(st.deep(dst), src))
    else:
        st.event('mutval', dst, 'copyto', None, ip.where(n))
    yield NONE, st


def bcast(dst, src):
    if num(src) is not None:
        return full_term(shape_attr(dst, 'shape'), src)
    return src


def n_fill_diagonal(ip, args, kw, st, n):
    dst = args[0]
    if dst.op == 'ref':
        st.event('mut', st.root(dst), 'fill_diagonal', None, ip.where(n))
        d = st.deep(dst)
        st.setval(dst, store(d, app('np.diag_indices_from', shape_base(d)), st.deep(args[1])))
    else:
        st.event('mutval', dst, 'fill_diagonal', None, ip.where(n))
    yield NONE, st


store = I.store if hasattr(I, 'store') else None


def n_diag_indices_from(ip, args, kw, st, n):
    yield app('np.diag_indices_from', shape_base(st.deep(args[0]))), st


NONDET = ('time.', 'datetime.', 'uuid.', 'secrets.', 'os.urandom', 'os.getpid', 'os.times', 'threading.get_ident', 'builtins.id', 'builtins.hash')


def n_random(ip, name, args, kw, st, n):
    fn = name.split('.')[-1]
    a = tuple(st.deep(x) for x in args)
    k = tuple(sorted((x, st.deep(y)) for x, y in kw.items()))
    st.event('rng', name, a, k, ip.where(n))
    if fn in ('shuffle',):
        v = args[0]
        if v.op == 'ref':
            st.event('mut', st.root(v), 'shuffle', None, ip.where(n))
            st.setval(v, mk('app', 'shuffled', (st.deep(v),), (('#', fresh('u')),)))
        else:
            st.event('mutval', v, 'shuffle', None, ip.where(n))
        yield NONE, st
        return
    if fn == 'seed':
        yield NONE, st
        return
    if fn in ('RandomState', 'default_rng'):
        yield mk('app', 'RandomState', a, k), st
        return
    u = fresh('u')
    t = mk('app', 'np.random.' + fn, a, k + (('#', u),))
    scalar = (fn in ('rand', 'random', 'randn', 'uniform', 'normal', 'randint', 'choice', 'random_sample')) and (
        (fn in ('rand', 'randn') and not a) or (fn in ('random', 'random_sample') and not a and not kw) or (fn in ('uniform', 'normal', 'randint') and len(a) <= 2 and 'size' not in kw) or (fn == 'choice' and len(a) < 2 and 'size' not in kw))
    yield (t if scalar else NA(st, t)), st


def n_einsum(ip, args, kw, st, n):
    yield NA(st, appk('np.einsum', tuple(st.deep(a) for a in args), {k: st.deep(v) for k, v in kw.items()})), st


def n_isin(ip, args, kw, st, n):
    yield NA(st, app('np.isin', st.deep(args[0]), st.deep(args[1]))), st


def n_allclose(ip, args, kw, st, n):
    yield app('np.allclose', st.deep(args[0]), st.deep(args[1])), st


NP = {'np.where': n_where, 'np.nonzero': n_nonzero, 'np.flatnonzero': n_flatnonzero, 'np.full': n_full, 'np.zeros': n_const(ZERO), 'np.ones': n_const(ONE), 'np.zeros_like': n_const_like(ZERO),
      'np.ones_like': n_const_like(ONE), 'np.full_like': n_const_like(None), 'np.empty': n_empty, 'np.empty_like': n_empty_like, 'np.arange': n_arange, 'np.array': n_asarray(True), 'np.asarray': n_asarray(False),
      'np.ascontiguousarray': n_asarray(False), 'np.asanyarray': n_asarray(False), 'np.copy': n_asarray(True), 'np.ravel': n_ravel, 'np.reshape': n_reshape, 'np.atleast_2d': n_atleast_2d, 'np.hstack': n_hstack, 'np.vstack': n_vstack,
      'np.concatenate': n_concatenate, 'np.dot': n_matmul, 'np.matmul': n_matmul, 'np.clip': n_clip, 'np.sort': n_sort, 'np.copyto': n_copyto, 'np.fill_diagonal': n_fill_diagonal, 'np.isin': n_isin, 'np.in1d': n_isin,
      'np.diag_indices_from': n_diag_indices_from, 'np.einsum': n_einsum, 'np.allclose': n_allclose}


# --------------------------------------------------------------------------- other libraries
def x_check_X_y(ip, args, kw, st, n):
    yield tup(args[0], args[1]), st


def x_identity(ip, args, kw, st, n):
    yield args[0], st


def x_column_or_1d(ip, args, kw, st, n):
    yield mkview(st, args[0], ravel_term, unravel_write), st


def x_clone(ip, args, kw, st, n):
    v = args[0]
    c = st.ver.get(mk('clone'), 0)
    st.ver[mk('clone')] = c + 1
    yield mk('app', 'sklearn.clone', (v,), (('@', C(c)),)), st


def x_wraps(ip, args, kw, st, n):
    yield I.P(I.Ext('builtins.$identity')), st


OTHER = {'sklearn.utils.check_X_y': x_check_X_y, 'sklearn.utils.check_array': x_identity, 'sklearn.utils.column_or_1d': x_column_or_1d, 'sklearn.clone': x_clone, 'functools.wraps': x_wraps,
         'builtins.$identity': x_identity, 'typing.cast': lambda ip, a, k, st, n: iter([(a[1], st)]), 'sklearn.utils.validation.column_or_1d': x_column_or_1d, 'sklearn.utils.validation.check_X_y': x_check_X_y,
         'copy.copy': None, 'copy.deepcopy': None}


def call_ext(ip, name, args, kw, st, n):
    if any(a.op == 'star' for a in args) and not name.startswith(('np.einsum', 'builtins.zip', 'builtins.print')):
        st.event('ext', name, tuple(args), tuple(sorted(kw.items())), ip.where(n))
        yield appk(name, tuple(st.deep(a) for a in args), {k: st.deep(v) for k, v in kw.items()}), st
        return
    short = name[9:] if name.startswith('builtins.') else None
    if short in I.BUILTIN_EXC:
        yield mk('exc', short, tuple(st.deep(a) for a in args)), st
        return
    f = None
    if short is not None:
        f = BUILTINS.get(short)
    f = f or ELEM.get(name) or NP.get(name) or OTHER.get(name)
    if f is not None:
        yield from f(ip, args, kw, st, n)
        return
    if name in REDUCE and args:
        yield from reduce_(ip, name, args, kw, st, n)
        return
    if name in ('copy.copy', 'copy.deepcopy'):
        yield from copy_value(ip, args[0], st, name.endswith('deepcopy'))
        return
    if name.startswith(('np.random.', 'random.')):
        yield from n_random(ip, name, args, kw, st, n)
        return
    if name.startswith(NONDET):
        yield app('nondet:' + name, fresh('reading')), st
        return
    if name == 'typing.TypeVar' or name.startswith('typing.'):
        yield app(name), st
        return
    if name == 'builtins.setattr':
        for s, sig in ip.setattr(args[0], args[1].args[0], args[2], st, n):
            yield (sig[1] if sig else NONE), s
        return
    if name == 'builtins.object':
        yield app('object'), st
        return
    if name == 'builtins.open':
        st.event('io', 'open', tuple(st.deep(a) for a in args), ip.where(n))
    st.event('ext', name, tuple(args), tuple(sorted(kw.items())), ip.where(n))
    t = appk(canon_fn(name), tuple(st.deep(a) for a in args), {k: st.deep(v) for k, v in kw.items()})
    yield (NA(st, t) if name.startswith(('np.', 'scipy.linalg', 'sklearn.metrics.pairwise', 'scipy.special')) else t), st


def copy_value(ip, v, st, deep):
    if v.op == 'ref':
        o = st.obj(v)
        if o.kind == 'inst':
            if deep:
                raise I.Undecided('deepcopy of instance')
            r = st.new('inst', cls=o.cls, fields=dict(o.fields))
        else:
            r = st.new(o.kind, val=st.deep(v) if deep or o.kind == 'arr' else st.val(v))
        yield r, st
    else:
        yield v, st


def canon_fn(name):
    return name.split('.')[-1] if name.startswith('scipy.special.') else name


# --------------------------------------------------------------------------- methods
def call_method(ip, recv, meth, args, kw, st, n):
    o = I.ob(recv)
    if isinstance(o, I.Super):
        if meth == '__init__':
            st.event('superinit', o.self_, tuple(args), ip.where(n))
            yield NONE, st
        elif meth == '__setattr__':
            for s, sig in ip.setattr(args[0], args[1].args[0], args[2], st, n):
                yield (sig[1] if sig else NONE), s
        else:
            s = o.self_
            if s.op == 'ref' and isinstance(st.obj(s).cls, I.ClassV) and not st.obj(s).cls.opaque_base():
                st.event('attrerror', s, meth, 'super()', ip.where(n))
                yield I.exc('AttributeError', C(meth)), st
                return
            yield from opaque_method(ip, s, meth, args, kw, st, n)
        return
    if recv.op == 'ref':
        kind = st.obj(recv).kind
        if kind == 'arr':
            yield from arr_method(ip, recv, meth, args, kw, st, n)
            return
        if kind == 'list':
            yield from list_method(ip, recv, meth, args, kw, st, n)
            return
        if kind == 'dict':
            yield from dict_method(ip, recv, meth, args, kw, st, n)
            return
        if kind == 'set':
            yield from set_method(ip, recv, meth, args, kw, st, n)
            return
        yield from opaque_method(ip, recv, meth, args, kw, st, n)
        return
    if I.isstr(recv) or I.kind_of(recv) == 'str':
        yield from str_method(ip, recv, meth, args, kw, st, n)
        return
    if recv.op in ('list', 'tuple', 'cat', 'map', 'dict', 'set'):
        kind = {'cat': 'list', 'map': 'list', 'tuple': 'list'}.get(recv.op, recv.op)
        tmp = st.new(kind, val=recv if recv.op != 'tuple' else lst(*recv.args))
        yield from {'list': list_method, 'dict': dict_method, 'set': set_method}[kind](ip, tmp, meth, args, kw, st, n)
        return
    yield from opaque_method(ip, recv, meth, args, kw, st, n)


def arr_method(ip, v, meth, args, kw, st, n):
    t = st.deep(v)
    np_name = {'max': 'np.max', 'min': 'np.min', 'sum': 'np.sum', 'mean': 'np.mean', 'prod': 'np.prod', 'any': 'np.any', 'all': 'np.all', 'argmax': 'np.argmax', 'argmin': 'np.argmin',
               'cumsum': 'np.cumsum', 'argsort': 'np.argsort', 'std': 'np.std', 'var': 'np.var'}.get(meth)
    if np_name:
        yield from reduce_(ip, np_name, [v] + list(args), kw, st, n)
    elif meth in ('copy', 'flatten'):
        yield NA(st, ravel_term(t) if meth == 'flatten' else t), st
    elif meth == 'astype':
        ty = getattr(I.ob(args[0]), 'name', None) if args else None
        if ty is None and args and args[0].op == 'const':
            ty = str(args[0].args[0])
        r = t
        if ty is not None and 'int' in ty and isbool(t):
            r = ite(t, ONE, ZERO)
        elif ty is not None and 'float' in ty:
            r = ite(t, ONE, ZERO) if isbool(t) else t
        elif ty is not None and 'bool' in ty:
            r = t if isbool(t) else not_(eq(t, ZERO))
        else:
            r = app('astype', t, C(ty) if ty else NONE)
        yield NA(st, r), st
    elif meth == 'reshape':
        sh = st.deep(args[0]) if len(args) == 1 else tup(*[st.deep(a) for a in args])
        yield do_reshape(st, v, sh), st
    elif meth == 'ravel':
        yield mkview(st, v, ravel_term, unravel_write), st
    elif meth == 'dot':
        yield NA(st, matmul(t, st.deep(args[0]))), st
    elif meth == 'fill':
        st.event('mut', st.root(v), 'fill', None, ip.where(n))
        st.setval(v, full_term(shape_attr(t, 'shape'), st.deep(args[0])))
        yield NONE, st
    elif meth == 'sort':
        st.event('mut', st.root(v), 'sort', None, ip.where(n))
        st.setval(v, app('np.sort', t))
        yield NONE, st
    elif meth == 'tolist':
        yield st.new('list', val=t if t.op in ('list', 'tuple') else app('tolist', t)), st
    elif meth == 'clip':
        yield from n_clip(ip, [v] + list(args), kw, st, n)
    elif meth == 'nonzero':
        yield tup(nonzero(st, t)), st
    elif meth in ('transpose',) and not args:
        yield st.new('arr', base=(v, T_of, lambda b, nv: T_of(nv))), st
    elif meth == 'squeeze':
        yield mkview(st, v, lambda b: b if ndim(b) == 1 else app('squeeze', b), unravel_write), st
    elif meth == 'item':
        yield (st.deep(sub(t, args[0])) if args else app('item', t)), st
    elif meth in ARR_METHODS:
        yield NA(st, appk('arr.' + meth, (t,) + tuple(st.deep(a) for a in args), {k: st.deep(x) for k, x in kw.items()})), st
    else:
        yield from opaque_method(ip, v, meth, args, kw, st, n)


def mut(ip, st, v, what, n, arg=None):
    st.event('mut', st.root(v), what, arg, ip.where(n))


def list_method(ip, v, meth, args, kw, st, n):
    w = st.val(v)
    if meth == 'append':
        mut(ip, st, v, 'append', n, args[0])
        st.setval(v, cat(w, lst(args[0])))
        yield NONE, st
    elif meth == 'extend':
        mut(ip, st, v, 'extend', n, args[0])
        for x, s in list_of(ip, args[0], st, n):
            s.setval(v, cat(s.val(v), x))
            yield NONE, s
    elif meth == 'insert':
        mut(ip, st, v, 'insert', n, args[1])
        if w.op == 'list' and num(args[0]) is not None:
            xs = list(w.args)
            xs.insert(int(num(args[0])), args[1])
            st.setval(v, lst(*xs))
        elif args[0] is ZERO:
            st.setval(v, cat(lst(args[1]), w))
        else:
            st.setval(v, app('inserted', w, args[0], args[1]))
        yield NONE, st
    elif meth == 'pop':
        mut(ip, st, v, 'pop', n)
        i = args[0] if args else C(-1)
        if w.op == 'list' and num(i) is not None and w.args and -len(w.args) <= num(i) < len(w.args):
            xs = list(w.args)
            r = xs.pop(int(num(i)))
            st.setval(v, lst(*xs))
            yield r, st
        else:
            st.setval(v, app('popped', w, i))
            yield sub(w, i), st
    elif meth == 'clear':
        mut(ip, st, v, 'clear', n)
        st.setval(v, lst())
        yield NONE, st
    elif meth in ('sort', 'reverse', 'remove'):
        mut(ip, st, v, meth, n, args[0] if args else None)
        if meth == 'reverse' and w.op == 'list':
            st.setval(v, lst(*reversed(w.args)))
        elif meth == 'remove' and w.op == 'list' and args[0] in w.args:
            xs = list(w.args)
            xs.remove(args[0])
            st.setval(v, lst(*xs))
        else:
            st.setval(v, appk({'sort': 'sorted'}.get(meth, meth + 'd'), (st.deep(w),) + tuple(st.deep(a) for a in args), {k: st.deep(x) for k, x in kw.items()}))
        yield NONE, st
    elif meth == 'copy':
        yield st.new('list', val=w), st
    elif meth in ('index', 'count'):
        yield app('list.' + meth, st.deep(w), *[st.deep(a) for a in args]), st
    else:
        st.event('attrerror', v, meth, 'list', ip.where(n))
        yield I.exc('AttributeError', C(meth)), st


def dict_method(ip, v, meth, args, kw, st, n):
    w = st.val(v)
    if meth == 'get':
        k, d = st.deep(args[0]), (args[1] if len(args) > 1 else NONE)
        if w.op == 'dict':
            yield from ip.dict_get(w, k, st, d)
        else:
            for b, s in ip.fork_on(mk('in', k, st.deep(w)), st):
                yield (simp_sub(sub(s.deep(w), k), s) if b else d), s
    elif meth in ('keys', 'values', 'items'):
        if w.op == 'dict':
            f = {'keys': lambda k, x: k, 'values': lambda k, x: x, 'items': lambda k, x: tup(k, x)}[meth]
            yield lst(*[f(k, x) for k, x in w.args[0]]), st
        elif w.op == 'app' and w.args[0] == 'dict' and w.args[1][0].op == 'map':
            m = w.args[1][0]
            p = m.args[0].args[1]
            if p.op == 'tuple':
                b = {'keys': p.args[0], 'values': p.args[1], 'items': p}[meth]
                yield mk('map', mk('lam', m.args[0].args[0], b), m.args[1], m.args[2]), st
            else:
                yield app('dict.' + meth, st.deep(w)), st
        else:
            yield app('dict.' + meth, st.deep(w)), st
    elif meth == 'update':
        mut(ip, st, v, 'update', n)
        new = st.val(args[0]) if args else mk('dict', ())
        for k, x in kw.items():
            new = I.dict_merge(new, mk('dict', ((C(k), x),)))
        st.setval(v, I.dict_merge(w, new))
        yield NONE, st
    elif meth == 'copy':
        yield st.new('dict', val=w), st
    elif meth == 'clear':
        mut(ip, st, v, 'clear', n)
        st.setval(v, mk('dict', ()))
        yield NONE, st
    elif meth == 'pop':
        k = st.deep(args[0])
        d = args[1] if len(args) > 1 else None
        if w.op == 'dict' and k.op == 'const':
            for r, s in ip.dict_get(w, k, st, d):
                if not isinstance(r, I.Exc):
                    mut(ip, s, v, 'pop', n)
                    s.setval(v, mk('dict', tuple((a, b) for a, b in w.args[0] if a is not k)))
                yield r, s
        else:
            mut(ip, st, v, 'pop', n)
            st.setval(v, app('popped', st.deep(w), k))
            yield sub(st.deep(w), k), st
    elif meth == 'setdefault':
        k = st.deep(args[0])
        d = args[1] if len(args) > 1 else NONE
        if w.op == 'dict':
            for r, s in ip.dict_get(w, k, st, mk('nokey')):
                if r.op == 'nokey':
                    mut(ip, s, v, 'setdefault', n)
                    s.setval(v, I.dict_set(w, k, d))
                    yield d, s
                else:
                    yield r, s
        else:
            raise I.Undecided('setdefault')
    else:
        st.event('attrerror', v, meth, 'dict', ip.where(n))
        yield I.exc('AttributeError', C(meth)), st


def set_term(ip, v, st):
    w = st.deep(v)
    if w.op in ('list', 'tuple'):
        return mk('set', *dict.fromkeys(w.args))
    if w.op == 'set' or (w.op == 'sym' and w.args[1] == 'set') or (w.op == 'app' and w.args[0] in ('set', 'union', 'inter', 'setdiff')):
        return w
    return app('set', w)


def set_method(ip, v, meth, args, kw, st, n):
    w = st.deep(v)
    if meth in ('add', 'discard', 'remove'):
        mut(ip, st, v, meth, n, args[0])
        one = mk('set', st.deep(args[0]))
        st.setval(v, I.setop('union' if meth == 'add' else 'setdiff', w, one))
        yield NONE, st
    elif meth in ('union', 'difference', 'intersection', 'update', 'difference_update', 'intersection_update'):
        f = 'setdiff' if 'diff' in meth else 'inter' if 'inter' in meth else 'union'
        r = w
        for a in args:
            r = I.setop(f, r, set_term(ip, a, st))
        if 'update' in meth:
            mut(ip, st, v, meth, n, args[0] if args else None)
            st.setval(v, r)
            yield NONE, st
        else:
            yield st.new('set', val=r), st
    elif meth in ('issubset', 'issuperset', 'isdisjoint'):
        o = set_term(ip, args[0], st)
        pair = [w, o] if meth == 'issubset' else [o, w]
        if meth != 'isdisjoint' and all(x.op == 'set' and all(y.op == 'const' for y in x.args) for x in pair):
            yield C(set(pair[0].args) <= set(pair[1].args)), st
        elif meth == 'issubset':
            yield mk('in', app('subset', w, o), mk('truthy')), st
        elif meth == 'issuperset':
            yield mk('in', app('subset', o, w), mk('truthy')), st
        else:
            yield eq(length(I.setop('inter', w, o)), ZERO), st
    elif meth == 'copy':
        yield st.new('set', val=w), st
    elif meth == 'clear':
        mut(ip, st, v, 'clear', n)
        st.setval(v, mk('set'))
        yield NONE, st
    elif meth == 'pop':
        mut(ip, st, v, 'pop', n)
        u = fresh('u')
        st.setval(v, app('popped', w, u))
        yield app('setpop', w, u), st
    else:
        st.event('attrerror', v, meth, 'set', ip.where(n))
        yield I.exc('AttributeError', C(meth)), st


def str_method(ip, recv, meth, args, kw, st, n):
    a = [st.deep(x) for x in args]
    if recv.op == 'const' and all(x.op == 'const' for x in a) and not kw and meth in STR_METHODS and meth not in ('format', 'join', 'encode'):
        try:
            r = getattr(recv.args[0], meth)(*[x.args[0] for x in a])
            if isinstance(r, list):
                yield st.new('list', val=lst(*[C(x) for x in r])), st
            else:
                yield C(r), st
            return
        except Exception:
            pass
    if meth == 'format':
        yield I.strcat([mk('app', '.format', (recv,) + tuple(a), tuple(sorted((k, st.deep(x)) for k, x in kw.items())))]) if not (recv.op == 'const' and all(x.op == 'const' and isinstance(x.args[0], (str, int)) for x in a) and not kw) else C(recv.args[0].format(*[x.args[0] for x in a])), st
        return
    if meth == 'join' and recv.op == 'const' and a[0].op == 'list':
        parts = []
        for i, e in enumerate(a[0].args):
            if i:
                parts.append(recv)
            parts.append(e)
        yield I.strcat(parts), st
        return
    if meth in ('split', 'splitlines'):
        yield st.new('list', val=app('.' + meth, recv, *a)), st
        return
    if meth in ('isdigit', 'isnumeric', 'isdecimal', 'startswith', 'endswith'):
        yield app('str.isdigit' if meth != 'startswith' and meth != 'endswith' else 'str.' + meth, recv, *a), st
        return
    yield app('.' + meth, recv, *a), st


# --------------------------------------------------------------------------- simplification hooks
SIMP = []          # extra rules installed by checks: f(term, st) -> term or None


def simp_sub(t, st):
    for f in SIMP:
        r = f(t, st)
        if r is not None and r is not t:
            return r
    if t.op == 'sub':
        b, i = t.args
        # element of an elementwise boolean / arithmetic expression is not distributed here
        if b.op == 'app' and b.args[0] == 'dict' and len(b.args[1]) == 1 and b.args[1][0].op == 'map' and b.args[1][0].args[2] is None:
            m = b.args[1][0]
            p = m.args[0].args[1]
            bvk = mk('bv', m.args[0].args[0])
            if p.op == 'tuple' and p.args[1] is bvk and p.args[0].op == 'sub' and p.args[0].args[1] is bvk and i.op == 'sub' and i.args[0] is p.args[0].args[0] and is_int(i.args[1]):
                return i.args[1]
    return t


def simp_store(base, idx, val, st):
    # simultaneous row swap a[[i, j]] = a[[j, i]]
    if idx.op == 'list' and len(idx.args) == 2 and val.op == 'sub' and val.args[0] is base and val.args[1].op == 'list' and val.args[1].args == (idx.args[1], idx.args[0]):
        i, j = idx.args
        return mk('swap', base, i, j)
    if idx.op == 'slice' and val is sub(base, idx):
        return base
    return I.store(base, idx, val)


def unpack(w, i, n, st):
    if w.op == 'ite':
        return ite(w.args[0], unpack(w.args[1], i, n, st), unpack(w.args[2], i, n, st))
    if w.op == 'app' and w.args[0] == 'T':
        return mk('sub', w.args[1][0], tup(mk('slice', NONE, NONE, NONE), C(i)))
    return sub(w, C(i))

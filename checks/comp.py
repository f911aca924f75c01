"""The package's components: classes, the attributes their methods change, and abstract instances of them."""
import ast
from sa.drive import *

MUTATORS = {'append', 'extend', 'add', 'update', 'clear', 'pop', 'remove', 'insert', 'setdefault', 'discard', 'sort', 'reverse', 'popitem', 'fill', 'resize', 'put', 'popleft', 'appendleft', 'intersection_update', 'difference_update'}


def classes(ip):
    """every class of the package, in module order"""
    out = []
    for m in ip.prog.mods:
        for v in ip.st0.obj(ip.modenv[m]).fields.values():
            o = ob(v)
            if isinstance(o, ClassV) and o.mod.name == m and o not in out:
                out.append(o)
    return out


def node_of(c):
    for n in ast.walk(c.mod.tree):
        if isinstance(n, ast.ClassDef) and n.name == c.name:
            return n
    return None


def mangle(c, name):
    return '_%s%s' % (c.name.lstrip('_'), name) if name.startswith('__') and not name.endswith('__') else name


def bases(x):
    while isinstance(x, (ast.Subscript, ast.Starred)):
        x = x.value
    return x


def changed(c, skip=('__init__', 'clear')):
    """{field: (set of methods, {'set', 'mut'})} fields of self that methods of the class (not inherited ones) change"""
    out = {}
    n = node_of(c)
    for m in n.body if n is not None else ():
        if not isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)) or m.name in skip or not m.args.args:
            continue
        me = m.args.args[0].arg

        def hit(x, how):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                f = out.setdefault(mangle(c, x.attr), (set(), set()))
                f[0].add(m.name)
                f[1].add(how)
        for x in ast.walk(m):
            tg = []
            if isinstance(x, ast.Assign):
                tg = list(x.targets)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
                tg = [x.target]
            elif isinstance(x, ast.Delete):
                tg = list(x.targets)
            while tg:
                t = tg.pop()
                if isinstance(t, (ast.Tuple, ast.List)):
                    tg = tg + list(t.elts)
                    continue
                b = bases(t)
                hit(b, 'set' if b is t and not isinstance(x, ast.AugAssign) else 'mut')
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                hit(bases(x.func.value), 'call')
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) == 3 and isinstance(x.args[1], ast.Constant) and isinstance(x.args[0], ast.Name) and x.args[0].id == me:
                f = out.setdefault(x.args[1].value, (set(), set()))
                f[0].add(m.name)
                f[1].add('set')
    return out


def all_changed(c, skip=('__init__', 'clear')):
    out = {}
    for k in c.getmro():
        if isinstance(k, ClassV):
            for f, (ms, how) in changed(k, skip).items():
                g = out.setdefault(f, (set(), set()))
                g[0].update(ms)
                g[1].update(how)
    return out


def reach(s, r):
    """instances reachable from r, with the path leading to each: [(path, ref)]"""
    seen, out, todo = set(), [], [('', r)]
    while todo:
        p, x = todo.pop(0)
        if x.op != 'ref':
            if x.op in ('list', 'tuple', 'set'):
                todo += [('%s[%d]' % (p, i), y) for i, y in enumerate(x.args)]
            elif x.op == 'dict':
                todo += [('%s[%s]' % (p, show(k)), v) for k, v in x.args[0]]
            continue
        if x in seen:
            continue
        seen.add(x)
        o = s.obj(x)
        out.append((p, x))
        if o.kind == 'inst':
            todo += [((p + '.' if p else '') + f, v) for f, v in sorted(o.fields.items())]
        else:
            v = s.val(x)
            if v is not x:
                todo.append((p, v))
    return out

"""Reads a Cython source as a Python syntax tree: C declarations become assignments (or nothing), typed signatures lose their types.  Line numbers are kept."""
import ast, re

TYPE = r'(?:unsigned\s+|signed\s+|const\s+|long\s+|short\s+)*[A-Za-z_][\w.]*\s*(?:\[[^\]]*\])?\s*\**'
HEAD = re.compile(r'^(\s*)(cpdef|cdef|def)\s+(?:inline\s+)?(.*?)(\w+)\s*\((.*)\)\s*(?:except\s*[^:]*|noexcept|nogil|\s)*:\s*(#.*)?$')


class NotPython(Exception):
    pass


def top(s):
    """split at top-level commas"""
    out, d, cur = [], 0, ''
    for c in s:
        d += c in '([{'
        d -= c in ')]}'
        if c == ',' and not d:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return [x.strip() for x in out + [cur] if x.strip()]


def strip_comment(s):
    return s if '#' not in s or '"' in s or "'" in s else s[:s.index('#')].rstrip()


def declared(s):
    """initialisations of a declaration list 'TYPE a, b = 1, c'"""
    m = re.match(TYPE + r'\s+(?=[A-Za-z_])|' + TYPE + r'(?<=[\]*])\s*(?=[A-Za-z_])', s)
    if not m:
        return None
    out = []
    for d in top(s[m.end():]):
        n, _, v = d.partition('=')
        if not re.match(r'^\w+\s*$', n):
            return None
        if _:
            out.append('%s = %s' % (n.strip(), v.strip()))
    return out


def argname(a):
    n, eq, d = a.partition('=')
    n = n.strip()
    m = re.search(r'(\w+)\s*(?:not\s+None)?$', n)
    if not m:
        raise NotPython('argument ' + a)
    return m.group(1) + ('=' + d.strip() if eq else '')


def to_python(src):
    lines = src.split('\n')
    out, i = [], 0
    while i < len(lines):
        raw = lines[i]
        s = strip_comment(raw)
        t = s.strip()
        ind = s[:len(s) - len(s.lstrip())]
        if re.match(r'(from\s+\S+\s+)?cimport\b', t):
            m = re.match(r'from\s+(\S+)\s+cimport\s+(.*)', t)
            out.append(ind + ('from %s import %s' % (m.group(1), m.group(2)) if m else 'pass'))
        elif re.match(r'cdef\s*:\s*$', t):
            out.append(ind + 'pass')
            while i + 1 < len(lines) and (not lines[i + 1].strip() or len(lines[i + 1]) - len(lines[i + 1].lstrip()) > len(ind)):
                i += 1
                u = strip_comment(lines[i]).strip()
                if not u:
                    out.append('')
                    continue
                d = declared(u)
                if d is None:
                    raise NotPython(u)
                out.append(ind + ('; '.join(d) or 'pass'))
        elif re.match(r'(cpdef|cdef|def)\b', t) and t.endswith(':') and HEAD.match(s):
            m = HEAD.match(s)
            out.append('%sdef %s(%s):' % (m.group(1), m.group(4), ', '.join(argname(a) for a in top(m.group(5)))))
        elif t.startswith('cdef '):
            d = declared(t[5:].strip())
            if d is None:
                raise NotPython(t)
            out.append(ind + ('; '.join(d) or 'pass'))
        elif t.startswith('ctypedef') or t.startswith('cdef extern'):
            raise NotPython(t)
        else:
            out.append(re.sub(r'<\s*(?:double|int|float|Py_ssize_t|long)\s*>', '', raw))
        i += 1
    return '\n'.join(out)


def parse(src, path='<pyx>'):
    try:
        return ast.parse(to_python(src), path)
    except SyntaxError as e:
        raise NotPython(str(e))


def types(src):
    """{function: {variable: declared type, 'return': type}}"""
    out, cur, ind0 = {}, None, 0

    def note(s):
        m = re.match(r'(' + TYPE + r')\s+(?=[A-Za-z_])|(' + TYPE + r')(?<=[\]*])\s*(?=[A-Za-z_])', s)
        if m and cur is not None:
            for d in top(s[m.end():]):
                cur[d.partition('=')[0].strip()] = (m.group(1) or m.group(2)).strip()
    block = None
    for raw in src.split('\n'):
        s = strip_comment(raw)
        t = s.strip()
        if not t:
            continue
        ind = len(s) - len(s.lstrip())
        if block is not None and ind > block:
            note(t)
            continue
        block = None
        m = HEAD.match(s)
        if m:
            cur = out.setdefault(m.group(4), {'return': m.group(3).strip()})
            ind0 = ind
            for a in top(m.group(5)):
                a = re.sub(r'\s+(not\s+None|or\s+None)$', '', a.partition('=')[0].strip())
                n = re.search(r'(\w+)$', a).group(1)
                cur[n] = a[:-len(n)].strip()
        elif cur is not None and ind <= ind0 and not t.startswith('@'):
            cur = None
        if re.match(r'cdef\s*:\s*$', t):
            block = ind
        elif t.startswith('cdef ') and not m:
            note(t[5:].strip())
    return out

"""Mechanical extraction of a Python text from a Cython source file.

What is dropped: `cimport` and `ctypedef` lines, the C types of parameters,
locals and return values, `cdef` declarations without initialiser.  What is
kept: every statement, expression and default value, in order.  The dropped
types are recorded per function (types[function][name]); an assignment to a
local of C type `int`/`float`/... becomes `__cast(type, value)`, so that the
verifier sees the conversion the compiled code makes.

python_of_c does the same for a plain C file, from clang's syntax tree."""
import ast
import re

BASE = {'int', 'float', 'double', 'long', 'size_t', 'object', 'bint', 'unsigned'}


class Unreadable(Exception):
    pass


def _split(s):
    """top-level commas"""
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            depth += 1
        if ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def _typed(s, types):
    """'TYPE name' or 'name' -> (type or None, name)"""
    m = re.match(r'^((?:[\w.]+)(?:\s*\[[^\]]*\])?)\s+(\w+)$', s.strip(), re.S)
    if m:
        t = m.group(1)
        t = types.get(t, t)
        return t, m.group(2)
    if re.match(r'^\w+$', s.strip()):
        return None, s.strip()
    raise Unreadable('declaration %r' % s)


def _decomment(line):
    """position-safe removal of a trailing comment outside quotes"""
    q = None
    for k, ch in enumerate(line):
        if q:
            if ch == q:
                q = None
        elif ch in '"\'':
            q = ch
        elif ch == '#':
            return line[:k]
    return line


def python_of(text):
    """(python source, types per function)"""
    text = text.expandtabs(8)
    types = {}
    per = {}
    out = []
    lines = text.split('\n')
    # docstrings are left alone
    k, cur, incstr = 0, None, None
    while k < len(lines):
        line = lines[k]
        if incstr:
            out.append(line)
            if incstr in line:
                incstr = None
            k += 1
            continue
        st = line.strip()
        m = re.match(r'^[rubf]*("""|\'\'\')', st)
        if m:
            q = m.group(1)
            if st.count(q) == 1:
                incstr = q
            out.append(line)
            k += 1
            continue
        ind = line[:len(line) - len(line.lstrip())]
        if re.match(r'^(cimport\b|from\s+\S+\s+cimport\b)', st):
            out.append('')
            k += 1
            continue
        m = re.match(r'^ctypedef\s+([\w.]+)\s+(\w+)\s*$', _decomment(st))
        if m:
            t = m.group(1).split('.')[-1]
            types[m.group(2)] = {'float_t': 'double', 'int_t': 'long', 'intp_t': 'long'}.get(t, t)
            out.append('')
            k += 1
            continue
        m = re.match(r'^(?:cdef|cpdef|def)\b[^=#]*?(\w+)\s*\($', st[:st.find('(') + 1]) if st.startswith(('def ', 'cdef ', 'cpdef ')) and '(' in st else None
        if m and ('=' not in st[:st.find('(')]):
            buf = _decomment(line)
            n0 = k
            while buf.count('(') > buf.count(')'):
                k += 1
                buf += '\n' + _decomment(lines[k])
            a, b = buf.find('('), buf.rfind(')')
            if not re.match(r'^\s*(except\s*[\w?*+-]+|nogil|noexcept|\s)*:\s*$', buf[b + 1:]):
                raise Unreadable('header %r' % buf[b + 1:])
            cur = m.group(1)
            per[cur] = {'__params__': []}
            ps = []
            for p in _split(buf[a + 1:b]):
                d = None
                if '=' in re.sub(r'\[[^\]]*\]', '', p):
                    i = p.rfind('=')
                    p, d = p[:i].strip(), p[i + 1:].strip()
                t, nm = _typed(re.sub(r'\s+', ' ', p), types)
                if t:
                    per[cur][nm] = t
                per[cur]['__params__'].append(nm)
                ps.append(nm + ('=' + d if d is not None else ''))
            out.append('%sdef %s(%s):' % (ind, cur, ', '.join(ps)))
            out.extend([''] * (k - n0))
            k += 1
            continue
        if st.startswith('cdef '):
            body = _decomment(st)[5:].strip()
            # initialiser?
            flat = re.sub(r'\[[^\]]*\]', lambda mm: mm.group(0).replace('=', '~'), body)
            i = flat.find('=')
            if i >= 0 and flat[i:i + 2] != '==':
                t, nm = _typed(body[:i].strip(), types)
                if cur is None:
                    raise Unreadable('cdef outside a function')
                if t:
                    per[cur][nm] = t
                # continuation lines follow as they are
                rhs = _decomment(line)[_decomment(line).find('cdef') + 5:]
                pos = re.sub(r'\[[^\]]*\]', lambda mm: mm.group(0).replace('=', '~'), rhs).find('=')
                out.append('%s%s = %s' % (ind, nm, rhs[pos + 1:].strip()))
            else:
                m = re.match(r'^((?:[\w.]+)(?:\s*\[[^\]]*\])?)\s+(.+)$', body)
                if not m:
                    raise Unreadable('cdef %r' % body)
                t = types.get(m.group(1), m.group(1))
                for nm in _split(m.group(2)):
                    if not re.match(r'^\w+$', nm):
                        raise Unreadable('cdef %r' % body)
                    per[cur][nm] = t
                out.append(ind + 'pass')
            k += 1
            continue
        if line and not line[0].isspace() and st and not st.startswith('#') and not st.startswith(')'):
            cur = cur if False else cur
        out.append(line)
        k += 1
    src = '\n'.join(out)
    tree = ast.parse(src)
    return src, tree, per


class Casts(ast.NodeTransformer):
    """assignments to C-typed locals go through __cast"""

    def __init__(self, types):
        self.types = types

    def _wrap(self, t, v):
        return ast.Call(ast.Name('__cast', ast.Load()), [ast.Constant(t), v], [])

    def visit_FunctionDef(self, n):
        n.body = [y for x in n.body for y in self._stmt(x)]
        return n

    def _stmt(self, n):
        if isinstance(n, ast.Assign):
            out = [n]
            post = []
            for t in n.targets:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    ty = self.types.get(x.id) if isinstance(x, ast.Name) else None
                    if ty in BASE and ty != 'object':
                        post.append(ast.Assign([ast.Name(x.id, ast.Store())], self._wrap(ty, ast.Name(x.id, ast.Load()))))
            return out + post
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            ty = self.types.get(n.target.id)
            if ty in BASE and ty != 'object':
                return [n, ast.Assign([ast.Name(n.target.id, ast.Store())], self._wrap(ty, ast.Name(n.target.id, ast.Load())))]
            return [n]
        for f in ('body', 'orelse', 'finalbody'):
            if getattr(n, f, None):
                setattr(n, f, [y for x in getattr(n, f) for y in self._stmt(x)])
        return [n]

"""Loads the Python sources of /repo (and its .pyx files, through a line converter) as modules whose
numeric library calls go to stand-ins chosen by the caller.

*.py   lib2to3 plus the rewrites that the build applies (numpy.int/numpy.float, file()).
*.pyx  converted to plain Python: cdef classes become classes whose typed fields are coerced on
       assignment, cdef functions become functions whose typed arguments are coerced, cimports become
       imports of stand-ins (libc.math, rng, the C++ wrapper classes).
Nothing is read from a build directory: the text comes from the current working tree.
"""
import ast
import builtins
import hashlib
import os
import re
import sys
import types
import warnings

REPO = os.environ.get('VF_REPO', '/repo')
PY_EXTRA = [
    (re.compile(r'\b(?:numpy|np)\.(int|float)\b(?!\w)'), r'\1'),
    (re.compile(r'(?<![\w.])file\((?=filename)'), 'open('),
]
_TOOL = []
_CODE = {}


def to_py3(text, name):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if not _TOOL:
            from lib2to3.refactor import RefactoringTool, get_fixers_from_package
            _TOOL.append(RefactoringTool([f for f in get_fixers_from_package('lib2to3.fixes')
                                          if not f.endswith('fix_import')]))
        out = str(_TOOL[0].refactor_string(text + ('' if text.endswith('\n') else '\n'), name))
    for pat, repl in PY_EXTRA:
        out = pat.sub(repl, out)
    return out


# ------------------------------------------------------------------ pyx

NUM = {'int', 'double', 'float', 'size_t', 'unsigned', 'long', 'unsigned int', 'unsigned long', 'bint', 'uint32_t'}
TYPE = r'(?:unsigned (?:int|long)|[A-Za-z_][\w.]*(?:\[[^\]]*\])?)'


def logical_lines(text):
    """(indent, text) with continuation lines joined and docstrings and comments dropped"""
    text = re.sub(r'("""|\'\'\')(?:.|\n)*?\1', lambda m: "''", text)
    text = re.sub(r'(?:numpy|np)\.ndarray\[[^\]]*\]', lambda m: 'Contiguous' if re.search(r'''mode\s*=\s*['"]c''', m.group(0)) else 'object', text)
    out = []
    cur = None
    depth = 0
    for l in text.split('\n'):
        s = re.sub(r'(?<!["\'\w])#.*$', '', l).rstrip()
        if cur is None:
            if not s.strip():
                continue
            ind = len(s) - len(s.lstrip())
            cur = s.strip()
        else:
            cur += ' ' + s.strip()
        depth += s.count('(') + s.count('[') + s.count('{') - s.count(')') - s.count(']') - s.count('}')
        if s.endswith('\\'):
            cur = cur[:-1].rstrip()
            continue
        if depth > 0:
            continue
        out.append((ind, cur))
        cur, depth = None, 0
    return out


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{':
            d += 1
        if c in ')]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [a.strip() for a in out]


def expr(s, ctypes):
    s = re.sub(r'<\s*([A-Za-z_][\w.]*)\s*\*\s*>\s*([\w.]+)\.data\b', r'_data(\2)', s)
    s = re.sub(r'<\s*(double|float|int|size_t|long)\s*>\s*([\w.]+(?:\([^()]*\))?)', r"_coerce('\1', \2)", s)
    s = re.sub(r'(^|[=(,]\s*)&\s*(?=[A-Za-z_])', r'\1', s)
    s = re.sub(r'\.iter(items|keys|values)\(', r'.\1(', s)
    s = re.sub(r'\bxrange\(', 'range(', s)
    s = re.sub(r'\bnew (?=[A-Za-z_])', '', s)
    s = re.sub(r'^del self\.ptr$', 'pass', s)
    s = re.sub(r'<\s*(?:O|object)\s*>\s*', '', s)
    return s


def convert_pyx(text, name):
    lines = logical_lines(text)
    out = []
    ctypes = {}
    skip = None                 # indent of a dropped block
    cls = None                  # (indent, index of the decorator line, fields)
    prop = None
    for ind, s in lines:
        if skip is not None:
            if ind > skip:
                continue
            skip = None
        if cls is not None and ind <= cls[0]:
            out[cls[1]] = ' ' * cls[0] + '@_cclass(%r)' % (cls[2],)
            if len(out) == cls[1] + 2:
                out.append(' ' * (cls[0] + 4) + 'pass')
            cls = None
        if prop is not None and ind <= prop[0]:
            prop = None
        pad = ' ' * ind
        if re.match(r'cdef extern from', s):
            skip = ind
            continue
        if s.startswith('ctypedef'):
            m = re.match(r'ctypedef (%s)\s*\*?\s*(\w+)$' % TYPE, s)
            if m:
                ctypes[m.group(2)] = m.group(1) if m.group(1) in NUM else 'object'
            continue
        if s == 'numpy.import_array()' or s == 'cimport numpy':
            continue
        m = re.match(r'from ([\w.]+) cimport (.*)$', s)
        if m:
            out.append(pad + 'from %s import %s' % (m.group(1), m.group(2).strip('() ').rstrip(', ')))
            continue
        m = re.match(r'cimport (.*)$', s)
        if m:
            out.append(pad + 'import ' + m.group(1))
            continue
        m = re.match(r'cdef class (\w+)\s*(\(.*\))?\s*:$', s)
        if m:
            out.append(None)
            cls = (ind, len(out) - 1, {})
            out.append(pad + 'class %s%s:' % (m.group(1), m.group(2) or '(object)'))
            continue
        # a field of a cdef class
        if cls is not None and ind == cls[0] + 4 and re.match(r'cdef ', s) and '(' not in s:
            m = re.match(r'cdef (%s)\s*(?:\[(\d+)\])?\s*(\*?)\s*(\w+)\s*(?:\[(\d+)\])?$' % r'(?:unsigned (?:int|long)|[A-Za-z_][\w.]*)', s)
            if not m:
                raise SyntaxError('%s: field %r' % (name, s))
            n = m.group(2) or m.group(5)
            t = ctypes.get(m.group(1), m.group(1))
            cls[2][m.group(4)] = (t if t in NUM and not m.group(3) else 'object', int(n) if n else 0)
            continue
        m = re.match(r'property (\w+)\s*:$', s)
        if m:
            prop = (ind, m.group(1))
            out.append(pad + 'if True:')
            continue
        # functions
        m = re.match(r'(?:cdef|cpdef)\s+(?:inline\s+)?(?:(%s)\s*\*?\s+)?(\w+)\s*\((.*)\)\s*(nogil|noexcept|except\??\s*\S+)?\s*:$' % TYPE, s)
        d = re.match(r'def (\w+)\s*\((.*)\)\s*:$', s)
        if m or d:
            fn, args = (m.group(2), m.group(3)) if m else (d.group(1), d.group(2))
            names, co = [], []
            for a in split_args(args):
                default = ''
                if '=' in a:
                    a, default = a.split('=', 1)
                    a, default = a.strip(), '=' + default.strip()
                a = re.sub(r'^const\s+', '', a)
                am = re.match(r'(%s)\s*[&*]?\s+[&*]?\s*(\w+)\s*(\[\])?$' % TYPE, a)
                if am:
                    t = ctypes.get(am.group(1), am.group(1))
                    names.append(am.group(2) + default)
                    if t in NUM and not am.group(3) and '*' not in a or t == 'Contiguous':
                        co.append((t, am.group(2)))
                else:
                    names.append(a + default)
            if prop is not None and fn == '__get__':
                out.append(pad + '@property')
                fn = prop[1]
            if m and m.group(1) in NUM | {'void'} and 'except' not in (m.group(4) or '').replace('noexcept', '') and \
                    not s.startswith('cpdef'):
                out.append(pad + '@_noexcept')
            out.append(pad + 'def %s(%s):' % (fn, ', '.join(names)))
            out.append(pad + "    ''")
            for t, a in co:
                if t == 'Contiguous':
                    out.append(pad + '    _contiguous(%s)' % a)
                    continue
                out.append(pad + '    %s = _coerce(%r, %s)' % (a, t, a))
            continue
        # local or module level declarations
        m = re.match(r'(?:cdef|cpdef) (.*)$', s)
        if m:
            rest = m.group(1)
            if '=' in rest:
                decl, e = rest.split('=', 1)
                dm = re.match(r'(%s)\s*[&*]?\s*[&*]?\s*(\w+)\s*$' % TYPE, decl.strip())
                if not dm:
                    raise SyntaxError('%s: declaration %r' % (name, s))
                t = ctypes.get(dm.group(1), dm.group(1))
                e = expr(e.strip(), ctypes)
                if t in NUM and '*' not in decl:
                    e = '_coerce(%r, %s)' % (t, e)
                v = re.match(r'vector\[(\w+)\]$', t)
                if v:
                    e = '_vec(%r, %s)' % (v.group(1), e)
                out.append(pad + '%s = %s' % (dm.group(2), e))
            else:
                dm = re.match(r'(%s)\s+(\w+)$' % TYPE, rest.strip())
                if dm and dm.group(1).startswith('vector['):
                    out.append(pad + '%s = _vec(%r, [])' % (dm.group(2), dm.group(1)[7:-1]))
                elif dm and dm.group(1) not in NUM and dm.group(1) not in ctypes and dm.group(1) not in (
                        'list', 'dict', 'object') and (not dm.group(1).startswith('_') or '.' in dm.group(1)) and \
                        not dm.group(1).endswith('iterator'):
                    out.append(pad + '%s = %s()' % (dm.group(2), dm.group(1)))
                else:
                    cm = re.match(r'(%s)\s+(\w+(?:\s*,\s*\w+)*)$' % TYPE, rest.strip())
                    t = cm and ctypes.get(cm.group(1), cm.group(1))
                    out.append(pad + (repr('cdef %s %s' % (t, cm.group(2))) if t in NUM else 'pass'))
            continue
        out.append(pad + expr(s, ctypes))
    if cls is not None:
        out[cls[1]] = ' ' * cls[0] + '@_cclass(%r)' % (cls[2],)
        if len(out) == cls[1] + 2:
            out.append(' ' * (cls[0] + 4) + 'pass')
    return integer_division('\n'.join(out) + '\n')


INTS = NUM - {'float', 'double'}


def integer_division(text):
    """the quotient of two C integers is an integer (rounded down) in a .pyx without future division"""
    tree = ast.parse(text)
    if any(isinstance(n, ast.ImportFrom) and n.module == '__future__' and
           any(a.name == 'division' for a in n.names) for n in ast.walk(tree)):
        return text
    fields, other = set(), set()
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            for d in c.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == '_cclass':
                    for f, (t, n) in ast.literal_eval(d.args[0]).items():
                        (fields if t in INTS else other).add(f)
    fields -= other

    def scope(fn):
        names, rest = set(), set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                m = re.match(r'cdef (.*) (\w+(?:\s*,\s*\w+)*)$', n.value.value)
                if m:
                    (names if m.group(1) in INTS else rest).update(re.split(r'\s*,\s*', m.group(2)))
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and \
                    isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') == '_coerce':
                (names if n.value.args[0].value in INTS else rest).add(n.targets[0].id)
        return names - rest

    def is_int(e, names):
        if isinstance(e, ast.Constant):
            return type(e.value) is int
        if isinstance(e, ast.Name):
            return e.id in names
        if isinstance(e, ast.Attribute):
            return e.attr in fields
        if isinstance(e, ast.Subscript):
            return isinstance(e.value, ast.Attribute) and e.value.attr in fields
        if isinstance(e, ast.UnaryOp):
            return is_int(e.operand, names)
        if isinstance(e, ast.BinOp) and not isinstance(e.op, ast.Pow):
            return is_int(e.left, names) and is_int(e.right, names)
        if isinstance(e, ast.Call):
            return getattr(e.func, 'id', '') == '_coerce' and e.args[0].value in INTS
        return False

    found = False
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            names = scope(fn)
            for n in ast.walk(fn):
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div) and \
                        is_int(n.left, names) and is_int(n.right, names):
                    n.op = ast.FloorDiv()
                    found = True
                elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Div) and \
                        is_int(n.target, names) and is_int(n.value, names):
                    n.op = ast.FloorDiv()
                    found = True
    return ast.unparse(tree) + '\n' if found else text


class CArray(list):
    """a fixed-size C array: accesses beyond it are reported, not raised (the real ones go unchecked)"""

    def __init__(self, n, t):
        list.__init__(self, [0] * n)
        self.t = t

    def __setitem__(self, i, v):
        if inside(self, i):
            list.__setitem__(self, i, COERCE[0](self.t, v))

    def __getitem__(self, i):
        return list.__getitem__(self, i) if inside(self, i) else 0


class Vector(list):
    """std::vector: elements are coerced, accesses beyond it are reported"""

    def __init__(self, t, x=()):
        self.t = t if t in NUM else 'object'
        list.__init__(self, [self.co(e) for e in x])

    def co(self, e):
        return COERCE[0](self.t, e) if self.t in NUM else e

    def __setitem__(self, i, v):
        if inside(self, i):
            list.__setitem__(self, i, self.co(v))

    def __getitem__(self, i):
        return list.__getitem__(self, i) if inside(self, i) else 0

    def push_back(self, e):
        self.append(self.co(e))

    def size(self):
        return len(self)

    def resize(self, n):
        del self[n:]
        while len(self) < n:
            self.append(self.co(0))

    def data(self):
        return self


def inside(a, i):
    if isinstance(i, int) and not 0 <= i < len(a):
        OUTSIDE[0]()
        return False
    return True


def noexcept(fn):
    """a C function without an except clause: an exception in it is printed and dropped"""
    def call(*a):
        try:
            return fn(*a)
        except CONTROL[0]:
            raise
        except Exception:
            return 0
    return call


def data(a):
    return a.data if hasattr(a, 'strided') else a


def contiguous(a):
    if getattr(a, 'strided', False):
        raise ValueError('ndarray is not C-contiguous')


CONTROL = [()]
COERCE = [lambda t, x: x]
OUTSIDE = [lambda: None]


def coerce(t, x):
    return COERCE[0](t, x)


def cclass(fields):
    def deco(cls):
        old_new = cls.__new__

        def __new__(c, *a, **k):
            o = object.__new__(c)
            for b in reversed(c.__mro__):
                for f, (t, n) in b.__dict__.get('_cfields', {}).items():
                    object.__setattr__(o, f, CArray(n, t) if n else (0 if t in NUM else None))
            for b in reversed(c.__mro__):
                ci = b.__dict__.get('__cinit__')
                if ci:
                    ci(o)
            return o

        def __setattr__(self, k, v):
            for b in type(self).__mro__:
                t = b.__dict__.get('_cfields', {}).get(k)
                if t:
                    if t[0] in NUM and not t[1]:
                        v = coerce(t[0], v)
                    break
            object.__setattr__(self, k, v)
        cls._cfields = fields
        cls.__new__ = staticmethod(__new__)
        cls.__setattr__ = __setattr__
        return cls
    return deco


# ------------------------------------------------------------------ importing

def converted(p):
    """the plain Python text of a source file; kept by content, as several processes convert the same files"""
    text = open(p).read()
    h = hashlib.sha256((text + '\0' + open(__file__).read() + os.path.splitext(p)[1]).encode()).hexdigest()
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '.work', 'py3')
    f = os.path.join(d, h)
    try:
        return open(f).read()
    except IOError:
        pass
    out = convert_pyx(text, p) if p.endswith('.pyx') else to_py3(text, p)
    os.makedirs(d, exist_ok=True)
    tmp = '%s.%d' % (f, os.getpid())
    with open(tmp, 'w') as o:
        o.write(out)
    os.replace(tmp, f)
    return out


class Loader(object):
    """stubs: module name -> module object; builtin_overrides: name -> object"""

    def __init__(self, stubs, overrides=None, repo=None):
        self.repo = repo or REPO
        self.mods = dict(stubs)
        self.b = dict(builtins.__dict__)
        self.b.update(overrides or {})
        self.b['__import__'] = self.imp
        self.b['_coerce'] = coerce
        self.b['_cclass'] = cclass
        self.b['_vec'] = Vector
        self.b['_noexcept'] = noexcept
        self.b['_data'] = data
        self.b['_contiguous'] = contiguous
        self.used = []
        self.inject = {}

    def find(self, name):
        base = os.path.join(self.repo, *name.split('.'))
        for p in (base + '.py', base + '.pyx', os.path.join(base, '__init__.py')):
            if os.path.exists(p):
                return p
        return None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if not name.startswith('distributions'):
            __import__(name)
            return sys.modules[name]
        p = self.find(name)
        if p is None:
            raise ImportError(name)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__dict__['__builtins__'] = self.b
        m.__dict__.update(self.inject.get(name, {}))
        m.__package__ = name if p.endswith('__init__.py') else name.rpartition('.')[0]
        self.mods[name] = m
        if name != 'distributions':
            if p not in _CODE:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    _CODE[p] = compile(converted(p), p, 'exec')
            self.used.append(name)
            exec(_CODE[p], m.__dict__)
        par, _, leaf = name.rpartition('.')
        if par:
            setattr(self.load(par), leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name == '__future__':
            return builtins.__import__(name, globals, locals, fromlist, 0)
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if not hasattr(m, f) and (name + '.' + f in self.mods or self.find(name + '.' + f)):
                    self.load(name + '.' + f)
            return m
        return self.load(name.split('.')[0]) if name.split('.')[0] in self.mods or \
            name.startswith('distributions') else builtins.__import__(name.split('.')[0])


if __name__ == '__main__':
    for a in sys.argv[1:]:
        t = open(a).read()
        print(convert_pyx(t, a) if a.endswith('.pyx') else to_py3(t, a))

"""Symbolic terms.

Concrete values are plain Python: int (machine / mathematical integers), Fraction (reals), bool.
Symbolic values:
  IT  integer term, kept in linear normal form  const + sum coef*atom, with an interval
  RT  real term, a hash-consed DAG
  BT  boolean term
Machine wrap-around is modelled by the executor (see engine.py), not here.
"""
from fractions import Fraction
import struct

INF = float('inf')


class NonFinite(object):
    """Result of a division by zero (NaN / infinity) or an infinite constant."""
    __slots__ = ('why', 'sign')

    def __init__(self, why, sign=0):
        self.why = why
        self.sign = sign

    def __repr__(self):
        return 'NonFinite(%s)' % self.why


class IAtom(object):
    __slots__ = ('kind', 'args', 'lo', 'hi', 'idx', 'z', 'name')
    table = {}
    all = []

    def __repr__(self):
        if self.kind == 'var':
            return self.name
        return '%s%r' % (self.kind, self.args)


def _iatom(kind, args, lo, hi, name=None):
    key = (kind,) + tuple(a.key if isinstance(a, IT) else a for a in args)
    a = IAtom.table.get(key)
    if a is None:
        a = IAtom()
        a.kind, a.args, a.lo, a.hi, a.name = kind, args, lo, hi, name
        a.idx = len(IAtom.all)
        a.z = None
        IAtom.all.append(a)
        IAtom.table[key] = a
    return a


class IT(object):
    __slots__ = ('lin', 'c', 'lo', 'hi', 'key', '__weakref__')
    sort = 'I'

    def __init__(self, lin, c):
        self.lin = lin
        self.c = c
        lo = hi = c
        al = IAtom.all
        for i, k in lin:
            a = al[i]
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
        self.lo = lo
        self.hi = hi
        self.key = ('I', lin, c)

    def __repr__(self):
        s = ' + '.join('%s*%r' % (k, IAtom.all[i]) if k != 1 else repr(IAtom.all[i]) for i, k in self.lin)
        return '(%s + %d)' % (s, self.c) if self.c else '(%s)' % s

    def __eq__(self, o):
        return isinstance(o, IT) and self.key == o.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)


def mk_lin(d, c):
    lin = tuple(sorted((i, k) for i, k in d.items() if k))
    if not lin:
        return c
    return IT(lin, c)


def ivar(name, lo, hi):
    if lo == hi:
        return lo
    a = _iatom('var', (name, lo, hi), lo, hi, name)
    return IT(((a.idx, 1),), 0)


def i_add(a, b):
    if isinstance(a, IT):
        if isinstance(b, IT):
            d = dict(a.lin)
            for i, k in b.lin:
                d[i] = d.get(i, 0) + k
            return mk_lin(d, a.c + b.c)
        if b == 0:
            return a
        return IT(a.lin, a.c + b)
    if isinstance(b, IT):
        if a == 0:
            return b
        return IT(b.lin, b.c + a)
    return a + b


def i_scale(a, k):
    if isinstance(a, IT):
        if k == 0:
            return 0
        return IT(tuple((i, c * k) for i, c in a.lin), a.c * k)
    return a * k


def i_sub(a, b):
    return i_add(a, i_scale(b, -1))


def i_mul(a, b):
    if not isinstance(a, IT):
        return i_scale(b, a)
    if not isinstance(b, IT):
        return i_scale(a, b)
    if a.key > b.key:
        a, b = b, a
    c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
    t = _iatom('mul', (a, b), min(c), max(c))
    return IT(((t.idx, 1),), 0)


def i_div(a, k):
    """floor division by a positive constant"""
    if not isinstance(a, IT):
        return a // k
    if k == 1:
        return a
    if all(c % k == 0 for _, c in a.lin):
        return i_add(IT(tuple((i, c // k) for i, c in a.lin), 0), a.c // k)
    if a.lo // k == a.hi // k:
        return a.lo // k
    whole = {i: c // k for i, c in a.lin if c % k == 0}
    if whole or not 0 <= a.c < k:
        # (k q + r) div k = q + r div k
        r = i_div(mk_lin({i: c for i, c in a.lin if c % k}, a.c % k), k)
        return i_add(mk_lin(whole, a.c // k), r)
    t = _iatom('div', (a, k), a.lo // k, a.hi // k)
    return IT(((t.idx, 1),), 0)


def i_mod(a, k):
    if not isinstance(a, IT):
        return a % k
    if a.lo // k == a.hi // k:
        return i_sub(a, (a.lo // k) * k)
    # drop multiples of k
    lin = tuple((i, c % k) for i, c in a.lin)
    r = mk_lin(dict(lin), a.c % k)
    if not isinstance(r, IT):
        return r % k
    if r.lo // k == r.hi // k:
        return i_sub(r, (r.lo // k) * k)
    t = _iatom('mod', (r, k), 0, k - 1)
    return IT(((t.idx, 1),), 0)


def i_lo(a):
    return a.lo if isinstance(a, IT) else a


def i_hi(a):
    return a.hi if isinstance(a, IT) else a


# ------------------------------------------------------------------ booleans

class BT(object):
    __slots__ = ('op', 'args', 'key', 'z', 'h')
    sort = 'B'
    table = {}

    def __repr__(self):
        return '%s%r' % (self.op, self.args)


def _bt(op, *args):
    key = (op,) + tuple(a.key if hasattr(a, 'key') else a for a in args)
    t = BT.table.get(key)
    if t is None:
        t = BT()
        t.op, t.args, t.key, t.z = op, args, key, None
        BT.table[key] = t
    return t


def b_not(a):
    if isinstance(a, bool):
        return not a
    if a.op == 'not':
        return a.args[0]
    return _bt('not', a)


def b_and(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return _bt('and', *out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return _bt('or', *out)


def i_lt(a, b):
    d = i_sub(a, b)
    if not isinstance(d, IT):
        return d < 0
    if d.hi < 0:
        return True
    if d.lo >= 0:
        return False
    return _bt('ilt', d)


def i_le(a, b):
    return i_lt(a, i_add(b, 1))


def i_eq(a, b):
    d = i_sub(a, b)
    if not isinstance(d, IT):
        return d == 0
    if d.lo > 0 or d.hi < 0:
        return False
    if d.lin[0][1] < 0:
        d = i_scale(d, -1)
    return _bt('ieq', d)


# ------------------------------------------------------------------ reals

class RT(object):
    __slots__ = ('op', 'args', 'key', 'id', 'rf', 'zp', 'd')
    sort = 'R'
    table = {}
    n = 0

    def __repr__(self):
        return show(self)


def show(t, depth=6):
    if isinstance(t, RT):
        if depth == 0:
            return '...'
        if t.op == 'var':
            return t.args[0]
        if t.op in ('add', 'mul', 'div', 'sub'):
            o = dict(add=' + ', mul='*', div='/', sub=' - ')[t.op]
            return '(' + o.join(show(a, depth - 1) for a in t.args) + ')'
        return '%s(%s)' % (t.op, ', '.join(show(a, depth - 1) for a in t.args))
    if isinstance(t, Fraction):
        if t.denominator == 1:
            return str(t.numerator)
        return repr(float(t))
    return repr(t)


def _rt(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, RT) else (a.key if hasattr(a, 'key') else a) for a in args)
    t = RT.table.get(key)
    if t is None:
        t = RT()
        RT.n += 1
        t.op, t.args, t.id = op, args, ('R', RT.n)
        t.key = t.id
        t.rf = None
        t.zp = None
        t.d = None
        RT.table[key] = t
    return t


def rvar(name, lo=None, hi=None, strict_lo=False):
    return _rt('var', name, lo, hi, strict_lo)


def r_const(x):
    return x if isinstance(x, Fraction) else Fraction(x)


def r_int(a):
    if isinstance(a, IT):
        return _rt('toreal', a)
    return Fraction(a)


def _nf(a, b=None):
    if isinstance(a, NonFinite):
        return a
    if isinstance(b, NonFinite):
        return b
    return None


ZERO = Fraction(0)
ONE = Fraction(1)


def r_add(a, b):
    ca, cb = isinstance(a, Fraction), isinstance(b, Fraction)
    if ca and cb:
        return a + b
    x = _nf(a, b)
    if x:
        return x
    if ca and a == 0:
        return b
    if cb and b == 0:
        return a
    return _rt('add', a, b)


def r_neg(a):
    if isinstance(a, Fraction):
        return -a
    if isinstance(a, NonFinite):
        return NonFinite(a.why, -a.sign)
    return _rt('mul', Fraction(-1), a)


def r_sub(a, b):
    ca, cb = isinstance(a, Fraction), isinstance(b, Fraction)
    if ca and cb:
        return a - b
    if isinstance(b, NonFinite):
        return r_neg(b)
    if isinstance(a, NonFinite):
        return a
    if cb and b == 0:
        return a
    if a is b:
        return ZERO
    return _rt('sub', a, b)


def r_mul(a, b):
    ca, cb = isinstance(a, Fraction), isinstance(b, Fraction)
    if ca and cb:
        return a * b
    x = _nf(a, b)
    if x:
        return NonFinite(x.why)
    if ca:
        if a == 0:
            return ZERO
        if a == 1:
            return b
    if cb:
        if b == 0:
            return ZERO
        if b == 1:
            return a
    return _rt('mul', a, b)


def r_div(a, b):
    """caller has already excluded b == 0"""
    ca, cb = isinstance(a, Fraction), isinstance(b, Fraction)
    if isinstance(b, NonFinite):
        return ZERO if b.sign else NonFinite(b.why)
    if isinstance(a, NonFinite):
        return a
    if cb and b == 0:
        return NonFinite('division by zero')
    if ca and cb:
        return a / b
    if ca and a == 0:
        return ZERO
    if cb and b == 1:
        return a
    return _rt('div', a, b)


def r_fn(name, *args):
    x = None
    for a in args:
        if isinstance(a, NonFinite):
            x = a
    if x is not None:
        if name == 'exp' and x.sign < 0:
            return ZERO
        return NonFinite(x.why, x.sign if name in ('log', 'lgamma') else 0)
    if name == 'log' and args[0] == 1:
        return ZERO
    if name == 'exp' and args[0] == 0:
        return ONE
    if name == 'lgamma' and args[0] in (1, 2):
        return ZERO
    if name == 'sqrt' and isinstance(args[0], Fraction):
        import math
        n, d = args[0].numerator, args[0].denominator
        if n >= 0:
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return Fraction(rn, rd)
    return _rt(name, *args)


TABLES = {}


def r_table(name, idx):
    """element of a constant table"""
    if not isinstance(idx, IT):
        return TABLES[name][idx]
    return _rt('table', name, idx)


def r_lt(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a < b
    if isinstance(a, NonFinite) or isinstance(b, NonFinite):
        sa = a.sign if isinstance(a, NonFinite) else None
        sb = b.sign if isinstance(b, NonFinite) else None
        if sa == 0 or sb == 0:
            return False
        if sa is not None and sb is not None:
            return sa < sb
        return sa == -1 if sa is not None else sb == 1
    if a is b:
        return False
    return _bt('rlt', a, b)


def r_le(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a <= b
    if isinstance(a, NonFinite) or isinstance(b, NonFinite):
        if (isinstance(a, NonFinite) and a.sign == 0) or (isinstance(b, NonFinite) and b.sign == 0):
            return False
        return b_not(r_lt(b, a))
    if a is b:
        return True
    return b_not(_bt('rlt', b, a))


def r_eq(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    if isinstance(a, NonFinite) or isinstance(b, NonFinite):
        return (isinstance(a, NonFinite) and isinstance(b, NonFinite)
                and a.sign == b.sign and a.sign != 0)
    if a is b:
        return True
    return _bt('req', a, b)


# ------------------------------------------------------------------ float constants

def f32_bits(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def bits_f32(b):
    return struct.unpack('<f', struct.pack('<I', b & 0xffffffff))[0]


def bits_f64(b):
    return struct.unpack('<d', struct.pack('<Q', b & (2 ** 64 - 1)))[0]


PI = _rt('pi')
_PI = 3.14159265358979323846
_LOGPI = 1.1447298858494002
_LOG2PI = 1.8378770664093453
_LOG2 = 0.6931471805599453
_SQRT2 = 1.4142135623730951
_LOGPI4 = 0.28618247146235004


_MULT = [Fraction(1), Fraction(1, 2), Fraction(2), Fraction(1, 4), Fraction(3, 2), Fraction(4)]


def real_const(x, single=False):
    """A float literal as an exact real.  Literals are read as the shortest
    decimal that denotes them, and the mathematical constants pi, log(pi),
    log(2 pi) and log(2) are recognised (to 3e-7)."""
    if x != x:
        return NonFinite('nan constant')
    if x in (INF, -INF):
        return NonFinite('inf constant', 1 if x > 0 else -1)
    s = -1 if x < 0 else 1
    y = abs(x)
    for v, mk in ((_PI, lambda: PI), (_LOGPI, lambda: r_fn('log', PI)),
                  (_LOG2PI, lambda: r_fn('log', r_mul(Fraction(2), PI))),
                  (_LOG2, lambda: r_fn('log', Fraction(2)))):
        for k in _MULT:
            if abs(y - v * k) < 3e-7 * k and y != 0:
                t = r_mul(k, mk())
                return t if s > 0 else r_neg(t)
    if single:
        f = literals().get(f32_bits(y))
        if f is not None:
            return s * f
        # shortest decimal that rounds to this float32
        b = f32_bits(x)
        for p in range(1, 10):
            t = '%.*g' % (p, x)
            if f32_bits(float(t)) == b:
                f = Fraction(t)
                break
        else:
            f = Fraction(x)
        return _nice(f, x)
    return _nice(Fraction(repr(x)), x)


_LITS = None


def literals():
    """single precision literals of the sources with more digits than a float holds, by the float they denote"""
    global _LITS
    if _LITS is None:
        import glob
        import os
        import re
        repo = os.environ.get('VF_REPO', '/repo')
        _LITS = {}
        for p in sorted(glob.glob(repo + '/src/**/*.cc', recursive=True) + glob.glob(repo + '/include/**/*.hpp', recursive=True)):
            for w in set(re.findall(r'(?<![\w.])\d*\.\d{6,}(?=[fF]?\b)', open(p, errors='replace').read())):
                _LITS.setdefault(f32_bits(float(w)), Fraction(w))
    return _LITS


def _nice(f, x):
    # thirds, sixths, ... written as quotients in the source
    if f.denominator > 100000:
        g = Fraction(x).limit_denominator(64)
        if g.denominator > 1 and abs(float(g) - x) <= 1e-7 * abs(x):
            return g
    return f

"""Symbolic executor for LLVM IR.

Integers: values modulo 2^w, kept as (symbolic) integers in [-2^(w-1), 2^w); wrap-around is
modelled explicitly whenever the interval / the path condition does not exclude it.
Floats: exact reals (see terms.py / norm.py).  Memory: objects with typed cells; every access is
checked for bounds, liveness and initialisation.  Symbolic branches fork; infeasible sides are
pruned by z3.
"""
import time
from fractions import Fraction
from . import llir
from .terms import *
from .terms import _rt
from . import norm
from .prove import Prover, STATS

UNDEF = type('Undef', (), {'__repr__': lambda s: 'undef'})()


class Ptr(object):
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return '&%d+%r' % (self.obj, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj == self.obj and o.off == self.off

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class FnPtr(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Pack(object):
    """several cells read as one wide value"""
    __slots__ = ('parts', 'n')

    def __init__(self, parts, n):
        self.parts = parts
        self.n = n


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg


class Unsupported(Exception):
    pass


class Obj(object):
    __slots__ = ('size', 'cells', 'zeros', 'alive', 'name', 'kind', 'owner', 'ro')

    def __init__(self, size, name, kind):
        self.size = size
        self.cells = {}
        self.zeros = []
        self.alive = True
        self.name = name
        self.kind = kind
        self.owner = None
        self.ro = False

    def clone(self, owner):
        o = Obj(self.size, self.name, self.kind)
        o.cells = dict(self.cells)
        o.zeros = list(self.zeros)
        o.alive = self.alive
        o.owner = owner
        o.ro = self.ro
        return o

    # zero ranges -------------------------------------------------------
    def zero_cover(self, off, n):
        for a, b in self.zeros:
            if a <= off and off + n <= b:
                return True
        return False

    def unzero(self, off, n):
        out = []
        e = off + n
        for a, b in self.zeros:
            if b <= off or a >= e:
                out.append((a, b))
                continue
            if a < off:
                out.append((a, off))
            if b > e:
                out.append((e, b))
        self.zeros = out


class Frame(object):
    __slots__ = ('fn', 'block', 'prev', 'ip', 'regs', 'allocas', 'ret', 'retblock', 'code')

    def clone(self):
        f = Frame()
        f.fn, f.block, f.prev, f.ip = self.fn, self.block, self.prev, self.ip
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.ret = self.ret
        f.retblock = self.retblock
        f.code = self.code
        return f


UNMONITORED = set('@v_draws @v_ndraws @v_mode @v_draw_limit @v_gamma_zero'.split())


class Race(object):
    """Which memory the first thread has read and written, and since when the second one is ordered after it.

    The threads run one after the other; a release by the first (unlocking a mutex, finishing a static's
    initialisation, an atomic store) followed by an acquire of the same by the second orders everything before
    the one before everything after the other.  Accesses that conflict and are not ordered so are a data race."""

    def __init__(self):
        self.thread = 0
        self.epoch = 0          # releases so far
        self.seen = 0           # what the first thread did before its epoch SEEN is ordered before this
        self.log = {}
        self.own = set()        # log entries not shared with other paths
        self.sync = {}
        self.base = 0
        self.main = {}

    def fork(self):
        r = Race()
        r.thread, r.epoch, r.seen, r.base, r.main = self.thread, self.epoch, self.seen, self.base, self.main
        r.log, r.sync = dict(self.log), dict(self.sync)
        self.own = set()
        return r

    def release(self, k):
        if self.thread == 0:
            self.sync[k] = self.epoch + 1
            self.epoch += 1

    def acquire(self, k):
        if self.thread == 1:
            self.seen = max(self.seen, self.sync.get(k, 0))


class State(object):
    counter = 0

    def __init__(self):
        State.counter += 1
        self.id = State.counter
        self.frames = []
        self.mem = {}
        self.pc = []
        self.known = {}
        self.conc = {}
        self.inputs = []
        self.ninput = 0
        self.expect_error = False
        self.nsteps = 0
        self.labels = []
        self.notes = {}
        self.sym_steps = 0
        self.race = None

    def fork(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.conc = dict(self.conc)
        s.inputs = list(self.inputs)
        s.ninput = self.ninput
        s.expect_error = self.expect_error
        s.nsteps = self.nsteps
        s.labels = list(self.labels)
        s.notes = dict(self.notes)
        s.race = self.race and self.race.fork()
        State.counter += 1
        self.id = State.counter      # both sides must copy shared objects before writing
        return s

    def assume(self, b):
        if b is True:
            return
        self.pc.append(b)
        self.learn(b, True)

    def learn(self, b, v):
        if isinstance(b, bool):
            return
        if b.op == 'not':
            self.learn(b.args[0], not v)
            return
        self.known[b.key] = v
        if v and b.op == 'and':
            for x in b.args:
                self.learn(x, True)
        if not v and b.op == 'or':
            for x in b.args:
                self.learn(x, False)
        if v and b.op == 'ieq':
            t = b.args[0]
            if len(t.lin) == 1:
                i, k = t.lin[0]
                if t.c % k == 0:
                    self.conc[i] = -t.c // k


class Obligation(object):
    __slots__ = ('label', 'kind', 'status', 'pc', 'terms', 'goal', 'inputs', 'path', 'msg')


class Engine(object):
    def __init__(self, module, prover=None, max_steps=60000000, max_paths=20000, deadline=None, seed=1):
        self.m = module
        self.types = module.types
        self.p = prover or Prover(seed=seed)
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.witnesses = []
        self.deadline = deadline
        self.gobj = {}
        self.tls = set()
        self.gtemplates = {}
        self.nobj = 0
        self.steps = 0
        self.paths = {'ok': 0, 'error': 0, 'assume': 0}
        self.problems = []       # unexpected errors, memory errors: candidates
        self.obligations = 0
        self.discharged = 0
        self.failed = []         # refuted / unknown obligations
        self.label_fail = {}
        self.incomplete = []
        self.funcs_seen = set()
        self.reach = {}
        self.hooks = {}
        self.intercepts = {}
        self.stop_on = None
        from . import models
        models.install(self)

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, name, kind):
        self.nobj += 1
        o = Obj(size, name, kind)
        o.owner = st.id if st is not None else None
        if st is not None:
            st.mem[self.nobj] = o
        return self.nobj

    def robj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            o = self.gtemplates.get(i)
            if o is None:
                raise Unsupported('dangling object %d' % i)
        return o

    def wobj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            o = self.gtemplates[i].clone(st.id)
            st.mem[i] = o
        elif o.owner != st.id:
            o = o.clone(st.id)
            st.mem[i] = o
        return o

    def global_ptr(self, name):
        g = self.gobj.get(name)
        if g is not None:
            return g
        if name in self.m.funcs:
            g = FnPtr(name)
            self.gobj[name] = g
            return g
        if name not in self.m.globals:
            raise Unsupported('global %s' % name)
        d = self.m.global_def(name)
        if d[0] == 'alias':
            g = self.global_ptr(d[1])
            self.gobj[name] = g
            return g
        _, t, init, const = d
        size = self.types.size(t) if t[0] != 'struct' or True else 0
        self.nobj += 1
        o = Obj(size, name, 'global')
        i = self.nobj
        self.gtemplates[i] = o
        g = Ptr(i, 0)
        self.gobj[name] = g
        if name in self.m.tls:
            self.tls.add(i)
        if init is not None:
            self.init_global(o, 0, t, init)
        o.ro = const
        return g

    def init_global(self, o, off, t, v):
        t = self.types.resolve(t)
        k = v[0]
        if k == 'zero':
            o.zeros.append((off, off + self.types.size(t)))
            return
        if k == 'undef':
            return
        if k == 'bytes':
            for j, b in enumerate(v[1]):
                o.cells[off + j] = (1, b)
            return
        if k == 'agg':
            if t[0] == 'struct':
                offs, _ = self.types.layout(t)
                for (tt, vv), oo in zip(v[1], offs):
                    self.init_global(o, off + oo, tt, vv)
            else:
                es = self.types.size(t[2])
                for j, (tt, vv) in enumerate(v[1]):
                    self.init_global(o, off + j * es, tt, vv)
            return
        o.cells[off] = (self.types.size(t), self.const(t, v))

    def const(self, t, v):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'f':
            if 'exact_consts' in self.opts and v[1] == v[1] and abs(v[1]) != INF:
                return Fraction(v[1])
            return real_const(v[1], t[0] == 'float')
        if k == 'undef':
            if t[0] in ('struct', 'named', 'array', 'vec'):
                return self.agg_undef(t)
            return UNDEF
        if k == 'zero':
            return self.agg_zero(t)
        if k == 'global':
            return self.global_ptr(v[1])
        if k == 'gep':
            base = self.const(('ptr',), v[2][0][1])
            idx = [self.const(tt, vv) for tt, vv in v[2][1:]]
            return self.gep(None, v[1], base, idx)
        if k == 'cast':
            x = self.const(v[2], v[3])
            if v[1] in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                return x
            return x
        if k == 'agg':
            return tuple(self.const(tt, vv) for tt, vv in v[1])
        if k == 'bytes':
            return tuple(v[1])
        if k == 'binexpr':
            a, b = [self.const(tt, vv) for tt, vv in v[2][:2]]
            w = v[2][0][0][1] if v[2][0][0][0] == 'i' else 64
            if v[1] == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return a.off - b.off
            if isinstance(a, int) and isinstance(b, int):
                return {'add': a + b, 'sub': a - b, 'mul': a * b}.get(v[1])
        raise Unsupported('constant %r' % (v,))

    def agg_zero(self, t):
        t = self.types.resolve(t)
        if t[0] == 'struct':
            return tuple(self.agg_zero(x) for x in t[1])
        if t[0] in ('array', 'vec'):
            return tuple(self.agg_zero(t[2]) for _ in range(t[1]))
        if t[0] in ('float', 'double'):
            return Fraction(0)
        if t == ('i', 1):
            return False
        return 0

    def agg_undef(self, t):
        t = self.types.resolve(t)
        if t[0] == 'struct':
            return tuple(self.agg_undef(x) for x in t[1])
        if t[0] in ('array', 'vec'):
            return tuple(self.agg_undef(t[2]) for _ in range(t[1]))
        return UNDEF

    def gep(self, st, ty, base, idx):
        if base is UNDEF:
            raise PathEnd('uninit', 'address computed from an uninitialised pointer')
        if base == 0 and not isinstance(base, Ptr):
            base = Ptr(0, 0)
        if isinstance(base, FnPtr):
            return base
        if not isinstance(base, Ptr):
            raise Unsupported('gep base %r' % (base,))
        off = base.off
        t = ty
        i0 = idx[0]
        if i0 is UNDEF:
            raise PathEnd('uninit', 'array index is uninitialised')
        off = i_add(off, i_scale(self.sidx(st, i0), self.types.size(t)))
        for i in idx[1:]:
            t = self.types.resolve(t)
            if t[0] == 'struct':
                offs, _ = self.types.layout(t)
                off = i_add(off, offs[i])
                t = t[1][i]
            else:
                t = t[2]
                off = i_add(off, i_scale(self.sidx(st, i), self.types.size(t)))
        if base.obj == 0:
            return Ptr(0, off) if off != 0 else 0
        return Ptr(base.obj, off)

    def sidx(self, st, i):
        if isinstance(i, int):
            if i >= 1 << 63:
                return i - (1 << 64)
            return i
        if isinstance(i, IT):
            return self.as_signed(st, i, 64)
        raise Unsupported('index %r' % (i,))

    # ------------------------------------------------------------ decisions
    def decide(self, st, b):
        if isinstance(b, bool):
            return b
        neg = False
        x = b
        while x.op == 'not':
            neg = not neg
            x = x.args[0]
        v = st.known.get(x.key)
        if v is None:
            r = self.quick(st, x)
            if r is not None:
                return r != neg
            if x.op == 'and':
                for y in x.args:
                    if not self.decide(st, y):
                        return neg
                return not neg
            if x.op == 'or':
                for y in x.args:
                    if self.decide(st, y):
                        return not neg
                return neg
            # which sides are feasible?
            if not self.p.may(st.pc, x):
                v = False
                st.known[x.key] = v
            elif not self.p.may(st.pc, b_not(x)):
                v = True
                st.known[x.key] = v
            else:
                raise Fork(x)
        return v != neg

    def quick(self, st, x):
        """decide an integer comparison from values already fixed on this path"""
        if x.op in ('ilt', 'ieq'):
            t = x.args[0]
            c = t.c
            conc = st.conc
            lin = []
            lo = hi = c
            for i, k in t.lin:
                v = conc.get(i)
                if v is None:
                    a = IAtom.all[i]
                    if k > 0:
                        lo += k * a.lo
                        hi += k * a.hi
                    else:
                        lo += k * a.hi
                        hi += k * a.lo
                else:
                    lo += k * v
                    hi += k * v
            if x.op == 'ilt':
                if hi < 0:
                    return True
                if lo >= 0:
                    return False
            else:
                if lo > 0 or hi < 0:
                    return False
                if lo == hi == 0:
                    return True
        elif x.op == 'rlt' and norm.is_closed(x.args[0]) and norm.is_closed(x.args[1]):
            return norm.closed_less(x.args[0], x.args[1])
        return None

    def norm_int(self, st, x):
        """substitute values fixed on this path"""
        if isinstance(x, IT) and st.conc:
            d = {}
            c = x.c
            ch = False
            for i, k in x.lin:
                v = st.conc.get(i)
                if v is None:
                    a = IAtom.all[i]
                    if a.kind != 'var':
                        y = self.norm_atom(st, a)
                        if y is not None:
                            ch = True
                            y = i_scale(y, k)
                            if isinstance(y, IT):
                                c += y.c
                                for j, kk in y.lin:
                                    d[j] = d.get(j, 0) + kk
                            else:
                                c += y
                            continue
                    d[i] = d.get(i, 0) + k
                else:
                    ch = True
                    c += k * v
            if ch:
                return mk_lin(d, c)
        return x

    def norm_atom(self, st, a):
        xs = [self.norm_int(st, y) if isinstance(y, IT) else y for y in a.args]
        if all(x is y for x, y in zip(xs, a.args)):
            return None
        if a.kind == 'mul':
            return i_mul(*xs)
        if a.kind == 'div':
            return i_div(*xs)
        return i_mod(*xs)

    def concretise(self, st, x, limit=70):
        if not isinstance(x, IT):
            return x
        x = self.norm_int(st, x)
        if not isinstance(x, IT):
            return x
        n = 0
        if x.hi - x.lo < limit:
            for v in range(x.lo, x.hi + 1):
                if self.decide(st, i_eq(x, v)):
                    return v
            raise PathEnd('infeasible')
        # wide range: enumerate by models
        for v in st.notes.get(('cv', x.key), ()):
            if self.decide(st, i_eq(x, v)):
                return v
            n += 1
        if n > limit:
            raise Unsupported('more than %d values for an index' % limit)
        import z3
        from .prove import Enc, zi, int_axioms, ivars_of
        self.p.sync(st.pc)
        s = self.p.s
        s.push()
        iv = set()
        ivars_of(x, iv)
        for j in iv:
            s.add(*int_axioms(j))
        r = s.check()
        if r != z3.sat:
            s.pop()
            raise Unsupported('cannot enumerate an index (%s)' % r)
        v = s.model().eval(zi(x), model_completion=True).as_long()
        s.pop()
        st.notes[('cv', x.key)] = st.notes.get(('cv', x.key), ()) + (v,)
        if self.decide(st, i_eq(x, v)):
            return v
        return self.concretise(st, x, limit)

    # ------------------------------------------------------------ integer views
    def as_signed(self, st, x, w):
        if isinstance(x, bool):
            return -1 if x else 0
        if isinstance(x, int):
            h = 1 << (w - 1)
            return x - (1 << w) if x >= h else x
        if isinstance(x, Ptr):
            return x
        if isinstance(x, IT):
            h = 1 << (w - 1)
            if x.hi < h and x.lo >= -h:
                return x
            if x.lo >= h:
                return i_sub(x, 1 << w)
            x = self.norm_int(st, x)
            if not isinstance(x, IT):
                return self.as_signed(st, x, w)
            if self.decide(st, i_lt(x, h)):
                return x
            return i_sub(x, 1 << w)
        return self.bad_int(st, x, w)

    def as_unsigned(self, st, x, w):
        if isinstance(x, bool):
            return 1 if x else 0
        if isinstance(x, int):
            return x + (1 << w) if x < 0 else x
        if isinstance(x, Ptr):
            return x
        if isinstance(x, IT):
            if x.lo >= 0:
                return x
            if x.hi < 0:
                return i_add(x, 1 << w)
            x = self.norm_int(st, x)
            if not isinstance(x, IT):
                return self.as_unsigned(st, x, w)
            if self.decide(st, i_lt(x, 0)):
                return i_add(x, 1 << w)
            return x
        return self.bad_int(st, x, w)

    def bad_int(self, st, x, w):
        if x is UNDEF:
            raise PathEnd('uninit', 'use of an uninitialised value')
        if isinstance(x, BT):
            return 1 if self.decide(st, x) else 0
        if isinstance(x, Fraction):
            f = float(x)
            if w == 32:
                return f32_bits(f)
            import struct
            return struct.unpack('<Q', struct.pack('<d', f))[0]
        if isinstance(x, RT) and w == 32:
            return self.float_bits(st, x)
        raise Unsupported('integer view of %r' % (x,))

    def float_bits(self, st, x):
        """the bits of a positive single precision float"""
        from .special import BITS
        k = BITS.get(x.id)
        if k is not None:
            c, m = k
            return i_add(i_scale(i_add(c, 127), 1 << 23), m)
        t = st.notes.get(('bits', x.id))
        if t is not None:
            return t
        if not self.decide(st, r_lt(ZERO, x)):
            if self.decide(st, r_lt(x, ZERO)):
                raise Unsupported('bits of a negative float')
            return 0
        lo, hi = -126, 128
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if self.decide(st, r_lt(x, Fraction(2) ** mid)):
                hi = mid
            else:
                lo = mid
        c = lo
        m = ivar('bits_%d' % x.id[1], 0, (1 << 23) - 1)
        if c == -126 and self.decide(st, r_lt(x, Fraction(2) ** -126)):
            u, base, e = Fraction(2) ** -149, ZERO, 0
        else:
            u, base, e = Fraction(2) ** (c - 23), Fraction(2) ** c, c + 127
        y = r_add(base, r_mul(u, r_int(m)))
        st.assume(r_le(y, x))
        st.assume(r_lt(x, r_add(y, u)))
        t = i_add(m, e << 23)
        st.notes[('bits', x.id)] = t
        return t

    def wrap(self, st, x, w):
        """bring a raw result into [-2^(w-1), 2^w)"""
        if isinstance(x, int):
            if -(1 << (w - 1)) <= x < (1 << w):
                return x
            return x % (1 << w)
        M = 1 << w
        h = M >> 1
        if x.lo >= -h and x.hi < M:
            return x
        x = self.norm_int(st, x)
        if not isinstance(x, IT):
            return self.wrap(st, x, w)
        if x.lo >= -h and x.hi < M:
            return x
        if x.hi >= M and self.decide(st, i_le(M, x)):
            return self.wrap2(st, i_sub(x, M), w)
        if x.lo < -h and self.decide(st, i_lt(x, -h)):
            return self.wrap2(st, i_add(x, M), w)
        return x

    def wrap2(self, st, x, w):
        M = 1 << w
        h = M >> 1
        if not isinstance(x, IT):
            return self.wrap(st, x, w)
        if self.p.must(st.pc, b_and(i_le(-h, x), i_lt(x, M))):
            return x
        return i_mod(x, M)

    def binint(self, st, op, w, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, BT) or isinstance(b, BT) or w == 1:
            if w == 1:
                a = self.tobool(st, a)
                b = self.tobool(st, b)
                if op == 'and':
                    return b_and(a, b)
                if op == 'or':
                    return b_or(a, b)
                if op == 'xor':
                    if isinstance(a, bool):
                        return b_not(b) if a else b
                    if isinstance(b, bool):
                        return b_not(a) if b else a
                    return self.decide(st, a) != self.decide(st, b)
                a = int(self.decide(st, a))
                b = int(self.decide(st, b))
            else:
                a = self.as_unsigned(st, a, w)
                b = self.as_unsigned(st, b, w)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrint(st, op, w, a, b)
        if isinstance(a, (Fraction, RT, Pack, NonFinite)):
            a = self.bad_int(st, a, w)
        if isinstance(b, (Fraction, RT, Pack, NonFinite)):
            b = self.bad_int(st, b, w)
        if op == 'add':
            return self.wrap(st, i_add(a, b), w)
        if op == 'sub':
            return self.wrap(st, i_sub(a, b), w)
        if op == 'mul':
            return self.wrap(st, i_mul(a, b), w)
        if op in ('udiv', 'urem'):
            a = self.as_unsigned(st, a, w)
            b = self.as_unsigned(st, b, w)
            b = self.concretise(st, b)
            if b == 0:
                raise PathEnd('ub', 'integer division by zero')
            return i_div(a, b) if op == 'udiv' else i_mod(a, b)
        if op in ('sdiv', 'srem'):
            a = self.as_signed(st, a, w)
            b = self.as_signed(st, b, w)
            b = self.concretise(st, b)
            if b == 0:
                raise PathEnd('ub', 'integer division by zero')
            neg = False
            if not isinstance(a, IT):
                n = a < 0
            elif a.lo >= 0:
                n = False
            else:
                n = self.decide(st, i_lt(a, 0))
            x = i_scale(a, -1) if n else a
            q = i_div(x, abs(b))
            if op == 'sdiv':
                return i_scale(q, -1) if n != (b < 0) else q
            r = i_sub(x, i_scale(q, abs(b)))
            return i_scale(r, -1) if n else r
        if op == 'shl':
            k = self.concretise(st, self.as_unsigned(st, b, w))
            a = self.as_unsigned(st, a, w)
            if k >= w:
                return UNDEF
            r = i_scale(a, 1 << k)
            if isinstance(r, IT) and r.hi >= (1 << w):
                return i_mod(r, 1 << w)
            return self.wrap(st, r, w) if isinstance(r, IT) else r % (1 << w)
        if op == 'lshr':
            k = self.concretise(st, self.as_unsigned(st, b, w))
            return i_div(self.as_unsigned(st, a, w), 1 << k)
        if op == 'ashr':
            k = self.concretise(st, self.as_unsigned(st, b, w))
            return i_div(self.as_signed(st, a, w), 1 << k)
        # bit operations
        a = self.as_unsigned(st, a, w)
        b = self.as_unsigned(st, b, w)
        if isinstance(a, int) and isinstance(b, int):
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
        if isinstance(a, int):
            a, b = b, a
        full = (1 << w) - 1
        if isinstance(b, int):
            if op == 'and':
                if b == 0:
                    return 0
                if b == full:
                    return a
                if b & (b + 1) == 0:
                    return i_mod(a, b + 1)
                # contiguous mask  ((1<<k)-1) << s
                s = (b & -b).bit_length() - 1
                m = b >> s
                if m & (m + 1) == 0:
                    return i_scale(i_mod(i_div(a, 1 << s), m + 1), 1 << s)
            if op == 'xor' and b == full:
                return i_sub(full, a)
            if op in ('or', 'xor') and b == 0:
                return a
            if op == 'or' and b == full:
                return full
            if op in ('or', 'xor'):
                # disjoint: low bits of b below an alignment of a
                n = b.bit_length()
                if all(c % (1 << n) == 0 for _, c in a.lin) and a.c % (1 << n) == 0:
                    return i_add(a, b)
                if a.hi < (b & -b):
                    return i_add(a, b)
        else:
            if op == 'or':
                for x, y in ((a, b), (b, a)):
                    n = max(y.hi, 0).bit_length()
                    if all(c % (1 << n) == 0 for _, c in x.lin) and x.c % (1 << n) == 0:
                        return i_add(x, y)
        a = self.concretise(st, a)
        b = self.concretise(st, b)
        return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]

    def ptrint(self, st, op, w, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                return self.wrap(st, i_sub(a.off, b.off), w)
            raise Unsupported('difference of unrelated pointers')
        if op == 'sub' and isinstance(a, Ptr):
            return Ptr(a.obj, i_sub(a.off, self.as_signed(st, b, w)))
        if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
            return Ptr(a.obj, i_add(a.off, self.as_signed(st, b, w)))
        if op == 'add' and isinstance(b, Ptr) and not isinstance(a, Ptr):
            return Ptr(b.obj, i_add(b.off, self.as_signed(st, a, w)))
        if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and b < 4096:
            # objects are aligned to 4096
            return self.binint(st, 'and', w, a.off, b)
        if op == 'urem' and isinstance(a, Ptr) and isinstance(b, int) and b <= 4096 and b & (b - 1) == 0:
            return self.binint(st, 'urem', w, a.off, b)
        raise Unsupported('pointer arithmetic %s' % op)

    def tobool(self, st, x):
        if isinstance(x, (bool, BT)):
            return x
        if x is UNDEF:
            raise PathEnd('uninit', 'branch on an uninitialised value')
        if isinstance(x, int):
            return bool(x & 1)
        if isinstance(x, IT):
            if x.lo >= 0 and x.hi <= 1:
                return b_not(i_eq(x, 0))
            return b_not(i_eq(i_mod(x, 2), 0))
        raise Unsupported('boolean of %r' % (x,))

    def b2i(self, st, x):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, BT):
            y = x
            if y.op == 'not' and y.args[0].op == 'ieq':
                t = y.args[0].args[0]
                if t.lo >= 0 and t.hi <= 1:
                    return t
            if y.op == 'ieq':
                t = y.args[0]
                if t.lo >= 0 and t.hi <= 1:
                    return i_sub(1, t)
                if t.lo >= -1 and t.hi <= 0:
                    return i_add(1, t)
            return int(self.decide(st, x))
        return x

    # ------------------------------------------------------------ loads / stores
    def resolve(self, st, p, n, what):
        if p is UNDEF:
            raise PathEnd('uninit', '%s through an uninitialised pointer' % what)
        if not isinstance(p, Ptr) or p.obj == 0:
            if isinstance(p, FnPtr):
                raise Unsupported('%s of a function' % what)
            raise PathEnd('memory', 'null pointer %s' % what)
        o = self.robj(st, p.obj)
        if not o.alive:
            raise PathEnd('memory', '%s after free of %s' % (what, o.name))
        off = p.off
        if isinstance(off, IT):
            off = self.norm_int(st, off)
        if isinstance(off, IT):
            inb = b_and(i_le(0, off), i_le(off, o.size - n))
            if not self.decide(st, inb):
                raise PathEnd('memory', '%s out of bounds of %s (size %d)' % (what, o.name, o.size))
            off = self.concretise(st, off)
        if off < 0 or off + n > o.size:
            raise PathEnd('memory', '%s out of bounds of %s: offset %d size %d of %d' % (what, o.name, off, n, o.size))
        if st.race is not None:
            self.access(st, p, o, off, n, what not in ('read', 'copy from'))
        return o, off

    def overlapping(self, o, off, n):
        cells = o.cells
        if n > 64 and len(cells) < n:
            return [(k, c) for k, c in cells.items() if k < off + n and k + c[0] > off]
        r = []
        for k in range(off - 15, off + n):
            c = cells.get(k)
            if c is not None and k + c[0] > off:
                r.append((k, c))
        return r

    def clear(self, o, off, n):
        for k, (m, v) in self.overlapping(o, off, n):
            del o.cells[k]
            if k < off or k + m > off + n:
                # partially overwritten: keep the rest if it can be split
                for j in range(m):
                    if not (off <= k + j < off + n):
                        o.cells[k + j] = (1, self.byte(v, m, j))
        o.unzero(off, n)

    def byte(self, v, m, j):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return (v >> (8 * j)) & 255
        if isinstance(v, Fraction):
            import struct
            if m == 4:
                return struct.pack('<f', float(v))[j]
            return struct.pack('<d', float(v))[j]
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Pack):
            for o2, m2, v2 in v.parts:
                if o2 <= j < o2 + m2:
                    return self.byte(v2, m2, j - o2)
            return UNDEF
        return ('byte', v, m, j)

    def put(self, o, off, n, v):
        self.clear(o, off, n)
        if v is UNDEF:
            return
        if isinstance(v, Pack):
            for o2, m2, v2 in v.parts:
                if v2 is not UNDEF:
                    o.cells[off + o2] = (m2, v2)
            return
        o.cells[off] = (n, v)

    def get(self, st, o, off, n, t):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.retype(c[1], t, n)
        if c is None and o.zero_cover(off, n) and not self.overlapping(o, off, n):
            return self.agg_zero(t)
        ov = self.overlapping(o, off, n)
        if not ov and not any(a < off + n and b > off for a, b in o.zeros):
            return UNDEF
        if len(ov) == 1 and ov[0][0] <= off and ov[0][0] + ov[0][1][0] >= off + n:
            k, (m, v) = ov[0]
            if isinstance(v, Pack):
                for o2, m2, v2 in v.parts:
                    if k + o2 == off and m2 == n:
                        return self.retype(v2, t, n)
            if isinstance(v, IT):
                x = self.as_unsigned(st, v, 8 * m)
                return i_mod(i_div(x, 1 << (8 * (off - k))), 1 << (8 * n))
        # assemble
        parts = []
        ok = all(k >= off and k + c2[0] <= off + n for k, c2 in ov)
        if ok and any(c2[0] > 1 for k, c2 in ov):
            pos = off
            for k, (m, v) in sorted(ov, key=lambda x: x[0]):
                if k > pos and o.zero_cover(pos, k - pos):
                    parts.append((pos - off, k - pos, 0))
                parts.append((k - off, m, v))
                pos = k + m
            if pos < off + n and o.zero_cover(pos, off + n - pos):
                parts.append((pos - off, off + n - pos, 0))
            if t[0] in ('i', 'ptr') and all(isinstance(v, int) for _, _, v in parts) and sum(m for _, m, _ in parts) == n:
                x = 0
                for o2, m2, v2 in parts:
                    x |= (v2 & ((1 << (8 * m2)) - 1)) << (8 * o2)
                return x
            return self.retype(Pack(parts, n), t, n)
        # bytes
        bs = []
        for j in range(n):
            b = UNDEF
            for k, (m, v) in ov:
                if k <= off + j < k + m:
                    b = self.byte(v, m, off + j - k)
            if b is UNDEF and o.zero_cover(off + j, 1):
                b = 0
            bs.append(b)
        if any(b is UNDEF for b in bs):
            return UNDEF
        if all(isinstance(b, int) for b in bs):
            x = 0
            for j, b in enumerate(bs):
                x |= b << (8 * j)
            return self.retype(x, t, n)
        b0 = bs[0]
        if isinstance(b0, tuple) and b0[2] == n and all(
                isinstance(b, tuple) and b[1] is b0[1] and b[3] == j for j, b in enumerate(bs)):
            return self.retype(b0[1], t, n)
        raise Unsupported('mixed byte load')

    def retype(self, v, t, n):
        k = t[0]
        if k == 'float' or k == 'double':
            if isinstance(v, (Fraction, RT, NonFinite)) or v is UNDEF:
                return v
            if isinstance(v, int):
                v &= (1 << (8 * n)) - 1
                f = bits_f32(v) if n == 4 else bits_f64(v)
                if f != f or f in (INF, -INF):
                    return real_const(f)
                return Fraction(f)
            if isinstance(v, IT):
                raise Unsupported('symbolic integer read as float')
            if isinstance(v, Pack):
                return v
            return v
        if k == 'vec':
            es = self.types.size(t[2])
            if isinstance(v, tuple):
                return v
            if isinstance(v, Pack):
                out = []
                for j in range(t[1]):
                    for o2, m2, v2 in v.parts:
                        if o2 == j * es and m2 == es:
                            out.append(self.retype(v2, t[2], es))
                            break
                    else:
                        out.append(UNDEF)
                return tuple(out)
            if isinstance(v, int):
                return tuple(self.retype((v >> (8 * es * j)) & ((1 << (8 * es)) - 1), t[2], es) for j in range(t[1]))
            if t[1] == 1:
                return (v,)
            if v is UNDEF:
                return tuple(UNDEF for _ in range(t[1]))
            raise Unsupported('vector from %r' % (v,))
        if k == 'i' and t[1] == 1 and isinstance(v, int) and not isinstance(v, bool):
            return bool(v & 1)
        return v

    def table(self, st, rt, p, n):
        """symbolic index into a constant table of floats: an opaque term table(index)"""
        if 'heap_tables' in self.opts:
            return self.heap_table(st, p, n)
        o = self.gtemplates.get(p.obj)
        if o is None or not o.ro or p.obj in st.mem or 'exact_special' in self.opts or o.size < 8 * n:
            return None
        off = self.norm_int(st, p.off)
        if not isinstance(off, IT) or off.hi - off.lo < 3 * n:
            return None
        idx = i_div(off, n)
        if i_scale(idx, n) != off:
            return None
        if o.name not in TABLES:
            es = [o.cells.get(j) for j in range(0, o.size, n)]
            if o.zeros:
                es = [(n, ZERO) if e is None else e for e in es]
            if any(e is None or e[0] != n or not isinstance(self.real(st, e[1]), Fraction) for e in es):
                return None
            TABLES[o.name] = [e[1] for e in es]
        if not self.decide(st, b_and(i_le(0, off), i_le(off, o.size - n))):
            raise PathEnd('memory', 'read out of bounds of %s (size %d)' % (o.name, o.size))
        return r_table(o.name, idx)

    def heap_table(self, st, p, n):
        """symbolic index into a table computed at start-up"""
        o = self.robj(st, p.obj)
        off = self.norm_int(st, p.off)
        if not o.alive or not isinstance(off, IT) or off.hi - off.lo < 3 * n or o.size < 8 * n:
            return None
        idx = i_div(off, n)
        if i_scale(idx, n) != off:
            return None
        inb = b_and(i_le(0, off), i_le(off, o.size - n))
        if not self.decide(st, inb):
            raise PathEnd('memory', 'read out of bounds of %s (size %d)' % (o.name, o.size))
        if st.race is not None:
            self.access(st, p, o, 0, o.size, False)
        name = 'object %d version %s' % (p.obj, o.owner)
        if name not in TABLES:
            es = [o.cells.get(j) for j in range(0, o.size, n)]
            if any(e is None or e[0] != n for e in es):
                return None
            TABLES[name] = [self.real(st, e[1]) for e in es]
        return r_table(name, idx)

    def load(self, st, t, p):
        rt = self.types.resolve(t)
        if rt[0] in ('struct', 'array'):
            if rt[0] == 'struct':
                offs, _ = self.types.layout(rt)
                return tuple(self.load(st, tt, Ptr(p.obj, i_add(p.off, oo))) for tt, oo in zip(rt[1], offs))
            es = self.types.size(rt[2])
            return tuple(self.load(st, rt[2], Ptr(p.obj, i_add(p.off, j * es))) for j in range(rt[1]))
        n = self.types.size(rt)
        if isinstance(p, Ptr) and isinstance(p.off, IT) and p.obj and rt[0] in ('float', 'double'):
            v = self.table(st, rt, p, n)
            if v is not None:
                return v
        o, off = self.resolve(st, p, n, 'read')
        v = self.get(st, o, off, n, rt)
        if isinstance(v, IT) and st.conc:
            v = self.norm_int(st, v)
        return v

    def store(self, st, t, v, p):
        rt = self.types.resolve(t)
        if rt[0] == 'struct':
            offs, _ = self.types.layout(rt)
            for tt, vv, oo in zip(rt[1], v, offs):
                self.store(st, tt, vv, Ptr(p.obj, i_add(p.off, oo)))
            return
        if rt[0] in ('array', 'vec') and isinstance(v, tuple):
            es = self.types.size(rt[2])
            for j, vv in enumerate(v):
                self.store(st, rt[2], vv, Ptr(p.obj, i_add(p.off, j * es)))
            return
        n = self.types.size(rt)
        if isinstance(v, BT):
            v = self.b2i(st, v)
        if isinstance(v, bool):
            v = int(v)
        o, off = self.resolve(st, p, n, 'write')
        if o.ro:
            raise PathEnd('memory', 'write to constant %s' % o.name)
        o = self.wobj(st, p.obj)
        self.put(o, off, n, v)

    def memcpy(self, st, dst, src, n):
        n = self.concretise(st, n)
        if n == 0:
            return
        so, soff = self.resolve(st, src, n, 'copy from')
        do, doff = self.resolve(st, dst, n, 'copy to')
        cells = []
        for k, (m, v) in self.overlapping(so, soff, n):
            if k < soff or k + m > soff + n:
                for j in range(m):
                    if soff <= k + j < soff + n:
                        cells.append((k + j - soff, 1, self.byte(v, m, j)))
            else:
                cells.append((k - soff, m, v))
        zeros = []
        for a, b in so.zeros:
            a, b = max(a, soff), min(b, soff + n)
            if a < b:
                zeros.append((a - soff, b - soff))
        do = self.wobj(st, dst.obj)
        self.clear(do, doff, n)
        for a, b in zeros:
            do.zeros.append((doff + a, doff + b))
        for k, m, v in cells:
            if v is not UNDEF:
                do.cells[doff + k] = (m, v)

    def memset(self, st, dst, b, n):
        n = self.concretise(st, n)
        if n == 0:
            return
        o, off = self.resolve(st, dst, n, 'memset')
        o = self.wobj(st, dst.obj)
        self.clear(o, off, n)
        b = self.concretise(st, b)
        if b == 0:
            o.zeros.append((off, off + n))
        else:
            for j in range(n):
                o.cells[off + j] = (1, b & 255)

    # ------------------------------------------------------------ floats
    def real(self, st, x):
        if isinstance(x, (RT, Fraction, NonFinite)):
            return x
        if x is UNDEF:
            raise PathEnd('uninit', 'use of an uninitialised float')
        raise Unsupported('real of %r' % (x,))

    def fdiv(self, st, a, b):
        if isinstance(b, RT):
            r = norm.rf(b)
            if not r.num:
                return NonFinite('division by zero')
            if norm.psign(r.num) != '+' and norm.psign(norm.pneg(r.num)) != '+':
                if self.decide(st, r_eq(b, ZERO)):
                    return NonFinite('division by zero')
        return r_div(a, b)

    def fcmp(self, st, pred, a, b):
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if pred in ('ord', 'uno'):
            bad = any(isinstance(x, NonFinite) and x.sign == 0 for x in (a, b))
            return bad == (pred == 'uno')
        nan = any(isinstance(x, NonFinite) and x.sign == 0 for x in (a, b))
        if nan:
            return pred[0] == 'u'
        q = pred[1:]
        if q == 'lt':
            return r_lt(a, b)
        if q == 'gt':
            return r_lt(b, a)
        if q == 'le':
            return r_le(a, b)
        if q == 'ge':
            return r_le(b, a)
        if q == 'eq':
            return r_eq(a, b)
        return b_not(r_eq(a, b))

    def icmp(self, st, pred, t, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if a is UNDEF or b is UNDEF:
                raise PathEnd('uninit', 'comparison with an uninitialised pointer')
            return self.pcmp(st, pred, a, b)
        if a is UNDEF or b is UNDEF:
            raise PathEnd('uninit', 'comparison with an uninitialised value')
        w = t[1] if t[0] == 'i' else 64
        if w == 1:
            a = self.tobool(st, a)
            b = self.tobool(st, b)
            if pred in ('eq', 'ne') and isinstance(b, bool):
                return a if b == (pred == 'eq') else b_not(a)
            a = int(self.decide(st, a))
            b = int(self.decide(st, b))
        if isinstance(a, BT):
            a = self.b2i(st, a)
        if isinstance(b, BT):
            b = self.b2i(st, b)
        if pred in ('eq', 'ne'):
            a, b = self.same_view(st, a, b, w)
            r = i_eq(a, b)
            return r if pred == 'eq' else b_not(r)
        f = self.as_signed if pred[0] == 's' else self.as_unsigned
        a, b = f(st, a, w), f(st, b, w)
        q = pred[1:]
        if q == 'lt':
            return i_lt(a, b)
        if q == 'gt':
            return i_lt(b, a)
        if q == 'le':
            return i_le(a, b)
        return i_le(b, a)

    def same_view(self, st, a, b, w):
        h = 1 << (w - 1)
        if i_lo(a) >= 0 and i_lo(b) >= 0 if not isinstance(a, (Fraction, RT, Pack)) and not isinstance(b, (Fraction, RT, Pack)) else False:
            return a, b
        if not isinstance(a, (int, IT)) or not isinstance(b, (int, IT)):
            return self.as_unsigned(st, a, w), self.as_unsigned(st, b, w)
        if i_hi(a) < h and i_hi(b) < h:
            return a, b
        if isinstance(a, int) or isinstance(b, int):
            # pick the view in which the symbolic one needs no case split
            s = b if isinstance(a, int) else a
            if isinstance(s, IT) and s.lo < 0:
                return self.as_signed(st, a, w), self.as_signed(st, b, w)
        return self.as_unsigned(st, a, w), self.as_unsigned(st, b, w)

    def pcmp(self, st, pred, a, b):
        def isnull(x):
            return isinstance(x, int) and x == 0
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return same == (pred == 'eq')
        if isnull(a) or isnull(b):
            if pred == 'eq':
                return False
            if pred == 'ne':
                return True
            if pred in ('ugt', 'uge'):
                return isnull(b)
            return isnull(a)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                if pred == 'eq':
                    return i_eq(a.off, b.off)
                if pred == 'ne':
                    return b_not(i_eq(a.off, b.off))
                q = pred[1:]
                x, y = a.off, b.off
                return {'lt': i_lt(x, y), 'gt': i_lt(y, x), 'le': i_le(x, y), 'ge': i_le(y, x)}[q]
            if pred == 'eq':
                return False
            if pred == 'ne':
                return True
            q = pred[1:]
            x, y = a.obj, b.obj
            return {'lt': x < y, 'gt': y < x, 'le': x <= y, 'ge': y <= x}[q]
        if isinstance(a, int) or isinstance(b, int):
            if pred in ('eq', 'ne'):
                return pred == 'ne'
        raise Unsupported('pointer comparison')

    # ------------------------------------------------------------ execution
    def val(self, fr, t, v):
        k = v[0]
        if k == 'reg':
            return fr.regs[v[1]]
        return self.const(t, v)

    def compile_fn(self, fn):
        if fn.code is not None:
            return fn.code
        fn.parse()
        code = {}
        for label, ins in fn.blocks.items():
            nphi = 0
            while nphi < len(ins) and ins[nphi].op == 'phi':
                nphi += 1
            phis = [(i.dst, i.a[0], i.a[1]) for i in ins[:nphi]]
            # constants pre-evaluated lazily
            code[label] = (phis, [(getattr(self, 'x_' + i.op), i) for i in ins[nphi:]])
        fn.code = code
        return code

    def enter(self, st, fn, args, ret, retblock):
        if len(st.frames) > 120:
            raise Unsupported('call depth')
        code = self.compile_fn(fn)
        fr = Frame()
        fr.fn = fn
        fr.regs = {}
        fr.allocas = []
        fr.code = code
        for (t, nm, bv), a in zip(fn.params, args):
            if bv is not None:
                n = self.types.size(bv)
                i = self.new_obj(st, n, 'byval', 'stack')
                self.memcpy(st, Ptr(i, 0), a, n)
                a = Ptr(i, 0)
                fr.allocas.append(i)
            fr.regs[nm] = a
        fr.ret = ret
        fr.retblock = retblock
        fr.block = fn.entry
        fr.prev = None
        fr.ip = 0
        st.frames.append(fr)
        self.funcs_seen.add(fn.name)

    def goto(self, st, fr, label):
        phis, ins = fr.code[label]
        if phis:
            prev = fr.block
            vals = [self.val(fr, t, inc[prev]) for _, t, inc in phis]
            for (d, _, _), v in zip(phis, vals):
                fr.regs[d] = v
        fr.prev = fr.block
        fr.block = label
        fr.ip = 0

    def run(self, entry, setup=None):
        st = State()
        fn = self.m.funcs['@' + entry]
        try:
            self.run_ctors(st)
        except (PathEnd, Unsupported, Fork) as e:
            self.incomplete.append('global constructors: %r' % (e,))
        st.frames = []
        self.enter(st, fn, [], None, None)
        self.funcs_seen.discard(fn.name)
        self.explore([st])

    def run_ctors(self, st):
        if '@llvm.global_ctors' not in self.m.globals:
            return
        d = self.m.global_def('@llvm.global_ctors')
        if d[2] is None or d[2][0] != 'agg':
            return
        for tt, v in d[2][1]:
            f = v[1][1][1]
            if f[0] != 'global':
                continue
            st.frames = []
            self.enter(st, self.m.funcs[f[1]], [], None, None)
            self.funcs_seen.discard(f[1])
            n = 0
            while st.frames:
                self.step_block(st)
                n += 1
                if n > 200000:
                    raise Unsupported('global constructor does not finish')
        st.frames = []

    def explore(self, work):
        while work:
            st = work.pop()
            try:
                while st.frames:
                    self.step_block(st)
                self.end_path(st, 'ok', '')
            except Fork as f:
                t = st.fork()
                if self.deadline and time.time() > self.deadline:
                    self.incomplete.append('time budget')
                    return
                if sum(self.paths.values()) + len(work) > self.max_paths:
                    self.incomplete.append('path budget')
                    return
                nb = b_not(f.cond)
                t.pc.append(nb)
                t.learn(nb, True)
                st.pc.append(f.cond)
                st.learn(f.cond, True)
                work.append(t)
                work.append(st)
            except PathEnd as e:
                if e.kind == 'error' and 'try' in st.notes:
                    self.caught(st)
                    work.append(st)
                else:
                    self.end_path(st, e.kind, e.msg)
            except Unsupported as e:
                self.incomplete.append('unsupported: %s (in %s)' % (e, st.frames[-1].fn.pretty if st.frames else '?'))
                if len(self.incomplete) > 20:
                    return
            if self.deadline and time.time() > self.deadline:
                self.incomplete.append('time budget')
                return

    def caught(self, st):
        """resume after v_try() (which then returns false) with the memory the error left behind;
        destructors of the abandoned frames are not run"""
        depth, block, prev, ip, dst, nd = st.notes.pop('try')
        while len(st.frames) > depth:
            fr = st.frames.pop()
            for a in fr.allocas:
                o = self.wobj(st, a)
                o.alive = False
                o.cells = {}
        fr = st.frames[-1]
        fr.block, fr.prev, fr.ip = block, prev, ip
        if dst is not None:
            fr.regs[dst] = False
        if nd is not None:
            self.goto(st, fr, nd)
        else:
            fr.ip += 1

    def end_path(self, st, kind, msg):
        if kind == 'ok':
            self.paths['ok'] += 1
            if 'collect' in self.opts:
                self.opts['collect'].append((list(st.pc), list(st.inputs), {
                    k[1]: t for k, t in st.notes.items() if isinstance(k, tuple) and k[0] == 'export'}))
            n = self.paths['ok']
            if len(self.witnesses) < 2 or (n & (n - 1)) == 0:
                if len(self.witnesses) == 4:
                    self.witnesses.pop(1)
                self.witnesses.append((list(st.pc), list(st.inputs)))
        elif kind in ('assume', 'infeasible'):
            self.paths['assume'] += 1
        elif kind == 'error' and st.expect_error:
            self.paths['error'] += 1
        else:
            self.paths['error'] += 1
            where = ' <- '.join((f.fn.pretty or f.fn.name).split('(')[0] for f in reversed(st.frames[-4:]))
            label = '%s: %s' % (kind, msg)
            self.problem(st, label, where)

    def problem(self, st, label, where):
        key = ('problem', label, where)
        n = self.label_fail.get(key, 0)
        self.label_fail[key] = n + 1
        if n >= 2:
            return
        # is the path really feasible?
        if self.p.check(st.pc, True) == 'unsat':
            return
        self.failed.append(dict(label=label, where=where, kind='problem', status='refuted', pc=list(st.pc),
                                inputs=list(st.inputs), terms=None, goal=False))

    def step_block(self, st):
        fr = st.frames[-1]
        ins = fr.code[fr.block][1]
        depth = len(st.frames)
        while True:
            h, i = ins[fr.ip]
            self.steps += 1
            if h(st, fr, i):
                return
            fr.ip += 1

    # each handler returns True when control left the straight line
    def x_ret(self, st, fr, i):
        t, v = i.a
        x = None if v is None else self.val(fr, t, v)
        for a in fr.allocas:
            o = self.wobj(st, a)
            o.alive = False
            o.cells = {}
        st.frames.pop()
        if st.frames:
            c = st.frames[-1]
            if fr.ret is not None:
                c.regs[fr.ret] = x
            if fr.retblock is not None:
                self.goto(st, c, fr.retblock)
            else:
                c.ip += 1
        if self.steps > self.max_steps:
            raise Unsupported('step budget')
        return True

    def x_jmp(self, st, fr, i):
        self.goto(st, fr, i.a[0])
        return True

    def x_br(self, st, fr, i):
        v, a, b = i.a
        c = self.tobool(st, self.val(fr, ('i', 1), v))
        self.goto(st, fr, a if self.decide(st, c) else b)
        return True

    def x_switch(self, st, fr, i):
        t, v, d, cases = i.a
        x = self.val(fr, t, v)
        if x is UNDEF:
            raise PathEnd('uninit', 'switch on an uninitialised value')
        w = t[1]
        for c, l in cases:
            a, b = self.same_view(st, x, int(c), w)
            if self.decide(st, i_eq(a, b)):
                self.goto(st, fr, l)
                return True
        self.goto(st, fr, d)
        return True

    def x_unreachable(self, st, fr, i):
        raise PathEnd('ub', 'unreachable code reached')

    def x_nop(self, st, fr, i):
        return False

    def x_asm(self, st, fr, i):
        return False

    # atomic operations order the threads (THREADS) and do not race
    def x_aload(self, st, fr, i):
        t, p = i.a
        p = self.val(fr, ('ptr',), p)
        r, st.race = st.race, None
        fr.regs[i.dst] = self.load(st, t, p)
        st.race = r
        if r is not None:
            r.acquire((p.obj, p.off))
        return False

    def x_astore(self, st, fr, i):
        t, v, p = i.a
        p = self.val(fr, ('ptr',), p)
        r, st.race = st.race, None
        self.store(st, t, self.val(fr, t, v), p)
        st.race = r
        if r is not None:
            r.release((p.obj, p.off))
        return False

    def x_atomicrmw(self, st, fr, i):
        k, p, t, v = i.a
        p, v = self.val(fr, ('ptr',), p), self.val(fr, t, v)
        r, st.race = st.race, None
        old = self.load(st, t, p)
        w = t[1] if t[0] == 'i' else 64
        if k == 'xchg':
            new = v
        elif k in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.binint(st, k, w, old, v)
        else:
            raise Unsupported('atomicrmw ' + k)
        self.store(st, t, new, p)
        st.race = r
        if r is not None:
            r.acquire((p.obj, p.off))
            r.release((p.obj, p.off))
        fr.regs[i.dst] = old
        return False

    def x_cmpxchg(self, st, fr, i):
        p, t, c, v = i.a
        p, c, v = self.val(fr, ('ptr',), p), self.val(fr, t, c), self.val(fr, t, v)
        r, st.race = st.race, None
        old = self.load(st, t, p)
        eq = self.pcmp(st, 'eq', old, c) if t[0] == 'ptr' else self.icmp(st, 'eq', t, old, c)
        eq = self.decide(st, eq)
        if eq:
            self.store(st, t, v, p)
        st.race = r
        if r is not None:
            r.acquire((p.obj, p.off))
            if eq:
                r.release((p.obj, p.off))
        fr.regs[i.dst] = (old, int(eq))
        return False

    # ------------------------------------------------------------ threads
    def thread(self, st, n):
        """what follows runs on thread n (-1: the threads have been joined)"""
        if n == 0:
            st.race = Race()
            st.race.base = self.nobj
            st.race.main = {i: st.mem[i] for i in self.tls if i in st.mem}
        r = st.race
        for i in self.tls:                      # every thread has its own
            st.mem.pop(i, None)
        r.thread = n
        r.epoch = r.seen = 0
        if n < 0:
            st.mem.update(r.main)
            st.race = None
            self.obligation(st, 'no data race', True, None, 'bool')

    def access(self, st, p, o, off, n, write):
        r = st.race
        if o.ro or p.obj in self.tls or o.kind == 'stack' and p.obj > r.base or o.name in UNMONITORED:
            return
        if r.thread == 0:
            for k in ('w',) if write else ('r',):
                d = r.log.get((p.obj, k))
                if d is None:
                    d = {}
                elif (p.obj, k) not in r.own:
                    d = dict(d)
                r.own.add((p.obj, k))
                r.log[p.obj, k] = d
                for j in range(off, off + n):
                    d[j] = r.epoch
            return
        for k in ('w', 'r') if write else ('w',):
            d = r.log.get((p.obj, k))
            if d:
                for j in range(off, off + n):
                    e = d.get(j)
                    if e is not None and e >= r.seen:
                        raise PathEnd('race', 'threads %s and %s %s with nothing to order them' % (
                            'write' if k == 'w' else 'read', 'write' if write else 'read', o.name))

    def x_landingpad(self, st, fr, i):
        raise Unsupported('landingpad')

    x_resume = x_landingpad

    def x_alloca(self, st, fr, i):
        t, n = i.a
        k = self.val(fr, ('i', 64), n)
        k = self.concretise(st, k)
        o = self.new_obj(st, self.types.size(t) * k, 'local %s in %s' % (i.dst, fr.fn.pretty and fr.fn.pretty.split('(')[0]),
                         'stack')
        fr.allocas.append(o)
        fr.regs[i.dst] = Ptr(o, 0)
        return False

    def x_load(self, st, fr, i):
        t, p = i.a
        fr.regs[i.dst] = self.load(st, t, self.val(fr, ('ptr',), p))
        return False

    def x_store(self, st, fr, i):
        t, v, p = i.a
        self.store(st, t, self.val(fr, t, v), self.val(fr, ('ptr',), p))
        return False

    def x_gep(self, st, fr, i):
        ty, args = i.a
        base = self.val(fr, args[0][0], args[0][1])
        idx = [self.val(fr, t, v) for t, v in args[1:]]
        fr.regs[i.dst] = self.gep(st, ty, base, idx)
        return False

    def x_icmp(self, st, fr, i):
        pred, t, a, b = i.a
        fr.regs[i.dst] = self.icmp(st, pred, t, self.val(fr, t, a), self.val(fr, t, b))
        return False

    def x_fcmp(self, st, fr, i):
        pred, t, a, b = i.a
        x, y = self.val(fr, t, a), self.val(fr, t, b)
        if t[0] == 'vec':
            fr.regs[i.dst] = tuple(self.fcmp(st, pred, self.real(st, p), self.real(st, q)) for p, q in zip(x, y))
        else:
            fr.regs[i.dst] = self.fcmp(st, pred, self.real(st, x), self.real(st, y))
        return False

    def _ibin(self, st, fr, i):
        t, a, b = i.a
        x, y = self.val(fr, t, a), self.val(fr, t, b)
        if t[0] == 'vec':
            fr.regs[i.dst] = tuple(self.binint(st, i.op, t[2][1], p, q) for p, q in zip(x, y))
        else:
            fr.regs[i.dst] = self.binint(st, i.op, t[1], x, y)
        return False

    x_add = x_sub = x_mul = x_udiv = x_sdiv = x_urem = x_srem = x_shl = x_lshr = x_ashr = x_and = x_or = x_xor = _ibin

    def fbin(self, st, op, a, b):
        a, b = self.real(st, a), self.real(st, b)
        if op == 'fadd':
            return r_add(a, b)
        if op == 'fsub':
            return r_sub(a, b)
        if op == 'fmul':
            return r_mul(a, b)
        if op == 'fdiv':
            return self.fdiv(st, a, b)
        raise Unsupported(op)

    def _fbin(self, st, fr, i):
        t, a, b = i.a
        x, y = self.val(fr, t, a), self.val(fr, t, b)
        if t[0] == 'vec':
            fr.regs[i.dst] = tuple(self.fbin(st, i.op, p, q) for p, q in zip(x, y))
        else:
            fr.regs[i.dst] = self.fbin(st, i.op, x, y)
        return False

    x_fadd = x_fsub = x_fmul = x_fdiv = x_frem = _fbin

    def x_fneg(self, st, fr, i):
        t, v = i.a
        x = self.val(fr, t, v)
        if t[0] == 'vec':
            fr.regs[i.dst] = tuple(r_neg(self.real(st, p)) for p in x)
        else:
            fr.regs[i.dst] = r_neg(self.real(st, x))
        return False

    def x_freeze(self, st, fr, i):
        fr.regs[i.dst] = self.val(fr, i.a[0], i.a[1])
        return False

    def _cast(self, st, fr, i):
        t, v, t2 = i.a
        x = self.val(fr, t, v)
        if t[0] == 'vec' and i.op != 'bitcast':
            fr.regs[i.dst] = tuple(self.cast(st, i.op, t[2], p, t2[2]) for p in x)
        else:
            fr.regs[i.dst] = self.cast(st, i.op, t, x, t2)
        return False

    x_trunc = x_zext = x_sext = x_fptrunc = x_fpext = x_fptoui = x_fptosi = x_uitofp = x_sitofp = _cast
    x_ptrtoint = x_inttoptr = x_bitcast = x_addrspacecast = _cast

    def cast(self, st, op, t, x, t2):
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            return x
        if op in ('fptrunc', 'fpext'):
            return self.real(st, x)
        if x is UNDEF:
            if op == 'bitcast':
                return self.agg_undef(t2)
            if op in ('uitofp', 'sitofp', 'fptosi', 'fptoui'):
                raise PathEnd('uninit', 'conversion of an uninitialised value')
            return UNDEF
        if op == 'zext':
            if isinstance(x, (bool, BT)):
                return self.b2i(st, x)
            if isinstance(x, (Fraction, RT, Pack)):
                return Pack([(0, t[1] // 8, x), (t[1] // 8, (t2[1] - t[1]) // 8, 0)], t2[1] // 8)
            return self.as_unsigned(st, x, t[1])
        if op == 'sext':
            if isinstance(x, (bool, BT)):
                return i_scale(self.b2i(st, x), -1)
            return self.as_signed(st, x, t[1])
        if op == 'trunc':
            w = t2[1]
            if isinstance(x, Ptr):
                raise Unsupported('trunc of a pointer')
            if isinstance(x, Pack):
                for o2, m2, v2 in x.parts:
                    if o2 == 0 and m2 == w // 8:
                        return v2
                raise Unsupported('trunc of packed value')
            if isinstance(x, (Fraction, RT)):
                x = self.bad_int(st, x, t[1])
            if w == 1:
                return self.tobool(st, x)
            if isinstance(x, int):
                return int(x) % (1 << w) if not (-(1 << (w - 1)) <= x < (1 << w)) else x
            if x.lo >= -(1 << (w - 1)) and x.hi < (1 << w):
                return x
            x = self.norm_int(st, x)
            if not isinstance(x, IT):
                return self.cast(st, op, t, x, t2)
            if self.p.must(st.pc, b_and(i_le(-(1 << (w - 1)), x), i_lt(x, 1 << w))):
                return x
            return i_mod(x, 1 << w)
        if op == 'uitofp':
            return r_int(self.norm_int(st, self.as_unsigned(st, x, t[1])))
        if op == 'sitofp':
            return r_int(self.norm_int(st, self.as_signed(st, x, t[1])))
        if op in ('fptosi', 'fptoui'):
            return self.ftoi(st, self.real(st, x), t2[1])
        if op == 'bitcast':
            n = self.types.size(t2)
            if t[0] == 'vec' and t2[0] != 'vec':
                es = self.types.size(t[2])
                return self.retype(Pack([(j * es, es, v) for j, v in enumerate(x)], n), t2, n)
            return self.retype(x, t2, n)
        raise Unsupported(op)

    def ftoi(self, st, x, w):
        if isinstance(x, Fraction):
            return int(x) if x >= 0 else -int(-x)
        if isinstance(x, NonFinite):
            raise PathEnd('ub', 'conversion of a non-finite float to an integer')
        r = norm.rf(x)
        # exact integer valued?
        it = self.rf_to_int(r)
        if it is not None:
            return it
        key = ('ftoi', x.id)
        k = st.notes.get(key)
        if k is None:
            if self.decide(st, r_lt(x, ZERO)):
                y = r_neg(x)
                k = ivar('fti_%d_n' % x.id[1], -(1 << 31), 0)
                a, b = r_int(i_scale(k, -1)), y
            else:
                k = ivar('fti_%d' % x.id[1], 0, (1 << 31) - 1)
                a, b = r_int(k), x
            st.assume(r_le(a, b))
            st.assume(r_lt(b, r_add(a, ONE)))
            st.notes[key] = k
        return k

    def rf_to_int(self, r):
        if r.den:
            return None
        d = {}
        c = 0
        for m, k in r.num.items():
            if k.denominator != 1:
                return None
            if not m:
                c += int(k)
                continue
            if len(m) != 1 or m[0][1] != 1 or norm.ATOMS[m[0][0]].kind != 'int':
                return None
            d[norm.ATOMS[m[0][0]].arg] = int(k)
        return mk_lin(d, c)

    def x_select(self, st, fr, i):
        ct, c, t, a, b = i.a
        if ct[0] == 'vec':
            raise Unsupported('vector select')
        x = self.decide(st, self.tobool(st, self.val(fr, ct, c)))
        fr.regs[i.dst] = self.val(fr, t, a if x else b)
        return False

    def x_extractvalue(self, st, fr, i):
        t, v, idx = i.a
        x = self.val(fr, t, v)
        for k in idx:
            x = x[k]
        fr.regs[i.dst] = x
        return False

    def x_insertvalue(self, st, fr, i):
        t, v, t2, v2, idx = i.a
        x = self.val(fr, t, v)
        y = self.val(fr, t2, v2)

        def ins(x, idx):
            if not idx:
                return y
            x = list(x)
            x[idx[0]] = ins(x[idx[0]], idx[1:])
            return tuple(x)
        fr.regs[i.dst] = ins(x, idx)
        return False

    def x_extractelement(self, st, fr, i):
        t, v, k = i.a
        x = self.val(fr, t, v)
        j = self.concretise(st, self.val(fr, ('i', 64), k))
        fr.regs[i.dst] = x[j]
        return False

    def x_insertelement(self, st, fr, i):
        t, v, e, k = i.a
        x = list(self.val(fr, t, v))
        j = self.concretise(st, self.val(fr, ('i', 64), k))
        x[j] = self.val(fr, t[2], e)
        fr.regs[i.dst] = tuple(x)
        return False

    def x_shufflevector(self, st, fr, i):
        t, v, w, t3, m = i.a
        x = self.val(fr, t, v)
        y = self.val(fr, t, w)
        z = tuple(x) + tuple(y)
        mk = self.val(fr, t3, m)
        fr.regs[i.dst] = tuple(UNDEF if k is UNDEF else z[k] for k in mk)
        return False

    # ------------------------------------------------------------ calls
    def x_call(self, st, fr, i):
        rt, callee, args, nd, ud = i.a
        f = self.val(fr, ('ptr',), callee)
        if not isinstance(f, FnPtr):
            raise Unsupported('indirect call')
        fn = self.m.funcs[f.name]
        h = self.intercepts.get(f.name)
        if h is None:
            h = self.lookup(fn)
            self.intercepts[f.name] = h
        vals = [self.val(fr, t, v) for t, v, _ in args]
        if h is False:
            # byval at the call site
            self.enter(st, fn, vals, i.dst, nd)
            return True
        r = h(self, st, fn, vals, i)
        if i.dst is not None:
            fr.regs[i.dst] = r
        if nd is not None:
            self.goto(st, fr, nd)
            return True
        return False

    x_invoke = x_call

    def lookup(self, fn):
        from . import models
        h = models.find(self, fn)
        if h is None:
            if fn.decl:
                nm = fn.pretty or fn.name

                def unknown(e, st, fn, vals, i):
                    raise Unsupported('call to unknown external %s' % nm)
                return unknown
            return False
        return h

    # ------------------------------------------------------------ obligations
    def obligation(self, st, label, goal, terms=None, kind='bool'):
        self.obligations += 1
        self.reach[label] = self.reach.get(label, 0) + 1
        if kind != 'bound' and terms is not None and any(isinstance(t, NonFinite) for t in terms):
            a, b = terms
            if isinstance(a, NonFinite) and isinstance(b, NonFinite) and a.sign == b.sign and a.sign:
                self.discharged += 1
                return
            goal = False
        if kind == 'bound':
            from . import special
            r, env = special.decide(self.p, st.pc, terms[0], goal[0], terms[1], goal[1], goal[2], self.deadline)
            if r != 'proved' and self.p.check(st.pc, True) == 'unsat':
                r = 'proved'
        else:
            r = self.p.prove(st.pc, goal)
        if r == 'proved':
            self.discharged += 1
            return
        if kind == 'bound':
            if self.label_fail.get(label, 0) < 6:
                self.label_fail[label] = self.label_fail.get(label, 0) + 1
                self.failed.append(dict(label=label, where=str(env) if r == 'unknown' else '', kind=kind, status=r,
                                        pc=list(st.pc), goal=goal, terms=None, inputs=list(st.inputs),
                                        env=env if r == 'refuted' else None))
            return
        n = self.label_fail.get(label, 0)
        self.label_fail[label] = n + 1
        if n >= 6:
            if r == 'unknown':
                self.failed.append(dict(label=label, where='', kind=kind, status=r, pc=None))
            return
        if goal is False and self.p.check(st.pc, True) == 'unsat':
            self.discharged += 1
            return
        self.failed.append(dict(label=label, where='', kind=kind, status=r, pc=list(st.pc), goal=goal,
                                terms=terms, inputs=list(st.inputs)))

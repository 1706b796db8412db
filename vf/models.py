"""Contracts of the functions the executor does not step into."""
from fractions import Fraction
import re
from .terms import *
from .terms import _rt
from . import norm

EXACT = {}
PRETTY = {}
PREFIX = []


def exact(*names):
    def d(f):
        for n in names:
            EXACT['@' + n] = f
        return f
    return d


def pretty(*names):
    def d(f):
        for n in names:
            PRETTY[n] = f
        return f
    return d


def install(e):
    e.opts = {}


def find(e, fn):
    h = EXACT.get(fn.name)
    if h:
        return h
    n = fn.pretty or ''
    if 'exact_special' not in e.opts or n == 'fmath::exp(float)' and 'model_fmath' in e.opts:
        h = PRETTY.get(n)
        if h:
            return h
    if n.startswith('distributions::detail::FastLog::FastLog(') and 'run_fastlog' not in e.opts:
        return nop
    if n.startswith('fmath::local::') and ('Var' in n):
        return nop
    if fn.decl or fn.name.startswith('@llvm.'):
        for rx, h in PREFIX:
            if rx.search(fn.name) or rx.search(n):
                return h
    return None


def nop(e, st, fn, v, i):
    return 0


def rx(p):
    def d(f):
        PREFIX.append((re.compile(p), f))
        return f
    return d


# ------------------------------------------------------------------ harness interface

def cstr(e, st, p):
    from .engine import Ptr
    o = e.robj(st, p.obj)
    s = []
    k = p.off
    while True:
        c = o.cells.get(k)
        b = c[1] if c else 0
        if b == 0:
            break
        s.append(chr(b))
        k += 1
    return ''.join(s)


def _input(st, name, kind, mk):
    n = '%s#%d' % (name, st.ninput)
    st.ninput += 1
    t = mk(n)
    st.inputs.append((n, kind, t))
    return t


@exact('nd_float', 'nd_double')
def nd_float(e, st, fn, v, i):
    name = cstr(e, st, v[0])
    lo, hi = v[1], v[2]
    return _input(st, name, 'f', lambda n: rvar(n, lo, hi))


@exact('nd_pos')
def nd_pos(e, st, fn, v, i):
    name = cstr(e, st, v[0])
    return _input(st, name, 'f', lambda n: rvar(n, Fraction(0), None, True))


@exact('nd_real')
def nd_real(e, st, fn, v, i):
    name = cstr(e, st, v[0])
    return _input(st, name, 'f', lambda n: rvar(n, None, None))


@exact('nd_int')
def nd_int(e, st, fn, v, i):
    name = cstr(e, st, v[0])
    lo, hi = e.as_signed(st, v[1], 32), e.as_signed(st, v[2], 32)
    return _input(st, name, 'i', lambda n: ivar(n, lo, hi))


@exact('nd_u32')
def nd_u32(e, st, fn, v, i):
    name = cstr(e, st, v[0])
    lo, hi = e.as_unsigned(st, v[1], 32), e.as_unsigned(st, v[2], 32)
    return _input(st, name, 'i', lambda n: ivar(n, lo, hi))


@exact('nd_choice')
def nd_choice(e, st, fn, v, i):
    """a small integer, enumerated by forking (so that it is concrete afterwards)"""
    name = cstr(e, st, v[0])
    n = e.as_signed(st, v[1], 32)
    key = ('choice', st.ninput)
    t = st.notes.get(key)
    if t is None:
        t = ivar('%s#%d' % (name, st.ninput), 0, n - 1)
        st.notes[key] = t
    x = e.concretise(st, t, 2000)
    st.inputs.append(('%s#%d' % (name, st.ninput), 'i', t))
    st.ninput += 1
    return x


@exact('v_assume')
def v_assume(e, st, fn, v, i):
    from .engine import PathEnd
    b = e.tobool(st, v[0])
    if not e.p.may(st.pc, b):
        raise PathEnd('assume')
    if not isinstance(b, bool):
        st.assume(b)
    elif not b:
        raise PathEnd('assume')
    return None


@exact('v_check')
def v_check(e, st, fn, v, i):
    label = cstr(e, st, v[1])
    e.obligation(st, label, e.tobool(st, v[0]))


@exact('v_close', 'v_closed')
def v_close(e, st, fn, v, i):
    label = cstr(e, st, v[2])
    a, b = e.real(st, v[0]), e.real(st, v[1])
    e.obligation(st, label, r_eq(a, b), (a, b), 'close')


@exact('v_neginf')
def v_neginf(e, st, fn, v, i):
    x = e.real(st, v[0])
    e.obligation(st, cstr(e, st, v[1]), isinstance(x, NonFinite) and x.sign < 0)


@exact('v_eqi')
def v_eqi(e, st, fn, v, i):
    label = cstr(e, st, v[2])
    a, b = e.as_signed(st, v[0], 64), e.as_signed(st, v[1], 64)
    e.obligation(st, label, i_eq(a, b), (a, b), 'eqi')


@exact('v_le')
def v_le(e, st, fn, v, i):
    """a <= b"""
    label = cstr(e, st, v[2])
    a, b = e.real(st, v[0]), e.real(st, v[1])
    e.obligation(st, label, r_le(a, b), (a, b), 'le')


@exact('v_lt')
def v_lt(e, st, fn, v, i):
    label = cstr(e, st, v[2])
    a, b = e.real(st, v[0]), e.real(st, v[1])
    e.obligation(st, label, r_lt(a, b), (a, b), 'lt')


@exact('v_bound')
def v_bound(e, st, fn, v, i):
    """|got - fn(x)| <= ab + rel |fn(x)|"""
    label = cstr(e, st, v[5])
    got, x = e.real(st, v[0]), e.real(st, v[2])
    k = e.as_signed(st, v[1], 32)
    e.obligation(st, label, (k, e.real(st, v[3]), e.real(st, v[4])), (got, x), 'bound')


@exact('nd_bits')
def nd_bits(e, st, fn, v, i):
    """every float with the given exponent: 2^c (1 + m / 2^23)"""
    from .special import BITS
    name = cstr(e, st, v[0])
    c = e.concretise(st, e.as_signed(st, v[1], 32))
    m = _input(st, name, 'i', lambda n: ivar(n, 0, (1 << 23) - 1))
    x = r_add(Fraction(2) ** c, r_mul(Fraction(2) ** (c - 23), r_int(m)))
    BITS[x.id] = (c, m)
    return x


@exact('nd_bits_any')
def nd_bits_any(e, st, fn, v, i):
    """every float with an exponent in [lo, hi]"""
    from .special import BITS
    name = cstr(e, st, v[0])
    lo, hi = e.as_signed(st, v[1], 32), e.as_signed(st, v[2], 32)
    c = _input(st, name + '.e', 'i', lambda n: ivar(n, lo, hi))
    part, of = e.as_signed(st, v[3], 32), e.as_signed(st, v[4], 32)
    w = (1 << 23) // of
    m = _input(st, name + '.m', 'i', lambda n: ivar(n, part * w, part * w + w - 1))
    x = rvar('%s#x%d' % (name, st.ninput), Fraction(2) ** lo, Fraction(2) ** (hi + 1))
    BITS[x.id] = (c, m)
    return x


@exact('v_expect_error')
def v_expect_error(e, st, fn, v, i):
    st.expect_error = bool(v[0])


@exact('v_try')
def v_try(e, st, fn, v, i):
    fr = st.frames[-1]
    st.notes['try'] = (len(st.frames), fr.block, fr.prev, fr.ip, i.dst, i.a[3])
    return True


@exact('v_tried')
def v_tried(e, st, fn, v, i):
    st.notes.pop('try', None)


@exact('v_reach')
def v_reach(e, st, fn, v, i):
    label = cstr(e, st, v[0])
    e.reach[label] = e.reach.get(label, 0) + 1


@exact('v_stop')
def v_stop(e, st, fn, v, i):
    from .engine import PathEnd
    raise PathEnd('assume')


@exact('v_export_r')
def v_export_r(e, st, fn, v, i):
    st.notes[('export', export_name(e, st, v))] = e.real(st, v[3])


@exact('v_export_i')
def v_export_i(e, st, fn, v, i):
    st.notes[('export', export_name(e, st, v))] = e.as_signed(st, v[3], 64)


def export_name(e, st, v):
    i = e.as_signed(st, v[2], 32)
    return cstr(e, st, v[0]) + cstr(e, st, v[1]) + (str(i) if i >= 0 else '')


@exact('v_symbolic')
def v_symbolic(e, st, fn, v, i):
    return 1


# ------------------------------------------------------------------ exact special functions

def fn1(name):
    def f(e, st, fn, v, i):
        return r_fn(name, e.real(st, v[0]))
    return f


def log1(e, st, fn, v, i):
    x = e.real(st, v[0])
    if isinstance(x, Fraction) and x <= 0:
        return NonFinite('log(%s)' % x, -1 if x == 0 else 0)
    return r_fn('log', x)


LOG, EXP, LG, SQRT = log1, fn1('exp'), fn1('lgamma'), fn1('sqrt')
for n in ('logf', 'log', 'llvm.log.f32', 'llvm.log.f64'):
    EXACT['@' + n] = LOG
for n in ('expf', 'exp', 'llvm.exp.f32', 'llvm.exp.f64'):
    EXACT['@' + n] = EXP
for n in ('lgammaf', 'lgamma', 'lgammaf_r', 'lgamma_r'):
    EXACT['@' + n] = LG
for n in ('sqrtf', 'sqrt', 'llvm.sqrt.f32', 'llvm.sqrt.f64'):
    EXACT['@' + n] = SQRT
@exact('log1pf', 'log1p')
def log1p_(e, st, fn, v, i):
    return r_fn('log', r_add(e.real(st, v[0]), ONE))


@exact('expm1f', 'expm1')
def expm1_(e, st, fn, v, i):
    return r_sub(r_fn('exp', e.real(st, v[0])), ONE)


@exact('log2f', 'log2', 'llvm.log2.f32', 'llvm.log2.f64')
def log2_(e, st, fn, v, i):
    return r_div(r_fn('log', e.real(st, v[0])), r_fn('log', Fraction(2)))


@exact('exp2f', 'exp2', 'llvm.exp2.f32', 'llvm.exp2.f64')
def exp2_(e, st, fn, v, i):
    return r_fn('exp', r_mul(e.real(st, v[0]), r_fn('log', Fraction(2))))


def fast_log_(e, st, fn, v, i):
    r = LOG(e, st, fn, v, i)
    if e.opts.get('log_error') and not isinstance(r, NonFinite):
        # the contract of fast_log instead of the exact logarithm (C17)
        err = Fraction(e.opts['log_error'])
        st.notes['nerr'] = n = st.notes.get('nerr', 0) + 1
        r = r_add(r, rvar('log error#%d' % n, -err, err))
    return r


for n in ('distributions::fast_log(float)', 'distributions::eric_log(float)', 'fmath::log(float)',
          'distributions::detail::FastLog::log(float)'):
    PRETTY[n] = fast_log_
for n in ('distributions::fast_exp(float)', 'fmath::exp(float)', 'fmath::expd(double)'):
    PRETTY[n] = None


def fast_exp_(e, st, fn, v, i):
    if e.opts.get('exp_guard'):                # single precision: e^x overflows above 88.72, and 0 * inf follows
        x = e.real(st, v[0])
        lim = Fraction(88)
        if e.p.prove(st.pc, r_le(x, lim)) != 'proved' and e.p.prove(st.pc, r_le(x, Fraction(1000))) == 'refuted':
            lim = Fraction(1000)                # a counterexample well past the limit shows in the replay
        e.obligation(st, 'guard: the exponential does not overflow', r_le(x, lim), None, 'bool')
    return EXP(e, st, fn, v, i)


for n in ('distributions::fast_exp(float)', 'fmath::exp(float)', 'fmath::expd(double)'):
    PRETTY[n] = fast_exp_
PRETTY['distributions::fast_lgamma(float)'] = LG


@pretty('distributions::fast_lgamma_nu(float)')
def lgamma_nu(e, st, fn, v, i):
    h = r_mul(Fraction(1, 2), e.real(st, v[0]))
    return r_sub(r_fn('lgamma', r_add(h, Fraction(1, 2))), r_fn('lgamma', h))


@pretty('distributions::fast_log_factorial(unsigned int const&)', 'distributions::fast_log_factorial(unsigned int)')
def log_factorial(e, st, fn, v, i):
    from .engine import Ptr
    x = v[0]
    if isinstance(x, Ptr):
        x = e.load(st, ('i', 32), x)
    x = e.as_unsigned(st, x, 32)
    x = e.norm_int(st, x)
    return r_fn('lgamma', r_add(r_int(x), ONE))


@exact('powf', 'pow', 'llvm.pow.f32', 'llvm.pow.f64')
def pow_(e, st, fn, v, i):
    a, b = e.real(st, v[0]), e.real(st, v[1])
    if isinstance(b, Fraction) and b.denominator == 1 and 0 <= b <= 16:
        r = ONE
        for _ in range(int(b)):
            r = r_mul(r, a)
        return r
    return r_fn('pow', a, b)


@exact('log2', 'log2f', 'llvm.log2.f32', 'llvm.log2.f64')
def log2_(e, st, fn, v, i):
    return r_div(r_fn('log', e.real(st, v[0])), r_fn('log', Fraction(2)))


@exact('fabsf', 'fabs', 'llvm.fabs.f32', 'llvm.fabs.f64')
def fabs_(e, st, fn, v, i):
    x = e.real(st, v[0])
    if e.decide(st, r_lt(x, ZERO)):
        return r_neg(x)
    return x


@exact('llvm.fmuladd.f32', 'llvm.fmuladd.f64', 'llvm.fma.f32', 'llvm.fma.f64')
def fma_(e, st, fn, v, i):
    a, b, c = [e.real(st, x) for x in v]
    return r_add(r_mul(a, b), c)


@exact('llvm.maxnum.f32', 'llvm.maxnum.f64', 'fmaxf', 'fmax')
def fmax_(e, st, fn, v, i):
    a, b = [e.real(st, x) for x in v]
    return b if e.decide(st, r_lt(a, b)) else a


@exact('llvm.minnum.f32', 'llvm.minnum.f64', 'fminf', 'fmin')
def fmin_(e, st, fn, v, i):
    a, b = [e.real(st, x) for x in v]
    return b if e.decide(st, r_lt(b, a)) else a


@exact('abs', 'llvm.abs.i32', 'llvm.abs.i64')
def abs_(e, st, fn, v, i):
    w = 64 if '64' in fn.name else 32
    x = e.as_signed(st, v[0], w)
    return i_scale(x, -1) if e.decide(st, i_lt(x, 0)) else x


@exact('floor', 'floorf', 'llvm.floor.f32', 'llvm.floor.f64')
def floor_(e, st, fn, v, i):
    x = e.real(st, v[0])
    if e.decide(st, r_lt(x, ZERO)):
        from .engine import Unsupported
        raise Unsupported('floor of a negative number')
    return r_int(e.ftoi(st, x, 64))


def _isnan(e, st, fn, v, i):
    x = e.real(st, v[0])
    return isinstance(x, NonFinite) and x.sign == 0


@rx(r'llvm\.is\.fpclass')
def fpclass(e, st, fn, v, i):
    x = e.real(st, v[0])
    m = v[1]
    nan = isinstance(x, NonFinite) and x.sign == 0
    inf = isinstance(x, NonFinite) and x.sign != 0
    if m == 3:
        return nan
    if m == 516:
        return inf
    if m == 504:
        return not (nan or inf)
    from .engine import Unsupported
    raise Unsupported('is.fpclass %r' % m)


# ------------------------------------------------------------------ memory

@exact('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t')
def new_(e, st, fn, v, i):
    from .engine import Ptr
    n = e.concretise(st, e.as_unsigned(st, v[0], 64))
    if n > 1 << 22:
        from .engine import Unsupported
        raise Unsupported('allocation of %d bytes' % n)
    return Ptr(e.new_obj(st, n, 'heap block', 'heap'), 0)


@exact('posix_memalign')
def memalign(e, st, fn, v, i):
    from .engine import Ptr
    n = e.concretise(st, e.as_unsigned(st, v[2], 64))
    if n > 1 << 22:
        from .engine import Unsupported
        raise Unsupported('allocation of %d bytes' % n)
    p = Ptr(e.new_obj(st, n, 'heap block', 'heap'), 0)
    e.store(st, ('ptr',), p, v[0])
    return 0


@exact('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t')
def free_(e, st, fn, v, i):
    from .engine import Ptr, PathEnd
    p = v[0]
    if not isinstance(p, Ptr):
        return None
    o = e.robj(st, p.obj)
    if not o.alive or o.kind != 'heap' or p.off != 0:
        raise PathEnd('memory', 'bad free of %s' % o.name)
    if st.race is not None:
        e.access(st, p, o, 0, o.size, True)
    o = e.wobj(st, p.obj)
    o.alive = False
    o.cells = {}


@rx(r'llvm\.memcpy|llvm\.memmove|^@memcpy$|^@memmove$')
def memcpy_(e, st, fn, v, i):
    n = e.as_unsigned(st, v[2], 64)
    if n != 0:
        e.memcpy(st, v[0], v[1], n)
    return v[0]


@rx(r'llvm\.memset|^@memset$')
def memset_(e, st, fn, v, i):
    n = e.as_unsigned(st, v[2], 64)
    if n != 0:
        e.memset(st, v[0], v[1], n)
    return v[0]


@rx(r'llvm\.lifetime|llvm\.dbg|llvm\.stackrestore|llvm\.invariant|llvm\.experimental\.noalias|llvm\.prefetch')
def nop1(e, st, fn, v, i):
    return None


@rx(r'llvm\.stacksave')
def nop2(e, st, fn, v, i):
    return 0


@rx(r'llvm\.assume')
def assume_(e, st, fn, v, i):
    return None


@rx(r'llvm\.threadlocal\.address')
def tls(e, st, fn, v, i):
    return v[0]


@rx(r'llvm\.expect')
def expect_(e, st, fn, v, i):
    return v[0]


@rx(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow')
def ovf(e, st, fn, v, i):
    m = re.search(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', fn.name)
    sg, op, w = m.group(1), m.group(2), int(m.group(3))
    view = e.as_signed if sg == 's' else e.as_unsigned
    a, b = view(st, v[0], w), view(st, v[1], w)
    r = {'add': i_add, 'sub': i_sub, 'mul': i_mul}[op](a, b)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg == 's' else (0, (1 << w) - 1)
    o = b_or(i_lt(r, lo), i_lt(hi, r))
    if e.decide(st, o):
        return (e.wrap(st, r, w), True)
    return (r, False)


@rx(r'llvm\.(umax|umin|smax|smin)\.')
def minmax(e, st, fn, v, i):
    m = re.search(r'llvm\.(u|s)(max|min)\.i(\d+)', fn.name)
    w = int(m.group(3))
    view = e.as_signed if m.group(1) == 's' else e.as_unsigned
    a, b = view(st, v[0], w), view(st, v[1], w)
    lt = e.decide(st, i_lt(a, b))
    return (b if lt else a) if m.group(2) == 'max' else (a if lt else b)


@rx(r'llvm\.ctlz\.i(\d+)')
def ctlz(e, st, fn, v, i):
    w = int(re.search(r'llvm\.ctlz\.i(\d+)', fn.name).group(1))
    x = e.concretise(st, e.as_unsigned(st, v[0], w))
    return w - x.bit_length()


@rx(r'llvm\.trap|^@abort$|_ZSt9terminatev|__assert_fail|__cxa_pure_virtual')
def trap(e, st, fn, v, i):
    from .engine import PathEnd
    raise PathEnd('error', 'abort')


@rx(r'^@__cxa_throw$|^@__cxa_rethrow$|^@_ZSt\d+__throw_')
def throw_(e, st, fn, v, i):
    from .engine import PathEnd
    raise PathEnd('error', 'error raised')


@exact('__cxa_allocate_exception')
def alloc_exc(e, st, fn, v, i):
    from .engine import Ptr
    return Ptr(e.new_obj(st, 256, 'exception', 'heap'), 0)


@exact('__cxa_free_exception', '__cxa_atexit', '__cxa_thread_atexit', '__cxa_begin_catch', '__cxa_end_catch')
def nop3(e, st, fn, v, i):
    return 0


@exact('__cxa_guard_acquire')
def guard(e, st, fn, v, i):
    r, st.race = st.race, None
    x = e.load(st, ('i', 8), v[0])
    if x == 0:
        e.store(st, ('i', 8), 1, v[0])
    st.race = r
    if r is not None:
        r.acquire((v[0].obj, v[0].off))
    return 1 if x == 0 else 0


@exact('__cxa_guard_release')
def guard_release(e, st, fn, v, i):
    if st.race is not None:
        st.race.release((v[0].obj, v[0].off))
    return 0


@rx(r'pthread_(mutex|spin|rwlock)|__gthread_active|pthread_once')
def mutex(e, st, fn, v, i):
    r = st.race
    if r is None or not v:
        return 0
    n = fn.name
    if '__gthread_active' in n:
        return 1
    if 'unlock' in n:
        r.release((v[0].obj, v[0].off))
    elif 'lock' in n:
        r.acquire((v[0].obj, v[0].off))
    elif 'pthread_once' in n:
        from .engine import Unsupported
        raise Unsupported('pthread_once')
    return 0


@exact('v_thread')
def v_thread(e, st, fn, v, i):
    e.thread(st, e.as_signed(st, v[0], 32))


@rx(r'basic_ostream|basic_ios|basic_stringstream|ostringstream|basic_string<char|runtime_error|bad_alloc|'
    r'logic_error|out_of_range|invalid_argument|length_error|ios_base|std::locale|std::exception|basic_streambuf|'
    r'operator<<|_ZNSo|_ZNSi|std::allocator<char>')
def stream(e, st, fn, v, i):
    # error-message formatting: no effect
    return v[0] if v else 0

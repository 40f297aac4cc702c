"""Contracts of Clock: conversions between Tfrac (seconds * 2^32), seconds/micro/nanoseconds and doubles; the
cycle-counter clock between recalibrations."""
import re
import z3
import vc
from vc import *
from lib import *
from stdstr import *
from runner import Task

DRIVERS = {'clock': ['drivers/clock.cpp']}
W = 1 << 32
T64 = 1 << 64
RW = z3.RealVal(W)
EPS = z3.RealVal(1) / z3.RealVal(1 << 20)       # ties and what rounding makes of them are not prescribed


class H:
    def __init__(self, ctx):
        m = self.mod = ctx['mods']['clock']
        e = self.e = Engine(m, 'int', dict(fp='real', rnd=True))
        std_contracts(e)
        e.contract(r'^boost::(io::|basic_format)', h_nop)
        e.contract(r'^l?lround$', lambda eng, st, fn, a: eng.intrinsic(st, type('F', (), dict(name='llvm.lround.i64.f64')), a))
        e.contract(r'^ldexp$', self.ldexp)
        self.st = State()

    def ldexp(self, eng, st, fn, a):
        k = eng.signed(st, a[1], 32)
        if is_sym(k):
            raise Unsupported('ldexp by an unknown amount')
        i = type('I', (), dict(op='fmul' if k >= 0 else 'fdiv', ty=eng.mod.global_type(RATE)))
        return eng.fpop(st, i, [a[0], z3.RealVal(1 << abs(k))])

    def fn(self, name):
        f = self.mod.fns.get(name)
        if f is None or f.decl:
            raise Unsupported('function %s not found' % name)
        return f

    def i(self, n, w=32):
        v = z3.Int(n)
        self.st.assume(z3.And(v >= 0, v < (1 << w)))
        return v

    def run(self, name, *args, inline=True):
        return self.e.run(self.fn(name), list(args), self.st)


def done(h, res):
    h.e.returns = len(res)
    return h.e


def part(unit, what):
    """secMicroToTfrac / secNanoToTfrac: the least Tfrac not before s + n/unit"""
    def t(ctx):
        h = H(ctx)
        s, n = h.i('seconds'), h.i('part')
        h.st.assume(n < unit)
        res = h.run('ck_micro' if unit == 10 ** 6 else 'ck_nano', s, n)
        for st, r in res:
            low = r - s * W
            h.e.oblige(st, 'seconds are the high half', z3.And(low >= 0, low < W), 'ensures')
            h.e.oblige(st, 'the low half is not before the given part', low * unit >= n * W, 'ensures')
            h.e.oblige(st, 'the low half is the least such', (low - 1) * unit < n * W, 'ensures')
        return done(h, res)
    return Task('Clock::%s' % what, t)


def unpart(unit, what, fn):
    """TfracToMicroSec / TfracToNanoSec: whole units in the fraction, rounded down"""
    def t(ctx):
        h = H(ctx)
        hi, lo = h.i('high'), h.i('low')
        res = h.run(fn, hi * W + lo)
        for st, r in res:
            h.e.oblige(st, 'whole units of the fractional second, rounded down', z3.And(r * W <= lo * unit, (r + 1) * W > lo * unit), 'ensures')
            h.e.oblige(st, 'the part stays below one second', r < unit, 'ensures')
        return done(h, res)
    return Task('Clock::%s' % what, t)


def t_sec(ctx):
    h = H(ctx)
    hi, lo = h.i('high'), h.i('low')
    res = h.run('ck_sec', hi * W + lo)
    for st, r in res:
        h.e.oblige(st, 'the high half', r == hi, 'ensures')
    return done(h, res)


def t_tll(ctx):
    h = H(ctx)
    hi, lo = h.i('high'), h.i('low')
    res = h.run('ck_tll', hi * W + lo)
    for st, r in res:
        us = r - hi * 10 ** 6
        h.e.oblige(st, 'microseconds since the epoch, rounded down', z3.And(us >= 0, us * W <= lo * 10 ** 6, (us + 1) * W > lo * 10 ** 6), 'ensures')
    return done(h, res)


def t_timeval(ctx):
    h = H(ctx)
    hi, lo = h.i('high'), h.i('low')
    f = h.fn('ck_timeval')
    res = h.run('ck_timeval', hi * W + lo)
    for st, r in res:
        sec, us = r
        h.e.oblige(st, 'seconds', sec == hi, 'ensures')
        h.e.oblige(st, 'microseconds, rounded down', z3.And(us * W <= lo * 10 ** 6, (us + 1) * W > lo * 10 ** 6), 'ensures')
    return done(h, res)


def t_lemma(ctx):
    """over the contracts alone: a part survives the trip through Tfrac"""
    h = H(ctx)
    for unit, n in ((10 ** 6, 'microseconds'), (10 ** 9, 'nanoseconds')):
        s, a, low, b = h.i('s' + n), h.i('a' + n), h.i('low' + n), h.i('b' + n)
        st = h.st.copy()
        st.assume(z3.And(a < unit, low * unit >= a * W, (low - 1) * unit < a * W))       # contract of sec*ToTfrac
        st.assume(z3.And(b * W <= low * unit, (b + 1) * W > low * unit))                 # contract of TfracTo*Sec
        h.e.oblige(st, 's.%s to Tfrac and back is the identity' % n, b == a, 'lemma')
        l2, a2 = h.i('low2' + n), h.i('a2' + n)
        st.assume(z3.And(a2 < unit, l2 * unit >= a2 * W, (l2 - 1) * unit < a2 * W, a < a2))
        h.e.oblige(st, 'later %s have later Tfracs' % n, low < l2, 'lemma')
    h.e.returns = 1
    return h.e


def seconds_spec(h, st, r, s, what='the nearest Tfrac'):
    d = z3.ToReal(r) - s * RW
    h.e.oblige(st, what, z3.And(2 * d <= 1 + EPS, 2 * d >= -1 - EPS), 'ensures')


def t_seconds(ctx):
    h = H(ctx)
    s = z3.Real('seconds')
    h.e.assert_ok = lambda e, st: z3.Or(s < 0, s >= W - 1)
    res = h.run('ck_seconds', s)
    for st, r in res:
        h.e.oblige(st, 'only seconds in range are converted', z3.And(s >= 0, s < W - 1), 'ensures')
        seconds_spec(h, st, r, s)
    return done(h, res)


def near(h, st, r, v, what):
    """r is v up to the rounding of a double"""
    d = z3.simplify(r - v)
    ulp = z3.simplify(v * z3.RealVal(1) / z3.RealVal(1 << 53))
    h.e.oblige(st, what + ' to half a unit in the last place (positive)', z3.Implies(v >= 0, z3.And(d <= ulp, -d <= ulp)), 'ensures')
    h.e.oblige(st, what + ' to half a unit in the last place (negative)', z3.Implies(v <= 0, z3.And(d <= -ulp, -d <= -ulp)), 'ensures')
    h.e.oblige(st, what + ': sign', z3.And(z3.Implies(v > 0, r > 0), z3.Implies(v == 0, r == 0), z3.Implies(v < 0, r < 0)), 'ensures')


def t_double(ctx):
    h = H(ctx)
    hi, lo = h.i('high'), h.i('low')
    res = h.run('ck_double', hi * W + lo)
    for st, r in res:
        near(h, st, r, z3.ToReal(hi) + z3.ToReal(lo) / RW, 'the time in seconds')
        h.e.oblige(st, 'the whole seconds are kept', z3.And(r >= z3.ToReal(hi), r <= z3.ToReal(hi) + 1), 'ensures')
        h.e.oblige(st, 'exact below 2^53', z3.Implies(hi < 1 << 21, r == z3.ToReal(hi) + z3.ToReal(lo) / RW), 'ensures')
    return done(h, res)


def t_idouble(ctx):
    h = H(ctx)
    v = h.i('tfrac', 64)
    sv = z3.If(v < 1 << 63, v, v - T64)
    res = h.run('ck_idouble', v)
    for st, r in res:
        near(h, st, r, z3.ToReal(sv) / RW, 'the signed time in seconds')
    return done(h, res)


def t_offset(ctx):
    h = H(ctx)
    v, d = h.i('tfrac', 64), z3.Real('offset')
    ad = z3.If(d >= 0, d, -d)
    h.e.assert_ok = lambda e, st: ad >= W - 1
    res = h.run('ck_offset', v, d)
    for st, r in res:
        h.e.oblige(st, 'only offsets in range are applied', ad < W - 1, 'ensures')
        off = z3.ToReal(r - v) - d * RW
        m = z3.RealVal(T64)
        h.e.oblige(st, 'the time moves by the nearest Tfrac to the offset (modulo 2^64)', z3.Or(
            *[z3.And(2 * (off + k * m) <= 1 + EPS, 2 * (off + k * m) >= -1 - EPS) for k in (-1, 0, 1)]), 'ensures')
    return done(h, res)


TASKS = [part(10 ** 6, 'secMicroToTfrac'), part(10 ** 9, 'secNanoToTfrac'), unpart(10 ** 6, 'TfracToMicroSec', 'ck_usec'),
         unpart(10 ** 9, 'TfracToNanoSec', 'ck_nsec'), Task('Clock::TfracToSec', t_sec), Task('Clock::TfracToTll', t_tll),
         Task('Clock::TfracToStructTimeval', t_timeval), Task('Clock s.part <-> Tfrac lemmas', t_lemma),
         Task('Clock::secondsToTfrac', t_seconds), Task('Clock::TfracToDouble', t_double),
         Task('Clock::int64TfracToDouble', t_idouble), Task('Clock::TfracOffsetDouble', t_offset)]


# ------------------------------------------------------------------ the cycle-counter clock
NREC, BAD, CAL, LAST, RECAL, INTERVAL = 0, 8, 16, 24, 32, 40
RATE = '_ZN5Clock24inverse_clock_rate_tfracE'
MHZ = '_ZN5Clock10clock_rateE'


class C(H):
    """a Clock object; every reading of the cycle counter and of the time of day is arbitrary"""

    def __init__(self, ctx):
        H.__init__(self, ctx)
        e, st = self.e, self.st
        self.this = Obj('clock', 'param', 48)
        self.f = {}
        for n, o in (('nrecalibrate', NREC), ('last_calibrate', CAL), ('last_cc', LAST), ('last_recalibrate', RECAL), ('interval', INTERVAL)):
            v = self.f[o] = self.i(n, 64)
            e.store(st, Ptr(self.this, o), v, I64)
        e.opts['asm'] = self.asm
        self.reads = []
        self.rate, self.mhz = z3.Real('tfrac_per_cycle'), z3.Real('clock_rate_mhz')
        self.dbl = self.mod.global_type(RATE)
        for n, v in ((RATE, self.rate), (MHZ, self.mhz)):
            o = e.global_obj(st, n)
            e.store(st, Ptr(o, 0), v, self.dbl)
        e.contract(r'^gettimeofday$', self.gettimeofday)
        e.contract(r'^LintelLog::(Category::Category|wouldDebug|debug|warn)\b', self.logging)
        e.contract(r'^Stats::', h_nop)
        e.contract(r'^__cxa_guard', lambda eng, st, fn, a: eng.fresh_int('guard', 32, st) if 'acquire' in fn.name else None)

    def asm(self, eng, st, text, args, inst):
        if 'rdtsc' not in text:
            raise Unsupported('inline assembly ' + text[:60])
        lo, hi = eng.fresh_int('tsc_low', 32, st), eng.fresh_int('tsc_high', 32, st)
        st.assume(hi < 1 << 31)              # the counter has not run for 2^63 cycles
        st.ghost['tsc'] = st.ghost.get('tsc', ()) + (hi * W + lo,)
        return [lo, hi]

    def gettimeofday(self, eng, st, fn, a):
        s, u = eng.fresh_int('tv_sec', 32, st), eng.fresh_int('tv_usec', 64, st)
        st.assume(u < 10 ** 6)
        eng.store(st, a[0], s, I64)
        eng.store(st, eng.ptr_add(a[0], 8), u, I64)
        st.ghost['tod'] = st.ghost.get('tod', ()) + ((s, u),)
        return 0

    def logging(self, eng, st, fn, a):
        return eng.fresh_bool('would') if 'would' in fn.dname else None

    def field(self, st, o):
        return self.e.load(st, Ptr(self.this, o), I64)

    def invariant(self):
        """what setRecalibrateIntervalSeconds establishes"""
        n = z3.ToReal(self.f[INTERVAL])
        self.st.assume(z3.And(self.f[INTERVAL] < 1 << 31, self.rate > 0, n * self.rate < z3.RealVal(1 << 31)))


def tod_is(r, tv):
    s, u = tv
    low = r - s * W
    return z3.And(low * 10 ** 6 >= u * W, (low - 1) * 10 ** 6 < u * W)


def t_tod(ctx):
    c = C(ctx)
    f = [f for f in c.mod.fns.values() if f.dname == 'Clock::todTfrac()']
    if not f:
        raise Unsupported('todTfrac not found')
    res = c.e.run(f[0], [], c.st)
    for st, r in res:
        tod = st.ghost.get('tod', ())
        c.e.oblige(st, 'one reading of the time of day', z3.BoolVal(len(tod) == 1), 'ensures')
        c.e.oblige(st, 'the time of day as Tfrac', tod_is(r, tod[-1]) if tod else z3.BoolVal(False), 'ensures')
    return done(c, res)


def t_interval(ctx):
    c = C(ctx)
    s = z3.Real('interval_seconds')
    c.st.assume(z3.And(s >= 0, s < 2 ** 40, c.mhz >= 0, c.mhz < 2 ** 40, c.rate < 2 ** 40, c.rate > -2 ** 40))
    c.e.assert_ok = lambda e, st: z3.BoolVal(True)      # it may refuse any interval it finds too large
    f = [f for f in c.mod.fns.values() if f.dname.startswith('Clock::setRecalibrateIntervalSeconds')]
    if not f:
        raise Unsupported('setRecalibrateIntervalSeconds not found')
    res = c.e.run(f[0], [Ptr(c.this, 0), s], c.st)
    for st, _ in res:
        n = c.field(st, INTERVAL)
        c.e.oblige(st, 'the interval fits 32 bits of cycles', n < 1 << 31, 'ensures')
        c.e.oblige(st, 'the interval fits 32 bits of Tfrac', z3.Implies(c.rate > 0, z3.ToReal(n) * c.rate < z3.RealVal(1 << 31)), 'ensures')
        c.e.oblige(st, 'the next reading recalibrates', c.field(st, RECAL) == 0, 'ensures')
    return done(c, res)


def t_incr(ctx):
    """two consecutive readings"""
    c = C(ctx)
    c.invariant()
    e = c.e
    cal, rec, last = c.f[CAL], c.f[RECAL], c.f[LAST]
    c.st.assume(z3.And(rec <= last, cal < 1 << 63))
    recal = []

    def recalibrate(eng, st, fn, a):
        st.ghost['recal'] = True
        return eng.fresh_int('recalibrated', 64, st)
    e.contract(r'^Clock::todccTfrac_recalibrate', recalibrate)
    f = c.fn('ck_now')
    res = e.run(f, [Ptr(c.this, 0)], c.st)
    n = 0
    for st, r in res:
        n += 1
        t = st.ghost['tsc']
        e.oblige(st, 'one reading of the cycle counter', z3.BoolVal(len(t) == 1), 'ensures')
        usable = z3.And(t[0] > last, t[0] - rec <= c.f[INTERVAL])
        if st.ghost.get('recal'):
            e.oblige(st, 'recalibrates only past the interval or when the counter did not advance', z3.Not(usable), 'ensures')
            continue
        e.oblige(st, 'does not extrapolate past the interval or from a counter that went back', usable, 'ensures')
        d = z3.ToReal(t[0] - rec) * c.rate
        q = z3.ToReal(r - cal)
        st.assume(z3.Implies(z3.And(t[0] - rec <= c.f[INTERVAL], t[0] >= rec), z3.And(d <= z3.ToReal(c.f[INTERVAL]) * c.rate, d >= 0)))
        eps = z3.RealVal(1) / z3.RealVal(1 << 20)
        e.oblige(st, 'last calibration plus the elapsed cycles in Tfrac', z3.And(q <= d + eps, q > d - 1 - eps), 'ensures')
        e.oblige(st, 'remembers the reading', c.field(st, LAST) == t[0], 'ensures')
        e.oblige(st, 'keeps the calibration', z3.And(c.field(st, CAL) == cal, c.field(st, RECAL) == rec, c.field(st, INTERVAL) == c.f[INTERVAL]), 'ensures')
        for st2, r2 in e.run(f, [Ptr(c.this, 0)], st):
            if st2.ghost.get('recal'):
                continue
            t2 = st2.ghost['tsc']
            d2 = z3.ToReal(t2[1] - rec) * c.rate
            st2.assume(z3.Implies(t[0] <= t2[1], d <= d2))
            e.monotone(st2)
            e.oblige(st2, 'between recalibrations the clock does not go back', r2 >= r, 'ensures')
    e.returns = n
    return e


def t_recal(ctx):
    c = C(ctx)
    e = c.e
    c.st.assume(z3.And(c.mhz < 2 ** 40, z3.Or(c.mhz <= 0, c.mhz >= 1)))
    e.assert_ok = lambda eng, st: z3.BoolVal(True)

    def indirect(eng, st, f):
        # the virtual Stats::add of the statistics of bad readings
        return next((g for g in c.mod.fns.values() if g.dname.startswith('Stats::')), None)
    e.opts['indirect'] = indirect
    string_contracts(e)
    e.contract(r'^std::__new_allocator<char>::', h_nop)
    bad, vt = Obj('bad_gaps', 'param', 56), Obj('Stats_vtable', 'param', 1 << 10)
    vt.tags['default'] = lambda eng, st, off, ty: Ptr(vt, 0)
    e.store(c.st, Ptr(c.this, BAD), Ptr(bad, 0), PTR)
    e.store(c.st, Ptr(bad, 0), Ptr(vt, 0), PTR)
    f = [f for f in c.mod.fns.values() if f.dname.startswith('Clock::todccTfrac_recalibrate')]
    if not f:
        raise Unsupported('todccTfrac_recalibrate not found')
    res = e.run(f[0], [Ptr(c.this, 0)], c.st)
    for st, r in res:
        tod = st.ghost.get('tod', ())
        e.oblige(st, 'returns the time of day', z3.Or(*[tod_is(r, t) for t in tod]), 'ensures')
        t = st.ghost.get('tsc', ())
        rec, cal, last = c.field(st, RECAL), c.field(st, CAL), c.field(st, LAST)
        same = z3.And(cal == c.f[CAL], last == c.f[LAST])
        if t:
            new = z3.And(cal == r, rec == last, t[0] <= rec, rec <= t[-1], c.field(st, NREC) == (c.f[NREC] + 1) % T64)
        else:
            new = z3.BoolVal(False)
        e.oblige(st, 'either the pair (time, cycle) taken together becomes the calibration, or the calibration is dropped or kept whole', z3.Or(
            new, z3.And(same, z3.Or(rec == 0, rec == c.f[RECAL]))), 'ensures')
        e.oblige(st, 'a calibration never goes back in time', z3.Implies(z3.Not(same), cal >= c.f[CAL]), 'ensures')
        e.oblige(st, 'the interval is kept', c.field(st, INTERVAL) == c.f[INTERVAL], 'ensures')
    return done(c, res)


TASKS += [Task('Clock::todTfrac', t_tod), Task('Clock::setRecalibrateIntervalSeconds', t_interval),
          Task('Clock::todccTfrac_incremental', t_incr), Task('Clock::todccTfrac_recalibrate', t_recal)]

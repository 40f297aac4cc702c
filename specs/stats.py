"""Contracts of the statistics accumulators: Stats, StatsSequence, StatsSeries."""
import re
import z3
import vc
from vc import *
from lib import *
from runner import Task
import stdvec
from stdvec import VecType, vector_contracts, vec_set, vec_state

DRIVERS = {'stats': ['drivers/stats.cpp']}
RESETS, ASSIGNED, NUM, SUM, SUMSQ, MIN, MAX = 8, 12, 16, 24, 32, 40, 48
DBLMAX = z3.RealVal((1 << 1024) - (1 << 971))
INF = z3.RealVal(1 << 1024)
BIG, HUGE = z3.RealVal(1 << 500), z3.RealVal(1 << 1010)
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())


def mag(x, m):
    return z3.And(x <= m, -x <= m)


class H:
    def __init__(self, ctx, rnd=True, cls='5Stats', size=56):
        self.mod = ctx['mods']['stats']
        e = self.e = Engine(self.mod, 'int', dict(fp='real', rnd=rnd, ufp=True, fdiv0=True))
        std_contracts(e)
        e.contract(r'^boost::(io::|basic_format)', h_nop)
        e.contract(r'^sqrt$', self.sqrt)
        self.st = State()
        self.dbl = self.mod.global_type('_ZN6Double3InfE')
        o = e.global_obj(self.st, '_ZN6Double3InfE')
        if rnd:
            e.store(self.st, Ptr(o, 0), INF, self.dbl) if not o.const else None
        self.cls, self.size = cls, size

    def sqrt(self, eng, st, fn, a):
        x = z3.simplify(a[0])
        eng.oblige(st, 'square root of a number that is not negative', x >= 0, 'requires')
        r = SQRT(x)
        st.assume(z3.And(r >= 0, z3.Implies(x > 0, r > 0), z3.Implies(x == 0, r == 0), z3.Implies(x >= 1, z3.And(r >= 1, r <= x)),
                         z3.Implies(x <= 1, r <= 1)))
        return r

    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(pat, f.dname) and not f.decl]
        if not fs:
            raise Unsupported('function %s not found' % pat)
        return fs[0]

    def stats(self, name, vals=None, size=None):
        """a Stats object holding finite values"""
        e, st = self.e, self.st
        o = Obj(name, 'param', size or self.size)
        vt = e.global_obj(st, '_ZTV' + self.cls)
        e.store(st, Ptr(o, 0), Ptr(vt, 16), PTR)
        n = z3.Int('n_' + name)
        st.assume(z3.And(n >= 0, n < 1 << 53))
        f = {NUM: n}
        e.store(st, Ptr(o, NUM), n, I64)
        for off, nm in ((SUM, 'sum'), (SUMSQ, 'sumsq'), (MIN, 'min'), (MAX, 'max')):
            v = f[off] = z3.Real('%s_%s' % (nm, name))
            e.store(st, Ptr(o, off), v, self.dbl)
        st.assume(z3.And(mag(f[SUM], HUGE), mag(f[SUMSQ], HUGE), mag(f[MIN], INF), mag(f[MAX], INF)))
        return o, f

    def get(self, st, o, off):
        return self.e.load(st, Ptr(o, off), I64 if off == NUM else self.dbl)

    def add(self, a, b):
        return vc.RND(z3.simplify(a + b))

    def mul(self, st, a, b):
        return vc.RND(z3.simplify(self.e.prod(st, a, b)))

    def div(self, st, a, b):
        return vc.RND(z3.simplify(self.e.quot(st, a, b)))


def done(h, res):
    h.e.returns = len(res)
    return h.e


def t_add(ctx):
    h = H(ctx)
    e = h.e
    o, f = h.stats('s')
    v = z3.Real('value')
    h.st.assume(mag(v, BIG))
    res = e.run(h.fn(r'^Stats::add\(double\)$'), [Ptr(o, 0), v], h.st)
    for st, _ in res:
        e.oblige(st, 'one more value', h.get(st, o, NUM) == f[NUM] + 1, 'ensures')
        e.oblige(st, 'sum', h.get(st, o, SUM) == h.add(f[SUM], v), 'ensures')
        e.oblige(st, 'sum of squares', h.get(st, o, SUMSQ) == h.add(f[SUMSQ], h.mul(st, v, v)), 'ensures')
        e.oblige(st, 'minimum', h.get(st, o, MIN) == z3.If(v < f[MIN], v, f[MIN]), 'ensures')
        e.oblige(st, 'maximum', h.get(st, o, MAX) == z3.If(v > f[MAX], v, f[MAX]), 'ensures')
    return done(h, res)


def t_merge(alias):
    def t(ctx):
        h = H(ctx)
        e = h.e
        o, f = h.stats('s')
        p, g = (o, f) if alias else h.stats('t')
        res = e.run(h.fn(r'^Stats::add\(Stats const&\)$'), [Ptr(o, 0), Ptr(p, 0)], h.st)
        for st, _ in res:
            e.oblige(st, 'all values of both', h.get(st, o, NUM) == f[NUM] + g[NUM], 'ensures')
            e.oblige(st, 'sum', h.get(st, o, SUM) == h.add(f[SUM], g[SUM]), 'ensures')
            e.oblige(st, 'sum of squares', h.get(st, o, SUMSQ) == h.add(f[SUMSQ], g[SUMSQ]), 'ensures')
            e.oblige(st, 'minimum of both', h.get(st, o, MIN) == z3.If(g[MIN] < f[MIN], g[MIN], f[MIN]), 'ensures')
            e.oblige(st, 'maximum of both', h.get(st, o, MAX) == z3.If(g[MAX] > f[MAX], g[MAX], f[MAX]), 'ensures')
            if not alias:
                e.oblige(st, 'the other is unchanged', z3.And(*[h.get(st, p, k) == g[k] for k in g]), 'ensures')
        return done(h, res)
    return Task('Stats::add(Stats)%s' % (' of itself' if alias else ''), t)


def empty(h, st, o, what):
    e = h.e
    e.oblige(st, what + ' no values', h.get(st, o, NUM) == 0, 'ensures')
    e.oblige(st, what + ' zero sums', z3.And(h.get(st, o, SUM) == 0, h.get(st, o, SUMSQ) == 0), 'ensures')
    e.oblige(st, what + ' minimum above and maximum below every value', z3.And(h.get(st, o, MIN) >= INF, h.get(st, o, MAX) <= -INF), 'ensures')


def t_reset(ctx):
    h = H(ctx)
    o, f = h.stats('s')
    res = h.e.run(h.fn(r'^Stats::reset\(\)$'), [Ptr(o, 0)], h.st)
    for st, _ in res:
        empty(h, st, o, 'reset:')
    return done(h, res)


def t_ctor(ctx):
    h = H(ctx)
    o = Obj('new', 'param', 56)
    res = h.e.run(h.fn(r'^Stats::Stats\(\)$'), [Ptr(o, 0)], h.st)
    for st, _ in res:
        empty(h, st, o, 'constructor:')
    return done(h, res)


def mean_of(h, st, f):
    return h.div(st, f[SUM], z3.ToReal(f[NUM]))


def t_mean(ctx):
    h = H(ctx)
    o, f = h.stats('s')
    res = h.e.run(h.fn(r'^Stats::mean\(\) const$'), [Ptr(o, 0)], h.st)
    for st, r in res:
        h.e.oblige(st, 'mean of nothing is 0', z3.Implies(f[NUM] == 0, r == 0), 'ensures')
        h.e.oblige(st, 'sum / count', z3.Implies(f[NUM] > 0, r == mean_of(h, st, f)), 'ensures')
    return done(h, res)


def t_var(ctx):
    h = H(ctx)
    o, f = h.stats('s')
    h.st.assume(z3.And(mag(f[SUM], BIG / 2), f[SUMSQ] >= 0))
    res = h.e.run(h.fn(r'^Stats::variance\(\) const$'), [Ptr(o, 0)], h.st)
    for st, r in res:
        h.e.oblige(st, 'variance of nothing is 0', z3.Implies(f[NUM] == 0, r == 0), 'ensures')
        m = mean_of(h, st, f)
        want = vc.RND(z3.simplify(h.div(st, f[SUMSQ], z3.ToReal(f[NUM])) - h.mul(st, m, m)))
        h.e.oblige(st, 'mean of the squares minus square of the mean', z3.Implies(f[NUM] > 0, r == want), 'ensures')
    return done(h, res)


def t_stddev(ctx):
    h = H(ctx)
    o, f = h.stats('s')
    var = z3.Real('variance')
    h.st.assume(mag(var, HUGE))
    h.e.contract(r'^Stats::variance\(\) const$', lambda e, st, fn, a: var)
    res = h.e.run(h.fn(r'^StatsBase::stddev\(\) const$'), [Ptr(o, 0)], h.st)
    for st, r in res:
        h.e.oblige(st, 'square root of the variance, 0 if that is not positive', r == z3.If(var > 0, SQRT(var), 0), 'ensures')
    return done(h, res)


def t_conf(ctx):
    h = H(ctx)
    o, f = h.stats('s')
    sd = z3.Real('stddev')
    h.st.assume(z3.And(sd >= 0, sd <= BIG))
    h.e.contract(r'^StatsBase::stddev\(\) const$', lambda e, st, fn, a: sd)
    res = h.e.run(h.fn(r'^Stats::conf95\(\) const$'), [Ptr(o, 0)], h.st)
    for st, r in res:
        h.e.oblige(st, 'no confidence in nothing', z3.Implies(f[NUM] == 0, r >= DBLMAX), 'ensures')
        w = z3.simplify(h.e.prod(st, sd, h.e.fpconst(1.96)))
        h.e.oblige(st, '1.96 standard deviations over the square root of the count',
                   z3.Implies(f[NUM] > 0, r == h.div(st, vc.RND(w), SQRT(z3.simplify(z3.ToReal(f[NUM]))))), 'ensures')
    return done(h, res)


def t_seqadd(ctx):
    """addTimeSeq re-dispatches to add"""
    h = H(ctx)
    o, f = h.stats('s')
    v, t = z3.Reals('value time')
    seen = []

    def add(e, st, fn, a):
        e.oblige(st, 'the value is added to this object', z3.And(a[1] == v, z3.BoolVal(a[0].obj is o)), 'ensures')
        st.ghost['added'] = st.ghost.get('added', 0) + 1
    h.e.contract(r'^Stats::add\(double\)$', add)
    res = h.e.run(h.fn(r'^Stats::addTimeSeq'), [Ptr(o, 0), v, t], h.st)
    for st, _ in res:
        h.e.oblige(st, 'added once', z3.BoolVal(st.ghost.get('added') == 1), 'ensures')
    return done(h, res)


def counters(L):
    """the integers and array positions of a loop, as mathematical integers, with their values at entry"""
    out = []
    for key, (v, v0, w) in sorted(L.ints.items(), key=lambda kv: str(kv[0])):
        if isinstance(v, (PInt, Undef)) or isinstance(v0, (PInt, Undef)) or w not in (32, 64):
            continue
        nm = '%s/%d' % (key[-1] if isinstance(key, tuple) else key, w)
        v, v0 = B_int(v), B_int(v0)
        out.append((nm, v, v0, w))
        H = 1 << (w - 1)
        out.append((nm + ' signed', z3.If(v >= H, v - 2 * H, v), z3.If(v0 >= H, v0 - 2 * H, v0), w))
    for key, (i, i0, c) in sorted(L.pidx.items(), key=lambda kv: str(kv[0])):
        if not isinstance(i, (PInt, Undef)):
            out.append(('position ' + str(key), B_int(i), B_int(i0), 0))
    return out


# ---- StatsSequence -----------------------------------------------------------------------------
# Ghosts: Vv(i) the i-th value added, Ss(n) the sum of the first n, Mx(a, b) the largest of the values
# a..b-1, Bd(k) the number of values in the buckets below k.
Vv = z3.Function('seqvalue', z3.IntSort(), z3.RealSort())
Ss = z3.Function('seqsum', z3.IntSort(), z3.RealSort())
Mx = z3.Function('seqmax', z3.IntSort(), z3.IntSort(), z3.RealSort())
Bd = z3.Function('seqbound', z3.IntSort(), z3.IntSort())
RETAIN, MODE, VALUES, WIDTH, NEWV, POINTS, REMAIN = 56, 64, 72, 96, 104, 112, 116
MODES = ('MergeSum', 'MergeMean', 'MergeMax')


def bucket(mode, a, b, p):
    """what a bucket of the p values a..b-1 holds"""
    if mode == 'MergeSum':
        return Ss(b) - Ss(a)
    if mode == 'MergeMean':
        return vc.FDIV(Ss(b) - Ss(a), z3.ToReal(p))
    return Mx(a, b)


class Seq(H):
    def __init__(self, ctx, mode):
        H.__init__(self, ctx, rnd=False, cls='13StatsSequence', size=120)
        e, st = self.e, self.st
        self.mode = mode
        self.T = VecType('double', 8, [('int', 0, self.dbl)], default=[z3.RealVal(0)])
        vector_contracts(e, self.T)
        e.contract(r'^Stats::add\(double\)$', self.base)
        e.contract(r'^Stats::reset\(\)$', self.basereset)

    def base(self, eng, st, fn, a):
        eng.oblige(st, 'the base statistics see the value', z3.And(a[1] == self.value, z3.BoolVal(a[0].obj is self.this)), 'ensures')
        st.ghost['base'] = st.ghost.get('base', 0) + 1

    def basereset(self, eng, st, fn, a):
        st.ghost['base'] = st.ghost.get('base', 0) + 1

    def make(self):
        e, st = self.e, self.st
        o, f = self.stats('seq', size=120)
        self.this = o
        self.retain, self.size_, self.p, self.r, cap = z3.Ints('max_retain size points remain capacity')
        self.nv = z3.Real('new_value')
        self.value = z3.Real('value')
        h = z3.Int('half')
        st.assume(z3.And(self.retain == 2 * h, h > 0, self.retain < 1 << 31, self.size_ >= 0, self.size_ <= self.retain,
                         cap >= self.size_, cap < 1 << 60, self.p >= 1, self.p < 1 << 30, self.r >= 1, self.r <= self.p))
        self.buf = Obj('values', 'heap', cap * 8, stride=8, count=cap)
        e.store(st, Ptr(o, RETAIN), self.retain, I64)
        e.store(st, Ptr(o, MODE), MODES.index(self.mode), I32)
        vec_set(st, o, VALUES, Ptr(self.buf, 0), self.size_, cap)
        e.store(st, Ptr(o, WIDTH), z3.Real('width'), self.dbl)
        e.store(st, Ptr(o, NEWV), self.nv, self.dbl)
        e.store(st, Ptr(o, POINTS), self.p, I32)
        e.store(st, Ptr(o, REMAIN), self.r, I32)
        e.opts['objects'] = [o, self.buf]
        k, a = z3.Ints('k_ a_')
        st.assume(z3.And(Bd(0) == 0, FA([k], z3.Implies(k >= 0, Bd(k + 1) == Bd(k) + self.p), pats=[Bd(k + 1)])))
        self.N = self.size_ * 0 + Bd(self.size_) + self.p - self.r
        st.assume(z3.And(Ss(self.N + 1) == Ss(self.N) + self.value, Vv(self.N) == self.value, Bd(self.size_) >= 0))
        # definition of the maximum of a range, one value further and of two adjoining ranges
        st.assume(z3.And(Mx(self.N, self.N + 1) == self.value,
                         FA([a], z3.Implies(z3.And(a >= 0, a < self.N), Mx(a, self.N + 1) == z3.If(Mx(a, self.N) > self.value, Mx(a, self.N), self.value)),
                            pats=[Mx(a, self.N + 1)])))
        self.A0 = e.getmap(st, self.buf, 0, self.dbl)
        st.assume(self.inv(st, self.A0, self.size_, self.p, self.r, self.nv, self.N, Bd))
        st.assume(z3.Implies(self.size_ == self.retain, Bd(self.size_) == self.N))
        return o

    def inv(self, st, A, n, p, r, nv, N, bd):
        """the buckets hold the merged values, the open bucket those after them"""
        k = z3.Int('k_inv')
        part = {'MergeSum': Ss(N) - Ss(bd(n)), 'MergeMean': Ss(N) - Ss(bd(n)), 'MergeMax': Mx(bd(n), N)}[self.mode]
        return z3.And(FA([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(A, k) == bucket(self.mode, bd(k), bd(k + 1), p)), pats=[z3.Select(A, k)]),
                      N == bd(n) + p - r, z3.Implies(r == p, nv == 0), z3.Implies(r < p, nv == part),
                      z3.Implies(n == self.retain, r == p))

    def pair(self, k):
        """the merger of the buckets 2k and 2k+1"""
        return bucket(self.mode, Bd(2 * k), Bd(2 * k + 2), 2 * self.p)

    def facts(self, k):
        """bounds and mergers of the buckets 2k and 2k+1 (see t_lemma)"""
        a, b, c = Bd(2 * k), Bd(2 * k + 1), Bd(2 * k + 2)
        p = z3.ToReal(self.p)
        return z3.And(b == a + self.p, c == b + self.p,
                      Mx(a, c) == z3.If(Mx(a, b) > Mx(b, c), Mx(a, b), Mx(b, c)),
                      2 * vc.FDIV(Ss(c) - Ss(a), z3.ToReal(2 * self.p)) == vc.FDIV(Ss(b) - Ss(a), p) + vc.FDIV(Ss(c) - Ss(b), p))

    def loop(self, L):
        out = []
        p, n, _ = vec_state(L.st, self.this, VALUES)
        A = self.e.getmap(L.st, p.obj, 0, self.dbl)
        k = z3.Int('k_l')
        cs = counters(L)
        for nm, v, v0, w in cs:
            L.st.assume(z3.Implies(z3.And(v >= 0, v < self.retain), self.facts(v)))
            for nm2, v2, u0, w2 in cs:
                if nm2 != nm:
                    out.append(('%s is twice %s' % (nm2, nm), v2 == 2 * v))
            out.append((nm + ' counts pairs', z3.And(v >= 0, 2 * v <= self.retain)))
            out.append(('merged below ' + nm, FA([k], z3.Implies(z3.And(k >= 0, k < v), z3.Select(A, k) == self.pair(k)), pats=[z3.Select(A, k)])))
            out.append(('untouched from 2*%s' % nm, FA([k], z3.Implies(z3.And(k >= 2 * v, k < self.retain), z3.Select(A, k) == z3.Select(self.A0, k)), pats=[z3.Select(A, k)])))
            out.append(('merged below half of ' + nm, FA([k], z3.Implies(z3.And(k >= 0, 2 * k < v), z3.Select(A, k) == self.pair(k)), pats=[z3.Select(A, k)])))
            out.append(('untouched from ' + nm, FA([k], z3.Implies(z3.And(k >= v, k < self.retain), z3.Select(A, k) == z3.Select(self.A0, k)), pats=[z3.Select(A, k)])))
            out.append((nm + ' is even', v % 2 == 0))
        return out


def t_seq(mode):
    def t(ctx):
        h = Seq(ctx, mode)
        e = h.e
        o = h.make()
        e.invs = [h.loop]
        res = e.run(h.fn(r'^StatsSequence::add\(double\)$'), [Ptr(o, 0), h.value], h.st)
        for st, _ in res:
            p, n, _ = vec_state(st, o, VALUES)
            A = e.getmap(st, p.obj, 0, h.dbl)
            P, R = e.load(st, Ptr(o, POINTS), I32), e.load(st, Ptr(o, REMAIN), I32)
            nv = e.load(st, Ptr(o, NEWV), h.dbl)
            e.oblige(st, 'the base statistics see the value once', z3.BoolVal(st.ghost.get('base') == 1), 'ensures')
            e.oblige(st, 'at most max_retain buckets', n <= h.retain, 'ensures')
            e.oblige(st, 'buckets keep their width, or double it when all are in use',
                     z3.If(h.size_ == h.retain, P == 2 * h.p, P == h.p), 'ensures')
            full = h.size_ == h.retain
            half = z3.Int(e.fresh_name('half'))
            st.assume(h.retain == 2 * half)
            for cond, bd, what in ((z3.Not(full), Bd, 'kept'), (full, lambda k: Bd(2 * k), 'merged in pairs')):
                s2 = st.copy()
                s2.assume(cond)
                s2.assume(h.facts(half))
                n2 = n if what == 'kept' else n
                k = z3.Int(e.fresh_name('kk'))
                base = h.size_ if what == 'kept' else half
                s2.assume(Bd(z3.simplify(2 * half)) == Bd(h.retain))
                new = z3.If(n == base + 1, 1, 0)
                e.oblige(s2, what + ': as many buckets as before, or one more', z3.Or(n == base, n == base + 1), 'ensures')
                e.oblige(s2, what + ': every closed bucket holds the merger of its values',
                         z3.Implies(z3.And(k >= 0, k < base), z3.Select(A, k) == bucket(mode, bd(k), bd(k + 1) if what == 'kept' else Bd(2 * k + 2), P)), 'ensures')
                e.oblige(s2, what + ': a new bucket holds the merger of its values',
                         z3.Implies(n == base + 1, z3.Select(A, base) == bucket(mode, bd(base), h.N + 1, P)), 'ensures')
                e.oblige(s2, what + ': a new bucket is complete', z3.Implies(n == base + 1, z3.And(h.N + 1 == bd(base) + P, R == P, nv == 0)), 'ensures')
                part = {'MergeSum': Ss(h.N + 1) - Ss(bd(base)), 'MergeMean': Ss(h.N + 1) - Ss(bd(base)), 'MergeMax': Mx(bd(base), h.N + 1)}[mode]
                e.oblige(s2, what + ': an open bucket holds its values so far',
                         z3.Implies(n == base, z3.And(h.N + 1 == bd(base) + P - R, R >= 1, R < P, nv == part)), 'ensures')
                e.oblige(s2, what + ': no bucket is open when all are in use', z3.Implies(n == h.retain, R == P), 'ensures')
        return done(h, res)
    return Task('StatsSequence::add(double) %s' % mode, t)


def t_lemma(ctx):
    """the mergers that StatsSequence's contract uses follow from the definitions"""
    e = Engine(ctx['mods']['stats'], 'int', dict(fp='real'))
    st = State()
    x, y, p = z3.Reals('x y p')
    s = st.copy()
    s.assume(p >= 1)
    e.oblige(s, 'mean of two equal buckets', 2 * ((x + y) / (2 * p)) == x / p + y / p, 'lemma')
    a, b, c = z3.Ints('a b c')
    s = st.copy()
    v = z3.Real('v')
    mab, mbc, mac = z3.Reals('mab mbc mac')
    mx = lambda x, y: z3.If(x > y, x, y)
    e.oblige(s, 'maximum of adjoining ranges: the second has one value', z3.Implies(z3.And(mac == mx(mab, v), mbc == v), mac == mx(mab, mbc)), 'lemma')
    s.assume(mac == mx(mab, mbc))
    e.oblige(s, 'maximum of adjoining ranges: one more value in the second', mx(mac, v) == mx(mab, mx(mbc, v)), 'lemma')
    e.returns = 1
    return e


def t_seqreset(ctx):
    h = Seq(ctx, 'MergeSum')
    o = h.make()
    res = h.e.run(h.fn(r'^StatsSequence::reset\(\)$'), [Ptr(o, 0)], h.st)
    for st, _ in res:
        p, n, _ = vec_state(st, o, VALUES)
        h.e.oblige(st, 'no buckets', n == 0, 'ensures')
        h.e.oblige(st, 'one value for each bucket, none open', z3.And(h.e.load(st, Ptr(o, POINTS), I32) == 1, h.e.load(st, Ptr(o, REMAIN), I32) == 1,
                   h.e.load(st, Ptr(o, NEWV), h.dbl) == 0), 'ensures')
        h.e.oblige(st, 'the base statistics are reset', z3.BoolVal(st.ghost.get('base', 0) >= 1), 'ensures')
    return done(h, res)


def t_seqget(ctx):
    h = Seq(ctx, 'MergeSum')
    o = h.make()
    i = z3.Int('seqNum')
    h.st.assume(z3.And(i >= 0, i < 1 << 32))
    h.e.assert_ok = lambda eng, st: eng.must(st, i >= h.size_)
    res = h.e.run(h.fn(r'^StatsSequence::get\(unsigned int\)$'), [Ptr(o, 0), i], h.st)
    for st, r in res:
        h.e.oblige(st, 'an existing bucket', i < h.size_, 'ensures')
        h.e.oblige(st, 'its value', r == z3.Select(h.A0, i), 'ensures')
    return done(h, res)


# ---- StatsSeries -------------------------------------------------------------------------------
LAG, SAMPLES, PRODUCT, FIRST, SAMPLENO = 56, 64, 72, 80, 88
Last = z3.Function('lastsum', z3.IntSort(), z3.RealSort())


class Series(H):
    def __init__(self, ctx, ufp=True):
        H.__init__(self, ctx, rnd=False, cls='11StatsSeries', size=96)
        e, st = self.e, self.st
        e.opts['ufp'] = ufp
        e.contract(r'^Stats::add\(double\)$', self.base)
        e.contract(r'^Stats::reset\(\)$', self.basereset)

    def base(self, eng, st, fn, a):
        eng.oblige(st, 'the base statistics see the value', z3.And(a[1] == self.value, z3.BoolVal(a[0].obj is self.this)), 'ensures')
        st.ghost['base'] = st.ghost.get('base', 0) + 1

    def basereset(self, eng, st, fn, a):
        st.ghost['base'] = st.ghost.get('base', 0) + 1

    def make(self):
        e, st = self.e, self.st
        o, self.f = self.stats('series', size=96)
        self.this = o
        self.lag, self.n = z3.Ints('max_lag sampleno')
        self.value = z3.Real('value')
        st.assume(z3.And(self.lag >= 1, self.lag < (1 << 31), self.n >= 0, self.n < (1 << 32) - 1))
        e.store(st, Ptr(o, LAG), self.lag, I32)
        e.store(st, Ptr(o, SAMPLENO), self.n, I32)
        self.arr, self.A0 = {}, {}
        for off, nm in ((SAMPLES, 'samples'), (PRODUCT, 'product'), (FIRST, 'firstsamples')):
            b = self.arr[nm] = Obj(nm, 'heap', (self.lag + 1) * 8, stride=8, count=self.lag + 1)
            e.store(st, Ptr(o, off), Ptr(b, 0), PTR)
            self.A0[nm] = e.getmap(st, b, 0, self.dbl)
        k = z3.Int('k_s')
        # no sample is older than the first one
        st.assume(FA([k], z3.Implies(z3.And(k >= self.n, k <= self.lag), z3.Select(self.A0['samples'], k) == 0), pats=[z3.Select(self.A0['samples'], k)]))
        e.opts['objects'] = [o] + list(self.arr.values())
        return o

    def map(self, st, nm):
        return self.e.getmap(st, self.arr[nm], 0, self.dbl)

    def moved(self, k):
        return z3.If(k == 0, self.value, z3.Select(self.A0['samples'], k - 1))

    def want(self, nm, k):
        P0 = z3.Select(self.A0[nm], k)
        if nm == 'product':
            pr = self.mul_(self.value, self.moved(k))
            return z3.If(k <= self.n, P0 + pr, P0)
        return z3.If(z3.And(k > self.n), P0 + self.value, P0)

    def mul_(self, a, b):
        return vc.FMUL(*sorted((a, b), key=lambda t: t.get_id()))

    def loop(self, L):
        out = []
        if not hasattr(self, 'arr'):
            return out
        S, P, F = (self.map(L.st, nm) for nm in ('samples', 'product', 'firstsamples'))
        S0, P0, F0 = (self.A0[nm] for nm in ('samples', 'product', 'firstsamples'))
        k = z3.Int('k_l')
        v = self.value
        prodk = lambda k: z3.Select(P0, k) + self.mulk(k, S)
        cs = counters(L)
        for nm, i, i0, w in cs:
            q = lambda lo, hi, body, A: FA([k], z3.Implies(z3.And(k >= lo, k < hi), body), pats=[z3.Select(A, k)])
            out += [(nm + ' within the lags', z3.And(i >= 0, i <= self.lag)), (nm + ' within the lags plus one', z3.And(i >= 0, i <= self.lag + 1)),
                    (nm + ' up to the samples', i <= self.n + 1), (nm + ' after the samples', i >= self.n + 1),
                    (nm + ' at least -1', z3.And(i >= -1, i <= self.lag)),
                    ('samples above next of %s moved' % nm, q(i + 2, self.lag + 1, z3.Select(S, k) == z3.Select(S0, k - 1), S)),
                    ('samples up to next of %s unmoved' % nm, q(0, i + 2, z3.Select(S, k) == z3.Select(S0, k), S)),
                    ('samples above %s moved' % nm, q(i + 1, self.lag + 1, z3.Select(S, k) == z3.Select(S0, k - 1), S)),
                    ('samples up to %s unmoved' % nm, q(0, i + 1, z3.Select(S, k) == z3.Select(S0, k), S)),
                    ('products below %s' % nm, q(0, i, z3.Select(P, k) == prodk(k), P)),
                    ('products from %s' % nm, q(i, self.lag + 1, z3.Select(P, k) == z3.Select(P0, k), P)),
                    ('firsts below %s' % nm, q(self.n + 1, i, z3.Select(F, k) == z3.Select(F0, k) + v, F)),
                    ('firsts from %s' % nm, q(i, self.lag + 1, z3.Select(F, k) == z3.Select(F0, k), F)),
                    ('firsts up to the samples', q(0, self.n + 1, z3.Select(F, k) == z3.Select(F0, k), F)),
                    ('samples below %s cleared' % nm, q(0, i, z3.Select(S, k) == 0, S)),
                    ('products below %s cleared' % nm, q(0, i, z3.Select(P, k) == 0, P)),
                    ('firsts below %s cleared' % nm, q(0, i, z3.Select(F, k) == 0, F))]
            for fk, fv in getattr(L, 'fps', {}).items():
                fv = fv[0] if isinstance(fv, tuple) else fv
                if ' signed' in nm:
                    continue
                L.st.assume(z3.Implies(i >= 0, Last(i + 1) == Last(i) + z3.Select(S0, i)))
                out.append(('%s sums the samples below %s' % (fk, nm), fv == Last(i)))
        return out

    def mulk(self, k, S):
        """value * samples[k], an application whichever way the operands are sorted"""
        x = z3.Select(S, k)
        return vc.FMUL(self.value, x)


def t_series_add(ctx):
    h = Series(ctx)
    e = h.e
    o = h.make()
    a, b = z3.Reals('fa fb')
    h.st.assume(z3.ForAll([a, b], vc.FMUL(a, b) == vc.FMUL(b, a), patterns=[vc.FMUL(a, b)]))
    h.st.assume(z3.ForAll([a], z3.And(vc.FMUL(h.value, z3.RealVal(0)) == 0, vc.FMUL(h.value, a) == vc.FMUL(a, h.value)), patterns=[vc.FMUL(h.value, a)]))
    e.invs = [h.loop]
    res = e.run(h.fn(r'^StatsSeries::add\(double\)$'), [Ptr(o, 0), h.value], h.st)
    k = z3.Int('k_any')
    for st, _ in res:
        g = z3.And(k >= 0, k <= h.lag)
        S, P, F = (h.map(st, nm) for nm in ('samples', 'product', 'firstsamples'))
        e.oblige(st, 'the base statistics see the value once', z3.BoolVal(st.ghost.get('base') == 1), 'ensures')
        e.oblige(st, 'the samples move up and the value is the latest', z3.Implies(g, z3.Select(S, k) == h.moved(k)), 'ensures')
        e.oblige(st, 'each product gains the value times the sample that far back', z3.Implies(g, z3.Select(P, k) ==
                 z3.Select(h.A0['product'], k) + z3.If(k <= h.n, vc.FMUL(h.value, z3.Select(S, k)), 0)), 'ensures')
        e.oblige(st, 'the sum of the first samples of each lag', z3.Implies(g, z3.Select(F, k) == z3.Select(h.A0['firstsamples'], k) + z3.If(k > h.n, h.value, 0)), 'ensures')
        e.oblige(st, 'one more sample', e.load(st, Ptr(o, SAMPLENO), I32) == h.n + 1, 'ensures')
    return done(h, res)


def t_series_reset(ctx):
    h = Series(ctx)
    e = h.e
    o = h.make()
    e.invs = [h.loop]
    res = e.run(h.fn(r'^StatsSeries::reset\(\)$'), [Ptr(o, 0)], h.st)
    k = z3.Int('k_any')
    for st, _ in res:
        e.oblige(st, 'no samples', e.load(st, Ptr(o, SAMPLENO), I32) == 0, 'ensures')
        for nm in h.arr:
            e.oblige(st, nm + ' all zero', z3.Implies(z3.And(k >= 0, k <= h.lag), z3.Select(h.map(st, nm), k) == 0), 'ensures')
        e.oblige(st, 'the base statistics are reset', z3.BoolVal(st.ghost.get('base', 0) >= 1), 'ensures')
    return done(h, res)


def t_series_cov(ctx):
    h = Series(ctx, ufp=False)
    e = h.e
    o = h.make()
    lag = z3.Int('lag')
    m = z3.Real('mean')
    h.st.assume(z3.And(lag >= 0, lag < 1 << 32, Last(0) == 0))
    e.contract(r'^Stats::mean\(\) const$', lambda eng, st, fn, a: m)
    e.assert_ok = lambda eng, st: eng.must(st, lag > h.lag)
    e.invs = [h.loop]
    res = e.run(h.fn(r'^StatsSeries::autocovariance'), [Ptr(o, 0), lag], h.st)
    n = z3.ToReal(h.n)
    P, F = (z3.Select(h.A0[nm], lag) for nm in ('product', 'firstsamples'))
    for st, r in res:
        e.oblige(st, 'lag within bounds', lag <= h.lag, 'ensures')
        e.oblige(st, 'no pairs, no covariance', z3.Implies(lag >= h.n, r == 0), 'ensures')
        want = P - m * (2 * h.f[SUM] - Last(lag) - F) + m * m * (n - z3.ToReal(lag))
        e.oblige(st, 'the mean product of the deviations of the pairs (expanded)', z3.Implies(lag < h.n, r * n == want), 'ensures')
    return done(h, res)


def t_cov_lemma(ctx):
    """the expanded form is the sum of the products of the deviations: by induction over the pairs; and the sums of
    the earlier and later values of the pairs are the total without the last and without the first ones"""
    e = Engine(ctx['mods']['stats'], 'int', dict(fp='real'))
    E, P, A, B, m, a, b, c, S, L, F = z3.Reals('deviations products earlier later mean a b pairs total last first')
    st = State()
    form = lambda P, A, B, c: P - m * (A + B) + m * m * c
    e.oblige(st, 'no pairs', form(z3.RealVal(0), z3.RealVal(0), z3.RealVal(0), z3.RealVal(0)) == 0, 'lemma')
    s2 = st.copy()
    s2.assume(E == form(P, A, B, c))
    e.oblige(s2, 'one more pair', E + (a - m) * (b - m) == form(P + a * b, A + a, B + b, c + 1), 'lemma')
    # one more value x, n values before it, lag k <= n: the pair (y, x); y leaves the window of the last k values
    x, y = z3.Reals('x y')
    s3 = st.copy()
    s3.assume(z3.And(A == S - L, B == S - F))
    e.oblige(s3, 'the earlier values are those without the last', A + y == (S + x) - (L + x - y), 'lemma')
    e.oblige(s3, 'the later values are those without the first', B + x == (S + x) - F, 'lemma')
    e.returns = 1
    return e


TASKS = [Task('Stats::add(double)', t_add), t_merge(False), t_merge(True), Task('Stats::reset', t_reset), Task('Stats::Stats', t_ctor),
         Task('Stats::mean', t_mean), Task('Stats::variance', t_var), Task('StatsBase::stddev', t_stddev), Task('Stats::conf95', t_conf),
         Task('Stats::addTimeSeq', t_seqadd)]
TASKS += [t_seq(m) for m in MODES] + [Task('StatsSequence merging lemmas', t_lemma), Task('StatsSequence::reset', t_seqreset), Task('StatsSequence::get', t_seqget),
         Task('StatsSeries::add(double)', t_series_add), Task('StatsSeries::reset', t_series_reset), Task('StatsSeries::autocovariance', t_series_cov), Task('autocovariance lemmas', t_cov_lemma)]

"""Contracts of the histograms: which bin a value belongs to, what scaling and growing keep."""
import re
import z3
import vc
from vc import *
from lib import *
from runner import Task

DRIVERS = {'histogram': ['drivers/histogram.cpp']}
U, UA, LG, LA = 'StatsHistogramUniform', 'StatsHistogramUniformAccum', 'StatsHistogramLog', 'StatsHistogramLogAccum'
# places of the members
OFF = {U: dict(n=56, w=64, low=72, high=80, bins=88, scal=96, grow=97, resc=100, grows=104, size=112),
       LG: dict(n=56, low=64, high=72, scale=80, scal=88, resc=92, bins=96, size=104)}
OFF[UA] = dict(OFF[U], val=112, size=120)
OFF[LA] = dict(OFF[LG], val=104, size=112)
NUM = 16
I, R, Bo = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AI, AR = z3.ArraySort(I, I), z3.ArraySort(I, R)
P = z3.Function('sum_of_counts', AI, I, I)        # sum modulo 2^64 of the first k entries
PV = z3.Function('sum_of_values', AR, I, R)
M64 = 1 << 64
SEL = z3.Select
BIG = z3.RealVal(1 << 1000)


def W(x):
    return z3.If(x >= M64, x - M64, x)


def PX(m, n, k):
    f = PV if m.sort() == AR else P
    return z3.If(k <= 0, 0, z3.If(k >= n, f(m, n), f(m, k)))


def plus(m, a, b):
    return a + b if m.sort() == AR else W(a + b)


class Hist:
    def __init__(self, ctx, cls, rnd=False, ufp=True):
        self.mod = ctx['mods']['histogram']
        o = dict(fp='real', ufp=ufp, fdiv0=True, alloc_layout=self.layout)
        if rnd:
            o['rnd'] = True
        e = self.e = Engine(self.mod, 'int', o)
        std_contracts(e)
        self.st = State()
        self.dbl = FpTy(64)
        self.cls, self.f = cls, OFF.get(cls)
        e.contract(r'^boost::(io::|basic_format)', h_nop)
        e.contract(r'^StatsBase::checkInvariants\(\) const', lambda g, s, fn, a: z3.BoolVal(True))
        e.contract(r'^Stats::checkInvariants\(\) const', lambda g, s, fn, a: z3.BoolVal(True))
        e.contract(r'^Stats::(add|reset|Stats|~Stats)\(', self.base)
        e.contract(r'^(exp|log)$', self.transc)
        self.K = None

    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(pat, f.dname) and not f.decl]
        if not fs:
            raise Unsupported('function %s not found' % pat)
        return fs[0]

    @staticmethod
    def layout(eng, st, o):
        c = eng.exact_div(o.size, 8) if is_sym(o.size) else (o.size // 8 if o.size % 8 == 0 else None)
        if c is None:
            return False
        o.stride, o.count = 8, c
        return True

    def base(self, eng, st, fn, a):
        """the part that is a Stats: contracts of P11"""
        what = re.match(r'^Stats::(\w+|~Stats)\(', fn.dname).group(1)
        st.ghost['stats'] = st.ghost.get('stats', ()) + ((what, a[0]) + tuple(a[1:]),)

    def transc(self, eng, st, fn, a):
        r = eng.fresh_fp(fn.name, 64)
        if fn.name == 'exp':
            st.assume(r >= 0)
        return r

    def stats(self, s):
        return s.ghost.get('stats', ())

    def make(self, scal=0, grow=0):
        e, st, f = self.e, self.st, self.f
        o = self.this = Obj('histogram', 'param', f['size'])
        vt = e.global_obj(st, '_ZTV%d%s' % (len(self.cls), self.cls))
        e.store(st, Ptr(o, 0), Ptr(vt, 16), PTR)
        h = z3.Int('half')
        self.n = z3.Int('bins')
        st.assume(z3.And(self.n == 2 * h, h >= 1, h < 1 << 28))
        self.h = h
        e.store(st, Ptr(o, f['n']), self.n, I32)
        self.resc = z3.Int('rescales')
        st.assume(z3.And(self.resc >= 0, self.resc < 1 << 31))
        e.store(st, Ptr(o, f['resc']), self.resc, I32)
        e.store(st, Ptr(o, f['scal']), scal, I8)
        self.low, self.high = z3.Reals('low high')
        for x in (self.low, self.high):
            st.assume(z3.And(x < BIG, x > -BIG))
        e.store(st, Ptr(o, f['low']), self.low, self.dbl)
        e.store(st, Ptr(o, f['high']), self.high, self.dbl)
        if 'grow' in f:
            e.store(st, Ptr(o, f['grow']), grow, I8)
            self.grows = z3.Int('grows')
            st.assume(z3.And(self.grows >= 0, self.grows < 1 << 31))
            e.store(st, Ptr(o, f['grows']), self.grows, I32)
            self.w = z3.Real('width')
            st.assume(z3.And(self.high >= self.low, self.w >= 0, self.w < BIG))
            e.store(st, Ptr(o, f['w']), self.w, self.dbl)
        else:
            self.w = z3.Real('scaling')
            st.assume(z3.And(self.low > 0, self.high >= self.low))
            e.store(st, Ptr(o, f['scale']), self.w, self.dbl)
        b = self.bins = Obj('bins', 'heap', self.n * 8, stride=8, count=self.n)
        e.store(st, Ptr(o, f['bins']), Ptr(b, 0), PTR)
        obs = [o, b]
        self.B0 = e.getmap(st, b, 0, I64)
        self.V0 = None
        if 'val' in f:
            v = self.vals = Obj('sums', 'heap', self.n * 8, stride=8, count=self.n)
            e.store(st, Ptr(o, f['val']), Ptr(v, 0), PTR)
            self.V0 = e.getmap(st, v, 0, self.dbl)
            obs.append(v)
        e.opts['objects'] = obs
        q = z3.Int('q_')
        st.assume(FA([q], z3.And(SEL(self.B0, q) >= 0, SEL(self.B0, q) < M64), pats=[SEL(self.B0, q)]))
        return Ptr(o, 0)

    def get(self, s, what):
        f = self.f
        ty = {'n': I32, 'resc': I32, 'grows': I32, 'scal': I8, 'grow': I8, 'bins': PTR, 'val': PTR}.get(what, self.dbl)
        return self.e.load(s, Ptr(self.this, f[what]), ty)

    def cmap(self, s, what='bins'):
        p = self.get(s, what)
        if not isinstance(p, Ptr) or p.obj is None or p.obj.stride != 8 or is_sym(p.off) or p.off:
            raise Unsupported('array of bins %r' % (p,))
        return self.e.getmap(s, p.obj, 0, I64 if what == 'bins' else self.dbl)

    def prod(self, s, k, w):
        return self.e.prod(s, z3.ToReal(B_int(k)), w)

    def maps(self, s):
        return [('bins', self.cmap(s))] + ([('val', self.cmap(s, 'val'))] if self.V0 is not None else [])

    def frame(self, s, keep):
        for k in keep:
            want = {'n': self.n, 'low': self.low, 'high': self.high, 'w': self.w, 'scale': self.w, 'resc': self.resc, 'grows': getattr(self, 'grows', None)}[k]
            self.e.oblige(s, 'unchanged: ' + {'n': 'number of bins', 'low': 'low end', 'high': 'high end', 'w': 'width', 'scale': 'scaling', 'resc': 'rescales', 'grows': 'grows'}[k],
                          self.get(s, k) == want, 'ensures')

    def once(self, s, v):
        calls = [c for c in self.stats(s)]
        ok = len(calls) == 1 and calls[0][0] == 'add' and len(calls[0]) == 3 and isinstance(calls[0][1], Ptr) and calls[0][1].obj is self.this
        self.e.oblige(s, 'the value enters the statistics once', z3.And(z3.BoolVal(ok), calls[0][2] == v) if ok else z3.BoolVal(False), 'ensures')

    # ---- which bin -------------------------------------------------------------------------------
    def bin_by_contract(self, cls=U):
        """sampleBin: a bin; with an edge t between two bins, a bin below it exactly for the values below t"""
        e = self.e

        def h(g, s, fn, a):
            v = a[1]
            b = z3.Int(g.fresh_name('bin'))
            n = self.get(s, 'n')
            s.assume(z3.And(b >= 0, b < n))
            if self.K is not None:
                K, gone = s.ghost['K']
                w = self.get(s, 'w')
                edge = z3.And(z3.Not(gone), self.t == self.get(s, 'low') + self.prod(s, K, w))
                s.assume(z3.Implies(z3.And(edge, K >= 1, K < n), (b < K) == (v < self.t)))
                s.ghost['bin'] = b
            s.ghost['bin'] = b
            return b
        e.contract(r'^%s::sampleBin\(double\) const' % cls, h)

    def log_bin_by_contract(self):
        self.bin_by_contract(LG)

    def increments(self, s, maps0, v):
        """one value more in the bin of the value"""
        b = s.ghost.get('bin')
        if b is None:
            self.e.oblige(s, 'the value is counted in its bin', z3.BoolVal(False), 'ensures')
            return None
        return b


def done(h, res):
    h.e.returns = len(res)
    return h.e


# ---- bins --------------------------------------------------------------------------------------------
def t_samplebin(ctx):
    h = Hist(ctx, U, ufp=False)
    e = h.e
    this = h.make()
    v, K = z3.Real('value'), z3.Int('K')
    st = h.st
    st.assume(z3.And(v < BIG, v > -BIG, K >= 1, K < h.n, h.w * z3.ToReal(h.n) == h.high - h.low, z3.Implies(h.high > h.low, h.w > 0)))
    res = e.run(h.fn(r'^%s::sampleBin' % U), [this, v], st)
    for s, b in res:
        e.oblige(s, 'a bin of the histogram', z3.And(b >= 0, b < h.n), 'ensures')
        e.oblige(s, 'the first bin for values up to the low end', z3.Implies(v <= h.low, b == 0), 'ensures')
        e.oblige(s, 'the last bin for values from the high end', z3.Implies(z3.And(v > h.low, v >= h.high), b == h.n - 1), 'ensures')
        x = z3.Real('x')
        edge = h.low + z3.ToReal(K) * h.w
        # value - low = x * width
        s.assume(z3.Implies(h.w > 0, z3.And(x == (v - h.low) / h.w, x * h.w == v - h.low)))
        for lab, a, c in (('below an edge: a bin before it', b < K, v < edge), ('from an edge on: no bin before it', b >= K, v >= edge)):
            # (x - K) * width has the sign of x - K
            d = x - z3.ToReal(K)
            s.assume(z3.Implies(h.w > 0, z3.And((d * h.w < 0) == (d < 0), d * h.w == v - edge, (x - z3.ToReal(h.n)) * h.w == v - h.high,
                                                ((x - z3.ToReal(h.n)) * h.w < 0) == (x < z3.ToReal(h.n)), (x > 0) == (v > h.low))))
            e.oblige(s, lab, z3.Implies(z3.And(c, h.high > h.low), a), 'ensures')
        h.frame(s, ('n', 'low', 'high', 'w'))
    return done(h, res)


def t_samplebin_rnd(ctx):
    h = Hist(ctx, U, rnd=True)
    e = h.e
    this = h.make()
    v = z3.Real('value')
    L = z3.RealVal(1 << 400)
    # smaller numbers than 2^400, and a width that is not below 2^-400
    h.st.assume(z3.And(v <= L, v >= -L, h.low >= -L, h.high <= L, z3.Implies(h.high > h.low, h.w >= 1 / L)))
    res = e.run(h.fn(r'^%s::sampleBin' % U), [this, v], h.st)
    for s, b in res:
        e.oblige(s, 'whatever the rounding, a bin of the histogram', z3.And(b >= 0, b < h.n), 'ensures')
    return done(h, res)


TASKS = [Task('StatsHistogramUniform::sampleBin', t_samplebin), Task('StatsHistogramUniform::sampleBin with rounding', t_samplebin_rnd)]


# ---- adding ------------------------------------------------------------------------------------------
def add_fn(cls, two):
    return r'^%s::add\(double, double\)$' % cls if two else r'^%s::add\(double\)$' % cls


def counted(h, s, maps0, n, b, v, at=0, n0=None):
    """every bin as before (moved by at), the bin of the value one more"""
    e = h.e
    q = z3.Int('q')
    n0 = n if n0 is None else n0
    for nm, m in h.maps(s):
        m0 = maps0[nm]
        zero = z3.RealVal(0) if m0.sort() == AR else z3.IntVal(0)
        old = z3.If(z3.And(q >= at, q < at + n0), SEL(m0, q - at), zero)
        what = 'the count of' if nm == 'bins' else 'the sum of'
        inc = v if nm == 'val' else z3.IntVal(1)
        # the old counts are numbers of a machine word
        s.assume(z3.And(SEL(h.B0, q - at) >= 0, SEL(h.B0, q - at) < M64))
        e.oblige(s, what + ' its bin takes the value', z3.Implies(z3.And(q >= 0, q < n, q == b), SEL(m, q) == plus(m, old, inc)), 'ensures')
        e.oblige(s, what + ' every other bin is kept', z3.Implies(z3.And(q >= 0, q < n, q != b), SEL(m, q) == old), 'ensures')


def t_add_fixed(cls, two):
    def t(ctx):
        h = Hist(ctx, cls)
        e = h.e
        this = h.make()
        st = h.st
        v = z3.Real('value')
        d = z3.Real('data') if two and cls in (UA, LA) else v
        st.assume(z3.And(v < BIG, v > -BIG, d < BIG, d > -BIG))
        log = cls in (LG, LA)
        h.bin_by_contract(LG if log else U)
        if cls == LG:
            e.assert_ok = lambda g, s: v <= 0
        res = e.run(h.fn(add_fn(cls, two)), [this, v] + ([d] if two else []), st)
        maps0 = dict(bins=h.B0, val=h.V0)
        for s, _ in res:
            h.once(s, d)
            b = h.increments(s, maps0, d)
            if b is not None:
                counted(h, s, maps0, h.n, b, d)
            h.frame(s, ('n', 'low', 'high', 'resc') + (() if log else ('w', 'grows')))
        return done(h, res)
    return Task('%s::add(%s) of a fixed range' % (cls, 'index, data' if two else 'value'), t)


TASKS += [t_add_fixed(c, two) for c in (U, UA, LG, LA) for two in (False, True)]


def invariants(h, L):
    """what merging and growing loops keep"""
    s, e = L.st, h.e
    out = []
    scaling = (h.this, ('c', h.f['low'])) in L.modset or (h.this, ('c', h.f['high'])) in L.modset
    if scaling and not getattr(L, 'merging', False):
        n = h.n
        low, high, w = (h.get(s, k) for k in ('low', 'high', 'w' if 'w' in h.f else 'scale'))
        maps = h.maps(s)
        if getattr(L, 'at', 'head') == 'head':
            s.ghost['K'] = (z3.Int(e.fresh_name('K')), z3.Bool(e.fresh_name('gone')))
            s.ghost['head'] = dict(maps, low=low, high=high, w=w)
        elif getattr(L, 'at', 'head') == 'back':
            H = s.ghost['head']
            K0, gone = s.ghost['K']
            same = lambda a, b: z3.eq(z3.simplify(a), z3.simplify(b))
            down = not same(low, H['low'])
            sh = n if down else z3.IntVal(0)
            K = z3.Int(e.fresh_name('K'))
            odd = z3.Bool(e.fresh_name('odd'))
            s.assume(z3.And(z3.Implies(z3.Not(odd), 2 * K == K0 + sh), z3.Implies(odd, 2 * K == K0 + sh - 1)))
            s.ghost['K'] = (K, z3.Or(gone, odd))
            q = z3.Int('q')
            for nm, m in maps:
                m0 = H[nm]
                # the definition of a prefix sum: merging pairs of bins halves the position
                pair = plus(m0, SEL(m0, 2 * q - sh), SEL(m0, 2 * q - sh + 1))
                f = PV if nm == 'val' else P
                merged = FA([q], z3.Implies(z3.And(q >= 0, q < n), SEL(m, q) == z3.If(z3.And(2 * q >= sh, 2 * q - sh < n), pair, 0)), pats=[SEL(m, q)])
                s.assume(z3.Implies(merged, z3.And(f(m, n) == f(m0, n), z3.Implies(2 * K == K0 + sh, PX(m, n, K) == PX(m0, n, K0)))))
            if 'w' in h.f:
                a, b, c, d = h.prod(s, K, w), h.prod(s, K0, H['w']), h.prod(s, n, H['w']), h.prod(s, n, w)
                s.assume(z3.Implies(w == 2 * H['w'], z3.And(d == 2 * c, z3.Implies(2 * K == K0 + sh, a == b + (c if down else 0)))))
        if 'K' in s.ghost:
            K, gone = s.ghost['K']
            for nm, m in maps:
                out.append(('count %s below the edge' % nm, z3.Or(gone, PX(m, n, K) == h.N[nm])))
                out.append(('total %s' % nm, PX(m, n, n) == h.T[nm]))
            if 'w' in h.f:
                out.append(('edge', z3.Or(gone, h.t == low + h.prod(s, K, w))))
                out.append(('range', high - low == h.prod(s, n, w)))
                out.append(('wide', z3.And(w > 0, high > low)))
        q = z3.Int('q')
        for nm, m in maps:
            if nm == 'bins':
                out.append(('words', FA([q], z3.And(SEL(m, q) >= 0, SEL(m, q) < M64), pats=[SEL(m, q)])))
        out.append(('below', h.v < high))
        out.append(('above', h.v >= low))
        return out
    H = s.ghost.get('head')
    cs = []
    for k, (v, v0, wd) in L.ints.items():
        if isinstance(v, (int,)) or (is_sym(v) and z3.is_int(v)):
            cs.append((k, e.sgn(v, wd) if wd else v))
    for k, (v, v0, c) in L.pidx.items():
        cs.append((k, v))
    half = h.h
    for (k1, a), (k2, b) in itertools.permutations(cs, 2):
        out.append(('%s=2*%s' % (k2, k1), b == 2 * a))
        out.append(('%s=2*%s-n' % (k2, k1), b == 2 * a - h.n))
    for k, c in cs:
        out.append(('%s<=n/2' % (k,), c <= half))
        out.append(('%s>=n/2' % (k,), c >= half))
        out.append(('%s>=n/2-1' % (k,), c >= half - 1))
        out.append(('%s<=n' % (k,), c <= h.n))
        out.append(('%s<n' % (k,), c < h.n))
        out.append(('%s>=-2' % (k,), c >= -2))
        out.append(('%s>=-1' % (k,), c >= -1))
        out.append(('%s>=0' % (k,), c >= 0))
    q = z3.Int('q')
    if H is not None:
        n = h.n
        for nm, m in h.maps(s):
            m0 = H[nm]
            x = SEL(m, q)
            up, dn = plus(m0, SEL(m0, 2 * q), SEL(m0, 2 * q + 1)), plus(m0, SEL(m0, 2 * q - n), SEL(m0, 2 * q - n + 1))
            if nm == 'bins':
                out.append(('words', FA([q], z3.And(x >= 0, x < M64), pats=[x])))
            inr = z3.And(q >= 0, q < n)
            out.append(('%s merged up' % nm, FA([q], z3.Implies(z3.And(q >= 0, q < half), x == up), pats=[x])))
            out.append(('%s merged down' % nm, FA([q], z3.Implies(z3.And(q >= half, q < n), x == dn), pats=[x])))
            out.append(('%s all there' % nm, FA([q], z3.Implies(inr, x == SEL(m0, q)), pats=[x])))
            for k, c in cs:
                for rn, rel in (('<', q < c), ('<=', q <= c), ('>', q > c), ('>=', q >= c)):
                    for fn, cond, val in (('up', z3.And(inr, q < half), up), ('down', z3.And(inr, q >= half), dn), ('kept', inr, SEL(m0, q)),
                                          ('zero above', z3.And(inr, q >= half), z3.RealVal(0) if nm == 'val' else z3.IntVal(0)),
                                          ('zero below', z3.And(inr, q < half), z3.RealVal(0) if nm == 'val' else z3.IntVal(0))):
                        out.append(('%s q%s%s %s' % (nm, rn, k, fn), FA([q], z3.Implies(z3.And(rel, cond), x == val), pats=[x])))
    # filling new arrays
    for key in L.modset:
        o, kk = key
        if o == 'ghost' or kk[0] != 'm' or not isinstance(o, Obj) or o in (h.bins, getattr(h, 'vals', None)) or o.stride != 8 or o.count is None:
            continue
        m = s.mem.get(key)
        if m is None:
            continue
        isv = m.sort() == AR
        m0 = h.V0 if isv else h.B0
        if m0 is None or m.sort() != m0.sort():
            continue
        zero = z3.RealVal(0) if isv else z3.IntVal(0)
        for an, at in (('0', z3.IntVal(0)), ('end', o.count - h.n), ('either', z3.If(h.v < h.low, o.count - h.n, 0))):
            val = z3.If(z3.And(q >= at, q < at + h.n), SEL(m0, q - at), zero)
            for k, c in cs:
                out.append(('new %s %s at %s below %s' % (o.name, isv, an, k), FA([q], z3.Implies(z3.And(q >= 0, q < c), SEL(m, q) == val), pats=[SEL(m, q)])))
                out.append(('new %s %s at %s copied below %s' % (o.name, isv, an, k),
                            FA([q], z3.Implies(z3.And(q >= at, q < at + c), SEL(m, q) == SEL(m0, q - at)), pats=[SEL(m, q)])))
        me = L.entry.mem.get(key)
        if me is not None:
            for k, c in cs:
                for an, at in (('0', z3.IntVal(0)), ('end', o.count - h.n)):
                    out.append(('new %s %s kept outside %s from %s' % (o.name, isv, k, an),
                                FA([q], z3.Implies(z3.Or(q < at, q >= at + c), SEL(m, q) == SEL(me, q)), pats=[SEL(m, q)])))
        for k, c in cs:
            out.append(('new %s %s zero below %s' % (o.name, isv, k), FA([q], z3.Implies(z3.And(q >= 0, q < c), SEL(m, q) == zero), pats=[SEL(m, q)])))
    return out


def below_sum(h, s, nm, m, b, inc, n, K1):
    """what the prefix sums of an array say of that with inc added to entry b (true of every array)"""
    pre = z3.Store(m, b, SEL(m, b) - inc) if nm == 'val' else z3.Store(m, b, z3.If(SEL(m, b) == 0, M64 - 1, SEL(m, b) - 1))
    for k in (K1, n):
        s.assume(z3.Implies(z3.And(b >= 0, b < n, n >= 1), PX(m, n, k) == plus(m, PX(pre, n, k), z3.If(b < k, inc, 0))))
    head = s.ghost.get('head')
    q = z3.Int('q')
    for x in [x for x in ((head or {}).get(nm), h.B0 if nm == 'bins' else h.V0) if x is not None]:
        # equal arrays have equal sums
        eq = FA([q], z3.Implies(z3.And(q >= 0, q < n), SEL(pre, q) == SEL(x, q)), pats=[SEL(pre, q)])
        for k in (K1, n):
            s.assume(z3.Implies(eq, PX(pre, n, k) == PX(x, n, k)))


def t_add_scaling(cls):
    def t(ctx):
        h = Hist(ctx, cls)
        e, st = h.e, h.st
        this = h.make(scal=1)
        v = h.v = z3.Real('value')
        d = z3.Real('data') if cls == UA else v
        LIM = z3.RealVal(1 << 900)
        st.assume(z3.And(v < LIM, v > -LIM, d < LIM, d > -LIM, h.w > 0, h.high > h.low))
        t = h.t = z3.Real('edge')
        K = h.K = z3.Int('K')
        st.assume(h.high - h.low == h.prod(st, h.n, h.w))
        st.assume(t == h.low + h.prod(st, K, h.w))
        st.ghost['K'] = (K, z3.BoolVal(False))
        h.N, h.T = {}, {}
        for nm, m in h.maps(st):
            f = PV if nm == 'val' else P
            if nm == 'bins':
                j = z3.Int('j_')
                am = z3.Const('m_', AI)
                st.assume(z3.ForAll([am, j], z3.And(P(am, j) >= 0, P(am, j) < M64), patterns=[P(am, j)]))
            N, T = (z3.Real if nm == 'val' else z3.Int)('below_%s' % nm), (z3.Real if nm == 'val' else z3.Int)('total_%s' % nm)
            st.assume(z3.And(N == PX(m, h.n, K), T == PX(m, h.n, h.n)))
            h.N[nm], h.T[nm] = N, T
        h.bin_by_contract()
        h.e.invs = [lambda L: invariants(h, L)]
        res = e.run(h.fn(add_fn(cls, cls == UA)), [this, v] + ([d] if cls == UA else []), st)
        for s, _ in res:
            h.once(s, d)
            n, low, high, w = (h.get(s, k) for k in ('n', 'low', 'high', 'w'))
            K1, gone = s.ghost['K']
            b = h.increments(s, None, d)
            e.oblige(s, 'as many bins', n == h.n, 'ensures')
            e.oblige(s, 'the value is in the range', z3.And(low <= v, v < high), 'ensures')
            e.oblige(s, 'the range is that of the bins', z3.And(w > 0, high - low == h.prod(s, n, w)), 'ensures')
            kw = h.prod(s, K1, w)
            s.assume(z3.And(z3.Implies(z3.And(K1 <= 0, w > 0), kw <= 0), z3.Implies(z3.And(K1 >= n, w > 0), kw >= h.prod(s, n, w))))
            e.oblige(s, 'edges that are left are where they were', z3.Or(gone, t == low + kw), 'ensures')
            e.oblige(s, 'one rescale if the value was outside', h.get(s, 'resc') == h.resc + z3.If(z3.And(v >= h.low, v < h.high), 0, 1), 'ensures')
            if b is None:
                continue
            for nm, m in h.maps(s):
                inc = d if nm == 'val' else z3.IntVal(1)
                below_sum(h, s, nm, m, b, inc, n, K1)
                what = 'values' if nm == 'bins' else 'the sum of the values'
                e.oblige(s, '%s below every edge that is left: those from before and the new one' % what,
                         z3.Or(gone, PX(m, n, K1) == plus(m, h.N[nm], z3.If(v < t, inc, 0))), 'ensures')
                e.oblige(s, '%s in all bins: those from before and the new one' % what, PX(m, n, n) == plus(m, h.T[nm], inc), 'ensures')
        return done(h, res)
    return Task('%s::add to a scaling range' % cls, t)


TASKS += [t_add_scaling(c) for c in (U, UA)]


def t_add_growing(cls, data=False):
    def t(ctx):
        h = Hist(ctx, cls)
        e, st = h.e, h.st
        this = h.make(grow=1)
        v = h.v = z3.Real('value')
        d = z3.Real('data') if cls == UA else v
        LIM = z3.RealVal(1 << 900)
        st.assume(z3.And(v < LIM, v > -LIM, d < LIM, d > -LIM, h.w > 0, h.high > h.low, h.low > -LIM, h.high < LIM))
        st.assume(h.high - h.low == h.prod(st, h.n, h.w))
        qs = []
        for x in (v - h.low, h.high - v):
            qs.append((x, e.quot(st, x, h.w)))
        out = z3.Or(v < h.low, v >= h.high)
        need = z3.If(v < h.low, qs[1][1], qs[0][1])
        e.assert_ok = lambda g, s: z3.And(out, need >= z3.RealVal(1 << 29))
        h.bin_by_contract()
        e.invs = [lambda L: invariants(h, L)]
        res = e.run(h.fn(add_fn(cls, cls == UA)), [this, v] + ([d] if cls == UA else []), st)
        for s, _ in res:
            h.once(s, d)
            n, low, high, w = (h.get(s, k) for k in ('n', 'low', 'high', 'w'))
            b = h.increments(s, None, d)
            at = z3.If(v < h.low, n - h.n, 0)
            nw = h.prod(s, n, w)
            for x, q in qs:
                # n * width > x iff n > x / width
                s.assume(z3.Implies(h.w > 0, (h.prod(s, n, h.w) > x) == (z3.ToReal(n) > q)))
                s.assume(z3.Implies(h.w > 0, (h.prod(s, n, h.w) >= x) == (z3.ToReal(n) >= q)))
            e.oblige(s, 'the width of a bin is kept', w == h.w, 'ensures')
            e.oblige(s, 'the range is that of the bins', high - low == nw, 'ensures')
            e.oblige(s, 'the end the value is not beyond stays', z3.And(z3.Implies(v >= h.low, low == h.low), z3.Implies(v < h.high, high == h.high)), 'ensures')
            e.oblige(s, 'the value is in the range', z3.And(low <= v, v < high), 'ensures')
            e.oblige(s, 'more bins exactly for a value outside', z3.If(out, n > h.n, n == h.n), 'ensures')
            e.oblige(s, 'counted as grown if the value was outside', h.get(s, 'grows') == h.grows + z3.If(out, 1, 0), 'ensures')
            h.frame(s, ('resc',))
            if b is not None:
                for nm in ('bins', 'val') if h.V0 is not None else ('bins',):
                    p = h.get(s, nm)
                    e.oblige(s, 'room for every bin', B_int(p.obj.count) >= n, 'ensures')
                counted(h, s, dict(bins=h.B0, val=h.V0), n, b, d, at=at, n0=h.n)
        return done(h, res)
    return Task('%s::add to a growing range' % cls, t)


TASKS += [t_add_growing(c) for c in (U, UA)]


def t_add_logscaling(ctx):
    h = Hist(ctx, LG)
    e, st = h.e, h.st
    this = h.make(scal=1)
    v = h.v = z3.Real('value')
    LIM = z3.RealVal(1 << 900)
    st.assume(z3.And(v < LIM, v > 0, h.high > h.low))
    K = h.K = z3.Int('K')
    st.ghost['K'] = (K, z3.BoolVal(False))
    h.N, h.T = {}, {}
    j = z3.Int('j_')
    am = z3.Const('m_', AI)
    st.assume(z3.ForAll([am, j], z3.And(P(am, j) >= 0, P(am, j) < M64), patterns=[P(am, j)]))
    N, T = z3.Ints('below total')
    st.assume(z3.And(N == PX(h.B0, h.n, K), T == PX(h.B0, h.n, h.n)))
    h.N['bins'], h.T['bins'] = N, T
    h.K = None
    h.bin_by_contract(LG)
    e.invs = [lambda L: invariants(h, L)]
    res = e.run(h.fn(add_fn(LG, False)), [this, v], st)
    for s, _ in res:
        h.once(s, v)
        n, low, high = (h.get(s, k) for k in ('n', 'low', 'high'))
        K1, gone = s.ghost['K']
        b = h.increments(s, None, v)
        e.oblige(s, 'as many bins', n == h.n, 'ensures')
        e.oblige(s, 'the value is not above the range', v < high, 'ensures')
        e.oblige(s, 'one rescale if the value was outside', h.get(s, 'resc') == h.resc + z3.If(z3.And(v >= h.low, v < h.high), 0, 1), 'ensures')
        if b is None:
            continue
        m, inc = h.cmap(s), z3.IntVal(1)
        below_sum(h, s, 'bins', m, b, inc, n, K1)
        e.oblige(s, 'values below every edge that is left: those from before and the new one',
                 z3.Or(gone, PX(m, n, K1) == plus(m, N, z3.If(b < K1, inc, 0))), 'ensures')
        e.oblige(s, 'values in all bins: those from before and the new one', PX(m, n, n) == plus(m, T, inc), 'ensures')
    return done(h, res)


TASKS += [Task('StatsHistogramLog::add to a scaling range', t_add_logscaling)]


# ---- constructors, reset, access -----------------------------------------------------------------------
def t_ctor(cls, kind):
    """kind: fixed, scal or grow"""
    def t(ctx):
        h = Hist(ctx, cls)
        e, st = h.e, h.st
        f = h.f
        o = h.this = Obj('new', 'param', f['size'])
        nb = z3.Int('bins_in')
        low, high = z3.Reals('low_in high_in')
        LIM = z3.RealVal(1 << 900)
        st.assume(z3.And(nb >= 0, nb <= 1 << 29, low < LIM, low > -LIM, high < LIM, high > -LIM))
        uni = cls in (U, UA)
        scal, grow = z3.Int('scalable'), z3.Int('growable')
        st.assume(z3.And(scal >= 0, scal <= 1, grow >= 0, grow <= 1))
        args = [Ptr(o, 0), nb, low, high]
        flags = []
        if cls != LA:
            flags = [scal == 1, grow == 1] if uni else [scal == 1]
            args += flags
            moving = z3.Or(*flags)
        else:
            moving = z3.BoolVal(False)
        refuse = z3.Or(nb == 0, high < low, z3.And(moving, high <= low), z3.And(*flags) if uni else low <= 0)
        e.assert_ok = lambda g, s: refuse
        e.invs = [lambda L: zeroed(h, L)]
        e.contract(r'^log$', lambda g, s, fn, a: z3.Real('log'))
        st.assume(z3.Real('log') != 0)
        res = e.run(h.fn(r'^%s::%s\(' % (cls, cls)), args, st)
        for s, _ in res:
            n = h.get(s, 'n')
            e.oblige(s, 'only sound ranges', z3.Not(refuse), 'ensures')
            e.oblige(s, 'the number of bins asked for, or one more to be even', z3.And(n % 2 == 0, n >= nb, n <= nb + 1), 'ensures')
            e.oblige(s, 'the range asked for', z3.And(h.get(s, 'low') == low, h.get(s, 'high') == high), 'ensures')
            e.oblige(s, 'never rescaled', h.get(s, 'resc') == 0, 'ensures')
            if uni:
                e.oblige(s, 'never grown', h.get(s, 'grows') == 0, 'ensures')
                e.oblige(s, 'the bins fill the range', h.get(s, 'w') == e.quot(s, high - low, z3.ToReal(n)), 'ensures')
                e.oblige(s, 'may scale and grow as asked for', z3.And((h.get(s, 'scal') == 1) == (scal == 1), (h.get(s, 'grow') == 1) == (grow == 1)), 'ensures')
            q = z3.Int('q')
            for nm in ('bins', 'val') if 'val' in f else ('bins',):
                p = h.get(s, nm)
                e.oblige(s, 'room for every bin', B_int(p.obj.count) >= n, 'ensures')
                e.oblige(s, 'every bin is empty', z3.Implies(z3.And(q >= 0, q < n), SEL(h.cmap(s, nm), q) == 0), 'ensures')
        return done(h, res)
    return Task('%s constructor' % cls, t)


def zeroed(h, L):
    s, e = L.st, h.e
    out = []
    q = z3.Int('q')
    for key in L.modset:
        o, kk = key
        if o == 'ghost' or kk[0] != 'm' or not isinstance(o, Obj) or o.stride != 8:
            continue
        m = s.mem.get(key)
        if m is None:
            continue
        for k, (v, v0, wd) in L.ints.items():
            if is_sym(v) and z3.is_int(v) or isinstance(v, int):
                out.append(('%s zero below %s' % (o.name, k), FA([q], z3.Implies(z3.And(q >= 0, q < v), SEL(m, q) == 0), pats=[SEL(m, q)])))
                out.append(('%s zero from %s' % (o.name, k), FA([q], z3.Implies(z3.And(q >= v, q < B_int(o.count)), SEL(m, q) == 0), pats=[SEL(m, q)])))
                out.append(('%s zero above %s' % (o.name, k), FA([q], z3.Implies(z3.And(q > v, q < B_int(o.count)), SEL(m, q) == 0), pats=[SEL(m, q)])))
        for k, (v, v0, c) in L.pidx.items():
            out.append(('%s zero below %s' % (o.name, k), FA([q], z3.Implies(z3.And(q >= 0, q < v), SEL(m, q) == 0), pats=[SEL(m, q)])))
    return out


def t_reset(cls):
    def t(ctx):
        h = Hist(ctx, cls)
        e = h.e
        this = h.make(scal=z3.Int('scal'), grow=z3.Int('grow'))
        e.invs = [lambda L: zeroed(h, L)]
        res = e.run(h.fn(r'^%s::reset\(\)' % cls), [this], h.st)
        for s, _ in res:
            calls = h.stats(s)
            e.oblige(s, 'the statistics are reset', z3.BoolVal(len(calls) >= 1 and all(c[0] == 'reset' for c in calls)), 'ensures')
            q = z3.Int('q')
            for nm, m in h.maps(s):
                e.oblige(s, 'every bin is empty', z3.Implies(z3.And(q >= 0, q < h.n), SEL(m, q) == 0), 'ensures')
            e.oblige(s, 'never rescaled', h.get(s, 'resc') == 0, 'ensures')
            h.frame(s, ('n', 'low', 'high'))
            if 'grow' in h.f:
                e.oblige(s, 'never grown', h.get(s, 'grows') == 0, 'ensures')
                e.oblige(s, 'the bins fill the range', h.get(s, 'w') == e.quot(s, h.high - h.low, z3.ToReal(h.n)), 'ensures')
        return done(h, res)
    return Task('%s::reset' % cls, t)


def t_at(cls, pat, what):
    def t(ctx):
        h = Hist(ctx, cls)
        e = h.e
        this = h.make(scal=z3.Int('scal'), grow=z3.Int('grow'))
        i = z3.Int('index')
        h.st.assume(z3.And(i >= 0, i < 1 << 32))
        e.assert_ok = lambda g, s: i >= h.n
        res = e.run(h.fn(pat), [this, i], h.st)
        for s, r in res:
            e.oblige(s, 'only for a bin', i < h.n, 'ensures')
            e.oblige(s, 'what the bin holds', r == SEL(h.V0 if what == 'val' else h.B0, i), 'ensures')
            h.frame(s, ('n', 'low', 'high', 'resc'))
        return done(h, res)
    return Task(pat.replace('^', '').replace('\\', ''), t)


def t_mode(cls):
    def t(ctx):
        h = Hist(ctx, cls)
        e = h.e
        this = h.make(scal=z3.Int('scal'), grow=z3.Int('grow'))
        cand = []
        if cls == U:
            pass
        else:
            def off(g, s, fn, a):
                r = z3.Real(g.fresh_name('place'))
                cand.append((a[1], r))
                return r
            e.contract(r'^%s::binOffset' % LG, off)

        def inv(L):
            s, out = L.st, []
            q = z3.Int('q')
            m = h.B0
            ks = [(k, v) for k, (v, v0, wd) in L.ints.items()]
            out += [('%s up to the number of bins' % (k,), v <= h.n) for k, v in ks]
            for (k1, a), (k2, b) in itertools.permutations(ks, 2):
                out.append(('%s below %s' % (k1, k2), z3.And(a >= 0, a < b)))
                for (k3, c) in ks:
                    if k3 not in (k1, k2):
                        out.append(('%s is the most among those below %s at %s' % (k1, k2, k3), z3.And(
                            a == SEL(m, c), c >= 0, c < b, FA([q], z3.Implies(z3.And(q >= 0, q < b), SEL(m, q) <= a), pats=[SEL(m, q)]))))
                out.append(('at %s the most among those below %s' % (k1, k2), z3.And(
                    a >= 0, a < b, FA([q], z3.Implies(z3.And(q >= 0, q < b), SEL(m, q) <= SEL(m, a)), pats=[SEL(m, q)]))))
            return out
        e.invs = [inv]
        res = e.run(h.fn(r'^%s::mode\(\) const' % cls), [this], h.st)
        q = z3.Int('q')
        k = z3.Int('k')
        if cls == U:
            def terms(t, seen):
                if t.get_id() in seen:
                    return
                seen.add(t.get_id())
                if z3.is_app(t) and t.decl().eq(vc.FMUL):
                    for x, y in (t.children(), t.children()[::-1]):
                        if z3.eq(y, h.w):
                            cand.append((x, t))
                for c in t.children():
                    terms(c, seen)
            for s, r in res:
                terms(z3.simplify(r), set())
        for s, r in res:
            alts = []
            for x, p in cand:
                i = e.rint(s, x, 'floor')
                at = p if cls == LG else h.low + p
                alts.append(z3.And(r == at, x == z3.ToReal(i) + z3.RealVal('1/2'), i >= 0, i < h.n, SEL(h.B0, i) >= SEL(h.B0, q)))
            e.oblige(s, 'the middle of a bin with the most values', z3.Implies(z3.And(q >= 0, q < h.n), z3.Or(*alts)), 'ensures')
        return done(h, res)
    return Task('%s::mode' % cls, t)


TASKS += [t_ctor(c, None) for c in (U, UA, LG, LA)] + [t_reset(c) for c in (U, UA, LG, LA)] + \
    [t_at(U, r'^StatsHistogramUniform::operator\[\]', 'bins'), t_at(LG, r'^StatsHistogramLog::operator\[\]', 'bins'),
     t_at(UA, r'^StatsHistogramUniformAccum::value\(', 'val'), t_at(LA, r'^StatsHistogramLogAccum::value\(', 'val')] + [t_mode(U), t_mode(LG)]


# ---- groups --------------------------------------------------------------------------------------------
G = 'StatsHistogramGroup'
HISTS, RANGES, GLOW, GHIGH, GSIZE = 56, 104, 128, 184, 240


class Group(Hist):
    def __init__(self, ctx):
        super().__init__(ctx, G)
        e, st = self.e, self.st
        o = self.this = Obj('group', 'param', GSIZE)
        vt = e.global_obj(st, '_ZTV19StatsHistogramGroup')
        e.store(st, Ptr(o, 0), Ptr(vt, 16), PTR)
        m = self.m = z3.Int('ranges')
        st.assume(z3.And(m >= 2, m < 1 << 28))
        self.rd = Obj('range_values', 'heap', m * 8, stride=8, count=m)
        self.hd = Obj('histograms', 'heap', (m - 1) * 8, stride=8, count=m - 1)
        for off, d, n in ((RANGES, self.rd, m), (HISTS, self.hd, m - 1)):
            e.store(st, Ptr(o, off), Ptr(d, 0), PTR)
            e.store(st, Ptr(o, off + 8), Ptr(d, n * 8), PTR)
            e.store(st, Ptr(o, off + 16), Ptr(d, n * 8), PTR)
        self.R = e.getmap(st, self.rd, 0, self.dbl)
        e.opts['objects'] = [o, self.rd, self.hd]
        self.vtab = e.global_obj(st, '_ZTV%d%s' % (len(U), U))
        self.hd.tags['ptr_elem'] = self.elem
        e.opts['indirect'] = self.indirect
        for c in (U,):
            e.contract(r'^%s::(add|reset|~%s)\(' % (c, c), self.called)
        e.opts['ghost_sorts'] = dict(times=I)

    def elem(self, eng, st, ob, i, c):
        x = Obj('histogram_of_group', 'stack', 128)
        x.tags['index'] = i
        vt = Obj('vtable_of_histogram', 'param', 1 << 10)
        vt.tags['default'] = lambda g, s, off, ty: Ptr(vt, off)
        x.tags['default'] = lambda g, s, off, ty: Ptr(vt, 0)
        return Ptr(x, 0)

    def indirect(self, eng, st, f):
        v = eng.load(st, Ptr(self.vtab, 16 + f.off), PTR)
        return v.fn if isinstance(v, Fn) else None

    def called(self, eng, st, fn, a):
        what = re.search(r'::(~?\w+)\(', fn.dname).group(1)
        x = a[0].obj
        if 'index' not in x.tags:
            raise Unsupported('call on %r' % x)
        i = x.tags['index']
        if what == 'add':
            st.ghost['added'] = st.ghost.get('added', ()) + ((i,) + tuple(a[1:]),)
        else:
            T = eng.getghost(st, self.hd, 'times')
            eng.setghost(st, self.hd, 'times', z3.Store(T, i, SEL(T, i) + 1))


def t_group_add(two):
    def t(ctx):
        h = Group(ctx)
        e, st = h.e, h.st
        v = z3.Real('value')
        d = z3.Real('data') if two else v
        i = z3.Int('i')

        def inv(L):
            out = []
            q = z3.Int('q')
            for k, (x, x0, wd) in L.ints.items():
                for rn, rel in (('below', q < x), ('up to', q <= x)):
                    out.append(('not before any range end %s %s' % (rn, k), FA([q], z3.Implies(z3.And(q >= 0, rel, q < h.m), v >= SEL(h.R, q)), pats=[SEL(h.R, q)])))
                out.append(('%s at least 1' % (k,), x >= 1))
                out.append(('%s at most the ranges' % (k,), x <= h.m))
            for k, (x, x0, c) in L.pidx.items():
                for rn, rel in (('below', q < x), ('up to', q <= x)):
                    out.append(('not before any range end %s %s' % (rn, k), FA([q], z3.Implies(z3.And(q >= 0, rel, q < h.m), v >= SEL(h.R, q)), pats=[SEL(h.R, q)])))
                out.append(('%s at most the ranges' % (k,), x <= h.m))
            return out
        e.invs = [inv]
        q = z3.Int('r_')
        res = e.run(h.fn(add_fn(G, two)), [Ptr(h.this, 0), v] + ([d] if two else []), st)
        for s, _ in res:
            calls, added = h.stats(s), s.ghost.get('added', ())
            own = [c for c in calls if isinstance(c[1], Ptr) and c[1].off == 0]
            low = [c for c in calls if isinstance(c[1], Ptr) and c[1].off == GLOW]
            high = [c for c in calls if isinstance(c[1], Ptr) and c[1].off == GHIGH]
            e.oblige(s, 'all values together: the value once', z3.And(z3.BoolVal(len(own) == 1 and own[0][0] == 'add' and len(calls) == len(own) + len(low) + len(high)),
                                                                     own[0][2] == d if own else z3.BoolVal(False)), 'ensures')
            e.oblige(s, 'the value goes to one place', z3.BoolVal(len(low) + len(high) + len(added) == 1), 'ensures')
            for c in low:
                e.oblige(s, 'low: values before the first range', z3.And(v < SEL(h.R, 0), c[2] == d), 'ensures')
            for c in high:
                e.oblige(s, 'high: values beyond the last range', z3.And(v >= SEL(h.R, 0), z3.Implies(z3.And(i >= 0, i < h.m), v >= SEL(h.R, i)), c[2] == d), 'ensures')
            for c in added:
                x = c[0]
                e.oblige(s, 'the histogram of the first range whose end is beyond the value', z3.And(
                    x >= 0, x < h.m - 1, v < SEL(h.R, x + 1), z3.Implies(z3.And(i >= 0, i <= x), v >= SEL(h.R, i))), 'ensures')
                e.oblige(s, 'as it was given', z3.And(c[1] == v, *([c[2] == d] if len(c) > 2 else [z3.BoolVal(not two)])), 'ensures')
        return done(h, res)
    return Task('%s::add(%s)' % (G, 'index, data' if two else 'value'), t)


def t_group_reset(ctx):
    h = Group(ctx)
    e, st = h.e, h.st
    T0 = e.getghost(st, h.hd, 'times')

    def inv(L):
        T = e.getghost(L.st, h.hd, 'times')
        q = z3.Int('q')
        out = []
        for k, x in [(k, x) for k, (x, x0, wd) in L.ints.items()] + [(k, x) for k, (x, x0, c) in L.pidx.items()]:
            for rn, rel in (('below', q < x), ('up to', q <= x)):
                out.append(('reset once %s %s' % (rn, k), FA([q], z3.Implies(q >= 0, SEL(T, q) == SEL(T0, q) + z3.If(rel, 1, 0)), pats=[SEL(T, q)])))
            out.append(('%s at most all' % (k,), x <= h.m - 1))
        return out
    e.invs = [inv]
    res = e.run(h.fn(r'^%s::reset\(\)' % G), [Ptr(h.this, 0)], st)
    q = z3.Int('q')
    for s, _ in res:
        calls = h.stats(s)
        e.oblige(s, 'the statistics of all values, the low and the high ones are reset',
                 z3.BoolVal(all(c[0] == 'reset' for c in calls) and {c[1].off for c in calls} == {0, GLOW, GHIGH}), 'ensures')
        e.oblige(s, 'every histogram is reset once', z3.Implies(z3.And(q >= 0, q < h.m - 1), SEL(e.getghost(s, h.hd, 'times'), q) == SEL(T0, q) + 1), 'ensures')
    return done(h, res)


TASKS += [t_group_add(False), t_group_add(True), Task('%s::reset' % G, t_group_reset)]


def t_log_samplebin(ctx):
    h = Hist(ctx, LG, ufp=False)
    e, st = h.e, h.st
    this = h.make()
    v, lg = z3.Reals('value log_of_quotient')
    st.assume(z3.And(v < BIG, v > 0, h.w > 0))
    args = []

    def log(g, s, fn, a):
        args.append(a[0])
        # the logarithm: its sign
        s.assume(z3.Implies(a[0] >= 1, lg >= 0))
        return lg
    e.contract(r'^log$', log)
    # a value from the low end on is at least once the low end
    st.assume(z3.Implies(v >= h.low, v / h.low >= 1))
    res = e.run(h.fn(r'^%s::sampleBin' % LG), [this, v], st)
    for s, b in res:
        e.oblige(s, 'a bin of the histogram', z3.And(b >= 0, b < h.n), 'ensures')
        e.oblige(s, 'the first bin for values up to the low end', z3.Implies(v <= h.low, b == 0), 'ensures')
        if args:
            e.oblige(s, 'the logarithm of the quotient of the value and the low end', z3.And(*[z3.simplify(x) == v / h.low for x in args]), 'ensures')
        d, b = h.w * lg, B_int(b)
        e.oblige(s, 'the whole part of the scaled logarithm, at most the last bin', z3.Implies(v > h.low, z3.And(
            z3.Implies(d >= z3.ToReal(h.n), b == h.n - 1), z3.Implies(d < z3.ToReal(h.n), z3.And(z3.ToReal(b) <= d, d < z3.ToReal(b) + 1)))), 'ensures')
    return done(h, res)


TASKS += [Task('StatsHistogramLog::sampleBin', t_log_samplebin)]

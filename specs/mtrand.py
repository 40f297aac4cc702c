"""Contracts of the random number generators: MT19937 word by word, numbers derived from the words, shuffling,
Marsaglia's generators.  Bit-vectors; the fixed arrays of state words are handled word by word: their loops
have constant trip counts and are run through completely."""
import re
import z3
import vc
from vc import *
from lib import *
from runner import Task

DRIVERS = {'mtrand': ['drivers/mtrand.cpp']}
N, M = 624, 397
MT, MTI, SIZE = 4, 4 + 4 * N, 8 + 4 * N
SHIFT, STATE, FULL = 2504, 2512, 2520
I = r'^lintel::MersenneTwisterInternal::'
R = r'^lintel::RandomTempl<lintel::MersenneTwisterInternal>::'
B32, B64 = z3.BitVecSort(32), z3.BitVecSort(64)
L = z3.LShR


def b32(v):
    return z3.BitVecVal(v, 32)


def bv(x, w=32):
    return x if z3.is_bv(x) else z3.BitVecVal(x, w)


class Rnd:
    def __init__(self, ctx, mode='bv', **opts):
        self.mod = ctx['mods']['mtrand']
        o = dict(unroll=5000, max_steps=10 ** 7, max_paths=20000)
        o.update(opts)
        e = self.e = Engine(self.mod, mode, o)
        std_contracts(e)
        self.st = State()
        self.defs, self.names = {}, {}
        if mode == 'bv':
            e.opts['name_phi'] = lambda g, s, v, ty: self.name_word(g, s, 0, v, ty)

    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(pat, f.dname) and not f.decl]
        if len(fs) < 1:
            raise Unsupported('no function %s' % pat)
        return fs[0]

    def name_word(self, eng, st, off, v, ty):
        """every word stored is given a name, so that its definition stays small"""
        if ty.k != 'int' or not is_sym(v) or z3.is_bool(v):
            return v
        u = z3.simplify(v)
        if u.num_args() == 0:
            return u
        v = v if v.get_id() in self.names else u
        if v.get_id() not in self.names:
            x = z3.BitVec(eng.fresh_name('word'), ty.w)
            self.defs[x.get_id()] = (x, v)
            self.names[v.get_id()] = (x, v)
        return self.names[v.get_id()][0]

    def expand(self, v, stop):
        """the definition of a word in terms of the words to stop at"""
        def names(t, seen, out):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if t.get_id() in self.defs and t.get_id() not in stop:
                out.append(t)
                return
            for c in t.children():
                names(c, seen, out)
        for _ in range(12):
            out = []
            names(v, set(), out)
            if not out:
                break
            v = z3.substitute(v, *[self.defs[t.get_id()] for t in out])
        return v

    def words(self, o, mtwist=True):
        o.tags['on_store'] = self.name_word
        ws = [z3.BitVec('old%d' % k, 32) for k in range(N)]
        for k in range(N):
            self.st.mem[(o, ('c', MT + 4 * k))] = (I32, ws[k])
        return ws

    def cell(self, s, o, off, ty=I32):
        return bv(self.e.load(s, Ptr(o, off), ty), ty.w)

    def alone(self, s, label, goal):
        """decided by itself, without what is known on the path"""
        pc, s.pc = s.pc, []
        self.e.oblige(s, label, goal, 'ensures')
        s.pc = pc

    def check_words(self, s, o, label, spec):
        cur = [self.cell(s, o, MT + 4 * k) for k in range(N)]
        stop = {c.get_id() for c in cur if z3.is_bv(c)}
        def defn(k):
            c = cur[k]
            d = self.defs.get(c.get_id())
            return self.expand(d[1], stop) if d else c
        for k in range(N):
            self.alone(s, label, defn(k) == spec(k, cur))


def done(e, res):
    e.returns = len(res)
    return e


def index_is(h, s, o, n, label):
    h.e.oblige(s, label, h.cell(s, o, MTI) == n, 'ensures')


# ---- MT19937 ----------------------------------------------------------------------------------------
def seeded(k, cur, seed):
    return seed if k == 0 else b32(1812433253) * (cur[k - 1] ^ L(cur[k - 1], 30)) + b32(k)


def t_init(ctx):
    h = Rnd(ctx)
    o = Obj('generator', 'param', SIZE)
    h.words(o)
    h.st.mem[(o, ('c', MTI))] = (I32, z3.BitVec('oldindex', 32))
    seed = z3.BitVec('seed', 32)
    res = h.e.run(h.fn(I + r'init\(unsigned int\)'), [Ptr(o, 0), seed], h.st)
    for s, _ in res:
        h.check_words(s, o, 'every word of the state is the MT19937 word for the seed', lambda k, cur: seeded(k, cur, seed))
        index_is(h, s, o, N, 'all words are to be renewed before the first number')
        h.e.oblige(s, 'the seed used is recorded', h.expand(h.cell(s, o, 0), set()) == seed, 'ensures')
    return done(h.e, res)


def twist(u, l):
    y = (u & b32(0x80000000)) | (l & b32(0x7fffffff))
    return L(y, 1) ^ z3.If(z3.Extract(0, 0, y) == 1, b32(0x9908b0df), b32(0))


def t_reload(ctx):
    h = Rnd(ctx)
    o = Obj('generator', 'param', SIZE)
    old = h.words(o)
    h.st.mem[(o, ('c', MTI))] = (I32, N)
    h.st.mem[(o, ('c', 0))] = (I32, z3.BitVec('seed_used', 32))
    res = h.e.run(h.fn(I + r'reloadArray\(\)'), [Ptr(o, 0)], h.st)

    def spec(k, cur):
        far = old[k + M] if k + M < N else cur[k + M - N]
        return far ^ twist(old[k], old[k + 1] if k + 1 < N else cur[0])
    for s, _ in res:
        h.check_words(s, o, 'every word of the state is the next MT19937 word', spec)
        index_is(h, s, o, 0, 'the numbers start with the first word')
        h.e.oblige(s, 'the seed used stays recorded', h.cell(s, o, 0) == z3.BitVec('seed_used', 32), 'frame')
    return done(h.e, res)


def temper(y):
    y = y ^ L(y, 11)
    y = y ^ ((y << 7) & b32(0x9d2c5680))
    y = y ^ ((y << 15) & b32(0xefc60000))
    return y ^ L(y, 18)


def t_randint(ctx):
    h = Rnd(ctx)
    e, st = h.e, h.st
    o = Obj('generator', 'param', SIZE)
    w = Obj('words', 'param', 4 * N, stride=4, count=N)
    o.tags['regions'] = [(MT, MT + 4 * N, w)]
    A = e.getmap(st, w, 0, I32)
    i = z3.BitVec('index', 32)
    st.assume(z3.ULE(i, N))
    e.store(st, Ptr(o, MTI), i, I32)
    e.store(st, Ptr(o, 0), z3.BitVec('seed_used', 32), I32)
    A2 = z3.Const('renewed', A.sort())

    def reload(g, s, fn, a):
        g.oblige(s, 'the words are renewed only when all are used', h.cell(s, o, MTI) == N, 'requires')
        g.oblige(s, 'the words are renewed once', z3.BoolVal('renewed' not in s.ghost), 'requires')
        s.ghost['renewed'] = True
        g.setmap(s, w, 0, I32, A2)
        g.store(s, Ptr(o, MTI), 0, I32)
    e.contract(I + r'reloadArray\(\)', reload)
    res = e.run(h.fn(I + r'randInt\(\)'), [Ptr(o, 0)], st)
    for s, r in res:
        new = 'renewed' in s.ghost
        e.oblige(s, 'the words are renewed exactly when all are used', z3.BoolVal(new) == (i == N), 'ensures')
        k = b32(0) if new else i
        word = z3.Select(A2 if new else A, z3.ZeroExt(32, k))
        e.oblige(s, 'the number is the next word, tempered', bv(r) == temper(word), 'ensures')
        e.oblige(s, 'the index moves on by one', h.cell(s, o, MTI) == k + 1, 'ensures')
        q = z3.BitVec('q', 64)
        e.oblige(s, 'the words stay', z3.Select(e.getmap(s, w, 0, I32), q) == z3.Select(A2 if new else A, q), 'frame')
    return done(e, res)


def vector_of(h, seeds, v):
    """a vector of so many seeds, by contract"""
    e, n = h.e, len(seeds)
    data = Obj('seeds', 'param', 4 * n)
    data.const = True
    for k, x in enumerate(seeds):
        h.st.mem[(data, ('c', 4 * k))] = (I32, x)
    V = r'^std::vector<unsigned int, .*>::'

    def at(g, s, fn, a):
        i = a[1]
        if is_sym(i):
            raise Unsupported('symbolic index into the seeds')
        g.oblige(s, 'a seed that is there', z3.BoolVal(0 <= i < n), 'bounds')
        if not 0 <= i < n:
            raise PathEnd()
        return Ptr(data, 4 * i)

    def copy(g, s, fn, a):
        s.ghost[('copy', a[0].obj)] = True
    e.contract(V + r'size\(\) const$', lambda g, s, fn, a: n)
    e.contract(V + r'empty\(\) const$', lambda g, s, fn, a: n == 0)
    e.contract(V + r'(operator\[\]|at)\(unsigned long\)( const)?$', at)
    e.contract(V + r'vector\(std::vector<', copy)
    e.contract(V + r'~vector\(\)', h_nop)
    return data


def t_array(n):
    def t(ctx):
        h = Rnd(ctx)
        e = h.e
        o = Obj('generator', 'param', SIZE)
        h.words(o)
        seeds = [z3.BitVec('seed%d' % k, 32) for k in range(n)]
        v = Obj('seed_array', 'param', 24)
        vector_of(h, seeds, v)
        base = [z3.BitVec('base%d' % k, 32) for k in range(N)]
        h.st.mem[(o, ('c', MTI))] = (I32, z3.BitVec('oldindex', 32))

        def init(g, s, fn, a):
            g.oblige(s, 'the state starts as that for seed 19650218', bv(a[1]) == 19650218, 'requires')
            for k in range(N):
                s.mem[(o, ('c', MT + 4 * k))] = (I32, base[k])
            s.mem[(o, ('c', MTI))] = (I32, N)
        e.contract(I + r'init\(unsigned int\)', init)
        res = e.run(h.fn(I + r'initArray\('), [Ptr(o, 0), Ptr(v, 0)], h.st)

        # the published initialisation, run on the same words
        mt = list(base)
        i, j = 1, 0
        for k in range(max(N, n)):
            mt[i] = name(h, z3.BitVec('first%d' % k, 32), (mt[i] ^ ((mt[i - 1] ^ L(mt[i - 1], 30)) * b32(1664525))) + seeds[j] + b32(j))
            i, j = i + 1, (j + 1) % n
            if i >= N:
                mt[0], i = mt[N - 1], 1
        for k in range(N - 1):
            mt[i] = name(h, z3.BitVec('second%d' % k, 32), (mt[i] ^ ((mt[i - 1] ^ L(mt[i - 1], 30)) * b32(1566083941))) - b32(i))
            i += 1
            if i >= N:
                mt[0], i = mt[N - 1], 1
        mt[0] = b32(0x80000000)
        for s, _ in res:
            can = classes(h, s)
            for k in range(N):
                h.alone(s, 'every word of the state is the MT19937 word for the seeds', can(h.cell(s, o, MT + 4 * k)) == can(mt[k]))
            index_is(h, s, o, N, 'all words are to be renewed before the first number')
        return done(e, res)
    return Task('MersenneTwisterInternal::initArray of %d seeds' % n, t)


def name(h, x, v):
    h.defs[x.get_id()] = (x, v)
    return x


def classes(h, s):
    """one name for all words that are equal.  The words are taken in the order in which they were written; two
    words defined from the same words are compared by the solver, and an obligation records what was found."""
    canon, table = {}, {}
    for k, (x, d) in list(h.defs.items()):
        sub = [(y, canon[y.get_id()]) for y in named(h, d)]
        v = z3.simplify(z3.substitute(d, *sub) if sub else d)
        vs = leaves(v)
        if not vs or v.num_args() == 0:
            canon[k] = v
            continue
        row = table.setdefault(frozenset(y.get_id() for y in vs), [])
        for u, c in row:
            if not u.eq(v):
                f = z3.Solver()
                f.set('rlimit', 20000000)
                f.add(u != v)
                if f.check() != z3.unsat:
                    continue
                h.alone(s, 'the word written is the word of MT19937', u == v)
            canon[k] = c
            break
        else:
            c = z3.BitVec(h.e.fresh_name('class'), v.size())
            row.append((v, c))
            canon[k] = c
    return lambda t: canon.get(bv(t).get_id(), bv(t))


def named(h, d):
    out, seen, w = [], set(), [d]
    while w:
        t = w.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.get_id() in h.defs:
            out.append(t)
        else:
            w.extend(t.children())
    return out


def leaves(v):
    out, seen, w = [], set(), [v]
    while w:
        t = w.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.num_args() == 0 and not z3.is_bv_value(t):
            out.append(t)
        w.extend(t.children())
    return out


TASKS = [Task('MersenneTwisterInternal::init', t_init), Task('MersenneTwisterInternal::reloadArray', t_reload), Task('MersenneTwisterInternal::randInt', t_randint)]
TASKS += [t_array(n) for n in (1, 2, 3, 622, 623, 624, 625, 1300)]


# ---- numbers derived from the words --------------------------------------------------------------------
F32 = 0xffffffff


class Derived(Rnd):
    def __init__(self, ctx, mode='bv', **opts):
        Rnd.__init__(self, ctx, mode, **opts)
        e, st = self.e, self.st
        self.o = Obj('generator', 'param', FULL)
        st.ghost['draws'] = ()
        self.shift = self.state = None
        if mode == 'bv':
            self.shift, self.state = z3.BitVec('bits_left', 8), z3.BitVec('bits', 64)
            st.assume(z3.ULE(self.shift, 64))
            st.mem[(self.o, ('c', SHIFT))] = (I8, self.shift)
            st.mem[(self.o, ('c', STATE))] = (I64, self.state)
        e.contract(r'(RandomTempl<lintel::MersenneTwisterInternal>|MersenneTwisterInternal)::randInt\(\)$', self.draw)

    def draw(self, g, s, fn, a):
        g.oblige(s, 'the words come from this generator', z3.BoolVal(a[0].obj is self.o), 'requires')
        if g.mode == 'bv':
            x = z3.BitVec(g.fresh_name('draw'), 32)
        else:
            x = z3.Int(g.fresh_name('draw'))
            s.assume(z3.And(x >= 0, x < 1 << 32))
        s.ghost['draws'] += (x,)
        return x

    def pending(self, s):
        return self.cell(s, self.o, SHIFT, I8), self.cell(s, self.o, STATE, I64)

    def untouched(self, s):
        n, b = self.pending(s)
        self.e.oblige(s, 'the bits kept for randBoolFast stay', z3.And(n == self.shift, b == self.state), 'frame')

    def count(self, s, n):
        ok = len(s.ghost['draws']) == n
        self.e.oblige(s, 'so many words are used', z3.BoolVal(ok), 'ensures')
        return s.ghost['draws'] if ok else None


def t_range(ctx):
    h = Derived(ctx)
    m = z3.BitVec('max', 32)
    h.st.assume(m != 0)
    res = h.e.run(h.fn(R + r'randInt\(unsigned int\)$'), [Ptr(h.o, 0), m], h.st)
    for s, r in res:
        d = h.count(s, 1)
        if d:
            h.e.oblige(s, 'the remainder of the next word', bv(r) == z3.URem(d[0], m), 'ensures')
            h.e.oblige(s, 'below the bound', z3.ULT(bv(r), m), 'ensures')
        h.untouched(s)
    return done(h.e, res)


def t_unbiased(ctx):
    h = Derived(ctx, unroll=0)
    e, st = h.e, h.st
    m = z3.BitVec('max', 32)
    st.assume(m != 0)
    G = Obj('last_word', 'param', 8)
    e.store(st, Ptr(G, 0), b32(F32), I32)
    whole = z3.UDiv(b32(F32), m) * m      # so many words make whole rounds of the results
    # of division: the quotient times the divisor is the largest multiple that is not larger
    st.assume(whole == b32(F32) - z3.URem(b32(F32), m))
    st.assume(z3.ULE(whole, b32(F32)))
    st.assume(z3.ULT(b32(F32) - whole, m))

    def draw(g, s, fn, a):
        g.oblige(s, 'a word is refused only if it belongs to no whole round', z3.UGE(bv(g.load(s, Ptr(G, 0), I32)), whole), 'ensures')
        x = h.draw(g, s, fn, a)
        g.store(s, Ptr(G, 0), x, I32)
        return x
    e.contract(r'(RandomTempl<lintel::MersenneTwisterInternal>|MersenneTwisterInternal)::randInt\(\)$', draw)
    e.invs = [lambda q: [('refused', z3.UGE(bv(e.load(q.st, Ptr(G, 0), I32)), whole))]]
    res = e.run(h.fn(R + r'randIntUnbiased\(unsigned int\)$'), [Ptr(h.o, 0), m], st)
    for s, r in res:
        x = bv(e.load(s, Ptr(G, 0), I32))
        s.assume(z3.URem(x, m) == x - z3.UDiv(x, m) * m)       # of division
        e.oblige(s, 'the remainder of the word taken', bv(r) == z3.URem(x, m), 'ensures')
        e.oblige(s, 'only words of whole rounds are taken, so that all results are equally likely', z3.ULT(x, whole), 'ensures')
    return done(e, res)


def t_longlong(ctx):
    h = Derived(ctx)
    res = h.e.run(h.fn(R + r'randLongLong\(\)$'), [Ptr(h.o, 0)], h.st)
    for s, r in res:
        d = h.count(s, 2)
        if d:
            h.e.oblige(s, 'the first word above the second', bv(r, 64) == z3.Concat(d[0], d[1]), 'ensures')
        h.untouched(s)
    return done(h.e, res)


def t_bool(ctx):
    h = Derived(ctx)
    res = h.e.run(h.fn(R + r'randBool\(\)$'), [Ptr(h.o, 0)], h.st)
    for s, r in res:
        d = h.count(s, 1)
        if d:
            h.e.oblige(s, 'the last bit of the next word', tb(r) == (z3.Extract(0, 0, d[0]) == 1), 'ensures')
        h.untouched(s)
    return done(h.e, res)


def tb(r):
    return r if z3.is_bool(r) else z3.BoolVal(bool(r)) if isinstance(r, (bool, int)) else r != 0


def t_boolfast(ctx):
    h = Derived(ctx)
    e = h.e
    res = e.run(h.fn(R + r'randBoolFast\(\)$'), [Ptr(h.o, 0)], h.st)
    for s, r in res:
        d = s.ghost['draws']
        e.oblige(s, 'words are used only when no bits are left', z3.Implies(h.shift != 0, z3.BoolVal(len(d) == 0)), 'ensures')
        e.oblige(s, 'two words are used when no bits are left', z3.Implies(h.shift == 0, z3.BoolVal(len(d) == 2)), 'ensures')
        n, b = h.pending(s)
        bits = z3.If(h.shift == 0, z3.Concat(d[0], d[1]), h.state) if len(d) == 2 else h.state
        left = z3.If(h.shift == 0, z3.BitVecVal(64, 8), h.shift)
        e.oblige(s, 'the next bit', tb(r) == (z3.Extract(0, 0, bits) == 1), 'ensures')
        e.oblige(s, 'one bit less is left', n == left - 1, 'ensures')
        mask = L(z3.BitVecVal(-1, 64), z3.ZeroExt(56, 64 - n))
        e.oblige(s, 'the other bits are left in their order', z3.Implies(n != 0, (b & mask) == (L(bits, 1) & mask)), 'ensures')
    return done(e, res)


def t_double(name, exact, words, one):
    def t(ctx):
        h = Derived(ctx, 'int', fp='real', rnd=True)
        e = h.e
        res = e.run(h.fn(R + name + r'\(\)$'), [Ptr(h.o, 0)], h.st)
        for s, r in res:
            d = h.count(s, words)
            if not d:
                continue
            if words == 1:
                x, top = d[0], F32
            else:
                qa, qb = z3.Int('qa'), z3.Int('qb')
                s.assume(z3.And(32 * qa <= d[0], d[0] < 32 * qa + 32, 64 * qb <= d[1], d[1] < 64 * qb + 64))
                x, top = qa * (1 << 26) + qb, (1 << 53) - 1
            x = z3.ToReal(x)
            if exact:
                e.oblige(s, 'the number, exactly', r * z3.RealVal(top + 1) == x, 'ensures')
                e.oblige(s, 'at least 0 and below 1', z3.And(r >= 0, r < 1), 'ensures')
            else:
                e.oblige(s, 'at least 0 and at most 1', z3.And(r >= 0, r <= 1), 'ensures')
                e.oblige(s, '0 for the smallest words only', (r == 0) == (x == 0), 'ensures')
                eps = z3.RealVal(1) / z3.RealVal(1 << 51)
                v = x * (z3.RealVal(1) / z3.RealVal(top))
                e.oblige(s, 'the number, up to rounding', z3.And(r - v <= v * eps, v - r <= v * eps), 'ensures')
        return done(e, res)
    return Task('RandomTempl::%s' % name, t)


def t_seed(pat, name, kind):
    """construction and seeding: the whole state is determined by the seed"""
    def t(ctx):
        h = Derived(ctx)
        e, st = h.e, h.st
        fresh = 'constructor' in name
        if fresh:
            del st.mem[(h.o, ('c', SHIFT))]
            del st.mem[(h.o, ('c', STATE))]
            h.o.kind = 'param'
        seed = z3.BitVec('seed', 32)
        v = Obj('seed_array', 'param', 24)
        vector_of(h, [z3.BitVec('seed0', 32)], v)
        calls = []

        def base(g, s, fn, a):
            same = a[1].obj is v or s.ghost.get(('copy', a[1].obj), False) if kind == 'array' else bv(a[1]) == seed
            g.oblige(s, 'the seed is passed on', same if not isinstance(same, bool) else z3.BoolVal(same), 'requires')
            g.oblige(s, 'the generator is seeded', z3.BoolVal(a[0].obj is h.o), 'requires')
            s.ghost['seeded'] = s.ghost.get('seeded', 0) + 1
        for p in (r'init\(unsigned int\)', r'initArray\(', r'MersenneTwisterInternal\('):
            e.contract(I + p, base)
        res = e.run(h.fn(R + pat), [Ptr(h.o, 0), Ptr(v, 0) if kind == 'array' else seed], st)
        for s, _ in res:
            e.oblige(s, 'seeded once', z3.BoolVal(s.ghost.get('seeded', 0) == 1), 'ensures')
            n = e.load(s, Ptr(h.o, SHIFT), I8)
            e.oblige(s, 'no bits are left from before', z3.BoolVal(False) if n is UNDEF else bv(n, 8) == 0, 'ensures')
        return done(e, res)
    return Task(name, t)


def t_mt_ctor(ctx):
    h = Rnd(ctx)
    e, st = h.e, h.st
    o = Obj('generator', 'param', SIZE)
    seed = z3.BitVec('seed', 32)

    def init(g, s, fn, a):
        g.oblige(s, 'seeded with the seed given unless it is 0', z3.And(z3.BoolVal(a[0].obj is o), z3.Implies(seed != 0, bv(a[1]) == seed)), 'requires')
        s.ghost['n'] = s.ghost.get('n', 0) + 1
    e.contract(I + r'init\(unsigned int\)', init)

    def now(g, s, fn, a):
        g.store(s, a[0], z3.BitVec(g.fresh_name('sec'), 64), I64)
        g.store(s, g.ptr_add(a[0], 8), z3.BitVec(g.fresh_name('usec'), 64), I64)
        return 0
    e.contract(r'^gettimeofday$', now)
    e.contract(r'^getp?pid$', lambda g, s, fn, a: z3.BitVec(g.fresh_name('pid'), 32))
    res = e.run(h.fn(I + r'MersenneTwisterInternal\(unsigned int\)'), [Ptr(o, 0), seed], st)
    for s, _ in res:
        e.oblige(s, 'seeded once', z3.BoolVal(s.ghost.get('n', 0) == 1), 'ensures')
    return done(e, res)


def t_mt_actor(ctx):
    h = Rnd(ctx)
    e, st = h.e, h.st
    o, v = Obj('generator', 'param', SIZE), Obj('seed_array', 'param', 24)
    vector_of(h, [z3.BitVec('seed0', 32)], v)

    def init(g, s, fn, a):
        g.oblige(s, 'seeded with the seeds given', z3.BoolVal(a[0].obj is o and (a[1].obj is v or s.ghost.get(('copy', a[1].obj), False))), 'requires')
        s.ghost['n'] = s.ghost.get('n', 0) + 1
    e.contract(I + r'initArray\(', init)
    res = e.run(h.fn(I + r'MersenneTwisterInternal\(std::vector'), [Ptr(o, 0), Ptr(v, 0)], st)
    for s, _ in res:
        e.oblige(s, 'seeded once', z3.BoolVal(s.ghost.get('n', 0) == 1), 'ensures')
    return done(e, res)


TASKS += [Task('RandomTempl::randInt(max)', t_range), Task('RandomTempl::randIntUnbiased', t_unbiased), Task('RandomTempl::randLongLong', t_longlong),
          Task('RandomTempl::randBool', t_bool), Task('RandomTempl::randBoolFast', t_boolfast)]
TASKS += [t_double('randDoubleOpen', True, 1, 0), t_double('randDouble', True, 1, 0), t_double('randDoubleClosed', False, 1, 1),
          t_double('randDoubleOpen53', True, 2, 0), t_double('randDoubleClosed53', False, 2, 1)]


def t_largest(name, words):
    def t(ctx):
        h = Derived(ctx, 'int', fp='real', rnd=True)
        e = h.e
        e.contract(r'(RandomTempl<lintel::MersenneTwisterInternal>|MersenneTwisterInternal)::randInt\(\)$', lambda g, s, fn, a: F32)
        res = e.run(h.fn(R + name + r'\(\)$'), [Ptr(h.o, 0)], h.st)
        for s, r in res:
            e.oblige(s, '1 for the largest words', r == 1, 'ensures')
        return done(e, res)
    return Task('RandomTempl::%s of the largest words' % name, t)


TASKS += [t_largest('randDoubleClosed', 1), t_largest('randDoubleClosed53', 2)]
TASKS += [t_seed(r'init\(', 'RandomTempl::init', 'seed'), t_seed(r'initArray\(', 'RandomTempl::initArray', 'array'),
          t_seed(r'RandomTempl\(unsigned int\)', 'RandomTempl constructor (seed)', 'seed'), t_seed(r'RandomTempl\(std::vector', 'RandomTempl constructor (seeds)', 'array'),
          Task('MersenneTwisterInternal constructor (seed)', t_mt_ctor), Task('MersenneTwisterInternal constructor (seeds)', t_mt_actor)]


# ---- Marsaglia's generators -----------------------------------------------------------------------------
B = F32       # 2^32 - 1


def mwc(size, a):
    C, IX = 4 * size, 4 * size + 4
    P = r'^lintel::MarsagliaInner<%d, %dul>::' % (size, a)

    def t_next(ctx):
        h = Rnd(ctx, 'int')
        e, st = h.e, h.st
        o, w = Obj('generator', 'param', 4 * size + 8), Obj('words', 'param', 4 * size, stride=4, count=size)
        o.tags['regions'] = [(0, 4 * size, w)]
        A = e.getmap(st, w, 0, I32)
        c, i, j = z3.Int('carry'), z3.Int('index'), z3.Int('j')
        st.assume(z3.And(c >= 0, c <= a, i >= 0, i < size))
        e.store(st, Ptr(o, C), c, I32)
        e.store(st, Ptr(o, IX), i, I32)
        st.assume(z3.ForAll([j], z3.And(z3.Select(A, j) >= 0, z3.Select(A, j) <= B), patterns=[z3.Select(A, j)]))
        res = e.run(h.fn(P + r'randInt\(\)'), [Ptr(o, 0)], st)
        for s, r in res:
            n = z3.If(i == size - 1, 0, i + 1)
            c2, A2 = e.load(s, Ptr(o, C), I32), e.getmap(s, w, 0, I32)
            x, rest = z3.Select(A, n), z3.Int('rest')
            s.assume(rest == a * x + c - c2 * B)
            e.oblige(s, 'the next word in turn', e.load(s, Ptr(o, IX), I32) == n, 'ensures')
            e.oblige(s, 'the carry and the number make up the product: a x + c = c\' (2^32-1) + rest', z3.And(rest >= 0, rest <= B), 'ensures')
            e.oblige(s, 'the number is the complement of the rest', r == z3.If(rest == B, B, B - 1 - rest), 'ensures')
            e.oblige(s, 'the number is kept as the newest word, the others stay', z3.Select(A2, j) == z3.If(j == n, r, z3.Select(A, j)), 'ensures')
            e.oblige(s, 'the carry stays within the multiplier', z3.And(c2 >= 0, c2 <= a), 'invariant')
        return done(e, res)

    def t_start(ctx):
        h = Rnd(ctx)
        e, st = h.e, h.st
        o = Obj('generator', 'param', 4 * size + 8)
        seed = z3.BitVec('seed', 32)
        st.ghost['draws'], st.ghost['seeded'] = (), None

        def ctor(g, s, fn, p):
            g.oblige(s, 'the words come from the small generator with this seed', bv(p[1]) == seed, 'requires')
            s.ghost['seeded'] = p[0].obj

        def draw(g, s, fn, p):
            g.oblige(s, 'the words come from the small generator with this seed', z3.BoolVal(s.ghost['seeded'] is p[0].obj), 'requires')
            x = z3.BitVec(g.fresh_name('draw'), 32)
            s.ghost['draws'] += (x,)
            return x

        def below(g, s, fn, p):
            s.ghost['bound'] = p[1]
            x = draw(g, s, fn, p)
            s.assume(z3.ULT(x, p[1]))
            return x
        Q = r'^lintel::RandomTempl<lintel::MicroRandInner>::'
        e.contract(Q + r'RandomTempl\(unsigned int\)', ctor)
        e.contract(Q + r'~RandomTempl\(\)', h_nop)
        e.contract(Q + r'randInt\(\)', draw)
        e.contract(Q + r'randIntUnbiased\(unsigned int\)', below)
        res = e.run(h.fn(P + r'init\(unsigned int\)'), [Ptr(o, 0), seed], st)
        for s, _ in res:
            d = s.ghost['draws']
            e.oblige(s, 'one draw for each word and one for the carry', z3.BoolVal(len(d) == size + 1 and s.ghost.get('bound') == a), 'ensures')
            if len(d) != size + 1:
                continue
            ws = [e.load(s, Ptr(o, 4 * k), I32) for k in range(size)]
            e.oblige(s, 'the words are the draws in turn', z3.BoolVal(all(z3.is_bv(x) and x.eq(y) for x, y in zip(ws, d))), 'ensures')
            c, i = (s.mem.get((o, ('c', off)), (I32, UNDEF))[1] for off in (C, IX))
            e.oblige(s, 'the carry is the draw below the multiplier', z3.BoolVal(False) if c is UNDEF else bv(c) == d[size], 'ensures')
            e.oblige(s, 'the numbers start with the first word', z3.BoolVal(False) if i is UNDEF else (bv(i) & (size - 1)) == size - 1, 'ensures')
        return done(e, res)
    return [Task('MarsagliaInner<%d>::randInt' % size, t_next), Task('MarsagliaInner<%d>::init' % size, t_start)]


PI = [0x243F6A88, 0x85A308D3, 0x13198A2E, 0x03707344, 0xA4093822, 0x299F31D0, 0x082EFA98, 0xEC4E6C89]


def t_micro_init(ctx):
    h = Rnd(ctx)
    e, st = h.e, h.st
    o = Obj('generator', 'param', 16)
    seed = z3.BitVec('seed', 32)
    mix = z3.Function('BobJenkinsHashMix3', B32, B32, B32, B32)
    e.contract(r'^lintel::BobJenkinsHashMix3\(', lambda g, s, fn, a: mix(*[bv(x) for x in a[:3]]))
    res = e.run(h.fn(r'^lintel::MicroRandInner::init\('), [Ptr(o, 0), seed], st)
    for s, _ in res:
        for k in range(4):
            e.oblige(s, 'the words are the hashes of the digits of pi with the seed', bv(e.load(s, Ptr(o, 4 * k), I32)) == mix(b32(PI[2 * k]), b32(PI[2 * k + 1]), seed), 'ensures')
    return done(e, res)


def t_micro(ctx):
    h = Rnd(ctx)
    e, st = h.e, h.st
    o = Obj('generator', 'param', 16)
    x, y, z, w = ws = [z3.BitVec(c, 32) for c in 'xyzw']
    for k in range(4):
        st.mem[(o, ('c', 4 * k))] = (I32, ws[k])
    res = e.run(h.fn(r'^lintel::MicroRandInner::randInt\('), [Ptr(o, 0)], st)
    for s, r in res:
        t = x ^ (x << 15)
        new = (t ^ L(t, 4)) ^ (w ^ L(w, 21))
        e.oblige(s, 'the number is the xorshift of the oldest and the newest word', bv(r) == new, 'ensures')
        for k, v in enumerate([y, z, w, new]):
            e.oblige(s, 'the words move down by one', bv(e.load(s, Ptr(o, 4 * k), I32)) == v, 'ensures')
    return done(e, res)


# sizes and multipliers as published
for n_, a_ in ((8, 716514398), (16, 487198574), (32, 547416522), (64, 647535442), (128, 8007626), (256, 8001634), (512, 123554632),
               (1024, 123471786), (2048, 1047570), (4096, 18782)):
    TASKS += mwc(n_, a_)
TASKS += [Task('MicroRandInner::init', t_micro_init), Task('MicroRandInner::randInt', t_micro)]


# ---- shuffling --------------------------------------------------------------------------------------------
def t_shuffle(ctx):
    h = Rnd(ctx, 'int', unroll=0, ghost_sorts={'order': z3.IntSort()})
    e, st = h.e, h.st
    n = z3.Int('n')
    st.assume(z3.And(n >= 0, n < 1 << 31))       # randInt(max) takes 32 bits
    data = Obj('elements', 'param', 4 * n, stride=4, count=n)
    G, gen = Obj('draws', 'param', 8), Obj('generator', 'param', FULL)
    e.store(st, Ptr(G, 0), 1, I64)
    A = e.getmap(st, data, 0, I32)
    P0 = e.getghost(st, data, 'order')
    j, i = z3.Int('j'), z3.Int('i')
    perm = lambda P: [z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(P, j) >= 0, z3.Select(P, j) < n)), patterns=[z3.Select(P, j)]),
                      z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Select(P, i) != z3.Select(P, j)), patterns=[z3.MultiPattern(z3.Select(P, i), z3.Select(P, j))])]
    st.assume(z3.ForAll([j], z3.Select(P0, j) == j, patterns=[z3.Select(P0, j)]))
    drawn = lambda s: e.load(s, Ptr(G, 0), I64)

    def draw(g, s, fn, a):
        """the k-th draw is uniform below k+1 and decides which element goes to place k"""
        k = drawn(s)
        g.oblige(s, 'each place in turn gets one of the elements up to it', z3.And(a[1] == k + 1, k < n), 'ensures')
        r = z3.Int(g.fresh_name('chosen'))
        s.assume(z3.And(r >= 0, r <= k))
        P = g.getghost(s, data, 'order')
        g.setghost(s, data, 'order', z3.Store(z3.Store(P, k, z3.Select(P, r)), r, z3.Select(P, k)))
        g.store(s, Ptr(G, 0), k + 1, I64)
        return r
    e.contract(R + r'randInt\(unsigned int\)', draw)

    def inv(q):
        s = q.st
        P, M2 = e.getghost(s, data, 'order'), e.getmap(s, data, 0, I32)
        d = drawn(s)
        out = [('moved', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(M2, j) == z3.Select(A, z3.Select(P, j))), patterns=[z3.Select(M2, j)])),
               ('drawn', z3.And(d >= 1, d <= n))]
        out += [('order%d' % k, f) for k, f in enumerate(perm(P))]
        return out
    e.invs = [inv]
    it = [Ptr(data, 0), Ptr(data, 4 * n)]
    res = e.run(h.fn(r'^void MT_random_shuffle<'), it + [Ptr(gen, 0)], st)
    for s, _ in res:
        P, M2 = e.getghost(s, data, 'order'), e.getmap(s, data, 0, I32)
        e.oblige(s, 'every place but the first had its draw', z3.Or(n <= 1, drawn(s) == n), 'ensures')
        e.oblige(s, 'every element is in the place the draws gave it', z3.Implies(z3.And(j >= 0, j < n), z3.Select(M2, j) == z3.Select(A, z3.Select(P, j))), 'ensures')
        for f in perm(P):
            e.oblige(s, 'the elements are those from before in some order', f, 'ensures')
    return done(e, res)


TASKS += [Task('MT_random_shuffle', t_shuffle)]


def t_noseeds(ctx):
    h = Rnd(ctx)
    o, v = Obj('generator', 'param', SIZE), Obj('seed_array', 'param', 24)
    vector_of(h, [], v)
    h.words(o)
    h.e.contract(I + r'init\(unsigned int\)', h_nop)
    h.e.assert_ok = lambda e, st: z3.BoolVal(True)
    h.e.expect_return = False
    res = h.e.run(h.fn(I + r'initArray\('), [Ptr(o, 0), Ptr(v, 0)], h.st)
    for s, _ in res:
        h.e.oblige(s, 'no seeds are refused', z3.BoolVal(False), 'ensures')
    return done(h.e, res)


TASKS += [Task('MersenneTwisterInternal::initArray of no seeds', t_noseeds)]

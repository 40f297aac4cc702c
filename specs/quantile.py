"""Contracts of StatsQuantile: what a collapse keeps, what a quantile is."""
import re
import z3
import vc
from vc import *
from lib import *
from runner import Task
from specs.stats import counters

DRIVERS = {'quantile': ['REPO/src/StatsQuantile.cpp']}
NBOUND, BSZ, NBUF, ALL, WEIGHT, LEVEL, CUR, POS, SORTED, TMP, CPOS, EVEN, NRANGE, LAZY, SIZE = \
    64, 72, 76, 80, 88, 96, 104, 108, 112, 120, 128, 136, 140, 144, 152
NUM = 16
I, R, Bo = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AR, AI, AB = z3.ArraySort(I, R), z3.ArraySort(I, I), z3.ArraySort(I, Bo)
ROWB = 1 << 35
SEL, ST = z3.Select, z3.Store
# ghost functions
IX = z3.Function('entry', I, I, I)           # entry j of buffer i
ROW, COL = z3.Function('row', I, I), z3.Function('column', I, I)
CNT = z3.Function('below', AR, I, I, I)      # how many of the first n entries of a buffer are below the threshold X
S = z3.Function('weighted', AI, I)           # sum of weight * position over the collapsed buffers
MW = z3.Function('times_total', I, I)        # k * total weight of the collapsed buffers
SW = z3.Function('weights', I, I)            # sum of the weights of the collapsed buffers below i
TOPF = z3.Function('top', AB, AR, I, I)
MAXW = 1 << 60
X = z3.Real('X')


class Qn:
    def __init__(self, ctx):
        self.mod = ctx['mods']['quantile']
        e = self.e = Engine(self.mod, 'int', dict(fp='real', houdini_rl=3000000, ghost_sorts=dict(alloc=Bo, member=Bo, pv=R, version=I), alloc_layout=self.layout))
        std_contracts(e)
        st = self.st = State()
        self.dbl = self.mod.global_type('_ZN6Double3InfE')
        e.contract(r'^boost::(io::|basic_format)', h_nop)
        e.contract(r'^void std::sort<double\*, .*doubleOrder>', self.sort)
        e.contract(r'^PriorityQueue<std::pair<double, int>, StatsQuantile::pairCmp>::', self.pqop)
        e.contract(r'^Stats::(add|reset|Stats|~Stats)\(', self.base)
        e.assumptions.add('std::sort: afterwards the range holds the same values in order (the comparison is proved to be <)')
        e.assumptions.add('the values added are numbers, not NaN')
        e.assumptions.add('PriorityQueue: contract of P02 (the top is an element before which no other one comes)')
        i, j = z3.Ints('i_ j_')
        st.assume(FA([i, j], z3.And(ROW(IX(i, j)) == i, COL(IX(i, j)) == j), pats=[IX(i, j)]))
        self.pq = None
        self.first = z3.IntVal(0)
        self.count = z3.Int('values')
        st.assume(z3.And(self.count >= 0, self.count < 1 << 53))

    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(pat, f.dname) and not f.decl]
        if not fs:
            raise Unsupported('function %s not found' % pat)
        return fs[0]

    @staticmethod
    def layout(eng, st, o):
        return False

    # ---- the object -----------------------------------------------------------------------------
    def make(self, tmp=True):
        e, st = self.e, self.st
        NB, BS = self.NB, self.BS = z3.Ints('nbuffers buffer_size')
        st.assume(z3.And(NB >= 2, NB < 1 << 30, BS >= 10, BS < 1 << 30))
        o = self.this = Obj('quantile', 'param', SIZE)
        e.store(st, Ptr(o, NUM), self.count, I64)
        e.store(st, Ptr(o, NBOUND), z3.Int('Nbound'), I64)
        e.store(st, Ptr(o, BSZ), BS, I32)
        e.store(st, Ptr(o, NBUF), NB, I32)
        self.cur, self.pos = z3.Ints('cur_buffer cur_buffer_pos')
        e.store(st, Ptr(o, CUR), self.cur, I32)
        e.store(st, Ptr(o, POS), self.pos, I32)
        mk = lambda nm, sz: Obj(nm, 'heap', NB * sz, stride=sz, count=NB)
        self.W, self.L, self.F, self.P = mk('weight', 8), mk('level', 4), mk('sorted', 1), mk('collapse_pos', 4)
        self.AB = mk('all_buffers', 8)
        B_ = self.B = Obj('buffer', 'heap', z3.Int('buffers_bytes'), stride=8, count=z3.Int('buffers_entries'))
        for off, x in ((ALL, self.AB), (WEIGHT, self.W), (LEVEL, self.L), (SORTED, self.F), (CPOS, self.P)):
            e.store(st, Ptr(o, off), Ptr(x, 0), PTR)
        B_.tags['rows'] = (ROWB, IX, self.bounds)
        B_.tags['is_null'] = lambda eng, s, p: z3.Not(SEL(eng.getghost(s, B_, 'alloc'), eng.rowcol(p)[0]))
        B_.tags['memcpy'] = self.memcpy
        B_.tags['free'] = self.free
        self.AB.tags['ptr_elem'] = lambda eng, s, ob, i, c: eng.ptr_add(Ptr(B_, 0), i * ROWB)
        self.AB.tags['ptr_store'] = self.ptr_store
        T = self.T = Obj('tmp', 'heap', BS * 8, stride=8, count=BS)
        e.store(st, Ptr(o, TMP), Ptr(T, 0) if tmp else NULL, PTR)
        e.store(st, Ptr(o, EVEN), z3.Int('even_low'), I8)
        e.store(st, Ptr(o, LAZY), z3.Int('lazy'), I8)
        st.assume(z3.And(*[z3.And(x >= 0, x <= 1) for x in (z3.Int('even_low'), z3.Int('lazy'))]))
        e.opts['objects'] = [o, self.W, self.L, self.F, self.P, self.AB, B_] + ([T] if tmp else [])
        self.alloc0 = e.getghost(st, B_, 'alloc')
        i = z3.Int('i_m')
        st.assume(FA([i], z3.And(SEL(self.m(st, 'P'), i) >= 0), pats=[SEL(self.m(st, 'P'), i)]))
        return o

    def bounds(self, eng, st, i, j):
        return z3.And(B(i >= 0), B(i < self.NB), B(j >= 0), B(j < self.BS), SEL(eng.getghost(st, self.B, 'alloc'), i))

    def m(self, st, what):
        o, ty = {'W': (self.W, I64), 'L': (self.L, I32), 'F': (self.F, I8), 'P': (self.P, I32), 'B': (self.B, self.dbl)}[what]
        return self.e.getmap(st, o, 0, ty)

    def setm(self, st, what, v):
        o, ty = {'W': (self.W, I64), 'L': (self.L, I32), 'F': (self.F, I8), 'P': (self.P, I32), 'B': (self.B, self.dbl)}[what]
        self.e.setmap(st, o, 0, ty, v)

    def tmap(self, st):
        p = st.mem.get((self.this, ('c', TMP)))
        p = p[1] if p else None
        if not isinstance(p, Ptr) or p.obj is None or p.obj.stride != 8:
            return None
        return self.e.getmap(st, p.obj, 0, self.dbl)

    def get(self, st, off, ty=I32):
        return self.e.load(st, Ptr(self.this, off), ty)

    # ---- memory of the buffers -------------------------------------------------------------------
    def ptr_store(self, eng, st, o, i, c, v):
        al = eng.getghost(st, self.B, 'alloc')
        eng.oblige(st, 'no allocated buffer is lost', z3.Not(SEL(al, i)), 'leak')
        if isinstance(v, Ptr) and v.obj is None:
            return
        if not isinstance(v, Ptr) or v.obj.kind != 'heap' or v.obj not in st.allocs:
            raise Unsupported('store of %r into all_buffers' % (v,))
        eng.oblige(st, 'a buffer has room for buffer_size values', B_int(v.obj.size) == 8 * self.BS, 'requires')
        st.dead[v.obj] = 'it became a buffer'
        st.allocs = [x for x in st.allocs if x is not v.obj]
        eng.setghost(st, self.B, 'alloc', ST(al, i, True))

    def free(self, eng, st, p):
        i, j, c = eng.rowcol(p)
        eng.oblige(st, 'only pointers from new are freed', z3.And(B(j == 0), B(c == 0)), 'lifetime')
        al = eng.getghost(st, self.B, 'alloc')
        eng.setghost(st, self.B, 'alloc', ST(al, i, False))

    def memcpy(self, eng, st, d, s, n):
        cnt = eng.exact_div(n, 8)
        if cnt is None or d.obj is not self.B or s.obj.stride != 8:
            raise Unsupported('memcpy of buffers')
        i, j, c = eng.rowcol(d)
        if c or is_sym(j) or j != 0:
            raise Unsupported('memcpy into the middle of a buffer')
        eng.oblige(st, 'in-bounds memcpy write of buffer', z3.And(self.bounds(eng, st, i, z3.IntVal(0)), cnt <= self.BS))
        eng.in_bounds_range(st, s, n, 'memcpy read')
        A = self.m(st, 'B')
        src = eng.getmap(st, s.obj, 0, self.dbl)
        si, sc = eng.elem(st, s)
        A2 = z3.Const(eng.fresh_name('copied'), AR)
        k = z3.Int('k_c')
        st.assume(FA([k], z3.Implies(z3.Not(z3.And(ROW(k) == i, COL(k) >= 0, COL(k) < cnt)), SEL(A2, k) == SEL(A, k)), pats=[SEL(A2, k)]))
        st.assume(FA([k], z3.Implies(z3.And(k >= 0, k < cnt), SEL(A2, IX(i, k)) == SEL(src, si + k)), pats=[SEL(A2, IX(i, k))]))
        self.setm(st, 'B', A2)
        self.cong(st, A, A2, i)

    def cong(self, st, A, A2, i):
        """buffers other than i are as before, and so is the number of their values below X"""
        r, n = z3.Ints('r_g n_g')
        st.assume(FA([r, n], z3.Implies(r != i, CNT(A2, r, n) == CNT(A, r, n)), pats=[CNT(A2, r, n)]))

    # ---- sorting ---------------------------------------------------------------------------------
    def insorted(self, A, i, n):
        a, b = z3.Ints('a_s b_s')
        xa, xb = SEL(A, IX(i, a)), SEL(A, IX(i, b))
        return z3.And(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b < n), xa <= xb), patterns=[z3.MultiPattern(xa, xb)]), self.split(A, i, n))

    def split(self, A, i, n):
        """a sorted buffer: the values below X come first"""
        a = z3.Int('a_s')
        xa = SEL(A, IX(i, a))
        return z3.And(FA([a], z3.Implies(z3.And(0 <= a, a < n), (xa < X) == (a < CNT(A, i, n))), pats=[xa]), CNT(A, i, n) >= 0, CNT(A, i, n) <= n)

    def sort(self, eng, st, fn, a):
        p, q = a[0], a[1]
        if p.obj is not self.B or q.obj is not self.B:
            raise Unsupported('sort of something else')
        i, lo, _ = eng.rowcol(p)
        i2, hi, _ = eng.rowcol(q)
        eng.oblige(st, 'the sorted range is a buffer, from its first value', z3.And(B(i == i2), B(lo == 0), B(hi >= 0), B(hi <= self.BS), B(i >= 0), B(i < self.NB), SEL(eng.getghost(st, self.B, 'alloc'), i)), 'requires')
        A = self.m(st, 'B')
        A2 = z3.Const(eng.fresh_name('ordered'), AR)
        k = z3.Int('k_o')
        st.assume(FA([k], z3.Implies(z3.Not(z3.And(ROW(k) == i, COL(k) >= 0, COL(k) < hi)), SEL(A2, k) == SEL(A, k)), pats=[SEL(A2, k)]))
        self.setm(st, 'B', A2)
        st.assume(CNT(A2, i, hi) == CNT(A, i, hi))
        self.cong(st, A, A2, i)
        st.assume(self.insorted(A2, i, hi))

    # ---- priority queue --------------------------------------------------------------------------
    def pqop(self, eng, st, fn, a):
        op = fn.dname.split('>::', 1)[1].split('(')[0]
        q = a[0].obj
        if op == 'PriorityQueue':
            self.pq = q
            eng.setghost(st, q, 'member', z3.K(I, z3.BoolVal(False)))
            eng.setghost(st, q, 'version', z3.K(I, z3.Int(eng.fresh_name('ver'))))
            return None
        if op == '~PriorityQueue':
            return None
        IN, PV, V = (eng.getghost(st, q, x) for x in ('member', 'pv', 'version'))
        t = TOPF(IN, PV, SEL(V, 0))
        i = z3.Int('i_q')
        if op == 'empty':
            r = eng.fresh_bool('empty')
            st.assume(z3.Implies(r, FA([i], z3.Not(SEL(IN, i)), pats=[SEL(IN, i)])))
            st.assume(z3.Implies(z3.Not(r), SEL(IN, t)))
            return r
        if op in ('top', 'pop', 'replaceTop'):
            eng.oblige(st, 'the queue is not empty (%s)' % op, z3.Not(FA([i], z3.Not(SEL(IN, i)), pats=[SEL(IN, i)])), 'requires')
            st.assume(z3.And(SEL(IN, t), FA([i], z3.Implies(SEL(IN, i), SEL(PV, t) <= SEL(PV, i)), pats=[SEL(IN, i)])))
            self.step_facts(st, t)
        if op == 'top':
            o = Obj(eng.fresh_name('top'), 'stack', 16)
            eng.store(st, Ptr(o, 0), SEL(PV, t), self.dbl)
            eng.store(st, Ptr(o, 8), t, I32)
            return Ptr(o, 0)
        if op in ('pop', 'replaceTop'):
            IN = ST(IN, t, False)
        if op in ('push', 'replaceTop'):
            v, b = eng.load(st, a[1], self.dbl), B_int(eng.load(st, eng.ptr_add(a[1], 8), I32))
            eng.oblige(st, 'a buffer is in the queue once', z3.Not(SEL(IN, b)), 'requires')
            IN = ST(IN, b, True)
            PV = ST(PV, b, v)
        elif op != 'pop':
            raise Unsupported('PriorityQueue::%s' % op)
        eng.setghost(st, q, 'member', IN)
        eng.setghost(st, q, 'pv', PV)
        eng.setghost(st, q, 'version', z3.K(I, z3.Int(eng.fresh_name('ver'))))

    # ---- weighted sums ---------------------------------------------------------------------------
    def inr(self, i):
        return z3.And(i >= self.first, i < self.NB)

    def dominated(self, P, Q):
        """sums of weights are monotone"""
        i = z3.Int('i_d')
        return z3.Implies(FA([i], z3.Implies(self.inr(i), SEL(P, i) <= SEL(Q, i)), pats=[SEL(P, i), SEL(Q, i)]), S(P) <= S(Q))

    def step_facts(self, st, t):
        P, W = self.m(st, 'P'), self.W0
        st.assume(z3.And(S(z3.Store(P, t, SEL(P, t) + 1)) == S(P) + SEL(W, t)))

    def sum_facts(self, st, P):
        for Q in (self.C, self.FULL):
            st.assume(self.dominated(P, Q))
            st.assume(self.dominated(Q, P))

    def base(self, eng, st, fn, a):
        st.ghost['base'] = st.ghost.get('base', ()) + (fn.dname.split('(')[0],)


def done(h, res):
    h.e.returns = len(res)
    return h.e


# ---- collapse ------------------------------------------------------------------------------------
class Col(Qn):
    def __init__(self, ctx, tmp=True):
        Qn.__init__(self, ctx)
        e, st = self.e, self.st
        self.make(tmp)
        self.first, self.tot, self.o = z3.Ints('first_buffer total_weight offset')
        W = self.W0 = self.m(st, 'W')
        self.C, self.FULL = z3.Const('C', AI), z3.K(I, self.BS)
        i = z3.Int('i_c')
        st.assume(z3.And(self.first >= 0, self.first < self.NB - 1, self.tot >= 2, self.tot < MAXW, self.o >= 1, self.o <= self.tot))
        st.assume(FA([i], z3.Implies(self.inr(i), z3.And(SEL(W, i) >= 1, SEL(W, i) <= self.tot)), pats=[SEL(W, i)]))
        L0 = self.L0 = self.m(st, 'L')
        st.assume(z3.And(SEL(L0, self.first) >= 0, SEL(L0, self.first) < (1 << 31) - 1))
        al = self.alloc0
        st.assume(FA([i], z3.Implies(self.inr(i), SEL(al, i)), pats=[SEL(al, i)]))
        st.assume(z3.And(S(self.FULL) == MW(self.BS), MW(0) == 0, MW(self.BS) < MAXW, S(self.C) >= 0))
        a, b = z3.Ints('a_w b_w')
        st.assume(z3.ForAll([a, b], z3.Implies(a < b, MW(a) + self.tot <= MW(b)), patterns=[z3.MultiPattern(MW(a), MW(b))]))
        e.contract(r'^StatsQuantile::collapseFindFirstBuffer\(\)$', lambda eng, s, fn, x: self.first)
        e.contract(r'^StatsQuantile::collapseSortBuffers\(int\)$', self.sorted_all)
        e.contract(r'^StatsQuantile::collapseNextQuantileOffset\(long\)$', self.next_offset)
        e.opts['sdiv'] = self.sdiv
        e.invs = [self.loop]

    def sdiv(self, eng, st, a, b):
        """division by the total weight"""
        q = z3.Int(eng.fresh_name('quotient'))
        eng.oblige(st, 'divisor is the total weight', z3.And(B(b == self.tot), B(a >= 0)), 'requires')
        st.assume(z3.And(q >= 0, MW(q) <= a, a < MW(q) + self.tot))
        st.assume(MW(self.BS) == MW(self.BS))
        return q

    def sorted_all(self, eng, st, fn, a):
        eng.oblige(st, 'the buffers from the first one on are sorted', z3.And(B(a[1] == self.first), z3.BoolVal(a[0].obj is self.this)), 'requires')
        A, P, F = self.m(st, 'B'), self.m(st, 'P'), self.m(st, 'F')
        A2, P2, F2 = z3.Const(eng.fresh_name('all_ordered'), AR), z3.Const(eng.fresh_name('at_start'), AI), z3.Const(eng.fresh_name('flags'), AI)
        i, a_, b_ = z3.Ints('i_s a_s b_s')
        xa, xb = SEL(A2, IX(i, a_)), SEL(A2, IX(i, b_))
        st.assume(FA([i], z3.If(self.inr(i), SEL(P2, i) == 0, SEL(P2, i) == SEL(P, i)), pats=[SEL(P2, i)]))
        st.assume(FA([i], z3.If(self.inr(i), SEL(F2, i) == 1, SEL(F2, i) == SEL(F, i)), pats=[SEL(F2, i)]))
        st.assume(z3.ForAll([i, a_, b_], z3.Implies(z3.And(self.inr(i), 0 <= a_, a_ <= b_, b_ < self.BS), xa <= xb), patterns=[z3.MultiPattern(xa, xb)]))
        st.assume(FA([i, a_], z3.Implies(z3.And(self.inr(i), 0 <= a_, a_ < self.BS), (xa < X) == (a_ < SEL(self.C, i))), pats=[xa]))
        st.assume(FA([i], z3.Implies(self.inr(i), z3.And(SEL(self.C, i) >= 0, SEL(self.C, i) <= self.BS)), pats=[SEL(self.C, i)]))
        k = z3.Int('k_s')
        st.assume(FA([k], z3.Implies(z3.Not(self.inr(ROW(k))), SEL(A2, k) == SEL(A, k)), pats=[SEL(A2, k)]))
        zero = z3.K(I, z3.IntVal(0))
        st.assume(z3.And(S(zero) == 0, self.dominated(P2, zero), self.dominated(zero, P2)))
        self.A1 = A2
        for w, v in (('B', A2), ('P', P2), ('F', F2)):
            self.setm(st, w, v)
        return self.tot

    def next_offset(self, eng, st, fn, a):
        eng.oblige(st, 'the offset is for the total weight', B(a[1] == self.tot), 'requires')
        eng.store(st, Ptr(self.this, EVEN), z3.Int('even_low_after'), I8)
        return self.o

    def loop(self, L):
        e, st = self.e, L.st
        out = []
        A, P, W, LV, F, T = self.m(st, 'B'), self.m(st, 'P'), self.m(st, 'W'), self.m(st, 'L'), self.m(st, 'F'), self.tmap(st)
        i, j, a, b = z3.Ints('i_l j_l a_l b_l')
        inr, C, BS = self.inr, self.C, self.BS
        self.sum_facts(st, P)
        le = lambda P, Q: FA([i], z3.Implies(inr(i), SEL(P, i) <= SEL(Q, i)), pats=[SEL(P, i), SEL(Q, i)])
        cs = [c for c in counters(L) if 'signed' not in c[0]]
        if self.pq is not None and (self.pq, ('g', 'member')) in st.mem:
            IN, PV = e.getghost(st, self.pq, 'member'), e.getghost(st, self.pq, 'pv')
            out.append(('positions', FA([i], z3.Implies(inr(i), z3.And(SEL(P, i) >= 0, SEL(P, i) <= BS)), pats=[SEL(P, i)])))
            out.append(('queue of unfinished buffers', FA([i], SEL(IN, i) == z3.And(inr(i), SEL(P, i) < BS), pats=[SEL(IN, i), SEL(P, i)])))
            out.append(('values in the queue', FA([i], z3.Implies(SEL(IN, i), SEL(PV, i) == SEL(A, IX(i, SEL(P, i)))), pats=[SEL(IN, i)])))
            out.append(('merged in order', z3.Or(le(P, C), le(C, P))))
            for nm, v, v0, w in cs:
                out.append(('queue below ' + nm, FA([i], SEL(IN, i) == z3.And(i >= self.first, i < v), pats=[SEL(IN, i)])))
                out.append((nm + ' is the weight so far', v == S(P)))
                out.append((nm + ' is at least the weight so far', v >= S(P)))
                out.append((nm + ' within the buffers', z3.And(v >= self.first, v <= self.NB)))
                out.append((nm + ' within a buffer', z3.And(v >= 0, v <= BS)))
                for nm2, u, u0, w2 in cs:
                    if nm2 != nm:
                        out.append(('%s is offset %s' % (nm, nm2), z3.And(v == self.o - 1 + MW(u), MW(u + 1) == MW(u) + self.tot) if False else v == self.o - 1 + MW(u)))
                if T is not None:
                    st.assume(MW(v + 1) == MW(v) + self.tot)
                    out.append(('kept below ' + nm, FA([j], z3.Implies(z3.And(j >= 0, j < v), (SEL(T, j) < X) == (self.o - 1 + MW(j) < S(C))), pats=[SEL(T, j)])))
                    out.append(('last kept before ' + nm, FA([j, i], z3.Implies(z3.And(SEL(IN, i), j >= 0, j < v), SEL(T, j) <= SEL(PV, i)), pats=[z3.MultiPattern(SEL(IN, i), SEL(T, j))])))
                    out.append(('kept in order below ' + nm, z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b < v), SEL(T, a) <= SEL(T, b)), patterns=[z3.MultiPattern(SEL(T, a), SEL(T, b))])))
        for nm, v, v0, w in cs:
            for x, M, n in (('weight', W, (1 << 64) - 1), ('level', LV, (1 << 32) - 1), ('flag', F, 0)):
                M0 = self.m(L.entry, {'weight': 'W', 'level': 'L', 'flag': 'F'}[x])
                out.append(('%s cleared below %s' % (x, nm), FA([i], SEL(M, i) == z3.If(z3.And(i >= v0, i < v), n, SEL(M0, i)), pats=[SEL(M, i)])))
            out.append((nm + ' from its start', z3.And(v >= v0, v <= z3.If(v0 > self.NB, v0, self.NB))))
        return out


def t_collapse(tmp):
    def t(ctx):
        h = Col(ctx, tmp)
        e = h.e
        res = e.run(h.fn(r'^StatsQuantile::collapse\(\)$'), [Ptr(h.this, 0)], h.st)
        i, j, k = z3.Ints('i_e j_e k_e')
        for st, _ in res:
            A, W, LV, F = h.m(st, 'B'), h.m(st, 'W'), h.m(st, 'L'), h.m(st, 'F')
            A0, W0, L0, F0 = h.A1, h.W0, None, None
            f = h.first
            e.oblige(st, 'the collapsed values are in the first buffer', z3.And(h.get(st, CUR) == f + 1), 'ensures')
            e.oblige(st, 'other buffers keep their values', z3.Implies(z3.Not(h.inr(ROW(k))), SEL(A, k) == SEL(A0, k)), 'ensures')
            e.oblige(st, 'the weight is that of all collapsed buffers', SEL(W, f) == h.tot, 'ensures')
            e.oblige(st, 'other weights', z3.Implies(z3.And(i >= 0, i < f), SEL(W, i) == SEL(W0, i)), 'ensures')
            e.oblige(st, 'the kept values are in order', z3.Implies(z3.And(0 <= j, j <= k, k < h.BS), SEL(A, IX(f, j)) <= SEL(A, IX(f, k))), 'ensures')
            e.oblige(st, 'marked as sorted', SEL(F, f) == 1, 'ensures')
            e.oblige(st, 'kept value j is the one of rank offset + j * weight',
                     z3.Implies(z3.And(0 <= j, j < h.BS), (SEL(A, IX(f, j)) < X) == (h.o - 1 + MW(j) < S(h.C))), 'ensures')
            K = CNT(A, f, h.BS)
            s = st.copy()
            s.assume(h.split(A, f, h.BS))
            s.assume(z3.And(MW(K) == MW(K - 1) + h.tot, h.dominated(h.C, h.FULL)))
            s.assume(SEL(A, IX(f, K)) == SEL(A, IX(f, K)))
            x, y = z3.Reals('x_k y_k')
            s.assume(z3.And(x == SEL(A, IX(f, K)), y == SEL(A, IX(f, K - 1))))
            e.oblige(s, 'ranks move by less than the total weight: not too few values kept', MW(K) >= S(h.C) - h.o + 1, 'ensures')
            e.oblige(s, 'ranks move by less than the total weight: not too many values kept', MW(K) < S(h.C) - h.o + 1 + h.tot, 'ensures')
            al = e.getghost(st, h.B, 'alloc')
            e.oblige(st, 'all buffers stay allocated', SEL(al, i) == SEL(h.alloc0, i), 'ensures')
        return done(h, res)
    return Task('StatsQuantile::collapse()%s' % ('' if tmp else ' (first time)'), t)



# ---- the pieces of a collapse ----------------------------------------------------------------------
LMAX = (1 << 31) - 1


def t_first(ctx):
    h = Qn(ctx)
    e, st = h.e, h.st
    h.make()
    LV = h.m(st, 'L')
    i = z3.Int('i_f')
    top = SEL(LV, h.NB - 1)
    st.assume(z3.And(SEL(LV, h.NB - 2) == top, top < LMAX))
    e.assert_ok = lambda eng, s: eng.feasible(s, h.count >= 10 ** 14)

    def loop(L):
        out = []
        for nm, v, v0, w in counters(L):
            for d in (0, 1):
                out.append(('same level from %s + %d' % (nm, d), FA([i], z3.Implies(z3.And(i >= v + d, i < h.NB), SEL(LV, i) == top), pats=[SEL(LV, i)])))
                out.append(('%s + %d within' % (nm, d), z3.And(v + d >= 0, v + d < h.NB)))
        return out
    e.invs = [loop]
    res = e.run(h.fn(r'^StatsQuantile::collapseFindFirstBuffer\(\)$'), [Ptr(h.this, 0)], st)
    for s, r in res:
        e.oblige(s, 'at least two buffers are collapsed', z3.And(B(r >= 0), B(r < h.NB - 1)), 'ensures')
        e.oblige(s, 'the collapsed buffers are at one level', z3.Implies(z3.And(i >= r, i < h.NB), SEL(LV, i) == top), 'ensures')
        e.oblige(s, 'all buffers of that level are collapsed', z3.Implies(B(r > 0), SEL(LV, r - 1) != top), 'ensures')
    return done(h, res)


def t_offset(ctx):
    h = Qn(ctx)
    e, st = h.e, h.st
    h.make()
    w, half = z3.Ints('weight half')
    st.assume(z3.And(w >= 1, w < MAXW))
    even = z3.Int('even_low')
    res = e.run(h.fn(r'^StatsQuantile::collapseNextQuantileOffset\(long\)$'), [Ptr(h.this, 0), w], st)
    for s, r in res:
        e.oblige(s, 'an odd weight: the value in the middle', z3.Implies(w % 2 == 1, 2 * r == w + 1), 'ensures')
        e.oblige(s, 'an even weight: one of the two values in the middle', z3.Implies(w % 2 == 0, z3.Or(2 * r == w, 2 * r == w + 2)), 'ensures')
        now = h.get(s, EVEN, I8)
        e.oblige(s, 'in turn the lower and the upper one', z3.Implies(w % 2 == 0, z3.And((2 * r == w) == (even == 1), z3.Or(B(now == 0), B(now == 1)), B(now != even))), 'ensures')
        e.oblige(s, 'the turn stays for odd weights', z3.Implies(w % 2 == 1, B(now == even)), 'ensures')
    return done(h, res)


def t_sortall(ctx):
    h = Qn(ctx)
    e, st = h.e, h.st
    h.make()
    f = h.first = z3.Int('first_buffer')
    W, F0, A0, P0 = h.m(st, 'W'), h.m(st, 'F'), h.m(st, 'B'), h.m(st, 'P')
    i, a, b, k = z3.Ints('i_t a_t b_t k_t')
    st.assume(z3.And(f >= 0, f < h.NB))
    inr = h.inr
    st.assume(FA([i], z3.Implies(inr(i), z3.And(SEL(W, i) >= 1, SEL(W, i) < MAXW, SEL(h.alloc0, i))), pats=[SEL(W, i), SEL(h.alloc0, i)]))
    st.assume(FA([i], z3.Implies(z3.And(inr(i), SEL(F0, i) == 0, i != h.NB - 1), SEL(W, i) == 1), pats=[SEL(F0, i)]))
    def rows(A, cond):
        xa, xb = SEL(A, IX(i, a)), SEL(A, IX(i, b))
        return z3.And(z3.ForAll([i, a, b], z3.Implies(z3.And(cond(i), 0 <= a, a <= b, b < h.BS), xa <= xb), patterns=[z3.MultiPattern(xa, xb)]),
                      FA([i, a], z3.Implies(z3.And(cond(i), 0 <= a, a < h.BS), (xa < X) == (a < CNT(A, i, h.BS))), pats=[xa]))
    st.assume(rows(A0, lambda i: z3.And(inr(i), SEL(F0, i) != 0)))
    # sums of positive weights
    st.assume(z3.And(SW(f) == 0, SW(h.NB) < MAXW, FA([i], z3.Implies(inr(i), z3.And(SW(i + 1) == SW(i) + SEL(W, i), SW(i) >= 0, SW(i + 1) <= SW(h.NB))), pats=[SEL(W, i)])))

    def loop(L):
        s = L.st
        A, F, P = h.m(s, 'B'), h.m(s, 'F'), h.m(s, 'P')
        out = [('flagged buffers are in order', rows(A, lambda i: z3.And(inr(i), SEL(F, i) != 0))),
               ('the same number below X', FA([i], CNT(A, i, h.BS) == CNT(A0, i, h.BS), pats=[CNT(A, i, h.BS)])),
               ('other buffers', FA([k], z3.Implies(z3.Not(inr(ROW(k))), SEL(A, k) == SEL(A0, k)), pats=[SEL(A, k)])),
               ('other flags', FA([i], z3.Implies(z3.Not(inr(i)), SEL(F, i) == SEL(F0, i)), pats=[SEL(F, i)])),
               ('flags', FA([i], z3.Or(SEL(F, i) == SEL(F0, i), SEL(F, i) == 1), pats=[SEL(F, i)])),
               ('other positions', FA([i], z3.Implies(z3.Not(inr(i)), SEL(P, i) == SEL(P0, i)), pats=[SEL(P, i)]))]
        cs = [c for c in counters(L) if 'signed' not in c[0]]
        for nm, v, v0, w in cs:
            s.assume(SEL(W, v) == SEL(W, v))
            out.append((nm + ' within', z3.And(v >= f, v <= h.NB)))
            out.append(('done below ' + nm, FA([i], z3.Implies(z3.And(i >= f, i < v), z3.And(SEL(P, i) == 0, SEL(F, i) == 1)), pats=[SEL(P, i), SEL(F, i)])))
            out.append(('not yet from ' + nm, FA([i], z3.Implies(i >= v, SEL(F, i) == SEL(F0, i)), pats=[SEL(F, i)])))
            for nm2, u, u0, w2 in cs:
                if nm2 != nm:
                    out.append(('%s sums the weights below %s' % (nm2, nm), u == SW(v)))
        return out
    e.invs = [loop]
    st.assume(FA([i], z3.Or(SEL(F0, i) == 0, SEL(F0, i) == 1), pats=[SEL(F0, i)]))
    res = e.run(h.fn(r'^StatsQuantile::collapseSortBuffers\(int\)$'), [Ptr(h.this, 0), f], st)
    for s, r in res:
        A, F, P = h.m(s, 'B'), h.m(s, 'F'), h.m(s, 'P')
        e.oblige(s, 'the total weight', B(r == SW(h.NB)), 'ensures')
        e.oblige(s, 'all buffers in order', rows(A, inr), 'ensures')
        e.oblige(s, 'with the same number below X', CNT(A, i, h.BS) == CNT(A0, i, h.BS), 'ensures')
        e.oblige(s, 'other buffers unchanged', z3.Implies(z3.Not(inr(ROW(k))), SEL(A, k) == SEL(A0, k)), 'ensures')
        e.oblige(s, 'all flags', z3.If(inr(i), SEL(F, i) == 1, SEL(F, i) == SEL(F0, i)), 'ensures')
        e.oblige(s, 'all positions', z3.If(inr(i), SEL(P, i) == 0, SEL(P, i) == SEL(P0, i)), 'ensures')
    return done(h, res)


def t_orders(ctx):
    h = Qn(ctx)
    e, st = h.e, h.st
    a, b = z3.Reals('a b')
    x = Obj('order', 'param', 8)
    n = 0
    for s, r in e.run(h.fn(r'doubleOrder::operator\(\)\(double, double\) const$'), [Ptr(x, 0), a, b], st.copy()):
        e.oblige(s, 'doubleOrder is <', r == (a < b), 'ensures')
        n += 1
    try:
        f = h.fn(r'^StatsQuantile::pairCmp::operator\(\)')
    except Unsupported:
        f = None
    p, q = Obj('p', 'param', 16), Obj('q', 'param', 16)
    for o, v in ((p, a), (q, b)):
        e.store(st, Ptr(o, 0), v, h.dbl)
        e.store(st, Ptr(o, 8), z3.Int('n_' + o.name), I32)
    if f is not None:
        for s, r in e.run(f, [Ptr(x, 0), Ptr(p, 0), Ptr(q, 0)], st):
            e.oblige(s, 'the smallest value comes first: no other one is less important', z3.And(z3.Implies(a > b, r), z3.Implies(a < b, z3.Not(r))), 'ensures')
            n += 1
    e.returns = n
    return e



# ---- the class invariant ---------------------------------------------------------------------------
# EF(A, W, k): weight of the values below X in the first k buffers; TW(W, k): weight of the first k buffers
EF = z3.Function('weight_below', AR, AI, I, I)
TW = z3.Function('total', AI, I, I)


class Inv(Qn):
    def rows(self, A, cond, n):
        i, a, b = z3.Ints('i_r a_r b_r')
        xa, xb = SEL(A, IX(i, a)), SEL(A, IX(i, b))
        return z3.And(z3.ForAll([i, a, b], z3.Implies(z3.And(cond(i), 0 <= a, a <= b, b < n), xa <= xb), patterns=[z3.MultiPattern(xa, xb)]),
                      FA([i, a], z3.Implies(z3.And(cond(i), 0 <= a, a < n), (xa < X) == (a < CNT(A, i, n))), pats=[xa]))

    def buffers(self, st, n, pos, last=None):
        """the buffers below n are full; pos values are in buffer n"""
        A, W, LV, F, al = self.m(st, 'B'), self.m(st, 'W'), self.m(st, 'L'), self.m(st, 'F'), self.e.getghost(st, self.B, 'alloc')
        i = z3.Int('i_b')
        inn = lambda i: z3.And(i >= 0, i < n)
        lazy = z3.Int('lazy')
        return [('weights', FA([i], z3.Implies(inn(i), z3.And(SEL(W, i) >= 1, SEL(W, i) < MAXW)), pats=[SEL(W, i)])),
                ('levels', FA([i], z3.Implies(inn(i), z3.And(SEL(LV, i) >= 0, SEL(LV, i) < LMAX)), pats=[SEL(LV, i)])),
                ('allocated', FA([i], z3.Implies(inn(i), SEL(al, i)), pats=[SEL(al, i)])),
                ('all allocated unless lazy', z3.Implies(lazy == 0, FA([i], z3.Implies(z3.And(i >= 0, i < self.NB), SEL(al, i)), pats=[SEL(al, i)]))),
                ('flags', FA([i], z3.Implies(z3.And(i >= 0, i < self.NB), z3.Or(SEL(F, i) == 0, SEL(F, i) == 1)), pats=[SEL(F, i)])),
                ('unsorted buffers are not collapsed ones', FA([i], z3.Implies(z3.And(inn(i), SEL(F, i) == 0), SEL(W, i) == 1), pats=[SEL(F, i)])),
                ('flagged buffers are in order', self.rows(A, lambda i: z3.And(inn(i), SEL(F, i) != 0), self.BS))]

    def inv(self, st):
        cur, pos = self.scur(st), B_int(self.get(st, POS))
        A, W, LV, F, al = self.m(st, 'B'), self.m(st, 'W'), self.m(st, 'L'), self.m(st, 'F'), self.e.getghost(st, self.B, 'alloc')
        some = cur >= 0
        out = [('current buffer', z3.And(cur >= -1, cur < self.NB)), ('position', z3.If(some, z3.And(pos >= 0, pos <= self.BS), pos > self.BS)),
               ('position fits', pos <= self.BS + 1), ('nothing allocated needs a lazy one', z3.Implies(z3.Not(some), z3.Int('lazy') == 1)),
               ('current buffer allocated', z3.Implies(some, SEL(al, cur))), ('current weight', z3.Implies(some, SEL(W, cur) == 1)),
               ('current level', z3.Implies(some, z3.And(SEL(LV, cur) >= 0, SEL(LV, cur) < LMAX))),
               ('level of the last buffer', z3.Implies(cur == self.NB - 1, SEL(LV, cur) == SEL(LV, cur - 1))),
               ('current buffer in order if flagged', z3.Implies(z3.And(some, SEL(F, cur) != 0), self.rows(A, lambda i: i == cur, pos)))]
        return out + self.buffers(st, cur, pos)

    def scur(self, st):
        v = B_int(self.get(st, CUR))
        return z3.simplify(z3.If(v >= 1 << 31, v - (1 << 32), v))

    def start(self):
        st = self.st
        self.make()
        for off in (CUR, POS):
            self.st.mem.pop((self.this, ('c', off)), None)
        c, p = z3.Ints('cur pos')
        st.assume(z3.And(c >= 0, c < 1 << 32, p >= 0, p < 1 << 31))
        self.e.store(st, Ptr(self.this, CUR), c, I32)
        self.e.store(st, Ptr(self.this, POS), p, I32)
        self.cur0, self.pos0 = self.scur(st), p
        for nm, f in self.inv(st):
            st.assume(f)
        self.old = {x: self.m(st, x) for x in 'WLFPB'}

    def below(self, st):
        """weight of the values below X: of all full buffers, and of the current one"""
        cur, pos = self.scur(st), B_int(self.get(st, POS))
        return EF(self.m(st, 'B'), self.m(st, 'W'), cur) + CNT(self.m(st, 'B'), cur, pos)

    def same_below(self, st, A, W, A2, W2, k):
        """lemma: EF depends on the weights and on the numbers below X only"""
        i = z3.Int('i_e')
        st.assume(z3.Implies(FA([i], z3.Implies(z3.And(i >= 0, i < k), z3.And(SEL(W, i) == SEL(W2, i), CNT(A, i, self.BS) == CNT(A2, i, self.BS))), pats=[SEL(W, i), SEL(W2, i)]),
                             EF(A, W, k) == EF(A2, W2, k)))

    def stores(self, st, A):
        """lemma: a store into a buffer leaves the numbers below X of the other buffers"""
        r, n = z3.Ints('r_o n_o')
        while z3.is_store(A):
            M, idx = A.children()[0], A.children()[1]
            st.assume(FA([r, n], z3.Implies(r != ROW(idx), CNT(A, r, n) == CNT(M, r, n)), pats=[CNT(A, r, n)]))
            A = M
        return A

    def same_count(self, st, A, A2, r, n):
        j = z3.Int('j_e')
        st.assume(z3.Implies(FA([j], z3.Implies(z3.And(j >= 0, j < n), SEL(A, IX(r, j)) == SEL(A2, IX(r, j))), pats=[SEL(A2, IX(r, j))]), CNT(A, r, n) == CNT(A2, r, n)))

    def collapse(self, eng, st, fn, a):
        """the contract of collapse(), proved by the tasks above"""
        NB, BS = self.NB, self.BS
        for nm, f in self.buffers(st, NB, z3.IntVal(0)):
            eng.oblige(st, 'collapse: ' + nm, f, 'requires')
        LV = self.m(st, 'L')
        eng.oblige(st, 'collapse: the last two buffers are at one level', SEL(LV, NB - 1) == SEL(LV, NB - 2), 'requires')
        A, W, F = self.m(st, 'B'), self.m(st, 'W'), self.m(st, 'F')
        f, tot, o = z3.Ints('first total offset')
        self.cf, self.ct = f, tot
        A2, W2, L2, F2, P2 = (z3.Const(eng.fresh_name(x), y) for x, y in (('cA', AR), ('cW', AI), ('cL', AI), ('cF', AI), ('cP', AI)))
        i, k = z3.Ints('i_x k_x')
        st.assume(z3.And(f >= 0, f < NB - 1, tot >= 2, tot < MAXW, o >= 1, 2 * o >= tot, 2 * o <= tot + 2))
        st.assume(FA([k], z3.Implies(z3.And(ROW(k) < f, ROW(k) >= 0), True), pats=[SEL(A2, k)]))
        inr = lambda i: z3.And(i >= f, i < NB)
        st.assume(FA([i], z3.If(i == f, SEL(W2, i) == tot, z3.Implies(z3.Not(inr(i)), SEL(W2, i) == SEL(W, i))), pats=[SEL(W2, i)]))
        st.assume(FA([i], z3.If(i == f, SEL(L2, i) == SEL(LV, i) + 1, z3.Implies(z3.Not(inr(i)), SEL(L2, i) == SEL(LV, i))), pats=[SEL(L2, i)]))
        eng.assumptions.add('fewer than 2^31 collapses')
        st.assume(SEL(L2, f) < LMAX)
        st.assume(FA([i], z3.If(inr(i), SEL(F2, i) == z3.If(i == f, 1, 0), SEL(F2, i) == SEL(F, i)), pats=[SEL(F2, i)]))
        st.assume(FA([k], z3.Implies(z3.Not(inr(ROW(k))), SEL(A2, k) == SEL(A, k)), pats=[SEL(A2, k)]))
        n = z3.Int('n_x')
        st.assume(FA([i, n], z3.Implies(z3.Not(inr(i)), CNT(A2, i, n) == CNT(A, i, n)), pats=[CNT(A2, i, n)]))
        st.assume(self.rows(A2, lambda i: i == f, BS))
        # what is kept: tot * K against the weighted number of collapsed values below X
        gone = EF(A, W, NB) - EF(A, W, f)
        kept = EF(A2, W2, f + 1) - EF(A2, W2, f)
        st.assume(z3.And(kept >= gone - o + 1, kept < gone - o + 1 + tot))
        self.same_below(st, A, W, A2, W2, f)
        for x, v in (('B', A2), ('W', W2), ('L', L2), ('F', F2), ('P', P2)):
            self.setm(st, x, v)
        st.assume(FA([i], SEL(P2, i) >= 0, pats=[SEL(P2, i)]))
        eng.store(st, Ptr(self.this, CUR), f + 1, I32)
        p = st.mem.get((self.this, ('c', TMP)))
        eng.store(st, Ptr(self.this, EVEN), z3.Int(eng.fresh_name('even')), I8)
        st.ghost['collapsed'] = True


def t_addq(ctx):
    h = Inv(ctx)
    e, st = h.e, h.st
    h.start()
    v = z3.Real('value')
    e.contract(r'^StatsQuantile::collapse\(\)$', h.collapse)
    A, W = h.old['B'], h.old['W']
    i, k = z3.Ints('i_q k_q')
    cur, pos = h.cur0, h.pos0
    res = e.run(h.fn(r'^StatsQuantile::addQuantile\(double\)$'), [Ptr(h.this, 0), v], st)
    for s, _ in res:
        A2, W2, F2, al = h.m(s, 'B'), h.m(s, 'W'), h.m(s, 'F'), e.getghost(s, h.B, 'alloc')
        c2, p2 = h.scur(s), B_int(h.get(s, POS))
        one = z3.If(v < X, 1, 0)
        # definition of the number below X
        s.assume(CNT(A2, c2, p2) == CNT(A2, c2, p2 - 1) + z3.If(SEL(A2, IX(c2, p2 - 1)) < X, 1, 0))
        s.assume(z3.And(CNT(A2, c2, 0) == 0))
        h.same_count(s, A, A2, cur, pos)
        h.same_count(s, A2, A, cur, p2 - 1)
        r, n = z3.Ints('r_q n_q')
        j = z3.Int('j_q')
        st0 = h.stores(s, A2)
        for nm, f in h.inv(s):
            e.oblige(s, 'keeps the class invariant: ' + nm, f, 'ensures')
        e.oblige(s, 'the value is stored last', z3.And(p2 >= 1, p2 <= h.BS, SEL(A2, IX(c2, p2 - 1)) == v), 'ensures')
        s2 = s.copy()
        if s.ghost.get('collapsed'):
            h.same_below(s2, st0, W2, A2, W2, c2)
            Wc = unstore(W2)
            h.same_below(s2, st0, Wc, A2, W2, c2)
            d = h.below(s2) - (EF(A, W, h.NB))
            s2.assume(z3.Implies(z3.And(pos == h.BS, SEL(W, cur) == 1, cur == h.NB - 1), EF(A, W, h.NB) == EF(A, W, cur) + CNT(A, cur, pos)))
            e.oblige(s2, 'a collapse happens only when all buffers are full', z3.And(cur == h.NB - 1, pos == h.BS), 'ensures')
            e.oblige(s2, 'a collapse moves ranks by at most half the collapsed weight',
                     z3.And(2 * (d - one) <= h.ct, -2 * (d - one) <= h.ct), 'ensures')
            e.oblige(s2, 'before a collapse everything is in the buffers', EF(A, W, h.NB) == EF(A, W, cur) + CNT(A, cur, pos), 'ensures')
        else:
            h.same_below(s2, A, W, A2, W2, cur)
            h.same_below(s2, A, W, A2, W2, c2)
            # lemma: one more full buffer, of weight 1
            s2.assume(z3.Implies(z3.And(SEL(W2, cur) == 1, cur >= 0), EF(A2, W2, cur + 1) == EF(A2, W2, cur) + CNT(A2, cur, h.BS)))
            s2.assume(z3.And(EF(A2, W2, 0) == 0, EF(A, W, -1) == 0, z3.Implies(cur == -1, CNT(A, cur, pos) == 0)))
            e.oblige(s2, 'without a collapse all ranks stay exact', h.below(s2) == EF(A, W, cur) + CNT(A, cur, pos) + one, 'ensures')
        e.oblige(s, 'allocated buffers stay allocated', z3.Implies(SEL(h.alloc0, i), SEL(al, i)), 'ensures')
    return done(h, res)


def unstore(M):
    while z3.is_store(M):
        M = M.children()[0]
    return M



# ---- construction, reset, destruction ---------------------------------------------------------------
def empty_post(h, st, what, lazy):
    e = h.e
    cur, pos = h.scur(st), B_int(h.get(st, POS))
    for nm, f in h.inv(st):
        e.oblige(st, '%s: class invariant: %s' % (what, nm), f, 'ensures')
    e.oblige(st, what + ': no values', z3.Or(cur == -1, z3.And(cur == 0, pos == 0)), 'ensures')


def t_init_buffers(ctx):
    h = Inv(ctx)
    e, st = h.e, h.st
    h.make()
    i = z3.Int('i_i')
    e.invs = [init_loop(h)]
    W, al0 = h.m(st, 'W'), h.alloc0
    res = e.run(h.fn(r'^StatsQuantile::init_buffers\(\)$'), [Ptr(h.this, 0)], st)
    for s, _ in res:
        empty_post(h, s, 'init_buffers', None)
        al = e.getghost(s, h.B, 'alloc')
        e.oblige(s, 'allocated buffers stay allocated', z3.Implies(SEL(al0, i), SEL(al, i)), 'ensures')
        e.oblige(s, 'the next even weight takes the lower value', z3.And(B(h.get(s, EVEN, I8) == 1)), 'ensures')
    return done(h, res)


def init_loop(h, null=False):
    def loop(L):
        e, st = h.e, L.st
        out = []
        if (h.this, ('c', ALL)) not in st.mem or getattr(h, 'AB', None) is None:
            return out
        al = e.getghost(st, h.B, 'alloc')
        lazy = z3.Int('lazy')
        i = z3.Int('i_il')
        maps = [(x, h.m(st, x), n) for x, n in (('W', (1 << 64) - 1), ('L', (1 << 32) - 1), ('F', 0)) if getattr(h, x, None) is not None]
        for nm, v, v0, w in counters(L):
            if 'signed' in nm:
                continue
            out.append((nm + ' within', z3.And(v >= 0, v <= h.NB)))
            for x, M, n in maps:
                out.append(('%s below %s' % (x, nm), FA([i], z3.Implies(z3.And(i >= 0, i < v), SEL(M, i) == n), pats=[SEL(M, i)])))
            out.append(('allocated below ' + nm, z3.Implies(lazy == 0, FA([i], z3.Implies(z3.And(i >= 0, i < v), SEL(al, i)), pats=[SEL(al, i)]))))
            out.append(('not allocated below ' + nm, FA([i], z3.Implies(z3.And(i >= 0, i < v), z3.Not(SEL(al, i))), pats=[SEL(al, i)])))
            out.append(('as before from ' + nm, FA([i], z3.Implies(i >= v, SEL(al, i) == SEL(h.alloc0, i)), pats=[SEL(al, i)])))
            for d in (0, 31):
                out.append(('%s within a buffer + %d' % (nm, d), z3.And(v >= 0, v <= h.BS + d)))
        out.append(('allocated stay', FA([i], z3.Implies(SEL(h.alloc0, i), SEL(al, i)), pats=[SEL(al, i)])))
        return out
    return loop


def t_dtor(ctx):
    h = Inv(ctx)
    e, st = h.e, h.st
    h.make()
    vt = e.global_obj(st, '_ZTV13StatsQuantile')
    i = z3.Int('i_i')
    e.invs = [init_loop(h)]
    res = e.run(h.fn(r'^StatsQuantile::~StatsQuantile\(\)$'), [Ptr(h.this, 0)], st)
    for s, _ in res:
        al = e.getghost(s, h.B, 'alloc')
        e.oblige(s, 'all buffers are released', z3.Implies(z3.And(i >= 0, i < h.NB), z3.Not(SEL(al, i))), 'ensures')
        for o in (h.W, h.L, h.F, h.P, h.AB, h.T):
            e.oblige(s, '%s is released' % o.name, z3.BoolVal(o in s.dead), 'ensures')
        e.oblige(s, 'base destructor', z3.BoolVal(s.ghost.get('base') == ('Stats::~Stats',)), 'ensures')
    return done(h, res)


def t_reset(ctx):
    h = Inv(ctx)
    e, st = h.e, h.st
    h.make()

    def ib(eng, s, fn, a):
        eng.oblige(s, 'its own buffers', z3.BoolVal(a[0].obj is h.this), 'requires')
        s.ghost['ib'] = s.ghost.get('ib', 0) + 1
    e.contract(r'^StatsQuantile::init_buffers\(\)$', ib)
    res = e.run(h.fn(r'^StatsQuantile::reset\(\)$'), [Ptr(h.this, 0)], st)
    for s, _ in res:
        e.oblige(s, 'both the statistics and the buffers are emptied', z3.BoolVal(s.ghost.get('base') == ('Stats::reset',) and s.ghost.get('ib', 0) >= 1), 'ensures')
    return done(h, res)


def t_add(ctx):
    h = Inv(ctx)
    e, st = h.e, h.st
    h.make()
    v = z3.Real('value')

    def aq(eng, s, fn, a):
        eng.oblige(s, 'the value is added', z3.And(z3.BoolVal(a[0].obj is h.this), a[1] == v), 'requires')
        s.ghost['aq'] = s.ghost.get('aq', 0) + 1

    def ba(eng, s, fn, a):
        eng.oblige(s, 'the statistics see the value', z3.And(z3.BoolVal(a[0].obj is h.this), a[1] == v), 'requires')
        s.ghost['ba'] = s.ghost.get('ba', 0) + 1
    e.contract(r'^StatsQuantile::addQuantile\(double\)$', aq)
    e.contract(r'^Stats::add\(double\)$', ba)
    res = e.run(h.fn(r'^StatsQuantile::add\(double\)$'), [Ptr(h.this, 0), v], st)
    for s, _ in res:
        e.oblige(s, 'once each', z3.BoolVal(s.ghost.get('aq') == 1 and s.ghost.get('ba') == 1), 'ensures')
    return done(h, res)


TASKS = [t_collapse(True), t_collapse(False), Task('StatsQuantile::collapseFindFirstBuffer()', t_first), Task('StatsQuantile::collapseNextQuantileOffset(long)', t_offset),
         Task('StatsQuantile::collapseSortBuffers(int)', t_sortall), Task('orders', t_orders), Task('StatsQuantile::addQuantile(double)', t_addq),
         Task('StatsQuantile::init_buffers()', t_init_buffers), Task('StatsQuantile::~StatsQuantile()', t_dtor), Task('StatsQuantile::reset()', t_reset),
         Task('StatsQuantile::add(double)', t_add)]


# ---- the facts about the ghost sums, by induction over the number of terms --------------------------
def t_sums(ctx):
    h = Qn(ctx)
    e, st = h.e, h.st
    w, p, q, s, t, tot, a, b, x, y, ma, mb, mc = z3.Ints('w p q s t tot a b x y ma mb mc')

    def lem(label, hyp, goal):
        s2 = st.copy()
        s2.assume(hyp)
        e.oblige(s2, label, goal, 'lemma')
    # S(P) = sum of w_i * p_i: s and t are the sums of the terms before the one added
    lem('larger positions, larger weighted sum (one more term)', z3.And(w >= 0, p <= q, s <= t), s + w * p <= t + w * q)
    lem('one position more adds its weight (the term itself)', w >= 0, s + w * (p + 1) == (s + w * p) + w)
    lem('one position more adds its weight (a later term)', t == s + x, t + w * p == (s + w * p) + x)
    lem('no positions, no weight (one more term)', z3.And(s == 0, p == 0), s + w * p == 0)
    lem('full buffers weigh buffer size times the total weight (one more term)', s == b * tot, s + w * b == b * (tot + w))
    # MW(k) = k * total weight
    lem('multiples of the total weight grow by it', mb == ma + tot, z3.Implies(ma == a * tot, mb == (a + 1) * tot))
    lem('a later multiple is larger by at least the total weight (one further)', z3.And(tot >= 0, ma + tot <= mb, mc == mb + tot), ma + tot <= mc)
    # CNT, EF: sums over entries / buffers that agree term by term
    lem('the number below X depends on the entries only (one more entry)', z3.And(s == t, p == q), s + p == t + q)
    lem('the weight below X depends on weights and numbers only (one more buffer)', z3.And(s == t, p == q, x == y), s + x * p == t + y * q)
    lem('one more buffer of weight 1', w == 1, s + w * p == s + p)
    # an ordered range: the entries below X come first
    u, v, X_ = z3.Reals('u v X_')
    lem('ordered: the numbers below X come first (one more entry)', z3.And(s >= 0, s <= x, z3.Implies(s < x, u >= X_), u <= v),
        z3.And(z3.Implies(s < x, z3.Not(v < X_))))
    h.e.returns = 1
    return e


TASKS.append(Task('StatsQuantile sum lemmas', t_sums))

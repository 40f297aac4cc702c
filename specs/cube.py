"""Contracts of HashTupleStats and StatsCube: every row reaches exactly the cells of its 2^n generalisations, every cell owns one statistic."""
import re
import z3
import vc
from vc import *
from lib import *
from runner import Task
from specs.stats import counters

DRIVERS = {'cube': ['drivers/cube.cpp', 'REPO/src/Stats.cpp']}
CUBE, HTS = r'^lintel::StatsCube<.*>::', r'^lintel::HashTupleStats<.*>::'
IN, BO = z3.IntSort(), z3.BoolSort()
SEL = z3.Select


def fn_of(mod, pat, short=False):
    fs = [f for f in mod.fns.values() if re.search(pat, f.dname) and not f.decl]
    if short and fs:
        fs = [min(fs, key=lambda f: len(f.dname))]
    if len(fs) != 1:
        raise Unsupported('%d functions for %s' % (len(fs), pat))
    return fs[0]


def done(e, res):
    e.returns = len(res)
    return e


# ---- the recursion over the positions: bits ----------------------------------------------------------
N = 3
V = lambda x: z3.BitVecVal(x, 64)


def bv(x):
    return x if z3.is_bv(x) else V(x)


def tb(r):
    return r if z3.is_bool(r) else z3.BoolVal(bool(r)) if isinstance(r, (bool, int)) else r != 0


class Rec:
    """calls of the cube function and of the add function for one arbitrary set M of any positions"""

    def __init__(self, ctx):
        self.mod = ctx['mods']['cube']
        e = self.e = Engine(self.mod, 'bv', dict(unroll=12))    # a counted loop over the positions is run through
        std_contracts(e)
        self.st = State()
        self.M = z3.BitVec('M', 64)
        self.H = z3.Bool('told')
        self.OK = z3.Function('wanted', BO, z3.BitVecSort(64), BO)
        self.st.assume(z3.ULT(self.M, V(1 << N)))
        self.this = Obj('cube', 'param', 1 << 10)
        self.value = Obj('value', 'param', 1 << 8)
        self.ids = [z3.BitVec('id%d' % i, 64) for i in range(N)]
        self.st.ghost['asked'] = self.st.ghost['added'] = V(0)
        e.contract(CUBE + r'cubeAddOne\(', self.rec)
        e.contract(r'^boost::function[2N]<bool, bool, .*>::operator\(\)\(bool, ', self.ask)
        e.contract(r'^boost::function[2N]<void, Stats&, Stats const&>::operator\(\)\(', self.add)
        e.contract(CUBE + r'getCubeEntry\(', self.entry)
        e.assumptions.add('the cube function decides by what it is told and by the set of any positions; it changes no key')

    def any(self, st, key):
        return bv(self.e.load(st, Ptr(key.obj, key.off + 8 * N), I64))

    def same_key(self, st, key, what):
        self.e.oblige(st, what + ': the key of the row', z3.And(*[bv(self.e.load(st, Ptr(key.obj, key.off + 8 * i), I64)) == self.ids[i] for i in range(N)]), 'requires')
        self.e.oblige(st, what + ': no other any bits', z3.ULT(self.any(st, key), V(1 << N)), 'requires')

    def agree(self, A, pos):
        low = (V(1) << pos) - 1
        return (A & low) == (self.M & low)

    def hits(self, A, pos, had):
        told = z3.Or(had, z3.LShR(self.M, pos) != 0)
        a = self.agree(A, pos)
        return z3.And(a, self.H == told), z3.And(a, self.OK(told, self.M))

    def bump(self, st, what, cond):
        st.ghost[what] = st.ghost[what] + z3.If(cond, V(1), V(0))

    def rec(self, eng, st, fn, a):
        key, pos, had = a[1], bv(a[2]), tb(a[3])
        eng.oblige(st, 'the same cube and value', z3.BoolVal(a[0].obj is self.this and a[4].obj is self.value), 'requires')
        self.same_key(st, key, 'recursion')
        if self.pos is not None:
            eng.oblige(st, 'the recursion goes on to a later position', z3.And(z3.UGT(pos, self.pos), z3.ULE(pos, V(N))), 'requires')
        else:
            eng.oblige(st, 'the recursion starts within the positions', z3.ULE(pos, V(N)), 'requires')
        A = self.any(st, key)
        x, y = self.hits(A, pos, had)
        self.bump(st, 'asked', x)
        self.bump(st, 'added', y)
        B2 = z3.BitVec(eng.fresh_name('any'), 64)
        low = (V(1) << pos) - 1
        st.assume(z3.And((B2 & low) == (A & low), z3.ULT(B2, V(1 << N))))
        eng.store(st, Ptr(key.obj, key.off + 8 * N), B2, I64)

    def ask(self, eng, st, fn, a):
        self.same_key(st, a[2], 'cube function')
        A, had = self.any(st, a[2]), tb(a[1])
        self.bump(st, 'asked', z3.And(A == self.M, self.H == had))
        return self.OK(had, A)

    def entry(self, eng, st, fn, a):
        self.same_key(st, a[1], 'entry')
        eng.oblige(st, 'an entry of this cube', z3.BoolVal(a[0].obj is self.this), 'requires')
        o = Obj(eng.fresh_name('entry'), 'stack', 64)
        st.ghost[('mask', o)] = self.any(st, a[1])
        return Ptr(o, 0)

    def add(self, eng, st, fn, a):
        m = st.ghost.get(('mask', a[1].obj))
        eng.oblige(st, 'the value of the row is added to an entry of the cube', z3.BoolVal(m is not None and a[2].obj is self.value), 'requires')
        if m is None:
            raise PathEnd()
        self.bump(st, 'added', m == self.M)


def t_rec(ctx):
    h = Rec(ctx)
    e, st = h.e, h.st
    key = Obj('key', 'param', 8 * N + 8)
    for i in range(N):
        e.store(st, Ptr(key, 8 * i), h.ids[i], I64)
    A, pos, had = z3.BitVec('any', 64), z3.BitVec('pos', 64), z3.Bool('had_any')
    st.assume(z3.And(z3.ULT(A, V(1 << N)), z3.ULE(pos, V(N))))
    e.store(st, Ptr(key, 8 * N), A, I64)
    h.pos = pos
    x, y = h.hits(A, pos, had)
    res = e.run(fn_of(h.mod, CUBE + r'cubeAddOne\('), [Ptr(h.this, 0), Ptr(key, 0), pos, had, Ptr(h.value, 0)], st)
    for s, _ in res:
        k = Ptr(key, 0)
        h.same_key(s, k, 'afterwards')
        low = (V(1) << pos) - 1
        e.oblige(s, 'the positions before stay as they are', (h.any(s, k) & low) == (A & low), 'frame')
        e.oblige(s, 'the cube function is asked once about every set of any positions that agrees so far, and told whether it has one', s.ghost['asked'] == z3.If(x, V(1), V(0)), 'ensures')
        e.oblige(s, 'the value is added once to every such entry that is wanted', s.ghost['added'] == z3.If(y, V(1), V(0)), 'ensures')
    return done(e, res)


def t_add_to_cube(ctx):
    h = Rec(ctx)
    e, st = h.e, h.st
    h.pos = None
    row = Obj('row', 'param', 8 * N)
    for i in range(N):
        e.store(st, Ptr(row, 8 * i), h.ids[i], I64)
    res = e.run(fn_of(h.mod, CUBE + r'addToCube\('), [Ptr(h.this, 0), Ptr(row, 0), Ptr(h.value, 0)], st)
    for s, _ in res:
        e.oblige(s, 'the cube function is asked once about every set of any positions', s.ghost['asked'] == z3.If(h.H == (h.M != 0), V(1), V(0)), 'ensures')
        e.oblige(s, 'the value is added once to every entry that is wanted', s.ghost['added'] == z3.If(h.OK(h.M != 0, h.M), V(1), V(0)), 'ensures')
    return done(e, res)


# ---- tables: entries numbered in the order of iteration ------------------------------------------------
W = 1 << 32
PS = 64    # distance of the statistics in the pool


class Tab:
    def __init__(self, ctx, anykey=False):
        self.mod = ctx['mods']['cube']
        e = self.e = Engine(self.mod, 'int', dict(ghost_sorts=dict(calls=IN, deleted=IN, used=IN)))
        std_contracts(e)
        st = self.st = State()
        self.keys = 8 * N + (8 if anykey else 0)
        self.stride = self.keys + 8
        self.tables = {}
        e.contract(r'^HashMap<.*>::(begin|end)\(\)( const)?$', self.iter)
        e.contract(r'^HashUnique<.*>::(begin|end)\(\)( const)?$', self.iter)
        it = r'^HashTable<.*>::(const_)?iterator(_base<.*>)?::'
        e.contract(it + r'operator\+\+\(\)$', self.incr)
        e.contract(it + r'operator(\*|->)\(\)$', self.deref)
        e.contract(it + r'operator(==|!=)\(', self.itcmp)
        e.contract(r'^HashTable<.*>::iterator::iterator\(HashTable<.*>::iterator const&\)$', self.itcopy)
        e.contract(r'^HashMap<.*>::clear\(\)$', self.clear)
        e.contract(r'^HashMap<.*>::~HashMap\(\)$', self.tabledtor)
        e.contract(r'^HashMap<.*>::size\(\) const$', lambda g, s, fn, a: self.count(s, a[0].obj, a[0].off))
        e.contract(r'^boost::function[2N]<void, .*Stats&>::operator\(\)\(', self.callback)
        e.contract(r'^boost::function[0N]<Stats\*>::operator\(\)\(\) const$', self.factory)
        e.contract(r'^boost::function<.*>::~?function\(', h_nop)
        e.contract(r'^boost::function[0-9N]<.*>::~?function[0-9N]\(', h_nop)
        e.contract(r'^Stats::~Stats\(\)$', self.statdtor)
        e.contract(r'^Stats::add\(double\)$', self.statadd)
        e.assumptions.add('HashMap and HashUnique iteration: every entry once, in a fixed order while nothing is added or removed (P03)')
        e.assumptions.add('the functions given by the user change no table that is walked')
        self.pool = Obj('statistics', 'param', PS * W, stride=PS, count=W)
        vt = e.global_obj(st, '_ZTV5Stats')
        self.pool.tags['ptr_elem'] = lambda eng, s, o, i, c: Ptr(vt, 16)
        self.vt = vt

    def fn(self, pat):
        return fn_of(self.mod, pat)

    def table(self, name, T, off, kind='map'):
        """a table within object T"""
        n = z3.Int('count_' + name)
        self.st.assume(z3.And(n >= 0, n < 1 << 31))
        stride = 8 if kind == 'unique' else self.stride
        E = Obj('entries_' + name, 'param', stride * W, stride=stride, count=W)
        if kind == 'map':
            E.tags['ptr_elem'] = lambda eng, s, o, i, c: Ptr(self.pool, i * PS) if c == self.keys else None
        self.tables[(T, off)] = (E, stride, n)
        self.st.ghost[('n', T, off)] = n
        return E, n

    def find(self, T, off):
        o = off if isinstance(off, int) else z3.simplify(off).as_long()
        if (T, o) not in self.tables:
            raise Unsupported('an unknown table')
        return (T, o)

    def count(self, st, T, off):
        return st.ghost[('n',) + self.find(T, off)]

    def alive(self, st, k):
        if ('gone',) + k in st.ghost:
            self.e.oblige(st, 'a table is not used after its destruction', False, 'lifetime')
            raise PathEnd()

    # iterators: (pointer to the table, position); in memory or in registers
    def iter(self, g, st, fn, a):
        out = not fn.dname.endswith(' const')
        p = a[1 if out else 0]
        k = self.find(p.obj, p.off)
        self.alive(st, k)
        i = 0 if '::begin(' in fn.dname else st.ghost[('n',) + k]
        if out:
            self.e.store(st, Ptr(a[0].obj, a[0].off), Ptr(k[0], k[1]), PTR)
            self.e.store(st, Ptr(a[0].obj, a[0].off + 8), i, I64)
            return None
        return (Ptr(k[0], k[1]), i)

    def get(self, st, p):
        T = self.e.load(st, Ptr(p.obj, p.off), PTR)
        i = self.e.load(st, Ptr(p.obj, p.off + 8), I64)
        if not isinstance(T, Ptr) or T.obj is None:
            raise Unsupported('iterator')
        k = self.find(T.obj, T.off)
        self.alive(st, k)
        return k, (z3.IntVal(i) if isinstance(i, int) else i)

    def itcopy(self, g, st, fn, a):
        k, i = self.get(st, a[1])
        self.e.store(st, Ptr(a[0].obj, a[0].off), Ptr(k[0], k[1]), PTR)
        self.e.store(st, Ptr(a[0].obj, a[0].off + 8), i, I64)

    def incr(self, g, st, fn, a):
        k, i = self.get(st, a[0])
        n = st.ghost[('n',) + k]
        g.oblige(st, 'only an iterator that is not at the end is advanced', i < n, 'requires')
        st.assume(i < n)
        g.store(st, Ptr(a[0].obj, a[0].off + 8), i + 1, I64)
        return a[0]

    def deref(self, g, st, fn, a):
        k, i = self.get(st, a[0])
        n = st.ghost[('n',) + k]
        g.oblige(st, 'only an iterator that is not at the end is dereferenced', i < n, 'requires')
        st.assume(z3.And(i < n, i >= 0))
        E, stride, _ = self.tables[k]
        return Ptr(E, i * stride)

    def itcmp(self, g, st, fn, a):
        k, i = self.get(st, a[0])
        l, j = self.get(st, a[1])
        same = (i == j) if k == l else z3.BoolVal(False)
        return same if '==' in fn.dname.split('(')[0][-12:] else z3.Not(same)

    def clear(self, g, st, fn, a):
        k = self.find(a[0].obj, a[0].off)
        self.alive(st, k)
        st.ghost[('n',) + k] = z3.IntVal(0)

    def tabledtor(self, g, st, fn, a):
        k = self.find(a[0].obj, a[0].off)
        g.oblige(st, 'a table that goes owns no statistics any more', st.ghost[('n',) + k] == 0, 'leak')
        st.ghost[('gone',) + k] = True

    def callback(self, g, st, fn, a):
        k, v = a[1], a[2]
        for E, stride, n in self.tables.values():
            if E is k.obj:
                break
        else:
            g.oblige(st, 'the function is called with the key and the statistic of an entry', False, 'ensures')
            raise PathEnd()
        i = z3.Int(g.fresh_name('entry'))
        st.assume(k.off == i * stride)
        g.oblige(st, 'the function is called with the statistic that belongs to the key', z3.And(B(v.off == i * PS), z3.BoolVal(v.obj is self.pool), i >= 0, i < n), 'ensures')
        g.oblige(st, 'the statistic handed over is not deleted', SEL(g.getghost(st, self.pool, 'deleted'), i) == 0, 'lifetime')
        c = g.getghost(st, E, 'calls')
        g.setghost(st, E, 'calls', z3.Store(c, i, SEL(c, i) + 1))

    def factory(self, g, st, fn, a):
        st.ghost['made'] = st.ghost.get('made', 0) + 1
        o = Obj(g.fresh_name('made'), 'stack', 64)
        g.store(st, Ptr(o, 0), Ptr(self.vt, 16), PTR)
        st.ghost['last'] = o
        return Ptr(o, 0)

    def statdtor(self, g, st, fn, a):
        if 'D0' not in fn.name:
            g.oblige(st, 'a statistic is deleted, not only destroyed', False, 'leak')
        if a[0].obj is not self.pool:
            st.ghost['unmade'] = st.ghost.get('unmade', ()) + (a[0].obj,)
            return
        i = z3.Int(g.fresh_name('entry'))
        st.assume(B(a[0].off == i * PS))
        d = g.getghost(st, self.pool, 'deleted')
        g.oblige(st, 'a statistic is deleted once', SEL(d, i) == 0, 'lifetime')
        g.setghost(st, self.pool, 'deleted', z3.Store(d, i, 1))

    def statadd(self, g, st, fn, a):
        st.ghost['adds'] = st.ghost.get('adds', ()) + ((a[0], a[1]),)

    def walk_inv(self, E, n):
        """entries before the position were visited once / deleted"""
        i = z3.Int('i_w')
        e = self.e
        c0, d0 = e.getghost(self.st, E, 'calls'), e.getghost(self.st, self.pool, 'deleted')
        self.c0, self.d0 = c0, d0

        def inv(L):
            out = []
            c, d = e.getghost(L.st, E, 'calls'), e.getghost(L.st, self.pool, 'deleted')
            out.append(('no calls', FA([i], SEL(c, i) == SEL(c0, i), pats=[SEL(c, i)])))
            out.append(('none deleted', FA([i], SEL(d, i) == SEL(d0, i), pats=[SEL(d, i)])))
            for nm, v, v0, w in counters(L):
                out.append((nm + ' within', z3.And(v >= 0, v <= n)))
                out.append(('calls below ' + nm, FA([i], SEL(c, i) == SEL(c0, i) + z3.If(z3.And(i >= 0, i < v), 1, 0), pats=[SEL(c, i)])))
                out.append(('deleted below ' + nm, FA([i], SEL(d, i) == z3.If(z3.And(i >= 0, i < v), 1, SEL(d0, i)), pats=[SEL(d, i)])))
            return out
        return inv


def t_walk(cls, pat, off, anykey, name):
    def t(ctx):
        h = Tab(ctx, anykey)
        e, st = h.e, h.st
        o = Obj('object', 'param', 1 << 10)
        off_ = off(h)
        E, n = h.table('walked', o, off_)
        e.invs = [h.walk_inv(E, n)]
        i = z3.Int('i_d')
        st.assume(FA([i], SEL(h.d0, i) == 0, pats=[SEL(h.d0, i)]))
        res = e.run(h.fn(cls + pat), [Ptr(o, 0), Ptr(Obj('fn', 'param', 32), 0)], st)
        q = z3.Int('q')
        for s, _ in res:
            c, d = e.getghost(s, E, 'calls'), e.getghost(s, h.pool, 'deleted')
            e.oblige(s, 'the function sees every entry once', z3.Implies(z3.And(q >= 0, q < n), SEL(c, q) == SEL(h.c0, q) + 1), 'ensures')
            e.oblige(s, 'and nothing else', z3.Implies(z3.Not(z3.And(q >= 0, q < n)), SEL(c, q) == SEL(h.c0, q)), 'ensures')
            e.oblige(s, 'no entry is lost', z3.And(s.ghost[('n', o, off_)] == n, SEL(d, q) == 0), 'frame')
        return done(e, res)
    return Task(name, t)


def off_cube(h):
    """offset of StatsCube::cube_data, from the code that returns its size"""
    f = fn_of(h.mod, CUBE + r'size\(\)$')
    e = Engine(h.mod, 'int')
    std_contracts(e)
    got = []
    e.contract(r'^HashMap<.*>::size\(\) const$', lambda g, s, fn, a: got.append(a[0].off) or z3.Int('n'))
    e.run(f, [Ptr(Obj('object', 'param', 1 << 10), 0)], State())
    return got[0] if isinstance(got[0], int) else z3.simplify(got[0]).as_long()


def t_clear(cls, pat, tables, name, dtor=False):
    def t(ctx):
        h = Tab(ctx, 'Cube' in cls)
        e, st = h.e, h.st
        o = Obj('object', 'param', 1 << 10)
        E, n = h.table('cleared', o, off_cube(h) if 'Cube' in cls else 0)
        k = (o, off_cube(h) if 'Cube' in cls else 0)
        bases = []
        if 'Cube' in cls:
            e.contract(HTS + r'clear\(\)$', lambda g, s, fn, a: s.ghost.__setitem__('base', s.ghost.get('base', 0) + 1))
            e.contract(HTS + r'~HashTupleStats\(\)$', lambda g, s, fn, a: s.ghost.__setitem__('basegone', s.ghost.get('basegone', 0) + 1))
        e.invs = [h.walk_inv(E, n)]
        i = z3.Int('i_d')
        st.assume(FA([i], SEL(h.d0, i) == 0, pats=[SEL(h.d0, i)]))
        which = z3.Int('clear_base_data')
        st.assume(z3.And(which >= 0, which <= 1))
        args = [Ptr(o, 0)] + ([which != 0] if 'bool' in pat else [])
        res = e.run(h.fn(cls + pat), args, st)
        q = z3.Int('q')
        for s, _ in res:
            d = e.getghost(s, h.pool, 'deleted')
            e.oblige(s, 'every statistic is deleted once', z3.Implies(z3.And(q >= 0, q < n), SEL(d, q) == 1), 'ensures')
            e.oblige(s, 'and no other', z3.Implies(z3.Not(z3.And(q >= 0, q < n)), SEL(d, q) == 0), 'ensures')
            e.oblige(s, 'no entries are left', s.ghost[('n',) + k] == 0, 'ensures')
            if 'bool' in pat:
                e.oblige(s, 'the base data goes exactly on demand', z3.BoolVal(s.ghost.get('base', 0) == 1) == (which != 0), 'ensures')
            if dtor:
                e.oblige(s, 'the table is destroyed', z3.BoolVal(('gone',) + k in s.ghost), 'ensures')
                if 'Cube' in cls:
                    e.oblige(s, 'the base data is destroyed', z3.BoolVal(s.ghost.get('basegone', 0) == 1), 'ensures')
        return done(e, res)
    return Task(name, t)


# ---- finding or making an entry -----------------------------------------------------------------------
def t_entry(cls, pat, anykey, name, present, then=None):
    def t(ctx):
        h = Tab(ctx, anykey)
        e, st = h.e, h.st
        o, key, slot = Obj('object', 'param', 1 << 10), Obj('key', 'param', h.keys), Obj('slot', 'param', 8)
        ids = [z3.Int('id%d' % i) for i in range(h.keys // 8)]
        for i, x in enumerate(ids):
            st.assume(z3.And(x >= 0, x < 1 << 64))
            e.store(st, Ptr(key, 8 * i), x, I64)
        old = Obj('entry', 'param', 64)
        e.store(st, Ptr(old, 0), Ptr(h.vt, 16), PTR)
        e.store(st, Ptr(slot, 0), Ptr(old, 0) if present else NULL, PTR)

        def index(g, s, fn, a):
            g.oblige(s, 'the entry of the key given', z3.And(*[e.load(s, Ptr(a[1].obj, a[1].off + 8 * i), I64) == x for i, x in enumerate(ids)]), 'requires')
            s.ghost['slot'] = True
            return Ptr(slot, 0)
        e.contract(r'^HashMap<.*>::operator\[\]\(', index)

        def lookup(g, s, fn, a):
            index(g, s, fn, a)
            return Ptr(slot, 0) if present else NULL
        e.contract(r'^HashMap<.*>::lookup\(.*\)( const)?$', lookup)
        e.contract(r'^HashMap<.*>::exists\(.*\) const$', lambda g, s, fn, a: index(g, s, fn, a) is not None and present)
        v = z3.Real('value')
        args = [Ptr(o, 0), Ptr(key, 0)]
        if then == 'add':
            e.opts['fp'] = 'real'
            args.append(v)
        res = e.run(h.fn(cls + pat), args, st)
        for s, r in res:
            p = e.load(s, Ptr(slot, 0), PTR)
            made = s.ghost.get('made', 0)
            want = old if present else s.ghost.get('last')
            e.oblige(s, 'the table is asked for the key', z3.BoolVal('slot' in s.ghost), 'ensures')
            e.oblige(s, 'a statistic is made exactly for a new key', z3.BoolVal(made == (0 if present else 1)), 'ensures')
            e.oblige(s, 'the entry keeps its statistic', z3.BoolVal(isinstance(p, Ptr) and p.obj is want and want is not None), 'ensures')
            if then == 'add':
                ad = s.ghost.get('adds', ())
                e.oblige(s, 'the value is added once, to the statistic of the key', z3.And(z3.BoolVal(len(ad) == 1 and ad[0][0].obj is want), ad[0][1] == v if ad else False), 'ensures')
            else:
                e.oblige(s, 'the statistic of the key is returned', z3.BoolVal(isinstance(r, Ptr) and r.obj is want), 'ensures')
        return done(e, res)
    return Task(name + (' (entry present)' if present else ' (new entry)'), t)


TASKS = [Task('StatsCube::cubeAddOne', t_rec), Task('StatsCube::addToCube', t_add_to_cube),
         t_walk(HTS, r'walk\(', lambda h: 0, False, 'HashTupleStats::walk'), t_walk(CUBE, r'walk\(', off_cube, True, 'StatsCube::walk'),
         t_clear(HTS, r'clear\(\)$', None, 'HashTupleStats::clear'), t_clear(HTS, r'~HashTupleStats\(\)$', None, '~HashTupleStats', True),
         t_clear(CUBE, r'clear\(bool\)$', None, 'StatsCube::clear'), t_clear(CUBE, r'~StatsCube\(\)$', None, '~StatsCube', True)]
for p in (True, False):
    TASKS += [t_entry(HTS, r'getHashEntry\(', False, 'HashTupleStats::getHashEntry', p), t_entry(HTS, r'operator\[\]\(', False, 'HashTupleStats::operator[]', p),
              t_entry(HTS, r'add\(', False, 'HashTupleStats::add', p, 'add'), t_entry(CUBE, r'getCubeEntry\(', True, 'StatsCube::getCubeEntry', p)]


# ---- all combinations of the values of each position ----------------------------------------------------
VAL, IDX = z3.Function('value_at', IN, IN), z3.Function('position_of', IN, IN)
HU = 72     # size of a HashUnique (hashUniqueTupleAdd is proved to use the same distance)


class Zero(Tab):
    def __init__(self, ctx):
        Tab.__init__(self, ctx)
        e, st = self.e, self.st
        self.key, self.hut, self.null, self.f = Obj('key', 'param', 8 * N), Obj('hut', 'param', 1 << 10), Obj('null_stat', 'param', 64), Obj('fn', 'param', 32)
        e.store(st, Ptr(self.null, 0), Ptr(self.vt, 16), PTR)
        self.base = Obj('base', 'param', 1 << 10)
        self.ids = [z3.Int('id%d' % i) for i in range(N)]
        for i, x in enumerate(self.ids):
            st.assume(z3.And(x >= 0, x < 1 << 64))
            e.store(st, Ptr(self.key, 8 * i), x, I64)

    def word(self, st, p, i):
        return self.e.load(st, Ptr(p.obj, p.off + 8 * i), I64)


def sig(fn):
    """the position a zeroWalk handles: by the number of unique tables left"""
    h = re.sub(r'<(HashUnique<EL, HashMap_hash<EL const>, std::equal_to<EL const> >)', r'<HUE', fn.dname)
    return N - h.split('(')[0].split('boost::function')[0].count('HUE')


def zw_args(a, level):
    return dict(zip(('hut', 'tail', 'base_key', 'base', 'null', 'fn') if level < N else ('base_key', 'base', 'null', 'fn'), a))


def t_zero_step(level):
    def t(ctx):
        h = Zero(ctx)
        e, st = h.e, h.st
        fs = [f for f in h.mod.fns.values() if re.search(r'^void lintel::detail::zeroWalk<', f.dname) and not f.decl]
        f = [x for x in fs if sig(x) == level]
        if len(f) != 1:
            raise Unsupported('zeroWalk for position %d' % level)
        E, n = h.table('values', h.hut, 0, 'unique')
        i = z3.Int('i_v')
        M = e.getmap(st, E, 0, I64)
        st.assume(FA([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(SEL(M, i) == VAL(i), IDX(VAL(i)) == i)), pats=[SEL(M, i)]))
        e.assumptions.add('the values in a HashUnique are distinct (P03)')
        u0 = e.getghost(st, E, 'used')

        def step(g, s, fn, a):
            x = zw_args(a, sig(fn))
            k = x['base_key']
            g.oblige(s, 'the recursion handles the next position', z3.BoolVal(sig(fn) == level + 1), 'requires')
            g.oblige(s, 'the recursion works on the same key, data, zero and function',
                     z3.And(z3.BoolVal(k.obj is h.key and x['base'].obj is h.base and x['null'].obj is h.null and x['fn'].obj is h.f), B(k.off == 0)), 'requires')
            if sig(fn) < N:
                g.oblige(s, 'the recursion gets the rest of the key', z3.And(z3.BoolVal(x['tail'].obj is h.key), B(x['tail'].off == 8 * (level + 1))), 'requires')
                g.oblige(s, 'the recursion gets the rest of the value sets', z3.And(z3.BoolVal(x['hut'].obj is h.hut), B(x['hut'].off == HU)), 'requires')
            for j in range(level):
                g.oblige(s, 'the positions before keep their values', h.word(s, Ptr(h.key, 0), j) == h.ids[j], 'requires')
            v = h.word(s, Ptr(h.key, 0), level)
            j = IDX(v)
            g.oblige(s, 'the value is one of this position', z3.And(j >= 0, j < n, VAL(j) == v), 'ensures')
            u = g.getghost(s, E, 'used')
            g.setghost(s, E, 'used', z3.Store(u, j, SEL(u, j) + 1))
            for j in range(level + 1, N):
                w = z3.Int(g.fresh_name('word'))
                s.assume(z3.And(w >= 0, w < 1 << 64))
                g.store(s, Ptr(h.key, 8 * j), w, I64)
        e.contract(r'^void lintel::detail::zeroWalk<', step)

        def inv(L):
            out = []
            u = e.getghost(L.st, E, 'used')
            for nm, v, v0, w in counters(L):
                out.append((nm + ' within', z3.And(v >= 0, v <= n)))
                out.append(('used below ' + nm, FA([i], SEL(u, i) == SEL(u0, i) + z3.If(z3.And(i >= 0, i < v), 1, 0), pats=[SEL(u, i)])))
            for j in range(level):
                out.append(('position %d' % j, h.word(L.st, Ptr(h.key, 0), j) == h.ids[j]))
            return out
        e.invs = [inv]
        res = e.run(f[0], [Ptr(h.hut, 0), Ptr(h.key, 8 * level), Ptr(h.key, 0), Ptr(h.base, 0), Ptr(h.null, 0), Ptr(h.f, 0)], st)
        q = z3.Int('q')
        for s, _ in res:
            u = e.getghost(s, E, 'used')
            e.oblige(s, 'the rest is walked once for every value of this position', z3.Implies(z3.And(q >= 0, q < n), SEL(u, q) == SEL(u0, q) + 1), 'ensures')
            e.oblige(s, 'no statistic is given a value', z3.BoolVal(s.ghost.get('adds', ()) == ()), 'frame')
            e.oblige(s, 'and for no other', z3.Implies(z3.Not(z3.And(q >= 0, q < n)), SEL(u, q) == SEL(u0, q)), 'ensures')
            for j in range(level):
                e.oblige(s, 'the positions before keep their values', h.word(s, Ptr(h.key, 0), j) == h.ids[j], 'frame')
        return done(e, res)
    return Task('zeroWalk position %d of %d' % (level, N), t)


def t_zero_leaf(ctx):
    h = Zero(ctx)
    e, st = h.e, h.st
    fs = [f for f in h.mod.fns.values() if re.search(r'^void lintel::detail::zeroWalk<', f.dname) and not f.decl and sig(f) == N]
    E, n = h.table('base', h.base, 0)
    i = z3.Int('found')
    there = z3.Bool('row_exists')

    def find(g, s, fn, a):
        g.oblige(s, 'the base data is searched for the key', z3.And(z3.BoolVal(a[0].obj is h.base), *[h.word(s, a[1], j) == h.ids[j] for j in range(N)]), 'requires')
        y, m = s.copy(), s.copy()
        y.assume(z3.And(there, i >= 0, i < n))
        m.assume(z3.Not(there))
        return [(y, (Ptr(h.base, 0), i)), (m, (Ptr(h.base, 0), n))]

    def call(g, s, fn, a):
        g.oblige(s, 'the function gets the key', z3.And(*[h.word(s, a[1], j) == h.ids[j] for j in range(N)]), 'ensures')
        v = a[2]
        g.oblige(s, 'the function gets the statistic of the row if there is one, else the zero',
                 z3.If(there, z3.And(z3.BoolVal(v.obj is h.pool), B(v.off == i * PS)), z3.BoolVal(v.obj is h.null)), 'ensures')
        s.ghost['called'] = s.ghost.get('called', 0) + 1
    e.contract(r'^HashMap<.*>::find\(.*\) const$', find)
    e.contract(r'^boost::function[2N]<void, .*Stats&>::operator\(\)\(', call)
    if len(fs) != 1:
        raise Unsupported('zeroWalk past the last position')
    res = e.run(fs[0], [Ptr(h.key, 0), Ptr(h.base, 0), Ptr(h.null, 0), Ptr(h.f, 0)], st)
    for s, _ in res:
        e.oblige(s, 'the function is called once', z3.BoolVal(s.ghost.get('called', 0) == 1), 'ensures')
        e.oblige(s, 'no statistic is given a value', z3.BoolVal(s.ghost.get('adds', ()) == ()), 'frame')
    return done(e, res)


def t_walkzeros(inner):
    def t(ctx):
        h = Zero(ctx)
        e, st = h.e, h.st
        e.opts['fp'] = 'real'
        o, cnt = Obj('object', 'param', 1 << 8), z3.Int('count_zeros')
        st.assume(z3.And(cnt >= 0, cnt <= 1))
        h.table('data', o, 0)
        e.contract(r'^HashUnique<.*>::~?HashUnique\(', h_nop)
        st.ghost['walked'] = 0

        def walk(g, s, fn, a):
            x = zw_args(a, 0)
            last = s.ghost.get('last')
            hut = s.ghost.get('filled')
            g.oblige(s, 'all positions are walked', z3.BoolVal(sig(fn) == 0), 'requires')
            g.oblige(s, 'with the value sets given, one key, this data and the function given',
                     z3.And(z3.BoolVal(x['hut'].obj is h.hut and x['tail'].obj is x['base_key'].obj and x['base'].obj is o and x['fn'].obj is h.f), B(x['tail'].off == x['base_key'].off), B(x['base'].off == 0)), 'requires')
            g.oblige(s, 'with a statistic made for it', z3.BoolVal(last is not None and x['null'].obj is last and last not in s.ghost.get('unmade', ())), 'lifetime')
            ad = s.ghost.get('adds', ())
            g.oblige(s, 'with no value, or one 0 if zeros count', z3.If(cnt != 0, z3.And(z3.BoolVal(len(ad) == 1 and ad[0][0].obj is last), ad[0][1] == 0 if ad else False), z3.BoolVal(len(ad) == 0)), 'ensures')
            s.ghost['walked'] += 1

        def fill(g, s, fn, a):
            g.oblige(s, 'the value sets of this data', z3.BoolVal(a[0].obj is o), 'requires')
            s.ghost['filled'] = a[1].obj

        def nested(g, s, fn, a):
            g.oblige(s, 'this data with the same function, its own value sets and the same zeros',
                     z3.And(z3.BoolVal(a[0].obj is o and a[1].obj is h.f and a[2].obj is s.ghost.get('filled')), tb(a[3]) == (cnt != 0)), 'requires')
            s.ghost['walked'] += 1
        e.contract(r'^void lintel::detail::zeroWalk<', walk)
        e.contract(HTS + r'fillHashUniqueTuple\(', fill)
        if inner:
            res = e.run(h.fn(HTS + r'walkZeros\(.*HashUnique.*, bool\) const$'), [Ptr(o, 0), Ptr(h.f, 0), Ptr(h.hut, 0), cnt != 0], st)
        else:
            e.contract(HTS + r'walkZeros\(.*HashUnique.*, bool\) const$', nested)
            res = e.run(h.fn(HTS + r'walkZeros\(boost::function<void \((?:(?!HashUnique).)*, bool\) const$'), [Ptr(o, 0), Ptr(h.f, 0), cnt != 0], st)
        for s, _ in res:
            e.oblige(s, 'all combinations are walked once', z3.BoolVal(s.ghost['walked'] == 1), 'ensures')
            if inner:
                e.oblige(s, 'the zero is deleted', z3.BoolVal(s.ghost.get('unmade', ()) == (s.ghost.get('last'),)), 'leak')
        return done(e, res)
    return Task('HashTupleStats::walkZeros' + (' with value sets' if inner else ''), t)


def t_fill(ctx):
    h = Zero(ctx)
    e, st = h.e, h.st
    o = Obj('object', 'param', 1 << 8)
    E, n = h.table('data', o, 0)

    def add(g, s, fn, a):
        if len(a) < 2:
            return
        if a[1].obj is not E:
            g.oblige(s, 'the key of an entry is added', False, 'ensures')
            raise PathEnd()
        i = z3.Int(g.fresh_name('entry'))
        s.assume(B(a[1].off == i * h.stride))
        g.oblige(s, 'to the value sets given', z3.And(z3.BoolVal(a[0].obj is h.hut), B(a[0].off == 0), i >= 0, i < n), 'requires')
        c = g.getghost(s, E, 'calls')
        g.setghost(s, E, 'calls', z3.Store(c, i, SEL(c, i) + 1))
    e.contract(r'hashUniqueTupleAdd', add)
    e.invs = [h.walk_inv(E, n)]
    res = e.run(h.fn(HTS + r'fillHashUniqueTuple\('), [Ptr(o, 0), Ptr(h.hut, 0)], st)
    q = z3.Int('q')
    for s, _ in res:
        e.oblige(s, 'the key of every entry is added', z3.Implies(z3.And(q >= 0, q < n), SEL(e.getghost(s, E, 'calls'), q) > SEL(h.c0, q)), 'ensures')
    return done(e, res)


def t_tupleadd(ctx):
    h = Zero(ctx)
    e, st = h.e, h.st
    got = []

    def add(g, s, fn, a):
        got.append((a[0].off, h.word(s, a[1], 0)))
        s.ghost['added'] = s.ghost.get('added', ()) + ((a[0].obj, a[0].off, h.word(s, a[1], 0)),)
        return True
    e.contract(r'^HashUnique<.*>::add\(EL const&\)$', add)
    f = fn_of(h.mod, r'^void lintel::detail::hashUniqueTupleAdd<boost::tuples::cons<HashUnique<.*boost::tuples::tuple<EL')
    res = e.run(f, [Ptr(h.hut, 0), Ptr(h.key, 0)], st)
    for s, _ in res:
        ad = s.ghost.get('added', ())
        e.oblige(s, 'every value of the key is added to the set of its position', z3.And(z3.BoolVal(len(ad) == N and all(o is h.hut for o, _, _ in ad)),
                 *[z3.Or(*[z3.And(B(off == HU * j), x == h.ids[j]) for _, off, x in ad]) for j in range(N)]), 'ensures')
    return done(e, res)


TASKS += [t_zero_step(i) for i in range(N)] + [Task('zeroWalk past the last position', t_zero_leaf), t_walkzeros(True), t_walkzeros(False),
                                               Task('HashTupleStats::fillHashUniqueTuple', t_fill), Task('hashUniqueTupleAdd', t_tupleadd)]


# ---- removing entries during a walk -----------------------------------------------------------------------
def t_prune(cls, name):
    def t(ctx):
        anykey = 'Cube' in cls
        h = Tab(ctx, anykey)
        e, st = h.e, h.st
        e.opts['ghost_sorts'].update(live=BO)
        o = Obj('object', 'param', 1 << 10)
        off = off_cube(h) if anykey else 0
        E, n = h.table('pruned', o, off)
        k = (o, off)
        nw = h.keys // 8
        KEY = z3.Function('position_of_key', *([IN] * nw + [IN]))
        PR = z3.Function('prune', IN, BO)
        i, q = z3.Ints('i_p q_p')
        maps = [e.getmap(st, E, 8 * w, I64) for w in range(nw)]
        st.assume(FA([i], z3.Implies(z3.And(i >= 0, i < n), KEY(*[SEL(m, i) for m in maps]) == i), pats=[SEL(maps[0], i)]))
        L0 = e.getghost(st, E, 'live')
        st.assume(FA([i], SEL(L0, i) == z3.And(i >= 0, i < n), pats=[SEL(L0, i)]))
        inr = lambda x: z3.And(x >= 0, x < n)
        live = lambda s: e.getghost(s, E, 'live')

        def at(s, j):
            """j is a live entry or the end"""
            s.assume(z3.And(j >= 0, j <= n, z3.Implies(j < n, SEL(live(s), j))))

        def nextpos(s, after):
            j = z3.Int(e.fresh_name('pos'))
            at(s, j)
            s.assume(z3.And(j >= after, FA([i], z3.Implies(z3.And(i >= after, i < j), z3.Not(SEL(live(s), i))), pats=[SEL(live(s), i)])))
            return j

        def begin(g, s, fn, a):
            out = not fn.dname.endswith(' const')
            if not out:
                raise Unsupported('constant iteration')
            g.store(s, Ptr(a[0].obj, a[0].off), Ptr(o, off), PTR)
            g.store(s, Ptr(a[0].obj, a[0].off + 8), nextpos(s, 0) if '::begin(' in fn.dname else n, I64)
        e.contract(r'^HashMap<.*>::(begin|end)\(\)$', begin)

        def valid(s, p, what):
            kk, j = h.get(s, p)
            e.oblige(s, 'an iterator is %s only at an entry that was not removed' % what, z3.And(j < n, SEL(live(s), j)), 'requires')
            s.assume(z3.And(j >= 0, j < n, SEL(live(s), j)))
            return j

        def incr(g, s, fn, a):
            j = valid(s, a[0], 'advanced')
            g.store(s, Ptr(a[0].obj, a[0].off + 8), nextpos(s, j + 1), I64)
            return a[0]

        def deref(g, s, fn, a):
            return Ptr(E, valid(s, a[0], 'dereferenced') * h.stride)

        def partial(g, s, fn, a):
            kk, j = h.get(s, a[0])
            x = z3.Int(g.fresh_name('pos'))
            at(s, x)
            s.assume(FA([i], z3.Implies(z3.And(i >= 0, i < x, SEL(live(s), i)), i < j), pats=[SEL(live(s), i)]))
            g.store(s, Ptr(a[0].obj, a[0].off + 8), x, I64)
        it = r'^HashTable<.*>::(const_)?iterator(_base<.*>)?::'
        e.contract(it + r'operator\+\+\(\)$', incr)
        e.contract(it + r'operator(\*|->)\(\)$', deref)
        e.contract(it + r'partialReset\(\)$', partial)
        e.assumptions.add('partialReset after a removal: no entry that was not visited is skipped (P03)')

        def pos(s, p):
            words = [e.load(s, Ptr(p.obj, p.off + 8 * w), I64) for w in range(nw)]
            return KEY(*words)

        def ask(g, s, fn, a):
            j = pos(s, a[1])
            g.oblige(s, 'the function is asked about the key of an entry', z3.And(inr(j), SEL(live(s), j)), 'ensures')
            s.assume(z3.And(inr(j), SEL(live(s), j)))
            return PR(j)

        def remove(g, s, fn, a):
            j = pos(s, a[1])
            g.oblige(s, 'the entry removed is in the table', z3.And(inr(j), SEL(live(s), j)), 'requires')
            g.oblige(s, 'the statistic of the entry removed was deleted', SEL(g.getghost(s, h.pool, 'deleted'), j) == 1, 'leak')
            g.oblige(s, 'only entries the function names are removed', PR(j), 'ensures')
            s.assume(z3.And(inr(j), SEL(live(s), j), PR(j)))
            g.setghost(s, E, 'live', z3.Store(live(s), j, False))
            return True
        e.contract(r'^boost::function[1N]<bool, .*>::operator\(\)\(', ask)
        e.contract(r'^HashMap<.*>::remove\(', remove)
        h.walk_inv(E, n)
        st.assume(FA([i], SEL(h.d0, i) == 0, pats=[SEL(h.d0, i)]))

        def inv(L):
            d, lv = e.getghost(L.st, h.pool, 'deleted'), live(L.st)
            out = [('live entries', FA([i], z3.Implies(SEL(lv, i), inr(i)), pats=[SEL(lv, i)])),
                   ('removed ones were named and deleted', FA([i], z3.Implies(z3.And(inr(i), z3.Not(SEL(lv, i))), z3.And(PR(i), SEL(d, i) == 1)), pats=[SEL(lv, i)])),
                   ('the others are not deleted', FA([i], z3.Implies(z3.Or(SEL(lv, i), z3.Not(inr(i))), SEL(d, i) == 0), pats=[SEL(d, i)]))]
            for nm, v, v0, w in counters(L):
                out.append((nm + ' at an entry', z3.And(v >= 0, v <= n, z3.Implies(v < n, SEL(lv, v)))))
                out.append(('kept below ' + nm, FA([i], z3.Implies(z3.And(SEL(lv, i), i < v), z3.Not(PR(i))), pats=[SEL(lv, i)])))
            return out
        e.invs = [inv]
        res = e.run(h.fn(cls + r'prune\('), [Ptr(o, 0), Ptr(Obj('fn', 'param', 32), 0)], st)
        for s, _ in res:
            d = e.getghost(s, h.pool, 'deleted')
            e.oblige(s, 'exactly the entries the function names are removed', z3.Implies(inr(q), SEL(live(s), q) == z3.Not(PR(q))), 'ensures')
            e.oblige(s, 'with their statistics, and no other', SEL(d, q) == z3.If(z3.And(inr(q), PR(q)), 1, 0), 'ensures')
        return done(e, res)
    return Task(name, t)


TASKS += [t_prune(HTS, 'HashTupleStats::prune'), t_prune(CUBE, 'StatsCube::prune')]

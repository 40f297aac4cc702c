"""Contracts of HashMap and HashUnique over the contracts of HashTable (proved in specs/hash.py), and of RotatingHashMap
over the contracts of HashMap.  A table is a finite map from key classes (rank of a key) to entries; the entry of rank r
stands at index r of the table's current storage, which adding an entry replaces."""
import re
import z3
from vc import *
from lib import *
from runner import Task
from stdvec import VecType, vector_contracts, vec_state

DRIVERS = {'maps': ['drivers/maps.cpp']}
IN = z3.IntSort()
RANK = z3.Function('rank', IN, IN)
W = 1 << 32
HM = r'HashMap<KEY, VAL, KH, KE>'
HU = r'HashUnique<KEY, KH, KE>'
RH = r'RotatingHashMap<KEY, VAL, KH, KE>'
TABLE = r'HashTable<.*>'


def tb(r):
    return r if z3.is_bool(r) else z3.BoolVal(bool(r)) if isinstance(r, (bool, int)) else r != 0


def bi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


class Maps:
    """the table contracts, for tables of (key, value) pairs or of keys alone"""

    def __init__(self, ctx, level):
        self.mod = ctx['mods']['maps']
        e = self.e = Engine(self.mod, 'int', dict(ghost_sorts=dict(dom=z3.BoolSort(), calls=IN)))
        std_contracts(e)
        e.contract(r'^boost::(io::|basic_format)', h_nop)
        e.contract(r'^boost::basic_format<.*>& boost::basic_format<.*>::operator%', lambda g, st, fn, a: a[0])
        e.contract(r'^boost::function<void \(KEY const&, VAL&\)>::(~?function)\(', h_nop)
        e.contract(r'^boost::function[2N]<void, KEY const&, VAL&>::(~?function[2N])\(', h_nop)
        e.contract(r'^boost::function[2N]<void, KEY const&, VAL&>::operator\(\)\(KEY const&, VAL&\) const$', self.callback)
        self.st = State()
        self.stride = 8 if level == 'unique' else 16
        self.level = level
        self.enums = []
        T = TABLE if level in ('map', 'unique') else HM
        c = lambda rx, h: e.contract('^' + T + '::' + rx, h)
        D = r'\((std::pair<KEY, VAL>|KEY) const&'
        c(r'lookup%s\)' % D, self.lookup)
        c(r'remove%s, bool\)' % D, self.remove)
        c(r'clear\(\)', self.clear)
        c(r'size\(\) const', lambda g, st, fn, a: self.cnt(st, a[0].obj))
        c(r'empty\(\) const', lambda g, st, fn, a: self.cnt(st, a[0].obj) == 0)
        c(r'begin\((int)?\)', lambda g, st, fn, a: self.iter(st, fn, a, 'begin'))
        c(r'end\(\)', lambda g, st, fn, a: self.iter(st, fn, a, 'end'))
        c(r'reserve\(unsigned int\)', self.reserve)
        c(r'(capacity|memoryUsage)\(\)', lambda g, st, fn, a: self.any64(st))
        c(r'operator=\((HashTable|HashMap)<.*const&\)', self.assign)
        if level == 'rotating':
            c(r'operator\[\]\(KEY const&\)', self.index)
            c(r'addUnlessExist\(KEY const&\)', self.add_unless)
            c(r'exists\(KEY const&\) const', lambda g, st, fn, a: z3.Select(self.dom(st, a[0].obj), self.rank(st, a[1])))
            c(r'HashMap\((double)?\)', self.ctor)
            c(r'~HashMap\(\)', self.dtor)
            c(r'HashMap\(HashMap<.*const&\)', self.copy)
        else:
            c(r'add%s\)' % D, self.add)
            c(r'addOrReplace%s, bool&\)' % D, self.add_or_replace)
            c(r'find%s\)' % D, self.find)
            c(r'erase\(', self.erase)
            c(r'HashTable\((double)?\)', self.ctor)
            c(r'~HashTable\(\)', self.dtor)
        it = '^' + TABLE + r'::(const_)?iterator(_base<.*>)?::'
        e.contract(it + r'operator\+\+\(\)$', self.incr)
        e.contract(it + r'operator(\*|->)\(\)$', lambda g, st, fn, a: self.deref(st, a[0]))
        e.contract(it + r'operator(==|!=)\(', self.itcmp)
        e.contract('^' + TABLE + r'::iterator::iterator\(HashTable<.*>::iterator const&\)$', self.itcopy)
        e.assumptions.add('keys: equality is a relation with classes (rank), hash consistent with it')

    # ---- ghost state of a table
    def ent(self, st, T):
        k = ('ent', T)
        if k not in st.ghost:
            E = Obj('entries_' + T.name, 'param', self.stride * W, stride=self.stride, count=W)
            st.ghost[k] = self.__dict__.setdefault('ent0', {}).setdefault(T, E)
        return st.ghost[k]

    def dom(self, st, T):
        self.check(st, T)
        return self.e.getghost(st, T, 'dom')

    def cnt(self, st, T):
        self.check(st, T)
        k = ('cnt', T)
        if k not in st.ghost:
            v = z3.Int('count_' + T.name)
            st.assume(z3.And(v >= 0, v < (1 << 31) - 2))
            st.ghost[k] = v
        return st.ghost[k]

    def check(self, st, T):
        if T in st.dead or ('gone', T) in st.ghost:
            self.e.oblige(st, 'a table is not used after its destruction', False, 'lifetime')
            raise PathEnd()

    def rank(self, st, p):
        if isinstance(p, Ptr) and p.obj in st.dead:
            self.e.oblige(st, 'the key given is not in storage that was released', False, 'lifetime')
            raise PathEnd()
        r = RANK(bi(self.e.load(st, p, I64)))
        st.assume(z3.And(r >= 0, r < W))
        return r

    def any64(self, st):
        v = z3.Int(self.e.fresh_name('n'))
        st.assume(z3.And(v >= 0, v < 1 << 64))
        return v

    def key(self, st, T, r):
        return bi(self.e.load(st, Ptr(self.ent(st, T), self.stride * r), I64))

    def val(self, st, T, r):
        return bi(self.e.load(st, Ptr(self.ent(st, T), self.stride * r + 8), I64))

    def entry(self, st, T, r):
        """pointer to the entry of rank r, which is in the table"""
        st.assume(RANK(self.key(st, T, r)) == r)
        st.assume(self.cnt(st, T) >= 1)
        off = 8 if self.level == 'rotating' else 0
        return Ptr(self.ent(st, T), self.stride * r + off)

    def two(self, st, cond):
        y, n = st.copy(), st.copy()
        y.assume(cond)
        n.assume(z3.Not(cond))
        return y, n

    # ---- contracts
    def lookup(self, g, st, fn, a):
        T = a[0].obj
        r = self.rank(st, a[1])
        y, n = self.two(st, z3.Select(self.dom(st, T), r))
        return [(y, self.entry(y, T, r)), (n, NULL)]

    def fresh_ent(self, st, T):
        """adding an entry may move all of them"""
        old = self.ent(st, T)
        new = Obj(g_name(self.e, 'entries_' + T.name), 'param', self.stride * W, stride=self.stride, count=W)
        self.e.load(st, Ptr(old, 0), I64)
        if self.stride == 16:
            self.e.load(st, Ptr(old, 8), I64)
        for (o, k), v in list(st.mem.items()):
            if o is old:
                st.mem[(new, k)] = v
        st.dead[old] = 'moved when an entry was added'
        st.ghost[('ent', T)] = new

    def insert(self, st, T, r, key, val):
        d, n = self.dom(st, T), self.cnt(st, T)
        self.fresh_ent(st, T)
        self.e.store(st, Ptr(self.ent(st, T), self.stride * r), key, I64)
        if self.stride == 16:
            self.e.store(st, Ptr(self.ent(st, T), self.stride * r + 8), val, I64)
        self.e.setghost(st, T, 'dom', z3.Store(d, r, True))
        st.ghost[('cnt', T)] = n + 1

    def add(self, g, st, fn, a):
        T, p = a[0].obj, a[1]
        r = self.rank(st, p)
        g.oblige(st, 'the key added is not in the table yet', z3.Not(z3.Select(self.dom(st, T), r)), 'requires')
        st.assume(z3.Not(z3.Select(self.dom(st, T), r)))
        k = g.load(st, p, I64)
        v = g.load(st, Ptr(p.obj, p.off + 8), I64) if self.stride == 16 else None
        self.insert(st, T, r, k, v)
        return self.entry(st, T, r)

    def add_or_replace(self, g, st, fn, a):
        T, p = a[0].obj, a[1]
        r = self.rank(st, p)
        k = g.load(st, p, I64)
        v = g.load(st, Ptr(p.obj, p.off + 8), I64) if self.stride == 16 else None
        y, n = self.two(st, z3.Select(self.dom(st, T), r))
        self.entry(y, T, r)
        g.store(y, Ptr(self.ent(y, T), self.stride * r), k, I64)
        if v is not None:
            g.store(y, Ptr(self.ent(y, T), self.stride * r + 8), v, I64)
        g.store(y, a[2], 1, I8)
        self.insert(n, T, r, k, v)
        g.store(n, a[2], 0, I8)
        return [(y, self.entry(y, T, r)), (n, self.entry(n, T, r))]

    def index(self, g, st, fn, a):
        T = a[0].obj
        k = g.load(st, a[1], I64)
        r = self.rank(st, a[1])
        y, n = self.two(st, z3.Select(self.dom(st, T), r))
        self.insert(n, T, r, k, 0)
        return [(y, self.entry(y, T, r)), (n, self.entry(n, T, r))]

    def add_unless(self, g, st, fn, a):
        T = a[0].obj
        k = g.load(st, a[1], I64)
        r = self.rank(st, a[1])
        y, n = self.two(st, z3.Select(self.dom(st, T), r))
        self.insert(n, T, r, k, 0)
        return [(y, False), (n, True)]

    def drop(self, st, T, r):
        n = self.cnt(st, T)
        st.assume(n >= 1)
        self.e.setghost(st, T, 'dom', z3.Store(self.dom(st, T), r, False))
        st.ghost[('cnt', T)] = n - 1
        self.e.store(st, Ptr(self.ent(st, T), self.stride * r), self.any64(st), I64)
        if self.stride == 16:
            self.e.store(st, Ptr(self.ent(st, T), self.stride * r + 8), self.any64(st), I64)

    def remove(self, g, st, fn, a):
        T = a[0].obj
        r = self.rank(st, a[1])
        must = a[2] if len(a) > 2 else 1
        must = must if z3.is_bool(must) else z3.BoolVal(bool(must)) if isinstance(must, (int, bool)) else must != 0
        y, n = self.two(st, z3.Select(self.dom(st, T), r))
        self.drop(y, T, r)
        x = n.copy()
        x.assume(must)
        if g.feasible(n, must):
            g.oblige(x, 'removal of a missing key is refused only on demand', B(self.may_refuse(x)), 'assert')
        n.assume(z3.Not(must))
        return [(y, True), (n, False)]

    may_refuse = staticmethod(lambda st: True)

    def clear(self, g, st, fn, a):
        T = a[0].obj
        self.dom(st, T)
        g.setghost(st, T, 'dom', z3.K(IN, z3.BoolVal(False)))
        st.ghost[('cnt', T)] = z3.IntVal(0)
        return None

    def reserve(self, g, st, fn, a):
        n = self.cnt(st, a[0].obj)
        g.oblige(st, 'reserve of a table with entries is refused only', B(self.may_refuse(st)) if not g.must(st, n == 0) else True, 'assert')
        st.assume(n == 0)
        return None

    def ctor(self, g, st, fn, a):
        T = a[0].obj
        if T.name.startswith('new'):
            T.tags.pop('untyped', None)
        g.setghost(st, T, 'dom', z3.K(IN, z3.BoolVal(False)))
        st.ghost[('cnt', T)] = z3.IntVal(0)
        st.ghost.pop(('gone', T), None)
        st.ghost[('ent', T)] = Obj(g_name(g, 'entries_' + T.name), 'param', self.stride * W, stride=self.stride, count=W)
        return None

    def dtor(self, g, st, fn, a):
        T = a[0].obj
        self.check(st, T)
        st.dead[self.ent(st, T)] = 'table destroyed'
        st.ghost[('gone', T)] = True
        return None

    def copied(self, g, st, T, S):
        d, n = self.dom(st, S), self.cnt(st, S)
        if T is S:
            return
        src = self.ent(st, S)
        g.load(st, Ptr(src, 0), I64)
        if self.stride == 16:
            g.load(st, Ptr(src, 8), I64)
        new = Obj(g_name(g, 'entries_' + T.name), 'param', self.stride * W, stride=self.stride, count=W)
        for (o, k), v in list(st.mem.items()):
            if o is src:
                st.mem[(new, k)] = v
        st.ghost[('ent', T)] = new
        st.ghost[('cnt', T)] = n
        g.setghost(st, T, 'dom', d)

    def assign(self, g, st, fn, a):
        T, S = a[0].obj, a[1].obj
        self.dom(st, T)
        if T is not S:
            st.dead[self.ent(st, T)] = 'table assigned to'
        self.copied(g, st, T, S)
        return a[0]

    def copy(self, g, st, fn, a):
        st.ghost.pop(('gone', a[0].obj), None)
        self.copied(g, st, a[0].obj, a[1].obj)

    # ---- iteration: positions 0..count in an enumeration of the keys
    def enum(self, st, T):
        d, n = self.dom(st, T), self.cnt(st, T)
        for d2, n2, seq, pos in self.enums:
            if d2.eq(d) and n2.eq(bi(n)):
                break
        else:
            k = len(self.enums)
            seq, pos = z3.Function('seq%d' % k, IN, IN), z3.Function('pos%d' % k, IN, IN)
            self.enums.append((d, bi(n), seq, pos))
        i, r = z3.Ints('i r')
        f1 = FA([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(d, seq(i)), pos(seq(i)) == i, seq(i) >= 0, seq(i) < W)), pats=[seq(i)])
        f2 = FA([r], z3.Implies(z3.And(z3.Select(d, r), r >= 0, r < W), z3.And(pos(r) >= 0, pos(r) < n, seq(pos(r)) == r)), pats=[pos(r)])
        if not any(p.eq(f1) for p in st.pc):
            st.assume(f1)
            st.assume(f2)
        return seq, pos

    def put_iter(self, st, a, T, i):
        """the iterator through memory (two arguments) or in registers"""
        self.enum(st, T)
        if len(a) > 1:
            self.e.store(st, Ptr(a[0].obj, a[0].off), Ptr(T, 0), PTR)
            self.e.store(st, Ptr(a[0].obj, a[0].off + 8), i, I64)
            return None
        return (Ptr(T, 0), i)

    def iter(self, st, fn, a, what):
        out = not fn.dname.endswith(' const')
        T = a[1 if out else 0].obj
        n = self.cnt(st, T)
        rest = a[2 if out else 1:]
        if rest and (is_sym(rest[0]) or rest[0] != 0):
            raise Unsupported('iteration from another chain than the first')
        return self.put_iter(st, a[:2] if out else a[:1], T, 0 if what == 'begin' else n)

    def find(self, g, st, fn, a):
        T = a[-2].obj
        r = self.rank(st, a[-1])
        seq, pos = self.enum(st, T)
        y, n = self.two(st, z3.Select(self.dom(st, T), r))
        y.assume(z3.And(pos(r) >= 0, pos(r) < self.cnt(st, T), seq(pos(r)) == r))
        arg = a[:-1]
        return [(y, self.put_iter(y, arg, T, pos(r))), (n, self.put_iter(n, arg, T, self.cnt(n, T)))]

    def get_iter(self, st, p):
        T = self.e.load(st, Ptr(p.obj, p.off), PTR)
        i = self.e.load(st, Ptr(p.obj, p.off + 8), I64)
        if not isinstance(T, Ptr) or T.obj is None:
            raise Unsupported('iterator')
        return T.obj, bi(i)

    def itcopy(self, g, st, fn, a):
        T, i = self.get_iter(st, a[1])
        self.put_iter(st, [a[0], None], T, i)

    def incr(self, g, st, fn, a):
        T, i = self.get_iter(st, a[0])
        g.oblige(st, 'only an iterator that is not at the end is advanced', i < self.cnt(st, T), 'requires')
        st.assume(i < self.cnt(st, T))
        g.store(st, Ptr(a[0].obj, a[0].off + 8), i + 1, I64)
        return a[0]

    def deref(self, st, p):
        T, i = self.get_iter(st, p)
        n = self.cnt(st, T)
        seq, pos = self.enum(st, T)
        self.e.oblige(st, 'only an iterator that is not at the end is dereferenced', i < n, 'requires')
        st.assume(i < n)
        r = seq(i)
        st.assume(z3.And(z3.Select(self.dom(st, T), r), pos(r) == i, r >= 0, r < W, RANK(self.key(st, T, r)) == r))
        return Ptr(self.ent(st, T), self.stride * r)

    def itcmp(self, g, st, fn, a):
        T, i = self.get_iter(st, a[0])
        S, j = self.get_iter(st, a[1])
        same = (i == j) if T is S else z3.BoolVal(False)
        return same if '==' in fn.dname.split('(')[0] else z3.Not(same)

    def erase(self, g, st, fn, a):
        T, i = self.get_iter(st, a[-1])
        if T is not a[-2].obj:
            g.oblige(st, 'erase of an iterator into this table', False, 'requires')
            raise PathEnd()
        seq, pos = self.enum(st, T)
        g.oblige(st, 'erase of an entry', i < self.cnt(st, T), 'requires')
        r = seq(i)
        st.assume(z3.And(i < self.cnt(st, T), z3.Select(self.dom(st, T), r), r >= 0, r < W))
        self.drop(st, T, r)
        if len(a) > 2:
            self.put_iter(st, [a[0], a[1]], T, self.fresh_pos(st, T))
        return None

    def fresh_pos(self, st, T):
        v = self.any64(st)
        st.assume(v <= self.cnt(st, T))
        return v

    def callback(self, g, st, fn, a):
        """the function given by the user: sees one entry, may change its value"""
        k, v = a[1], a[2]
        T = next((t for (w, t), o in st.ghost.items() if w == 'ent' and o is k.obj), None) if isinstance(k, Ptr) else None
        if T is None or v.obj is not k.obj:
            g.oblige(st, 'the function is called with the key and value of one entry of a table', False, 'ensures')
            raise PathEnd()
        g.oblige(st, 'the value handed over belongs to the key', v.off == k.off + 8, 'ensures')
        r = self.rank(st, k)
        g.oblige(st, 'the entry handed over is in the table', z3.And(z3.Select(self.dom(st, T), r), k.off == self.stride * r), 'ensures')
        c = g.getghost(st, T, 'calls')
        g.setghost(st, T, 'calls', z3.Store(c, r, z3.Select(c, r) + 1))
        g.store(st, Ptr(self.ent(st, T), self.stride * r + 8), self.any64(st), I64)
        return None

    # ---- tasks
    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(pat, f.dname) and not f.decl]
        if len(fs) != 1:
            raise Unsupported('%d functions for %s' % (len(fs), pat))
        return fs[0]

    def table(self, name):
        T = Obj(name, 'param', 72)
        self.cnt(self.st, T)
        self.ent(self.st, T)
        self.dom(self.st, T)
        self.key(self.st, T, z3.IntVal(0))
        if self.stride == 16:
            self.val(self.st, T, z3.IntVal(0))
        return T

    def snap(self, st, T):
        return Snap(self, st, T)


def g_name(e, n):
    return e.fresh_name(n)


class Snap:
    """the contents of a table at one point"""

    def __init__(self, m, st, T):
        self.dom, self.cnt = m.dom(st, T), bi(m.cnt(st, T))
        E = m.ent(st, T)
        self.km = m.e.getmap(st, E, 0, I64)
        self.vm = m.e.getmap(st, E, 8, I64) if m.stride == 16 else None

    def at(self, r):
        return z3.Select(self.dom, r)

    def v(self, r):
        return z3.Select(self.vm, r)

    def k(self, r):
        return z3.Select(self.km, r)


def same_at(m, a, b, r):
    """the tables agree on key class r"""
    c = [a.at(r) == b.at(r), z3.Implies(a.at(r), a.k(r) == b.k(r))]
    if m.stride == 16:
        c.append(z3.Implies(a.at(r), a.v(r) == b.v(r)))
    return z3.And(c)


def others(m, st, a, b, ranks, what='all other entries are untouched'):
    q = z3.Int('other')
    m.e.oblige(st, what, z3.Implies(z3.And([z3.And(q >= 0, q < W)] + [q != r for r in ranks]), same_at(m, a, b, q)), 'frame')


def done(m, res):
    m.e.returns = len(res)
    return m.e


# ------------------------------------------------------------------ HashMap, HashUnique
def mapfn(cls, pat, post, alias=(False, True), extra=None, refuse=None, level=None):
    """one member taking a key; the key may be one stored in the table itself"""
    lev = level or ('unique' if cls is HU else 'map')

    def mk(al):
        def t(ctx):
            m = Maps(ctx, lev)
            st = m.st
            T = m.table('table')
            a = m.snap(st, T)
            if al:
                r = z3.Int('alias_rank')
                st.assume(z3.And(r >= 0, r < W, a.at(r)))
                st.assume(RANK(a.k(r)) == r)
                kp = Ptr(m.ent(st, T), m.stride * r)
                kid = a.k(r)
            else:
                ko = Obj('key', 'param', 8)
                kid = z3.Int('key_id')
                st.assume(z3.And(kid >= 0, kid < 1 << 64))
                m.e.store(st, Ptr(ko, 0), kid, I64)
                kp = Ptr(ko, 0)
            r = RANK(kid)
            st.assume(z3.And(r >= 0, r < W))
            m.kid = kid
            if '::' not in pat and pat.startswith('dGet'):
                for name in m.mod.gnames() if hasattr(m.mod, 'gnames') else ['_ZZNK7HashMapI3KEY3VAL2KH2KEE4dGetERKS0_E9default_v']:
                    m.e.store(st, Ptr(m.e.global_obj(st, name), 0), 0, I64)
            args = [Ptr(T, 0), kp] + (extra(m, st) if extra else [])
            if refuse:
                m.may_refuse = lambda s: refuse(m, s, a, r)
                m.e.assert_ok = lambda g, s: refuse(m, s, a, r)
            res = m.e.run(m.fn('^' + '(.* )?' + cls + '::' + pat), args, st)
            for s, ret in res:
                post(m, s, T, a, m.snap(s, T), r, ret)
            return done(m, res)
        return t
    return [Task('%s::%s%s' % (cls.split('<')[0], re.sub(r'\\', '', pat).split('(')[0] + (' const' if 'const$' in pat else ''), ' (key inside the table)' if al else ''), mk(al)) for al in alias]


def p_lookup(m, s, T, a, b, r, ret):
    e = m.e
    if isinstance(ret, Ptr) and ret.obj is None:
        e.oblige(s, 'nothing found only if the key is not stored', z3.Not(a.at(r)), 'ensures')
    else:
        e.oblige(s, 'found only if the key is stored', a.at(r), 'ensures')
        e.oblige(s, 'the value stored under the key', z3.BoolVal(ret.obj is m.ent(s, T)) if not is_sym(ret.off) and ret.obj is not m.ent(s, T) else z3.And(z3.BoolVal(ret.obj is m.ent(s, T)), ret.off == m.stride * r + 8), 'ensures')
    others(m, s, a, b, [], 'the map is not changed')
    e.oblige(s, 'number of entries', b.cnt == a.cnt, 'frame')


def p_index(m, s, T, a, b, r, ret):
    e = m.e
    e.oblige(s, 'the entry of the key', z3.And(z3.BoolVal(isinstance(ret, Ptr) and ret.obj is m.ent(s, T)), ret.off == m.stride * r + 8, b.at(r)), 'ensures')
    e.oblige(s, 'a value stored before is kept, a new one is the default', b.v(r) == z3.If(a.at(r), a.v(r), 0), 'ensures')
    e.oblige(s, 'the key kept, or the key given', b.k(r) == z3.If(a.at(r), a.k(r), m.kid), 'ensures')
    e.oblige(s, 'one entry more if the key was not stored', b.cnt == a.cnt + z3.If(a.at(r), 0, 1), 'ensures')
    others(m, s, a, b, [r])


def p_addunless(m, s, T, a, b, r, ret):
    e = m.e
    e.oblige(s, 'the key is stored', b.at(r), 'ensures')
    e.oblige(s, 'added unless it was there', tb(ret) == z3.Not(a.at(r)), 'ensures')
    if m.stride == 16:
        e.oblige(s, 'a value stored before is kept, a new one is the default', b.v(r) == z3.If(a.at(r), a.v(r), 0), 'ensures')
    e.oblige(s, 'the key kept, or the key given', b.k(r) == z3.If(a.at(r), a.k(r), m.kid), 'ensures')
    e.oblige(s, 'one entry more if the key was not stored', b.cnt == a.cnt + z3.If(a.at(r), 0, 1), 'ensures')
    others(m, s, a, b, [r])


def p_replace(m, s, T, a, b, r, ret):
    e = m.e
    e.oblige(s, 'the key is stored as given', z3.And(b.at(r), b.k(r) == m.kid), 'ensures')
    e.oblige(s, 'replaced if it was there', tb(ret) == a.at(r), 'ensures')
    e.oblige(s, 'one entry more if the key was not stored', b.cnt == a.cnt + z3.If(a.at(r), 0, 1), 'ensures')
    others(m, s, a, b, [r])


def p_exists(m, s, T, a, b, r, ret):
    m.e.oblige(s, 'whether the key is stored', tb(ret) == a.at(r), 'ensures')
    others(m, s, a, b, [], 'the map is not changed')
    m.e.oblige(s, 'number of entries', b.cnt == a.cnt, 'frame')


def p_cget(m, s, T, a, b, r, ret):
    m.e.oblige(s, 'returns only if the key is stored', a.at(r), 'ensures')
    p_lookup(m, s, T, a, b, r, ret)


def p_dget(m, s, T, a, b, r, ret):
    m.e.oblige(s, 'the value stored, or the default value', bi(m.e.load(s, ret, I64)) == z3.If(a.at(r), a.v(r), 0), 'ensures')
    others(m, s, a, b, [], 'the map is not changed')


def p_remove(m, s, T, a, b, r, ret):
    e = m.e
    e.oblige(s, 'the key is not stored', z3.Not(b.at(r)), 'ensures')
    if ret is not None:
        e.oblige(s, 'whether something was removed', tb(ret) == a.at(r), 'ensures')
    e.oblige(s, 'one entry less if the key was stored', b.cnt == a.cnt - z3.If(a.at(r), 1, 0), 'ensures')
    e.oblige(s, 'a missing key is accepted only if it need not exist', z3.Or(a.at(r), z3.Not(m.must)), 'ensures')
    others(m, s, a, b, [r])


def x_must(m, st):
    m.must = z3.Bool('must_exist')
    return [m.must]


def r_remove(m, s, a, r):
    return z3.And(z3.Not(a.at(r)), m.must)


def dget_global(ctx_fn):
    def t(ctx):
        return ctx_fn(ctx)
    return t


def plain(cls, pat, post, nargs=0, level=None, name=None, extra=None, refuse=None):
    lev = level or ('unique' if cls is HU else 'map')

    def t(ctx):
        m = Maps(ctx, lev)
        st = m.st
        T = m.table('table')
        a = m.snap(st, T)
        if refuse:
            m.may_refuse = lambda s: refuse(m, s, a)
        args = [Ptr(T, 0)] + (extra(m, st) if extra else [])
        res = m.e.run(m.fn('^' + cls + '::' + pat), args, st)
        for s, ret in res:
            post(m, s, T, a, m.snap(s, T), ret)
        return done(m, res)
    return Task('%s::%s' % (cls.split('<')[0], name or re.sub(r'\\', '', pat).split('(')[0]), t)


def p_size(m, s, T, a, b, ret):
    m.e.oblige(s, 'number of keys stored', ret == a.cnt, 'ensures')
    others(m, s, a, b, [], 'the map is not changed')


def p_empty(m, s, T, a, b, ret):
    m.e.oblige(s, 'no keys stored', tb(ret) == (a.cnt == 0), 'ensures')


def p_clear(m, s, T, a, b, ret):
    q = z3.Int('other')
    m.e.oblige(s, 'no key is stored', z3.Not(b.at(q)), 'ensures')
    m.e.oblige(s, 'no entries', b.cnt == 0, 'ensures')


def t_construct(cls, kind):
    def t(ctx):
        m = Maps(ctx, 'unique' if cls is HU else 'map')
        st = m.st
        T = Obj('self', 'param', 72)
        n = cls.split('<')[0]
        q = z3.Int('other')
        if kind in ('default', 'chain'):
            args = [Ptr(T, 0)] + ([z3.RealVal(2)] if kind == 'chain' else [])
            res = m.e.run(m.fn('^%s::%s\\(%s\\)' % (cls, n, 'double' if kind == 'chain' else '')), args, st)
            for s, _ in res:
                m.e.oblige(s, 'empty', z3.And(z3.Not(z3.Select(m.dom(s, T), q)), m.cnt(s, T) == 0), 'ensures')
            return done(m, res)
        S = m.table('from')
        a = m.snap(st, S)
        if kind == 'self':
            T = S
        elif kind == 'assign':
            T = m.table('self')
        pat = '%s\\(%s const&\\)' % (n if kind == 'copy' else 'operator=', n + '<.*>')
        res = m.e.run(m.fn('^%s::%s' % (cls, pat)), [Ptr(T, 0), Ptr(S, 0)], st)
        for s, _ in res:
            b = m.snap(s, T)
            others(m, s, a, b, [], 'all entries of the source')
            m.e.oblige(s, 'number of entries', b.cnt == a.cnt, 'ensures')
            others(m, s, a, m.snap(s, S), [], 'the source is not changed')
            m.e.oblige(s, 'storage of its own', z3.BoolVal(T is S or m.ent(s, T) is not m.ent(s, S)), 'ensures')
        return done(m, res)
    return Task('%s: %s' % (cls.split('<')[0], dict(default='default constructor', chain='constructor with chain length', copy='copy constructor', assign='assignment', self='assignment to itself')[kind]), t)


def t_iter(cls, what, const):
    """begin, end: positions 0 and count of the enumeration"""
    def t(ctx):
        m = Maps(ctx, 'unique' if cls is HU else 'map')
        st = m.st
        T = m.table('table')
        a = m.snap(st, T)
        f = m.fn('^%s::%s\\(\\)%s$' % (cls, what, ' const' if const else ''))
        res, get = run_iter(m, f, [Ptr(T, 0)], T)
        for s, ret in res:
            U, i = get(s, ret)
            m.e.oblige(s, 'an iterator of this table', z3.BoolVal(U is T), 'ensures')
            m.e.oblige(s, 'at the first entry' if what == 'begin' else 'at the end', i == (0 if what == 'begin' else a.cnt), 'ensures')
        return done(m, res)
    return Task('%s::%s%s' % (cls.split('<')[0], what, ' const' if const else ''), t)


def run_iter(m, f, args, T):
    m.mod.load(f)
    if len(f.args) > len(args):
        out = Obj('result', 'param', 16)
        return m.e.run(f, [Ptr(out, 0)] + args, m.st), lambda s, r: m.get_iter(s, Ptr(out, 0))
    return m.e.run(f, args, m.st), lambda s, r: (r[0].obj, bi(r[1]))


def t_find(cls, const):
    def t(ctx):
        m = Maps(ctx, 'map')
        st = m.st
        T = m.table('table')
        a = m.snap(st, T)
        ko = Obj('key', 'param', 8)
        kid = m.any64(st)
        m.e.store(st, Ptr(ko, 0), kid, I64)
        r = RANK(kid)
        f = m.fn('^%s::find\\(KEY const&\\)%s$' % (cls, ' const' if const else ''))
        res, get = run_iter(m, f, [Ptr(T, 0), Ptr(ko, 0)], T)
        for s, ret in res:
            U, i = get(s, ret)
            seq, pos = m.enum(s, T)
            m.e.oblige(s, 'an iterator of this table', z3.BoolVal(U is T), 'ensures')
            m.e.oblige(s, 'at the entry of the key, at the end if there is none', z3.If(a.at(r), z3.And(i < a.cnt, seq(i) == r), i == a.cnt), 'ensures')
        return done(m, res)
    return Task('%s::find%s' % (cls.split('<')[0], ' const' if const else ''), t)


def t_erase(ctx):
    m = Maps(ctx, 'map')
    st = m.st
    T = m.table('table')
    a = m.snap(st, T)
    i = m.any64(st)
    st.assume(i < a.cnt)
    seq, pos = m.enum(st, T)
    st.assume(z3.And(seq(i) >= 0, seq(i) < W, a.at(seq(i))))
    it = Obj('it', 'param', 16)
    m.put_iter(st, [Ptr(it, 0), None], T, i)
    res = m.e.run(m.fn('^%s::erase\\(' % HM), [Ptr(T, 0), Ptr(it, 0)], st)
    for s, _ in res:
        b = m.snap(s, T)
        m.e.oblige(s, 'the entry is gone', z3.And(z3.Not(b.at(seq(i))), b.cnt == a.cnt - 1), 'ensures')
        others(m, s, a, b, [seq(i)])
    return done(m, res)


def t_keys(ctx):
    m = Maps(ctx, 'map')
    e, st = m.e, m.st
    vt = VecType('KEY', 8, [('int', 0, I64)], default=[0])
    vector_contracts(e, vt)
    T = m.table('table')
    a = m.snap(st, T)
    seq, pos = m.enum(st, T)
    out = Obj('result', 'param', 24)
    j = z3.Int('j')
    V = lambda s, b: e.getmap(s, b.obj, 0, I64)

    def inv(L):
        r = []
        try:
            buf, n, _ = vec_state(L.st, out, 0)
        except Unsupported:
            return []
        r.append(('as many keys as positions', n >= 0))
        for k, (v, v0, w) in L.ints.items():
            r.append(('keys so far %s' % (k,), n == v))
            r.append(('position %s' % (k,), z3.And(v >= 0, v <= a.cnt)))
        r.append(('the keys before', FA([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(V(L.st, buf), j) == a.k(seq(j))), pats=[z3.Select(V(L.st, buf), j)])))
        return r
    e.invs = [inv]
    res = e.run(m.fn('^%s::keys\\(\\) const$' % HM), [Ptr(out, 0), Ptr(T, 0)], st)
    for s, _ in res:
        buf, n, _ = vec_state(s, out, 0)
        e.oblige(s, 'as many keys as entries', n == a.cnt, 'ensures')
        e.oblige(s, 'each key once', z3.Implies(z3.And(j >= 0, j < n), z3.Select(V(s, buf), j) == a.k(seq(j))), 'ensures')
        others(m, s, a, m.snap(s, T), [], 'the map is not changed')
    return done(m, res)


# ------------------------------------------------------------------ RotatingHashMap
class R:
    """a rotating map: two tables without a common key"""

    def __init__(self, ctx):
        m = self.m = Maps(ctx, 'rotating')
        self.e, st = m.e, m.st
        self.st = st
        self.o = Obj('rotating', 'param', 16)
        self.rec, self.old = m.table('recent'), m.table('old')
        for T in (self.rec, self.old):
            T.kind = 'heap'
            T.size = None
            T.size = 72
        self.find_layout()
        self.e.store(st, Ptr(self.o, self.orec), Ptr(self.rec, 0), PTR)
        self.e.store(st, Ptr(self.o, self.oold), Ptr(self.old, 0), PTR)
        q = z3.Int('q')
        self.a, self.b = m.snap(st, self.rec), m.snap(st, self.old)
        st.assume(FA([q], z3.Not(z3.And(self.a.at(q), self.b.at(q))), pats=[self.a.at(q), self.b.at(q)]))

    def find_layout(self):
        self.orec, self.oold = 0, 8
        lay = getattr(self.m.mod, 'struct_fields', None)

    def key(self, where):
        m, st = self.m, self.st
        if where == 'own':
            ko = Obj('key', 'param', 8)
            self.kid = m.any64(st)
            self.e.store(st, Ptr(ko, 0), self.kid, I64)
            p = Ptr(ko, 0)
        else:
            T, sn = (self.rec, self.a) if where == 'recent' else (self.old, self.b)
            r = z3.Int('alias_rank')
            st.assume(z3.And(r >= 0, r < W, sn.at(r)))
            st.assume(RANK(sn.k(r)) == r)
            self.kid = sn.k(r)
            p = Ptr(m.ent(st, T), 16 * r)
        self.r = RANK(self.kid)
        st.assume(z3.And(self.r >= 0, self.r < W))
        q = self.r
        st.assume(z3.Not(z3.And(self.a.at(q), self.b.at(q))))
        return p

    def now(self, s):
        """tables after the call"""
        x, y = self.e.load(s, Ptr(self.o, self.orec), PTR), self.e.load(s, Ptr(self.o, self.oold), PTR)
        for p in (x, y):
            if not isinstance(p, Ptr) or p.obj is None:
                raise Unsupported('tables after the call')
        self.e.oblige(s, 'two different tables', z3.BoolVal(x.obj is not y.obj), 'invariant')
        return x.obj, y.obj

    def inv(self, s):
        x, y = self.now(s)
        q = z3.Int('q_inv')
        st = s
        a2, b2 = self.m.snap(s, x), self.m.snap(s, y)
        self.e.oblige(s, 'no key is in both tables', z3.Implies(z3.Not(z3.And(self.a.at(q), self.b.at(q))), z3.Not(z3.And(a2.at(q), b2.at(q)))), 'invariant')
        return x, y, a2, b2


def rkey(pat, post, refuse=None, extra=None, name=None, alias=('own',)):
    def mk(where):
        def t(ctx):
            h = R(ctx)
            kp = h.key(where)
            args = [Ptr(h.o, 0), kp] + (extra(h.m, h.st) if extra else [])
            if refuse:
                h.e.assert_ok = lambda g, s: refuse(h)
                h.m.may_refuse = lambda s: refuse(h)
            res = h.e.run(h.m.fn('^' + RH + '::' + pat), args, h.st)
            for s, ret in res:
                x, y, a2, b2 = h.inv(s)
                post(h, s, x, y, a2, b2, ret)
            return done(h.m, res)
        return t
    nm = name or re.sub(r'\\', '', pat).split('(')[0]
    return [Task('RotatingHashMap::%s%s' % (nm, dict(own='', recent=' (key inside the recent table)', old=' (key inside the old table)')[w]), mk(w)) for w in alias]


def promoted(h, s, x, y, a2, b2, create):
    """the key, if stored, is now in the recent table with its value; nothing else moved"""
    e, r, a, b = h.e, h.r, h.a, h.b
    was = z3.Or(a.at(r), b.at(r))
    e.oblige(s, 'the same tables', z3.BoolVal(x is h.rec and y is h.old), 'frame')
    e.oblige(s, 'the key is in the recent table%s' % ('' if create else ' if it was stored at all'), a2.at(r) == (z3.BoolVal(True) if create else was), 'ensures')
    e.oblige(s, 'the key is not in the old table', z3.Not(b2.at(r)), 'ensures')
    e.oblige(s, 'the value is kept', z3.Implies(was, a2.v(r) == z3.If(a.at(r), a.v(r), b.v(r))), 'ensures')
    if create:
        e.oblige(s, 'a new key has the default value', z3.Implies(z3.Not(was), a2.v(r) == 0), 'ensures')
    others(h.m, s, a, a2, [r], 'all other recent entries are untouched')
    others(h.m, s, b, b2, [r], 'all other old entries are untouched')
    new = z3.If(was, 0, 1) if create else z3.IntVal(0)
    e.oblige(s, 'number of entries', a2.cnt + b2.cnt == a.cnt + b.cnt + new, 'ensures')
    e.oblige(s, 'number of old entries', b2.cnt == b.cnt - z3.If(b.at(r), 1, 0), 'ensures')


def q_lookup(h, s, x, y, a2, b2, ret):
    promoted(h, s, x, y, a2, b2, False)
    q_ptr(h, s, x, a2, ret)


def q_ptr(h, s, x, a2, ret):
    e, r = h.e, h.r
    if not isinstance(ret, Ptr) or ret.obj is None:
        e.oblige(s, 'nothing found only if the key is not stored', z3.Not(z3.Or(h.a.at(r), h.b.at(r))), 'ensures')
    else:
        e.oblige(s, 'found only if the key is stored', a2.at(r), 'ensures')
        e.oblige(s, 'the value in the recent table', z3.And(z3.BoolVal(ret.obj is h.m.ent(s, x)), ret.off == 16 * r + 8), 'ensures')


def q_index(h, s, x, y, a2, b2, ret):
    promoted(h, s, x, y, a2, b2, True)
    q_ptr(h, s, x, a2, ret)


def q_exists(h, s, x, y, a2, b2, ret):
    promoted(h, s, x, y, a2, b2, False)
    h.e.oblige(s, 'whether the key is stored', tb(ret) == z3.Or(h.a.at(h.r), h.b.at(h.r)), 'ensures')


def unchanged(h, s, x, y, a2, b2):
    h.e.oblige(s, 'the same tables', z3.BoolVal(x is h.rec and y is h.old), 'frame')
    others(h.m, s, h.a, a2, [], 'the recent entries are untouched')
    others(h.m, s, h.b, b2, [], 'the old entries are untouched')
    h.e.oblige(s, 'numbers of entries', z3.And(a2.cnt == h.a.cnt, b2.cnt == h.b.cnt), 'frame')


def q_peek(which):
    def q(h, s, x, y, a2, b2, ret):
        unchanged(h, s, x, y, a2, b2)
        w = dict(both=z3.Or(h.a.at(h.r), h.b.at(h.r)), recent=h.a.at(h.r), old=h.b.at(h.r))[which]
        h.e.oblige(s, 'whether the key is stored', tb(ret) == w, 'ensures')
    return q


def q_remove(h, s, x, y, a2, b2, ret):
    e, r = h.e, h.r
    was = z3.Or(h.a.at(r), h.b.at(r))
    e.oblige(s, 'the same tables', z3.BoolVal(x is h.rec and y is h.old), 'frame')
    e.oblige(s, 'the key is not stored', z3.Not(z3.Or(a2.at(r), b2.at(r))), 'ensures')
    e.oblige(s, 'whether something was removed', tb(ret) == was, 'ensures')
    e.oblige(s, 'a missing key is accepted only if it need not exist', z3.Or(was, z3.Not(h.m.must)), 'ensures')
    e.oblige(s, 'one entry less if the key was stored', a2.cnt + b2.cnt == h.a.cnt + h.b.cnt - z3.If(was, 1, 0), 'ensures')
    others(h.m, s, h.a, a2, [r], 'all other recent entries are untouched')
    others(h.m, s, h.b, b2, [r], 'all other old entries are untouched')


def rr_remove(h):
    return z3.And(h.m.must, z3.Not(z3.Or(h.a.at(h.r), h.b.at(h.r))))


def gone(s, T):
    return T in s.dead and s.dead[T] == 'free' and ('gone', T) in s.ghost


def kept(h, s, x, y):
    for T in (h.old, h.rec):
        h.e.oblige(s, 'the %s table is still used or was released' % T.name, z3.BoolVal(T in (x, y) or gone(s, T)), 'ensures')


def walk_inv(h):
    """the entries before the position in a table's enumeration have been seen once more, all others not"""
    m, e = h.m, h.e
    r = z3.Int('r')

    def inv(L):
        out = []
        for T, sn in ((h.rec, h.a), (h.old, h.b)):
            c = e.getghost(L.st, T, 'calls')
            c0 = h.calls0[T]
            seq, pos = h.enum[T]
            up = lambda hi: FA([r], z3.Implies(z3.And(r >= 0, r < W), z3.Select(c, r) == z3.Select(c0, r) + hi), pats=[z3.Select(c, r)])
            out.append(('calls untouched %s' % T.name, FA([r], z3.Select(c, r) == z3.Select(c0, r), pats=[z3.Select(c, r)])))
            out.append(('calls complete %s' % T.name, up(z3.If(sn.at(r), 1, 0))))
            for k, (v, v0, w) in L.ints.items():
                out.append(('position %s %s' % (T.name, k), z3.And(v >= 0, v <= sn.cnt)))
                out.append(('calls up to %s %s' % (T.name, k), up(z3.If(z3.And(sn.at(r), pos(r) < v), 1, 0))))
        return out
    return inv


def setup_calls(h):
    h.calls0 = {T: h.e.getghost(h.st, T, 'calls') for T in (h.rec, h.old)}
    h.enum = {T: h.m.enum(h.st, T) for T in (h.rec, h.old)}
    h.e.invs = [walk_inv(h)]


def called(h, s, T, sn, yes):
    r = z3.Int('r_called')
    c, c0 = h.e.getghost(s, T, 'calls'), h.calls0[T]
    h.e.oblige(s, 'the function saw every %s entry once' % T.name if yes else 'the function saw no %s entry' % T.name,
               z3.Implies(z3.And(r >= 0, r < W), z3.Select(c, r) == z3.Select(c0, r) + (z3.If(sn.at(r), 1, 0) if yes else 0)), 'ensures')


def t_rotate(fnarg):
    def t(ctx):
        h = R(ctx)
        args = [Ptr(h.o, 0)]
        if fnarg:
            setup_calls(h)
            args.append(Ptr(Obj('fn', 'param', 32), 0))
        res = h.e.run(h.m.fn('^%s::rotate\\(%s\\)$' % (RH, '.+' if fnarg else '')), args, h.st)
        for s, _ in res:
            x, y, a2, b2 = h.inv(s)
            kept(h, s, x, y)
            others(h.m, s, h.a, b2, [], 'the entries that were recent are kept')
            h.e.oblige(s, 'their number', b2.cnt == h.a.cnt, 'ensures')
            q = z3.Int('q_new')
            h.e.oblige(s, 'the recent table is empty', z3.And(z3.Not(a2.at(q)), a2.cnt == 0), 'ensures')
            if fnarg:
                called(h, s, h.old, h.b, True)
                called(h, s, h.rec, h.a, False)
        return done(h.m, res)
    return Task('RotatingHashMap::rotate%s' % (' with a function' if fnarg else ''), t)


def t_flush(fnarg):
    def t(ctx):
        h = R(ctx)
        args = [Ptr(h.o, 0)]
        if fnarg:
            setup_calls(h)
            args.append(Ptr(Obj('fn', 'param', 32), 0))
        res = h.e.run(h.m.fn('^%s::flushRotate\\(%s\\)$' % (RH, '.+' if fnarg else '')), args, h.st)
        for s, _ in res:
            x, y, a2, b2 = h.inv(s)
            kept(h, s, x, y)
            q = z3.Int('q_new')
            h.e.oblige(s, 'no entries', z3.And(z3.Not(a2.at(q)), a2.cnt == 0, z3.Not(b2.at(q)), b2.cnt == 0), 'ensures')
            if fnarg:
                called(h, s, h.old, h.b, True)
                called(h, s, h.rec, h.a, True)
        return done(h.m, res)
    return Task('RotatingHashMap::flushRotate%s' % (' with a function' if fnarg else ''), t)


def t_walk(ctx):
    h = R(ctx)
    setup_calls(h)
    res = h.e.run(h.m.fn('^%s::walk\\(' % RH), [Ptr(h.o, 0), Ptr(Obj('fn', 'param', 32), 0)], h.st)
    for s, _ in res:
        x, y, a2, b2 = h.inv(s)
        h.e.oblige(s, 'the same tables', z3.BoolVal(x is h.rec and y is h.old), 'frame')
        called(h, s, h.rec, h.a, True)
        called(h, s, h.old, h.b, True)
        q = z3.Int('other')
        h.e.oblige(s, 'the same keys', z3.And(a2.at(q) == h.a.at(q), b2.at(q) == h.b.at(q), a2.cnt == h.a.cnt, b2.cnt == h.b.cnt), 'frame')
    return done(h.m, res)


def t_rplain(pat, goal, name):
    def t(ctx):
        h = R(ctx)
        res = h.e.run(h.m.fn('^%s::%s' % (RH, pat)), [Ptr(h.o, 0)], h.st)
        for s, ret in res:
            x, y, a2, b2 = h.inv(s)
            unchanged(h, s, x, y, a2, b2)
            h.e.oblige(s, name, goal(h, ret), 'ensures')
        return done(h.m, res)
    return Task('RotatingHashMap::%s' % pat.split('\\')[0], t)


def t_rctor(ctx):
    m = Maps(ctx, 'rotating')
    o = Obj('rotating', 'param', 16)
    res = m.e.run(m.fn('^%s::RotatingHashMap\\(\\)' % RH), [Ptr(o, 0)], m.st)
    for s, _ in res:
        x, y = m.e.load(s, Ptr(o, 0), PTR), m.e.load(s, Ptr(o, 8), PTR)
        q = z3.Int('q')
        m.e.oblige(s, 'two tables', z3.BoolVal(x.obj is not None and y.obj is not None and x.obj is not y.obj), 'ensures')
        for p in (x, y):
            m.e.oblige(s, 'empty', z3.And(z3.Not(z3.Select(m.dom(s, p.obj), q)), m.cnt(s, p.obj) == 0), 'ensures')
    return done(m, res)


def t_rdtor(ctx):
    h = R(ctx)
    res = h.e.run(h.m.fn('^%s::~RotatingHashMap\\(\\)' % RH), [Ptr(h.o, 0)], h.st)
    for s, _ in res:
        h.e.oblige(s, 'both tables are released', z3.BoolVal(gone(s, h.old) and gone(s, h.rec)), 'ensures')
    return done(h.m, res)


K = r'\(KEY const&\)'
TASKS = (mapfn(HM, r'lookup%s$' % K, p_lookup) + mapfn(HM, r'lookup%s const$' % K, p_lookup) + mapfn(HM, r'operator\[\]%s$' % K, p_index)
         + mapfn(HM, r'addUnlessExist%s$' % K, p_addunless) + mapfn(HM, r'cGet%s const$' % K, p_cget, refuse=lambda m, s, a, r: z3.Not(a.at(r)))
         + mapfn(HM, r'dGet%s const$' % K, p_dget) + mapfn(HM, r'exists%s const$' % K, p_exists)
         + mapfn(HM, r'remove\(KEY const&, bool\)', p_remove, extra=x_must, refuse=r_remove)
         + mapfn(HU, r'exists%s const$' % K, p_exists) + mapfn(HU, r'add%s$' % K, p_addunless) + mapfn(HU, r'addOrReplace%s$' % K, p_replace)
         + mapfn(HU, r'remove\(KEY const&, bool\)', p_remove, extra=x_must, refuse=r_remove)
         + [plain(c, r'size\(\) const', p_size) for c in (HM, HU)] + [plain(HM, r'empty\(\) const', p_empty)]
         + [plain(c, r'clear\(\)', p_clear) for c in (HM, HU)]
         + [t_construct(c, k) for c in (HM, HU) for k in ('default', 'copy', 'assign', 'self')] + [t_construct(HM, 'chain')]
         + [t_iter(c, w, k) for c in (HM, HU) for w in ('begin', 'end') for k in (False, True)] + [t_find(HM, k) for k in (False, True)]
         + [Task('HashMap::erase', t_erase), Task('HashMap::keys', t_keys)]
         + rkey(r'lookup%s$' % K, q_lookup) + rkey(r'operator\[\]%s$' % K, q_index) + rkey(r'exists%s$' % K, q_exists)
         + rkey(r'existsNoPromote%s$' % K, q_peek('both')) + rkey(r'exists_recent%s$' % K, q_peek('recent')) + rkey(r'exists_old%s$' % K, q_peek('old'))
         + rkey(r'remove\(KEY const&, bool\)', q_remove, refuse=rr_remove, extra=x_must, alias=('own',))
         + [t_rotate(False), t_rotate(True), t_flush(False), t_flush(True), Task('RotatingHashMap::walk', t_walk),
            t_rplain(r'size\(\)', lambda h, r: r == h.a.cnt + h.b.cnt, 'entries of both tables'),
            t_rplain(r'size_recent\(\)', lambda h, r: r == h.a.cnt, 'recent entries'), t_rplain(r'size_old\(\)', lambda h, r: r == h.b.cnt, 'old entries'),
            t_rplain(r'empty\(\) const', lambda h, r: tb(r) == z3.And(h.a.cnt == 0, h.b.cnt == 0), 'no entries in either table'),
            Task('RotatingHashMap()', t_rctor), Task('~RotatingHashMap()', t_rdtor)])

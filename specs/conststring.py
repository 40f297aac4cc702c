"""Contracts of ConstantString: the pool (every string stored once, stored strings never change), the table of its
strings as a set (contracts of HashTable, proved in specs/hash.py), and the values: bytes, order, operators.

The buffers are one memory, buffer i at bytes [i*SIZE, (i+1)*SIZE); a stored string t is the position of its first byte,
its length the four bytes before it."""
import re
import z3
import vc
from vc import *
from lib import *
from stdstr import *
from stdvec import VecType, vector_contracts, vec_state, vec_set
from runner import Task

DRIVERS = {'conststring': ['drivers/conststring.cpp']}
SEL, ST = z3.Select, z3.Store
IN = z3.IntSort()
DIFF = z3.Function('first_difference', IN, IN)
SURE = 8000          # strings up to this length are stored whatever the pool holds
HT = r'^HashTable<ConstantStringValue\*, ConstantString::hteHash, ConstantString::hteEqual.*>::'


def length(M, t):
    return SEL(M, t - 4) + 256 * SEL(M, t - 3) + 65536 * SEL(M, t - 2) + (1 << 24) * SEL(M, t - 1)


def bytes_ok(st, M, nm):
    j = z3.Int('j_' + nm)
    st.assume(FA([j], z3.And(SEL(M, j) >= 0, SEL(M, j) < 256), pats=[SEL(M, j)]))


class H:
    def __init__(self, ctx):
        m = self.mod = ctx['mods']['conststring']
        g = lambda k: const_of(m, k)
        self.RS, self.BD, self.BS, self.BU, self.BSZ = g('buffer_bytes'), g('off_data'), g('off_size'), g('off_used'), g('sizeof_buffer')
        e = self.e = Engine(m, 'int', dict(alloc_layout=self.layout, ghost_sorts=dict(T=z3.BoolSort()), objects=[]))
        std_contracts(e)
        string_contracts(e)
        e.contract(r'^boost::(io::|basic_format)', h_nop)
        e.contract(r'^boost::basic_format<.*>& boost::basic_format<.*>::operator%', lambda g, st, fn, a: a[0])
        e.contract(r'^memcmp$', self.memcmp)
        e.contract(r'^strcmp$', self.strcmp)
        e.contract(r'^lintel::bobJenkinsHash\(', self.bj)
        P = self.P = Obj('pool', 'param', None, stride=1)
        P.size = P.count = z3.Int('pool_size')
        self.T_ = VecType('ConstantString::buffer', self.BSZ, [('int', self.BD, I64), ('int', self.BS, I32), ('int', self.BU, I32)])
        self.T_.tags = dict(ptr_elem=self.ptr_elem)
        self.T_.read = self.read
        vector_contracts(e, self.T_)
        st = self.st = State()
        st.assume(P.count >= 1 << 60)
        self.M0 = e.getmap(st, P, 0, I8)
        bytes_ok(st, self.M0, 'pool')
        self.objs = [P]
        e.invs = [string_invs]

    def layout(self, eng, st, o):
        if not is_sym(o.size) and o.size < 256:
            return False
        o.stride, o.count = 1, o.size
        return True

    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(pat, f.dname) and not f.decl]
        if not fs:
            raise Unsupported('function %s not found' % pat)
        return fs[0]

    def done(self, res):
        self.e.returns = len(res)
        return self.e

    def M(self, st):
        return self.e.getmap(st, self.P, 0, I8)

    # ---- buffers
    def ptr_elem(self, eng, st, o, i, c):
        if c != self.BD:
            raise Unsupported('pointer inside a buffer descriptor')
        return Ptr(self.P, SEL(eng.getmap(st, o, self.BD, I64), i))

    def read(self, eng, st, p):
        d = eng.load(st, Ptr(p.obj, p.off + self.BD), PTR)
        if not isinstance(d, Ptr) or d.obj is not self.P:
            raise Unsupported('buffer data %r' % (d,))
        return [d.off, eng.load(st, Ptr(p.obj, p.off + self.BS), I32), eng.load(st, Ptr(p.obj, p.off + self.BU), I32)]

    # ---- library
    def range_ok(self, st, p, n, what):
        e = self.e
        if p.obj is self.P:
            e.oblige(st, '%s reads inside one constant string' % what, Or(B(Eq(n, 0)), *[And(B(p.off >= t - 4), B(p.off + n <= t + k + 1)) for t, k in self.strings]))
            return
        if not (not is_sym(n) and n == 0):
            e.in_bounds_range(st, p, n, what)

    def two(self, st, a, b):
        ma, mb = (self.e.getmap(st, p.obj, 0, I8) for p in (a, b))
        return (lambda j: SEL(ma, a.off + j)), (lambda j: SEL(mb, b.off + j))

    def memcmp(self, eng, st, fn, args):
        a, b, n = args
        self.range_ok(st, a, n, 'memcmp')
        self.range_ok(st, b, n, 'memcmp')
        A, Bb = self.two(st, a, b)
        return self.order(st, A, Bb, n, None)

    def order(self, st, A, Bb, n, _):
        eng = self.e
        d, r, j = z3.Int(eng.fresh_name('differ')), z3.Int(eng.fresh_name('cmp')), z3.Int(eng.fresh_name('jc'))
        st.assume(z3.And(d >= 0, d <= n, r >= -(1 << 31), r < (1 << 31)))
        st.assume(FA([j], z3.Implies(z3.And(j >= 0, j < d), A(j) == Bb(j)), pats=[A(j), Bb(j)]))
        st.assume(z3.If(d == n, r == 0, z3.And(A(d) != Bb(d), (r < 0) == (A(d) < Bb(d)), r != 0)))
        return z3.If(r < 0, r + (1 << 32), r)

    def strcmp(self, eng, st, fn, args):
        a, b = args
        la, lb = (self.clen(st, p) for p in (a, b))
        A, Bb = self.two(st, a, b)
        return self.order(st, A, Bb, z3.If(la < lb, la, lb) + 1, None)

    def clen(self, st, p):
        """length of the zero-terminated string at p"""
        eng = self.e
        if p.obj is not self.P:
            return cstr_len(eng, st, p, 'strcmp')
        n, j = z3.Int(eng.fresh_name('clen')), z3.Int(eng.fresh_name('jz'))
        t, k = self.strings[0] if len(self.strings) == 1 else (None, None)
        if t is None:
            raise Unsupported('string in the pool')
        eng.oblige(st, 'strcmp reads inside one constant string', z3.And(p.off >= t, p.off <= t + k))
        M = self.M(st)
        st.assume(z3.And(n >= 0, SEL(M, p.off + n) == 0, p.off + n <= t + k))
        st.assume(FA([j], z3.Implies(z3.And(j >= 0, j < n), SEL(M, p.off + j) != 0), pats=[SEL(M, p.off + j)]))
        return n

    def bj(self, eng, st, fn, args):
        self.hashed = getattr(self, 'hashed', [])
        h = z3.Int(eng.fresh_name('hash'))
        st.assume(z3.And(h >= 0, h < 1 << 32))
        self.hashed.append((st, args, h))
        return h

    # ---- values
    def string(self, name):
        """an existing constant string"""
        st, M = self.st, self.M0
        t, n = z3.Ints('%s.at %s.length' % (name, name))
        st.assume(z3.And(t >= 4, t % 4 == 0, n >= 0, n <= self.RS - 5, length(M, t) == n, SEL(M, t + n) == 0, t + n < self.P.count))
        o = Obj(name, 'param', 8)
        o.tags['value'] = (t, n)
        setcell(st, o, 0, PTR, Ptr(self.P, t))
        self.strings = getattr(self, 'strings', []) + [(t, n)]
        self.objs.append(o)
        self.e.opts['objects'] = self.objs
        return o, t, n, (lambda j: SEL(M, t + j))

    def differ(self, n, A, m, Bb, nm='D'):
        """the first difference of two byte strings, which exists"""
        D, j = z3.Int(nm), z3.Int('j_' + nm)
        st = self.st
        lo = z3.If(n < m, n, m)
        st.assume(z3.And(D >= 0, D <= lo))
        st.assume(FA([j], z3.Implies(z3.And(j >= 0, j < D), A(j) == Bb(j)), pats=[A(j), Bb(j)]))
        st.assume(z3.Implies(D < lo, A(D) != Bb(D)))
        less = z3.Or(z3.And(D < lo, A(D) < Bb(D)), z3.And(D == lo, n < m))
        same = z3.And(D == lo, n == m)
        return less, same

    # ---- pool
    def gl(self, st, name):
        return self.e.global_obj(st, name)

    def pool(self, first):
        e, st, RS = self.e, self.st, self.RS
        n0 = self.n0 = z3.IntVal(0) if first else z3.Int('nbuffers')
        st.assume(z3.And(n0 >= 0, n0 < 1 << 31))
        N = '_ZN14ConstantString'
        self.gB, self.gH, self.gE = self.gl(st, N + '7buffersE'), self.gl(st, N + '9hashtableE'), self.gl(st, N + '18empty_string_myptrE')
        self.gN, self.gY = self.gl(st, N + '8nstringsE'), self.gl(st, N + '12string_bytesE')
        self.gI, self.gL = self.gl(st, '_ZL11init_buffer'), self.gl(st, '_ZL15init_buffer_len')
        e.contract(HT + r'HashTable\(', self.t_ctor)
        e.contract(HT + r'lookup\(', self.t_lookup)
        e.contract(HT + r'add\(', self.t_add)
        e.contract(r'^ConstantString::init\(', self.again)
        e.contract(r'^operator new\[\]\(unsigned long\)$', self.new_array)
        st.ghost['rows'] = n0
        T = z3.K(IN, False) if first else z3.Array('stored', IN, z3.BoolSort())
        e.setghost(st, self.P, 'T', T)
        self.T0 = T
        if first:
            for o in (self.gB, self.gH, self.gE, self.gI):
                setcell(st, o, 0, PTR, NULL)
            for o in (self.gN, self.gY, self.gL):
                setcell(st, o, 0, I32, 0)
            self.used0 = z3.K(IN, z3.IntVal(0))
            self.cnt0 = self.by0 = z3.IntVal(0)
            return
        b = Obj('buffers', 'heap', 24)
        D = Obj('buffers.data', 'heap', z3.Int('buffers_cap') * self.BSZ, stride=self.BSZ, count=z3.Int('buffers_cap'))
        D.tags.update(self.T_.tags)
        st.assume(z3.And(D.count >= n0, D.count < 1 << 40))
        vec_set(st, b, 0, Ptr(D, 0), n0, D.count)
        setcell(st, self.gB, 0, PTR, Ptr(b, 0))
        self.ht = Obj('hashtable', 'heap', 256)
        setcell(st, self.gH, 0, PTR, Ptr(self.ht, 0))
        self.used0 = e.getmap(st, D, self.BU, I32)
        i = z3.Int('i_row')
        base, size = e.getmap(st, D, self.BD, I64), e.getmap(st, D, self.BS, I32)
        u = SEL(self.used0, i)
        st.assume(FA([i], z3.Implies(z3.And(i >= 0, i < n0), z3.And(SEL(base, i) == i * RS)), pats=[SEL(base, i)]))
        st.assume(FA([i], z3.Implies(z3.And(i >= 0, i < n0), z3.And(SEL(size, i) == RS)), pats=[SEL(size, i)]))
        st.assume(FA([i], z3.Implies(z3.And(i >= 0, i < n0), z3.And(u >= 0, u <= RS, u % 4 == 0)), pats=[u]))
        t = z3.Int('t_str')
        st.assume(FA([t], z3.Implies(SEL(T, t), self.placed(self.M0, self.used0, n0, t)), pats=[SEL(T, t)]))
        L = z3.Int('init_buffer_length')
        IB = Obj('init_buffer', 'heap', L, stride=1, count=L)
        IB.tags['scratch'] = True
        st.assume(z3.And(L >= 5, L <= RS))
        bytes_ok(st, e.getmap(st, IB, 0, I8), 'ib')
        setcell(st, self.gI, 0, PTR, Ptr(IB, 0))
        setcell(st, self.gL, 0, I32, L)
        self.E = z3.Int('empty_string')
        self.cnt0, self.by0 = z3.Ints('nstrings string_bytes')
        st.assume(z3.And(self.cnt0 >= 0, self.by0 >= 0, self.cnt0 < (1 << 31) - 2, self.by0 < (1 << 31) - 2 * RS))
        setcell(st, self.gN, 0, I32, self.cnt0)
        setcell(st, self.gY, 0, I32, self.by0)
        setcell(st, self.gE, 0, PTR, NULL)
        self.objs += [b, D, self.ht, IB]

    def with_empty(self):
        """the empty string has been stored"""
        st = self.st
        setcell(st, self.gE, 0, PTR, Ptr(self.P, self.E))
        st.assume(z3.And(SEL(self.T0, self.E), length(self.M0, self.E) == 0))

    def placed(self, M, used, n, t):
        """a stored string lies in the used part of its buffer, ends with a zero byte and is aligned"""
        RS = self.RS
        r, L = t / RS, length(M, t)
        return z3.And(t >= 4, t % 4 == 0, r >= 0, r < n, t - 4 >= RS * r, L >= 0, t + L + 1 <= RS * r + SEL(used, r), SEL(used, r) <= RS, SEL(M, t + L) == 0)

    def new_array(self, eng, st, fn, args):
        n = args[0]
        if not is_sym(n) and n == self.RS:
            r = st.ghost['rows']
            st.ghost['rows'] = r + 1
            return Ptr(self.P, r * self.RS)
        return h_new(eng, st, fn, args)

    def t_ctor(self, eng, st, fn, args):
        self.ht = args[0].obj
        return None

    def content(self, st, p):
        """(length, byte) of the length-prefixed string at p"""
        o = p.obj
        if o is None or o in st.dead:
            self.e.oblige(st, 'the string given to the table is in live memory', False, 'lifetime')
            raise PathEnd()
        n = self.e.load(st, Ptr(o, p.off - 4), I32)
        if o is not self.P:
            self.e.in_bounds_range(st, p, n + 1, 'string given to the table')
        M = self.e.getmap(st, o, 0, I8)
        return n, lambda j: SEL(M, p.off + j)

    def same(self, st, p, label):
        n, by = self.content(st, p)
        j = z3.Int(self.e.fresh_name('jk'))
        self.e.oblige(st, label + ' (length)', n == self.slen, 'assert')
        self.e.oblige(st, label + ' (bytes)', z3.Implies(z3.And(j >= 0, j < self.slen), by(j) == self.s(j)), 'assert')

    def t_lookup(self, eng, st, fn, args):
        k = eng.load(st, args[1], PTR)
        self.same(st, k, 'the table is searched for the string given')
        T, M = eng.getghost(st, self.P, 'T'), self.M(st)
        y, nn = st.copy(), st.copy()
        t, j = z3.Int(eng.fresh_name('found')), z3.Int(eng.fresh_name('jf'))
        y.assume(z3.And(SEL(T, t), length(M, t) == self.slen))
        y.assume(FA([j], z3.Implies(z3.And(j >= 0, j < self.slen), SEL(M, t + j) == self.s(j)), pats=[SEL(M, t + j)]))
        c = Obj(eng.fresh_name('entry'), 'stack', 8)
        setcell(y, c, 0, PTR, Ptr(self.P, t))
        u = z3.Int(eng.fresh_name('u'))
        d = DIFF(u)
        nn.assume(FA([u], z3.Implies(SEL(T, u), z3.Or(length(M, u) != self.slen, z3.And(d >= 0, d < self.slen, SEL(M, u + d) != self.s(d)))), pats=[SEL(T, u)]))
        y.ghost['found'], nn.ghost['missed'] = t, T
        return [(y, Ptr(c, 0)), (nn, NULL)]

    def t_add(self, eng, st, fn, args):
        k = eng.load(st, args[1], PTR)
        if not isinstance(k, Ptr) or k.obj is not self.P:
            eng.oblige(st, 'the string added to the table is in a buffer', False, 'requires')
            raise PathEnd()
        T = eng.getghost(st, self.P, 'T')
        self.same(st, k, 'the string added to the table is complete')
        eng.oblige(st, 'a string is added to the table only when it is not in it', z3.BoolVal('missed' in st.ghost and st.ghost['missed'] is T), 'requires')
        eng.setghost(st, self.P, 'T', ST(T, k.off, True))
        c = Obj(eng.fresh_name('entry'), 'stack', 8)
        setcell(st, c, 0, PTR, k)
        return Ptr(c, 0)

    def again(self, eng, st, fn, args):
        """init calls itself once a buffer has been added; the second call must not do so again"""
        d = st.ghost.get('depth', 0)
        if d >= 1:
            eng.oblige(st, 'a string is placed once a buffer was added for it', False, 'assert')
            raise PathEnd()
        st.ghost['depth'] = d + 1
        return eng.run(fn, args, st)


def inv_no_room(h):
    def f(L):
        e = h.e
        b = cell(L.st, h.gB, 0)
        if not isinstance(b, Ptr) or (b.obj, ('c', b.off)) not in L.st.mem:
            return []
        p, n, _ = vec_state(L.st, b.obj, b.off)
        out = []
        its = [(key, v) for key, (v, v0, w) in L.ints.items() if key[0] == 'phi'] + \
              [(key, i) for key, (i, i0, c) in L.pidx.items() if p.obj is not None and L.ptrs[key][0].obj is p.obj]
        out += copying(h, L, [(key, v) for key, (v, v0, w) in L.ints.items() if key[0] == 'phi'])
        for key, v in its:
            out.append(('%s is at most the number of buffers' % (key,), B(v <= n)))
            if p.obj is not None:
                size, used = e.getmap(L.st, p.obj, h.BS, I32), e.getmap(L.st, p.obj, h.BU, I32)
                k = z3.Int('k_room')
                out.append(('no room before %s' % (key,), FA([k], z3.Implies(z3.And(k >= 0, k < v), SEL(size, k) - SEL(used, k) < h.slen + 12), pats=[SEL(used, k)])))
        return out
    return f


def copying(h, L, ks):
    """a loop that copies the bytes of the string somewhere: k bytes are there, nothing else has changed"""
    e, out = h.e, []
    tg = {(x.obj, str(x.off)): x for x in L.env0.values() if isinstance(x, Ptr) and x.obj is not None and x.obj.stride == 1}
    for (o, _), x in tg.items():
        if (o, ('m', 0, 1, False)) not in L.st.mem or (o, ('m', 0, 1, False)) not in L.modset:
            continue
        M, M0 = e.getmap(L.st, o, 0, I8), e.getmap(L.entry, o, 0, I8)
        j = z3.Int('j_copy')
        if h.src.obj is o:
            raise Unsupported('a loop that copies bytes of the pool into the pool')
        for nm, k in ks:
            out.append(('%s bytes at %s' % (nm, x), FA([j], z3.Implies(z3.And(j >= x.off, j < x.off + k), SEL(M, j) == h.s(j - x.off)), pats=[SEL(M, j)])))
            out.append(('%s the rest of %s' % (nm, x), FA([j], z3.Implies(z3.Or(j < x.off, j >= x.off + k), SEL(M, j) == SEL(M0, j)), pats=[SEL(M, j)])))
            out.append(('%s at most the length' % (nm,), B(k <= h.slen)))
    return out


def source(h, alias):
    e, st = h.e, h.st
    n = h.slen = z3.Int('length')
    st.assume(z3.And(n >= 0, n < 1 << 40))
    if alias:
        t0, k0 = z3.Ints('from from_at')
        L = length(h.M0, t0)
        st.assume(z3.And(SEL(h.T0, t0), k0 >= 0, k0 + n <= L))
        h.s = lambda j: SEL(h.M0, t0 + k0 + j)
        return Ptr(h.P, t0 + k0)
    S = Obj('bytes', 'param', n, stride=1, count=n)
    S.const = True
    m = e.getmap(st, S, 0, I8)
    bytes_ok(st, m, 's')
    h.s = lambda j: SEL(m, j)
    h.objs.append(S)
    return Ptr(S, 0)


def t_init(first, empty, alias=False):
    def t(ctx):
        h = H(ctx)
        e, st, RS = h.e, h.st, h.RS
        h.pool(first)
        if empty:
            h.with_empty()
        src = h.src = source(h, alias)
        if not first and not empty:
            pass
        this = Obj('this', 'param', 8)
        h.objs.append(this)
        e.opts['objects'] = h.objs
        e.invs = [string_invs, inv_no_room(h)]
        f = h.fn(r'^ConstantString::init\(')
        e.assert_ok = lambda eng, s: refused(h, s)
        res = e.run(f, [Ptr(this, 0), src, h.slen], st)
        for s, _ in res:
            final(h, s, this)
        return h.done(res)
    return t


def refused(h, s):
    invariant(h, s, 'after a refusal: ')
    return h.e.must(s, h.slen > SURE)


def invariant(h, s, pre=''):
    """the pool is well-formed; what was in it still is, unchanged"""
    e, RS = h.e, h.RS
    T, M = e.getghost(s, h.P, 'T'), h.M(s)
    b = cell(s, h.gB, 0)
    if not isinstance(b, Ptr) or b.obj is None:
        e.oblige(s, pre + 'without buffers there are no strings', z3.BoolVal(T is h.T0), 'ensures')
        return
    p, n, _ = vec_state(s, b.obj, b.off)
    used = e.getmap(s, p.obj, h.BU, I32) if p.obj is not None else z3.K(IN, z3.IntVal(0))
    t, k, i = z3.Ints('t_goal k_goal i_goal')
    ob = lambda lab, g: e.oblige(s, pre + lab, g, 'ensures')
    ob('a stored string lies in the used part of its buffer', z3.Implies(SEL(T, t), h.placed(M, used, n, t)))
    if not z3.is_K(h.T0):
        ob('strings stored earlier stay', z3.Implies(SEL(h.T0, t), SEL(T, t)))
        ob('the lengths of strings stored earlier stay', z3.Implies(SEL(h.T0, t), length(M, t) == length(h.M0, t)))
        ob('the bytes of strings stored earlier stay', z3.Implies(z3.And(SEL(h.T0, t), k >= 0, k <= length(h.M0, t)), SEL(M, t + k) == SEL(h.M0, t + k)))
    ob('only the unused part of a buffer is written', z3.Implies(SEL(M, k) != SEL(h.M0, k), z3.And(
        k / RS >= 0, k / RS < n, z3.Implies(k / RS < h.n0, k >= RS * (k / RS) + SEL(h.used0, k / RS)), k < RS * (k / RS) + SEL(used, k / RS))))
    if p.obj is not None:
        base, size = e.getmap(s, p.obj, h.BD, I64), e.getmap(s, p.obj, h.BS, I32)
        ob('buffers have their size and room', z3.Implies(z3.And(i >= 0, i < n), z3.And(
            SEL(base, i) == RS * i, SEL(size, i) == RS, SEL(used, i) >= 0, SEL(used, i) <= RS, SEL(used, i) % 4 == 0)))
    ob('no buffer is lost', z3.And(B_int(n) == s.ghost['rows']))
    E = cell(s, h.gE, 0)
    if isinstance(E, Ptr) and E.obj is not None:
        ob('the empty string noted is a stored empty string', z3.And(SEL(T, E.off), length(M, E.off) == 0) if E.obj is h.P else False)
    ib, L = cell(s, h.gI, 0), cell(s, h.gL, 0)
    if isinstance(ib, Ptr) and ib.obj is not None:
        e.oblige(s, pre + 'the scratch buffer is alive', z3.BoolVal(ib.obj not in s.dead), 'lifetime')
        ob('the scratch buffer has its length', And(B(Eq(ib.off, 0)), B_int(ib.obj.size) >= B_int(L)))
    else:
        ob('without a scratch buffer its length is 0', B(Eq(L, 0)))


def B_int(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def final(h, s, this):
    e, RS = h.e, h.RS
    T, M = e.getghost(s, h.P, 'T'), h.M(s)
    v = e.load(s, Ptr(this, 0), PTR)
    ob = lambda lab, g: e.oblige(s, lab, g, 'ensures')
    if not isinstance(v, Ptr) or v.obj is not h.P:
        ob('the constant string is in the pool', False)
        return
    t, j = v.off, z3.Int('j_res')
    ob('the constant string is stored', SEL(T, t))
    ob('it has the length given', length(M, t) == h.slen)
    ob('it has the bytes given', z3.Implies(z3.And(j >= 0, j < h.slen), SEL(M, t + j) == h.s(j)))
    ob('a zero byte follows it', SEL(M, t + h.slen) == 0)
    invariant(h, s)
    u = z3.Int('u_goal')
    d = DIFF(u)
    new = T is not h.T0
    if new:
        ob('a string that was stored already is not stored again', z3.Implies(SEL(h.T0, u), z3.Or(length(h.M0, u) != h.slen, z3.And(d >= 0, d < h.slen, SEL(h.M0, u + d) != h.s(d)))))
        ob('nothing else is stored', z3.Implies(SEL(T, u), z3.Or(SEL(h.T0, u), u == t)))
    else:
        ob('the string stored before is used', SEL(h.T0, t))
    for g, w0, inc, what in ((h.gN, h.cnt0, 1, 'strings'), (h.gY, h.by0, h.slen + 1, 'bytes')):
        ob('the number of %s counts the stored ones' % what, B_int(cell(s, g, 0)) == w0 + (inc if new else 0))


def refs(h, args, fnname):
    f = h.fn('^%s$' % fnname)
    return h.e.run(f, args, h.st)


# ---- constructors
def t_ctor(kind):
    def t(ctx):
        h = H(ctx)
        e, st = h.e, h.st
        this = Obj('this', 'param', 8)
        h.strings = []
        ran = []
        gE = h.gl(st, '_ZN14ConstantString18empty_string_myptrE')

        def init(eng, s, fn, args):
            eng.oblige(s, 'the object made is the one initialised', z3.BoolVal(args[0].obj is this), 'requires')
            n = args[2]
            want, by = h.want
            eng.oblige(s, 'a constant string is made of all bytes given', B_int(n) == want, 'requires')
            p, j = args[1], z3.Int(eng.fresh_name('ji'))
            if by is not None:
                m = eng.getmap(s, p.obj, 0, I8)
                eng.oblige(s, 'a constant string is made of the bytes given', z3.Implies(z3.And(j >= 0, j < want), SEL(m, p.off + j) == by(j)), 'requires')
            t = z3.Int(eng.fresh_name('made'))
            s.assume(length(h.M(s), t) == want)
            setcell(s, this, 0, PTR, Ptr(h.P, t))
            s.ghost['made'] = t
        e.contract(r'^ConstantString::init\(', init)
        if kind == 'string':
            o, n, by = str_param(e, st, 's')
            h.want = (n, by)
            args = [Ptr(this, 0), Ptr(o, 0)]
        elif kind == 'bytes':
            n = z3.Int('n')
            st.assume(z3.And(n >= 0, n < 1 << 32))
            S = Obj('bytes', 'param', n, stride=1, count=n)
            m = e.getmap(st, S, 0, I8)
            h.want = (n, lambda j: SEL(m, j))
            args = [Ptr(this, 0), Ptr(S, 0), n]
        elif kind == 'chars':
            n = z3.Int('n')
            st.assume(z3.And(n >= 0, n < 1 << 46))
            S = Obj('chars', 'param', n + 1, stride=1, count=n + 1)
            S.tags['zero_at'] = n
            m = e.getmap(st, S, 0, I8)
            j = z3.Int('j_ch')
            st.assume(z3.And(SEL(m, n) == 0, FA([j], z3.Implies(z3.And(j >= 0, j < n), SEL(m, j) != 0), pats=[SEL(m, j)])))
            h.want = (n, lambda j: SEL(m, j))
            args = [Ptr(this, 0), Ptr(S, 0)]
        elif kind in ('empty', 'empty again'):
            h.want = (z3.IntVal(0), None)
            E = z3.Int('empty_string')
            st.assume(length(h.M0, E) == 0)
            setcell(st, gE, 0, PTR, NULL if kind == 'empty' else Ptr(h.P, E))
            args = [Ptr(this, 0)]
        else:
            o, t, n, by = h.string('other')
            args = [Ptr(this, 0), Ptr(o, 0)]
            if kind == 'assign':
                o2, t2, n2, by2 = h.string('this')
                this = o2
                args[0] = Ptr(o2, 0)
        e.opts['objects'] = h.objs + [this]
        name = {'string': 'k_string', 'bytes': 'k_bytes', 'chars': 'k_chars', 'copy': 'k_copy', 'assign': 'k_assign'}.get(kind, 'k_empty')
        res = refs(h, args, name)
        for s, _ in res:
            v = e.load(s, Ptr(this, 0), PTR)
            ok = isinstance(v, Ptr) and v.obj is h.P
            if kind in ('copy', 'assign'):
                e.oblige(s, 'a copy is the same constant string', v.off == t if ok else False, 'ensures')
            elif kind == 'empty again' and 'made' not in s.ghost:
                e.oblige(s, 'the default is the empty string', v.off == E if ok else False, 'ensures')
            else:
                e.oblige(s, 'the object is what was made', v.off == s.ghost['made'] if ok and 'made' in s.ghost else False, 'ensures')
        return h.done(res)
    return t


# ---- observers
def t_get(name):
    def t(ctx):
        h = H(ctx)
        e, st = h.e, h.st
        o, t, n, by = h.string('a')
        args = [Ptr(o, 0)]
        if name == 'k_str':
            out = Obj('result', 'param', 32)
            args = [Ptr(out, 0)] + args
        if name == 'k_index':
            i = z3.Int('i')
            st.assume(z3.And(i >= 0, i < n))
            args.append(i)
        if name in ('k_hte_hash',):
            args = [Ptr(h.P, t)]
        if name in ('k_hash', 'k_map_hash'):
            o2, t2, n2, by2 = h.string('b')
            st.assume(t2 == t)
        res = refs(h, args, name)
        for s, v in res:
            ob = lambda lab, g: e.oblige(s, lab, g, 'ensures')
            if name in ('k_size', 'k_length'):
                ob('the length', B_int(v) == n)
            elif name in ('k_data', 'k_c_str'):
                ob('the bytes are where they were stored', v.off == t if isinstance(v, Ptr) and v.obj is h.P else False)
            elif name == 'k_is_empty':
                ob('empty exactly when there are no bytes', vc.B(v if z3.is_bool(v) else v != 0) == (n == 0))
            elif name == 'k_index':
                ob('the byte asked for', B_int(v) % 256 == by(i))
            elif name == 'k_str':
                ln, bb = str_bytes(e, s, Ptr(out, 0))
                j = z3.Int('j_str')
                ob('str() has the length', B_int(ln) == n)
                ob('str() has the bytes', z3.Implies(z3.And(j >= 0, j < n), bb(j) == by(j)))
            elif name == 'k_hte_hash':
                hs = [x for x in h.hashed]
                ok = len(hs) == 1 and isinstance(hs[0][1][1], Ptr) and hs[0][1][1].obj is h.P
                ob('the table hashes all bytes and nothing else', z3.And(B_int(hs[0][1][1].off) == t, B_int(hs[0][1][2]) == n, B_int(v) == hs[0][2]) if ok else False)
            elif name in ('k_hash', 'k_map_hash'):
                for s2, v2 in e.run(h.fn('^%s$' % name), [Ptr(o2, 0)], s):
                    e.oblige(s2, 'equal strings hash equally', B_int(v) == B_int(v2), 'ensures')
        return h.done(res)
    return t


def truth(v):
    return v if z3.is_bool(v) else z3.BoolVal(v) if isinstance(v, bool) else v != 0


def t_cmp(name):
    def t(ctx):
        h = H(ctx)
        e, st = h.e, h.st
        a, ta, na, A = h.string('a')
        other = 'string' if name.endswith('_string') else 'chars' if name.endswith('_chars') else 'cs'
        if other == 'cs':
            b, tb, nb, Bb = h.string('b')
            args = [Ptr(a, 0), Ptr(b, 0)]
        elif other == 'string':
            b, nb, Bb = str_param(e, st, 's')
            args = [Ptr(a, 0), Ptr(b, 0)]
        else:
            nb = z3.Int('n')
            st.assume(z3.And(nb >= 0, nb < 1 << 46))
            S = Obj('chars', 'param', nb + 1, stride=1, count=nb + 1)
            S.tags['zero_at'] = nb
            m = e.getmap(st, S, 0, I8)
            bytes_ok(st, m, 'chars')
            j = z3.Int('j_ch')
            st.assume(z3.And(SEL(m, nb) == 0, FA([j], z3.Implies(z3.And(j >= 0, j < nb), SEL(m, j) != 0), pats=[SEL(m, j)])))
            Bb = lambda j: SEL(m, j)
            args = [Ptr(a, 0), Ptr(S, 0)]
        less, same = h.differ(na, A, nb, Bb)
        if other == 'cs':
            # the pool stores every string once (ensured by init)
            st.assume((ta == tb) == same)
        if name == 'k_hte_equal':
            args = [Ptr(h.P, ta), Ptr(h.P, tb)]
        res = refs(h, args, name)
        for s, v in res:
            ob = lambda lab, g: e.oblige(s, lab, g, 'ensures')
            if name.startswith('k_compare'):
                v = B_int(v)
                neg = z3.And(v >= 1 << 31)
                ob('compare is negative exactly for the smaller string', neg == less)
                ob('compare is zero exactly for equal strings', (v == 0) == same)
            else:
                want = dict(k_equal=same, k_hte_equal=same, k_eq=same, k_ne=z3.Not(same), k_ne_string=z3.Not(same), k_ne_chars=z3.Not(same), k_lt=less,
                            k_le=z3.Or(less, same), k_gt=z3.Not(z3.Or(less, same)), k_ge=z3.Not(less))[name]
                ob('the comparison is that of the byte strings', truth(v) == want)
        return h.done(res)
    return t


def t_write(ctx):
    """operator<< writes all bytes of the string"""
    h = H(ctx)
    e, st = h.e, h.st
    a, t, n, A = h.string('a')
    o = Obj('stream', 'param', 8)
    out = []

    def put(eng, s, fn, args):
        ln, by = str_bytes(eng, s, args[1])
        s.ghost['written'] = s.ghost.get('written', ()) + ((ln, by),)
        return args[0]

    def puts(eng, s, fn, args):
        ln = h.clen(s, args[1])
        M = h.M(s)
        s.ghost['written'] = s.ghost.get('written', ()) + ((ln, lambda j: SEL(M, args[1].off + j)),)
        return args[0]

    def write(eng, s, fn, args):
        h.range_ok(s, args[1], args[2], 'write')
        M = eng.getmap(s, args[1].obj, 0, I8)
        s.ghost['written'] = s.ghost.get('written', ()) + ((args[2], lambda j: SEL(M, args[1].off + j)),)
        return args[0]
    e.contract(r'operator<< <char, std::char_traits<char>, std::allocator<char> ?>\(std::ostream&|^std::(basic_ostream<.*>|ostream)& std::operator<< ?<char.*basic_string', put)
    e.contract(r'operator<< <std::char_traits<char> ?>\(.*char const\*\)', puts)
    e.contract(r'^std::(basic_)?ostream(<.*>)?::write\(', write)
    e.contract(r'__ostream_insert<', write)
    res = refs(h, [Ptr(o, 0), Ptr(a, 0)], 'k_write')
    for s, v in res:
        w = s.ghost.get('written', ())
        j = z3.Int('j_w')
        e.oblige(s, 'the string is written once', z3.BoolVal(len(w) == 1), 'ensures')
        if len(w) == 1:
            e.oblige(s, 'all bytes are written', B_int(w[0][0]) == n, 'ensures')
            e.oblige(s, 'the bytes are written', z3.Implies(z3.And(j >= 0, j < n), w[0][1](j) == A(j)), 'ensures')
        e.oblige(s, 'the stream is returned', z3.BoolVal(isinstance(v, Ptr) and v.obj is o), 'ensures')
    return h.done(res)


TASKS = [Task('init[first]', t_init(True, False)), Task('init[pool]', t_init(False, False)), Task('init[empty stored]', t_init(False, True)),
         Task('init[from pool]', t_init(False, True, True)), Task('write', t_write)]
TASKS += [Task('ctor[%s]' % k, t_ctor(k)) for k in ('string', 'bytes', 'chars', 'empty', 'empty again', 'copy', 'assign')]
TASKS += [Task('get[%s]' % k, t_get(k)) for k in ('k_size', 'k_length', 'k_data', 'k_c_str', 'k_is_empty', 'k_str', 'k_index', 'k_hash', 'k_map_hash', 'k_hte_hash')]
TASKS += [Task('cmp[%s]' % k, t_cmp(k)) for k in ('k_compare', 'k_compare_string', 'k_equal', 'k_lt', 'k_le', 'k_eq', 'k_ne', 'k_gt', 'k_ge', 'k_ne_string', 'k_ne_chars', 'k_hte_equal')]

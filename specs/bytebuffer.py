"""Contracts of NoCopyByteBuffer and ByteBuffer: the readable bytes after every operation, copy on write,
the permitted refusals, ownership of the storage."""
import z3
import vc
from vc import *
from lib import *
from stdstr import *
from runner import Task

DRIVERS = {'bytebuffer': ['drivers/bytebuffer.cpp']}
MAXB = 1 << 44
I = z3.IntVal


class Buf:
    """one NoCopyByteBuffer as the specification sees it on entry"""


class BBS:
    def __init__(self, ctx):
        m = self.mod = ctx['mods']['bytebuffer']
        g = lambda k: const_of(m, k)
        self.od, self.on, self.of, self.ob = g('off_data'), g('off_dsize'), g('off_front'), g('off_back')
        self.nsize, self.orep, self.ocow, self.bsize = g('sizeof_ncb'), g('off_rep'), g('off_cow'), g('sizeof_bb')
        e = self.e = Engine(m, 'int', dict(ghost_sorts={'rc': z3.IntSort()}, alloc_layout=self.layout))
        std_contracts(e)
        string_contracts(e)
        self.st = State()
        self.bufs, self.params = [], []
        self.ptr_contracts()
        e.contract(r'^memcmp$', self.h_memcmp)
        e.assumptions.add('boost::shared_ptr: unique() tells whether it is the only owner; the last owner deletes the object')

    def layout(self, eng, st, o):
        if not is_sym(o.size) and o.size == self.nsize:
            return True
        o.stride, o.count = 1, o.size
        return True

    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(pat, f.dname) and not f.decl]
        if not fs:
            raise Unsupported('function %s not found' % pat)
        return fs[0]

    # -------------------------------------------------------------- objects
    def ncb(self, name, data='heap', rc=1):
        """an arbitrary well-formed NoCopyByteBuffer"""
        st, e = self.st, self.e
        b = Buf()
        b.name = name
        b.o = Obj(name, 'heap' if rc is not None else 'param', self.nsize)
        if data == 'heap':
            b.size, b.front, b.back = z3.Ints('%s.size %s.front %s.back' % (name, name, name))
            st.assume(z3.And(b.front >= 0, b.front <= b.back, b.back <= b.size, b.size <= MAXB))
            b.data = Obj(name + '.bytes', 'heap', b.size, stride=1, count=b.size)
            b.map = e.getmap(st, b.data, 0, I8)
            p = Ptr(b.data, 0)
        else:
            b.size = b.front = b.back = 0
            b.data = b.map = None
            p = NULL
        b.len = b.back - b.front
        setcell(st, b.o, self.od, PTR, p)
        setcell(st, b.o, self.on, I64, b.size)
        setcell(st, b.o, self.of, I64, b.front)
        setcell(st, b.o, self.ob, I64, b.back)
        b.rc = rc
        if rc is not None:
            if rc == 'shared':
                b.rc = z3.Int(name + '.owners')
                st.assume(b.rc >= 2)
            self.set_rc(st, b.o, b.rc)
        self.bufs.append(b)
        return b

    def bb(self, name, rep, cow=None):
        st = self.st
        o = Obj(name, 'param', self.bsize)
        setcell(st, o, self.orep, PTR, Ptr(rep.o, 0))
        o.tags['sp'] = True
        c = z3.Int(name + '.cow') if cow is None else cow
        if cow is None:
            st.assume(z3.Or(c == 0, c == 1))
        setcell(st, o, self.ocow, I8, c)
        o.tags['cow'] = c
        return o

    def get_rc(self, st, o):
        return st.mem[(o, ('g', 'rc'))][1]

    def set_rc(self, st, o, v):
        # owners are counted by the specification only
        st.mem[(o, ('g', 'rc'))] = ('rc', v)

    # -------------------------------------------------------------- shared_ptr
    def ptr_contracts(self):
        e = self.e
        P = r'boost::shared_ptr<lintel::NoCopyByteBuffer>::'

        def at(p):
            if not isinstance(p, Ptr) or p.obj is None or is_sym(p.off):
                raise Unsupported('shared_ptr object')
            return p.obj, p.off

        def get(st, p):
            o, off = at(p)
            v = cell(st, o, off)
            if not isinstance(v, Ptr):
                raise Unsupported('shared_ptr state')
            return v

        def put(st, p, v):
            o, off = at(p)
            st.mem[(o, ('c', off))] = (PTR, v)
            st.writes.add((o, ('c', off)))

        def acquire(st, v):
            if v.obj is not None:
                if v.obj in st.dead:
                    e.oblige(st, 'no shared ownership of a deleted buffer', False, 'lifetime')
                    raise PathEnd()
                self.set_rc(st, v.obj, self.get_rc(st, v.obj) + 1)

        def release(st, v):
            if v.obj is None:
                return
            if v.obj in st.dead:
                e.oblige(st, 'no second release of a deleted buffer', False, 'lifetime')
                raise PathEnd()
            rc = self.get_rc(st, v.obj)
            if not is_sym(rc) and rc == 1 or is_sym(rc) and e.must(st, rc == 1):
                d = cell(st, v.obj, self.od)
                if isinstance(d, Ptr) and d.obj is not None:
                    e.free(st, d)
                e.free(st, Ptr(v.obj, 0))
                self.set_rc(st, v.obj, 0)
            elif is_sym(rc) and not e.must(st, rc > 1):
                raise Unsupported('owner count is not decided')
            else:
                self.set_rc(st, v.obj, rc - 1)

        def own(eng, st, fn, args):
            v = args[1]
            if v.obj is not None:
                if (v.obj, ('g', 'rc')) in st.mem:
                    e.oblige(st, 'a buffer gets one group of owners', False, 'lifetime')
                    raise PathEnd()
                self.set_rc(st, v.obj, 1)
            put(st, args[0], v)

        def ctor0(eng, st, fn, args):
            put(st, args[0], NULL)

        def copy(eng, st, fn, args):
            v = get(st, args[1])
            acquire(st, v)
            put(st, args[0], v)

        def dtor(eng, st, fn, args):
            release(st, get(st, args[0]))

        def assign(eng, st, fn, args):
            v, old = get(st, args[1]), get(st, args[0])
            acquire(st, v)
            put(st, args[0], v)
            release(st, old)
            return args[0]

        def reset(eng, st, fn, args):
            old = get(st, args[0])
            own(eng, st, fn, args)
            release(st, old)

        def reset0(eng, st, fn, args):
            old = get(st, args[0])
            put(st, args[0], NULL)
            release(st, old)

        def swap(eng, st, fn, args):
            a, b = get(st, args[0]), get(st, args[1])
            put(st, args[0], b)
            put(st, args[1], a)

        def unique(eng, st, fn, args):
            v = get(st, args[0])
            if v.obj is None:
                return False
            return Eq(self.get_rc(st, v.obj), 1)

        def count(eng, st, fn, args):
            v = get(st, args[0])
            return 0 if v.obj is None else self.get_rc(st, v.obj)

        def px(eng, st, fn, args):
            return get(st, args[0])
        A = lambda rx, h: e.contract(rx, h)
        A(r'^(void )?%sshared_ptr(<lintel::NoCopyByteBuffer>)?\(lintel::NoCopyByteBuffer\*\)$' % P, own)
        A(r'^%sshared_ptr\(\)$' % P, ctor0)
        A(r'^%sshared_ptr\(boost::shared_ptr<lintel::NoCopyByteBuffer> const&\)$' % P, copy)
        A(r'^%s~shared_ptr\(\)$' % P, dtor)
        A(r'^%soperator=\(boost::shared_ptr<lintel::NoCopyByteBuffer> const&\)$' % P, assign)
        A(r'^void %sreset<lintel::NoCopyByteBuffer>\(lintel::NoCopyByteBuffer\*\)$' % P, reset)
        A(r'^%sreset\(\)$' % P, reset0)
        A(r'^%sswap\(' % P, swap)
        A(r'^%sunique\(\) const$' % P, unique)
        A(r'^%suse_count\(\) const$' % P, count)
        A(r'^%s(get|operator->|operator\*)\(\) const$' % P, px)

    def h_memcmp(self, eng, st, fn, args):
        a, b, n = args
        for p in (a, b):
            if p.obj is None:
                eng.oblige(st, 'memcmp through a null pointer compares nothing', Eq(n, 0))
            else:
                eng.in_bounds_range(st, p, n, 'memcmp')
        if a.obj is None or b.obj is None:
            return 0
        r = z3.Int(eng.fresh_name('memcmp'))
        j, k = z3.Int(eng.fresh_name('j')), z3.Int(eng.fresh_name('differ'))
        ma, mb = eng.getmap(st, a.obj, 0, I8), eng.getmap(st, b.obj, 0, I8)
        ea = lambda i: z3.Select(ma, a.off + i)
        eb = lambda i: z3.Select(mb, b.off + i)
        st.assume(z3.And(r >= 0, r < 1 << 32))
        st.assume(z3.Implies(r == 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), ea(j) == eb(j)))))
        st.assume(z3.Implies(r != 0, z3.And(k >= 0, k < n, ea(k) != eb(k))))
        return r

    # -------------------------------------------------------------- postconditions
    def view(self, st, no):
        """the fields of a NoCopyByteBuffer in st"""
        p = cell(st, no, self.od)
        if not isinstance(p, Ptr) or is_sym(p.off) or p.off != 0:
            raise Unsupported('storage pointer %r' % (p,))
        return p.obj, cell(st, no, self.on), cell(st, no, self.of), cell(st, no, self.ob)

    def good(self, st, no, what):
        """representation invariant"""
        e = self.e
        d, n, f, b = self.view(st, no)
        e.oblige(st, '%s: 0 <= front <= back <= size' % what, z3.And(B(f >= 0), B(f <= b), B(b <= n)), 'post')
        if d is None:
            e.oblige(st, '%s: no storage, no size' % what, Eq(n, 0), 'post')
        else:
            e.oblige(st, '%s: storage is live' % what, d not in st.dead, 'lifetime')
            e.oblige(st, '%s: storage has the recorded size' % what, Eq(d.count, n), 'post')

    def content(self, st, no, length, byte, what):
        """the readable bytes are exactly byte(0), ..., byte(length - 1)"""
        e = self.e
        d, n, f, b = self.view(st, no)
        e.oblige(st, '%s: number of readable bytes' % what, Eq(b - f, length), 'post')
        if d is None or d in st.dead:
            return
        j = z3.Int(e.fresh_name('j_post'))
        m = e.getmap(st, d, 0, I8)
        e.oblige(st, '%s: readable byte j' % what, z3.Implies(z3.And(j >= 0, B(j < length)), z3.Select(m, f + j) == byte(j)), 'post')

    def same(self, st, b, what):
        """buffer b is exactly as it was"""
        e = self.e
        if b.o in st.dead:
            e.oblige(st, '%s: another owner\'s buffer is deleted' % what, False, 'lifetime')
            return
        d, n, f, k = self.view(st, b.o)
        e.oblige(st, '%s: shared buffer keeps its regions' % what, z3.And(B(Eq(n, b.size)), B(Eq(f, b.front)), B(Eq(k, b.back))), 'frame')
        e.oblige(st, '%s: shared buffer keeps its storage' % what, d is b.data and d not in st.dead, 'frame')
        if b.data is not None:
            j = z3.Int(e.fresh_name('j_frame'))
            m = e.getmap(st, b.data, 0, I8)
            e.oblige(st, '%s: bytes of the shared buffer' % what, z3.Implies(z3.And(j >= 0, j < b.size), z3.Select(m, j) == z3.Select(b.map, j)), 'frame')

    def owned(self, st, live, what):
        """all storage that exists is reachable from the buffers in live (NoCopyByteBuffer objects)"""
        e = self.e
        keep = set(live)
        for o in live:
            if o not in st.dead:
                d = self.view(st, o)[0]
                keep.add(d)
        old = [b.o for b in self.bufs] + [b.data for b in self.bufs if b.data is not None]
        for o in list(st.allocs) + old:
            if o not in keep and o not in st.dead and o.kind == 'heap':
                e.oblige(st, '%s: no storage is leaked (%s)' % (what, o.name), False, 'lifetime')

    def rep(self, st, o):
        p = cell(st, o, self.orep)
        if not isinstance(p, Ptr) or p.obj is None:
            raise Unsupported('rep %r' % (p,))
        return p.obj

    def alone(self, st, this, b, what):
        """after a change the buffer is the only owner of its storage; former co-owners are untouched"""
        e = self.e
        r = self.rep(st, this)
        e.oblige(st, '%s: rep is live' % what, r not in st.dead, 'lifetime')
        if r in st.dead:
            return None
        e.oblige(st, '%s: one owner' % what, Eq(self.get_rc(st, r), 1), 'post')
        if is_sym(b.rc):
            e.oblige(st, '%s: shared storage is left to its other owners' % what, r is not b.o, 'post')
            e.oblige(st, '%s: one owner less' % what, Eq(self.get_rc(st, b.o), b.rc - 1) if b.o not in st.dead else False, 'lifetime')
            self.same(st, b, what)
            self.owned(st, [r, b.o], what)
        else:
            self.owned(st, [r], what)
        return r

    def refusals(self, ok):
        """assertion failures are permitted exactly where ok (a condition over the entry state) holds"""
        def h(eng, st):
            eng.oblige(st, 'the operation is refused only when it is invalid', ok, 'assert')
        self.e.assert_ok = h

    def denied(self, this, b):
        """copying on write is needed but not allowed"""
        if not is_sym(b.rc):
            return z3.BoolVal(False)
        return z3.And(B(b.size > 0), B(Eq(this.tags['cow'], 0)))


def finish(h, res):
    h.e.returns = len(res)
    return h.e


def old(b):
    return lambda j: z3.Select(b.map, b.front + j) if b.map is not None else I(0)


# ------------------------------------------------------------------ NoCopyByteBuffer
N = r'^lintel::NoCopyByteBuffer::'
B_ = r'^(?:(?:void|unsigned int\*|unsigned int const\*) )?lintel::ByteBuffer::'
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'


def ncb_task(variant, name, body):
    def t(ctx):
        h = BBS(ctx)
        b = h.ncb('buffer', variant, rc=None)
        h.e.opts['objects'] = [b.o] + ([b.data] if b.data else [])
        res = body(h, b)
        return finish(h, res)
    return Task('NoCopyByteBuffer::%s (%s)' % (name, 'allocated' if variant == 'heap' else 'no storage'), t)


def n_mut(pat, args, length, byte, refuse=None, extra=None):
    def body(h, b):
        st, e = h.st, h.e
        av = args(h, b) if args else []
        h.refusals(refuse(h, b, *av) if refuse else z3.BoolVal(False))
        r = e.run(h.fn(N + pat), [Ptr(b.o, 0)] + av, st)
        for s, v in r:
            h.good(s, b.o, pat)
            h.content(s, b.o, length(b, *av), byte(b, *av), pat)
            h.owned(s, [b.o], pat)
            if refuse:
                e.oblige(s, '%s: an invalid call does not return' % pat, z3.Not(refuse(h, b, *av)), 'post')
            if extra:
                extra(h, s, b, v, *av)
        return r
    return body


def n_get(pat, want):
    def body(h, b):
        r = h.e.run(h.fn(N + pat), [Ptr(b.o, 0)], h.st)
        for s, v in r:
            want(h, s, b, v)
            h.same(s, b, pat)
        return r
    return body


def is_ptr(h, s, v, d, off, what):
    ok = isinstance(v, Ptr) and v.obj is d
    h.e.oblige(s, '%s: pointer into the storage' % what, ok, 'post')
    if ok:
        h.e.oblige(s, '%s: pointer to the right byte' % what, Eq(v.off, off), 'post')


amt = lambda h, b: [amount(h)]


def amount(h, name='amt', lim=None):
    v = z3.Int(name)
    h.st.assume(z3.And(v >= 0, v < (lim or 1 << 64)))
    return v


def consume_args(h, b):
    # checked in debug builds only: the caller must not consume more than is readable
    v = amount(h)
    h.st.assume(B(v <= b.len))
    return [v]


def write_start(h, s, b, v, a):
    is_ptr(h, s, v, b.data, b.back, 'writeStart')


def resized(h, s, b, v, n):
    d, size, f, k = h.view(s, b.o)
    h.e.oblige(s, 'resizeBuffer: size is the requested size', Eq(size, n), 'post')
    h.e.oblige(s, 'resizeBuffer: data moved to the start', Eq(f, 0), 'post')
    h.e.oblige(s, 'resizeBuffer: a valid pointer', d is not None, 'post')


NCB = []
for var in ('heap', 'null'):
    T = lambda n, body, var=var: NCB.append(ncb_task(var, n, body))
    T('empty', n_get(r'empty\(\) const$', lambda h, s, b, v: h.e.oblige(s, 'empty', h.e.tobool(v) == B(Eq(b.len, 0)), 'post')))
    T('bufferSize', n_get(r'bufferSize\(\) const$', lambda h, s, b, v: h.e.oblige(s, 'bufferSize', Eq(v, b.size), 'post')))
    T('readAvailable', n_get(r'readAvailable\(\) const$', lambda h, s, b, v: h.e.oblige(s, 'readAvailable', Eq(v, b.len), 'post')))
    T('writeAvailable', n_get(r'writeAvailable\(\) const$', lambda h, s, b, v: h.e.oblige(s, 'writeAvailable', Eq(v, b.size - b.back), 'post')))
    T('readStart', n_get(r'readStart\(\) const$', lambda h, s, b, v: is_ptr(h, s, v, b.data, b.front, 'readStart')))
    T('writeableReadStart', n_get(r'writeableReadStart\(\)$', lambda h, s, b, v: is_ptr(h, s, v, b.data, b.front, 'writeableReadStart')))
    T('consume', n_mut(r'consume\(', consume_args, lambda b, a: b.len - a, lambda b, a: (lambda j: old(b)(j + a))))
    T('extend', n_mut(r'extend\(', amt, lambda b, a: b.len + a, lambda b, a: (lambda j: old(b)(j)), refuse=lambda h, b, a: B(a > b.size - b.back)))
    T('writeStart', n_mut(r'writeStart\(', amt, lambda b, a: b.len + a, lambda b, a: (lambda j: old(b)(j)),
                          refuse=lambda h, b, a: B(a > b.size - b.back), extra=write_start))
    T('unextend', n_mut(r'unextend\(', amt, lambda b, a: b.len - a, lambda b, a: (lambda j: old(b)(j)), refuse=lambda h, b, a: B(a > b.len)))
    T('resizeBuffer', n_mut(r'resizeBuffer\(', lambda h, b: [amount(h, 'new_size', MAXB)], lambda b, a: b.len, lambda b, a: old(b),
                            refuse=lambda h, b, a: B(a < b.len), extra=resized))
    T('shift', n_mut(r'shift\(', None, lambda b: b.len, lambda b: old(b),
                     extra=lambda h, s, b, v: h.e.oblige(s, 'shift: data at the start', Eq(h.view(s, b.o)[2], 0), 'post')))
    T('reset', n_mut(r'reset\(', None, lambda b: 0, lambda b: old(b)))
    T('purge', n_mut(r'purge\(', None, lambda b: 0, lambda b: old(b),
                     extra=lambda h, s, b, v: h.e.oblige(s, 'purge: storage released', h.view(s, b.o)[0] is None, 'post')))


def t_ncb_ctor(ctx):
    h = BBS(ctx)
    o = Obj('buffer', 'param', h.nsize)
    r = h.e.run(h.fn(N + r'NoCopyByteBuffer\(\)$'), [Ptr(o, 0)], h.st)
    for s, v in r:
        h.good(s, o, 'constructor')
        h.content(s, o, 0, None, 'constructor')
    return finish(h, r)


def t_ncb_dtor(variant):
    def t(ctx):
        h = BBS(ctx)
        b = h.ncb('buffer', variant, rc=None)
        r = h.e.run(h.fn(N + r'~NoCopyByteBuffer\(\)$'), [Ptr(b.o, 0)], h.st)
        for s, v in r:
            h.owned(s, [], 'destructor')
        return finish(h, r)
    return Task('NoCopyByteBuffer::~NoCopyByteBuffer (%s)' % variant, t)


# ------------------------------------------------------------------ ByteBuffer
def bb_task(name, body, owners=(1, 'shared'), data=('heap', 'null')):
    out = []
    for rc in owners:
        for d in data:
            def t(ctx, rc=rc, d=d):
                h = BBS(ctx)
                b = h.ncb('rep', d, rc)
                this = h.bb('buffer', b)
                h.e.opts['objects'] = [b.o, this] + ([b.data] if b.data else [])
                return finish(h, body(h, this, b))
            out.append(Task('ByteBuffer::%s (%s, %s)' % (name, 'only owner' if rc == 1 else 'shared', 'allocated' if d == 'heap' else 'no storage'), t))
    return out


def b_mut(pat, args, length, byte, refuse=None, extra=None, may=None):
    def body(h, this, b):
        st, e = h.st, h.e
        av = args(h, b) if args else []
        no = h.denied(this, b)
        if refuse:
            no = z3.Or(no, refuse(h, b, *av))
        h.refusals(z3.Or(no, may(h, b, *av)) if may else no)
        r = e.run(h.fn(B_ + pat), [Ptr(this, 0)] + av, st)
        for s, v in r:
            r2 = h.alone(s, this, b, pat)
            e.oblige(s, '%s: an invalid or forbidden call does not return' % pat, z3.Not(no), 'post')
            if r2 is None:
                continue
            h.good(s, r2, pat)
            h.content(s, r2, length(b, *av), byte(b, *av), pat)
            e.oblige(s, '%s: copy-on-write permission kept' % pat, Eq(cell(s, this, h.ocow), this.tags['cow']), 'post')
            if extra:
                extra(h, s, r2, b, v, *av)
        return r
    return body


def b_get(pat, want):
    def body(h, this, b):
        r = h.e.run(h.fn(B_ + pat), [Ptr(this, 0)], h.st)
        for s, v in r:
            want(h, s, b, v)
            h.same(s, b, pat)
            h.e.oblige(s, '%s: same storage' % pat, h.rep(s, this) is b.o, 'post')
        return r
    return body


def space(h, b):
    """room for writing that the operation may rely on: a shared buffer is copied without spare room"""
    return b.size - b.back


BBT = []


def T(name, body, **kw):
    BBT.extend(bb_task(name, body, **kw))


def at_front(h, s, r, b, v, *a):
    d, n, f, k = h.view(s, r)
    is_ptr(h, s, v, d, f, 'writeableReadStart')


def at_back(h, s, r, b, v, a):
    d, n, f, k = h.view(s, r)
    is_ptr(h, s, v, d, k - a, 'writeStart')


T('empty', b_get(r'empty\(\) const$', lambda h, s, b, v: h.e.oblige(s, 'empty', h.e.tobool(v) == B(Eq(b.len, 0)), 'post')))
T('bufferSize', b_get(r'bufferSize\(\) const$', lambda h, s, b, v: h.e.oblige(s, 'bufferSize', Eq(v, b.size), 'post')))
T('readAvailable', b_get(r'readAvailable\(\) const$', lambda h, s, b, v: h.e.oblige(s, 'readAvailable', Eq(v, b.len), 'post')))
T('writeAvailable', b_get(r'writeAvailable\(\) const$', lambda h, s, b, v: h.e.oblige(s, 'writeAvailable', Eq(v, b.size - b.back), 'post')))
T('readStart', b_get(r'readStart\(\) const$', lambda h, s, b, v: is_ptr(h, s, v, b.data, b.front, 'readStart')))
T('writeableReadStart', b_mut(r'writeableReadStart\(\)$', None, lambda b: b.len, lambda b: old(b), extra=at_front))
T('consume', b_mut(r'consume\(', consume_args, lambda b, a: b.len - a, lambda b, a: (lambda j: old(b)(j + a))))
no_room = lambda h, b, a: B(a > b.size - b.back)
# a buffer that has to be copied first may lose the room beyond its data, so that the extension is refused
lost_room = lambda h, b, a: z3.And(is_sym(b.rc), B(a > 0))
T('extend', b_mut(r'extend\(', amt, lambda b, a: b.len + a, lambda b, a: old(b),
                  refuse=no_room, may=lost_room))
T('writeStart', b_mut(r'writeStart\(', amt, lambda b, a: b.len + a, lambda b, a: old(b), refuse=no_room, may=lost_room, extra=at_back))
T('unextend', b_mut(r'unextend\(', amt, lambda b, a: b.len - a, lambda b, a: old(b), refuse=lambda h, b, a: B(a > b.len)))
# the same in elements of four bytes
elements = lambda h, b: [amount(h, 'elements', 1 << 60)]
no_room4 = lambda h, b, a: B(4 * a > b.size - b.back)
T('readStartAs', b_get(r'readStartAs<unsigned int>\(', lambda h, s, b, v: is_ptr(h, s, v, b.data, b.front, 'readStartAs')))
T('extendAs', b_mut(r'extendAs<unsigned int>\(', elements, lambda b, a: b.len + 4 * a, lambda b, a: old(b), refuse=no_room4, may=lost_room))
T('writeStartAs', b_mut(r'writeStartAs<unsigned int>\(', elements, lambda b, a: b.len + 4 * a, lambda b, a: old(b), refuse=no_room4, may=lost_room,
                        extra=lambda h, s, r, b, v, a: at_back(h, s, r, b, v, 4 * a)))
T('resizeBuffer', b_mut(r'resizeBuffer\(', lambda h, b: [amount(h, 'new_size', MAXB)], lambda b, a: b.len, lambda b, a: old(b),
                        refuse=lambda h, b, a: B(a < b.len),
                        extra=lambda h, s, r, b, v, a: h.e.oblige(s, 'resizeBuffer: requested size, data at the start', And(B(Eq(h.view(s, r)[1], a)), B(Eq(h.view(s, r)[2], 0)), h.view(s, r)[0] is not None), 'post')))
T('shift', b_mut(r'shift\(', None, lambda b: b.len, lambda b: old(b),
                 extra=lambda h, s, r, b, v: h.e.oblige(s, 'shift: data at the start', Eq(h.view(s, r)[2], 0), 'post')))
T('reset', b_mut(r'reset\(', None, lambda b: 0, lambda b: old(b)))
T('purge', b_mut(r'purge\(', None, lambda b: 0, lambda b: old(b)))


# operations on bytes of the caller
def src_args(off=False):
    def a(h, b):
        n = amount(h, 'length', MAXB)
        src = Obj('source', 'param', n, stride=1, count=n)
        src.const = True
        h.src = h.e.getmap(h.st, src, 0, I8)
        h.sobj = src
        r = [Ptr(src, 0), n]
        if off:
            o = amount(h, 'offset')
            r = [o] + r
        b.src = h.src
        return r
    return a


T('append(bytes)', b_mut(r'append\(void const\*, unsigned long\)', src_args(), lambda b, p, n: b.len + n,
                         lambda b, p, n: (lambda j: z3.If(B(j < b.len), old(b)(j), z3.Select(b.src, j - b.len)))))
T('assign(bytes)', b_mut(r'assign\(void const\*, unsigned long\)', src_args(), lambda b, p, n: n, lambda b, p, n: (lambda j: z3.Select(b.src, j))))
T('replace', b_mut(r'replace\(', src_args(True), lambda b, o, p, n: b.len,
                   lambda b, o, p, n: (lambda j: z3.If(z3.And(j >= o, j < o + n), z3.Select(b.src, j - o), old(b)(j))),
                   refuse=lambda h, b, o, p, n: B(o + n > b.len)))


def str_args(h, b):
    o, n, f = str_param(h.e, h.st, 'string', MAXB)
    b.sn, b.sf = n, f
    return [Ptr(o, 0)]


T('append(string)', b_mut(r'append\(std::', str_args, lambda b, p: b.len + b.sn,
                          lambda b, p: (lambda j: z3.If(B(j < b.len), old(b)(j), b.sf(j - b.len)))))
T('assign(string)', b_mut(r'assign\(std::', str_args, lambda b, p: b.sn, lambda b, p: (lambda j: b.sf(j))))


def as_string(h, this, b):
    h.refusals(z3.BoolVal(False))
    e = h.e
    o = Obj('result', 'param', 32)
    r = e.run(h.fn(B_ + r'asString'), [Ptr(o, 0), Ptr(this, 0)], h.st)
    for s, v in r:
        n, f = str_bytes(e, s, Ptr(o, 0))
        j = z3.Int('j_str')
        e.oblige(s, 'asString: length', Eq(n, b.len), 'post')
        e.oblige(s, 'asString: byte j', z3.Implies(z3.And(j >= 0, B(j < n)), f(j) == old(b)(j)), 'post')
        h.same(s, b, 'asString')
    return r


T('asString', as_string)


def bb_ctor(kind):
    def t(ctx):
        h = BBS(ctx)
        e, st = h.e, h.st
        o = Obj('buffer', 'param', h.bsize)
        cow = z3.Int('cow')
        st.assume(z3.Or(cow == 0, cow == 1))
        cb = cow == 1
        if kind == 'empty':
            pat, args, n, f = r'ByteBuffer\(bool\)$', [cb], 0, lambda j: I(0)
        elif kind == 'string':
            so, n, f = str_param(e, st, 'init', MAXB)
            pat, args = r'ByteBuffer\(std::', [Ptr(so, 0), cb]
        else:
            cnt = z3.Int('init.count')
            src = Obj('init', 'param', cnt, stride=1, count=cnt)
            src.const = True
            m = e.getmap(st, src, 0, I8)
            f = lambda j: z3.Select(m, j)
            pat = r'ByteBuffer\(char const\*, long, bool\)'
            if kind == 'bytes':
                n = z3.Int('len')
                st.assume(z3.And(n >= 0, n < MAXB, cnt == n))
                args = [Ptr(src, 0), n, cb]
            else:
                n, ln, jz = z3.Int('strlen'), z3.Int('len'), z3.Int('jz')
                st.assume(z3.And(ln >= 1 << 63, ln < 1 << 64, n >= 0, n < MAXB, cnt == n + 1, f(n) == 0))
                st.assume(FA([jz], z3.Implies(z3.And(jz >= 0, jz < n), f(jz) != 0), pats=[f(jz)]))
                args = [Ptr(src, 0), ln, cb]
                src.tags['zero_at'] = n
        h.refusals(z3.BoolVal(False))
        r = e.run(h.fn(B_ + pat), [Ptr(o, 0)] + args, st)
        for s, v in r:
            no = h.rep(s, o)
            h.e.oblige(s, 'constructor: one owner', Eq(h.get_rc(s, no), 1), 'post')
            h.good(s, no, 'constructor')
            if kind == 'cstr':
                # where the first zero byte is
                for x in strlens(s):
                    e.oblige(s, 'strlen is the position of the first zero byte', x == n, 'lemma')
                    s.assume(x == n)
            h.content(s, no, n, f, 'constructor')
            e.oblige(s, 'constructor: permission', Eq(cell(s, o, h.ocow), cow), 'post')
            h.owned(s, [no], 'constructor')
        return finish(h, r)
    return Task('ByteBuffer::ByteBuffer(%s)' % kind, t)


def strlens(s):
    out, seen, stack = [], set(), list(s.pc)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().name().startswith('strlen!'):
            out.append(x)
        stack += x.children()
    return out


# ------------------------------------------------------------------ streams
def stream(h):
    """an input stream: the bytes still to come, the position reached, the state flags; a read may stop early
    only by setting a flag"""
    e, st = h.e, h.st
    h.total = z3.Int('stream.length')
    st.assume(z3.And(h.total >= 0, h.total < MAXB))
    h.sbytes = z3.Const('stream.bytes', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    vt = Obj('stream.vtable', 'param', 64)
    o = Obj('stream', 'param', 280)
    setcell(st, vt, 0, I64, 16)
    setcell(st, o, 0, PTR, Ptr(vt, 24))
    h.strm = o
    for k in ('eof', 'fail', 'bad'):
        v = z3.Int('stream.' + k)
        st.assume(z3.Or(v == 0, v == 1))
        st.ghost[k] = v
    # fail() is also true when the stream is bad
    st.assume(z3.Implies(st.ghost['bad'] == 1, st.ghost['fail'] == 1))
    st.ghost['pos'] = z3.IntVal(0)
    st.ghost['count'] = z3.IntVal(0)

    def flag(k):
        return lambda eng, s, fn, args: s.ghost[k] == 1

    def read(eng, s, fn, args):
        p, n = args[1], args[2]
        eng.oblige(s, 'stream read of a non-negative amount', B(n < 1 << 63))
        if p.obj is None:
            eng.oblige(s, 'stream read through a null pointer reads nothing', Eq(n, 0))
            raise PathEnd()
        eng.in_bounds_range(s, p, n, 'stream read')
        k = z3.Int(eng.fresh_name('read'))
        pos = s.ghost['pos']
        s.assume(z3.And(k >= 0, k <= n, k <= h.total - pos))
        f2 = {}
        for g in ('eof', 'fail', 'bad'):
            f2[g] = z3.Int(eng.fresh_name(g))
            s.assume(z3.Or(f2[g] == 0, f2[g] == 1))
        s.assume(z3.Implies(f2['bad'] == 1, f2['fail'] == 1))
        s.assume(z3.Implies(B(k < n), f2['fail'] == 1))
        s.assume(z3.Implies(B(k == n), z3.And(*[f2[g] == s.ghost[g] for g in f2])))
        m = eng.getmap(s, p.obj, 0, I8)
        eng.setmap(s, p.obj, 0, I8, eng.copy_map(s, m, p.off, h.sbytes, pos, k))
        for g in f2:
            eng.set_ghost(s, g, f2[g])
        eng.set_ghost(s, 'pos', pos + k)
        eng.set_ghost(s, 'count', k)
        return args[0]
    P = r'^std::basic_ios<char, std::char_traits<char> ?>::'
    for k in ('eof', 'fail', 'bad'):
        e.contract(P + k + r'\(\) const$', flag(k))
    e.contract(r'^std::basic_istream<char, std::char_traits<char> ?>::read\(', read)
    e.contract(r'^std::basic_istream<char, std::char_traits<char> ?>::gcount\(\) const$', lambda eng, s, fn, args: s.ghost['count'])
    e.assumptions.add('std::istream: read(p, n) stores the next bytes of the stream, gcount() of them; fewer than n only with a state flag set')


def content_invs(h, this, b):
    """the buffer holds the old bytes followed by what was read from the stream"""
    def inv(L):
        st, e = L.st, L.eng
        out = []
        no = cell(st, this, h.orep)
        if not isinstance(no, Ptr) or no.obj is None:
            return out
        d, n, f, k = h.view(st, no.obj)
        pos = st.ghost['pos']
        out.append(('regions', And(B(f >= 0), B(f <= k), B(k <= n))))
        if d is None:
            return out
        out.append(('size', And(B(Eq(d.count, n)), B(n <= MAXB))))
        out.append(('length', And(B(Eq(k - f, b.len + pos)), B(pos >= 0), B(pos <= h.total))))
        j = z3.Int('j!content')
        m = e.getmap(st, d, 0, I8)
        out.append(('content', FA([j], z3.Implies(z3.And(j >= f, B(j < k)), z3.Select(m, j) == z3.If(j - f < b.len, old(b)(j - f), z3.Select(h.sbytes, j - f - b.len))), pats=[z3.Select(m, j)])))
        for key, (v, v0, w) in sorted(L.ints.items(), key=lambda kv: str(kv[0])):
            if w == 64 and not isinstance(v, PInt):
                out.append(('%s == pos' % (key,), B(Eq(v, pos))))
        for g in ('eof', 'fail', 'bad'):
            out.append((g, z3.And(st.ghost[g] >= 0, st.ghost[g] <= 1)))
        out.append(('bad is fail', z3.Implies(st.ghost['bad'] == 1, st.ghost['fail'] == 1)))
        return out
    return inv


def from_stream(pat, entire):
    def body(h, this, b):
        e, st = h.e, h.st
        stream(h)
        amount_ = amount(h, 'amount', MAXB)
        no = h.denied(this, b)
        h.refusals(no)
        e.opts['objects'] = e.opts['objects'] + [h.strm]
        e.invs = [content_invs(h, this, b)]
        r = e.run(h.fn(B_ + pat), [Ptr(this, 0), Ptr(h.strm, 0), amount_], st)
        for s, v in r:
            r2 = h.alone(s, this, b, pat)
            e.oblige(s, '%s: a forbidden call does not return' % pat, z3.Not(no), 'post')
            if r2 is None:
                continue
            pos = s.ghost['pos']
            h.good(s, r2, pat)
            h.content(s, r2, b.len + pos, lambda j: z3.If(B(j < b.len), old(b)(j), z3.Select(h.sbytes, j - b.len)), pat)
            e.oblige(s, '%s: returns the number of bytes read, or -1 for a bad stream' % pat,
                     Eq(v, z3.If(s.ghost['bad'] == 1, z3.IntVal((1 << 64) - 1), pos)), 'post')
            stopped = z3.Or(*[s.ghost[k] == 1 for k in ('eof', 'fail', 'bad')])
            if entire:
                d, n, f, k = h.view(s, r2)
                e.oblige(s, '%s: stops early only when the buffer is full' % pat, z3.Or(stopped, B(Eq(k, n))), 'post')
                e.oblige(s, '%s: does not grow beyond the limit' % pat, z3.Or(B(n <= amount_), B(n <= b.size)), 'post')
            else:
                e.oblige(s, '%s: reads the requested amount unless the stream ends' % pat, z3.Or(stopped, B(Eq(pos, amount_))), 'post')
                e.oblige(s, '%s: does not read more than requested' % pat, B(pos <= amount_), 'post')
        return r
    return body


T('appendFromStream', from_stream(r'appendFromStream\(', False))
T('appendEntireStream', from_stream(r'appendEntireStream\(', True))


def force_unique(h, this, b):
    h.refusals(z3.BoolVal(False))
    r = h.e.run(h.fn(B_ + r'forceUnique\('), [Ptr(this, 0)], h.st)
    for s, v in r:
        r2 = h.alone(s, this, b, 'forceUnique')
        if r2 is not None:
            h.good(s, r2, 'forceUnique')
            h.content(s, r2, b.len, old(b), 'forceUnique')
    return r


T('forceUnique', force_unique)


def detach(h, this, b):
    h.refusals(z3.BoolVal(False))
    r = h.e.run(h.fn(B_ + r'detach\('), [Ptr(this, 0)], h.st)
    for s, v in r:
        r2 = h.rep(s, this)
        h.e.oblige(s, 'detach: a buffer of its own', r2 is not b.o and not is_sym(h.get_rc(s, r2)) and h.get_rc(s, r2) == 1, 'post')
        h.good(s, r2, 'detach')
        h.content(s, r2, 0, old(b), 'detach')
        if is_sym(b.rc):
            h.same(s, b, 'detach')
        h.owned(s, [r2] + ([b.o] if is_sym(b.rc) else []), 'detach')
    return r


T('detach', detach)


def t_bb_dtor(h, this, b):
    r = h.e.run(h.fn(B_ + r'~ByteBuffer\('), [Ptr(this, 0)], h.st)
    for s, v in r:
        if is_sym(b.rc):
            h.same(s, b, 'destructor')
            h.e.oblige(s, 'destructor: one owner less', Eq(h.get_rc(s, b.o), b.rc - 1), 'lifetime')
        h.owned(s, [b.o] if is_sym(b.rc) else [], 'destructor')
    return r


T('~ByteBuffer', t_bb_dtor)


def copy_ctor(h, this, b):
    o = Obj('copy', 'param', h.bsize)
    r = h.e.run(h.fn(B_ + r'ByteBuffer\(lintel::ByteBuffer const&\)'), [Ptr(o, 0), Ptr(this, 0)], h.st)
    for s, v in r:
        h.same(s, b, 'copy constructor')
        h.e.oblige(s, 'copy constructor: shares the storage', h.rep(s, o) is b.o, 'post')
        h.e.oblige(s, 'copy constructor: one owner more', Eq(h.get_rc(s, b.o), b.rc + 1), 'post')
        h.e.oblige(s, 'copy constructor: permission copied', Eq(cell(s, o, h.ocow), this.tags['cow']), 'post')
        h.owned(s, [b.o], 'copy constructor')
    return r


T('ByteBuffer(copy)', copy_ctor)

# two buffers: the other one is separate, shares the storage, or is the same object
PAIRS = []


def pair_task(name, body, same=True):
    for rel in ('separate', 'sharing') + (('itself',) if same else ()):
        for rc in ((1, 'shared') if rel != 'sharing' else ('shared',)):
            for d in ('heap', 'null'):
                for d2 in (('heap', 'null') if rel == 'separate' else (d,)):
                    def t(ctx, rel=rel, rc=rc, d=d, d2=d2):
                        h = BBS(ctx)
                        b = h.ncb('rep', d, rc)
                        this = h.bb('buffer', b)
                        if rel == 'itself':
                            other, c = this, b
                        elif rel == 'sharing':
                            other, c = h.bb('other', b), b
                        else:
                            c = h.ncb('rep2', d2, 'shared')
                            h.st.assume(c.rc >= 1)
                            other = h.bb('other', c)
                        h.e.opts['objects'] = [x for x in (b.o, this, b.data, c.o, other, c.data) if x is not None]
                        return finish(h, body(h, this, b, other, c, rel))
                    PAIRS.append(Task('ByteBuffer::%s (%s, %s, %s%s)' % (name, rel, 'only owner' if rc == 1 else 'shared', d, ' ' + d2 if rel == 'separate' else ''), t))


def pair_mut(pat, length, byte, selfnoop=False):
    def body(h, this, b, other, c, rel):
        no = h.denied(this, b)
        if selfnoop and rel == 'itself':
            h.refusals(no)
        else:
            h.refusals(no)
        r = h.e.run(h.fn(B_ + pat), [Ptr(this, 0), Ptr(other, 0)], h.st)
        for s, v in r:
            r2 = h.rep(s, this)
            if selfnoop and rel == 'itself' and r2 is b.o and is_sym(b.rc):
                # nothing changed, so nothing had to be copied
                h.same(s, b, pat)
                h.e.oblige(s, '%s: owners unchanged' % pat, Eq(h.get_rc(s, r2), b.rc), 'post')
                h.owned(s, [b.o], pat)
                continue
            h.e.oblige(s, '%s: a forbidden call does not return' % pat, z3.Not(no), 'post')
            h.good(s, r2, pat)
            h.content(s, r2, length(b, c), byte(b, c), pat)
            h.e.oblige(s, '%s: one owner' % pat, Eq(h.get_rc(s, r2), 1), 'post')
            keep = [r2]
            if is_sym(b.rc):
                h.same(s, b, pat)
                keep.append(b.o)
            if c is not b:
                h.same(s, c, pat + ' (source)')
                keep.append(c.o)
            h.owned(s, keep, pat)
        return r
    return body


pair_task('append(ByteBuffer)', pair_mut(r'append\(lintel::ByteBuffer const&\)', lambda b, c: b.len + c.len,
                                         lambda b, c: (lambda j: z3.If(B(j < b.len), old(b)(j), old(c)(j - b.len)))))
pair_task('assign(ByteBuffer)', pair_mut(r'assign\(lintel::ByteBuffer const&\)', lambda b, c: c.len, lambda b, c: old(c), selfnoop=True))


def pair_assign(h, this, b, other, c, rel):
    h.refusals(z3.BoolVal(False))
    r = h.e.run(h.fn(B_ + r'operator=\('), [Ptr(this, 0), Ptr(other, 0)], h.st)
    for s, v in r:
        h.e.oblige(s, 'operator=: shares the source\'s storage', h.rep(s, this) is c.o, 'post')
        h.e.oblige(s, 'operator=: permission copied', Eq(cell(s, this, h.ocow), other.tags['cow']), 'post')
        h.e.oblige(s, 'operator=: returns itself', isinstance(v, Ptr) and v.obj is this and v.off == 0, 'post')
        h.same(s, c, 'operator= (source)')
        h.e.oblige(s, 'operator=: owners of the source', Eq(h.get_rc(s, c.o), c.rc + (1 if c is not b else 0)), 'lifetime')
        keep = [c.o]
        if c is not b and is_sym(b.rc):
            h.same(s, b, 'operator= (former storage)')
            keep.append(b.o)
        h.owned(s, keep, 'operator=')
    return r


pair_task('operator=', pair_assign)


def pair_eq(neg):
    def body(h, this, b, other, c, rel):
        h.refusals(z3.BoolVal(False))
        e = h.e
        r = e.run(h.fn(B_ + (r'operator!=' if neg else r'operator==')), [Ptr(this, 0), Ptr(other, 0)], h.st)
        for s, v in r:
            t = e.tobool(v)
            t = z3.Not(B(t)) if neg else B(t)
            j, k = z3.Int('j_eq'), z3.Int('k_eq')
            e.oblige(s, 'equal buffers have the same bytes', z3.Implies(t, z3.And(B(Eq(b.len, c.len)), z3.Implies(z3.And(j >= 0, B(j < b.len)), old(b)(j) == old(c)(j)))), 'post')
            e.oblige(s, 'unequal buffers differ', z3.Implies(z3.And(z3.Not(t), B(Eq(b.len, c.len))),
                     z3.Not(z3.ForAll([k], z3.Implies(z3.And(k >= 0, B(k < b.len)), old(b)(k) == old(c)(k))))), 'post')
            h.same(s, b, 'comparison')
            h.same(s, c, 'comparison')
        return r
    return body


pair_task('operator==', pair_eq(False))
pair_task('operator!=', pair_eq(True))

TASKS = [bb_ctor(k) for k in ('empty', 'string', 'bytes', 'cstr')] + NCB + [Task('NoCopyByteBuffer::NoCopyByteBuffer', t_ncb_ctor), t_ncb_dtor('heap'), t_ncb_dtor('null')] + BBT + PAIRS

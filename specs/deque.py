"""Contracts of Deque<T>: representation invariant, abstract sequence, element lifetime."""
import z3
from vc import *
from lib import *

KIND = Kind('Elem', 'elem', 24)
DRIVERS = {'deque': ['drivers/deque.cpp']}
CLS = r'Deque<Elem, std::allocator<Elem> >'


class DQ:
    def __init__(self, ctx, n=None, tag='dq', variant=None):
        m = ctx['mods']['deque']
        self.mod = m
        g = lambda k: const_of(m, k)
        self.off = dict(q=g('off_deque'), f=g('off_front'), b=g('off_back'), n=g('off_size'))
        self.size = g('sizeof_dq')
        self.ito = g('off_it_deque')
        self.itp = g('off_it_pos')
        e = Engine(m, 'int', dict(ghost_sorts={}, alloc_layout=self.layout))
        self.e = e
        e.opts['on_free'] = [on_free_alive]
        std_contracts(e)
        opaque_contracts(e, KIND)
        self.st = State()

    @staticmethod
    def layout(eng, st, o):
        c = eng.exact_div(o.size, 24) if is_sym(o.size) else (o.size // 24 if o.size % 24 == 0 else None)
        if c is None:
            return False
        o.stride, o.count, o.ghost = 24, c, 'elem'
        o.tags['kind'] = KIND
        st.mem[(o, ('g', 'alive'))] = z3.K(z3.IntSort(), z3.BoolVal(False))
        return True

    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(pat, f.dname) and not f.decl]
        if len(fs) > 1:
            # complete-object and base-object constructors share a name
            fs = fs[:1]
        if not fs:
            raise Unsupported('function %s not found' % pat)
        return fs[0]

    def make(self):
        """an arbitrary well-formed deque"""
        st, e = self.st, self.e
        n, f, b = z3.Ints('n f b')
        st.assume(z3.And(n >= 2, n < (1 << 40), f >= 0, f < n, b >= 0, b < n))
        buf = Obj('buffer', 'heap', n * 24, stride=24, count=n, ghost='elem')
        buf.tags['kind'] = KIND
        this = Obj('deque', 'param', self.size)
        setcell(st, this, self.off['q'], PTR, Ptr(buf, 0))
        setcell(st, this, self.off['f'], I64, f)
        setcell(st, this, self.off['b'], I64, b)
        setcell(st, this, self.off['n'], I64, n)
        self.this, self.buf, self.n, self.f, self.b = this, buf, n, f, b
        al = e.getghost(st, buf, 'alive')
        e.getghost(st, buf, 'val')
        j = z3.Int('j_inv')
        st.assume(FA([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(al, j) == self.inside(j, f, b)), pats=[z3.Select(al, j)]))
        self.len0 = self.length(n, f, b)
        self.val0 = e.getghost(st, buf, 'val')
        e.opts['objects'] = [this, buf]
        return this

    @staticmethod
    def inside(j, f, b):
        return Ite(f <= b, And(B(j >= f), B(j < b)), Or(B(j >= f), B(j < b))) if is_sym(f) or is_sym(b) else \
            (And(B(j >= f), B(j < b)) if f <= b else Or(B(j >= f), B(j < b)))

    @staticmethod
    def length(n, f, b):
        return Ite(b >= f, b - f, n - f + b)

    @staticmethod
    def slot(i, n, f):
        return Ite(f + i < n, f + i, f + i - n)

    def old(self, i):
        return z3.Select(self.val0, self.slot(i, self.n, self.f))

    def view(self, st, o=None):
        """(n, f, b, buffer obj, alive, val) of the deque in state st"""
        o = o or self.this
        q = cell(st, o, self.off['q'])
        if not isinstance(q, Ptr) or q.obj is None or is_sym(q.off) or q.off != 0:
            raise Unsupported('deque storage pointer is %r' % (q,))
        return (cell(st, o, self.off['n']), cell(st, o, self.off['f']), cell(st, o, self.off['b']), q.obj)

    def post(self, st, length, seq, what, alive=True):
        """representation invariant and abstract sequence after an operation"""
        e = self.e
        n, f, b, buf = self.view(st)
        e.oblige(st, '%s: representation invariant (sizes)' % what, z3.And(B(n >= 2), B(f >= 0), B(f < n), B(b >= 0), B(b < n)), 'post')
        ok = buf not in st.dead
        e.oblige(st, '%s: storage is live' % what, ok, 'post')
        if not ok:
            return
        e.oblige(st, '%s: storage holds q_size elements' % what, Eq(buf.count, n) if is_sym(buf.count) or is_sym(n) else buf.count == n, 'post')
        e.oblige(st, '%s: length' % what, Eq(self.length(n, f, b), length) , 'post')
        i = z3.Int(e.fresh_name('i_post'))
        sv = z3.Select(e.getghost(st, buf, 'val'), self.slot(i, n, f))
        e.oblige(st, '%s: element i of the sequence' % what, z3.Implies(z3.And(i >= 0, B(i < length)), sv == seq(i)), 'post')
        j = z3.Int(e.fresh_name('j_post'))
        al = z3.Select(e.getghost(st, buf, 'alive'), j)
        e.oblige(st, '%s: exactly the stored elements are alive' % what, z3.Implies(z3.And(j >= 0, B(j < n)), al == B(self.inside(j, f, b))), 'lifetime')
        self.noleak(st, [buf], what)

    def noleak(self, st, keep, what):
        for o in list(st.allocs) + [self.buf] if hasattr(self, 'buf') else list(st.allocs):
            if o in keep or o in st.dead:
                continue
            self.e.oblige(st, '%s: no storage is leaked' % what, False, 'lifetime')

    def unchanged(self, st, what):
        self.post(st, self.len0, self.old, what)

    def run(self, pat, args):
        return self.e.run(self.fn(pat), args, self.st)

    def ret_elem(self, st, r, idx, what):
        """returned reference designates element idx of the sequence"""
        n, f, b, buf = self.view(st)
        ok = isinstance(r, Ptr) and r.obj is buf
        self.e.oblige(st, '%s: returns a reference into the deque' % what, ok, 'post')
        if ok:
            i, c = self.e.elem(st, r)
            self.e.oblige(st, '%s: returns the right element' % what, Eq(i, self.slot(idx, n, f)) if c == 0 else False, 'post')


def finish(d, res):
    d.e.returns = len(res)
    return d.e


def copy_invs(d):
    """templates for loops that move or destroy elements, over any counter of the loop"""
    def inv(L):
        e = L.eng
        st = L.st
        out = []
        bufs = [o for o in set(k[0] for k in st.mem if isinstance(k[0], Obj)) if o.ghost == 'elem' and o.kind == 'heap' and o not in st.dead]
        bufs.sort(key=lambda o: o.uid)
        cnt = [(k, v[0], v[1]) for k, v in sorted(L.ints.items(), key=lambda kv: str(kv[0])) if not isinstance(v[0], (PInt, Undef))]
        cnt += [(('p', str(k)), v[0], v[1]) for k, v in sorted(L.pidx.items(), key=lambda kv: str(kv[0]))]
        E = L.entry
        j = z3.Int('j!inv')
        for o in bufs:
            al, al0 = e.getghost(st, o, 'alive'), e.getghost(E, o, 'alive')
            va, va0 = e.getghost(st, o, 'val'), e.getghost(E, o, 'val')
            if al.eq(al0) and va.eq(va0) and L.at if hasattr(L, 'at') else False:
                pass
            for k, v, v0 in cnt:
                rng = z3.And(j >= v0, j < v)
                rng2 = z3.And(j > v, j <= v0)
                out.append(('%s alive outside [init,%s) unchanged' % (o.name, k),
                            FA([j], z3.Implies(z3.Not(rng), z3.Select(al, j) == z3.Select(al0, j)), pats=[z3.Select(al, j)])))
                out.append(('%s not alive in [init,%s)' % (o.name, k),
                            FA([j], z3.Implies(rng, z3.Not(z3.Select(al, j))), pats=[z3.Select(al, j)])))
                out.append(('%s alive in [init,%s)' % (o.name, k),
                            FA([j], z3.Implies(rng, z3.Select(al, j)), pats=[z3.Select(al, j)])))
                out.append(('%s val outside [init,%s) unchanged' % (o.name, k),
                            FA([j], z3.Implies(z3.Not(rng), z3.Select(va, j) == z3.Select(va0, j)), pats=[z3.Select(va, j)])))
                out.append(('%s alive outside (%s,init] unchanged' % (o.name, k),
                            FA([j], z3.Implies(z3.Not(rng2), z3.Select(al, j) == z3.Select(al0, j)), pats=[z3.Select(al, j)])))
                out.append(('%s not alive in (%s,init]' % (o.name, k),
                            FA([j], z3.Implies(rng2, z3.Not(z3.Select(al, j))), pats=[z3.Select(al, j)])))
                for o2 in bufs:
                    if o2 is o:
                        continue
                    for k2, w, w0 in cnt:
                        if k2 == k:
                            if not (is_sym(v0) or v0 != 0):
                                pass
                        src = z3.Select(e.getghost(E, o2, 'val'), j - v0 + w0)
                        out.append(('%s[init..%s) copied from %s at %s' % (o.name, k, o2.name, k2),
                                    FA([j], z3.Implies(rng, z3.Select(va, j) == src), pats=[z3.Select(va, j)])))
        return out
    return inv


def T(name, f, **kw):
    from runner import Task

    def run(ctx):
        return f(ctx)
    return Task(name, run, **kw)


def t_ctor(ctx):
    d = DQ(ctx)
    e, st = d.e, d.st
    n = z3.Int('n')
    st.assume(z3.And(n >= 2, n < (1 << 40)))
    d.this = Obj('deque', 'param', d.size)
    res = d.run(r'^%s::Deque\(unsigned long\)$' % CLS, [Ptr(d.this), n])
    for s, r in res:
        d.post(s, 0, lambda i: z3.IntVal(0), 'constructor')
        nn = d.view(s)[0]
        e.oblige(s, 'constructor: capacity', Eq(nn, n), 'post')
    return finish(d, res)


def t_dtor(ctx):
    d = DQ(ctx)
    d.e.invs = [copy_invs(d)]
    this = d.make()
    res = d.run(r'^%s::~Deque\(\)$' % CLS, [Ptr(this)])
    for s, r in res:
        d.noleak(s, [], 'destructor')
    return finish(d, res)


def t_front(ctx):
    d = DQ(ctx); this = d.make()
    d.st.assume(d.f != d.b)
    res = d.run(r'^%s::front\(\)$' % CLS, [Ptr(this)])
    for s, r in res:
        d.ret_elem(s, r, 0, 'front'); d.unchanged(s, 'front')
    return finish(d, res)


def t_back(ctx):
    d = DQ(ctx); this = d.make()
    d.st.assume(d.f != d.b)
    res = d.run(r'^%s::back\(\)$' % CLS, [Ptr(this)])
    for s, r in res:
        d.ret_elem(s, r, d.len0 - 1, 'back'); d.unchanged(s, 'back')
    return finish(d, res)


def t_at(ctx):
    d = DQ(ctx); this = d.make()
    p = z3.Int('pos')
    d.st.assume(z3.And(p >= 0, p < d.len0))
    res = d.run(r'^%s::at\(unsigned long\)$' % CLS, [Ptr(this), p])
    for s, r in res:
        d.ret_elem(s, r, p, 'at'); d.unchanged(s, 'at')
    return finish(d, res)


def t_pop_front(ctx):
    d = DQ(ctx); this = d.make()
    d.st.assume(d.f != d.b)
    res = d.run(r'^%s::pop_front\(\)$' % CLS, [Ptr(this)])
    for s, r in res:
        d.post(s, d.len0 - 1, lambda i: d.old(i + 1), 'pop_front')
    return finish(d, res)


def push_back(alias):
    def run(ctx):
        d = DQ(ctx); this = d.make()
        d.e.invs = [copy_invs(d)]
        if alias:
            k = z3.Int('alias_index')
            d.st.assume(z3.And(k >= 0, k < d.len0))
            sl = z3.Int('alias_slot')
            d.st.assume(sl == d.slot(k, d.n, d.f))
            arg = Ptr(d.buf, sl * 24)
            v = z3.Select(d.val0, sl)
        else:
            o = elem_obj(d.e, d.st, 'value', KIND)
            d.e.opts['objects'].append(o)
            arg = Ptr(o, 0)
            v = elem_val(d.e, d.st, o)
        res = d.run(r'^%s::push_back\(Elem const&\)$' % CLS, [Ptr(this), arg])
        for s, r in res:
            d.post(s, d.len0 + 1, lambda i: z3.If(i == d.len0, v, d.old(i)), 'push_back')
        return finish(d, res)
    return run


def t_size(ctx):
    d = DQ(ctx); this = d.make()
    res = d.run(r'^%s::size\(\) const$' % CLS, [Ptr(this)])
    for s, r in res:
        d.e.oblige(s, 'size: number of elements', Eq(r, d.len0), 'post'); d.unchanged(s, 'size')
    return finish(d, res)


def t_empty(ctx):
    d = DQ(ctx); this = d.make()
    res = d.run(r'^%s::empty\(\) const$' % CLS, [Ptr(this)])
    for s, r in res:
        d.e.oblige(s, 'empty: iff no elements', B(r) == (d.len0 == 0), 'post'); d.unchanged(s, 'empty')
    return finish(d, res)


def t_capacity(ctx):
    d = DQ(ctx); this = d.make()
    res = d.run(r'^%s::capacity\(\) const$' % CLS, [Ptr(this)])
    for s, r in res:
        d.e.oblige(s, 'capacity', Eq(r, d.n - 1), 'post'); d.unchanged(s, 'capacity')
    return finish(d, res)


def t_clear(ctx):
    d = DQ(ctx); this = d.make()
    d.e.invs = [copy_invs(d)]
    res = d.run(r'^%s::clear\(\)$' % CLS, [Ptr(this)])
    for s, r in res:
        d.post(s, 0, lambda i: z3.IntVal(0), 'clear')
    return finish(d, res)


def t_reserve(ctx):
    d = DQ(ctx); this = d.make()
    m = z3.Int('newcap')
    d.st.assume(z3.And(d.f == d.b, m > 0, m < (1 << 40)))
    res = d.run(r'^%s::reserve\(unsigned long\)$' % CLS, [Ptr(this), m])
    for s, r in res:
        d.post(s, 0, lambda i: z3.IntVal(0), 'reserve')
        d.e.oblige(s, 'reserve: capacity', Eq(d.view(s)[0], m + 1), 'post')
    return finish(d, res)


# ---------------------------------------------------------------- iterators
def mk_it(d, name, this, k):
    """iterator designating logical position k (0..len)"""
    o = Obj(name, 'param', 16)
    p = z3.Int(name + '_pos')
    d.st.assume(p == d.slot(k, d.n, d.f))
    setcell(d.st, o, d.ito, PTR, Ptr(this, 0))
    setcell(d.st, o, d.itp, I64, p)
    d.e.opts['objects'].append(o)
    return o


def it_is(d, st, dq, pos, k, what):
    d.e.oblige(st, '%s: iterator belongs to the deque' % what, isinstance(dq, Ptr) and dq.obj is d.this, 'post')
    d.e.oblige(st, '%s: iterator designates the right position' % what, Eq(pos, d.slot(k, d.n, d.f)), 'post')


def it_pair(d, st, r, o=None):
    """(deque ptr, pos) of a returned iterator: by value {ptr,i64} or through memory"""
    if o is not None:
        return cell(st, o, d.ito), cell(st, o, d.itp)
    if isinstance(r, list) and len(r) == 2:
        return r[0], r[1]
    raise Unsupported('iterator return %r' % (r,))


def it_call(d, pat, args):
    fn = d.fn(pat)
    d.mod.load(fn)
    # iterator has a user-provided copy constructor: returned through a hidden pointer
    out = Obj('result', 'param', 16)
    d.e.opts['objects'].append(out)
    return out, d.e.run(fn, [Ptr(out, 0)] + args, d.st)


def t_begin_end(which):
    def run(ctx):
        d = DQ(ctx); this = d.make()
        out, res = it_call(d, r'^%s::%s\(\)$' % (CLS, which), [Ptr(this)])
        for s, r in res:
            q, p = it_pair(d, s, r, out)
            it_is(d, s, q, p, 0 if which == 'begin' else d.len0, which)
            d.unchanged(s, which)
        return finish(d, res)
    return run


def t_incdec(pat, delta, post):
    def run(ctx):
        d = DQ(ctx); this = d.make()
        k = z3.Int('k')
        d.st.assume(z3.And(k >= 0, k < d.len0) if delta > 0 else z3.And(k > 0, k <= d.len0))
        it = mk_it(d, 'it', this, k)
        if post:
            out, res = it_call(d, r'^%s::iterator::%s\(int\)$' % (CLS, pat), [Ptr(it), 0])
        else:
            res = d.run(r'^%s::iterator::%s\(\)$' % (CLS, pat), [Ptr(it)])
        for s, r in res:
            it_is(d, s, cell(s, it, d.ito), cell(s, it, d.itp), k + delta, 'iterator step')
            if post:
                q, p = it_pair(d, s, r, out)
                it_is(d, s, q, p, k, 'iterator post-step result')
            else:
                d.e.oblige(s, 'iterator step: returns itself', isinstance(r, Ptr) and r.obj is it and r.off == 0, 'post')
            d.unchanged(s, 'iterator step')
        return finish(d, res)
    return run


def t_plus(pat, sign, compound):
    def run(ctx):
        d = DQ(ctx); this = d.make()
        k, m = z3.Ints('k m')
        tgt = k + sign * m
        d.st.assume(z3.And(k >= 0, k <= d.len0, tgt >= 0, tgt <= d.len0))
        it = mk_it(d, 'it', this, k)
        mu = z3.Int('diff')
        d.st.assume(z3.And(mu == z3.If(m < 0, m + (1 << 64), m)))
        if compound:
            res = d.run(r'^%s::iterator::%s\(long\)$' % (CLS, pat), [Ptr(it), mu])
        else:
            out, res = it_call(d, r'^%s::iterator::%s\(long\)$' % (CLS, pat), [Ptr(it), mu])
        for s, r in res:
            if compound:
                q, p = cell(s, it, d.ito), cell(s, it, d.itp)
            else:
                q, p = it_pair(d, s, r, out)
                it_is(d, s, cell(s, it, d.ito), cell(s, it, d.itp), k, 'operand unchanged')
            it_is(d, s, q, p, tgt, 'iterator arithmetic')
            d.unchanged(s, 'iterator arithmetic')
        return finish(d, res)
    return run


def t_cmp(pat, f, const=True):
    def run(ctx):
        d = DQ(ctx); this = d.make()
        k, m = z3.Ints('k m')
        d.st.assume(z3.And(k >= 0, k <= d.len0, m >= 0, m <= d.len0))
        a, b = mk_it(d, 'ita', this, k), mk_it(d, 'itb', this, m)
        res = d.run(r'^%s::iterator::%s\(%s::iterator const&\)( const)?$' % (CLS, pat, CLS), [Ptr(a), Ptr(b)])
        for s, r in res:
            if pat == 'operator-':
                d.e.oblige(s, 'iterator difference', Engine.sgn(r, 64) == k - m, 'post')
            else:
                d.e.oblige(s, 'iterator comparison', B(r) == B(f(k, m)), 'post')
            d.unchanged(s, 'iterator comparison')
        return finish(d, res)
    return run


def t_deref(ctx):
    d = DQ(ctx); this = d.make()
    k = z3.Int('k')
    d.st.assume(z3.And(k >= 0, k < d.len0))
    it = mk_it(d, 'it', this, k)
    res = d.run(r'^%s::iterator::operator\*\(\)$' % CLS, [Ptr(it)])
    for s, r in res:
        d.ret_elem(s, r, k, 'iterator dereference'); d.unchanged(s, 'iterator dereference')
    return finish(d, res)


TASKS = [
    T('Deque::Deque', t_ctor), T('Deque::~Deque', t_dtor), T('Deque::front', t_front), T('Deque::back', t_back),
    T('Deque::at', t_at), T('Deque::pop_front', t_pop_front),
    T('Deque::push_back', push_back(False)), T('Deque::push_back (argument is an element of the deque)', push_back(True)),
    T('Deque::size', t_size), T('Deque::empty', t_empty), T('Deque::capacity', t_capacity),
    T('Deque::clear', t_clear), T('Deque::reserve', t_reserve),
    T('Deque::begin', t_begin_end('begin')), T('Deque::end', t_begin_end('end')),
    T('iterator::operator++', t_incdec(r'operator\+\+', 1, False)), T('iterator::operator++(int)', t_incdec(r'operator\+\+', 1, True)),
    T('iterator::operator--', t_incdec('operator--', -1, False)), T('iterator::operator--(int)', t_incdec('operator--', -1, True)),
    T('iterator::operator+', t_plus(r'operator\+', 1, False)), T('iterator::operator-', t_plus('operator-', -1, False)),
    T('iterator::operator+=', t_plus(r'operator\+=', 1, True)), T('iterator::operator-=', t_plus('operator-=', -1, True)),
    T('iterator::operator==', t_cmp('operator==', lambda a, b: a == b)), T('iterator::operator!=', t_cmp('operator!=', lambda a, b: a != b)),
    T('iterator::operator<', t_cmp('operator<', lambda a, b: a < b)), T('iterator::operator>', t_cmp('operator>', lambda a, b: a > b)),
    T('iterator::operator<=', t_cmp('operator<=', lambda a, b: a <= b)), T('iterator::operator>=', t_cmp('operator>=', lambda a, b: a >= b)),
    T('iterator::operator-(iterator)', t_cmp('operator-', None)),
    T('iterator::operator*', t_deref),
]

"""Contracts of PriorityQueue<T, LessImportant>: heap order, no element lost or duplicated."""
import z3
from vc import *
from lib import *
from runner import Task

DRIVERS = {'pq': ['drivers/pq.cpp']}
CLS = r'PriorityQueue<PElem, PCmp>'
KIND = Kind('PElem', 'pelem', 24)
LIM = 1 << 30

rank = z3.Function('rank', z3.IntSort(), z3.IntSort())
TIES = z3.Bool('less_important_holds_between_equals')


# trivially true marker of the positions at which quantified facts are instantiated
idx = z3.Function('idx', z3.IntSort(), z3.BoolSort())


def le(a, b):
    """the comparator: a weak order, strict or not"""
    return z3.Or(rank(a) < rank(b), z3.And(rank(a) == rank(b), TIES))


class Q:
    def __init__(self, ctx, reflexive=False):
        m = self.mod = ctx['mods']['pq']
        g = lambda k: const_of(m, k)
        self.off = dict(a=g('off_avail'), n=g('off_size'), q=g('off_pq'))
        self.size = g('sizeof_pq')
        e = self.e = Engine(m, 'int', dict(fork_selects=True, houdini_rl=2000000, ghost_sorts={'alive': z3.BoolSort(), 'val': z3.IntSort(), 'where': z3.IntSort()}, alloc_layout=self.layout))
        std_contracts(e)
        st = self.st = State()
        e.contract(r'^PElem::operator=\(PElem const&\)$', self.assign)
        e.contract(r'^PCmp::operator\(\)\(PElem const&, PElem const&\) const$', self.compare)
        e.assumptions.add('comparator: a weak order on values, strict or non-strict, deterministic, without side effects')
        e.assumptions.add('element assignment: target equals source afterwards, nothing else changes, does not throw')
        e.assumptions.add('fewer than 2^30 elements (sizes are 32 bit)')
        e.invs = [self.invariants]
        if reflexive:
            st.assume(TIES)
        self.float = None     # (value floating outside the array during an operation)
        self.removed = None
        self.alias = None

    @staticmethod
    def layout(eng, st, o):
        c = eng.exact_div(o.size, 24) if is_sym(o.size) else (o.size // 24 if o.size % 24 == 0 else None)
        if c is None:
            return False
        o.stride, o.count, o.ghost = 24, c, 'pelem'
        o.tags['kind'] = KIND
        return True

    def assign(self, eng, st, fn, args):
        so, si, sa, sv = ghost_slot(eng, st, args[1], KIND, 'assigned-from element')
        do, di, da, dv = ghost_slot(eng, st, args[0], KIND, 'assigned element')
        v = z3.Select(eng.getghost(st, so, sv), si)
        A, W = eng.getghost(st, do, dv), eng.getghost(st, do, 'where')
        eng.setghost(st, do, dv, z3.Store(A, di, v))
        for o, i in ((so, si), (do, di)):
            if o.kind == 'heap':
                st.assume(idx(B_int(i)))
        if self.alias is not None and args[1] is self.alias:
            # the new copy of an element that is in the queue: its position is recorded apart
            st.ghost['copy'] = B_int(di)
            return args[0]
        # ghost: remember where this element now is (a self-assignment moves nothing)
        eng.setghost(st, do, 'where', z3.Store(W, v, Ite(Eq(di, si), z3.Select(W, v), B_int(di)) if do is so else B_int(di)))
        return args[0]

    def compare(self, eng, st, fn, args):
        ao, ai, _, av = ghost_slot(eng, st, args[1], KIND, 'compared element')
        bo, bi, _, bv = ghost_slot(eng, st, args[2], KIND, 'compared element')
        a = z3.Select(eng.getghost(st, ao, av), ai)
        b = z3.Select(eng.getghost(st, bo, bv), bi)
        for o, i in ((ao, ai), (bo, bi)):
            if o.kind == 'heap':
                st.assume(idx(B_int(i)))
        return le(a, b)

    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(pat, f.dname) and not f.decl]
        if not fs:
            raise Unsupported('function %s not found' % pat)
        return fs[0]

    def make(self, nonempty=False, full=None):
        st, e = self.st, self.e
        n, a = z3.Ints('n avail')
        st.assume(z3.And(n >= (1 if nonempty else 0), n <= a, a < LIM))
        arr = Obj('heap', 'heap', a * 24, stride=24, count=a, ghost='pelem')
        arr.tags['kind'] = KIND
        this = Obj('pq', 'param', self.size)
        setcell(st, this, self.off['q'], PTR, Ptr(arr, 0))
        setcell(st, this, self.off['a'], I32, a)
        setcell(st, this, self.off['n'], I32, n)
        e.opts['objects'] = [this, arr]
        self.this, self.arr, self.n, self.a = this, arr, n, a
        A = self.A0 = e.getghost(st, arr, 'val')
        W = e.getghost(st, arr, 'where')
        st.assume(self.heap(A, n))
        k = z3.Int('k0')
        # the elements are told apart by identities: 'where' inverts the array
        st.assume(FA([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(W, z3.Select(A, k)) == k), pats=[z3.Select(A, k)]))
        st.assume(idx(z3.IntVal(0)))
        st.assume(idx(n - 1))
        return this

    @staticmethod
    def heap(A, n, hole=None):
        i = z3.Int('i_heap')
        cs = []
        for c in (2 * i + 1, 2 * i + 2):
            g = [c < n]
            if hole is not None:
                g += [c != hole]
            cs.append(z3.Implies(z3.And(*g), rank(z3.Select(A, i)) >= rank(z3.Select(A, c))))
        g = [i >= 0]
        if hole is not None:
            g.append(i != hole)
        return FA([i], z3.Implies(z3.And(idx(i), *g), z3.And(*cs)), pats=[idx(i)])

    def invariants(self, L):
        """hole invariants for every integer of the loop, before and after the size changes"""
        e, st = self.e, L.st
        out = []
        if not hasattr(self, 'arr'):
            return out
        q = cell(st, self.this, self.off['q'])
        arr = q.obj if isinstance(q, Ptr) and q.obj is not None else self.arr
        A = e.getghost(st, arr, 'val')
        W = e.getghost(st, arr, 'where')
        if getattr(self, 'last', None) is not None:
            out.append(('the last position still holds the last element', z3.Select(A, self.n - 1) == self.last))
            out.append(('the root is at least as important as the last element', rank(z3.Select(A, 0)) >= rank(self.last)))
        cnt = [(k, v[0]) for k, v in sorted(L.ints.items(), key=lambda kv: str(kv[0])) if not isinstance(v[0], (PInt, Undef)) and v[2] == 32]
        k = z3.Int('k_inv')
        a0k = z3.Select(self.A0, k)
        sizes = getattr(self, 'sizes', [('n', self.n)])
        fl = [(nm, v(st) if callable(v) else v) for nm, v in getattr(self, 'floats', [])]
        if self.alias is not None:
            out.append(('the argument is still the pushed value', z3.Select(e.getghost(st, self.arr, 'val'), z3.Int('alias')) == z3.Int('x_new')))
        for nm, v in cnt:
            par = z3.Int('p_inv')
            if self.alias is not None:
                out.append(('hole %s is not the argument' % (nm,), v != z3.Int('alias')))
            for sn, n in sizes:
                out.append(('heap order except at %s, size %s' % (nm, sn), self.heap(A, n, v)))
                # children of the hole against its parent
                d = []
                for c in (2 * par + 1, 2 * par + 2):
                    for g in (2 * v + 1, 2 * v + 2):
                        d.append(z3.Implies(z3.And(c == v, g < n), rank(z3.Select(A, par)) >= rank(z3.Select(A, g))))
                out.append(('parent of hole %s dominates its children, size %s' % (nm, sn),
                            FA([par], z3.Implies(z3.And(idx(par), par >= 0), z3.And(*d)), pats=[idx(par)])))
                if getattr(self, 'last', None) is not None:
                    out.append(('the root or its children at hole %s dominate the last element' % (nm,), z3.If(v == 0, z3.Implies(self.n > 1, self.best(A, self.n) >= rank(self.last)), rank(z3.Select(A, 0)) >= rank(self.last))))
                    out.append(('hole %s at the last position: the last element has moved to the parent' % (nm,), FA([par], z3.Implies(
                        z3.And(idx(par), par >= 0, v == self.n - 1, z3.Or(2 * par + 1 == v, 2 * par + 2 == v)), z3.Select(A, par) == self.last), pats=[idx(par)])))
                for fn, f in fl:
                    out.append(('children of hole %s do not exceed %s, size %s' % (nm, fn, sn),
                                z3.And(*[z3.Implies(g < n, rank(f) >= rank(z3.Select(A, g))) for g in (2 * v + 1, 2 * v + 2)])))
                    out.append(('every element but %s is in place around %s, size %s' % (fn, nm, sn), FA([k], z3.Implies(
                        z3.And(k >= 0, k < self.n, *( [a0k != r for r in self.gone] + ([] if self.alias else [a0k != f]))),
                        z3.And(z3.Select(W, a0k) >= 0, z3.Select(W, a0k) < n, z3.Select(W, a0k) != v, z3.Select(A, z3.Select(W, a0k)) == a0k)),
                        pats=[a0k])))
            for fn, f in fl:
                out.append(('parent of hole %s dominates %s' % (nm, fn), FA([par], z3.Implies(
                    z3.And(idx(par), par >= 0, z3.Or(2 * par + 1 == v, 2 * par + 2 == v)), rank(z3.Select(A, par)) >= rank(f)), pats=[idx(par)])))
            out.append(('hole %s is not the root' % (nm,), v >= 1))
            out.append(('hole %s in range' % (nm,), z3.And(v >= 0, v <= self.n)))
            out.append(('hole %s below n' % (nm,), z3.And(v >= 0, v < self.n)))
            out.append(('hole %s below n-1' % (nm,), z3.And(v >= 0, v < self.n - 1)))
            for nm2, w in cnt:
                if nm2 != nm:
                    out.append(('%s is the parent of %s' % (nm, nm2), z3.Or(2 * v + 1 == w, 2 * v + 2 == w)))
                    out.append(('%s is the parent of %s unless it is the root' % (nm, nm2), z3.Or(w == 0, 2 * v + 1 == w, 2 * v + 2 == w)))
                    out.append(('%s is the left child of %s' % (nm, nm2), v == 2 * w + 1))
        # copying to a larger array
        if getattr(self, 'grow', False):
            news = [o for o in st.allocs if o not in st.dead and o.ghost == 'pelem']
            for o in news:
                V = e.getghost(st, o, 'val')
                Wn = e.getghost(st, o, 'where')
                for nm, v in cnt:
                    i = z3.Int('i_cp')
                    out.append(('%s copied below %s' % (o.name, nm), FA([i], z3.Implies(z3.And(i >= 0, i < v), z3.Select(V, i) == z3.Select(self.A0, i)), pats=[z3.Select(V, i)])))
                    out.append(('%s ghost positions below %s' % (o.name, nm), FA([k], z3.Implies(z3.And(k >= 0, k < v, k < self.n), z3.Select(Wn, a0k) == k), pats=[a0k])))
        return out

    def view(self, st):
        q = cell(st, self.this, self.off['q'])
        if not isinstance(q, Ptr) or q.obj is None or is_sym(q.off) or q.off != 0:
            raise Unsupported('heap pointer is %r' % (q,))
        return cell(st, self.this, self.off['n']), cell(st, self.this, self.off['a']), q.obj

    def post(self, st, what, n1, gone=(), added=None):
        e = self.e
        n, a, arr = self.view(st)
        ok = arr not in st.dead
        e.oblige(st, '%s: storage is live' % what, ok, 'post')
        if not ok:
            return
        e.oblige(st, '%s: storage holds size_available elements' % what, Eq(arr.count, a), 'post')
        e.oblige(st, '%s: size' % what, Eq(n, n1), 'post')
        e.oblige(st, '%s: size within capacity' % what, z3.And(B(n >= 0), B(n <= a)), 'post')
        A = e.getghost(st, arr, 'val')
        W = e.getghost(st, arr, 'where')
        e.oblige(st, '%s: heap order' % what, self.heap(A, n1), 'post')
        k = z3.Int(e.fresh_name('k_post'))
        y = z3.Select(self.A0, k)
        w = z3.Select(W, y)
        e.oblige(st, '%s: no element is lost or duplicated' % what,
                 z3.Implies(z3.And(k >= 0, k < self.n, *[y != r for r in gone]), z3.And(w >= 0, B(w < n1), z3.Select(A, w) == y)), 'post')
        if added is not None:
            w = z3.Select(W, added)
            e.oblige(st, '%s: the new element is stored' % what, z3.And(w >= 0, B(w < n1), z3.Select(A, w) == added), 'post')
        for o in list(st.allocs) + [self.arr]:
            if o is not arr and o not in st.dead and o.kind == 'heap':
                e.oblige(st, '%s: no storage is leaked' % what, False, 'lifetime')

    @staticmethod
    def best(A, n):
        a, b = rank(z3.Select(A, 1)), rank(z3.Select(A, 2))
        return z3.If(z3.And(n > 2, a < b), b, a)

    def lemma_children_dominate(self):
        """below the root, one of the root's children is at least as important as any element:
        induction over positions, the step is an obligation"""
        e, A, n = self.e, self.A0, self.n
        best = self.best(A, n)
        s = self.st.copy()
        m, j, p = z3.Ints('m_ld j_ld p_ld')
        s.assume(z3.And(m >= 1, m < n))
        s.assume(FA([j], z3.Implies(z3.And(j >= 1, j < m), best >= rank(z3.Select(A, j))), pats=[z3.Select(A, j)]))
        s.assume(z3.And(p >= 0, z3.Or(m == 2 * p + 1, m == 2 * p + 2)))
        s.assume(idx(p))
        e.oblige(s, 'lemma: the children of the root dominate (induction step over positions)', best >= rank(z3.Select(A, m)), 'lemma')
        self.st.assume(FA([j], z3.Implies(z3.And(j >= 1, j < n), best >= rank(z3.Select(A, j))), pats=[z3.Select(A, j)]))

    def newval(self, name='val'):
        o = Obj(name, 'param', 24, stride=24, count=1, ghost='pelem')
        o.tags['kind'] = KIND
        v = z3.Select(self.e.getghost(self.st, o, 'val'), 0)
        self.e.opts['objects'].append(o)
        x = z3.Int('x_new')
        self.st.assume(x == v)
        # its identity is new
        k = z3.Int('k_new')
        self.st.assume(FA([k], z3.Implies(z3.And(k >= 0, k < self.n), z3.Select(self.A0, k) != x), pats=[z3.Select(self.A0, k)]))
        return o, x


def fin(q, res):
    q.e.returns = len(res)
    return q.e


def t_pop(name):
    def run(ctx):
        q = Q(ctx, reflexive=name != 'pop')
        this = q.make(nonempty=True)
        top, last = z3.Select(q.A0, 0), z3.Select(q.A0, q.n - 1)
        q.gone = [top]
        q.sizes = [('n-1', q.n - 1)] if name == 'pop' else [('n', q.n)]
        q.floats = [('the last element', last)] + ([('the top', top)] if name != 'pop' else [])
        q.last = last
        if name != 'pop':
            q.sizes = [('n', q.n), ('n-1', q.n - 1)]
            q.lemma_children_dominate()
        for s, r in q.e.run(q.fn(r'^%s::%s\(\)$' % (CLS, name)), [Ptr(this)], q.st):
            q.post(s, name, q.n - 1, gone=[top])
            res = True
        return fin(q, [1])
    return run


def t_push(alias):
    def run(ctx):
        q = Q(ctx, reflexive=alias)
        this = q.make()
        q.grow = True
        q.sizes = [('n+1', q.n + 1)]
        q.gone = []
        q.st.assume(q.a < LIM // 2)
        if alias:
            kk = z3.Int('alias')
            q.st.assume(z3.And(kk >= 0, kk < q.n))
            x = z3.Int('x_new')
            arg = Ptr(q.arr, kk * 24)
            q.st.assume(x == z3.Select(q.A0, kk))
            q.st.assume(idx(kk))
            q.alias = arg
        else:
            o, x = q.newval()
            arg = Ptr(o, 0)
        q.floats = [('the new element', x)]
        res = q.e.run(q.fn(r'^%s::push\(PElem const&\)$' % CLS), [Ptr(this), arg], q.st)
        for s, r in res:
            if not alias:
                q.post(s, 'push', q.n + 1, added=x)
                continue
            q.post(s, 'push', q.n + 1)
            n, a, arr = q.view(s)
            cp = s.ghost.get('copy')
            q.e.oblige(s, 'push: stored exactly once', cp is not None, 'post')
            if cp is None:
                continue
            A, W = q.e.getghost(s, arr, 'val'), q.e.getghost(s, arr, 'where')
            k = z3.Int('k_cp')
            q.e.oblige(s, 'push: the new element is stored', z3.And(cp >= 0, cp < q.n + 1, z3.Select(A, cp) == x), 'post')
            q.e.oblige(s, 'push: the new element takes a place of its own', z3.Implies(z3.And(k >= 0, k < q.n), z3.Select(W, z3.Select(q.A0, k)) != cp), 'post')
        return fin(q, res)
    return run


def t_replace(ctx):
    q = Q(ctx)
    this = q.make(nonempty=True)
    o, x = q.newval()
    top = z3.Select(q.A0, 0)
    q.gone = [top]
    q.floats = [('the new element', x)]
    res = q.e.run(q.fn(r'^%s::replaceTop\(PElem const&\)$' % CLS), [Ptr(this), Ptr(o, 0)], q.st)
    for s, r in res:
        q.post(s, 'replaceTop', q.n, gone=[top], added=x)
    return fin(q, res)


def t_top(const):
    def run(ctx):
        q = Q(ctx)
        this = q.make(nonempty=True)
        q.gone, q.floats = [], []
        res = q.e.run(q.fn(r'^%s::top\(\)%s$' % (CLS, ' const' if const else '')), [Ptr(this)], q.st)
        for s, r in res:
            ok = isinstance(r, Ptr) and r.obj is q.arr
            q.e.oblige(s, 'top: refers to an element of the queue', ok, 'post')
            if not ok:
                continue
            i, c = q.e.elem(s, r)
            t = z3.Select(q.A0, i)
            # strong induction over the position: nothing is more important than what top() returns
            m, j, p = z3.Ints('m_top j_top p_top')
            s2 = s.copy()
            s2.assume(z3.And(m >= 0, m < q.n))
            s2.assume(FA([j], z3.Implies(z3.And(j >= 0, j < m), rank(t) >= rank(z3.Select(q.A0, j))), pats=[z3.Select(q.A0, j)]))
            s2.assume(z3.Or(m == 0, z3.And(p >= 0, z3.Or(m == 2 * p + 1, m == 2 * p + 2))))
            s2.assume(idx(p))
            q.e.oblige(s2, 'top: no element is more important (induction step over positions)', rank(t) >= rank(z3.Select(q.A0, m)), 'post')
            q.post(s, 'top', q.n)
        return fin(q, res)
    return run


def simple(pat, chk, pre=None, argf=None, post=True):
    def run(ctx):
        q = Q(ctx)
        this = q.make()
        q.gone, q.floats = [], []
        if pre:
            q.st.assume(pre(q))
        args = argf(q) if argf else []
        res = q.e.run(q.fn(r'^%s::%s$' % (CLS, pat)), [Ptr(this)] + args, q.st)
        for s, r in res:
            chk(q, s, r, args)
            if post:
                q.post(s, pat, q.n)
        return fin(q, res)
    return run


def c_reserve(q, s, r, args):
    n, a, arr = q.view(s)
    q.e.oblige(s, 'reserve: capacity', Eq(a, args[0]), 'post')
    q.post(s, 'reserve', 0)


def t_ctor(two):
    def run(ctx):
        q = Q(ctx)
        a = z3.Int('initial')
        q.st.assume(z3.And(a >= 0, a < LIM))
        q.this = Obj('pq', 'param', q.size)
        q.e.opts['objects'] = [q.this]
        if two:
            c = Obj('cmp', 'param', 1)
            q.e.opts['objects'].append(c)
            res = q.e.run(q.fn(r'^%s::PriorityQueue\(PCmp const&, int\)$' % CLS), [Ptr(q.this), Ptr(c), a], q.st)
        else:
            res = q.e.run(q.fn(r'^%s::PriorityQueue\(int\)$' % CLS), [Ptr(q.this), a], q.st)
        for s, r in res:
            n, av, arr = q.view(s)
            q.e.oblige(s, 'constructor: empty', Eq(n, 0), 'post')
            q.e.oblige(s, 'constructor: capacity', Eq(av, a), 'post')
            q.e.oblige(s, 'constructor: storage', Eq(arr.count, a), 'post')
        return fin(q, res)
    return run


def t_dtor(ctx):
    q = Q(ctx)
    this = q.make()
    q.gone, q.floats = [], []
    res = q.e.run(q.fn(r'^%s::~PriorityQueue\(\)$' % CLS), [Ptr(this)], q.st)
    for s, r in res:
        q.e.oblige(s, 'destructor: storage released', q.arr in s.dead, 'lifetime')
    return fin(q, res)


def amt(q):
    m = z3.Int('amt')
    q.st.assume(z3.And(m > 0, m < LIM))
    return [m]


TASKS = [
    Task('PriorityQueue::PriorityQueue(int)', t_ctor(False)), Task('PriorityQueue::PriorityQueue(cmp,int)', t_ctor(True)),
    Task('PriorityQueue::~PriorityQueue', t_dtor),
    Task('PriorityQueue::pop', t_pop('pop')), Task('PriorityQueue::pop_bottom_up_heuristic', t_pop('pop_bottom_up_heuristic')),
    Task('PriorityQueue::push', t_push(False)),
    Task('PriorityQueue::push (argument is an element of the queue)', t_push(True)),
    Task('PriorityQueue::replaceTop', t_replace),
    Task('PriorityQueue::top', t_top(False)), Task('PriorityQueue::top const', t_top(True)),
    Task('PriorityQueue::size', simple(r'size\(\) const', lambda q, s, r, a: q.e.oblige(s, 'size', Eq(r, q.n), 'post'))),
    Task('PriorityQueue::empty', simple(r'empty\(\) const', lambda q, s, r, a: q.e.oblige(s, 'empty', B(r) == (q.n == 0), 'post'))),
    Task('PriorityQueue::clear', simple(r'clear\(\)', lambda q, s, r, a: q.post(s, 'clear', 0, gone=[]) if False else q.e.oblige(s, 'clear: empty', Eq(q.view(s)[0], 0), 'post'), post=False)),
    Task('PriorityQueue::reserve', simple(r'reserve\(unsigned int\)', c_reserve, pre=lambda q: q.n == 0, argf=amt, post=False)),
    Task('PriorityQueue::selfVerify', simple(r'selfVerify\(\)', lambda q, s, r, a: None)),
]

"""Contracts of HashTable<D, HashFn, Equal>: a chained hash table over a vector of entries.

The representation invariant uses ghost maps: live(slot), pos(slot) - the order along a chain -
and fpos(slot) - the rank on the free list.  K(value) is the key, H(key) the hash function."""
import z3
from vc import *
from lib import *
from stdvec import *
from runner import Task

DRIVERS = {'hash': ['drivers/hash.cpp', 'REPO/src/HashTable.cpp']}
CLS = r'HashTable<HD, HHash, HEq, .*>'
NIL = 0xFFFFFFFF
MAXS = (1 << 31) - 2
LASTP = 141650939
II = z3.IntSort()
K = z3.Function('key', II, II)
H = z3.Function('hash', II, II)
idx = z3.Function('slot', II, z3.BoolSort())
bidx = z3.Function('bucket', II, z3.BoolSort())
LIVE0 = z3.Function('live0', II, z3.BoolSort())
POS0 = z3.Function('pos0', II, II)
FPOS0 = z3.Function('fpos0', II, II)
VT = VecType('HashTable_hte<HD>', 32, [('val', 0, 'val'), ('int', 24, I32)], mark=idx)
IT = VecType('int', 4, [('int', 0, I32)], mark=bidx)


class V:
    """a view of the table: slot/bucket maps and sizes"""

    def __init__(self, val, nx, ep, S, E, fl, fls, live, pos, fpos):
        self.val, self.nx, self.ep, self.S, self.E, self.fl, self.fls = val, nx, ep, S, E, fl, fls
        self.live, self.pos, self.fpos = live, pos, fpos

    def key(self, j):
        return K(z3.Select(self.val, j))

    def bk(self, j):
        return UMOD(H(self.key(j)), B_int(self.E))

    def N(self, j):
        return z3.Select(self.nx, j)

    def P(self, b):
        return z3.Select(self.ep, b)

    def chain_facts(self):
        j, k, b = z3.Ints('j k b')
        live, pos, nx, ep, bk = self.live, self.pos, self.N, self.P, self.bk
        p = ep(b)
        yield 'every chain starts at a live entry of its bucket or is empty', FA([b], z3.Implies(z3.And(bidx(b), b >= 0, b < self.E), z3.Or(p == NIL, z3.And(p >= 0, p < self.S, live(p), bk(p) == b))), pats=[bidx(b)])
        yield 'every live entry is on the chain of its bucket, at or after its start', FA([j], z3.Implies(z3.And(idx(j), live(j)), z3.And(bk(j) >= 0, bk(j) < self.E, ep(bk(j)) != NIL, pos(ep(bk(j))) <= pos(j))), pats=[idx(j)])
        yield 'links lead to later live entries of the same bucket', FA([j], z3.Implies(z3.And(idx(j), live(j)), z3.Or(nx(j) == NIL, z3.And(nx(j) >= 0, nx(j) < self.S, live(nx(j)), bk(nx(j)) == bk(j), pos(nx(j)) > pos(j)))), pats=[idx(j)])
        yield 'links skip no live entry', FA([j, k], z3.Implies(z3.And(idx(j), idx(k), live(j), live(k), bk(j) == bk(k), pos(j) < pos(k)), z3.And(nx(j) != NIL, pos(nx(j)) <= pos(k))), pats=[z3.MultiPattern(idx(j), idx(k))])
        yield 'chain order is total', FA([j, k], z3.Implies(z3.And(idx(j), idx(k), live(j), live(k), bk(j) == bk(k), pos(j) == pos(k)), j == k), pats=[z3.MultiPattern(idx(j), idx(k))])
        yield 'live entries are in range', FA([j], z3.Implies(z3.And(idx(j), live(j)), z3.And(j >= 0, j < self.S)), pats=[idx(j)])

    def free_facts(self):
        j, k = z3.Ints('j k')
        live, fpos, nx = self.live, self.fpos, self.N
        free = lambda x: z3.And(x >= 0, x < self.S, z3.Not(live(x)))
        fl, fls = B_int(self.fl), B_int(self.fls)
        yield 'free list empty iff its size is 0', (fl == NIL) == (fls == 0)
        yield 'free list starts at a free entry of rank size', z3.Or(fl == NIL, z3.And(free(fl), fpos(fl) == fls))
        yield 'free entries have a rank and link to the next lower one', FA([j], z3.Implies(z3.And(idx(j), free(j)), z3.And(fpos(j) >= 1, fpos(j) <= fls, z3.Or(z3.And(fpos(j) == 1, nx(j) == NIL), z3.And(fpos(j) > 1, nx(j) != NIL, free(nx(j)), fpos(nx(j)) == fpos(j) - 1)))), pats=[idx(j)])
        yield 'free list ranks are unique', FA([j, k], z3.Implies(z3.And(idx(j), idx(k), free(j), free(k), fpos(j) == fpos(k)), j == k), pats=[z3.MultiPattern(idx(j), idx(k))])

    def sizes(self):
        yield 'sizes', z3.And(B_int(self.S) >= 0, B_int(self.S) <= MAXS, B_int(self.E) >= 0, B_int(self.E) <= LASTP, B_int(self.fls) >= 0, B_int(self.fls) <= self.S, z3.Implies(B_int(self.E) == 0, B_int(self.S) == 0))

    def wf(self):
        return list(self.sizes()) + list(self.chain_facts()) + list(self.free_facts())


class T:
    def __init__(self, ctx):
        m = self.mod = ctx['mods']['hash']
        g = lambda k: const_of(m, k)
        self.off = {k: g('off_' + k) for k in ('fl', 'fls', 'chains', 'ep', 'tcl', 'it_table', 'it_chain', 'it_loc')}
        self.size = g('sizeof_ht')
        assert g('sizeof_hte') == 32 and g('off_data') == 0 and g('off_next') == 24
        e = self.e = Engine(m, 'int', dict(umod=True, ufp=True, houdini_rl=3000000, ghost_sorts={'val': II}, global_hook=self.primes))
        std_contracts(e)
        st = self.st = State()
        vector_contracts(e, VT)
        vector_contracts(e, IT)
        e.contract(r'^HD::HD\(\)$', self.default)
        e.contract(r'^HD::HD\(HD const&\)$', self.copy)
        e.contract(r'^HD::operator=\(HD const&\)$', self.copy)
        e.contract(r'^HD::~HD\(\)$', h_nop)
        e.contract(r'^HHash::operator\(\)\(HD const&\) const$', lambda eng, st, fn, a: self.h(eng, st, a[1]))
        e.contract(r'^HEq::operator\(\)\(HD const&, HD const&\) const$', lambda eng, st, fn, a: K(self.get(st, a[1])) == K(self.get(st, a[2])))
        e.assumptions.add('Equal is an equivalence on keys, HashFn a function of the key; element copies equal their source; none of them throws or touches the table')
        e.assumptions.add('fewer than 2^31-1 entries and fewer than 141650939 buckets (the last prime of the table)')
        e.invs = [self.invariants]
        self.walk = None
        self.erase = None
        self.extra = []
        init = e.const(State(), m.global_init('HashTable_prime_list'))
        self.np = init.index(0) if 0 in init else len(init)

    @staticmethod
    def primes(eng, o, name, ty):
        if name != 'HashTable_prime_list':
            return
        init = eng.mod.global_init(name)
        vals = eng.const(State(), init)

        def mk(eng, c, t, vals=vals):
            m = z3.K(II, z3.IntVal(0))
            for i, x in enumerate(vals):
                m = z3.Store(m, i, x)
            return m
        o.tags['init'] = mk
        eng.assumptions.add('HashTable_prime_list is not modified by anyone')

    # ---- elements
    def slot(self, p):
        o = p.obj
        self.e.in_bounds(self.cur, p, 24, 'element')
        if o.stride == 32:
            i, c = self.e.elem(self.cur, p)
            if c:
                raise Unsupported('misaligned element')
            self.cur.assume(idx(B_int(i)))
            return o, i
        if is_sym(p.off):
            raise Unsupported('element address')
        return o, p.off

    def get(self, st, p):
        self.cur = st
        o, i = self.slot(p)
        return z3.Select(self.e.getghost(st, o, 'val'), i)

    def put(self, st, p, v):
        self.cur = st
        o, i = self.slot(p)
        self.e.setghost(st, o, 'val', z3.Store(self.e.getghost(st, o, 'val'), i, v))

    def copy(self, eng, st, fn, args):
        self.put(st, args[0], self.get(st, args[1]))
        return args[0]

    def default(self, eng, st, fn, args):
        self.put(st, args[0], z3.Int('default_value'))

    def h(self, eng, st, p):
        r = H(K(self.get(st, p)))
        st.assume(z3.And(r >= 0, r < (1 << 32)))
        return r

    # ---- tables
    def make(self, name='ht', live=LIVE0, pos=POS0, fpos=FPOS0):
        e, st = self.e, self.st
        S, E, fl, fls, cs, ce = z3.Ints(' '.join('%s_%s' % (n, name) for n in ('S', 'E', 'fl', 'fls', 'capS', 'capE')))
        st.assume(z3.And(cs >= S, ce >= E, cs < (1 << 60), ce < (1 << 60), fl >= 0, fl <= NIL))
        vb = Obj('entries_' + name, 'heap', cs * 32, stride=32, count=cs)
        ib = Obj('buckets_' + name, 'heap', ce * 4, stride=4, count=ce)
        this = Obj(name, 'param', self.size)
        o = self.off
        setcell(st, this, o['fl'], I32, fl)
        setcell(st, this, o['fls'], I32, fls)
        tcl = z3.Real('tcl_' + name)
        st.assume(tcl > 0)
        setcell(st, this, o['tcl'], FpTy(64), tcl)
        vec_set(st, this, o['chains'], Ptr(vb, 0), S, cs)
        vec_set(st, this, o['ep'], Ptr(ib, 0), E, ce)
        e.opts.setdefault('objects', [])
        e.opts['objects'] += [this, vb, ib]
        v = self.view(st, this, live, pos, fpos)
        for nm, f in v.wf():
            st.assume(f)
        # stored links are 32-bit values
        j = z3.Int('j')
        st.assume(FA([j], z3.Implies(idx(j), bidx(v.bk(j))), pats=[idx(j)]))
        st.assume(FA([j], z3.And(v.N(j) >= 0, v.N(j) <= NIL), pats=[v.N(j)]))
        st.assume(FA([j], z3.And(v.P(j) >= 0, v.P(j) <= NIL), pats=[v.P(j)]))
        st.assume(idx(fl))
        # the ranks map the free slots one to one to 1..fls, so a live slot means fls < S (counting)
        st.assume(FA([j], z3.Implies(z3.And(idx(j), live(j)), fls < S), pats=[idx(j)]))
        e.assumptions.add('counting lemma: the free-list ranks number the free slots 1..free_list_size, hence free_list_size < number of slots if one is live')
        st.assume(bidx(z3.IntVal(0)))
        st.writes = set()
        return this, v, tcl

    def view(self, st, this, live, pos, fpos):
        e, o = self.e, self.off
        p, S, _ = vec_state(st, this, o['chains'])
        q, E, _ = vec_state(st, this, o['ep'])
        dummy = z3.K(II, z3.IntVal(NIL))
        val = e.getghost(st, p.obj, 'val') if p.obj is not None else z3.K(II, z3.IntVal(0))
        nx = e.getmap(st, p.obj, 24, I32) if p.obj is not None else dummy
        ep = e.getmap(st, q.obj, 0, I32) if q.obj is not None else dummy
        return V(val, nx, ep, S, E, cell(st, this, o['fl']), cell(st, this, o['fls']), live, pos, fpos)

    def start(self):
        self.this, self.v0, self.tcl = self.make()
        return self.this

    def keyarg(self, alias=False):
        st = self.st
        if alias:
            k = z3.Int('alias_slot')
            st.assume(z3.And(k >= 0, k < self.v0.S, LIVE0(k), idx(k)))
            p = vec_state(st, self.this, self.off['chains'])[0]
            self.x = z3.Select(self.v0.val, k)
            return Ptr(p.obj, k * 32)
        o = Obj('arg', 'param', 24)
        self.e.opts['objects'].append(o)
        self.x = z3.Select(self.e.getghost(st, o, 'val'), 0)
        return Ptr(o, 0)

    def fn(self, pat, const=None):
        fs = [f for f in self.mod.fns.values() if re.search('^' + CLS + '::' + pat + '$', f.dname) and not f.decl]
        if len(fs) != 1:
            raise Unsupported('function %s: %d candidates' % (pat, len(fs)))
        return fs[0]

    # ---- loop invariants
    def invariants(self, L):
        st, e = L.st, self.e
        out = []
        if not hasattr(self, 'this'):
            return out
        ints = [(str(k), v[0]) for k, v in sorted(L.ints.items(), key=lambda kv: str(kv[0])) if not isinstance(v[0], (PInt, Undef)) and v[2] == 32]
        v0 = self.v0
        j = z3.Int('j')
        p, S, _ = vec_state(st, self.this, self.off['chains'])
        q, E, _ = vec_state(st, self.this, self.off['ep'])
        if p.obj is not None and q.obj is not None:
            cur = self.view(st, self.this, LIVE0, POS0, FPOS0)
            j2 = z3.Int('j')
            out.append(('links are 32 bit', FA([j2], z3.And(cur.N(j2) >= 0, cur.N(j2) <= NIL), pats=[cur.N(j2)])))
            out.append(('chain starts are 32 bit', FA([j2], z3.And(cur.P(j2) >= 0, cur.P(j2) <= NIL), pats=[cur.P(j2)])))
        for nm, v in ints:
            if is_sym(v):
                st.assume(idx(v))
                st.assume(bidx(v))
            if self.walk is not None:
                b, key = self.walk
                on = z3.And(v >= 0, v < v0.S, LIVE0(v), v0.bk(v) == b)
                out.append(('%s: on the chain of the key or at its end' % nm, z3.Or(v == NIL, on)))
                out.append(('%s: on the chain of the key' % nm, on))
                for sym, cmp in (('before', lambda a, c: a < c), ('up to', lambda a, c: a <= c)):
                    out.append(('no entry %s %s has the key' % (sym, nm), FA([j], z3.Implies(z3.And(idx(j), LIVE0(j), v0.bk(j) == b, z3.Or(v == NIL, cmp(POS0(j), POS0(v)))), v0.key(j) != key), pats=[idx(j)])))
            if self.erase is not None:
                b, t = self.erase
                out.append(('%s: on the chain, not behind the target' % nm, z3.And(v >= 0, v < v0.S, LIVE0(v), v0.bk(v) == b, POS0(v) <= POS0(t))))
                for nm2, w in ints:
                    if nm2 != nm:
                        out.append(('%s precedes %s' % (nm, nm2), z3.If(v == NIL, w == v0.P(b), z3.And(v >= 0, v < v0.S, LIVE0(v), v0.bk(v) == b, v0.N(v) == w))))
            # scanning the prime list
            out.append(('%s within the prime list' % nm, z3.And(v >= 0, v < self.np)))
            # resetting buckets
            if p.obj is not None and q.obj is not None:
                out.append(('buckets below %s are empty' % nm, FA([j], z3.Implies(z3.And(j >= 0, j < v, j < E), cur.P(j) == NIL), pats=[cur.P(j)])))
                out.append(('buckets from the old size on are empty', FA([j], z3.Implies(z3.And(j >= v0.E, j < E), cur.P(j) == NIL), pats=[cur.P(j)])))
                out.append(('all buckets are empty', FA([j], z3.Implies(z3.And(j >= 0, j < E), cur.P(j) == NIL), pats=[cur.P(j)])))
                rv = V(cur.val, cur.nx, cur.ep, v, E, NIL, 0, lambda x, v=v: z3.And(x >= 0, x < v), lambda x: -x, lambda x: z3.IntVal(0))
                for n2, f in rv.chain_facts():
                    out.append(('entries below %s rehashed: %s' % (nm, n2), f))
            out.append(('%s within the slots' % nm, z3.And(v >= 0, v <= S)))
            # looking for a non-empty chain
            out.append(('%s within the buckets' % nm, z3.And(v >= 0, v <= E)))
            for c0 in self.extra:
                out.append(('buckets from %s to %s are empty' % (c0, nm), z3.And(v >= c0, FA([j], z3.Implies(z3.And(j >= c0, j < v), v0.P(j) == NIL), pats=[v0.P(j)]))))
        return out

    # ---- posts
    def post(self, st, what, live=LIVE0, pos=POS0, fpos=FPOS0, this=None, tcl=None):
        e = self.e
        this = this or self.this
        v = self.view(st, this, live, pos, fpos)
        for nm, f in v.wf():
            if nm == 'sizes':
                f = list(v.sizes())[0][1]
            e.oblige(st, '%s: %s' % (what, nm), f, 'post')
        t = cell(st, this, self.off['tcl'])
        e.oblige(st, '%s: target chain length unchanged' % what, t == (self.tcl if tcl is None else tcl) if is_sym(t) else False, 'post')
        for o in st.allocs:
            if o not in st.dead and o.kind == 'heap' and o not in [vec_state(st, this, self.off[k])[0].obj for k in ('chains', 'ep')]:
                e.oblige(st, '%s: no storage is leaked' % what, False, 'lifetime')
        return v

    def slot_of(self, st, r, what):
        """slot a returned element pointer refers to"""
        p, S, _ = vec_state(st, self.this, self.off['chains'])
        ok = isinstance(r, Ptr) and r.obj is p.obj and p.obj not in st.dead
        self.e.oblige(st, '%s: the result refers to an entry of the table' % what, ok, 'post')
        if not ok:
            return None
        i, c = self.e.elem(st, r)
        if c:
            self.e.oblige(st, '%s: the result is the data of an entry' % what, False, 'post')
            return None
        st.assume(idx(B_int(i)))
        return B_int(i)

    def exists(self, v, x):
        """(no live entry has the key of x)"""
        j = z3.Int(self.e.fresh_name('jx'))
        return FA([j], z3.Implies(z3.And(idx(j), LIVE0(j)), v.key(j) != K(x)), pats=[idx(j)])

    def same_values(self, st, v, what, but=None):
        j = z3.Int('j_same')
        g = [idx(j), LIVE0(j)] + ([j != but] if but is not None else [])
        self.e.oblige(st, '%s: all other entries keep their data' % what, FA([j], z3.Implies(z3.And(*g), z3.Select(v.val, j) == z3.Select(self.v0.val, j)), pats=[idx(j)]), 'post')


def fin(t, res):
    t.e.returns = len(res)
    return t.e


def added(t, s, p, what, x):
    """post of adding: p is the new slot"""
    v0 = t.v0
    v = t.view(s, t.this, None, None, None)
    e = t.e
    e.oblige(s, '%s: the new entry does not displace a live one' % what, z3.Not(LIVE0(p)), 'post')
    e.oblige(s, '%s: the new entry holds the data' % what, z3.Select(v.val, p) == x, 'post')
    live = lambda j: z3.Or(LIVE0(j), j == p)
    if v.E is v0.E or (is_sym(v.E) and v.E.eq(v0.E)):
        hd = v0.P(UMOD(H(K(x)), B_int(v0.E)))
        s.assume(bidx(UMOD(H(K(x)), B_int(v0.E))))
        s.assume(idx(hd))
        pos = lambda j: z3.If(j == p, z3.If(hd == NIL, 0, POS0(hd) - 1), POS0(j))
    else:
        # rehashed in slot order, which needs a table without free slots
        j = z3.Int('j_all')
        e.oblige(s, '%s: every slot is live when the table is rehashed' % what, FA([j], z3.Implies(z3.And(idx(j), j >= 0, j < v0.S), LIVE0(j)), pats=[idx(j)]), 'lemma')
        s.assume(FA([j], z3.Implies(z3.And(j >= 0, j < v0.S), LIVE0(j)), pats=[LIVE0(j)]))
        pos = lambda j: -j
    s.assume(idx(B_int(v.fl)))
    t.post(s, what, live, pos)
    t.same_values(s, v, what, p)
    e.oblige(s, '%s: size grows by one' % what, B_int(v.S) - v.fls == v0.S - v0.fls + 1, 'post')


def t_add(alias):
    def run(ctx):
        t = T(ctx)
        t.start()
        a = t.keyarg(alias)
        t.st.assume(z3.And(t.v0.S < MAXS, t.v0.E < LASTP))
        t.walk = None
        res = t.e.run(t.fn(r'add\(HD const&\)'), [Ptr(t.this), a], t.st)
        for s, r in res:
            p = t.slot_of(s, r, 'add')
            if p is not None:
                added(t, s, p, 'add', t.x)
        return fin(t, res)
    return run


def setwalk(t):
    t.walk = (UMOD(H(K(t.x)), t.v0.E), K(t.x))
    t.st.assume(bidx(t.walk[0]))


def t_addOrReplace(ctx):
    t = T(ctx)
    t.start()
    a = t.keyarg()
    setwalk(t)
    t.st.assume(z3.And(t.v0.S < MAXS, t.v0.E < LASTP))
    fl = Obj('replaced', 'param', 1)
    t.e.opts['objects'].append(fl)
    res = t.e.run(t.fn(r'addOrReplace\(HD const&, bool&\)'), [Ptr(t.this), a, Ptr(fl, 0)], t.st)
    for s, r in res:
        rep = cell(s, fl, 0)
        if is_sym(rep) or rep not in (0, 1):
            raise Unsupported('replaced flag')
        p = t.slot_of(s, r, 'addOrReplace')
        if p is None:
            continue
        if rep:
            v = t.post(s, 'addOrReplace (key present)')
            t.e.oblige(s, 'addOrReplace: the key was present', z3.And(LIVE0(p), t.v0.key(p) == K(t.x)), 'post')
            t.e.oblige(s, 'addOrReplace: the new data is stored', z3.Select(v.val, p) == t.x, 'post')
            t.same_values(s, v, 'addOrReplace', p)
            t.e.oblige(s, 'addOrReplace: size unchanged', B_int(v.S) - v.fls == t.v0.S - t.v0.fls, 'post')
        else:
            t.e.oblige(s, 'addOrReplace: the key was absent', t.exists(t.v0, t.x), 'post')
            added(t, s, p, 'addOrReplace', t.x)
    return fin(t, res)


def t_lookup(const, alias=False):
    def run(ctx):
        t = T(ctx)
        t.start()
        a = t.keyarg(alias)
        setwalk(t)
        res = t.e.run(t.fn(r'lookup\(HD const&\)%s' % (' const' if const else '')), [Ptr(t.this), a], t.st)
        for s, r in res:
            if isinstance(r, Ptr) and r.obj is None:
                t.e.oblige(s, 'lookup: NULL only if no entry has the key', t.exists(t.v0, t.x), 'post')
            else:
                p = t.slot_of(s, r, 'lookup')
                if p is not None:
                    t.e.oblige(s, 'lookup: the entry is in the table and has the key', z3.And(LIVE0(p), t.v0.key(p) == K(t.x)), 'post')
            v = t.post(s, 'lookup')
            t.same_values(s, v, 'lookup')
        return fin(t, res)
    return run


def t_remove(alias):
    def run(ctx):
        t = T(ctx)
        t.start()
        a = t.keyarg(alias)
        setwalk(t)
        must = z3.Bool('must_exist')
        # a failed removal is reported as an assertion only when the caller asked for it
        def ok(eng, st):
            eng.oblige(st, 'remove: failure is only reported if the entry must exist', must, 'post')
            eng.oblige(st, 'remove: failure is only reported if the key is absent', t.exists(t.v0, t.x), 'post')
        t.e.assert_ok = ok
        res = t.e.run(t.fn(r'remove\(HD const&, bool\)'), [Ptr(t.this), a, must], t.st)
        for s, r in res:
            if is_sym(r):
                raise Unsupported('result of remove')
            if r:
                p = B_int(cell(s, t.this, t.off['fl']))
                s.assume(idx(p))
                removed(t, s, p, 'remove')
                t.e.oblige(s, 'remove: the removed entry had the key', z3.And(LIVE0(p), t.v0.key(p) == K(t.x)), 'post')
            else:
                t.e.oblige(s, 'remove: false only if no entry has the key', t.exists(t.v0, t.x), 'post')
                v = t.post(s, 'remove (absent)')
                t.same_values(s, v, 'remove (absent)')
        return fin(t, res)
    return run


def removed(t, s, p, what):
    e, v0 = t.e, t.v0
    live = lambda j: z3.And(LIVE0(j), j != p)
    fpos = lambda j: z3.If(j == p, v0.fls + 1, FPOS0(j))
    v = t.post(s, what, live, POS0, fpos)
    e.oblige(s, '%s: an entry of the table was removed' % what, LIVE0(p), 'post')
    t.same_values(s, v, what, p)
    e.oblige(s, '%s: the data of the removed entry is released' % what, z3.Select(v.val, p) == z3.Int('default_value'), 'post')
    e.oblige(s, '%s: size shrinks by one' % what, B_int(v.S) - v.fls == v0.S - v0.fls - 1, 'post')


def t_erase(ctx):
    t = T(ctx)
    t.start()
    it, c, l = t.iter_obj('it', live=True)
    t.erase = (c, l)
    res = t.e.run(t.fn(r'erase\(%s::iterator\)' % CLS), [Ptr(t.this), Ptr(it, 0)], t.st)
    for s, r in res:
        p = B_int(cell(s, t.this, t.off['fl']))
        s.assume(idx(p))
        removed(t, s, p, 'erase')
        t.e.oblige(s, 'erase: the entry the iterator refers to was removed', p == l, 'post')
    return fin(t, res)


def _iter_obj(t, name, live=None, table=None):
    """live: at an entry; False: at the end; None: either"""
    it = Obj(name, 'param', 16)
    c, l = z3.Ints('%s_chain %s_loc' % (name, name))
    st = t.st
    setcell(st, it, t.off['it_table'], PTR, Ptr(table or t.this, 0))
    setcell(st, it, t.off['it_chain'], I32, c)
    setcell(st, it, t.off['it_loc'], I32, l)
    v = t.v0
    at = z3.And(l >= 0, l < v.S, LIVE0(l), v.bk(l) == c)
    end = z3.And(l == NIL, c == v.E)
    st.assume(at if live else end if live is False else z3.Or(at, end))
    st.assume(z3.And(c >= 0, c <= v.E, z3.Implies(l != NIL, c < v.E)))   # follows from the representation invariant
    st.assume(idx(l))
    st.assume(bidx(c))
    t.e.opts['objects'].append(it)
    return it, c, l


T.iter_obj = _iter_obj


def first_from(t, s, c, l, lo, what, after=None):
    """(c, l) is the first entry, in (bucket, chain) order, of the buckets from lo on
    [after: strictly behind that entry], or the end if there is none"""
    v = t.v0
    e = t.e
    c, l = B_int(c), B_int(l)
    s.assume(idx(l))
    s.assume(bidx(c))
    j = z3.Int('j_it')
    at = z3.And(l >= 0, l < v.S, LIVE0(l), v.bk(l) == c)
    end = z3.And(l == NIL, c == v.E)
    e.oblige(s, '%s: at an entry of the table or at the end' % what, z3.Or(at, end), 'post')
    if after is None:
        inr = v.bk(j) >= lo
    else:
        ac, al = after
        s.assume(idx(v.N(al)))
        inr = z3.Or(v.bk(j) > ac, z3.And(v.bk(j) == ac, POS0(j) > POS0(al)))
        e.oblige(s, '%s: moves forward' % what, z3.Or(end, v.bk(l) > ac, z3.And(v.bk(l) == ac, POS0(l) > POS0(al))), 'post')
    e.oblige(s, '%s: skips no entry' % what, FA([j], z3.Implies(z3.And(idx(j), LIVE0(j), inr, z3.Or(end, v.bk(j) < c, z3.And(v.bk(j) == c, POS0(j) < POS0(l)))), False), pats=[idx(j)]), 'post')


def base_of(t, const):
    return r'iterator_base<HD%s, HashTable<.*>%s ?>' % (' const' if const else '', ' const' if const else '')


def call(t, pat, out, args):
    """run a function returning an iterator: through memory, or packed into a register pair"""
    f = t.fn(pat)
    if f.ptr is not None:
        t.mod.load(f)
    if len(f.args) > len(args):
        return t.e.run(f, [Ptr(out, 0)] + args, t.st)
    res = t.e.run(f, args, t.st)
    for s, r in res:
        c, l = z3.Int(t.e.fresh_name('rc')), z3.Int(t.e.fresh_name('rl'))
        w = B_int(r[1])
        acc, k = t.e.lin(w)
        lo = t.e.unlin({i: x for i, x in acc.items() if x[1] % (1 << 32)}, k % (1 << 32))
        hi = t.e.unlin({i: (x[0], x[1] >> 32) for i, x in acc.items() if x[1] % (1 << 32) == 0}, k >> 32)
        t.e.oblige(s, 'iterator result', z3.And(B(lo >= 0), B(lo < (1 << 32)), B(hi >= 0), B(hi < (1 << 32))), 'post')
        c, l = lo, hi
        setcell(s, out, t.off['it_table'], PTR, r[0])
        setcell(s, out, t.off['it_chain'], I32, c)
        setcell(s, out, t.off['it_loc'], I32, l)
    return res


def t_begin(const):
    def run(ctx):
        t = T(ctx)
        t.start()
        lo = z3.Int('start_chain')
        t.st.assume(z3.And(lo >= 0, lo <= t.v0.E))
        t.extra = [lo]
        out = Obj('result', 'param', 16)
        t.e.opts['objects'].append(out)
        res = call(t, r'begin\(int\)%s' % (' const' if const else ''), out, [Ptr(t.this), lo])
        for s, r in res:
            t.post(s, 'begin')
            first_from(t, s, cell(s, out, t.off['it_chain']), cell(s, out, t.off['it_loc']), lo, 'begin')
        return fin(t, res)
    return run


def t_end(const):
    def run(ctx):
        t = T(ctx)
        t.start()
        out = Obj('result', 'param', 16)
        t.e.opts['objects'].append(out)
        res = call(t, r'end\(\)%s' % (' const' if const else ''), out, [Ptr(t.this)])
        for s, r in res:
            t.post(s, 'end')
            t.e.oblige(s, 'end: past the last entry', z3.And(Eq(cell(s, out, t.off['it_chain']), t.v0.E), Eq(cell(s, out, t.off['it_loc']), NIL)), 'post')
        return fin(t, res)
    return run


def t_find(const):
    def run(ctx):
        t = T(ctx)
        t.start()
        a = t.keyarg()
        setwalk(t)
        out = Obj('result', 'param', 16)
        t.e.opts['objects'].append(out)
        res = call(t, r'find\(HD const&\)%s' % (' const' if const else ''), out, [Ptr(t.this), a])
        for s, r in res:
            t.post(s, 'find')
            c, l = B_int(cell(s, out, t.off['it_chain'])), B_int(cell(s, out, t.off['it_loc']))
            v = t.v0
            s.assume(idx(l))
            at = z3.And(l >= 0, l < v.S, LIVE0(l), v.bk(l) == c, v.key(l) == K(t.x))
            t.e.oblige(s, 'find: at an entry with the key, or at the end', z3.Or(at, z3.And(l == NIL, c == v.E)), 'post')
            t.e.oblige(s, 'find: at the end only if no entry has the key', z3.Or(at, t.exists(v, t.x)), 'post')
        return fin(t, res)
    return run


def t_inc(const, post):
    def run(ctx):
        t = T(ctx)
        t.start()
        it, c, l = t.iter_obj('it', live=True)
        t.extra = [c + 1]
        args = [Ptr(it, 0)]
        if post:
            out = Obj('result', 'param', 16)
            t.e.opts['objects'].append(out)
            args = [Ptr(it, 0), 0]
        nm = 'const_iterator' if const else 'iterator'
        pat = r'%s::operator\+\+\(%s\)' % (nm, 'int' if post else '')
        res = call(t, pat, out, args) if post else t.e.run(t.fn(pat), args, t.st)
        for s, r in res:
            t.post(s, 'increment')
            first_from(t, s, cell(s, it, t.off['it_chain']), cell(s, it, t.off['it_loc']), None, 'increment', (c, l))
            if post:
                t.e.oblige(s, 'increment: the old position is returned', z3.And(Eq(cell(s, out, t.off['it_chain']), c), Eq(cell(s, out, t.off['it_loc']), l)), 'post')
            else:
                t.e.oblige(s, 'increment: returns the iterator', isinstance(r, Ptr) and r.obj is it, 'post')
        return fin(t, res)
    return run


def t_resets(const, which):
    def run(ctx):
        t = T(ctx)
        t.start()
        if which == 'reset':
            # any iterator into this table, even one left behind by changes of the table
            it = Obj('it', 'param', 16)
            c, l = z3.Ints('it_chain it_loc')
            t.st.assume(z3.And(c >= 0, c <= NIL, l >= 0, l <= NIL))
            setcell(t.st, it, t.off['it_table'], PTR, Ptr(t.this, 0))
            setcell(t.st, it, t.off['it_chain'], I32, c)
            setcell(t.st, it, t.off['it_loc'], I32, l)
            t.e.opts['objects'].append(it)
            lo = z3.IntVal(0)
        else:
            # positioned in a chain before the table was changed by remove/add: the bucket is still valid
            it, c, l = t.iter_obj('it', live=None)
            if which == 'partialReset':
                l2 = z3.Int('stale_loc')
                t.st.assume(z3.And(l2 >= 0, l2 <= NIL, z3.Implies(c == t.v0.E, l2 == NIL)))
                setcell(t.st, it, t.off['it_loc'], I32, l2)
            lo = c
        t.extra = [lo]
        res = t.e.run(t.fn(base_of(t, const) + r'::%s\(\)' % which), [Ptr(it, 0)], t.st)
        for s, r in res:
            t.post(s, which)
            first_from(t, s, cell(s, it, t.off['it_chain']), cell(s, it, t.off['it_loc']), lo, which)
        return fin(t, res)
    return run


def t_deref(const, name):
    def run(ctx):
        t = T(ctx)
        t.start()
        it, c, l = t.iter_obj('it', live=True)
        res = t.e.run(t.fn(base_of(t, const) + '::' + name), [Ptr(it, 0)], t.st)
        for s, r in res:
            p = t.slot_of(s, r, 'dereference')
            if p is not None:
                t.e.oblige(s, 'dereference: the entry the iterator is at', p == l, 'post')
            t.post(s, 'dereference')
        return fin(t, res)
    return run


def t_chainpos(const, which):
    def run(ctx):
        t = T(ctx)
        t.start()
        it, c, l = t.iter_obj('it', live=None)
        v = t.v0
        res = t.e.run(t.fn(base_of(t, const) + r'::%s\(\)' % which), [Ptr(it, 0)], t.st)
        j = z3.Int('j_cp')
        for s, r in res:
            if which == 'getCurChain':
                t.e.oblige(s, 'getCurChain', Eq(r, c), 'post')
                continue
            cmp = (lambda a, b: a < b) if which == 'atStartOfChain' else (lambda a, b: a > b)
            truth = FA([j], z3.Implies(z3.And(idx(j), LIVE0(j), v.bk(j) == c), z3.Not(cmp(POS0(j), POS0(l)))), pats=[idx(j)])
            hd = v.P(c) if which == 'atStartOfChain' else v.N(l)
            s.assume(idx(hd))
            t.e.oblige(s, '%s: at the end or no entry of the chain %s' % (which, 'precedes' if which == 'atStartOfChain' else 'follows'),
                       z3.Implies(B(r), z3.Or(c == v.E, truth)), 'post')
            t.e.oblige(s, '%s: otherwise some entry of the chain does' % which, z3.Implies(z3.Not(B(r)), z3.And(c != v.E, z3.And(LIVE0(hd), v.bk(hd) == c, cmp(POS0(hd), POS0(l))))), 'post')
        return fin(t, res)
    return run


def t_cmp(const, op):
    def run(ctx):
        t = T(ctx)
        t.start()
        a, ca, la = t.iter_obj('it', live=None)
        b, cb, lb = t.iter_obj('other', live=None)
        res = t.e.run(t.fn(base_of(t, const) + r'::operator%s\(.*\) const' % op), [Ptr(a, 0), Ptr(b, 0)], t.st)
        for s, r in res:
            same = z3.Or(z3.And(ca == t.v0.E, cb == t.v0.E), z3.And(la == lb, la != NIL))
            t.e.oblige(s, 'iterators are equal iff they are at the same entry or both at the end', B(r) == (same if op == '==' else z3.Not(same)), 'post')
        return fin(t, res)
    return run


def t_clear(ctx):
    t = T(ctx)
    t.start()
    res = t.e.run(t.fn(r'clear\(\)'), [Ptr(t.this)], t.st)
    for s, r in res:
        v = t.post(s, 'clear', lambda j: z3.BoolVal(False))
        t.e.oblige(s, 'clear: the table is empty', Eq(B_int(v.S) - v.fls, 0), 'post')
    return fin(t, res)


def t_reserve(ctx):
    t = T(ctx)
    t.start()
    n = z3.Int('expected')
    t.st.assume(z3.And(t.v0.S == 0, n >= 0, n < (1 << 32), FDIV(z3.ToReal(n), t.tcl) < LASTP - 1))
    t.e.assumptions.add('reserve: fewer than 141650938 buckets are asked for')
    res = t.e.run(t.fn(r'reserve\(unsigned int\)'), [Ptr(t.this), n], t.st)
    for s, r in res:
        v = t.post(s, 'reserve', lambda j: z3.BoolVal(False))
        t.e.oblige(s, 'reserve: the table stays empty', Eq(B_int(v.S) - v.fls, 0), 'post')
    return fin(t, res)


def t_simple(pat, val):
    def run(ctx):
        t = T(ctx)
        t.start()
        res = t.e.run(t.fn(pat), [Ptr(t.this)], t.st)
        for s, r in res:
            t.e.oblige(s, pat, val(t, r), 'post')
            v = t.post(s, pat)
            t.same_values(s, v, pat)
        return fin(t, res)
    return run


def t_ctor(arg):
    def run(ctx):
        t = T(ctx)
        t.this = Obj('ht', 'param', t.size)
        t.e.opts['objects'] = [t.this]
        tcl = z3.Real('tcl')
        t.st.assume(tcl > 0)
        t.v0 = None
        t.e.invs = []
        res = t.e.run(t.fn(r'HashTable\(%s\)' % ('double' if arg else '')), [Ptr(t.this)] + ([tcl] if arg else []), t.st)
        for s, r in res:
            v = t.post(s, 'constructor', lambda j: z3.BoolVal(False), tcl=tcl if arg else None) if arg else t.post(s, 'constructor', lambda j: z3.BoolVal(False), tcl=z3.RealVal(2))
            t.e.oblige(s, 'constructor: empty', Eq(B_int(v.S) - v.fls, 0), 'post')
        return fin(t, res)
    return run


def t_copy(ctor):
    def run(ctx):
        t = T(ctx)
        src, v, tcl = t.make('src')
        if ctor:
            dst = Obj('dst', 'param', t.size)
            t.e.opts['objects'].append(dst)
        else:
            L1, P1, F1 = z3.Function('live1', II, z3.BoolSort()), z3.Function('pos1', II, II), z3.Function('fpos1', II, II)
            dst, _, _ = t.make('dst', L1, P1, F1)
        t.this, t.v0, t.tcl = src, v, tcl
        res = t.e.run(t.fn(r'HashTable\(HashTable<.*> const&\)' if ctor else r'operator=\(HashTable<.*> const&\)'), [Ptr(dst), Ptr(src)], t.st)
        for s, r in res:
            nv = t.post(s, 'copy', this=dst)
            t.same_values(s, nv, 'copy')
            t.e.oblige(s, 'copy: same number of entries', z3.And(Eq(nv.S, v.S), Eq(nv.fls, v.fls)), 'post')
            for k in ('chains', 'ep'):
                t.e.oblige(s, 'copy: shares no storage with the original', vec_state(s, dst, t.off[k])[0].obj is not vec_state(s, src, t.off[k])[0].obj, 'post')
            ov = t.view(s, src, LIVE0, POS0, FPOS0)
            t.same_values(s, ov, 'copy: original')
            for k in ('chains', 'ep'):
                o = vec_state(s, src, t.off[k])[0].obj
                t.e.oblige(s, 'copy: the original keeps its storage', o not in s.dead, 'post')
            t.e.oblige(s, 'copy: the original is unchanged', z3.And(ov.nx == v.nx, ov.ep == v.ep, Eq(ov.S, v.S), Eq(ov.E, v.E), Eq(ov.fl, v.fl), Eq(ov.fls, v.fls)), 'post')
        return fin(t, res)
    return run


def t_dtor(ctx):
    t = T(ctx)
    t.start()
    objs = [vec_state(t.st, t.this, t.off[k])[0].obj for k in ('chains', 'ep')]
    res = t.e.run(t.fn(r'~HashTable\(\)'), [Ptr(t.this)], t.st)
    for s, r in res:
        for o in objs:
            t.e.oblige(s, 'destructor: storage released', o in s.dead, 'lifetime')
    return fin(t, res)


TASKS = [
    Task('HashTable::HashTable()', t_ctor(False)), Task('HashTable::HashTable(double)', t_ctor(True)),
    Task('HashTable::HashTable(copy)', t_copy(True)), Task('HashTable::operator=', t_copy(False)), Task('HashTable::~HashTable', t_dtor),
    Task('HashTable::add', t_add(False)), Task('HashTable::add (argument is an entry of the table)', t_add(True)),
    Task('HashTable::addOrReplace', t_addOrReplace),
    Task('HashTable::lookup', t_lookup(False)), Task('HashTable::lookup const', t_lookup(True)), Task('HashTable::lookup (key inside the table)', t_lookup(False, True)),
    Task('HashTable::remove', t_remove(False)), Task('HashTable::remove (key inside the table)', t_remove(True)),
    Task('HashTable::erase', t_erase), Task('HashTable::clear', t_clear), Task('HashTable::reserve', t_reserve),
    Task('HashTable::size', t_simple(r'size\(\) const', lambda t, r: Eq(r, t.v0.S - t.v0.fls))),
    Task('HashTable::empty', t_simple(r'empty\(\) const', lambda t, r: B(r) == (t.v0.S == t.v0.fls))),
    Task('HashTable::dense', t_simple(r'dense\(\)', lambda t, r: B(r) == (t.v0.fls == 0))),
    Task('HashTable::begin', t_begin(False)), Task('HashTable::begin const', t_begin(True)),
    Task('HashTable::end', t_end(False)), Task('HashTable::end const', t_end(True)),
    Task('HashTable::find', t_find(False)), Task('HashTable::find const', t_find(True)),
] + [x for c in (False, True) for n in ('const_iterator' if c else 'iterator',) for x in (
    Task('HashTable::%s::operator++' % n, t_inc(c, False)), Task('HashTable::%s::operator++(int)' % n, t_inc(c, True)),
    Task('HashTable::%s::operator*' % n, t_deref(c, r'operator\*\(\)')), Task('HashTable::%s::operator->' % n, t_deref(c, r'operator->\(\)')),
    Task('HashTable::%s::reset' % n, t_resets(c, 'reset')), Task('HashTable::%s::partialReset' % n, t_resets(c, 'partialReset')),
    Task('HashTable::%s::atStartOfChain' % n, t_chainpos(c, 'atStartOfChain')), Task('HashTable::%s::atEndOfChain' % n, t_chainpos(c, 'atEndOfChain')),
    Task('HashTable::%s::getCurChain' % n, t_chainpos(c, 'getCurChain')),
    Task('HashTable::%s::operator==' % n, t_cmp(c, '==')), Task('HashTable::%s::operator!=' % n, t_cmp(c, '!=')))]

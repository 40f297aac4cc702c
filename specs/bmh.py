"""Contracts of BoyerMooreHorspool: the table invariant, and find() = the first position of the needle."""
import z3
import vc
from vc import *
from lib import *
from stdstr import *
from runner import Task

DRIVERS = {'bmh': ['drivers/bmh.cpp']}
MAXN = 1 << 45
NPOS = (1 << 64) - 1


class BM:
    def __init__(self, ctx):
        m = self.mod = ctx['mods']['bmh']
        g = lambda k: const_of(m, k)
        self.os, self.on, self.ol, self.oa, self.size = g('off_shift'), g('off_needle'), g('off_len'), g('off_last'), g('sizeof_bmh')
        self.w, self.nc = g('shift_width'), g('shift_count')
        e = self.e = Engine(m, 'int', dict(alloc_layout=self.layout))
        std_contracts(e)
        string_contracts(e)
        self.st = State()

    def layout(self, eng, st, o):
        o.stride, o.count = 1, o.size
        return True

    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(pat, f.dname) and not f.decl]
        if not fs:
            raise Unsupported('function %s not found' % pat)
        return fs[0]

    def obj(self):
        self.this = Obj('searcher', 'param', self.size)
        self.tab = Obj('searcher.shift', 'param', self.nc * self.w, stride=self.w, count=self.nc)
        self.this.tags['regions'] = [(self.os, self.os + self.nc * self.w, self.tab)]
        return self.this

    def shift(self, st, c):
        return z3.Select(self.e.getmap(st, self.tab, 0, IntTy(8 * self.w)), c)

    def inv(self, st, needle, L):
        """table invariant: for character c the window may move by shift(c) > 0 without passing an occurrence of c"""
        c, i = z3.Ints('c_inv i_inv')
        s = lambda c: self.shift(st, c)
        n = lambda i: z3.Select(needle, i)
        return [('every shift is between 1 and the length', FA([c], z3.Implies(z3.And(c >= 0, c < 256), z3.And(s(c) >= 1, s(c) <= L)), pats=[s(c)])),
                ('no shift passes an occurrence', FA([i], z3.Implies(z3.And(i >= 0, i < L - 1), s(n(i)) <= L - 1 - i), pats=[n(i)]))]

    def make(self):
        st, e = self.st, self.e
        self.obj()
        L = z3.Int('needle_length')
        st.assume(z3.And(L >= 1, L < MAXN))
        self.L = L
        nd = Obj('needle', 'heap', L, stride=1, count=L)
        self.nd = nd
        self.needle = e.getmap(st, nd, 0, I8)
        j = z3.Int('j_byte')
        st.assume(FA([j], z3.And(z3.Select(self.needle, j) >= 0, z3.Select(self.needle, j) < 256), pats=[z3.Select(self.needle, j)]))
        setcell(st, self.this, self.on, PTR, Ptr(nd, 0))
        setcell(st, self.this, self.ol, I64, L)
        setcell(st, self.this, self.oa, I64, L - 1)
        for nm, f in self.inv(st, self.needle, L):
            st.assume(f)
        self.tab.tags['on_load'] = lambda i, v: z3.Implies(z3.And(B(i >= 0), B(i < 256)), z3.And(v >= 1, v <= L))
        e.opts['objects'] = [self.this, self.tab, nd]


def finish(h, res):
    h.e.returns = len(res)
    return h.e


def t_find(name):
    def t(ctx):
        b = BM(ctx)
        b.make()
        e, st, L = b.e, b.st, b.L
        H = z3.Int('hay_len')
        st.assume(z3.And(H >= 0, H < MAXN))
        hay = Obj('haystack', 'param', H, stride=1, count=H)
        hay.const = True
        A = e.getmap(st, hay, 0, I8)
        h = lambda i: z3.Select(A, i)
        n = lambda i: z3.Select(b.needle, i)
        # ghost: F is the first position where the needle occurs (or a position behind the haystack); before it the
        # needle differs from the haystack at mis(p)
        F = z3.Int('first')
        mis = z3.Function('mismatch', z3.IntSort(), z3.IntSort())
        j = z3.Int('j')
        found = F <= H - L
        st.assume(z3.And(F >= 0, z3.Or(found, F == 1 << 62)))
        st.assume(FA([j], z3.Implies(z3.And(found, j >= 0, j < L), h(F + j) == n(j)), pats=[n(j)]))

        def differs(q):
            """instance: the needle does not occur before F"""
            return z3.Implies(z3.And(q >= 0, q < F, q <= H - L), z3.And(mis(q) >= 0, mis(q) < L, h(q + mis(q)) != n(mis(q))))

        def passing(s, o):
            """instances of the table invariant and of the occurrence at F for the window at o"""
            j = L - 1 - (F - o)
            return z3.And(z3.Implies(z3.And(found, j >= 0, j < L), h(F + j) == n(j)),
                          z3.Implies(z3.And(j >= 0, j < L - 1), b.shift(s, n(j)) <= L - 1 - j))
        e.opts['objects'].append(hay)

        def inv(V):
            s = V.st
            out = []
            offs = []
            for k, (v, v0, c) in sorted(V.pidx.items(), key=lambda kv: str(kv[0])):
                if V.ptrs[k][0].obj is hay:
                    offs.append(('p%s' % (k,), v))
            for k, (v, v0, w) in sorted(V.ints.items(), key=lambda kv: str(kv[0])):
                if w == 64 and not isinstance(v, PInt):
                    offs.append(('%s' % (k,), v))
                    offs.append(('H-%s' % (k,), H - v))
            state = getattr(V, 'at', 'head')
            if state == 'head':
                for on, o in offs:
                    s.assume(differs(B_int(o)))      # true for every position: F is the first occurrence
            hd = dict(hoffs(V.head, hay, H)) if state == 'back' else {}
            for on, o in offs:
                out.append(('no occurrence before %s' % on, z3.Implies(passing(s, hd[on]), B(o <= F)) if state == 'back' else B(o <= F)))
                for k, (v, v0, w) in sorted(V.ints.items(), key=lambda kv: str(kv[0])):
                    if w == 64 and not isinstance(v, PInt):
                        out.append(('%s + %s <= H' % (on, k), And(B(o + v <= H), B(o >= 0), B(v >= 0))))
                        out.append(('%s + %s == H' % (on, k), B(Eq(o + v, H))))
            return out

        def hoffs(V, hay, H):
            offs = []
            for k, (v, v0, c) in sorted(V.pidx.items(), key=lambda kv: str(kv[0])):
                if V.ptrs[k][0].obj is hay:
                    offs.append(('p%s' % (k,), v))
            for k, (v, v0, w) in sorted(V.ints.items(), key=lambda kv: str(kv[0])):
                if w == 64 and not isinstance(v, PInt):
                    offs.append(('%s' % (k,), v))
                    offs.append(('H-%s' % (k,), H - v))
            return offs

        def inner(V):
            """a loop that compares the window with the needle from its end: everything behind the index agrees"""
            out = []
            if V.depth < 1:
                return out
            # position of the window: any haystack pointer live in the enclosing loop
            wins = []
            for i, v in sorted(V.env0.items(), key=lambda kv: str(kv[0])):
                if isinstance(v, Ptr) and v.obj is hay and is_sym(v.off):
                    wins.append((i, v.off))
                elif z3.is_expr(v) and z3.is_int(v) and z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v is not H and v is not L:
                    wins.append((i, v))
            q = z3.Int('q2')
            for i, o in wins:
                for k, (v, v0, w) in sorted(V.ints.items(), key=lambda kv: str(kv[0])):
                    if w == 64 and not isinstance(v, PInt):
                        out.append(('window %s agrees behind %s' % (i, k), FA([q], z3.Implies(z3.And(q > v, q < L), h(o + q) == n(q)), pats=[n(q)])))
                        out.append(('%s < L' % (k,), z3.And(v >= 0, v < L)))
            return out
        e.invs = [inv, inner]
        res = e.run(b.fn(r'BoyerMooreHorspool::%s\(' % name), [Ptr(b.this, 0), Ptr(hay, 0), H], st)
        for s, v in res:
            if name == 'matches':
                e.oblige(s, 'matches: whether the needle occurs', z3.And(B(v) == found), 'post')
            elif not is_sym(v) and v == NPOS:
                e.oblige(s, 'npos only if the needle does not occur', z3.Not(found), 'post')
            else:
                e.oblige(s, 'a returned position is the first position of the needle', z3.Implies(differs(B_int(v)), z3.And(B(v == F), found)), 'post')
        return finish(b, res)
    return Task('BoyerMooreHorspool::%s' % name, t)




def t_ctor(kind):
    def t(ctx):
        b = BM(ctx)
        e, st = b.e, b.st
        b.obj()
        if kind == 'bytes':
            L = z3.Int('needle_length')
            st.assume(z3.And(L >= 0, L < MAXN))
            src = Obj('text', 'param', L, stride=1, count=L)
            src.const = True
            A = e.getmap(st, src, 0, I8)
            byte = lambda j: z3.Select(A, j)
            args, pat = [Ptr(src, 0), L], r'BoyerMooreHorspool\(void const\*'
        else:
            so, L, byte = str_param(e, st, 'text', MAXN)
            args, pat = [Ptr(so, 0)], r'BoyerMooreHorspool\(std::'
        e.opts['objects'] = [b.this, b.tab]

        def refuse(eng, s):
            eng.oblige(s, 'only an empty needle is refused', B(Eq(L, 0)), 'assert')
        e.assert_ok = refuse

        def inv(V):
            s = V.st
            out = []
            c, k = z3.Ints('c k')
            sh = lambda x: b.shift(s, x)
            np_ = cell(s, b.this, b.on)
            nd = e.getmap(s, np_.obj, 0, I8) if isinstance(np_, Ptr) and np_.obj is not None and np_.off == 0 else None
            for key, (v, v0, w) in sorted(V.ints.items(), key=lambda kv: str(kv[0])):
                if isinstance(v, PInt):
                    continue
                out.append(('shifts below %s are the length' % (key,), FA([c], z3.Implies(z3.And(c >= 0, B(c < v)), sh(c) == L), pats=[sh(c)])))
                if nd is not None:
                    n = lambda x: z3.Select(nd, x)
                    out.append(('no shift passes an occurrence before %s' % (key,), FA([k], z3.Implies(z3.And(k >= 0, B(k < v)), sh(n(k)) <= L - 1 - k), pats=[n(k)])))
                    out.append(('%s < L' % (key,), B(v <= L - 1)))
            for key, (i, i0, cc) in sorted(V.pidx.items(), key=lambda kv: str(kv[0])):
                if V.ptrs[key][0].obj is b.tab:
                    out.append(('shifts below p%s are the length' % (key,), FA([c], z3.Implies(z3.And(c >= 0, B(c < i)), sh(c) == L), pats=[sh(c)])))
            out.append(('shifts are in range', FA([c], z3.Implies(z3.And(c >= 0, c < 256), z3.And(sh(c) >= 1, sh(c) <= L)), pats=[sh(c)])))
            return out
        e.invs = [inv]
        jb = z3.Int('j_byte')
        st.assume(FA([jb], z3.And(byte(jb) >= 0, byte(jb) < 256), pats=[byte(jb)]))
        res = e.run(b.fn(pat), [Ptr(b.this, 0)] + args, st)
        for s, v in res:
            e.oblige(s, 'an empty needle is refused', B(L > 0), 'post')
            np_ = cell(s, b.this, b.on)
            ok = isinstance(np_, Ptr) and np_.obj is not None and np_.obj not in s.dead and np_.obj.kind == 'heap' and np_.off == 0
            e.oblige(s, 'the needle is held in storage of its own', ok, 'post')
            if not ok:
                continue
            e.oblige(s, 'length of the needle', z3.And(B(Eq(cell(s, b.this, b.ol), L)), B(Eq(np_.obj.count, L))), 'post')
            e.oblige(s, 'index of the last byte', Eq(cell(s, b.this, b.oa), L - 1), 'post')
            m = e.getmap(s, np_.obj, 0, I8)
            j = z3.Int('j_post')
            e.oblige(s, 'byte j of the needle', z3.Implies(z3.And(j >= 0, j < L), z3.Select(m, j) == byte(j)), 'post')
            for nm, f in b.inv(s, m, L):
                e.oblige(s, nm, f, 'post')
            for o in s.allocs:
                if o is not np_.obj and o not in s.dead:
                    e.oblige(s, 'no storage is leaked', False, 'lifetime')
        return finish(b, res)
    return Task('BoyerMooreHorspool::BoyerMooreHorspool(%s)' % kind, t)


def t_dtor(ctx):
    b = BM(ctx)
    b.make()
    res = b.e.run(b.fn(r'~BoyerMooreHorspool\('), [Ptr(b.this, 0)], b.st)
    for s, v in res:
        b.e.oblige(s, 'the needle is released', b.nd in s.dead, 'lifetime')
    return finish(b, res)


TASKS = [t_find('find'), t_find('matches'), t_ctor('bytes'), t_ctor('string'), Task('BoyerMooreHorspool::~BoyerMooreHorspool', t_dtor)]

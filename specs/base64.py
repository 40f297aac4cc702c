"""Contracts of ASCIIbeticalB64: the digits of the bit string / number; decode; round trip and order as lemmas."""
import z3
import vc
from vc import *
from lib import *
from stdstr import *
from runner import Task

DRIVERS = {'b64': ['drivers/base64.cpp']}
ALPHABET = '+,0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
LIM = 1 << 30
C = r'^lintel::ASCIIbeticalB64::'


class H:
    def __init__(self, ctx):
        m = self.mod = ctx['mods']['b64']
        e = self.e = Engine(m, 'int', dict(alloc_layout=self.layout, global_hook=self.glob, houdini_rl=20000000, objects=[]))
        std_contracts(e)
        string_contracts(e)
        e.contract(r'^std::__new_allocator<char>::', h_nop)
        st = self.st = State()
        self.T = z3.Array('alphabet', z3.IntSort(), z3.IntSort())
        i, j = z3.Ints('i_t j_t')
        T = lambda k: z3.Select(self.T, k)
        self.t = T
        # facts about the alphabet; the task 'alphabet' checks them on the initializer
        st.assume(FA([i], z3.Implies(z3.And(i >= 0, i < 64), z3.And(T(i) > 0, T(i) < 128)), pats=[T(i)]))
        st.assume(FA([i, j], z3.Implies(z3.And(i >= 0, i < j, j < 64), T(i) < T(j)), pats=[z3.MultiPattern(T(i), T(j))]))
        e.invs = [string_invs, ranges]

    def layout(self, eng, st, o):
        o.stride, o.count = 1, o.size
        return True

    def glob(self, eng, o, name, ty):
        if o.stride == 1 and ty.size == 65:
            o.tags.pop('init', None)
            o.const = True
            o.tags['init'] = lambda eng, c, t: self.T
            o.tags['alphabet'] = name

    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(C + pat, f.dname) and not f.decl]
        if not fs:
            raise Unsupported('function %s not found' % pat)
        return fs[0]

    def data(self, n, name='data'):
        o = Obj(name, 'param', n, stride=1, count=n)
        o.const = True
        m = self.e.getmap(self.st, o, 0, I8)
        j = z3.Int('j_' + name)
        self.st.assume(FA([j], z3.And(z3.Select(m, j) >= 0, z3.Select(m, j) < 256), pats=[z3.Select(m, j)]))
        return o, lambda i: z3.Select(m, i)

    def out(self, digits, name='out'):
        o = Obj(name, 'param', digits, stride=1, count=digits)
        return o, lambda s: (lambda i: z3.Select(self.e.getmap(s, o, 0, I8), i))

    def done(self, res):
        self.e.returns = len(res)
        return self.e


def ext(d, n):
    """bytes with zeros behind them"""
    return lambda i: z3.If(z3.And(i >= 0, i < n), d(i), 0)


def group(d, k):
    q, m = k / 4, k % 4
    a, b, c = d(3 * q), d(3 * q + 1), d(3 * q + 2)
    return z3.If(m == 0, a / 4, z3.If(m == 1, (a % 4) * 16 + b / 16, z3.If(m == 2, (b % 16) * 4 + c / 64, c % 64)))


def left(d, k):
    """bits read but not yet written after k digits, as the accumulator holds them"""
    q, m = k / 4, k % 4
    a, b, c = d(3 * q), d(3 * q + 1), d(3 * q + 2)
    return z3.If(m == 0, 0, z3.If(m == 1, (a % 4) * (1 << 30), z3.If(m == 2, (b % 16) * (1 << 28), (c % 64) * (1 << 26))))


def used(k):
    return 3 * (k / 4) + k % 4


def back_group(e, t):
    q, m = t / 4, t % 4
    a, b, c = e(3 * q), e(3 * q + 1), e(3 * q + 2)
    return z3.If(m == 0, a % 64, z3.If(m == 1, a / 64 + (b % 16) * 4, z3.If(m == 2, b / 16 + (c % 4) * 16, c / 4)))


def back_left(e, t):
    q, m = t / 4, t % 4
    a, b, c = e(3 * q), e(3 * q + 1), e(3 * q + 2)
    return z3.If(m == 0, 0, z3.If(m == 1, a / 64, z3.If(m == 2, b / 16, c / 4)))


def byte_of(D, j):
    q, m = j / 3, j % 3
    a, b, c, d = D(4 * q), D(4 * q + 1), D(4 * q + 2), D(4 * q + 3)
    return z3.If(m == 0, a * 4 + b / 16, z3.If(m == 1, (b % 16) * 16 + c / 4, (c % 4) * 64 + d))


def dec_left(D, k):
    """accumulator after k characters"""
    q, m = k / 4, k % 4
    a, b, c = D(4 * q), D(4 * q + 1), D(4 * q + 2)
    return z3.If(m == 0, 0, z3.If(m == 1, a * (1 << 26), z3.If(m == 2, (b % 16) * (1 << 28), (c % 4) * (1 << 30))))


def ints(V):
    return [(k, v, w) for k, (v, v0, w) in sorted(V.ints.items(), key=lambda kv: str(kv[0])) if not isinstance(v, PInt)]


def ranges(V):
    return [('%s has few bits' % (k,), B(v < 8)) for k, v, w in ints(V) if w == 32]


def outmaps(h, V):
    """arrays of bytes the loop writes: (name, reader)"""
    out = []
    for o in h.e.opts['objects']:
        out.append((o.name, lambda i, o=o: z3.Select(h.e.getmap(V.st, o, 0, I8), i)))
    for key, (p, p0) in sorted(V.ptrs.items(), key=lambda kv: str(kv[0])):
        if key[0] != 'phi' and p.obj.kind == 'str':
            out.append(('string', lambda i, o=p.obj: z3.Select(h.e.getmap(V.st, o, 0, I8), i)))
    for o in list(V.st.allocs) if hasattr(V.st, 'allocs') else []:
        pass
    for (o, kk) in V.st.mem:
        if o.kind == 'str' and o not in V.st.dead and not any(n == o.name for n, _ in out):
            out.append((o.name, lambda i, o=o: z3.Select(h.e.getmap(V.st, o, 0, I8), i)))
    return out


def written(h, V, name, expect, cond, low=0):
    out = []
    i = z3.Int('i_w')
    for nm, f in outmaps(h, V):
        out.append(('%s: %s' % (nm, name), FA([i], z3.Implies(z3.And(i >= low, cond(i)), f(i) == expect(i)), pats=[f(i)])))
    return out


def enc_inv(h, d, n, digits):
    dz = ext(d, n)

    def inv(V):
        out = []
        vs = ints(V)
        for k, v, w in vs:
            if w != 32:
                continue
            out += written(h, V, 'digits below %s' % (k,), lambda i: h.t(group(dz, i)), lambda i: B(i < v))
            out.append(('%s <= digits' % (k,), And(B(v >= 0), B(v <= digits))))
            out.append(('%s: input is used up' % (k,), B(used(B_int(v)) >= n)))
            for k2, v2, w2 in vs:
                if k2 == k:
                    continue
                if w2 == 64:
                    out.append(('%s bytes for %s digits' % (k2, k), B(v2 == used(B_int(v)))))
                    out.append(('%s <= size' % (k2,), B(v2 <= n)))
                else:
                    out.append(('%s bits left at %s' % (k2, k), B(v2 == 2 * (B_int(v) % 4))))
                    out.append(('%s holds the rest at %s' % (k2, k), B(v2 == left(dz, B_int(v)))))
        return out
    return inv


def t_encode_raw(ctx):
    h = H(ctx)
    e, st = h.e, h.st
    n, digits = z3.Ints('size digits')
    st.assume(z3.And(n >= 0, n < LIM, digits >= 0, digits < 1 << 31))
    o, d = h.data(n)
    ret, rd = h.out(digits)
    e.opts['objects'] = [ret]
    e.invs.append(enc_inv(h, d, n, digits))
    res = e.run(h.fn(r'encode\(void const\*, unsigned long, int, char\*\)'), [Ptr(o, 0), n, digits, Ptr(ret, 0)], st)
    dz = ext(d, n)
    k = z3.Int('k_post')
    for s, v in res:
        e.oblige(s, 'digit k holds bits 6k to 6k+5 of the data, zero bits behind it', z3.Implies(z3.And(k >= 0, k < digits), rd(s)(k) == h.t(group(dz, k))), 'post')
    return h.done(res)


def t_backward(ctx):
    h = H(ctx)
    e, st = h.e, h.st
    n, digits = z3.Ints('size digits')
    st.assume(z3.And(n >= 0, n < LIM, digits >= 0, digits < 1 << 31))
    o, d = h.data(n)
    ret, rd = h.out(digits)
    e.opts['objects'] = [ret]
    ez = ext(lambda i: d(n - 1 - i), n)

    def inv(V):
        out = []
        vs = ints(V)
        for k, v, w in vs:
            if w != 32:
                continue
            sv = z3.If(B(v >= 1 << 31), v - (1 << 32), v)
            t = digits - 1 - sv
            i = z3.Int('i_w')
            out += written(h, V, 'digits above %s' % (k,), lambda i: h.t(back_group(ez, digits - 1 - i)), lambda i: z3.And(B(i > sv), i < digits))
            out.append(('%s < digits' % (k,), And(B(sv >= -1), B(sv < digits))))
            for k2, v2, w2 in vs:
                if k2 == k:
                    continue
                if w2 == 64:
                    out.append(('%s bytes left at %s' % (k2, k), B(v2 == z3.If(used(t) <= n, n - used(t), 0))))
                    out.append(('%s <= size' % (k2,), B(v2 <= n)))
                else:
                    out.append(('%s bits left at %s' % (k2, k), B(v2 == z3.If(used(t) <= n, 2 * (t % 4), 0))))
                    out.append(('%s holds the rest at %s' % (k2, k), B(v2 == back_left(ez, t))))
        return out
    e.invs.append(inv)
    res = e.run(h.fn(r'encodeBackward\('), [Ptr(o, 0), n, digits, Ptr(ret, 0)], st)
    k = z3.Int('k_post')
    for s, v in res:
        e.oblige(s, 'digit k from the end holds bits 6k to 6k+5 from the end, zero bits before the data',
                 z3.Implies(z3.And(k >= 0, k < digits), rd(s)(digits - 1 - k) == h.t(back_group(ez, k))), 'post')
    return h.done(res)



def c_raw(h):
    """contract of encode(data, size, digits, char *), proved by its own task"""
    def f(eng, st, fn, args):
        p, n, dg, r = args
        sd = eng.signed(st, dg, 32)
        eng.oblige(st, 'encode: digits is not negative', B(sd >= 0), 'pre')
        eng.in_bounds_range(st, r, sd, 'encode: digits written')
        if p.obj is None:
            eng.oblige(st, 'encode: null data only without bytes', Eq(n, 0), 'pre')
            d = lambda i: z3.IntVal(0)
        else:
            d = range_bytes(eng, st, p, n, 'encode: data read')
        dz = ext(d, n)
        if r.obj.stride != 1 or r.obj.const:
            raise Unsupported('encode into %s' % r.obj)
        old = eng.getmap(st, r.obj, 0, I8)
        new = z3.Array(eng.fresh_name('encoded'), z3.IntSort(), z3.IntSort())
        i = z3.Int(eng.fresh_name('i_e'))
        x = i - r.off
        st.assume(FA([i], z3.Select(new, i) == z3.If(z3.And(B(x >= 0), B(x < sd)), h.t(group(dz, x)), z3.Select(old, i)), pats=[z3.Select(new, i)]))
        eng.setmap(st, r.obj, 0, I8, new)
    return f


def t_encode_str(kind):
    def t(ctx):
        h = H(ctx)
        e, st = h.e, h.st
        digits = z3.Int('digits')
        st.assume(z3.And(digits >= 0, digits < 1 << 31))
        ret = Obj('result', 'param', 32)
        if kind in ('data', 'data raw'):
            n = z3.Int('size')
            st.assume(z3.And(n >= 0, n < LIM))
            o, d = h.data(n)
            args = [Ptr(o, 0), n, digits]
        else:
            so, n, d = str_param(e, st, 'text', LIM)
            args = [Ptr(so, 0), digits]
        e.contract(C + r'encode\(void const\*, unsigned long, int, char\*\)$', c_raw(h))
        dz = ext(d, n)
        k = z3.Int('k_post')
        if kind == 'string raw':
            r, rd = h.out(digits)
            res = e.run(h.fn(r'encode\(std::.*, int, char\*\)'), args + [Ptr(r, 0)], st)
            for s, v in res:
                e.oblige(s, 'digit k of the data', z3.Implies(z3.And(k >= 0, k < digits), rd(s)(k) == h.t(group(dz, k))), 'post')
            return h.done(res)
        pat = r'encode\[abi:cxx11\]\(void const\*, unsigned long, int\)' if kind == 'data' else r'encode\(std::.*, int\)'
        res = e.run(h.fn(pat), [Ptr(ret, 0)] + args, st)
        want = z3.If(digits == 0, (8 * n + 5) / 6, digits)
        for s, v in res:
            rn, rb = str_bytes(e, s, Ptr(ret, 0))
            e.oblige(s, 'number of digits', B(rn == want), 'post')
            e.oblige(s, 'digit k of the data', z3.Implies(z3.And(k >= 0, k < want), rb(k) == h.t(group(dz, k))), 'post')
        return h.done(res)
    return t


# ---- numbers

def digit_fn(st, value):
    """S(t) = value / 64^t"""
    S = z3.Function('shifted', z3.IntSort(), z3.IntSort())
    st.assume(S(0) == value)
    return S


def step(S, t):
    return z3.Implies(t >= 0, z3.And(S(t + 1) == S(t) / 64, S(t) >= 0))


def num_inv(h, S, digits):
    def inv(V):
        out = []
        vs = ints(V)
        for k, v, w in vs:
            if w != 32:
                continue
            sv = z3.If(B(v >= 1 << 31), v - (1 << 32), v)
            t = digits - 1 - sv
            if getattr(V, 'at', 'head') == 'head':
                V.st.assume(step(S, t))          # definition of S
            out += written(h, V, 'digits above %s' % (k,), lambda i: h.t(S(digits - 1 - i) % 64), lambda i: z3.And(B(i > sv), i < digits))
            out.append(('%s < digits' % (k,), And(B(sv >= -1), B(sv < digits))))
            for k2, v2, w2 in vs:
                if k2 != k:
                    out.append(('%s is what is left at %s' % (k2, k), B(v2 == S(t))))
        return out
    return inv


def t_num(ty, w, signed, raw, dflt):
    def t(ctx):
        h = H(ctx)
        e, st = h.e, h.st
        v, digits = z3.Ints('number digits')
        st.assume(z3.And(v >= 0, v < 1 << w, digits >= 0, digits < 1 << 31))
        k = z3.Int('k_post')
        if raw:
            r, rd = h.out(digits)
            e.opts['objects'] = [r]
            S = digit_fn(st, v)
            e.invs.append(num_inv(h, S, digits))
            res = e.run(h.fn(r'encode\(%s, int, char\*\)' % ty), [v, digits, Ptr(r, 0)], st)
            for s, x in res:
                e.oblige(s, 'digit k from the end is digit k of the number in base 64', z3.Implies(z3.And(k >= 0, k < digits), rd(s)(digits - 1 - k) == h.t(S(k) % 64)), 'post')
            return h.done(res)
        ret = Obj('result', 'param', 32)
        want = z3.If(digits == 0, dflt, digits)
        S = digit_fn(st, v)
        h.e.invs.append(num_inv(h, S, want))
        res = e.run(h.fn(r'encode\[abi:cxx11\]\(%s, int\)' % ty), [Ptr(ret, 0), v, digits], st)
        for s, x in res:
            rn, rb = str_bytes(e, s, Ptr(ret, 0))
            e.oblige(s, 'number of digits', B(rn == want), 'post')
            e.oblige(s, 'digit k from the end is digit k of the number in base 64', z3.Implies(z3.And(k >= 0, k < want), rb(want - 1 - k) == h.t(S(k) % 64)), 'post')
        return h.done(res)
    return Task('encode(%s, digits%s)' % (ty, ', raw' if raw else ''), t)


# ---- decoding

def static_cells(h):
    return [o for o in h.e.globals.values() if not o.tags.get('alphabet')]


def t_detranslate(first):
    def t(ctx):
        h = H(ctx)
        e, st = h.e, h.st
        tabs = []
        if not first:
            o = Obj('inverse', 'heap', 256, stride=1, count=256)
            tabs.append(o)
        old = h.glob

        def glob(eng, o, name, ty):
            old(eng, o, name, ty)
            if not o.tags.get('alphabet') and ty.k == 'ptr':
                st.mem[(o, ('c', 0))] = (PTR, Ptr(tabs[0], 0) if tabs else Ptr(None, 0))
                h.cell = o
        e.opts['global_hook'] = glob

        def inv(V):
            out = []
            x = z3.Int('x_v')
            for (o, kk) in list(V.st.mem):
                if o.kind == 'heap' and o not in V.st.dead and o.count == 256:
                    R = lambda i: z3.Select(e.getmap(V.st, o, 0, I8), i)
                    out.append(('values', FA([x], z3.Implies(z3.And(x >= 0, x < 256), z3.And(R(x) >= 0, R(x) < 64)), pats=[R(x)])))
                    for k, v, w in ints(V):
                        out.append(('inverse below %s' % (k,), FA([x], z3.Implies(z3.And(x >= 0, B(x < v)), R(h.t(x)) == x), pats=[h.t(x)])))
                        out.append(('%s <= 64' % (k,), B(v <= 64)))
                    break
            return out
        e.invs.append(inv)
        # names of the static cells are found when they are first used: run once on a copy is not needed
        res = e.run(h.fn(r'detranslate\('), [], st)
        x = z3.Int('x_post')
        for s, v in res:
            if not first:
                e.oblige(s, 'the table made before is returned', isinstance(v, Ptr) and v.obj is tabs[0] and v.off == 0, 'post')
                continue
            ok = isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'heap' and v.obj not in s.dead and v.off == 0
            e.oblige(s, 'a table is returned', ok, 'post')
            if not ok:
                continue
            e.oblige(s, 'the table has an entry for every byte', B(v.obj.count >= 256), 'post')
            R = lambda i: z3.Select(e.getmap(s, v.obj, 0, I8), i)
            e.oblige(s, 'every entry is a digit', z3.Implies(z3.And(x >= 0, x < 256), z3.And(R(x) >= 0, R(x) < 64)), 'post')
            e.oblige(s, 'the table inverts the alphabet', z3.Implies(z3.And(x >= 0, x < 64), R(h.t(x)) == x), 'post')
            kept = cell(s, h.cell, 0)
            e.oblige(s, 'the table is kept', isinstance(kept, Ptr) and kept.obj is v.obj and kept.off == 0, 'post')
        return h.done(res)
    return Task('detranslate (%s call)' % ('first' if first else 'later'), t)


def dec_inv(h, D, n, m):
    def inv(V):
        out = []
        vs = ints(V)
        for k, v, w in vs:
            if w != 64:
                continue
            v = B_int(v)
            out.append(('%s <= size' % (k,), B(v <= n)))
            bytes_ = 3 * (v / 4) + z3.If(v % 4 == 0, 0, v % 4 - 1)
            out += written(h, V, 'bytes before %s characters' % (k,), lambda j: byte_of(D, j), lambda j: j < bytes_)
            for k2, v2, w2 in vs:
                if w2 != 32:
                    continue
                out.append(('%s bytes for %s characters' % (k2, k), B(v2 == bytes_)))
                out.append(('%s bits left at %s' % (k2, k), B(v2 == (8 - 2 * (v % 4)) % 8)))
                out.append(('%s holds the rest at %s' % (k2, k), B(v2 == dec_left(D, v))))
        return out
    return inv


def c_detranslate(h):
    def f(eng, st, fn, args):
        o = getattr(h, 'rtab', None)
        if o is None:
            o = h.rtab = Obj('inverse', 'heap', 256, stride=1, count=256)
            R = eng.getmap(st, o, 0, I8)
            x = z3.Int('x_r')
            st.assume(FA([x], z3.Implies(z3.And(x >= 0, x < 256), z3.And(z3.Select(R, x) >= 0, z3.Select(R, x) < 64)), pats=[z3.Select(R, x)]))
            h.R = lambda i: z3.Select(R, i)
        return Ptr(o, 0)
    return f


def t_decode(kind):
    def t(ctx):
        h = H(ctx)
        e, st = h.e, h.st
        e.contract(C + r'detranslate\(\)$', c_detranslate(h))
        ret = Obj('result', 'param', 32)
        if kind == 'data':
            n = z3.Int('size')
            st.assume(z3.And(n >= 0, n < LIM))
            o, d = h.data(n)
            args, pat = [Ptr(o, 0), n], r'decode\[abi:cxx11\]\(char const\*'
        else:
            so, n, d = str_param(e, st, 'text', LIM)
            args, pat = [Ptr(so, 0)], r'decode\(std::'
        c_detranslate(h)(e, st, None, [])
        D = lambda k: h.R(d(k))
        m = (n * 6) / 8
        e.invs.append(dec_inv(h, D, n, m))
        res = e.run(h.fn(pat), [Ptr(ret, 0)] + args, st)
        j = z3.Int('j_post')
        for s, v in res:
            rn, rb = str_bytes(e, s, Ptr(ret, 0))
            e.oblige(s, 'number of bytes', B(rn == m), 'post')
            e.oblige(s, 'byte j is made of bits 8j to 8j+7 of the digits', z3.Implies(z3.And(j >= 0, j < m), rb(j) == byte_of(D, j)), 'post')
        return h.done(res)
    return t


# ---- the alphabet and the lemmas over the contracts

def t_alphabet(ctx):
    h = H(ctx)
    e, st = h.e, State()
    res = e.run(h.fn(r'translate\('), [], st)
    for s, v in res:
        name = v.obj.tags.get('alphabet')
        init = h.mod.global_init(name) if name else None
        vals = e.const(s, init) if init is not None else None
        ok = vals is not None and v.off == 0
        e.oblige(s, 'an alphabet is returned', ok, 'post')
        if not ok:
            continue
        vals = [int(x) for x in vals][:64]
        e.oblige(s, 'the digits are characters', len(vals) == 64 and all(0 < x < 128 for x in vals), 'post')
        e.oblige(s, 'the order of the digits is the order of the characters', all(a < b for a, b in zip(vals, vals[1:])), 'post')
        e.oblige(s, 'the alphabet is + , 0-9 A-Z a-z', bytes(vals) == ALPHABET.encode(), 'post')
    e.returns = len(res)
    return e


def lemma(name):
    def t(ctx):
        h = H(ctx)
        e, st = h.e, h.st
        X, Y = z3.Array('X', z3.IntSort(), z3.IntSort()), z3.Array('Y', z3.IntSort(), z3.IntSort())
        byte = lambda v: z3.And(v >= 0, v < 256)
        n, m, q, i = z3.Ints('n m q i')
        st.assume(z3.And(n >= 0, m >= 0, q >= 0))
        x, y = ext(lambda k: z3.Select(X, k), n), ext(lambda k: z3.Select(Y, k), m)
        full = lambda n: (8 * n + 5) / 6
        # bytes of the groups around 3q
        for k in range(-3, 6):
            st.assume(z3.And(byte(z3.Select(X, 3 * q + k)), byte(z3.Select(Y, 3 * q + k))))
        if name == 'round trip':
            e.oblige(st, 'decode gives as many bytes as were encoded', full(n) * 6 / 8 == n, 'lemma')
            # decode(encode(x)): digit values are the groups (the table inverts the alphabet)
            D = lambda k: group(x, k)
            for r in range(3):
                e.oblige(st, 'byte 3q+%d comes back' % r, z3.Implies(3 * q + r < n, z3.And(byte_of(D, 3 * q + r) == x(3 * q + r))), 'lemma')
            j = z3.Int('j')
            for r in range(3):
                # the digits a byte needs are all there
                e.oblige(st, 'digits of byte 3q+%d are written' % r, z3.Implies(3 * q + r < n, 4 * q + r + 1 < full(n)), 'lemma')
        else:
            # first difference of the strings x and y at byte i = 3q + r: x smaller there, or x ends there
            for r in range(3):
                i = 3 * q + r
                same = [z3.Select(X, 3 * q + k) == z3.Select(Y, 3 * q + k) for k in range(-3, r)]
                s = st.copy()
                s.assume(z3.And(*same))
                s.assume(z3.And(i <= n, i < m))
                s.assume(z3.Or(i == n, z3.And(i < n, z3.Select(X, i) < z3.Select(Y, i))))
                # digits before 4q + r agree; at 4q + r and behind: x has no digit, or the first differing one is smaller
                k = 4 * q + r
                ge = lambda k: h.t(group(x, k)) == h.t(group(y, k))
                lt = lambda k: h.t(group(x, k)) < h.t(group(y, k))
                nox, noy = lambda k: k >= full(n), lambda k: k >= full(m)
                before = z3.And(*[ge(4 * q + z) for z in range(0, r)]) if r else z3.BoolVal(True)
                for z in range(0, r):
                    e.oblige(s, 'digits of the common bytes agree (%d,%d)' % (r, z), ge(4 * q + z), 'lemma')
                for kk in (k, k + 1):
                    s.assume(z3.And(group(x, kk) >= 0, group(x, kk) < 64, group(y, kk) >= 0, group(y, kk) < 64))
                less = lambda k, rest: z3.Or(z3.And(nox(k), z3.Not(noy(k))), z3.And(z3.Not(nox(k)), z3.Not(noy(k)), lt(k)), z3.And(z3.Not(nox(k)), z3.Not(noy(k)), ge(k), rest))
                e.oblige(s, 'x < y gives a smaller encoding (difference at byte 3q+%d)' % r, less(k, less(k + 1, z3.BoolVal(False))), 'lemma')
            s = st.copy()
            e.oblige(s, 'a group is a digit', z3.And(*[z3.And(group(x, 4 * q + z) >= 0, group(x, 4 * q + z) < 64) for z in range(4)]), 'lemma')
        e.returns = 1
        return e
    return Task('lemma: ' + name, t)


TASKS = [Task('encode(data, raw)', t_encode_raw), Task('encodeBackward', t_backward),
         Task('encode(data)', t_encode_str('data')), Task('encode(string)', t_encode_str('string')), Task('encode(string, raw)', t_encode_str('string raw'))]
for ty, w, sg, df in (('unsigned int', 32, False, 6), ('int', 32, True, 6), ('unsigned long', 64, False, 11), ('long', 64, True, 11)):
    TASKS += [t_num(ty, w, sg, True, df), t_num(ty, w, sg, False, df)]
TASKS += [t_detranslate(True), t_detranslate(False), Task('decode(data)', t_decode('data')), Task('decode(string)', t_decode('string')),
          Task('alphabet', t_alphabet), lemma('round trip'), lemma('order')]

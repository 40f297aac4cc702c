"""Contracts of StringUtil: hexadecimal, escapes, CSV, split/join, prefixes, character classes."""
import re
import z3
import vc
from vc import *
from lib import *
from stdstr import *
import stdvec
from runner import Task

DRIVERS = {'strutil': ['drivers/strutil.cpp']}
LIM = 1 << 31
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&'


class H:
    def __init__(self, ctx):
        m = self.mod = ctx['mods']['strutil']
        e = self.e = Engine(m, 'int', dict(alloc_layout=self.layout, global_hook=self.glob, houdini_rl=20000000, objects=[]))
        std_contracts(e)
        string_contracts(e)
        ctype_contracts(e)
        e.contract(r'^std::__new_allocator<char>::', h_nop)
        self.st = State()
        for g in sorted(m.globals):
            ty = m.global_type(g)
            if ty.k in ('array', 'struct') and ty.size in (16, 256) and m.global_init(g) is not None:
                e.global_obj(self.st, g)
        self.ret = Obj('result', 'param', 32)
        e.invs = [string_invs]

    def layout(self, eng, st, o):
        o.stride, o.count = 1, o.size
        return True

    def glob(self, eng, o, name, ty):
        """tables of bytes that nothing in the module writes keep their initial contents"""
        if ty.size not in (16, 256) or not only_read(self.mod, name):
            return
        vals = flat_bytes(eng, ty, eng.const(self.st, self.mod.global_init(name)))
        if vals is None:
            return
        o.stride, o.count = 1, ty.size
        o.tags.pop('default', None)
        o.const = True
        T = z3.Array('table_' + re.sub(r'\W', '_', name), z3.IntSort(), z3.IntSort())
        o.tags['table'] = vals

        def init(eng, c, t):
            return T
        o.tags['init'] = init
        i = z3.Int('i_tab')
        t = z3.Select(T, i)
        if ty.size == 16 and vals == [ord(x) for x in '0123456789abcdef']:
            body = t == hexdigit(i)
        else:
            body = t == z3.IntVal(0)
            d = z3.IntVal(0)
            for k, v in enumerate(vals):
                if v:
                    d = z3.If(i == k, v, d)
            body = t == d
        # a fact about a constant: holds in every state
        self.st.assume(FA([i], z3.Implies(z3.And(i >= 0, i < ty.size), body), pats=[t]))

    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(pat, f.dname) and not f.decl]
        if not fs:
            raise Unsupported('function %s not found' % pat)
        return fs[0]

    def data(self, n, name='data'):
        o = Obj(name, 'param', n, stride=1, count=n)
        o.const = True
        m = self.e.getmap(self.st, o, 0, I8)
        self.is_bytes(m, name)
        return o, lambda i: z3.Select(m, i)

    def is_bytes(self, m, name):
        j = z3.Int('j_' + name)
        self.st.assume(FA([j], z3.And(z3.Select(m, j) >= 0, z3.Select(m, j) < 256), pats=[z3.Select(m, j)]))

    def result(self, s):
        return str_bytes(self.e, s, Ptr(self.ret, 0))

    def live(self, s):
        """the result string if it exists in this state"""
        try:
            return self.result(s)
        except Unsupported:
            return None

    def run(self, pat, args, sret=True):
        return self.e.run(self.fn(pat), ([Ptr(self.ret, 0)] if sret else []) + args, self.st)

    def done(self, res):
        self.e.returns = len(res)
        return self.e


def flat_bytes(eng, ty, c):
    if ty.k == 'int':
        return [int(c)] if ty.w == 8 and not is_sym(c) else None
    if ty.k not in ('array', 'struct') or c is None:
        return None
    out = []
    for i in range(ty.n):
        x = flat_bytes(eng, ty.el if ty.k == 'array' else ty.els[i], c[i])
        if x is None:
            return None
        out += x
    return out if len(out) == ty.size else None


def only_read(mod, name):
    """no instruction of the module can write the global: it is used by loads and by address computations used by loads"""
    for f in mod.fns.values():
        if f.decl:
            continue
        ptrs = set()
        mod.load(f)
        for b in f.blocks:
            for i in b.phis + b.insts:
                for x in i.ops:
                    if isinstance(x, tuple):
                        x = x[0]
                    hit = (isinstance(x, Const) and name in repr(getattr(x, 'val', ''))) or (isinstance(x, SSA) and x.id in ptrs)
                    if not hit:
                        continue
                    if i.op == 'gep' and x is i.ops[0]:
                        ptrs.add(i.id)
                    elif i.op != 'load':
                        return False
    return True


def hexdigit(v):
    return z3.If(v < 10, 48 + v, 87 + v)


def hexvalue(c):
    return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))


ishex, isprint = CTYPE['isxdigit'], CTYPE['isprint']


def ints(V):
    return [(k, v, w) for k, (v, v0, w) in sorted(V.ints.items(), key=lambda kv: str(kv[0])) if not isinstance(v, PInt)]


def all_before(V, d, n, pred, name):
    j = z3.Int('j_all')
    out = []
    for k, v, w in ints(V):
        out.append(('%s before %s' % (name, k), FA([j], z3.Implies(z3.And(j >= 0, B(j < v)), pred(d(j))), pats=[d(j)])))
        out.append(('%s <= size' % (k,), B(v <= n)))
    return out


# ---- hexadecimal

def hex_post(e, s, rn, rb, d, n, extra=''):
    j = z3.Int('j_post')
    e.oblige(s, 'two digits for each byte' + extra, B(rn == 2 * n), 'post')
    e.oblige(s, 'high digit of byte j' + extra, z3.Implies(z3.And(j >= 0, j < n), rb(2 * j) == hexdigit(d(j) / 16)), 'post')
    e.oblige(s, 'low digit of byte j' + extra, z3.Implies(z3.And(j >= 0, j < n), rb(2 * j + 1) == hexdigit(d(j) % 16)), 'post')


def t_hexstring(ctx):
    h = H(ctx)
    n = z3.Int('size')
    h.st.assume(z3.And(n >= 0, n < LIM))
    o, d = h.data(n)

    def inv(V):
        r = h.live(V.st)
        if r is None:
            return []
        out = []
        j = z3.Int('j_inv')
        for k, v, w in ints(V):
            out.append(('two digits for each byte before %s' % (k,), B(r[0] == 2 * v)))
            out.append(('digits before %s' % (k,), FA([j], z3.Implies(z3.And(j >= 0, B(j < v)), z3.And(r[1](2 * j) == hexdigit(d(j) / 16), r[1](2 * j + 1) == hexdigit(d(j) % 16))), pats=[d(j)])))
            out.append(('%s <= size' % (k,), B(v <= n)))
        return out
    h.e.invs.append(inv)
    res = h.run(r'^hexstring\[abi:cxx11\]\(void', [Ptr(o, 0), n])
    for s, v in res:
        rn, rb = h.result(s)
        hex_post(h.e, s, rn, rb, d, n)
    return h.done(res)


def c_hexstring(h):
    def f(eng, st, fn, args):
        n = args[2]
        d = range_bytes(eng, st, args[1], n, 'hexstring')
        str_set(eng, st, args[0], 2 * n, lambda j: z3.If(j % 2 == 0, hexdigit(d(j / 2) / 16), hexdigit(d(j / 2) % 16)))
    return f


def t_maybehex(kind):
    def t(ctx):
        h = H(ctx)
        e, st = h.e, h.st
        if kind == 'data':
            n = z3.Int('size')
            st.assume(z3.And(n >= 0, n < LIM))
            o, d = h.data(n)
            args, pat = [Ptr(o, 0), n], r'^maybehexstring\[abi:cxx11\]\(void'
        else:
            so, n, d = str_param(e, st, 'text', LIM)
            args, pat = [Ptr(so, 0)], r'^maybehexstring\(std'
        e.contract(r'^hexstring\[abi:cxx11\]\(void', c_hexstring(h))
        e.invs.append(lambda V: all_before(V, d, n, isprint, 'printable'))
        res = h.run(pat, args)
        j = z3.Int('j_post')
        # ghost: a byte that is not printable, if there is one
        u = z3.Int('unprintable')
        for s, v in res:
            rn, rb = h.result(s)
            some = z3.And(u >= 0, u < n, z3.Not(isprint(d(u))))
            for lab, g in (('an unprintable byte: two digits for each byte', z3.Implies(some, B(rn == 2 * n))),
                           ('an unprintable byte: hexadecimal', z3.Implies(z3.And(some, j >= 0, j < n), z3.And(rb(2 * j) == hexdigit(d(j) / 16), rb(2 * j + 1) == hexdigit(d(j) % 16))))):
                e.oblige(s, lab, g, 'post')
            allp = FA([j], z3.Implies(z3.And(j >= 0, j < n), isprint(d(j))), pats=[d(j)])
            x = z3.Int('x_post')
            e.oblige(s, 'all printable: the text itself', z3.Implies(allp, z3.And(B(rn == n), z3.Implies(z3.And(x >= 0, x < n), rb(x) == d(x)))), 'post')
        return h.done(res)
    return Task('maybehexstring(%s)' % kind, t)


def allhex(d, n):
    j = z3.Int('j_hex')
    return FA([j], z3.Implies(z3.And(j >= 0, j < n), ishex(d(j))), pats=[d(j)])


def t_hex2raw(kind):
    def t(ctx):
        h = H(ctx)
        e, st = h.e, h.st
        if kind == 'data':
            n = z3.Int('size')
            st.assume(z3.And(n >= 0, n < LIM))
            o, d = h.data(n)
            args, pat = [Ptr(o, 0), n], r'^hex2raw\[abi:cxx11\]\(char const'
        else:
            so, n, d = str_param(e, st, 'text', LIM)
            args, pat = [Ptr(so, 0)], r'^hex2raw\(std'

        def refuse(eng, s):
            eng.oblige(s, 'only text that is not hexadecimal is refused', z3.Not(z3.And(n % 2 == 0, allhex(d, n))), 'assert')
        e.assert_ok = refuse

        def inv(V):
            r = h.live(V.st)
            if r is None:
                return []
            out = []
            j = z3.Int('j_inv')
            for k, v, w in ints(V):
                out.append(('hexadecimal before %s' % (k,), FA([j], z3.Implies(z3.And(j >= 0, B(j < 2 * v)), ishex(d(j))), pats=[d(j)])))
                out.append(('bytes before %s' % (k,), FA([j], z3.Implies(z3.And(j >= 0, B(j < v)), r[1](j) == hexvalue(d(2 * j)) * 16 + hexvalue(d(2 * j + 1))), pats=[r[1](j)])))
                out.append(('%s <= size / 2' % (k,), B(2 * v <= n)))
            return out
        e.invs.append(inv)
        res = h.run(pat, args)
        j = z3.Int('j_post')
        for s, v in res:
            rn, rb = h.result(s)
            e.oblige(s, 'an odd number of digits is refused', B(n % 2 == 0), 'post')
            e.oblige(s, 'other characters are refused', z3.Implies(z3.And(j >= 0, j < n), ishex(d(j))), 'post')
            e.oblige(s, 'one byte for two digits', B(2 * rn == n), 'post')
            e.oblige(s, 'byte j is the value of its two digits', z3.Implies(z3.And(j >= 0, j < n / 2), rb(j) == hexvalue(d(2 * j)) * 16 + hexvalue(d(2 * j + 1))), 'post')
        return h.done(res)
    return Task('hex2raw(%s)' % kind, t)


def t_unpackhex(ctx):
    h = H(ctx)
    e = h.e
    o, d = h.data(z3.IntVal(2))

    def refuse(eng, s):
        eng.oblige(s, 'only characters that are not hexadecimal are refused', z3.Not(z3.And(ishex(d(0)), ishex(d(1)))), 'assert')
    e.assert_ok = refuse
    res = h.run(r'^unpackhex\(', [Ptr(o, 0)], sret=False)
    for s, v in res:
        e.oblige(s, 'other characters are refused', z3.And(ishex(d(0)), ishex(d(1))), 'post')
        e.oblige(s, 'value of the two digits', B(v == hexvalue(d(0)) * 16 + hexvalue(d(1))), 'post')
    return h.done(res)


def bool_task(name, pat, pred, extra=None, two=False):
    """a function that tells whether every character satisfies pred"""
    def t(ctx):
        h = H(ctx)
        e, st = h.e, h.st
        so, n, d = str_param(e, st, 'text', LIM)
        e.invs.append(lambda V: all_before(V, d, n, pred, 'holds'))
        res = h.run(pat, [Ptr(so, 0)], sret=False)
        j, u = z3.Ints('j_post u_post')
        ex = extra(n) if extra else z3.BoolVal(True)
        for s, v in res:
            e.oblige(s, 'true only if it holds for every character', z3.Implies(B(v), z3.And(ex, z3.Implies(z3.And(j >= 0, j < n), pred(d(j))))), 'post')
            e.oblige(s, 'true if it holds for every character', z3.Implies(z3.Not(B(v)), z3.Not(z3.And(ex, FA([u], z3.Implies(z3.And(u >= 0, u < n), pred(d(u))), pats=[d(u)])))), 'post')
        return h.done(res)
    return Task(name, t)


def t_maybehex2raw(ctx):
    h = H(ctx)
    e, st = h.e, h.st
    so, n, d = str_param(e, st, 'text', LIM)

    def ishexs(eng, st, fn, args):
        k, f = str_bytes(eng, st, args[0])
        r = z3.Bool(eng.fresh_name('ishexstring'))
        u = z3.Int(eng.fresh_name('u'))
        st.assume(r == z3.And(k % 2 == 0, allhex(f, k)))
        st.assume(z3.Implies(z3.And(z3.Not(r), k % 2 == 0), z3.And(u >= 0, u < k, z3.Not(ishex(f(u))))))
        return r

    def raw(eng, st, fn, args):
        k, f = str_bytes(eng, st, args[1])
        eng.oblige(st, 'hex2raw is given hexadecimal text', z3.And(B(k % 2 == 0), allhex(f, k)), 'pre')
        str_set(eng, st, args[0], z3.simplify(k / 2), lambda j: hexvalue(f(2 * j)) * 16 + hexvalue(f(2 * j + 1)))
    e.contract(r'^ishexstring\(', ishexs)
    e.contract(r'^hex2raw\(std', raw)
    res = h.run(r'^maybehex2raw\(', [Ptr(so, 0)])
    j, x = z3.Ints('j_post x_post')
    u = z3.Int('nothex')
    for s, v in res:
        rn, rb = h.result(s)
        allh = z3.And(n % 2 == 0, allhex(d, n))
        e.oblige(s, 'hexadecimal text: its bytes', z3.Implies(allh, z3.And(2 * rn == n, z3.Implies(z3.And(j >= 0, j < n / 2), rb(j) == hexvalue(d(2 * j)) * 16 + hexvalue(d(2 * j + 1))))), 'post')
        other = z3.Or(n % 2 != 0, z3.And(u >= 0, u < n, z3.Not(ishex(d(u)))))
        e.oblige(s, 'other text: the text itself', z3.Implies(other, z3.And(B(rn == n), z3.Implies(z3.And(x >= 0, x < n), rb(x) == d(x)))), 'post')
    return h.done(res)


def t_prefix(name, at_end):
    def t(ctx):
        h = H(ctx)
        e, st = h.e, h.st
        so, n, d = str_param(e, st, 'text', LIM)
        po, k, p = str_param(e, st, 'part', LIM)
        res = h.run(r'^%s\(' % name, [Ptr(so, 0), Ptr(po, 0)], sret=False)
        j, u = z3.Ints('j_post u_post')
        at = (n - k) if at_end else z3.IntVal(0)
        for s, v in res:
            e.oblige(s, 'true only if the bytes agree', z3.Implies(B(v), z3.And(k <= n, z3.Implies(z3.And(j >= 0, j < k), d(at + j) == p(j)))), 'post')
            e.oblige(s, 'true if the bytes agree', z3.Implies(z3.Not(B(v)), z3.Not(z3.And(k <= n, FA([u], z3.Implies(z3.And(u >= 0, u < k), d(at + u) == p(u)), pats=[p(u)])))), 'post')
        return h.done(res)
    return Task(name, t)


def t_case(name, lo, hi, dlt):
    def t(ctx):
        h = H(ctx)
        e, st = h.e, h.st
        so, n, d = str_param(e, st, 'text', LIM)
        want = lambda c: z3.If(z3.And(c >= lo, c <= hi), c + dlt, c)

        def inv(V):
            r = h.live(V.st)
            out = []
            if r is None:
                return out
            j = z3.Int('j_inv')
            for k, v, w in ints(V):
                out.append(('converted before %s' % (k,), FA([j], z3.Implies(z3.And(j >= 0, j < n), r[1](j) == z3.If(B(j < v), want(d(j)), d(j))), pats=[r[1](j)])))
            return out
        e.invs.append(inv)
        res = h.run(r'^%s\(' % name, [Ptr(so, 0)])
        j = z3.Int('j_post')
        for s, v in res:
            rn, rb = h.result(s)
            e.oblige(s, 'same length', B(rn == n), 'post')
            e.oblige(s, 'letters converted, everything else as it was', z3.Implies(z3.And(j >= 0, j < n), rb(j) == want(d(j))), 'post')
        return h.done(res)
    return Task(name, t)

# ---- escapes: byte k of the input is written at position P(k), P(0) = 0, P(k+1) = P(k) + length of its code

MYSQL = {0: '0', 8: 'b', 9: 't', 10: 'n', 13: 'r', 26: 'Z', 34: '"', 39: "'", 92: '\\'}     # as MySQL documents its string literals
P = z3.Function('position', z3.IntSort(), z3.IntSort())


def mysql_code(c):
    """the letter behind the backslash, or 0"""
    r = z3.IntVal(0)
    for k, v in MYSQL.items():
        r = z3.If(c == k, ord(v), r)
    return r


class Code:
    """len(c): number of bytes written for byte c; at(c, k): byte k of them"""


class MysqlCode(Code):
    max = 2

    def len(self, c):
        return z3.If(mysql_code(c) != 0, 2, 1)

    def at(self, c, k):
        return (z3.If(mysql_code(c) != 0, 92, c), mysql_code(c))[k]


class PercentCode(Code):
    max = 3

    def plain(self, c):
        return z3.And(c >= 32, c < 127, c != 37)

    def len(self, c):
        return z3.If(self.plain(c), 1, z3.If(c == 37, 2, 3))

    def at(self, c, k):
        return (z3.If(self.plain(c), c, 37), z3.If(c == 37, 37, hexdigit(c / 16)), hexdigit(c % 16))[k]


class QuoteCode(Code):
    max = 2

    def len(self, c):
        return z3.If(c == 34, 2, 1)

    def at(self, c, k):
        return (c, z3.IntVal(34))[k]


def codes_inv(h, code, d, n, base=0):
    def inv(V):
        r = h.live(V.st)
        out = []
        j = z3.Int('j_inv')
        vs = [(k, B_int(v), B_int(v0)) for k, (v, v0, w) in sorted(V.ints.items(), key=lambda kv: str(kv[0])) if not isinstance(v, PInt)]
        vs += [(('p',) + tuple(str(x) for x in k), B_int(i), B_int(i0)) for k, (i, i0, c) in sorted(V.pidx.items(), key=lambda kv: str(kv[0]))]
        for k, v, v0 in vs:
            if getattr(V, 'at', 'head') == 'head':
                V.st.assume(P(v + 1) == P(v) + code.len(d(v)))
            out.append(('%s <= size' % (k,), B(v <= n)))
            for k2, v2, w2 in ints(V):
                if k2 != k:
                    out.append(('%s <= %s' % (k2, k), B(v2 <= v)))
            # the bytes since the loop began are written as they are
            out.append(('plain since %s' % (k,), FA([j], z3.Implies(z3.And(j >= v0, j < v), code.len(d(j)) == 1), pats=[d(j)])))
            out.append(('positions since %s' % (k,), FA([j], z3.Implies(z3.And(j >= v0, j <= v), P(j) == P(v0) + j - v0), pats=[P(j)])))
            if r is None:
                continue
            rn, rb = r
            out.append(('length for %s' % (k,), B(rn == P(v) + base)))
            out.append(('positions before %s' % (k,), FA([j], z3.Implies(z3.And(j >= 0, j < v), z3.And(P(j) >= 0, P(j) + code.len(d(j)) <= P(v))), pats=[d(j)])))
            for z in range(code.max):
                out.append(('code byte %d before %s' % (z, k), FA([j], z3.Implies(z3.And(j >= 0, j < v, z < code.len(d(j))), rb(P(j) + base + z) == code.at(d(j), z)), pats=[d(j)])))
        return out
    return inv


def codes_post(e, s, code, rn, rb, d, n, base=0, tail=0):
    j = z3.Int('j_post')
    e.oblige(s, 'length is the sum of the lengths of the codes', B(rn == P(n) + base + tail), 'post')
    for k in range(code.max):
        e.oblige(s, 'code of byte j at its position (%d)' % k, z3.Implies(z3.And(j >= 0, j < n, k < code.len(d(j))), rb(P(j) + base + k) == code.at(d(j), k)), 'post')


def t_mysql(ctx):
    h = H(ctx)
    n = z3.Int('size')
    h.st.assume(z3.And(n >= 0, n < LIM, P(0) == 0))
    o, d = h.data(n)
    h.e.invs.append(codes_inv(h, MysqlCode(), d, n))
    res = h.run(r'^mysqlEscape\[abi:cxx11\]\(', [Ptr(o, 0), n])
    for s, v in res:
        rn, rb = h.result(s)
        codes_post(h.e, s, MysqlCode(), rn, rb, d, n)
    return h.done(res)


def t_escape(name):
    return Task(name, lambda ctx: escape(ctx, name))


def escape(ctx, name):
    h = H(ctx)
    so, n, d = str_param(h.e, h.st, 'text', LIM)
    h.st.assume(P(0) == 0)
    h.e.invs.append(codes_inv(h, PercentCode(), d, n))
    res = h.run(r'^%s\(' % name, [Ptr(so, 0)])
    for s, v in res:
        rn, rb = h.result(s)
        codes_post(h.e, s, PercentCode(), rn, rb, d, n)
    return h.done(res)

def prefix_lemma(name, code, ok=lambda c: z3.BoolVal(True)):
    """the codes of different bytes differ and none is the beginning of another one: the text can be read back"""
    def t(ctx):
        e, st = Engine(ctx['mods']['strutil'], 'int', {}), State()
        a, b = z3.Ints('a b')
        st.assume(z3.And(a >= 0, a < 256, b >= 0, b < 256))
        same = [z3.Implies(z3.And(k < code.len(a), k < code.len(b)), code.at(a, k) == code.at(b, k)) for k in range(code.max)]
        e.oblige(st, 'codes that agree as far as both go are codes of the same byte', z3.Implies(z3.And(*same), a == b), 'lemma')
        for k in range(code.max):
            e.oblige(st, 'byte %d of a code is allowed in the output' % k, z3.Implies(k < code.len(a), ok(code.at(a, k))), 'lemma')
        e.oblige(st, 'every byte has a code', z3.And(code.len(a) >= 1, code.len(a) <= code.max), 'lemma')
        e.returns = 1
        return e
    return Task('lemma: ' + name, t)


def special(c):
    return z3.Or(c == 44, c == 34, c == 13, c == 10)


def run_positions(code, d, a, b):
    """lemma 'bytes that are written as they are': if all bytes from a to b are, then P(k) = P(a) + k - a"""
    j, k = z3.Ints('j_run k_run')
    return z3.Implies(FA([j], z3.Implies(z3.And(j >= a, j < b), code.len(d(j)) == 1), pats=[d(j)]),
                      FA([k], z3.Implies(z3.And(k >= a, k <= b), P(k) == P(a) + k - a), pats=[P(k)]))


def t_run_lemma(ctx):
    e, st = Engine(ctx['mods']['strutil'], 'int', {}), State()
    D = z3.Array('D', z3.IntSort(), z3.IntSort())
    d = lambda k: z3.Select(D, k)
    code = QuoteCode()
    a, b, k = z3.Ints('a b k')
    j = z3.Int('j')
    st.assume(FA([j], z3.Implies(z3.And(j >= a, j < b), code.len(d(j)) == 1), pats=[d(j)]))
    st.assume(P(k + 1) == P(k) + code.len(d(k)))
    e.oblige(st, 'at the first byte', P(a) == P(a) + a - a, 'lemma')
    e.oblige(st, 'from a byte to the next', z3.Implies(z3.And(k >= a, k < b, P(k) == P(a) + k - a), P(k + 1) == P(a) + k + 1 - a), 'lemma')
    e.returns = 1
    return e


def t_csv(ctx):
    h = H(ctx)
    e, st = h.e, h.st
    so, n, d = str_param(e, st, 'text', LIM)
    st.assume(P(0) == 0)
    code = QuoteCode()

    def define(st, k):
        st.assume(P(k + 1) == P(k) + code.len(d(k)))

    def found(eng, s, what, pos, r):
        if what.obj is not h.ret:
            return
        rn, rb = h.result(s)
        i = n - (rn - pos)
        z = n if not is_sym(r) else i + (r - pos)
        s.assume(run_positions(code, d, i, z))
        define(s, z)
    e.opts['find_hook'] = found

    def inv(V):
        r = h.live(V.st)
        if r is None:
            return []
        rn, rb = r
        out = [('the first character is a quote', B(rb(0) == 34))]
        j = z3.Int('j_inv')
        for k, v, w in ints(V):
            v = B_int(v)
            i = n - (rn - v)
            if getattr(V, 'at', 'head') == 'head':
                define(V.st, i)
            out.append(('%s within the text' % (k,), z3.And(i >= 0, i <= n)))
            out.append(('%s is a position' % (k,), v == P(i) + 1))
            out.append(('rest behind %s' % (k,), FA([j], z3.Implies(z3.And(j >= v, j < rn), rb(j) == d(j - v + i)), pats=[rb(j)])))
            out.append(('rest of the text behind %s' % (k,), FA([j], z3.Implies(z3.And(j >= i, j < n), rb(j - i + v) == d(j)), pats=[d(j)])))
            out.append(('positions before %s' % (k,), FA([j], z3.Implies(z3.And(j >= 0, j < i), z3.And(P(j) >= 0, P(j) + code.len(d(j)) <= P(i))), pats=[d(j)])))
            for z in range(code.max):
                out.append(('code byte %d before %s' % (z, k), FA([j], z3.Implies(z3.And(j >= 0, j < i, z < code.len(d(j))), rb(P(j) + 1 + z) == code.at(d(j), z)), pats=[d(j)])))
        return out
    e.invs.append(inv)
    res = h.run(r'^toCSVform\(', [Ptr(so, 0)])
    j, u, x = z3.Ints('j_post u_post x_post')
    for s, v in res:
        rn, rb = h.result(s)
        none = FA([u], z3.Implies(z3.And(u >= 0, u < n), z3.Not(special(d(u)))), pats=[d(u)])
        w = z3.Int('special')
        some = z3.And(w >= 0, w < n, special(d(w)))
        e.oblige(s, 'nothing special: the text itself', z3.Implies(none, z3.And(B(rn == n), z3.Implies(z3.And(x >= 0, x < n), rb(x) == d(x)))), 'post')
        e.oblige(s, 'quoted: the length is the sum of the lengths of the codes and two quotes', z3.Implies(some, rn == P(n) + 2), 'post')
        e.oblige(s, 'quoted: a quote in front', z3.Implies(some, rb(0) == 34), 'post')
        e.oblige(s, 'quoted: a quote behind', z3.Implies(some, rb(P(n) + 1) == 34), 'post')
        for k in range(code.max):
            e.oblige(s, 'quoted: code of byte j at its position (%d)' % k, z3.Implies(z3.And(some, j >= 0, j < n, k < code.len(d(j))), rb(P(j) + 1 + k) == code.at(d(j), k)), 'post')
    return h.done(res)


# ---- split and join

FIRST = z3.Function('first', z3.IntSort(), z3.IntSort())   # smallest position >= p where the separator occurs, or -1
Q = z3.Function('begin', z3.IntSort(), z3.IntSort())       # where piece t begins: 0, then behind the separator that follows
R = z3.Function('offset', z3.IntSort(), z3.IntSort())      # where element t begins in the joined text
SLIM = 1 << 40


def first_def(p, n, k):
    f = FIRST(p)
    return z3.Or(f == -1, z3.And(f >= p, f + k <= n))


class Strings:
    """a vector of strings"""

    def __init__(self, h, name, const=False):
        self.h = h
        self.T = string_vector(h.e)
        e, st = h.e, h.st
        self.o = Obj(name, 'param', 24)
        self.n = n = z3.Int(name + '.size')
        cap = z3.Int(name + '.capacity')
        st.assume(z3.And(n >= 0, n <= cap, cap < 1 << 58))
        self.b = Obj(name + '.elements', 'heap', cap * 32, stride=32, count=cap)
        self.b.tags.update(self.T.tags)
        stdvec.vec_set(st, self.o, 0, Ptr(self.b, 0), n, cap)
        e.opts['objects'] = list(e.opts['objects']) + [self.b]
        st.allocs.append(self.b)
        self.l0, self.s0 = e.getghost(st, self.b, 'slen'), e.getghost(st, self.b, 'sbytes')
        j = z3.Int('j_' + name)
        st.assume(FA([j], z3.And(z3.Select(self.l0, j) >= 0, z3.Select(self.l0, j) < SLIM), pats=[z3.Select(self.l0, j)]))

    def at(self, st):
        p, n, c = stdvec.vec_state(st, self.o, 0)
        e = self.h.e
        if p.obj is None:
            return n, None, None
        L, S = e.getghost(st, p.obj, 'slen'), e.getghost(st, p.obj, 'sbytes')
        return n, (lambda i: z3.Select(L, i)), (lambda i, j: z3.Select(z3.Select(S, i), j))


def t_split(ctx):
    h = H(ctx)
    e, st = h.e, h.st
    so, n, d = str_param(e, st, 'text', SLIM)
    po, k, sep = str_param(e, st, 'separator', SLIM)
    v = Strings(h, 'bits')
    m0 = v.n

    def refuse(eng, s):
        eng.oblige(s, 'only an empty separator is refused', k == 0, 'assert')
    e.assert_ok = refuse
    st.assume(Q(0) == 0)

    def find(eng, st, fn, args):
        if args[0].obj is not so or args[1].obj is not po:
            raise Unsupported('find of another string')
        p = B_int(args[2])
        eng.oblige(st, 'the search begins inside the text', p <= n, 'pre')
        st.assume(first_def(p, n, k))
        s1, s2 = st.copy(), st
        s1.assume(FIRST(p) >= 0)
        s2.assume(FIRST(p) == -1)
        return [(s1, FIRST(p)), (s2, (1 << 64) - 1)]
    e.contract(r'^%s::find\(%s const&, unsigned long\) const$' % (SN, SN), find)

    def pieces(V, s, c, upto):
        """the first c pieces"""
        nn, L, S = v.at(s)
        if L is None:
            return []
        x, y = z3.Ints('x_inv y_inv')
        return [('%s%s' % (nm, upto), FA([x], z3.Implies(z3.And(x >= 0, x < c), g), pats=[Q(x)])) for nm, g in
                (('pieces begin in the text', Q(x) >= 0), ('pieces end before a separator', FIRST(Q(x)) >= Q(x)), ('separators are in the text', FIRST(Q(x)) + k <= n))] + [
                ('length of the pieces%s' % upto, FA([x], z3.Implies(z3.And(x >= m0, x < m0 + c), L(x) == FIRST(Q(x - m0)) - Q(x - m0)), pats=[L(x)])),
                ('begin of the next piece%s' % upto, FA([x], z3.Implies(z3.And(x >= 0, x < c), Q(x + 1) == FIRST(Q(x)) + k), pats=[Q(x)])),
                ('bytes of the pieces%s' % upto, FA([x, y], z3.Implies(z3.And(x >= m0, x < m0 + c, y >= 0, y < L(x)), S(x, y) == d(Q(x - m0) + y)), pats=[S(x, y)])),
                ('earlier elements stay%s' % upto, FA([x], z3.Implies(z3.And(x >= 0, x < m0), L(x) == z3.Select(v.l0, x)), pats=[L(x)])),
                ('bytes of earlier elements stay%s' % upto, FA([x, y], z3.Implies(z3.And(x >= 0, x < m0), S(x, y) == z3.Select(z3.Select(v.s0, x), y)), pats=[S(x, y)]))]

    def inv(V):
        nn, L, S = v.at(V.st)
        nn = B_int(nn)
        p, _, cap = stdvec.vec_state(V.st, v.o, 0)
        out = [('number of pieces', nn >= m0), ('elements fit', B(nn <= p.obj.count) if p.obj is not None else None), ('capacity', B(p.obj.count == cap) if p.obj is not None else None)]
        if getattr(V, 'at', 'head') == 'head':
            V.st.assume(z3.Implies(FIRST(Q(nn - m0)) >= 0, Q(nn - m0 + 1) == FIRST(Q(nn - m0)) + k))
        for key, val, w in ints(V):
            val = B_int(val)
            out.append(('%s is the begin of a piece' % (key,), val == Q(nn - m0)))
            out.append(('%s <= size' % (key,), val <= n))
        out.append(('begin >= 0', Q(nn - m0) >= 0))
        return out + pieces(V, V.st, nn - m0, '')
    e.invs.append(inv)
    res = h.run(r'^split\(', [Ptr(so, 0), Ptr(po, 0), Ptr(v.o, 0)], sret=False)
    x, y = z3.Ints('x_post y_post')
    for s, _ in res:
        nn, L, S = v.at(s)
        c = nn - m0
        e.oblige(s, 'an empty separator is refused', k > 0, 'post')
        e.oblige(s, 'at least one piece', c >= 1, 'post')
        e.oblige(s, 'every piece but the last ends where the separator begins', z3.Implies(z3.And(x >= 0, x < c - 1), z3.And(FIRST(Q(x)) >= Q(x), L(m0 + x) == FIRST(Q(x)) - Q(x))), 'post')
        e.oblige(s, 'the next piece begins behind the separator', z3.Implies(z3.And(x >= 0, x < c - 1), Q(x + 1) == FIRST(Q(x)) + k), 'post')
        e.oblige(s, 'no separator behind the last piece', FIRST(Q(c - 1)) == -1, 'post')
        e.oblige(s, 'the last piece ends with the text', L(m0 + c - 1) == n - Q(c - 1), 'post')
        e.oblige(s, 'bytes of the pieces', z3.Implies(z3.And(x >= 0, x < c, y >= 0, y < L(m0 + x)), S(m0 + x, y) == d(Q(x) + y)), 'post')
        e.oblige(s, 'earlier elements stay', z3.Implies(z3.And(x >= 0, x < m0), z3.And(L(x) == z3.Select(v.l0, x), S(x, y) == z3.Select(z3.Select(v.s0, x), y))), 'post')
    return h.done(res)


def t_join(ctx):
    h = H(ctx)
    e, st = h.e, h.st
    po, k, sep = str_param(e, st, 'separator', 1 << 31)
    v = Strings(h, 'bits')
    n = v.n
    L0, S0 = (lambda i: z3.Select(v.l0, i)), (lambda i, j: z3.Select(z3.Select(v.s0, i), j))
    st.assume(R(0) == 0)

    def define(s, t):
        # R(t): where element t begins; behind the last element there is no separator
        s.assume(R(t + 1) == R(t) + L0(t) + k)

    def inv(V):
        r = h.live(V.st)
        out = []
        x, y = z3.Ints('x_inv y_inv')
        vs = [(kk, B_int(a)) for kk, a, w in ints(V)] + [(('p',) + tuple(str(q) for q in kk), B_int(i)) for kk, (i, i0, c) in sorted(V.pidx.items(), key=lambda z: str(z[0]))]
        for kk, a in vs:
            out.append(('%s <= size' % (kk,), a <= n))
            if r is None:
                continue
            rn, rb = r
            if getattr(V, 'at', 'head') == 'head':
                define(V.st, a)
                define(V.st, a - 1)
            out.append(('length at %s' % (kk,), B_int(rn) == z3.If(a == 0, 0, R(a) - k)))
            out.append(('offsets before %s' % (kk,), FA([x], z3.Implies(z3.And(x >= 0, x < a), z3.And(R(x) >= 0, R(x) + L0(x) + k <= R(a))), pats=[L0(x)])))
            out.append(('offsets before the last element before %s' % (kk,), FA([x], z3.Implies(z3.And(x >= 0, x < a - 1), R(x) + L0(x) + k <= R(a - 1)), pats=[L0(x)])))
            out.append(('last element before %s' % (kk,), z3.Implies(a > 0, R(a) == R(a - 1) + L0(a - 1) + k)))
            out.append(('elements before %s' % (kk,), FA([x, y], z3.Implies(z3.And(x >= 0, x < a, y >= 0, y < L0(x)), rb(R(x) + y) == S0(x, y)), pats=[S0(x, y)])))
            out.append(('separators before %s' % (kk,), FA([x, y], z3.Implies(z3.And(x >= 0, x < a - 1, y >= 0, y < k), rb(R(x) + L0(x) + y) == sep(y)), pats=[z3.MultiPattern(L0(x), sep(y))])))
        return out
    e.invs.append(inv)
    res = h.run(r'^join\(', [Ptr(po, 0), Ptr(v.o, 0)])
    x, y = z3.Ints('x_post y_post')
    for s, _ in res:
        rn, rb = h.result(s)
        e.oblige(s, 'no elements: the empty text', z3.Implies(n == 0, B(rn == 0)), 'post')
        e.oblige(s, 'length', z3.Implies(n > 0, B(rn == R(n) - k)), 'post')
        e.oblige(s, 'bytes of the elements', z3.Implies(z3.And(x >= 0, x < n, y >= 0, y < L0(x)), rb(R(x) + y) == S0(x, y)), 'post')
        e.oblige(s, 'separators between them', z3.Implies(z3.And(x >= 0, x < n - 1, y >= 0, y < k), rb(R(x) + L0(x) + y) == sep(y)), 'post')
    return h.done(res)


def t_splitjoin(ctx):
    """lemma over the contracts: joining what split made gives the text"""
    e, st = Engine(ctx['mods']['strutil'], 'int', {}), State()
    I, A = z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort())
    dm, sm, rm = z3.Array('text', I, I), z3.Array('sep', I, I), z3.Array('joined', I, I)
    L = z3.Array('L', I, I)
    d, sep, rb, ln = (lambda m: (lambda i: z3.Select(m, i)))(dm), (lambda i: z3.Select(sm, i)), (lambda i: z3.Select(rm, i)), (lambda i: z3.Select(L, i))
    n, k, c, t, rn = z3.Ints('n k c t rn')
    x, y, z = z3.Ints('x y z')
    st.assume(z3.And(n >= 0, k > 0, c >= 1, Q(0) == 0, R(0) == 0, t >= 0, t < c))
    st.assume(FA([y], z3.Implies(z3.And(FIRST(y) >= 0, z >= 0, z < k), d(FIRST(y) + z) == sep(z)), pats=[FIRST(y)]) if False else
              FA([y, z], z3.Implies(z3.And(FIRST(y) >= 0, z >= 0, z < k), d(FIRST(y) + z) == sep(z)), pats=[z3.MultiPattern(FIRST(y), sep(z))]))
    # split
    st.assume(z3.Implies(t < c - 1, z3.And(FIRST(Q(t)) >= Q(t), ln(t) == FIRST(Q(t)) - Q(t), Q(t + 1) == FIRST(Q(t)) + k)))
    st.assume(z3.Implies(t == c - 1, z3.And(FIRST(Q(t)) == -1, ln(t) == n - Q(t))))
    # join of the pieces (bytes of piece t are the bytes of the text from Q(t))
    st.assume(R(t + 1) == R(t) + ln(t) + k)
    st.assume(FA([y], z3.Implies(z3.And(y >= 0, y < ln(t)), rb(R(t) + y) == d(Q(t) + y)), pats=[rb(R(t) + y)]))
    st.assume(FA([y], z3.Implies(z3.And(y >= 0, y < k, t < c - 1), rb(R(t) + ln(t) + y) == sep(y)), pats=[sep(y)]))
    st.assume(rn == R(c) - k)
    # induction over the pieces
    same = lambda upto: FA([x], z3.Implies(z3.And(x >= 0, x < upto), rb(x) == d(x)), pats=[rb(x)])
    e.oblige(st, 'the first element is at the begin of the first piece', R(0) == Q(0), 'lemma')
    s = st.copy()
    s.assume(z3.And(R(t) == Q(t), same(Q(t))))
    e.oblige(s, 'the next element is at the begin of the next piece', z3.Implies(t < c - 1, R(t + 1) == Q(t + 1)), 'lemma')
    p = z3.Int('p')
    y0 = p - Q(t)
    s.assume(z3.Implies(z3.And(y0 >= 0, y0 < ln(t)), rb(R(t) + y0) == d(Q(t) + y0)))
    w = p - Q(t) - ln(t)
    s.assume(z3.Implies(z3.And(w >= 0, w < k, t < c - 1), z3.And(rb(R(t) + ln(t) + w) == sep(w), d(FIRST(Q(t)) + w) == sep(w))))
    e.oblige(s, 'the bytes up to the next piece agree', z3.Implies(z3.And(t < c - 1, p >= 0, p < Q(t + 1)), rb(p) == d(p)), 'lemma')
    e.oblige(s, 'the last piece: the whole text', z3.Implies(z3.And(t == c - 1), z3.And(rn == n, z3.Implies(z3.And(p >= 0, p < n), rb(p) == d(p)))), 'lemma')
    e.returns = 1
    return e


def t_todouble(ctx):
    h = H(ctx)
    e, st = h.e, h.st
    so, n, d = str_param(e, st, 'text', SLIM)
    used, val = z3.Int('parsed'), e.fresh_fp('strtod', 64)

    def strtod(eng, st, fn, args):
        p, endp = args
        o, nn = str_state(st, so)
        eng.oblige(st, 'strtod is given the text', p.obj is o and not is_sym(p.off) and p.off == 0, 'pre')
        z = cstr_len(eng, st, p, 'strtod')
        st.assume(z3.And(used >= 0, B(used <= z)))
        eng.store(st, endp, Ptr(p.obj, used), PTR)
        return val
    e.contract(r'^strtod$', strtod)
    e.assumptions.add('strtod parses a prefix of the zero-terminated text and stores its end (ISO C)')
    # bytes before the first zero
    def refuse(eng, s):
        eng.oblige(s, 'only text that strtod does not parse to its end is refused', z3.Or(n == 0, used != n), 'assert')
    e.assert_ok = refuse
    res = h.run(r'^stringToDouble\(', [Ptr(so, 0)], sret=False)
    for s, v in res:
        e.oblige(s, 'the whole text was parsed', z3.And(n > 0, used == n), 'post')
        e.oblige(s, 'the value is the one strtod gives', v == val if is_sym(v) else False, 'post')
    return h.done(res)


TASKS = [Task('split', t_split), Task('join', t_join), Task('lemma: join of split', t_splitjoin), Task('stringToDouble', t_todouble), prefix_lemma('toCSVform can be read back', QuoteCode()),
         prefix_lemma('mysqlEscape can be read back', MysqlCode(), lambda c: z3.And(c != 0, c != 10, c != 13, c != 26)), prefix_lemma('escapeUnprintable can be read back', PercentCode(), CTYPE['isprint']),
         Task('lemma: bytes that are written as they are', t_run_lemma), Task('toCSVform', t_csv), Task('mysqlEscape', t_mysql), t_escape('escapeUnprintable'), t_escape('htmlEscapeUnprintable'), Task('hexstring', t_hexstring), t_maybehex('data'), t_maybehex('string'), Task('unpackhex', t_unpackhex), t_hex2raw('data'), t_hex2raw('string'),
         bool_task('ishexstring', r'^ishexstring\(', ishex, lambda n: n % 2 == 0), Task('maybehex2raw', t_maybehex2raw),
         bool_task('stringIsBlank', r'^stringIsBlank\(', CTYPE['isblank']), bool_task('stringIsSpace', r'^stringIsSpace\(', CTYPE['isspace']),
         t_prefix('prefixequal', False), t_prefix('suffixequal', True), t_case('downcaseString', 65, 90, 32), t_case('upcaseString', 97, 122, -32)]

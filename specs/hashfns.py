"""Contracts of the hash functions: the value is the published Bob Jenkins function of the key's bytes
and its length only (not of address, alignment or bytes beyond the key); integral, pointer, pair, string
and user-defined hashes are that function of the key value."""
import z3
import vc
from vc import *
from lib import *
from runner import Task

DRIVERS = {'hashfns': ['drivers/hashfns.cpp']}
BV32, BV64 = z3.BitVecSort(32), z3.BitVecSort(64)
S = [z3.Function('jenkins_' + n, BV64, BV32) for n in 'abc']
M = z3.Function('block_boundary', BV64, z3.BoolSort())
FIN = z3.Function('jenkins_hash', z3.ArraySort(BV64, z3.BitVecSort(8)), BV64, BV64, BV32, BV32)   # bytes, from, length, initial value
UH = z3.Function('user_hash', BV32, BV32)


def b64(v):
    return z3.BitVecVal(v, 64)


def mix(a, b, c):
    """the published mixing step"""
    L = z3.LShR
    a = a - b - c ^ L(c, 13)
    b = b - c - a ^ (a << 8)
    c = c - a - b ^ L(b, 13)
    a = a - b - c ^ L(c, 12)
    b = b - c - a ^ (a << 16)
    c = c - a - b ^ L(b, 5)
    a = a - b - c ^ L(c, 3)
    b = b - c - a ^ (a << 10)
    c = c - a - b ^ L(b, 15)
    return a, b, c


def word(A, off, k, n=4):
    return z3.Concat(*[z3.Select(A, off + k + j) if j < n else z3.BitVecVal(0, 8) for j in (3, 2, 1, 0)])


class HF:
    def __init__(self, ctx):
        self.mod = ctx['mods']['hashfns']
        vc.SUBST = True
        e = self.e = Engine(self.mod, 'bv', dict(max_paths=20000))
        std_contracts(e)
        self.st = State()

    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(pat, f.dname) and not f.decl]
        if not fs:
            raise Unsupported('function %s not found' % pat)
        return fs[0]

    def key(self, n):
        o = Obj('key', 'param', n, stride=1, count=n)
        o.const = True
        return o, self.e.getmap(self.st, o, 0, I8)


def t_jenkins(ctx):
    h = HF(ctx)
    e, st = h.e, h.st
    n, init, last = z3.BitVec('length', 64), z3.BitVec('initval', 32), z3.BitVec('last', 64)
    st.assume(z3.ULT(n, 1 << 47))
    o, A = h.key(n)
    n32 = z3.Extract(31, 0, n)
    len32 = z3.ZeroExt(32, n32)
    # ghost recursion over whole blocks of 12 bytes
    st.assume(z3.And(S[0](b64(0)) == 0x9e3779b9, S[1](b64(0)) == 0x9e3779b9, S[2](b64(0)) == init, M(b64(0))))
    # the last block boundary
    st.assume(z3.And(M(last), z3.ULE(last, len32), z3.ULT(len32 - last, 12)))

    def step(off):
        nxt = mix(S[0](off) + word(A, off, 0), S[1](off) + word(A, off, 4), S[2](off) + word(A, off, 8))
        return z3.Implies(z3.And(M(off), z3.ULE(off, len32), z3.UGE(len32 - off, 12)),
                          z3.And(M(off + 12), *[S[k](off + 12) == nxt[k] for k in range(3)]))

    def unique(off):
        # block boundaries are the multiples of 12
        return z3.Implies(z3.And(M(off), z3.Or(z3.ULT(off - last, 12), z3.ULT(last - off, 12))), off == last)
    st.assume(unique(b64(0)))

    def offsets(L):
        offs = []
        for k, (v, v0, w) in sorted(L.ints.items(), key=lambda kv: str(kv[0])):
            if isinstance(v, PInt) or v is UNDEF or w not in (32, 64):
                continue
            x = z3.simplify(e.bv(v, w))
            x = z3.ZeroExt(32, x) if w == 32 else x
            x0 = z3.ZeroExt(32, e.bv(v0, w)) if w == 32 else e.bv(v0, w)
            offs.append(('%s' % (k,), x, x0))
            offs.append(('len-%s' % (k,), z3.simplify(len32 - x), len32 - x0))
        for k, (i, i0, c) in sorted(L.pidx.items(), key=lambda kv: str(kv[0])):
            offs.append(('p%s' % (k,), e.bv(i, 64), e.bv(i0, 64)))
        # a loop that does not start at the first byte is no block loop
        return [(n, x) for n, x, x0 in offs if z3.is_bv_value(z3.simplify(x0)) and z3.simplify(x0).as_long() == 0]

    def inv(L):
        at = getattr(L, 'at', 'head')
        out = []
        offs = offsets(L)
        pairs = [(a, b) for a, b in itertools.combinations(offs, 2)]
        for (an, a), (bn, b) in pairs:
            out.append(('%s == %s' % (an, bn), a == b))
        head = dict(offsets(L.head)) if at == 'back' else {}
        for on, x in offs:
            facts = lambda g: z3.Implies(step(head[on]), g) if at == 'back' else g
            if at == 'back':
                # the premise of the recursion is settled first, so that its equations can be used
                pre = step(head[on]).children()
                if quick_prove(L.st.pc, pre[0], 400000, 5000):
                    facts = lambda g: z3.Implies(pre[1], g)
            out.append(('%s is a block boundary' % on, facts(z3.And(M(x), z3.ULE(x, len32)))))
            for k, (v, v0, w) in sorted(L.ints.items(), key=lambda kv: str(kv[0])):
                if w != 32 or isinstance(v, PInt) or v is UNDEF:
                    continue
                for j in range(3):
                    if at == 'entry' and not z3.is_true(z3.simplify(e.bv(v, 32) == (init if j == 2 else 0x9e3779b9))):
                        continue
                    out.append(('%s is state %s at %s' % (k, 'abc'[j], on), facts(e.bv(v, 32) == S[j](x))))
            if at == 'head':
                L.st.assume(unique(x))
        return out
    e.invs = [inv]
    f = h.fn(r'^lintel::bobJenkinsHash\(')
    r = e.run(f, [init, Ptr(o, 0), n], st)
    for s, v in r:
        ends = {}
        stack = list(s.pc)
        while stack:
            x = stack.pop()
            if z3.is_app(x) and x.decl().eq(S[0]):
                ends[x.arg(0).get_id()] = x.arg(0)
            stack += x.children()
        for x in ends.values():
            if not x.eq(last) and quick_prove(s.pc, x == last, 400000, 5000):
                e.oblige(s, 'the loop ends at the last block boundary', x == last, 'lemma')
                s.assume(last == x)
                break
        for rest in range(12):
            here = len32 - last == rest
            if quick_prove(s.pc, z3.Not(here), 400000, 5000):
                continue
            a, b, c = S[0](last), S[1](last), S[2](last) + n32
            for k in range(rest):
                x = z3.ZeroExt(24, z3.Select(A, last + k))
                if k < 4:
                    a = a + (x << 8 * k)
                elif k < 8:
                    b = b + (x << 8 * (k - 4))
                else:
                    c = c + (x << 8 * (k - 7))     # the first byte of c is reserved for the length
            t = s.copy()
            if not quick_prove(s.pc, here, 400000, 5000):
                t.assume(here)
            e.oblige(t, 'the value is the published function of the bytes and the length (%d bytes after the last block)' % rest, e.bv(v, 32) == mix(a, b, c)[2], 'post')
    e.returns = len(r)
    return e


def jenkins_contract(h):
    """callers see bobJenkinsHash as a function of the bytes it is given"""
    def c(eng, st, fn, args):
        init, p, n = args
        n = eng.bv(n, 64)
        eng.in_bounds_range(st, p, n, 'hashed bytes')
        if p.obj.stride == 1:
            A, off = eng.getmap(st, p.obj, 0, I8), eng.bv(p.off, 64)
        else:
            if is_sym(p.off):
                raise Unsupported('hash of bytes at a symbolic offset of %s' % p.obj)
            k = z3.simplify(n)
            if not z3.is_bv_value(k):
                raise Unsupported('hash of a symbolic number of bytes of %s' % p.obj)
            bs = eng.cell_bytes(st, p.obj, p.off, k.as_long())
            A = z3.K(BV64, z3.BitVecVal(0, 8))
            for i, x in enumerate(bs):
                A = z3.Store(A, b64(i), eng.bv(x, 8))
            off = b64(0)
        return FIN(A, off, n, eng.bv(init, 32))
    h.e.contract(r'^lintel::bobJenkinsHash\(', c)
    h.e.assumptions.add('')
    h.e.assumptions.discard('')


def t_mix(ctx):
    h = HF(ctx)
    e = h.e
    a, b, c = z3.BitVecs('a b c', 32)
    r = e.run(h.fn(r'^lintel::BobJenkinsHashMix3\('), [a, b, c], h.st)
    for s, v in r:
        e.oblige(s, 'the published mixing step', e.bv(v, 32) == mix(a, b, c)[2], 'post')
    e.returns = len(r)
    return e


def t_mixull(ctx):
    h = HF(ctx)
    e = h.e
    v, p = z3.BitVec('v', 64), z3.BitVec('p', 32)
    r = e.run(h.fn(r'^lintel::BobJenkinsHashMixULL\('), [v, p], h.st)
    for s, x in r:
        e.oblige(s, 'mixes low half, high half and the partial hash', e.bv(x, 32) == mix(z3.Extract(31, 0, v), z3.Extract(63, 32, v), p)[2], 'post')
    e.returns = len(r)
    return e


def t_int(name, w, signed):
    def go(ctx):
        h = HF(ctx)
        e = h.e
        o = Obj('key', 'param', w // 8)
        x = z3.BitVec('x', w)
        setcell(h.st, o, 0, IntTy(w), x)
        r = e.run(h.fn('^%s$' % name), [Ptr(o, 0)], h.st)
        for s, v in r:
            want = mix(z3.Extract(31, 0, x), z3.Extract(63, 32, x), z3.BitVecVal(1972, 32))[2] if w == 64 else x if w == 32 else z3.ZeroExt(32 - w, x)
            e.oblige(s, 'hash of the value alone', e.bv(v, 32) == want, 'post')
        e.returns = len(r)
        return e
    return go


def t_ptr(ctx):
    h = HF(ctx)
    e = h.e
    o = Obj('target', 'param', b64(4))
    r = e.run(h.fn('^hash_ptr$'), [Ptr(o, 0)], h.st)
    for s, v in r:
        x = e.base(o)
        e.oblige(s, 'hash of the address alone', e.bv(v, 32) == mix(z3.Extract(31, 0, x), z3.Extract(63, 32, x), z3.BitVecVal(1972, 32))[2], 'post')
    e.returns = len(r)
    return e


def t_bytes(ctx):
    h = HF(ctx)
    e, st = h.e, h.st
    jenkins_contract(h)
    n, init = z3.BitVec('n', 64), z3.BitVec('prev', 32)
    o, A = h.key(n)
    r = e.run(h.fn(r'^lintel::hashBytes\('), [Ptr(o, 0), n, init], st)
    for s, v in r:
        e.oblige(s, 'the byte hash of exactly the given bytes', e.bv(v, 32) == FIN(A, b64(0), n, init), 'post')
    e.returns = len(r)
    return e


def t_string(ctx):
    h = HF(ctx)
    e, st = h.e, h.st
    jenkins_contract(h)
    n = z3.BitVec('n', 64)
    o, A = h.key(n + 1)
    s0 = Obj('string', 'param', 32)
    e.contract(r'^std::__cxx11::basic_string<char.*>::(data|c_str)\(\) const$', lambda eng, st, fn, a: Ptr(o, 0))
    e.contract(r'^std::__cxx11::basic_string<char.*>::(length|size)\(\) const$', lambda eng, st, fn, a: n)
    e.assumptions.add('std::string: data() points to length() characters followed by a NUL')
    st.assume(z3.ULT(n, 1 << 47))
    r = e.run(h.fn('^hash_string$'), [Ptr(s0, 0)], st)
    for s, v in r:
        e.oblige(s, 'the byte hash of all characters of the string, embedded NULs included', e.bv(v, 32) == FIN(A, b64(0), n, z3.BitVecVal(1972, 32)), 'post')
    e.returns = len(r)
    return e


def t_cstr(ctx):
    h = HF(ctx)
    e, st = h.e, h.st
    jenkins_contract(h)
    n = z3.BitVec('n', 64)
    o, A = h.key(n + 1)
    e.contract(r'^strlen$', lambda eng, st, fn, a: n)
    e.assumptions.add('strlen: number of characters before the first NUL')
    st.assume(z3.ULT(n, 1 << 47))
    r = e.run(h.fn('^hash_cstr$'), [Ptr(o, 0)], st)
    for s, v in r:
        e.oblige(s, 'the byte hash of the characters: equal to the hash of the equal std::string', e.bv(v, 32) == FIN(A, b64(0), n, z3.BitVecVal(1972, 32)), 'post')
    e.returns = len(r)
    return e


def t_member(ctx):
    h = HF(ctx)
    e, st = h.e, h.st
    o = Obj('user', 'param', 4)
    x = z3.BitVec('x', 32)
    setcell(st, o, 0, I32, x)
    e.contract(r'^HUser::hash\(\) const$', lambda eng, st, fn, a: UH(eng.load(st, a[0], I32)))
    r = e.run(h.fn('^hash_member$'), [Ptr(o, 0)], st)
    for s, v in r:
        e.oblige(s, "the type's own hash() of this object", e.bv(v, 32) == UH(x), 'post')
    e.returns = len(r)
    return e


def t_pair(ctx):
    h = HF(ctx)
    e, st = h.e, h.st
    jenkins_contract(h)
    o = Obj('pair', 'param', 8)
    x, y = z3.BitVecs('first second', 32)
    setcell(st, o, 0, I32, x)
    setcell(st, o, 4, I32, y)
    e.contract(r'^huser::hashType\(', lambda eng, st, fn, a: UH(eng.load(st, a[0], I32)))
    r = e.run(h.fn('^hash_pair$'), [Ptr(o, 0)], st)
    for s, v in r:
        hf = UH(x)
        A = z3.K(BV64, z3.BitVecVal(0, 8))
        for i in range(4):
            A = z3.Store(A, b64(i), z3.Extract(8 * i + 7, 8 * i, hf))
        e.oblige(s, 'a function of the hashes of both members, in order', e.bv(v, 32) == FIN(A, b64(0), b64(4), UH(y)), 'post')
    e.returns = len(r)
    return e


TASKS = [Task('bobJenkinsHash', t_jenkins), Task('BobJenkinsHashMix3', t_mix), Task('BobJenkinsHashMixULL', t_mixull),
         Task('hashBytes', t_bytes), Task('hash(std::string)', t_string), Task('hashType(const char *)', t_cstr),
         Task('hash(member)', t_member), Task('hash(pair)', t_pair), Task('PointerHash', t_ptr)]
for nm, w, s in (('u8', 8, 0), ('i8', 8, 1), ('char', 8, 1), ('u16', 16, 0), ('i16', 16, 1), ('u32', 32, 0), ('i32', 32, 1), ('u64', 64, 0), ('i64', 64, 1)):
    TASKS.append(Task('hash(%s)' % nm, t_int('hash_' + nm, w, s)))

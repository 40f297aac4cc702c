"""Contracts of Tuples: hashing of tuples, tuples with wildcards (BitsetAnyTuple, AnyPair): equality, order, hash."""
import re
import z3
from vc import *
from lib import *
from runner import Task

DRIVERS = {'tuples': ['drivers/tuples.cpp']}
ANYHASH = 0x8bc74d0b
I = z3.IntSort()
RANK = z3.Function('rank', I, I)                    # what == < > of an element depend on
UH = z3.Function('element_hash', I, I)              # its hash: a function of the rank
RRANK = z3.Function('rest_rank', I, I)
RH = z3.Function('rest_hash', I, I)
ANY = z3.Function('any', I, I, z3.BoolSort())       # bits of an opaque bit set
BH = z3.Function('rest_any_hash', I, I, I, I)
BEQ = z3.Function('rest_any_equal', I, I, I, I, z3.BoolSort())
BLT = z3.Function('rest_any_less', I, I, I, I, I, z3.BoolSort())
MIX3 = z3.Function('BobJenkinsHashMix3', I, I, I, I)
U32 = 1 << 32


def b2i(b):
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


def tb(r):
    return r if z3.is_bool(r) else z3.BoolVal(bool(r)) if isinstance(r, (bool, int)) else r != 0


class H:
    def __init__(self, ctx):
        self.mod = ctx['mods']['tuples']
        e = self.e = Engine(self.mod, 'int', {})
        std_contracts(e)
        e.contract(r'^operator==\(EL const&, EL const&\)$', lambda g, st, fn, a: self.rank(st, a[0]) == self.rank(st, a[1]))
        e.contract(r'^operator<\(EL const&, EL const&\)$', lambda g, st, fn, a: self.rank(st, a[0]) < self.rank(st, a[1]))
        e.contract(r'^operator>\(EL const&, EL const&\)$', lambda g, st, fn, a: self.rank(st, a[0]) > self.rank(st, a[1]))
        e.contract(r'^hashType\(EL const&\)$', lambda g, st, fn, a: self.u32(st, UH(self.rank(st, a[0]))))
        e.contract(r'^boost::tuples::hash\(boost::tuples::REST const&\)$', lambda g, st, fn, a: self.u32(st, RH(RRANK(self.id(st, a[0])))))
        e.contract(r'^lintel::BobJenkinsHashMix3\(', lambda g, st, fn, a: self.u32(st, MIX3(*[z3.IntVal(x) if isinstance(x, int) else x for x in a])))
        e.contract(r'^lintel::tuples::BITS::operator\[\]\(unsigned long\) const$', lambda g, st, fn, a: ANY(self.id(st, a[0]), a[1]))
        e.contract(r'^lintel::tuples::bitset_any_hash\(boost::tuples::REST', lambda g, st, fn, a: self.u32(st, BH(self.id(st, a[0]), self.id(st, a[1]), a[2])))
        e.contract(r'^lintel::tuples::bitset_any_equal\(boost::tuples::REST',
                   lambda g, st, fn, a: BEQ(self.id(st, a[0]), self.id(st, a[1]), self.id(st, a[2]), a[3]))
        e.contract(r'^lintel::tuples::bitset_any_strict_less_than\(boost::tuples::REST',
                   lambda g, st, fn, a: BLT(*([self.id(st, x) for x in a[:4]] + [a[4]])))
        e.contract(r'^boost::tuples::assign\(boost::tuples::REST&', self.assign)
        self.st = State()
        self.hash_el = lambda i: UH(RANK(i))
        e.assumptions.add('elements: == < > compare one rank, the hash is a function of the rank')

    def assign(self, g, st, fn, a):
        g.store(st, a[0], self.id(st, a[1]), I64)
        return None

    def id(self, st, p):
        v = self.e.load(st, p, I64)
        return z3.IntVal(v) if isinstance(v, int) else v

    def rank(self, st, p):
        return RANK(self.id(st, p))

    def u32(self, st, t):
        st.assume(z3.And(t >= 0, t < U32))
        return t

    def i64(self, n, w=64):
        v = z3.Int(n)
        self.st.assume(z3.And(v >= 0, v < (1 << w)))
        return v

    def obj(self, name, *fields):
        """a constant object of unsigned 64 bit fields"""
        o = Obj(name, 'param', 8 * len(fields))
        for k, f in enumerate(fields):
            self.e.store(self.st, Ptr(o, 8 * k), f, I64)
        return o

    def ids(self, name, n):
        vs = [self.i64('%s_%d' % (name, k)) for k in range(n)]
        return self.obj(name, *vs), vs

    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(pat, f.dname) and not f.decl]
        if len(fs) != 1:
            raise Unsupported('%d functions for %s' % (len(fs), pat))
        return fs[0]

    def run(self, pat, *a):
        return self.e.run(self.fn(pat), list(a), self.st)

    def unchanged(self, st, o, vs):
        return z3.And([self.e.load(st, Ptr(o, 8 * k), I64) == v for k, v in enumerate(vs)])


def done(h, res):
    h.e.returns = len(res)
    return h.e


TAIL = r'(, boost::tuples::null_type)*>'
T3 = r'boost::tuples::tuple<EL, EL, EL' + TAIL
C3 = r'boost::tuples::cons<EL, boost::tuples::cons<EL, boost::tuples::cons<EL, boost::tuples::null_type> > >'


def t_hash1(ctx):
    h = H(ctx)
    o, (a,) = h.ids('t', 1)
    res = h.run(r'^unsigned int boost::tuples::hash<EL>\(', Ptr(o, 0))
    for st, r in res:
        h.e.oblige(st, 'one element: its hash', r == UH(RANK(a)), 'ensures')
    return done(h, res)


def t_hash2(ctx):
    h = H(ctx)
    o, (a, b, c) = h.ids('t', 3)
    res = h.run(r'^unsigned int boost::tuples::hash<EL, EL, boost::tuples::REST>\(', Ptr(o, 0))
    for st, r in res:
        h.e.oblige(st, 'two elements mixed with the hash of the rest', r == MIX3(UH(RANK(a)), UH(RANK(b)), RH(RRANK(c))), 'ensures')
    return done(h, res)


def t_hash3(name):
    def t(ctx):
        h = H(ctx)
        o, (a, b, c) = h.ids('t', 3)
        args = [Ptr(o, 0)]
        if 'TupleHash' in name:
            args.insert(0, Ptr(Obj('self', 'param', 1), 0))
        res = h.run(name, *args)
        for st, r in res:
            h.e.oblige(st, 'three elements', r == MIX3(UH(RANK(a)), UH(RANK(b)), UH(RANK(c))), 'ensures')
        return done(h, res)
    return t


def anyh(bits, pos, i):
    return z3.If(ANY(bits, pos), z3.IntVal(ANYHASH), UH(RANK(i)))


def t_anyhash1(ctx):
    h = H(ctx)
    o, (a,) = h.ids('t', 1)
    b, (bits,) = h.ids('any', 1)
    pos = h.i64('pos', 32)
    res = h.run(r'^unsigned int lintel::tuples::bitset_any_hash<EL, lintel::tuples::BITS>\(', Ptr(o, 0), Ptr(b, 0), pos)
    for st, r in res:
        h.e.oblige(st, 'a wildcard hashes alike whatever is stored', r == anyh(bits, pos, a), 'ensures')
    return done(h, res)


def t_anyhash2(ctx):
    h = H(ctx)
    o, (a, b, c) = h.ids('t', 3)
    bo, (bits,) = h.ids('any', 1)
    pos = h.i64('pos', 32)
    res = h.run(r'^unsigned int lintel::tuples::bitset_any_hash<EL, EL, boost::tuples::REST, lintel::tuples::BITS>\(', Ptr(o, 0), Ptr(bo, 0), pos)
    for st, r in res:
        h.e.oblige(st, 'two positions and the rest from the third on', r == MIX3(anyh(bits, pos, a), anyh(bits, pos + 1, b), BH(c, bits, pos + 2)), 'ensures')
    return done(h, res)


def t_anyequal(ctx):
    h = H(ctx)
    o, (a, r1) = h.ids('x', 2)
    p, (b, r2) = h.ids('y', 2)
    bo, (bits,) = h.ids('any', 1)
    pos = h.i64('pos', 32)
    res = h.run(r'^bool lintel::tuples::bitset_any_equal<EL, boost::tuples::REST, lintel::tuples::BITS>\(', Ptr(o, 0), Ptr(p, 0), Ptr(bo, 0), pos)
    for st, r in res:
        h.e.oblige(st, 'wildcard or equal here, and equal from the next position on',
                   tb(r) == z3.And(z3.Or(ANY(bits, pos), RANK(a) == RANK(b)), BEQ(r1, r2, bits, pos + 1)), 'ensures')
    return done(h, res)


def lex(ax, ay, x, y, rest):
    """one step of the order: value < wildcard, values by rank, then the rest"""
    before = z3.Or(z3.And(z3.Not(ax), ay), z3.And(z3.Not(ax), z3.Not(ay), x < y))
    after = z3.Or(z3.And(ax, z3.Not(ay)), z3.And(z3.Not(ax), z3.Not(ay), x > y))
    return z3.Or(before, z3.And(z3.Not(after), rest))


def t_anyless(ctx):
    h = H(ctx)
    o, (a, r1) = h.ids('x', 2)
    p, (b, r2) = h.ids('y', 2)
    bo, (b1,) = h.ids('anyx', 1)
    bp, (b2,) = h.ids('anyy', 1)
    pos = h.i64('pos', 32)
    res = h.run(r'^bool lintel::tuples::bitset_any_strict_less_than<EL, boost::tuples::REST, lintel::tuples::BITS>\(', Ptr(o, 0), Ptr(p, 0), Ptr(bo, 0), Ptr(bp, 0), pos)
    for st, r in res:
        h.e.oblige(st, 'lexicographic: values before wildcards, wildcards alike, then the rest',
                   tb(r) == lex(ANY(b1, pos), ANY(b2, pos), RANK(a), RANK(b), BLT(r1, r2, b1, b2, pos + 1)), 'ensures')
    return done(h, res)


class BA:
    """a BitsetAnyTuple of three elements: three values, three bits"""

    def __init__(self, h, name):
        self.a = [z3.Bool('%s_any%d' % (name, k)) for k in range(3)]
        self.w = z3.Sum([z3.If(a, z3.IntVal(1 << k), z3.IntVal(0)) for k, a in enumerate(self.a)])
        w = z3.Int(name + '_bits')
        h.st.assume(z3.And(w >= 0, w < 8, w == self.w))
        self.v = [h.i64('%s_%d' % (name, k)) for k in range(3)]
        self.o = h.obj(name, *(self.v + [w]))
        self.vals = self.v + [w]

    def keys(self):
        return [z3.If(a, z3.IntVal(ANYHASH), UH(RANK(v))) for a, v in zip(self.a, self.v)]


def equal3(x, y):
    return z3.And([z3.And(a == b, z3.Or(a, RANK(v) == RANK(w))) for a, b, v, w in zip(x.a, y.a, x.v, y.v)])


def less3(x, y):
    r = z3.BoolVal(False)
    for k in (2, 1, 0):
        r = lex(x.a[k], y.a[k], RANK(x.v[k]), RANK(y.v[k]), r)
    return r


def t_ba(op, spec):
    def t(ctx):
        h = H(ctx)
        x, y = BA(h, 'x'), BA(h, 'y')
        res = h.run(r'^lintel::tuples::BitsetAnyTuple<%s >::operator%s\(' % (T3, op), Ptr(x.o, 0), Ptr(y.o, 0))
        for st, r in res:
            h.e.oblige(st, 'result', tb(r) == spec(x, y), 'ensures')
            h.e.oblige(st, 'the tuples are not changed', z3.And(h.unchanged(st, x.o, x.vals), h.unchanged(st, y.o, y.vals)), 'frame')
        return done(h, res)
    return t


def t_bahash(name):
    def t(ctx):
        h = H(ctx)
        x = BA(h, 'x')
        args = [Ptr(x.o, 0)]
        if 'TupleHash' in name:
            args.insert(0, Ptr(Obj('self', 'param', 1), 0))
        res = h.run(name, *args)
        for st, r in res:
            h.e.oblige(st, 'the hash of the values and wildcards', r == MIX3(*x.keys()), 'ensures')
        return done(h, res)
    return t


def t_bactor(full):
    def t(ctx):
        h = H(ctx)
        o = Obj('self', 'param', 32)
        args = [Ptr(o, 0)]
        if full:
            p, vs = h.ids('from', 3)
            args.append(Ptr(p, 0))
        res = h.run(r'^lintel::tuples::BitsetAnyTuple<%s >::BitsetAnyTuple\(%s\)$' % (T3, '(?!lintel).+' if full else ''), *args)
        for st, r in res:
            h.e.oblige(st, 'no position is a wildcard', h.e.load(st, Ptr(o, 24), I64) == 0, 'ensures')
            if full:
                h.e.oblige(st, 'the values given', h.unchanged(st, o, vs), 'ensures')
        return done(h, res)
    return t


def t_lemma(ctx):
    """over the contracts alone"""
    h = H(ctx)
    e = h.e
    x, y, z = BA(h, 'x'), BA(h, 'y'), BA(h, 'z')
    e.oblige(h.st, 'equal tuples have the same hash', z3.Implies(equal3(x, y), MIX3(*x.keys()) == MIX3(*y.keys())), 'lemma')
    e.oblige(h.st, 'exactly one of less, equal, greater', z3.And(z3.Or(less3(x, y), equal3(x, y), less3(y, x)), z3.Not(z3.And(less3(x, y), less3(y, x))),
                                                               z3.Not(z3.And(less3(x, y), equal3(x, y))), z3.Not(z3.And(less3(y, x), equal3(x, y)))), 'lemma')
    e.oblige(h.st, 'less is transitive', z3.Implies(z3.And(less3(x, y), less3(y, z)), less3(x, z)), 'lemma')
    e.oblige(h.st, 'equality is transitive and symmetric', z3.And(z3.Implies(z3.And(equal3(x, y), equal3(y, z)), equal3(x, z)), equal3(x, y) == equal3(y, x), equal3(x, x)), 'lemma')
    e.oblige(h.st, 'equal tuples are before the same tuples', z3.Implies(equal3(x, y), z3.And(less3(x, z) == less3(y, z), less3(z, x) == less3(z, y))), 'lemma')
    # the step contracts carry the same facts from the rest to the whole, for tuples of any length
    ax, ay, az = z3.Bools('ax ay az')
    rx, ry, rz = z3.Ints('rx ry rz')
    lxy, lyx, lyz, lxz, exy = z3.Bools('lxy lyx lyz lxz exy')
    eq = z3.And(ax == ay, z3.Or(ax, rx == ry))
    e.oblige(h.st, 'induction: exactly one of less, equal, greater',
             z3.Implies(z3.PbEq([(lxy, 1), (lyx, 1), (exy, 1)], 1),
                        z3.PbEq([(lex(ax, ay, rx, ry, lxy), 1), (lex(ay, ax, ry, rx, lyx), 1), (z3.And(eq, exy), 1)], 1)), 'lemma')
    e.oblige(h.st, 'induction: less is transitive', z3.Implies(z3.And(z3.Implies(z3.And(lxy, lyz), lxz), lex(ax, ay, rx, ry, lxy), lex(ay, az, ry, rz, lyz)),
                                                              lex(ax, az, rx, rz, lxz)), 'lemma')
    e.returns = 1
    return e


class AP:
    """AnyPair: a flag and a value"""

    def __init__(self, h, name):
        self.any = z3.Bool(name + '_any')
        self.v = h.i64(name + '_val')
        self.o = Obj(name, 'param', 16)
        h.e.store(h.st, Ptr(self.o, 0), b2i(self.any), I8)
        h.e.store(h.st, Ptr(self.o, 8), self.v, I64)

    def keep(self, h, st):
        return z3.And((h.e.load(st, Ptr(self.o, 0), I8) != 0) == self.any, h.e.load(st, Ptr(self.o, 8), I64) == self.v)


def t_ap(op):
    def t(ctx):
        h = H(ctx)
        x, y = AP(h, 'x'), AP(h, 'y')
        res = h.run(r'^lintel::tuples::AnyPair<EL>::operator%s\(' % op, Ptr(x.o, 0), Ptr(y.o, 0))
        for st, r in res:
            if op == '==':
                want = z3.And(x.any == y.any, z3.Or(x.any, RANK(x.v) == RANK(y.v)))
            else:
                want = z3.And(z3.Not(x.any), z3.Or(y.any, RANK(x.v) < RANK(y.v)))
            h.e.oblige(st, 'result', tb(r) == want, 'ensures')
            h.e.oblige(st, 'the pairs are not changed', z3.And(x.keep(h, st), y.keep(h, st)), 'frame')
        return done(h, res)
    return t


def t_apset(ctor):
    def t(ctx):
        h = H(ctx)
        x = AP(h, 'x')
        o, (v,) = h.ids('value', 1)
        res = h.run(r'^lintel::tuples::AnyPair<EL>::%s\(EL const&\)$' % ('AnyPair' if ctor else 'set'), Ptr(x.o, 0), Ptr(o, 0))
        for st, r in res:
            h.e.oblige(st, 'a value, not a wildcard', h.e.load(st, Ptr(x.o, 0), I8) == 0, 'ensures')
            h.e.oblige(st, 'the value given', h.e.load(st, Ptr(x.o, 8), I64) == v, 'ensures')
        return done(h, res)
    return t


def t_apctor(ctx):
    h = H(ctx)
    x = AP(h, 'x')
    res = h.run(r'^lintel::tuples::AnyPair<EL>::AnyPair\(\)$', Ptr(x.o, 0))
    for st, r in res:
        h.e.oblige(st, 'a wildcard', h.e.load(st, Ptr(x.o, 0), I8) != 0, 'ensures')
    return done(h, res)


def t_aphash(name):
    def t(ctx):
        h = H(ctx)
        x = AP(h, 'x')
        res = h.run(name, Ptr(x.o, 0))
        for st, r in res:
            h.e.oblige(st, 'a wildcard hashes alike whatever is stored', r == z3.If(x.any, z3.IntVal(ANYHASH), UH(RANK(x.v))), 'ensures')
        return done(h, res)
    return t


def t_assign(ctx):
    h = H(ctx)
    to = Obj('to', 'param', 24)
    e = h.e
    e.store(h.st, Ptr(to, 0), b2i(z3.Bool('was_any')), I8)
    for off in (8, 16):
        e.store(h.st, Ptr(to, off), h.i64('old%d' % off), I64)
    o, (v, rest) = h.ids('from', 2)
    res = h.run(r'^void lintel::tuples::assign<EL, boost::tuples::REST, boost::tuples::REST>\(', Ptr(to, 0), Ptr(o, 0))
    for st, r in res:
        e.oblige(st, 'a value, not a wildcard', e.load(st, Ptr(to, 0), I8) == 0, 'ensures')
        e.oblige(st, 'the value of the tuple', e.load(st, Ptr(to, 8), I64) == v, 'ensures')
        e.oblige(st, 'the rest is assigned', e.load(st, Ptr(to, 16), I64) == rest, 'ensures')
        e.oblige(st, 'the tuple is not changed', h.unchanged(st, o, [v, rest]), 'frame')
    return done(h, res)


TASKS = [
    Task('hash(one element)', t_hash1),
    Task('hash(two elements and the rest)', t_hash2),
    Task('hash(three elements)', t_hash3(r'^unsigned int boost::tuples::hash<EL, EL, boost::tuples::cons<EL, boost::tuples::null_type> >\(')),
    Task('TupleHash', t_hash3(r'^lintel::tuples::TupleHash<%s >::operator\(\)' % T3)),
    Task('lintel::hash(tuple)', t_hash3(r'^unsigned int lintel::hash<%s >\(' % T3)),
    Task('bitset_any_hash(one element)', t_anyhash1),
    Task('bitset_any_hash(two elements and the rest)', t_anyhash2),
    Task('bitset_any_equal', t_anyequal),
    Task('bitset_any_strict_less_than', t_anyless),
    Task('BitsetAnyTuple::operator==', t_ba('==', equal3)),
    Task('BitsetAnyTuple::operator<', t_ba('<', less3)),
    Task('hashType(BitsetAnyTuple)', t_bahash(r'^unsigned int lintel::tuples::hashType<%s >\(' % T3)),
    Task('BitsetAnyTupleHash', t_bahash(r'^lintel::tuples::BitsetAnyTupleHash<%s >::operator\(\)' % T3)),
    Task('lintel::hash(BitsetAnyTuple)', t_bahash(r'^unsigned int lintel::hash<lintel::tuples::BitsetAnyTuple<%s > >\(' % T3)),
    Task('BitsetAnyTuple()', t_bactor(False)),
    Task('BitsetAnyTuple(tuple)', t_bactor(True)),
    Task('lemma: equality, order and hash', t_lemma),
    Task('AnyPair::operator==', t_ap('==')),
    Task('AnyPair::operator<', t_ap('<')),
    Task('AnyPair::set', t_apset(False)),
    Task('AnyPair(value)', t_apset(True)),
    Task('AnyPair()', t_apctor),
    Task('hashType(AnyPair)', t_aphash(r'^unsigned int lintel::tuples::hashType<EL>\(')),
    Task('lintel::hash(AnyPair)', t_aphash(r'^unsigned int lintel::hash<lintel::tuples::AnyPair<EL> >\(')),
    Task('assign', t_assign),
]

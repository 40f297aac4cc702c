"""Contracts of InterpolationSearch: the result is the lower bound of the value, whatever the estimator estimates within
its contract; EstimateOffset keeps that contract."""
import re
import z3
import vc
from vc import *
from lib import *
from runner import Task

DRIVERS = {'interp': ['drivers/interp.cpp']}
MAXN = 1 << 45
D = 'drivers/interp.cpp'


class Search:
    def __init__(self, ctx, bits, signed, name=''):
        self.mod = ctx['mods']['interp']
        self.ty, self.signed, self.bits = IntTy(bits), signed, bits
        e = self.e = Engine(self.mod, 'int', {})
        std_contracts(e)
        st = self.st = State()
        self.n = n = z3.Int('length')
        st.assume(z3.And(n >= 0, n < MAXN))
        self.a = a = Obj('values', 'param', n * self.ty.size, stride=self.ty.size, count=n)
        a.const = True
        self.A = e.getmap(st, a, 0, self.ty)
        self.vo = Obj('value', 'param', self.ty.size)
        self.vo.const = True
        v = z3.Int('v')
        st.assume(z3.And(v >= 0, v < (1 << bits)))
        setcell(st, self.vo, 0, self.ty, v)
        self.v = self.s(v)
        # ghost: the values before position F are less than v, the others are not (so it is for every sorted sequence)
        self.F = F = z3.Function('lower_bound', z3.IntSort(), z3.IntSort())(n)
        k = z3.Int('k')
        x = z3.Select(self.A, k)
        st.assume(z3.And(F >= 0, F <= n))
        st.assume(FA([k], z3.And(x >= 0, x < (1 << bits), z3.Implies(z3.And(k >= 0, k < n), (self.s(x) < self.v) == (k < F))), pats=[x]))
        e.opts['objects'] = [a, self.vo]
        e.contract(r'^(Estimate|lintel::EstimateOffset<.*>)::operator\(\)', self.estimate)
        e.contract(r'std::lower_bound<', self.lower_bound)
        e.invs = [self.inv]

    def s(self, x):
        return Engine.sgn(x, self.bits) if self.signed else x

    def estimate(self, eng, st, fn, args):
        _, v, first, last, pos = args
        rd = lambda p, w: self.s(B_int(eng.load(st, p, self.ty, w)))
        v, f, l = rd(v, 'value'), rd(first, 'first value'), rd(last, 'last value')
        eng.oblige(st, 'the value is greater than the first one', B(f < v), 'requires')
        eng.oblige(st, 'the value is not greater than the last one', B(v <= l), 'requires')
        r = eng.fresh_int('estimate', 64, st)
        st.assume(B(r <= pos))
        return r

    def lower_bound(self, eng, st, fn, args):
        b, e2, v = args[:3]
        ok = isinstance(b, Ptr) and isinstance(e2, Ptr) and b.obj is self.a and e2.obj is self.a
        eng.oblige(st, 'lower_bound: a range of the sequence', ok, 'requires')
        if not ok:
            raise PathEnd()
        bi, ei = self.pos(eng, b), self.pos(eng, e2)
        eng.oblige(st, 'lower_bound: a range of the sequence', z3.And(B(bi >= 0), B(bi <= ei), B(ei <= self.n)), 'requires')
        x = self.s(B_int(eng.load(st, v, self.ty)))
        eng.oblige(st, 'lower_bound: of the value', B(Eq(x, self.v)), 'requires')
        r = eng.fresh_int('found', 64, st)
        k = z3.Int('k')
        st.assume(z3.And(B(r >= bi), B(r <= ei)))
        y = lambda i: self.s(z3.Select(self.A, i))
        st.assume(z3.Implies(B(r > bi), y(r - 1) < self.v))
        st.assume(z3.Implies(B(r < ei), y(r) >= self.v))
        return Ptr(self.a, r * self.ty.size)

    def pos(self, eng, p):
        return eng.exact_div(p.off, self.ty.size) if is_sym(p.off) else p.off // self.ty.size

    def inv(self, L):
        F, n = self.F, self.n
        ps = [('p%s' % (k,), v) for k, (v, v0, c) in sorted(L.pidx.items(), key=lambda kv: str(kv[0])) if L.ptrs[k][0].obj is self.a]
        i64 = [(k, v) for k, (v, v0, w) in sorted(L.ints.items(), key=lambda kv: str(kv[0])) if w == 64 and not isinstance(v, PInt)]
        flags = [(k, v) for k, (v, v0, w) in sorted(L.ints.items(), key=lambda kv: str(kv[0])) if w in (1, 8) and not isinstance(v, PInt)]
        out = []
        for fk, fv in flags:
            if z3.is_int(B_any(fv)):
                out.append(('flag %s <= 1' % (fk,), B(fv <= 1)))
        for nm, x in ps:
            facts = [('%s < F' % nm, B(x < F)), ('%s <= F' % nm, B(x <= F)), ('F < %s' % nm, B(F < x)), ('F <= %s' % nm, B(F <= x)),
                     ('0 <= %s <= n' % nm, And(B(x >= 0), B(x <= n)))]
            out += facts
            for fk, fv in flags:
                set_ = B(fv) if not z3.is_int(B_any(fv)) else B(fv != 0)
                for l, f in (facts[0], facts[2]):
                    out.append(('flag %s or %s' % (fk, l), z3.Or(set_, f)))
                    out.append(('no flag %s or %s' % (fk, l), z3.Or(z3.Not(set_), f)))
        for i, (nx, x) in enumerate(ps):
            for j, (ny, y) in enumerate(ps):
                if i != j:
                    out.append(('%s <= %s' % (nx, ny), B(x <= y)))
                    for k, v in i64:
                        out.append(('%s == %s - %s' % (k, nx, ny), B(Eq(v + y, x))))
        # an integer that stands for a position, or for the number of values from or up to one
        if len(ps) < 2:
            for k, v in i64:
                for nm, f in (('<= n', B(v <= n)), ('<= F', B(v <= F)), ('> F', B(v > F)), ('>= F', B(v >= F)), ('< F', B(v < F))):
                    out.append(('%s %s' % (k, nm), f))
                for nx, x in ps:
                    for nm, f in (('<= n', B(x + v <= n)), ('<= F', B(x + v <= F)), ('> F', B(x + v > F)), ('>= F', B(x + v >= F)), ('< F', B(x + v < F))):
                        out.append(('%s + %s %s' % (nx, k, nm), f))
                for j, u in i64:
                    if str(j) < str(k):
                        out.append(('%s <= %s' % (k, j), B(v <= u)))
                        out.append(('%s <= %s' % (j, k), B(u <= v)))
        return out

    def run(self, name):
        e, st = self.e, self.st
        f = self.mod.fns.get(name)
        if f is None or f.decl:
            raise Unsupported('function %s not found' % name)
        res = e.run(f, [Ptr(self.a, 0), Ptr(self.a, self.n * self.ty.size), Ptr(self.vo, 0)], st)
        for s, r in res:
            ok = isinstance(r, Ptr) and r.obj is self.a
            e.oblige(s, 'the result is a position of the sequence', ok, 'ensures')
            if ok:
                e.oblige(s, 'the result is the lower bound', B(Eq(self.pos(e, r), self.F)), 'ensures')
        e.returns = len(res)
        return e


def B_any(x):
    return x if z3.is_expr(x) else z3.IntVal(int(x))


def search(name, bits, signed, what):
    return Task(what, lambda ctx: Search(ctx, bits, signed).run(name))


def estimate(name, bits, signed, what):
    def t(ctx):
        mod = ctx['mods']['interp']
        e = Engine(mod, 'int', dict(fp='real', rnd=True, ufp='unit'))
        std_contracts(e)
        st = State()
        s = (lambda x: Engine.sgn(x, bits)) if signed else (lambda x: x)
        objs, vals = [], []
        for nm in ('v', 'first', 'last'):
            o = Obj(nm, 'param', bits // 8)
            o.const = True
            x = z3.Int(nm)
            st.assume(z3.And(x >= 0, x < (1 << bits)))
            setcell(st, o, 0, IntTy(bits), x)
            objs.append(o)
            vals.append(s(x))
        v, f, l = vals
        p = z3.Int('last_pos')
        st.assume(z3.And(p >= 0, p < (1 << 53), f < v, v <= l))
        fn = mod.fns.get(name)
        if fn is None or fn.decl:
            raise Unsupported('function %s not found' % name)
        res = e.run(fn, [Ptr(o, 0) for o in objs] + [p], st)
        for t_, r in res:
            e.oblige(t_, 'the estimate is a position', And(B(r >= 0), B(r <= p)), 'ensures')
        e.returns = len(res)
        return e
    return Task('EstimateOffset<%s>' % what, t)


TASKS = [search('s_any', 64, True, 'interpolationLowerBound with any estimator'),
         search('s_steps', 64, True, 'interpolationLowerBound with any estimator, single steps')]
for n_, b_, s_, w_ in (('i64', 64, True, 'int64_t'), ('u64', 64, False, 'uint64_t'), ('i32', 32, True, 'int32_t'),
                       ('u32', 32, False, 'uint32_t'), ('i8', 8, True, 'int8_t'), ('u16', 16, False, 'uint16_t')):
    TASKS.append(search('s_' + n_, b_, s_, 'interpolationLowerBound<%s>' % w_))
    TASKS.append(estimate('e_' + n_, b_, s_, w_))

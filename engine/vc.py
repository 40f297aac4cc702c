"""Verification-condition generation for LLVM IR by forward symbolic execution with
function contracts and loop invariants (Houdini over candidate templates).

 * every function call is either replaced by a contract (a Python handler registered for
   it) or, when it has a body and no contract, executed in place (so extracting a helper
   does not change anything);
 * every loop is cut at its header: candidate invariants are proved on entry and proved
   preserved by an arbitrary iteration, everything the body may write is havocked; no
   iteration bound is used (unless a function is run in 'unroll' mode, where the trip count
   must be concrete and running out of it is an error, never a silent cut);
 * two arithmetic modes: 'int' (mathematical integers, with wrap-around of unsigned machine
   arithmetic modelled exactly by case distinction, signed overflow an obligation) and 'bv'
   (bit vectors).
"""
import itertools, os, re, sys, time, subprocess, tempfile
import math
import z3
from ir import Const, SSA, Block, Type

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """the code left the subset this verifier handles: no verdict"""


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Obj:
    _n = itertools.count()

    def __init__(self, name, kind='param', size=None, stride=None, count=None, const=False, ghost=None):
        self.name = name
        self.kind = kind          # param / heap / stack / global
        self.size = size          # bytes: int or z3 term, None = unknown
        self.stride = stride      # element stride for array objects, None = struct-like object
        self.count = count        # number of elements (arrays)
        self.const = const
        self.ghost = ghost        # opaque element kind, or None
        self.uid = next(Obj._n)
        self.tags = {}

    def __repr__(self):
        return '<%s:%d>' % (self.name, self.uid)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


NULL = Ptr(None, 0)


class Fn:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def Not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Implies(a, b):
    return Or(Not(a), b)


def Eq(a, b):
    r = (a == b)
    return r


def Ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return z3.If(c, a, b)


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


_fresh = itertools.count()


def has_quant(e, _seen=None):
    if not is_sym(e):
        return False
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def _patok(e):
    st = [e]
    while st:
        x = st.pop()
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
            return False
        if z3.is_quantifier(x):
            return False
        st.extend(x.children())
    return True


def FA(vs, body, pats=()):
    """forall with patterns, where the patterns are legal ones"""
    if not is_sym(body):
        return z3.BoolVal(bool(body))
    ps = [p for p in pats if _patok(p)]
    return z3.ForAll(vs, body, patterns=ps) if ps and len(ps) == len(pats) else z3.ForAll(vs, body)


class Loc:
    __slots__ = ('fn', 'line', 'file')


class Obligation:
    __slots__ = ('label', 'pc', 'goal', 'where', 'result', 'backend', 'secs', 'model', 'kind')

    def __init__(self, label, pc, goal, where, kind='safety'):
        self.label, self.pc, self.goal, self.where, self.kind = label, pc, goal, where, kind
        self.result = self.backend = self.model = None
        self.secs = 0.0


class State:
    def __init__(self):
        self.mem = {}       # (obj, key) -> value
        self.dead = {}      # obj -> why (freed / out of scope)
        self.pc = []        # list of facts
        self.ghost = {}     # name -> value
        self.writes = set()
        self.allocs = []    # heap objects allocated on this path
        self.trace = []

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.dead = dict(self.dead)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.writes = set(self.writes)
        s.allocs = list(self.allocs)
        s.trace = list(self.trace)
        return s

    def assume(self, f):
        if f is True:
            return
        self.pc.append(B(f) if isinstance(f, bool) else f)


class LoopView:
    """what an invariant template sees"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


UMOD = z3.Function('umod', z3.IntSort(), z3.IntSort(), z3.IntSort())
RND = z3.Function('RND', z3.RealSort(), z3.RealSort())
RND_NOTE = ('double arithmetic follows IEEE 754 round-to-nearest on finite values (exact where representable, relative error '
            'at most 2^-53 otherwise); NaN and infinite operands are left to the bounded harness')
FMUL = z3.Function('fmul', z3.RealSort(), z3.RealSort(), z3.RealSort())
FDIV = z3.Function('fdiv', z3.RealSort(), z3.RealSort(), z3.RealSort())
UDIV = z3.Function('udiv', z3.IntSort(), z3.IntSort(), z3.IntSort())


class Engine:
    def __init__(self, mod, mode='int', opts=None):
        self.mod = mod
        self.mode = mode
        self.opts = dict(unroll=0, light_ms=250, check_nsw=True, quiet=True, houdini_ms=20000, houdini_rl=400000, max_paths=4000,
                         max_steps=400000, auto_inv=True, fp='real', max_loc=400)
        self.opts.update(opts or {})
        self.contracts = []      # (compiled regex, handler)
        self.obls = []
        self.invs = []           # candidate template functions L -> [(name, formula)]
        self.assert_ok = False   # True: reaching an assertion failure ends the path without an obligation
        self.loop_hooks = []
        self.globals = {}
        self.light = z3.SolverFor('QF_AUFLIA') if False else z3.Solver()
        self.light.set('timeout', int(self.opts['light_ms'] * SLOW))
        self.light_stack = []
        self.stats = dict(paths=0, steps=0, light=0, dropped=[], loops=0, inlined=set(), contracts=set(), aborts=0,
                          throws=0)
        self.inst = None
        self.callstack = []
        self.bases = {}
        self.urem_cache = {}
        self.unroll_loops = None
        self.assumptions = set()
        self.rinfo = {}
        self.keep, self.poison, self._users, self._users_keep = [], {}, {}, []
        self.deadline = None

    # ------------------------------------------------------------------ values
    def fresh_name(self, base):
        return '%s!%d' % (base, next(_fresh))

    def fresh_int(self, base='v', w=None, st=None, signed=False):
        if self.mode == 'bv' and w is not None:
            return z3.BitVec(self.fresh_name(base), w)
        v = z3.Int(self.fresh_name(base))
        if w is not None and st is not None:
            st.assume(z3.And(v >= 0, v < (1 << w)))
        return v

    def fresh_bool(self, base='b'):
        return z3.Bool(self.fresh_name(base))

    def fresh_of(self, ty, st, base='v'):
        if ty.k == 'int':
            if ty.w == 1:
                return self.fresh_bool(base)
            return self.fresh_int(base, ty.w, st)
        if ty.k == 'fp':
            return self.fresh_fp(base, ty.w)
        raise Unsupported('fresh value of type %s' % ty)

    def fresh_fp(self, base='d', w=64):
        if self.opts['fp'] == 'real':
            return z3.Real(self.fresh_name(base))
        return z3.FP(self.fresh_name(base), z3.Float64() if w == 64 else z3.Float32())

    def bv(self, v, w):
        return v if is_sym(v) else z3.BitVecVal(v, w)

    # ------------------------------------------------------------------ light solver
    def _sync(self, pc):
        stk = self.light_stack
        i = 0
        n = min(len(stk), len(pc))
        while i < n and stk[i] is pc[i]:
            i += 1
        for _ in range(len(stk) - i):
            self.light.pop()
        del stk[i:]
        for f in pc[i:]:
            self.light.push()
            if not self._q(f):
                self.light.add(f)
            stk.append(f)

    _qc = {}

    def _q(self, f):
        if not is_sym(f):
            return False
        k = f.get_id()
        r = self._qc.get(k)
        if r is None or r[0] is not f:
            r = (f, has_quant(f))
            self._qc[k] = r
        return r[1]

    def must(self, st, cond):
        if cond is True:
            return True
        if cond is False:
            cond = z3.BoolVal(False)
        self.stats['light'] += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of this function used up')
        self._sync(st.pc)
        self.light.push()
        self.light.add(z3.Not(cond))
        r = self.light.check()
        self.light.pop()
        return r == z3.unsat

    def feasible(self, st, cond):
        if cond is True:
            return True
        if cond is False:
            return False
        self.stats['light'] += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of this function used up')
        self._sync(st.pc)
        self.light.push()
        self.light.add(cond)
        r = self.light.check()
        self.light.pop()
        return r != z3.unsat

    # ------------------------------------------------------------------ obligations
    def where(self):
        i = self.inst
        f = self.callstack[-1].dname if self.callstack else ''
        if i is not None and i.line:
            return '%s:%s (%s)' % (os.path.basename(i.file or '?'), i.line, f[:120])
        return f[:160]

    def oblige(self, st, label, goal, kind='safety'):
        if goal is True:
            self.obls.append(Obligation(label, None, True, self.where(), kind))
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        self.obls.append(Obligation(label, list(st.pc), goal, self.where(), kind))
        st.assume(goal)

    # ------------------------------------------------------------------ integer arithmetic (int mode)
    def wrap(self, st, r, w, label=None):
        """reduce the mathematical value r to the range of an unsigned w-bit integer"""
        if not is_sym(r):
            return r % (1 << w)
        M = 1 << w
        r = z3.simplify(r, som=True) if False else r
        if self.must(st, z3.And(r >= 0, r < M)):
            return r
        if self.must(st, z3.And(r >= M, r < 2 * M)):
            return r - M
        if self.must(st, z3.And(r < 0, r >= -M)):
            return r + M
        v = z3.Int(self.fresh_name('w'))
        if self.must(st, z3.And(r >= -M, r < 2 * M)):
            st.assume(v == z3.If(r < 0, r + M, z3.If(r >= M, r - M, r)))
            return v
        q = z3.Int(self.fresh_name('wq'))
        st.assume(z3.And(v >= 0, v < M, r == q * M + v))
        return v

    def signed(self, st, v, w):
        if not is_sym(v):
            return v - (1 << w) if v >= (1 << (w - 1)) else v
        if self.mode == 'bv':
            raise Unsupported('signed() in bv mode')
        H = 1 << (w - 1)
        if self.must(st, v < H):
            return v
        if self.must(st, v >= H):
            return v - (1 << w)
        s = z3.Int(self.fresh_name('s'))
        st.assume(s == z3.If(v < H, v, v - (1 << w)))
        return s

    @staticmethod
    def sgn(v, w=32):
        """signed reading of an unsigned representative, as a plain term (for specifications)"""
        if not is_sym(v):
            return v - (1 << w) if v >= (1 << (w - 1)) else v
        return z3.If(v < (1 << (w - 1)), v, v - (1 << w))

    @staticmethod
    def uns(v, w=32):
        if not is_sym(v):
            return v % (1 << w)
        return z3.If(v < 0, v + (1 << w), v)

    def int_binop(self, st, op, a, b, w, nsw=False, nuw=False):
        M = 1 << w
        conc = not is_sym(a) and not is_sym(b)
        if op in ('add', 'sub', 'mul'):
            if op == 'add':
                if not is_sym(b) and b >= (M >> 1) and not nuw:
                    r = a - (M - b)
                elif not is_sym(a) and a >= (M >> 1) and not nuw:
                    r = b - (M - a)
                else:
                    r = a + b
            elif op == 'sub':
                r = a - b
            else:
                if not is_sym(b) and b >= (M >> 1):
                    r = a * (b - M)
                elif not is_sym(a) and a >= (M >> 1):
                    r = (a - M) * b
                else:
                    r = a * b
            if conc:
                return r % M
            if nsw and self.opts['check_nsw']:
                sa, sb = self.signed(st, a, w), self.signed(st, b, w)
                sr = sa + sb if op == 'add' else sa - sb if op == 'sub' else sa * sb
                self.oblige(st, 'no signed overflow in %s' % op, z3.And(sr >= -(M >> 1), sr < (M >> 1)), 'overflow')
                if self.must(st, sr >= 0):
                    return sr
                v = z3.Int(self.fresh_name('w'))
                if self.must(st, sr < 0):
                    return sr + M
                st.assume(v == z3.If(sr < 0, sr + M, sr))
                return v
            return self.wrap(st, r, w)
        if op in ('udiv', 'urem'):
            if conc:
                if b == 0:
                    self.oblige(st, 'division by zero', False, 'div')
                    return 0
                return a // b if op == 'udiv' else a % b
            if is_sym(b) or b == 0:
                self.oblige(st, 'no division by zero', b != 0 if is_sym(b) else False, 'div')
            return self.divmod(st, a, b, w)[0 if op == 'udiv' else 1]
        if op in ('sdiv', 'srem'):
            sa, sb = self.signed(st, a, w), self.signed(st, b, w)
            if is_sym(sb) or sb == 0:
                self.oblige(st, 'no division by zero', sb != 0 if is_sym(sb) else False, 'div')
            if conc:
                q = abs(sa) // abs(sb)
                q = q if (sa < 0) == (sb < 0) else -q
                r = sa - q * sb
                return (q if op == 'sdiv' else r) % M
            if is_sym(sb) and self.opts.get(op):
                return self.opts[op](self, st, sa, sb)
            if not is_sym(sb) and sb > 0 and op == 'sdiv':
                ex = self.exact_div(sa, sb)
                if ex is not None:
                    return self.wrap(st, ex, w)
            if self.must(st, z3.And(sa >= 0, sb > 0) if is_sym(sa) or is_sym(sb) else True):
                return self.divmod(st, sa, sb, w)[0 if op == 'sdiv' else 1]
            q, r = z3.Int(self.fresh_name('q')), z3.Int(self.fresh_name('r'))
            ab = z3.If(B(sb >= 0), sb, -sb) if is_sym(sb) else abs(sb)
            st.assume(z3.And(sa == q * sb + r, z3.If(B(sa >= 0), z3.And(r >= 0, r < ab), z3.And(r <= 0, -r < ab))))
            return self.wrap(st, q if op == 'sdiv' else r, w)
        if op == 'shl':
            if not is_sym(b):
                return self.wrap(st, a * (1 << b), w)
            p = self.pow2(st, b, w)
            return self.wrap(st, a * p, w)
        if op == 'lshr':
            if not is_sym(b):
                if conc:
                    return a >> b
                return self.divmod(st, a, 1 << b, w)[0]
            return self.divmod(st, a, self.pow2(st, b, w), w)[0]
        if op == 'ashr':
            if not is_sym(b):
                sa = self.signed(st, a, w)
                if not is_sym(sa):
                    return (sa >> b) % M
                q, r = z3.Int(self.fresh_name('q')), z3.Int(self.fresh_name('r'))
                st.assume(z3.And(sa == q * (1 << b) + r, r >= 0, r < (1 << b)))
                return self.wrap(st, q, w)
            raise Unsupported('ashr by variable')
        if op in ('and', 'or', 'xor'):
            if conc:
                return (a & b) if op == 'and' else (a | b) if op == 'or' else (a ^ b)
            if op == 'and':
                for x, y in ((a, b), (b, a)):
                    if not is_sym(y):
                        if y == 0:
                            return 0
                        if y == M - 1:
                            return x
                        if (y & (y + 1)) == 0:
                            return self.divmod(st, x, y + 1, w)[1]
                        # ~(2^k-1)
                        n = M - y
                        if (n & (n - 1)) == 0:
                            return x - self.divmod(st, x, n, w)[1]
                        lo = y & -y
                        if ((y + lo) & (y + lo - 1)) == 0:      # one run of ones
                            return self.divmod(st, x, y + lo, w)[1] - self.divmod(st, x, lo, w)[1]
            if op in ('or', 'xor'):
                for x, y in ((a, b), (b, a)):
                    if not is_sym(y) and y == 0:
                        return x
                if op == 'xor':
                    for x, y in ((a, b), (b, a)):
                        if not is_sym(y) and y == M - 1:
                            return (M - 1) - x
                for x, y in ((a, b), (b, a)):
                    # disjoint bits: x a multiple of a power of two above y
                    acc, c = self.lin(x)
                    g = c
                    for t, kf in acc.values():
                        g = math.gcd(g, kf)
                    g &= -g
                    if g > 1 and self.must(st, y < g if is_sym(y) else z3.BoolVal(y < g)):
                        return x + y
            v = self.fresh_int('bit', w, st)
            if op == 'and':
                st.assume(z3.And(v <= a, v <= b))
            elif op == 'or':
                st.assume(z3.And(v >= a, v >= b, v <= a + b))
            return v
        raise Unsupported('int op ' + op)

    def few_values(self, st, v, limit=8):
        """all values v can have here, if they are few"""
        sv = z3.Solver()
        sv.set('timeout', int(300 * SLOW))
        for f in st.pc:
            if not has_quant(f):
                sv.add(f)
        out = []
        while len(out) <= limit:
            r = sv.check()
            if r == z3.unsat:
                return out
            if r != z3.sat:
                return None
            x = sv.model().eval(v, model_completion=True)
            if not z3.is_int_value(x):
                return None
            out.append(x.as_long())
            sv.add(v != x)
        return None

    def pow2(self, st, b, w):
        p = z3.Int(self.fresh_name('pow'))
        st.assume(z3.Or(*[z3.And(b == i, p == (1 << i)) for i in range(w)]))
        return p

    def lin(self, t):
        """linear form {id: (term, coeff)}, const"""
        if not is_sym(t):
            return {}, t
        acc = {}
        c = [0]

        def go(t, k):
            if not is_sym(t):
                c[0] += k * t
                return
            if z3.is_int_value(t):
                c[0] += k * t.as_long()
                return
            d = t.decl().kind()
            if d == z3.Z3_OP_ADD:
                for x in t.children():
                    go(x, k)
                return
            if d == z3.Z3_OP_SUB:
                ch = t.children()
                go(ch[0], k)
                for x in ch[1:]:
                    go(x, -k)
                return
            if d == z3.Z3_OP_UMINUS:
                go(t.children()[0], -k)
                return
            if d == z3.Z3_OP_MUL:
                ch = t.children()
                if len(ch) == 2:
                    if z3.is_int_value(ch[0]):
                        go(ch[1], k * ch[0].as_long())
                        return
                    if z3.is_int_value(ch[1]):
                        go(ch[0], k * ch[1].as_long())
                        return
            i = t.get_id()
            o = acc.get(i)
            acc[i] = (t, (o[1] if o else 0) + k)
        go(t, 1)
        acc = {i: x for i, x in acc.items() if x[1] != 0}
        return acc, c[0]

    def unlin(self, acc, c):
        r = None
        for t, k in acc.values():
            x = t if k == 1 else (-t if k == -1 else t * k)
            r = x if r is None else r + x
        if r is None:
            return c
        return r + c if c > 0 else (r - (-c) if c < 0 else r)

    def ites(self, acc, c, S):
        """a linear form whose case distinctions are divided by S where that leaves the same rest in both cases"""
        out = {}
        for i, (t, k) in acc.items():
            if k % S and z3.is_app_of(t, z3.Z3_OP_ITE):
                b = []
                for x in t.children()[1:]:
                    a2, c2 = self.ites(*self.lin(x if k == 1 else x * k), S)
                    if any(m % S for _, m in a2.values()):
                        break
                    b.append((self.unlin({j: (u, m // S) for j, (u, m) in a2.items()}, c2 // S), c2 % S))
                if len(b) == 2 and b[0][1] == b[1][1]:
                    q = z3.If(t.children()[0], b[0][0], b[1][0]) if is_sym(b[0][0]) or is_sym(b[1][0]) else z3.If(t.children()[0], z3.IntVal(b[0][0]), z3.IntVal(b[1][0]))
                    out[q.get_id()] = (q, S + (out[q.get_id()][1] if q.get_id() in out else 0))
                    self.keep.append(q)
                    c += b[0][1]
                    continue
            out[i] = (t, k + (out[i][1] if i in out else 0))
        return out, c

    def exact_div(self, t, k):
        acc, c = self.lin(t)
        if any(x[1] % k for x in acc.values()):
            acc, c = self.ites(acc, c, k)
        if c % k:
            return None
        if any(x[1] % k for x in acc.values()):
            return None
        return self.unlin({i: (x[0], x[1] // k) for i, x in acc.items()}, c // k)

    def divmod(self, st, a, b, w):
        if not is_sym(a) and not is_sym(b):
            return a // b, a % b
        if not is_sym(b) and b == 1:
            return a, 0
        if is_sym(a) and not is_sym(b):
            ex = self.exact_div(a, b)
            if ex is not None:
                return ex, 0
        if self.must(st, z3.And(a >= 0, a < b)):
            return 0, a
        if self.must(st, z3.And(a >= b, a < 2 * b)):
            return 1, a - b
        if self.opts.get('umod') and is_sym(b):
            # a function of its operands: equal operands give equal remainders
            q, r = UDIV(B_int(a), b), UMOD(B_int(a), b)
            st.assume(z3.And(r >= 0, r < b, q >= 0, q <= a, z3.Implies(a < b, z3.And(q == 0, r == a))))
            st.assume(z3.Implies(z3.And(a >= b, a < 2 * b), z3.And(q == 1, r == a - b)))
            return q, r
        q, r = z3.Int(self.fresh_name('q')), z3.Int(self.fresh_name('r'))
        if not is_sym(b):
            st.assume(z3.And(r >= 0, r < b, q >= 0, a == q * b + r))
            return q, r
        # variable divisor: exact cases up to quotient 2, monotone facts beyond
        st.assume(z3.And(r >= 0, r < b, q >= 0))
        st.assume(z3.Implies(a < b, z3.And(q == 0, r == a)))
        st.assume(z3.Implies(z3.And(a >= b, a < 2 * b), z3.And(q == 1, r == a - b)))
        st.assume(z3.Implies(z3.And(a >= 2 * b, a < 3 * b), z3.And(q == 2, r == a - 2 * b)))
        st.assume(z3.Implies(a >= 3 * b, z3.And(q >= 3, r <= a - 3 * b)))
        st.assume(q <= a)
        if self.opts.get('nonlinear'):
            st.assume(a == q * b + r)
        return q, r

    def bv_binop(self, st, op, a, b, w, nsw=False, nuw=False):
        if not is_sym(a) and not is_sym(b):
            M = 1 << w
            sa = a - M if a >= M >> 1 else a
            sb = b - M if b >= M >> 1 else b
            if op == 'add': return (a + b) % M
            if op == 'sub': return (a - b) % M
            if op == 'mul': return (a * b) % M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) % M if b < w else 0
            if op == 'lshr': return a >> b
            if op == 'ashr': return (sa >> b) % M
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                self.oblige(st, 'division by zero', False, 'div')
                return 0
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            q = abs(sa) // abs(sb)
            q = q if (sa < 0) == (sb < 0) else -q
            return (q if op == 'sdiv' else sa - q * sb) % M
        a, b = self.bv(a, w), self.bv(b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not z3.is_bv_value(b) or b.as_long() == 0:
                self.oblige(st, 'no division by zero', b != 0, 'div')
        if nsw and self.opts['check_nsw']:
            if op == 'add':
                g = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
            elif op == 'sub':
                g = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
            elif op == 'mul':
                g = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
            else:
                g = True
            self.oblige(st, 'no signed overflow in %s' % op, g, 'overflow')
        if op == 'add': return a + b
        if op == 'sub': return a - b
        if op == 'mul': return a * b
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return a << b
        if op == 'lshr': return z3.LShR(a, b)
        if op == 'ashr': return a >> b
        if op == 'udiv': return z3.UDiv(a, b)
        if op == 'urem': return z3.URem(a, b)
        if op == 'sdiv': return a / b
        if op == 'srem': return z3.SRem(a, b)
        raise Unsupported('bv op ' + op)

    def binop(self, st, op, a, b, ty, nsw=False, nuw=False):
        if ty.k == 'vector':
            raise Unsupported('vector arithmetic')
        if ty.w == 1:
            a, b = self.tobool(a), self.tobool(b)
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if a is True: return Not(b)
                if b is True: return Not(a)
                if a is False: return b
                if b is False: return a
                return z3.Xor(a, b)
            raise Unsupported('i1 op ' + op)
        if a is UNDEF or b is UNDEF:
            return self.fresh_of(ty, st, 'undef')
        if self.mode == 'int':
            return self.int_binop(st, op, a, b, ty.w, nsw, nuw)
        return self.bv_binop(st, op, a, b, ty.w, nsw, nuw)

    def tobool(self, v):
        if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
            return v
        if v is UNDEF:
            return self.fresh_bool('undef')
        if not is_sym(v):
            return bool(v & 1)
        raise Unsupported('tobool')

    def icmp(self, st, pred, a, b, ty):
        if ty.k == 'ptr':
            return self.ptr_cmp(st, pred, a, b)
        w = ty.w
        if a is UNDEF or b is UNDEF:
            return self.fresh_bool('undef')
        if w == 1:
            a, b = self.tobool(a), self.tobool(b)
            if pred in ('eq', 'ne'):
                if isinstance(a, bool) and isinstance(b, bool):
                    r = a == b
                elif isinstance(b, bool):
                    r = a if b else z3.Not(a)
                elif isinstance(a, bool):
                    r = b if a else z3.Not(b)
                else:
                    r = a == b
                return r if pred == 'eq' else Not(r)
            raise Unsupported('i1 compare')
        if not is_sym(a) and not is_sym(b):
            M = 1 << w
            if pred[0] == 's':
                a = a - M if a >= M >> 1 else a
                b = b - M if b >= M >> 1 else b
                pred = 'u' + pred[1:]
            return dict(eq=a == b, ne=a != b, ult=a < b, ule=a <= b, ugt=a > b, uge=a >= b)[pred]
        if self.mode == 'bv':
            a, b = self.bv(a, w), self.bv(b, w)
            r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
                 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
            return r
        if pred[0] == 's':
            a, b = self.signed(st, a, w), self.signed(st, b, w)
            pred = 'u' + pred[1:]
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: a < b, 'ule': lambda: a <= b,
                'ugt': lambda: a > b, 'uge': lambda: a >= b}[pred]()

    # ------------------------------------------------------------------ pointers
    def base(self, obj):
        b = self.bases.get(obj)
        if b is None:
            b = z3.Int('base!%s!%d' % (obj.name, obj.uid)) if self.mode == 'int' else z3.BitVec('base!%s!%d' % (obj.name, obj.uid), 64)
            self.bases[obj] = b
        return b

    def base_facts(self, st, obj):
        b = self.base(obj)
        if self.mode == 'int':
            sz = obj.size if obj.size is not None else 0
            f = z3.And(b >= 4096, b + sz < (1 << 47))
        else:
            f = z3.And(z3.UGE(b, 4096), z3.ULT(b, 1 << 47))
        st.assume(f)
        return b

    def soff(self, off):
        return off

    def ptr_cmp(self, st, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return self.fresh_bool('undefptr')
        if isinstance(a, Fn) or isinstance(b, Fn):
            same = isinstance(a, Fn) and isinstance(b, Fn) and a.fn is b.fn
            return same if pred == 'eq' else (not same)
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported('pointer comparison of %r %r' % (a, b))
        if a.obj is not b.obj:
            a, b = self.unredirect(a), self.unredirect(b)
        if a.obj is b.obj:
            x, y = a.off, b.off
            if self.mode == 'bv' and (is_sym(x) or is_sym(y)):
                return self.icmp(st, pred.replace('u', 's') if pred[0] == 'u' else pred, x, y, _I64)
            return {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: x < y, 'ule': lambda: x <= y,
                    'ugt': lambda: x > y, 'uge': lambda: x >= y}[pred]()
        for x, y in ((a, b), (b, a)):
            if y.obj is None and pred in ('eq', 'ne') and 'is_null' in x.obj.tags:
                null = x.obj.tags['is_null'](self, st, x)
                return null if pred == 'eq' else Not(null)
        if pred == 'eq':
            return False
        if pred == 'ne':
            return True
        if a.obj is None or b.obj is None:
            raise Unsupported('relational comparison with null')
        x, y = self.base_facts(st, a.obj) + a.off, self.base_facts(st, b.obj) + b.off
        # distinct live objects do not overlap
        if self.mode == 'int' and a.obj.size is not None and b.obj.size is not None:
            ba, bb = self.base(a.obj), self.base(b.obj)
            st.assume(z3.Or(ba + a.obj.size <= bb, bb + b.obj.size <= ba))
        return {'ult': lambda: x < y, 'ule': lambda: x <= y, 'ugt': lambda: x > y, 'uge': lambda: x >= y}[pred]()

    def ptr_add(self, p, delta):
        if p is UNDEF:
            return UNDEF
        if isinstance(p, Fn):
            raise Unsupported('arithmetic on function pointer')
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        if not is_sym(delta) and not is_sym(p.off):
            return Ptr(p.obj, p.off + delta)
        if self.mode == 'bv':
            return Ptr(p.obj, z3.simplify(self.bv(p.off % (1 << 64) if not is_sym(p.off) else p.off, 64) +
                                          self.bv(delta % (1 << 64) if not is_sym(delta) else delta, 64)))
        acc, c = self.lin(p.off)
        acc2, c2 = self.lin(delta)
        for i, (t, k) in acc2.items():
            o = acc.get(i)
            acc[i] = (t, (o[1] if o else 0) + k)
        acc = {i: x for i, x in acc.items() if x[1]}
        return Ptr(p.obj, self.unlin(acc, c + c2))

    def gep(self, st, ty, p, idxs):
        """idxs: values with their widths"""
        first = True
        for v, w in idxs:
            if first:
                k = ty.size
                first = False
                if isinstance(p, Ptr) and p.obj is not None and is_sym(v) and p.obj.stride is None and \
                        p.obj.kind == 'heap' and p.obj.tags.get('untyped'):
                    self.set_layout(p.obj, k)
            elif ty.k == 'struct':
                if is_sym(v):
                    raise Unsupported('symbolic struct index')
                p = self.ptr_add(p, ty.offs[v])
                ty = ty.els[v]
                continue
            elif ty.k in ('array', 'vector'):
                ty = ty.el
                k = ty.size
            else:
                raise Unsupported('gep into %s' % ty)
            if self.mode == 'bv':
                if is_sym(v):
                    if w < 64:
                        v = z3.SignExt(64 - w, v)
                    d = v * k if k != 1 else v
                else:
                    sv = v - (1 << w) if v >= 1 << (w - 1) else v
                    d = sv * k
            else:
                sv = self.signed(st, v, w)
                d = sv * k if (k != 1 or not is_sym(sv)) else sv
            p = self.ptr_add(p, d)
        return p

    def set_layout(self, obj, stride):
        obj.stride = stride
        obj.tags['untyped'] = False
        c = self.exact_div(obj.size, stride) if self.mode == 'int' else None
        if c is None:
            if self.mode == 'int':
                raise Unsupported('allocation size is not a multiple of the element size')
            c = obj.size if stride == 1 else z3.UDiv(self.bv(obj.size, 64), self.bv(stride, 64))
        obj.count = c

    # ------------------------------------------------------------------ memory
    def elem(self, st, p, what='access'):
        """decode pointer into array object: (index term, constant byte offset within element)"""
        o = p.obj
        S = o.stride
        if self.mode == 'bv':
            if S == 1:
                return self.bv(p.off, 64) if is_sym(p.off) else p.off, 0
            if not is_sym(p.off):
                return p.off // S, p.off % S
            q = self.bv_exact(p.off, S)
            if q is None:
                raise Unsupported('cannot decode array offset %s (stride %d)' % (p.off, S))
            return q
        acc, c = self.lin(p.off)
        if 'rows' in o.tags:
            i, j, c = self.rowcol(p)
            return o.tags['rows'][1](i, j), c
        if any(k % S for _, k in acc.values()):
            acc, c = self.ites(acc, c, S)
        if any(k % S for _, k in acc.values()):
            raise Unsupported('cannot decode array offset %s (stride %d)' % (p.off, S))
        return self.unlin({i: (t, k // S) for i, (t, k) in acc.items()}, c // S), c % S

    def rowcol(self, p):
        """position in an object that stands for equally long arrays, one per row (tags['rows'] = (distance of
        two rows in bytes, index term of row and column))"""
        R, S = p.obj.tags['rows'][0], p.obj.stride
        acc, c = self.lin(p.off)
        row, col = {}, {}
        for i, (t, k) in acc.items():
            if k % R == 0:
                row[i] = (t, k // R)
            elif k % S == 0 and abs(k) < R:
                col[i] = (t, k // S)
            else:
                raise Unsupported('cannot decode the position %s in %s' % (p.off, p.obj))
        r, b = (c + R // 2) // R, 0
        b = c - r * R
        return self.unlin(row, r), self.unlin(col, b // S), b % S

    def bv_exact(self, off, S):
        terms = []
        const = [0]

        def go(t, k):
            if z3.is_bv_value(t):
                v = t.as_long()
                v = v - (1 << 64) if v >= 1 << 63 else v
                const[0] += v * k
                return
            d = t.decl().kind()
            if d == z3.Z3_OP_BADD:
                for x in t.children():
                    go(x, k)
                return
            if d == z3.Z3_OP_BMUL and len(t.children()) == 2 and z3.is_bv_value(t.children()[0]):
                v = t.children()[0].as_long()
                v = v - (1 << 64) if v >= 1 << 63 else v
                go(t.children()[1], k * v)
                return
            if d == z3.Z3_OP_CONCAT and len(t.children()) == 2 and z3.is_bv_value(t.children()[1]) and t.children()[1].as_long() == 0:
                # (x ++ 0...0) == x << n, high bits lost were already lost
                n = t.children()[1].size()
                x = t.children()[0]
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EXTRACT and x.params()[1] == 0:
                    y = x.children()[0]
                    if y.size() == 64:
                        go(y, k << n)
                        return
                go(z3.ZeroExt(64 - x.size(), x), k << n)
                return
            terms.append((t, k))
        go(z3.simplify(off), 1)
        if any(k % S for _, k in terms):
            return None
        r = None
        for t, k in terms:
            x = t if k == S else t * (k // S)
            r = x if r is None else r + x
        c = const[0]
        idx = c // S
        if r is None:
            return idx, c % S
        return (r + idx if idx else r), c % S

    def in_bounds(self, st, p, n, what):
        """obligation: [p, p+n) lies inside its live object"""
        o = p.obj
        if o is None:
            self.oblige(st, 'no null dereference (%s)' % what, False)
            raise PathEnd()
        if o in st.dead:
            self.oblige(st, 'no use after %s (%s of %s)' % (st.dead[o], what, o.name), False)
            raise PathEnd()
        if o.size is None:
            return
        if not is_sym(p.off) and not is_sym(o.size):
            if p.off < 0 or p.off + n > o.size:
                self.oblige(st, 'in-bounds %s of %s' % (what, o.name), False)
                raise PathEnd()
            return
        if o.stride is not None and self.mode == 'int':
            if 'rows' in o.tags:
                i, j, c = self.rowcol(p)
                g = o.tags['rows'][2](self, st, i, j) if c + n <= o.stride else None
            else:
                i, c = self.elem(st, p)
                g = z3.And(B(i >= 0), B(i < o.count)) if c + n <= o.stride else None
            if g is not None:
                self.oblige(st, 'in-bounds %s of %s' % (what, o.name), g)
                return
        if self.mode == 'bv':
            off, size = self.bv(p.off, 64), self.bv(o.size, 64)
            g = z3.And(z3.ULE(off, size), z3.ULE(self.bv(n, 64), size - off))
        else:
            g = z3.And(B(p.off >= 0), B(p.off + n <= o.size))
        self.oblige(st, 'in-bounds %s of %s' % (what, o.name), g)

    def map_sort(self, ty):
        if self.mode == 'bv':
            if ty.k == 'fp':
                return z3.ArraySort(z3.BitVecSort(64), z3.Float64() if self.opts['fp'] == 'fp' else z3.RealSort())
            return z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(ty.size * 8))
        if ty.k == 'fp':
            return z3.ArraySort(z3.IntSort(), z3.RealSort() if self.opts['fp'] == 'real' else z3.Float64())
        return z3.ArraySort(z3.IntSort(), z3.IntSort())

    def getmap(self, st, o, c, ty):
        key = (o, ('m', c, ty.size, ty.k == 'fp'))
        m = st.mem.get(key)
        if m is None:
            for (oo, k) in st.mem:
                if oo is o and k[0] == 'm' and k[1] < c + ty.size and c < k[1] + k[2] and k[1:3] != (c, ty.size):
                    raise Unsupported('mixed-size access to %s at %d/%d vs %s' % (o, c, ty.size, k))
            if o.tags.get('init') is not None:
                m = o.tags['init'](self, c, ty)
            else:
                m = z3.Const('%s!%d@%d.%d' % (o.name, o.uid, c, ty.size), self.map_sort(ty))
            st.mem[key] = m
        return m

    def setmap(self, st, o, c, ty, m):
        key = (o, ('m', c, ty.size, ty.k == 'fp'))
        st.mem[key] = m
        st.writes.add(key)

    def redirect(self, p):
        """pointer into an array embedded in a struct-like object -> pointer into the array's own object"""
        o = p.obj
        regs = o.tags.get('regions') if o is not None else None
        if not regs:
            return p
        c = p.off
        if is_sym(c):
            c = self.lin(p.off)[1]
        for start, end, sub in regs:
            if start <= c < end or (is_sym(p.off) and len(regs) == 1):
                sub.tags['parent'] = (o, start)
                return self.ptr_add(Ptr(sub, p.off), -start)
        return p

    def unredirect(self, p):
        if isinstance(p, Ptr) and p.obj is not None and 'parent' in p.obj.tags:
            o, start = p.obj.tags['parent']
            return self.ptr_add(Ptr(o, p.off), start)
        return p

    def load(self, st, p, ty, what='read'):
        if p is UNDEF or not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        if ty.k not in ('struct', 'array'):
            p = self.redirect(p)
        o = p.obj
        self.in_bounds(st, p, ty.size, what)
        if ty.k in ('struct', 'array'):
            # aggregate load: element-wise
            if ty.k == 'struct':
                return [self.load(st, self.ptr_add(p, ty.offs[i]), e) for i, e in enumerate(ty.els)]
            return [self.load(st, self.ptr_add(p, i * ty.el.size), ty.el) for i in range(ty.n)]
        if ty.k == 'vector':
            raise Unsupported('vector load')
        if o.stride is not None:
            i, c = self.elem(st, p)
            if o.ghost:
                raise Unsupported('raw read inside an opaque element')
            if o.stride == 1 and ty.size > 1:
                if self.mode != 'bv' or ty.k != 'int':
                    return self.load_bytes_int(st, p, ty)
                m = self.getmap(st, o, 0, _I8)
                bs = [z3.Select(m, self.bv(i, 64) + k) for k in range(ty.size)]
                return z3.Concat(*reversed(bs))
            if ty.k == 'ptr':
                return self.load_ptr_elem(st, o, i, c)
            m = self.getmap(st, o, c, ty)
            v = z3.Select(m, self.bv(i, 64) if self.mode == 'bv' else i)
            if not is_sym(i) or z3.is_store(m):
                v = z3.simplify(v)
            if ty.k == 'int' and ty.w == 1:
                raise Unsupported('i1 array')
            if self.mode == 'int' and ty.k == 'int':
                if z3.is_int_value(v):
                    return v.as_long()
                if o.kind == 'global' and 'init' in o.tags:
                    x = z3.Int(self.fresh_name('tab'))
                    st.assume(x == v)
                    v = x
                st.assume(z3.And(v >= 0, v < (1 << ty.w)))
                if 'on_load' in o.tags:          # a consequence of the path condition, made explicit
                    f = o.tags['on_load'](i, v)
                    self.oblige(st, 'what is known of %s' % o.name, f, 'lemma')
                    st.assume(f)
            return v
        if is_sym(p.off):
            return self.load_sym_struct(st, p, ty)
        key = (o, ('c', p.off))
        c = st.mem.get(key)
        if c is not None:
            cty, v = c
            if cty.k == ty.k and cty.size == ty.size:
                return v
            if v is UNDEF:
                return self.fresh_of(ty, st, 'undef') if ty.k in ('int', 'fp') else UNDEF
            return self.repun(st, o, p.off, ty)
        for k in range(max(0, p.off - 15), p.off + ty.size):
            c = st.mem.get((o, ('c', k)))
            if c is not None and k + c[0].size > p.off:
                return self.repun(st, o, p.off, ty)
        v = self.initial(st, o, p.off, ty)
        st.mem[key] = (ty, v)
        return v

    def load_ptr_elem(self, st, o, i, c):
        h = o.tags.get('ptr_elem')
        if h is None:
            raise Unsupported('load of a pointer from array %s' % o)
        return h(self, st, o, i, c)

    def load_bytes_int(self, st, p, ty):
        # little-endian: the value is the number its bytes spell
        o, i = p.obj, p.off
        m = self.getmap(st, o, 0, _I8)
        r = z3.IntVal(0)
        for k in range(ty.size):
            b = z3.Select(m, i + k)
            st.assume(z3.And(b >= 0, b < 256))
            r = r + (1 << (8 * k)) * b
        return z3.simplify(r)

    def load_sym_struct(self, st, p, ty):
        # symbolic index into an array embedded in a struct-like object
        o = p.obj
        raise Unsupported('symbolic offset into struct object %s: %s' % (o, p.off))

    def initial(self, st, o, off, ty):
        """value of memory never written on this path: arbitrary but fixed"""
        if 'default' in o.tags:
            v = o.tags['default'](self, st, off, ty)
            if v is not None:
                return v
        nm = '%s!%d@%d:%s' % (o.name, o.uid, off, ty.s if ty.k != 'ptr' else 'ptr')
        if ty.k == 'int':
            if self.mode == 'bv':
                if ty.w == 1:
                    return z3.Bool(nm)
                return z3.BitVec(nm, ty.w)
            v = z3.Int(nm)
            st.assume(z3.And(v >= 0, v < (1 << ty.w)))
            return v
        if ty.k == 'fp':
            return z3.Real(nm) if self.opts['fp'] == 'real' else z3.Const(nm, z3.Float64() if ty.w == 64 else z3.Float32())
        return UNDEF

    def cell_bytes(self, st, o, off, n):
        """bv mode / concrete: list of n byte terms of a struct-like object"""
        out = []
        i = 0
        while i < n:
            c = st.mem.get((o, ('c', off + i)))
            found = None
            if c is not None:
                found = (off + i, c)
            else:
                for k in range(max(0, off + i - 15), off + i):
                    c2 = st.mem.get((o, ('c', k)))
                    if c2 is not None and k + c2[0].size > off + i:
                        found = (k, c2)
            if found is None:
                v = self.initial(st, o, off + i, _I8)
                st.mem[(o, ('c', off + i))] = (_I8, v)
                out.append(v)
                i += 1
                continue
            k, (cty, v) = found
            d = off + i - k
            if cty.k == 'ptr':
                raise Unsupported('byte access to pointer cell')
            if cty.k == 'fp':
                if is_sym(v) and self.opts['fp'] == 'fp':
                    v = z3.fpToIEEEBV(v)
                else:
                    raise Unsupported('byte access to floating cell')
            if cty.w == 1:
                v = Ite(self.tobool(v), 1, 0) if is_sym(v) else int(v)
                if is_sym(v) and self.mode == 'bv':
                    v = z3.If(self.tobool(c[1]), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            if not is_sym(v):
                out.append((v >> (8 * d)) & 255)
            elif self.mode == 'bv':
                out.append(z3.Extract(8 * d + 7, 8 * d, v) if cty.size > 1 else v)
            else:
                q, r = self.divmod(st, v, 1 << (8 * d), 64)
                out.append(self.divmod(st, q, 256, 64)[1])
            i += 1
        return out

    def repun(self, st, o, off, ty):
        if self.mode == 'int' and ty.k == 'int':
            # a read that is exactly tiled by smaller integer cells
            r, k = 0, off
            while k < off + ty.size:
                c = st.mem.get((o, ('c', k)))
                if c is None or c[0].k != 'int' or c[0].w < 8 or c[0].size * 8 != c[0].w or k + c[0].size > off + ty.size or isinstance(c[1], (PInt, Undef)):
                    r = None
                    break
                r = r + c[1] * (1 << (8 * (k - off)))
                k += c[0].size
            if r is not None and k == off + ty.size:
                return r
        bs = self.cell_bytes(st, o, off, ty.size)
        if ty.k == 'ptr':
            raise Unsupported('pointer re-read from bytes')
        if all(not is_sym(b) for b in bs):
            v = sum(b << (8 * i) for i, b in enumerate(bs))
            if ty.k == 'fp':
                if v == 0:
                    return self.fpconst(0.0, ty.w)
                raise Unsupported('fp from bytes')
            if ty.w == 1:
                return bool(v & 1)
            return v
        if self.mode == 'bv':
            v = z3.simplify(z3.Concat(*reversed([self.bv(b, 8) for b in bs]))) if len(bs) > 1 else bs[0]
            if ty.k == 'fp':
                return z3.fpBVToFP(v, z3.Float64() if ty.w == 64 else z3.Float32())
            return v
        r = 0
        for i, b in enumerate(bs):
            r = r + b * (1 << (8 * i))
        return r

    def store(self, st, p, v, ty, what='write'):
        if p is UNDEF or not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        if ty.k not in ('struct', 'array'):
            p = self.redirect(p)
        o = p.obj
        self.in_bounds(st, p, ty.size, what)
        if o.const:
            self.oblige(st, 'no write to constant %s' % o.name, False)
            raise PathEnd()
        if ty.k == 'struct':
            if v is UNDEF:
                v = [UNDEF] * len(ty.els)
            for i, e in enumerate(ty.els):
                self.store(st, self.ptr_add(p, ty.offs[i]), v[i], e)
            return
        if ty.k == 'array':
            if v is UNDEF:
                v = [UNDEF] * ty.n
            for i in range(ty.n):
                self.store(st, self.ptr_add(p, i * ty.el.size), v[i], ty.el)
            return
        if ty.k == 'vector':
            raise Unsupported('vector store')
        if o.stride is not None:
            i, c = self.elem(st, p)
            if o.ghost:
                raise Unsupported('raw write inside an opaque element')
            if v is UNDEF:
                v = self.fresh_of(ty, st, 'undef')
            if o.stride == 1 and ty.size > 1:
                if self.mode == 'bv' and ty.k == 'int':
                    m = self.getmap(st, o, 0, _I8)
                    vv = self.bv(v, ty.w)
                    for k in range(ty.size):
                        m = z3.Store(m, self.bv(i, 64) + k, z3.Extract(8 * k + 7, 8 * k, vv))
                    self.setmap(st, o, 0, _I8, m)
                    return
                if ty.k != 'int':
                    raise Unsupported('wide store to byte array in int mode')
                m, t = self.getmap(st, o, 0, _I8), z3.IntVal(0)
                for k in range(ty.size):
                    d = z3.Int(self.fresh_name('byte'))
                    st.assume(z3.And(d >= 0, d < 256))
                    t = t + (1 << (8 * k)) * d
                    m = z3.Store(m, i + k, d)
                st.assume(t == v)
                self.setmap(st, o, 0, _I8, m)
                return
            if ty.k == 'ptr':
                h = o.tags.get('ptr_store')
                if h is None:
                    raise Unsupported('store of a pointer into array %s' % o)
                h(self, st, o, i, c, v)
                return
            m = self.getmap(st, o, c, ty)
            if self.mode == 'bv':
                m2 = z3.Store(m, self.bv(i, 64), self.bv(v, ty.size * 8) if ty.k == 'int' else v)
            else:
                m2 = z3.Store(m, i, v)
            self.setmap(st, o, c, ty, m2)
            return
        if is_sym(p.off):
            raise Unsupported('symbolic offset into struct object %s: %s' % (o, p.off))
        off = p.off
        # invalidate overlapping cells
        for k in range(max(0, off - 15), off + ty.size):
            c = st.mem.get((o, ('c', k)))
            if c is not None and k + c[0].size > off and not (k == off and c[0].size == ty.size):
                # keep the bytes outside the overwritten range
                if c[0].k != 'int' or c[0].w == 1:
                    bs = None
                else:
                    bs = self.cell_bytes(st, o, k, c[0].size)
                del st.mem[(o, ('c', k))]
                st.writes.add((o, ('c', k)))
                for j in range(c[0].size):
                    if not (off <= k + j < off + ty.size):
                        st.mem[(o, ('c', k + j))] = (_I8, bs[j] if bs else UNDEF)
                        st.writes.add((o, ('c', k + j)))
        h = o.tags.get('on_store')
        if h is not None:
            v = h(self, st, off, v, ty)
        st.mem[(o, ('c', off))] = (ty, v)
        st.writes.add((o, ('c', off)))

    def new_obj(self, st, name, kind, size, **kw):
        o = Obj(self.fresh_name(name), kind, size, **kw)
        if kind == 'heap':
            st.allocs.append(o)
        return o

    def free(self, st, p, what='delete'):
        if isinstance(p, Ptr) and p.obj is None:
            return
        if not isinstance(p, Ptr):
            raise Unsupported('free of %r' % (p,))
        o = p.obj
        if 'free' in o.tags:
            o.tags['free'](self, st, p)
            return
        if o in st.dead:
            self.oblige(st, 'no double free of %s' % o.name, False)
            raise PathEnd()
        if o.kind != 'heap' or (is_sym(p.off) or p.off != 0):
            self.oblige(st, 'only pointers from new are freed (%s)' % o.name, Eq(p.off, 0) if o.kind == 'heap' and is_sym(p.off) else False)
        for h in self.opts.get('on_free', ()):
            h(self, st, o)
        st.dead[o] = 'free'
        st.writes.add((o, ('free',)))

    # ------------------------------------------------------------------ constants
    def fpconst(self, v, w=64):
        if self.opts['fp'] == 'real':
            if self.opts.get('rnd') and v in (float('inf'), float('-inf')):
                return z3.RealVal((1 << 1024) if v > 0 else -(1 << 1024))   # beyond every finite double
            if v != v or v in (float('inf'), float('-inf')):
                return z3.Real('fp_' + str(v).replace('-', 'm'))
            from fractions import Fraction
            f = Fraction(v)
            return z3.RealVal(f)
        return z3.FPVal(v, z3.Float64() if w == 64 else z3.Float32())

    def const(self, st, c):
        k = c.kind
        if k == 'int':
            if c.ty.w == 1:
                return bool(c.val)
            return c.val
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'func':
            return Fn(c.val)
        if k == 'fp':
            return self.fpconst(c.val, c.ty.w)
        if k == 'global':
            return Ptr(self.global_obj(st, c.val), 0)
        if k == 'zero':
            return self.zero(c.ty)
        if k == 'agg':
            return [self.const(st, x) for x in c.val]
        if k == 'cexpr':
            if c.val == 'gep':
                p = self.const(st, c.ops[0])
                return self.gep(st, c.extra, p, [(self.const(st, x), x.ty.w) for x in c.ops[1:]])
            if c.val in ('bitcast', 'addrspacecast'):
                return self.const(st, c.ops[0])
        if k == 'alias':
            f = self.mod.fns.get(c.val.replace('C1', 'C2').replace('D1', 'D2'))
            if f is not None:
                return Fn(f)
        if k == 'metadata':
            return None
        raise Unsupported('constant %s' % c)

    def zero(self, ty):
        if ty.k == 'int':
            return False if ty.w == 1 else 0
        if ty.k == 'fp':
            return self.fpconst(0.0, ty.w)
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'struct':
            return [self.zero(e) for e in ty.els]
        if ty.k in ('array', 'vector'):
            return [self.zero(ty.el) for _ in range(ty.n)]
        raise Unsupported('zero of %s' % ty)

    def global_obj(self, st, name):
        o = self.globals.get(name)
        if o is not None:
            return o
        ty = self.mod.global_type(name)
        isc = self.mod.global_is_const(name)
        o = Obj(name, 'global', ty.size, const=isc)
        self.globals[name] = o
        init = self.mod.global_init(name)
        elt = ty
        if ty.k == 'array' and ty.el.k in ('int', 'fp'):
            o.stride = ty.el.size
            o.count = ty.n
            if isc and init is not None:
                vals = self.const(st, init)

                def mk(eng, c, t, vals=vals, el=ty.el):
                    srt = eng.map_sort(el)
                    m = z3.K(srt.domain(), eng.bv(0, el.w) if eng.mode == 'bv' else z3.IntVal(0)) if el.k == 'int' else z3.K(srt.domain(), eng.fpconst(0.0))
                    for i, x in enumerate(vals):
                        m = z3.Store(m, z3.BitVecVal(i, 64) if eng.mode == 'bv' else i, x)
                    return m
                o.tags['init'] = mk
        elif isc and init is not None:
            flat = {}

            def walk(t, c, off):
                if t.k == 'struct':
                    cc = c if isinstance(c, list) else self.zero(t)
                    for i, e in enumerate(t.els):
                        walk(e, cc[i], off + t.offs[i])
                elif t.k == 'array':
                    for i in range(t.n):
                        walk(t.el, c[i], off + i * t.el.size)
                else:
                    flat[off] = (t, c)
            walk(ty, self.const(st, init), 0)

            def dflt(eng, st, off, t, flat=flat):
                x = flat.get(off)
                if x is not None and x[0].size == t.size:
                    return x[1]
                return None
            o.tags['default'] = dflt
        h = self.opts.get('global_hook')
        if h:
            h(self, o, name, ty)
        return o

    # ------------------------------------------------------------------ execution
    def val(self, st, env, x):
        if isinstance(x, SSA):
            return env[x.id]
        return self.const(st, x)

    def contract(self, rx, handler):
        self.contracts.append((re.compile(rx), handler))

    def find_contract(self, fn):
        h = getattr(fn, '_contract_%d' % id(self), 0)
        if h == 0:
            h = None
            for rx, hd in reversed(self.contracts):
                if rx.search(fn.dname) or rx.search(fn.name):
                    h = hd
                    break
            setattr(fn, '_contract_%d' % id(self), h)
        return h

    def call(self, st, fn, args, inst=None):
        """returns a list of (state, value)"""
        h = self.find_contract(fn)
        if h is not None:
            r = h(self, st, fn, args)
            self.stats['contracts'].add(fn.dname[:160])
            if isinstance(r, list) and r and isinstance(r[0], tuple) and len(r[0]) == 2 and isinstance(r[0][0], State):
                return r
            if isinstance(r, list) and not r:
                return []
            return [(st, r)]
        if fn.name.startswith('llvm.'):
            return [(st, self.intrinsic(st, fn, args))]
        if fn.decl:
            raise Unsupported('no contract for external function %s' % fn.dname)
        if len(self.callstack) > 60:
            raise Unsupported('recursion through %s' % fn.dname)
        self.stats['inlined'].add(fn.dname[:160])
        return self.run(fn, args, st)

    def run(self, fn, args, st):
        """symbolically execute the body of fn; returns [(state, retval)]"""
        self.mod.load(fn)
        if fn.decl:
            raise Unsupported('no body for %s' % fn.dname)
        if fn.irreducible:
            raise Unsupported('irreducible control flow in %s' % fn.dname)
        env = {}
        for a, v in zip(fn.args, args):
            env[a.id] = v
        frame = dict(allocas=[])
        self.callstack.append(fn)
        saved = self.inst
        try:
            outs = self.region(fn, fn.blocks[0], None, env, st, ())
        finally:
            self.callstack.pop()
        self.inst = saved
        res = []
        for o in outs:
            assert o[0] == 'ret', o[0]
            s = o[1]
            for ob in list(s.mem):
                pass
            res.append((s, o[2]))
        return res

    def region(self, fn, block, prev, env, st, active):
        """execute from block until return / leaving the innermost active loop.
        active: tuple of (header id, block id set), innermost last"""
        outs = []
        work = [(block, prev, env, st)]
        while work:
            block, prev, env, st = work.pop()
            # edge into an active header / out of the innermost active loop
            if active and prev is not None:
                h, blocks = active[-1]
                if block.id == h:
                    outs.append(('back', prev, env, st))
                    continue
                if block.id not in blocks:
                    outs.append(('exit', block, prev, env, st))
                    continue
            if block.doomed:
                self.doomed(st, block, fn)
                continue
            if block.id in fn.loops and not self.unrolling(fn, block):
                lo = fn.loops[block.id]
                for o in self.loop(fn, lo, prev, env, st, active):
                    if o[0] == 'exit':
                        work.append((o[1], o[2], o[3], o[4]))
                    else:
                        outs.append(o)
                continue
            self.stats['steps'] += 1
            if self.stats['steps'] > self.opts['max_steps']:
                raise Unsupported('step budget exceeded')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget of this function used up')
            if block.id in fn.loops:
                env = dict(env)
                key = ('unroll', fn.name, block.id, len(self.callstack))
                env[key] = env.get(key, 0) + 1 if prev is not None and prev in fn.loops[block.id].latches else 1
                if env[key] > self.opts['unroll']:
                    raise Unsupported('unrolling limit reached in %s' % fn.dname)
            self.block(fn, block, prev, env, st, work, outs)
            if len(work) + len(outs) > self.opts['max_paths']:
                raise Unsupported('too many paths in %s' % fn.dname)
        return outs

    def unrolling(self, fn, block):
        if self.unroll_loops is not None:
            return self.unroll_loops(fn, block)
        return self.opts['unroll'] > 0

    def doomed(self, st, block, fn):
        """every path from here ends in a call that does not return"""
        seen, w, names = set(), [block], []
        while w:
            b = w.pop()
            if b.id in seen:
                continue
            seen.add(b.id)
            w.extend(b.succs)
            for i in b.insts:
                if i.op in ('call', 'invoke') and isinstance(i.x['callee'], Const) and i.x['callee'].kind == 'func':
                    names.append(i.x['callee'].val.dname)
                self.inst = i if i.line else self.inst
        txt = ' '.join(names)
        if any(s in txt for s in ('Assert', 'abort', '__assert', 'exit', '__glibcxx_assert')):
            self.stats['aborts'] += 1
            if self.assert_ok:
                if callable(self.assert_ok):
                    r = self.assert_ok(self, st)
                    if r is not None and r is not True:
                        self.oblige(st, 'refused only where the contract permits it', r, 'assert')
                return
            self.oblige(st, 'assertion never fails', False, 'assert')
        elif '__throw' in txt or '__cxa' in txt or 'throw_exception' in txt:
            self.stats['throws'] += 1
            h = self.opts.get('on_throw')
            if h:
                h(self, st)
        else:
            self.oblige(st, 'unreachable code is not reached', False, 'assert')

    def phis(self, block, prev, env, st):
        if not block.phis:
            return env
        vals = []
        for ph in block.phis:
            for v, b in ph.ops:
                if b is prev:
                    vals.append((ph.id, self.val(st, env, v)))
                    break
            else:
                raise Unsupported('phi without incoming edge')
        env = dict(env)
        env.update(vals)
        return env

    def block(self, fn, block, prev, env, st, work, outs, start=0):
        if start == 0:
            env = self.phis(block, prev, env, st)
        env = dict(env)
        if start == 0 and 'name_phi' in self.opts and block.id in fn.loops:
            for i in block.phis:
                env[i.id] = self.opts['name_phi'](self, st, env[i.id], i.ty)
        n = len(block.insts)
        k = start
        while k < n:
            i = block.insts[k]
            self.inst = i
            op = i.op
            try:
                if op == 'br':
                    if not i.ops:
                        work.append((block.succs[0], block, env, st))
                        return
                    c = self.tobool(self.val(st, env, i.ops[0]))
                    if isinstance(c, bool):
                        work.append((block.succs[0 if c else 1], block, env, st))
                        return
                    c = z3.simplify(c)
                    if z3.is_true(c) or z3.is_false(c):
                        work.append((block.succs[0 if z3.is_true(c) else 1], block, env, st))
                        return
                    t = self.feasible(st, c)
                    f = self.feasible(st, z3.Not(c)) if t else True
                    if t and f:
                        s2 = st.copy()
                        s2.assume(z3.Not(c))
                        st.assume(c)
                        work.append((block.succs[1], block, env, s2))
                        work.append((block.succs[0], block, env, st))
                    elif t:
                        st.assume(c)
                        work.append((block.succs[0], block, env, st))
                    else:
                        st.assume(z3.Not(c))
                        if not self.feasible(st, z3.BoolVal(True)):
                            return
                        work.append((block.succs[1], block, env, st))
                    return
                if op == 'switch':
                    v = self.val(st, env, i.ops[0])
                    w = i.ops[0].ty.w
                    rest = []
                    for cv, tgt in i.x['cases']:
                        c = self.icmp(st, 'eq', v, cv.val, i.ops[0].ty)
                        if c is True:
                            work.append((tgt, block, env, st))
                            return
                        if c is False:
                            continue
                        rest.append(z3.Not(c))
                        if self.feasible(st, c):
                            s2 = st.copy()
                            s2.assume(c)
                            work.append((tgt, block, env, s2))
                    d = And(*rest) if rest else True
                    if self.feasible(st, d):
                        st.assume(d)
                        work.append((i.x['default'], block, env, st))
                    return
                if op == 'ret':
                    v = self.val(st, env, i.ops[0]) if i.ops else None
                    self.stats['paths'] += 1
                    # stack objects of this frame die
                    for ob in env.get('allocas', ()):
                        st.dead[ob] = 'return (stack object)'
                    outs.append(('ret', st, v))
                    return
                if op == 'unreachable':
                    return
                if op in ('call', 'invoke'):
                    cal = i.x['callee']
                    if isinstance(cal, Const) and cal.kind == 'func':
                        target = cal.val
                    elif isinstance(cal, SSA):
                        f = env[cal.id]
                        if isinstance(f, Fn):
                            target = f.fn
                        else:
                            h = self.opts.get('indirect')
                            target = h(self, st, f) if h else None
                            if target is None:
                                raise Unsupported('indirect call')
                    elif isinstance(cal, Const) and cal.kind == 'asm':
                        env[i.id] = self.asm(st, cal.val, [self.val(st, env, a) for a in i.ops], i)
                        k += 1
                        continue
                    elif isinstance(cal, Const) and cal.kind == 'alias':
                        target = None
                        nm = cal.val.replace('C1', 'C2').replace('D1', 'D2')
                        target = self.mod.fns.get(nm)
                        if target is None:
                            raise Unsupported('alias call %s' % cal.val)
                    else:
                        raise Unsupported('call of %r' % (cal,))
                    args = [self.val(st, env, a) for a in i.ops]
                    res = self.call(st, target, args, i)
                    self.inst = i
                    if not res:
                        return
                    if len(res) == 1:
                        st = res[0][0]
                        env[i.id] = res[0][1]
                    else:
                        for s2, v in res[1:]:
                            e2 = dict(env)
                            e2[i.id] = v
                            self.block_cont(fn, block, e2, s2, work, outs, k + 1)
                        st = res[0][0]
                        env[i.id] = res[0][1]
                    if op == 'invoke':
                        work.append((block.succs[0], block, env, st))
                        return
                    k += 1
                    continue
                if op == 'select':
                    c = self.tobool(self.val(st, env, i.ops[0]))
                    a, b = self.val(st, env, i.ops[1]), self.val(st, env, i.ops[2])
                    for x, w in ((a, c), (b, (not c) if isinstance(c, bool) else z3.Not(c))) if self.poison else ():
                        pz = self.poison.get(x.get_id()) if is_sym(x) else None
                        if pz is not None:
                            # a conversion whose value is only used where it is chosen
                            self.oblige(st, 'floating to integer conversion in range', z3.Implies(B(w), pz[1]), 'overflow')
                    if isinstance(c, bool):
                        env[i.id] = a if c else b
                        k += 1
                        continue
                    r = None if self.opts.get('fork_selects') and not (i.ty.k == 'int' and i.ty.w == 1) else self.merge(c, a, b, i.ty)
                    if r is None:
                        s2 = st.copy()
                        s2.assume(z3.Not(c))
                        if self.feasible(s2, z3.BoolVal(True)):
                            e2 = dict(env)
                            e2[i.id] = b
                            self.block_cont(fn, block, e2, s2, work, outs, k + 1)
                        st.assume(c)
                        if not self.feasible(st, z3.BoolVal(True)):
                            return
                        r = a
                    env[i.id] = r
                    k += 1
                    continue
                if op in ('shl', 'lshr', 'ashr') and self.mode == 'int' and i.ops[1].__class__ is SSA and is_sym(env.get(i.ops[1].id)):
                    vs = self.few_values(st, env[i.ops[1].id])
                    if vs:
                        sv = env[i.ops[1].id]
                        for x in vs[1:]:
                            s2, e2 = st.copy(), dict(env)
                            s2.assume(sv == x)
                            e2[i.ops[1].id] = x
                            self.block_cont(fn, block, e2, s2, work, outs, k)
                        st.assume(sv == vs[0])
                        env[i.ops[1].id] = vs[0]
                if op == 'alloca':
                    ty = i.x['ty']
                    o = self.new_obj(st, 'stk_%s' % (i.name or i.id), 'stack', ty.size)
                    if ty.k == 'array' and ty.el.k in ('int', 'fp') and ty.n > self.opts.get('stack_cells', 0):
                        o.stride = ty.el.size
                        o.count = ty.n
                    gh = self.opts.get('alloca_hook')
                    if gh:
                        gh(self, st, o, ty)
                    env[i.id] = Ptr(o, 0)
                    env['allocas'] = env.get('allocas', ()) + (o,)
                    k += 1
                    continue
                env[i.id] = self.step(st, env, i)
            except PathEnd:
                return
            k += 1

    def block_cont(self, fn, block, env, st, work, outs, k):
        self.block(fn, block, None, env, st, work, outs, start=k)

    def merge(self, c, a, b, ty):
        if a is b:
            return a
        if ty.k == 'ptr':
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                if self.mode == 'bv':
                    return Ptr(a.obj, z3.If(c, self.bv(a.off, 64), self.bv(b.off, 64)))
                return Ptr(a.obj, z3.If(c, B_int(a.off), B_int(b.off)))
            return None
        if ty.k == 'int':
            if ty.w == 1:
                a, b = self.tobool(a), self.tobool(b)
                return z3.If(c, B(a), B(b))
            if a is UNDEF or b is UNDEF:
                return None
            if self.mode == 'bv':
                return z3.If(c, self.bv(a, ty.w), self.bv(b, ty.w))
            return z3.If(c, B_int(a), B_int(b))
        if ty.k == 'fp':
            if a is UNDEF or b is UNDEF:
                return None
            return z3.If(c, a, b)
        return None

    def step(self, st, env, i):
        op = i.op
        V = lambda k: self.val(st, env, i.ops[k])
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = V(0), V(1)
            if isinstance(a, PInt) or isinstance(b, PInt):
                return self.pint(st, op, a, b)
            return self.binop(st, op, a, b, i.ty, i.x.get('nsw', False), i.x.get('nuw', False))
        if op == 'icmp':
            a, b = V(0), V(1)
            ty = i.ops[0].ty
            if isinstance(a, PInt) or isinstance(b, PInt):
                a, b = self.unpint(st, a), self.unpint(st, b)
            return self.icmp(st, i.x['pred'], a, b, ty)
        if op == 'load':
            return self.load(st, V(0), i.ty)
        if op == 'store':
            v = V(0)
            if isinstance(v, PInt):
                v = self.unpint(st, v)
            self.store(st, V(1), v, i.ops[0].ty)
            return None
        if op == 'gep':
            return self.gep(st, i.x['ty'], V(0), [(self.val(st, env, x), x.ty.w) for x in i.ops[1:]])
        if op == 'trunc':
            return self.trunc(st, V(0), i.ops[0].ty.w, i.ty.w)
        if op == 'zext':
            return self.zext(st, V(0), i.ops[0].ty.w, i.ty.w)
        if op == 'sext':
            return self.sext(st, V(0), i.ops[0].ty.w, i.ty.w)
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            v = V(0)
            if op == 'bitcast' and i.ty.k != i.ops[0].ty.k:
                if self.opts['fp'] == 'fp' and i.ty.k == 'fp':
                    return z3.fpBVToFP(self.bv(v, i.ty.w), z3.Float64() if i.ty.w == 64 else z3.Float32())
                raise Unsupported('bitcast %s -> %s' % (i.ops[0].ty, i.ty))
            return v
        if op == 'ptrtoint':
            p = V(0)
            if isinstance(p, Ptr) and p.obj is None and not is_sym(p.off):
                return p.off
            return PInt(p)
        if op == 'inttoptr':
            v = V(0)
            if isinstance(v, PInt) and v.k == 1:
                return v.p
            raise Unsupported('inttoptr')
        if op == 'extractvalue':
            v = V(0)
            for k in i.x['idx']:
                v = v[k]
            return v
        if op == 'insertvalue':
            v = V(0)
            if v is UNDEF:
                v = [UNDEF] * i.ty.n
            v = list(v)
            if len(i.x['idx']) != 1:
                raise Unsupported('nested insertvalue')
            v[i.x['idx'][0]] = V(1)
            return v
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcmp', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            return self.fpop(st, i, [self.val(st, env, x) for x in i.ops])
        if op == 'atomicrmw':
            p, v = V(0), V(1)
            st.ghost['rmw'] = st.ghost.get('rmw', 0) + 1
            st.trace.append(('rmw', i.x['rmw'], i.x['ordering']))
            old = self.load(st, p, i.ty, 'atomic read')
            rm = i.x['rmw']
            if rm == 'xchg':
                nv = v
            else:
                nv = self.binop(st, rm, old, v, i.ty)
            self.store(st, p, nv, i.ty, 'atomic write')
            return old
        if op == 'cmpxchg':
            p, c, n = V(0), V(1), V(2)
            st.trace.append(('cmpxchg',))
            old = self.load(st, p, i.ops[1].ty, 'atomic read')
            ok = self.icmp(st, 'eq', old, c, i.ops[1].ty)
            self.store(st, p, self.merge(B(ok), n, old, i.ops[1].ty) if is_sym(ok) else (n if ok else old), i.ops[1].ty, 'atomic write')
            return [old, ok]
        if op == 'fence':
            st.trace.append(('fence',))
            return None
        if op == 'landingpad':
            raise PathEnd()
        raise Unsupported('instruction %s' % op)

    def pint(self, st, op, a, b):
        """arithmetic on pointers cast to integers"""
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            pa, pb = a.p, b.p
            if isinstance(pa, Ptr) and isinstance(pb, Ptr) and pa.obj is pb.obj:
                if self.mode == 'bv':
                    return self.bv_binop(st, 'sub', pa.off, pb.off, 64)
                d = self.unlin(*self.lin_sub(pa.off, pb.off))
                return self.wrap(st, d, 64)
        if op == 'add' and isinstance(a, PInt) and not isinstance(b, PInt):
            sb = self.signed(st, b, 64) if self.mode == 'int' else b
            return PInt(self.ptr_add(a.p, sb))
        if op == 'sub' and isinstance(a, PInt) and not isinstance(b, PInt) and self.mode == 'int':
            return PInt(self.ptr_add(a.p, -self.signed(st, b, 64)))
        return self.binop(st, op, self.unpint(st, a), self.unpint(st, b), _I64)

    def lin_sub(self, x, y):
        acc, c = self.lin(x)
        acc2, c2 = self.lin(y)
        for i, (t, k) in acc2.items():
            o = acc.get(i)
            acc[i] = (t, (o[1] if o else 0) - k)
        return {i: x for i, x in acc.items() if x[1]}, c - c2

    def unpint(self, st, v):
        if not isinstance(v, PInt):
            return v
        p = v.p
        if p.obj is None:
            return p.off
        return self.base_facts(st, p.obj) + p.off

    def trunc(self, st, v, a, b):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, PInt):
            v = self.unpint(st, v)
        if b == 1:
            if not is_sym(v):
                return bool(v & 1)
            if self.mode == 'bv':
                return z3.Extract(0, 0, v) == 1
            if self.must(st, v <= 1):
                return v == 1
            return self.divmod(st, v, 2, a)[1] == 1
        if not is_sym(v):
            return v % (1 << b)
        if self.mode == 'bv':
            return z3.Extract(b - 1, 0, v)
        return self.wrap(st, v, b)

    def zext(self, st, v, a, b):
        if v is UNDEF:
            return UNDEF
        if a == 1:
            if isinstance(v, bool):
                return int(v)
            if self.mode == 'bv':
                return z3.If(v, z3.BitVecVal(1, b), z3.BitVecVal(0, b))
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if not is_sym(v):
            return v
        if self.mode == 'bv':
            return z3.ZeroExt(b - a, v)
        return v

    def sext(self, st, v, a, b):
        if v is UNDEF:
            return UNDEF
        if a == 1:
            if isinstance(v, bool):
                return ((1 << b) - 1) if v else 0
            if self.mode == 'bv':
                return z3.If(v, z3.BitVecVal(-1, b), z3.BitVecVal(0, b))
            return z3.If(v, z3.IntVal((1 << b) - 1), z3.IntVal(0))
        if not is_sym(v):
            return v + (1 << b) - (1 << a) if v >= 1 << (a - 1) else v
        if self.mode == 'bv':
            return z3.SignExt(b - a, v)
        H = 1 << (a - 1)
        if self.must(st, v < H):
            return v
        if self.must(st, v >= H):
            return v + ((1 << b) - (1 << a))
        r = z3.Int(self.fresh_name('sx'))
        st.assume(r == z3.If(v < H, v, v + ((1 << b) - (1 << a))))
        return r

    def fpop(self, st, i, vs):
        op = i.op
        real = self.opts['fp'] == 'real'
        if any(v is UNDEF for v in vs):
            return self.fresh_bool() if op == 'fcmp' else self.fresh_of(i.ty, st, 'undef')
        RNE = z3.RNE()
        if op == 'fcmp':
            a, b = vs
            p = i.x['pred']
            if real:
                if p in ('ord', 'true'):
                    return True
                if p in ('uno', 'false'):
                    return False
                self.assumptions.add(RND_NOTE if self.opts.get('rnd') else 'floating point treated as real arithmetic (no rounding, no NaN or infinity)')
                return {'eq': a == b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b, 'ne': a != b}[p[1:]]
            if p == 'ord':
                return z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)))
            if p == 'uno':
                return z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            r = {'eq': z3.fpEQ(a, b), 'gt': z3.fpGT(a, b), 'ge': z3.fpGEQ(a, b), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b),
                 'ne': z3.Not(z3.fpEQ(a, b))}[p[1:]]
            nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            return z3.Or(nan, r) if p[0] == 'u' else z3.And(z3.Not(nan), r)
        if op in ('fpext', 'fptrunc'):
            if real:
                return vs[0]
            return z3.fpToFP(RNE, vs[0], z3.Float64() if i.ty.w == 64 else z3.Float32())
        if real and self.opts.get('rnd'):
            return self.rndop(st, i, op, vs)
        if real:
            self.assumptions.add('floating point treated as real arithmetic (no rounding, no NaN or infinity)')
            if op == 'fadd': return vs[0] + vs[1]
            if op == 'fsub': return vs[0] - vs[1]
            if op in ('fmul', 'fdiv') and self.opts.get('ufp') and is_sym(vs[0]) and is_sym(vs[1]) and not any(z3.is_rational_value(v) for v in vs):
                # opaque products keep the arithmetic linear: only signs and zeroes are known of them
                a, b = vs
                if op == 'fmul':
                    a, b = sorted((a, b), key=lambda t: t.get_id())
                    r = FMUL(a, b)
                    st.assume(z3.And(z3.Implies(z3.Or(a == 0, b == 0), r == 0), z3.Implies(z3.And(a >= 0, b >= 0), r >= 0)))
                else:
                    r = FDIV(a, b)
                    st.assume(z3.And(z3.Implies(z3.And(a == 0, b != 0), r == 0), z3.Implies(z3.And(a >= 0, b > 0), r >= 0)))
                return r
            if op == 'fmul': return vs[0] * vs[1]
            if op == 'fdiv': return vs[0] / vs[1]
            if op == 'fneg': return -vs[0]
            w = i.ops[0].ty.w
            if op == 'uitofp':
                v = vs[0]
                if isinstance(v, bool):
                    return z3.RealVal(int(v))
                return z3.ToReal(v) if is_sym(v) else z3.RealVal(v)
            if op == 'sitofp':
                v = self.signed(st, vs[0], w)
                return z3.ToReal(v) if is_sym(v) else z3.RealVal(v)
            if op in ('fptoui', 'fptosi'):
                r = vs[0]
                v = z3.Int(self.fresh_name('fi'))
                w = i.ty.w
                st.assume(z3.If(r >= 0, z3.And(z3.ToReal(v) <= r, r < z3.ToReal(v) + 1), z3.And(z3.ToReal(v) >= r, r > z3.ToReal(v) - 1)))
                lo, hi = (0, (1 << w) - 1) if op == 'fptoui' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
                if self.only_selected(i):
                    u = z3.Int(self.fresh_name('chosen'))
                    ok = z3.And(v >= lo, v <= hi)
                    st.assume(z3.And(u >= 0, u < 1 << w, z3.Implies(ok, u == (v if op == 'fptoui' else z3.If(v < 0, v + (1 << w), v)))))
                    self.poison[u.get_id()] = (u, ok)
                    return u
                self.oblige(st, 'floating to integer conversion in range', z3.And(v >= lo, v <= hi), 'overflow')
                return v if op == 'fptoui' else z3.If(v < 0, v + (1 << w), v)
        else:
            s = z3.Float64() if i.ty.k == 'fp' and i.ty.w == 64 else z3.Float32()
            if op == 'fadd': return z3.fpAdd(RNE, vs[0], vs[1])
            if op == 'fsub': return z3.fpSub(RNE, vs[0], vs[1])
            if op == 'fmul': return z3.fpMul(RNE, vs[0], vs[1])
            if op == 'fdiv': return z3.fpDiv(RNE, vs[0], vs[1])
            if op == 'fneg': return z3.fpNeg(vs[0])
            if op == 'uitofp': return z3.fpUnsignedToFP(RNE, self.bv(vs[0], i.ops[0].ty.w), s)
            if op == 'sitofp': return z3.fpSignedToFP(RNE, self.bv(vs[0], i.ops[0].ty.w), s)
            if op in ('fptoui', 'fptosi'):
                w = i.ty.w
                v = vs[0]
                srt = v.sort()
                if op == 'fptoui':
                    g = z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpGT(v, z3.FPVal(-1.0, srt)), z3.fpLT(v, z3.FPVal(float(1 << w), srt)))
                    self.oblige(st, 'floating to integer conversion in range', g, 'overflow')
                    return z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(w))
                g = z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpGEQ(v, z3.FPVal(-float(1 << (w - 1)), srt)), z3.fpLT(v, z3.FPVal(float(1 << (w - 1)), srt)))
                self.oblige(st, 'floating to integer conversion in range', g, 'overflow')
                return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(w))
        raise Unsupported('fp op %s' % op)

    # -------------------------------------------------------------- IEEE double arithmetic, round to nearest
    # A double is the real number it denotes.  Every operation yields its exact result when that is representable
    # (multiple of 2^k, of at most 53 bits), otherwise RND of the exact result, of which IEEE 754 gives: the relative
    # error is at most 2^-53 (absolute 2^-1075 below the normal range), rounding is monotone and keeps every integer
    # of at most 53 bits.
    def grid(self, t):
        if z3.is_rational_value(t):
            n, d = abs(t.numerator_as_long()), t.denominator_as_long()
            if d & (d - 1):
                return None
            k = -(d.bit_length() - 1)
            if n and d == 1:
                k = (n & -n).bit_length() - 1
            from fractions import Fraction
            return k, Fraction(n, d)
        g = self.rinfo.get(t.get_id())
        return g[1] if g else None

    def monotone(self, st):
        """rounding preserves order: instances for the roundings made so far"""
        rs = [v for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == 'rnd']
        for a in rs:
            for b in rs:
                if a is not b:
                    st.assume(z3.Implies(a.arg(0) <= b.arg(0), a <= b))

    def intlin(self, x):
        """x as integer term / positive integer, when x is linear over integers"""
        from fractions import Fraction
        acc = []

        def go(t, c):
            if z3.is_rational_value(t):
                acc.append((c * Fraction(t.numerator_as_long(), t.denominator_as_long()), None))
            elif z3.is_to_real(t):
                acc.append((c, t.arg(0)))
            elif z3.is_add(t):
                return all(go(a, c) for a in t.children())
            elif z3.is_sub(t):
                return go(t.arg(0), c) and all(go(a, -c) for a in t.children()[1:])
            elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
                return go(t.arg(0), -c)
            elif z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
                a = t.arg(0)
                return go(t.arg(1), c * Fraction(a.numerator_as_long(), a.denominator_as_long()))
            else:
                return False
            return True
        if not go(x, Fraction(1)):
            return None
        import math
        d = 1
        for c, _ in acc:
            d = d * c.denominator // math.gcd(d, c.denominator)
        return z3.Sum([z3.IntVal(int(c * d)) * t if t is not None else z3.IntVal(int(c * d)) for c, t in acc]), d

    def floor_facts(self, st, n, x):
        il = self.intlin(x)
        if il:
            num, d = il
            st.assume(z3.And(n * d <= num, num < n * d + d))
            return n * d == num
        st.assume(z3.And(z3.ToReal(n) <= x, x < z3.ToReal(n) + 1))
        return x == z3.ToReal(n)

    def setgrid(self, t, k, b):
        self.rinfo[t.get_id()] = (t, (k, b))
        return t

    def rnd(self, st, x, k=None, b=None):
        from fractions import Fraction
        x = z3.simplify(x)
        if k is not None:
            if b <= Fraction(2) ** (53 + k):
                return self.setgrid(x, k, b) if not z3.is_rational_value(x) else x
        if z3.is_rational_value(x):
            f = Fraction(x.numerator_as_long(), x.denominator_as_long())
            return z3.RealVal(Fraction(f.numerator / f.denominator))
        r = RND(x)
        key = ('rnd', r.get_id())
        if key in st.ghost:
            return r
        st.ghost[key] = r
        ax = z3.If(x >= 0, x, -x)
        err = ax * z3.RealVal(Fraction(1, 1 << 53))
        if b is not None and k is not None:
            e = 0
            while Fraction(2) ** e < b:
                e += 1
            err2 = z3.RealVal(Fraction(2) ** (e - 54))
            st.assume(z3.And(r - x <= err2, x - r <= err2))   # half a unit in the last place of the highest binade
            self.setgrid(r, k, b * (1 + Fraction(1, 1 << 53)))
            st.assume(z3.Implies(ax <= z3.RealVal(Fraction(2) ** (53 + k)), r == x))
            if b > Fraction(2) ** 1023:
                self.oblige(st, 'no floating-point overflow', ax < z3.RealVal(2 ** 1023), 'overflow')
            tiny = 0
        else:
            self.oblige(st, 'no floating-point overflow', ax < z3.RealVal(2 ** 1023), 'overflow')
            tiny = z3.RealVal(Fraction(1, 1 << 1075))
        st.assume(z3.And(r - x <= err + tiny, x - r <= err + tiny))
        # order is preserved and the multiples of 2^j up to 2^(53+j) are kept
        j = 0
        if b is not None:
            while Fraction(2) ** (53 + j) < b:
                j += 1
        j = min(j, 64)
        n = z3.Int(self.fresh_name('fl'))
        lim = z3.RealVal(1 << (53 + j))
        whole = self.floor_facts(st, n, z3.simplify(x / z3.RealVal(1 << j)))
        R = z3.ToReal(n) * z3.RealVal(1 << j)
        st.assume(z3.Implies(ax <= lim, z3.And(r >= R, r <= R + z3.RealVal(1 << j), z3.Implies(whole, r == R))))
        if self.opts.get('ufp') == 'unit':
            self.monotone(st)
        return r

    def rndop(self, st, i, op, vs):
        from fractions import Fraction
        self.assumptions.add(RND_NOTE)
        if i.ty.k == 'fp' and i.ty.w != 64:
            raise Unsupported('fp width')
        if op in ('uitofp', 'sitofp'):
            w = i.ops[0].ty.w
            v = vs[0]
            if isinstance(v, bool):
                return z3.RealVal(int(v))
            v = self.signed(st, v, w) if op == 'sitofp' else v
            if not is_sym(v):
                return self.rnd(st, z3.RealVal(v))
            if z3.is_bool(v):
                v = z3.If(v, 1, 0)
            b = 1 << w
            for c in (20, 30, 32, 53):
                if c < w and self.must(st, z3.And(v < (1 << c), v > -(1 << c))):
                    b = 1 << c
                    break
            return self.rnd(st, z3.ToReal(v), 0, Fraction(b))
        if op in ('fptoui', 'fptosi'):
            v = self.rint(st, vs[0], 'trunc')
            w = i.ty.w
            lo, hi = (0, (1 << w) - 1) if op == 'fptoui' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            if self.only_selected(i):
                u = z3.Int(self.fresh_name('chosen'))
                ok = z3.And(v >= lo, v <= hi)
                st.assume(z3.And(u >= 0, u < 1 << w, z3.Implies(ok, u == (v if op == 'fptoui' else z3.If(v < 0, v + (1 << w), v)))))
                self.poison[u.get_id()] = (u, ok)
                return u
            self.oblige(st, 'floating to integer conversion in range', z3.And(v >= lo, v <= hi), 'overflow')
            st.assume(z3.And(v >= lo, v <= hi))
            return v if op == 'fptoui' else z3.If(v < 0, v + (1 << w), v)
        if op == 'fneg':
            g = self.grid(vs[0])
            r = z3.simplify(-vs[0])
            return self.setgrid(r, *g) if g and not z3.is_rational_value(r) else r
        a, b = vs
        ga, gb = self.grid(a), self.grid(b)
        if op == 'fdiv' and z3.is_rational_value(b):
            n, d = b.numerator_as_long(), b.denominator_as_long()
            if n > 0 and n & (n - 1) == 0:
                b = z3.RealVal(Fraction(d, n))
                gb, op = self.grid(b), 'fmul'
        if op in ('fadd', 'fsub'):
            x = a + b if op == 'fadd' else a - b
            if ga and gb:
                return self.rnd(st, x, min(ga[0], gb[0]), ga[1] + gb[1])
            if op == 'fsub' and gb and gb[0] >= 0 and self.must(st, z3.And(b >= 0, b <= a, a < b + 1)):
                r = z3.simplify(x)                     # removing the integer part of a double is exact
                return self.setgrid(r, -1074, Fraction(1))
            return self.rnd(st, x)
        if op == 'fmul':
            for p, q, gp, gq in ((a, b, ga, gb), (b, a, gb, ga)):
                if z3.is_rational_value(q) and q.numerator_as_long() > 0 and gq is not None:
                    n, d = q.numerator_as_long(), q.denominator_as_long()
                    if n & (n - 1) == 0 and d == 1:    # scaling up by a power of two is exact
                        r = z3.simplify(p * q)
                        j = n.bit_length() - 1
                        if gp:
                            self.setgrid(r, gp[0] + j, gp[1] * n)
                        else:
                            self.oblige(st, 'no floating-point overflow', z3.And(r < z3.RealVal(2 ** 1023), r > -z3.RealVal(2 ** 1023)), 'overflow')
                        return r
                    if d > 1 and n == 1 and gp and gp[0] - d.bit_length() + 1 >= -1074:
                        r = z3.simplify(p * q)
                        return self.setgrid(r, gp[0] - d.bit_length() + 1, gp[1] / d)
            if ga and gb:
                return self.rnd(st, a * b, ga[0] + gb[0], ga[1] * gb[1])
            return self.rnd(st, self.prod(st, a, b))
        if op == 'fdiv':
            if self.opts.get('fdiv0') and not self.must(st, b != 0):
                # IEEE 754 defines the result (an infinity or NaN): nothing is known of it here
                q = self.rnd(st, self.quot(st, a, z3.If(b == 0, z3.RealVal(1), b)))
                return z3.If(b == 0, z3.Real(self.fresh_name('divzero')), q)
            self.oblige(st, 'no floating-point division by zero', b != 0, 'overflow')
            return self.rnd(st, self.quot(st, a, b))
        raise Unsupported('fp op %s' % op)

    def prod(self, st, a, b):
        """exact product; opaque under 'ufp' so that path conditions stay linear"""
        a, b = z3.simplify(a), z3.simplify(b)
        if not self.opts.get('ufp') or z3.is_rational_value(a) or z3.is_rational_value(b):
            return a * b
        a, b = sorted((a, b), key=lambda t: t.get_id())
        r = FMUL(a, b)
        self.keep.append((a, b, r))
        st.assume(z3.And(z3.Implies(z3.Or(a == 0, b == 0), r == 0), z3.Implies(z3.Or(z3.And(a >= 0, b >= 0), z3.And(a <= 0, b <= 0)), r >= 0)))
        M = z3.RealVal(1 << 500)
        st.assume(z3.Implies(z3.And(a <= M, -a <= M, b <= M, -b <= M), z3.And(r <= M * M, -r <= M * M)))
        if self.opts['ufp'] == 'unit':
            st.assume(z3.And(z3.Implies(z3.And(a >= 0, a <= 1, b >= 0), r <= b), z3.Implies(z3.And(b >= 0, b <= 1, a >= 0), r <= a)))
        return r

    def quot(self, st, a, b):
        a, b = z3.simplify(a), z3.simplify(b)
        if not self.opts.get('ufp') or z3.is_rational_value(b):
            return a / b
        r = FDIV(a, b)
        self.keep.append((a, b, r))
        st.assume(z3.And(z3.Implies(z3.And(a == 0, b != 0), r == 0), z3.Implies(z3.And(a >= 0, b > 0), r >= 0),
                         z3.Implies(z3.And(b >= 1, a >= 0), r <= a), z3.Implies(z3.And(b >= 1, a <= 0), r >= a),
                         z3.Implies(z3.And(b >= 1, a <= 0), r <= 0)))
        M = z3.RealVal(1 << 500)
        st.assume(z3.Implies(z3.And(a <= 2 * M, -a <= 2 * M, b >= 1 / M), z3.And(r <= 2 * M * M, -r <= 2 * M * M)))
        if self.opts['ufp'] == 'unit':
            st.assume(z3.Implies(z3.And(a >= 0, b > 0, a <= b), r <= 1))
        return r

    def only_selected(self, i):
        """the value of i is only used as one of the values of selects"""
        fn = i.block.fn
        us = self._users.get(id(fn))
        if us is None:
            us = {}
            for b in fn.blocks:
                for x in list(b.insts) + list(b.phis) + [b.term]:
                    for k, y in enumerate(getattr(x, 'ops', None) or ()):
                        if isinstance(y, (tuple, list)):
                            for z in y:
                                if isinstance(z, SSA):
                                    us.setdefault(z.id, []).append((x, k))
                        elif isinstance(y, SSA):
                            us.setdefault(y.id, []).append((x, k))
            self._users[id(fn)] = us
            self._users_keep.append(fn)
        u = us.get(i.id, [])
        return bool(u) and all(getattr(x, 'op', None) == 'select' and k > 0 for x, k in u)

    def rint(self, st, x, how):
        """integer term: x rounded in the given direction"""
        from fractions import Fraction
        if z3.is_rational_value(x):
            import math
            f = Fraction(x.numerator_as_long(), x.denominator_as_long())
            v = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
                 'round': lambda f: math.floor(f + Fraction(1, 2)) if f >= 0 else math.ceil(f - Fraction(1, 2))}[how](f)
            return z3.IntVal(v)
        if z3.is_to_real(x):
            return x.arg(0)
        key = ('rint', how, x.get_id())
        if key in st.ghost:
            return st.ghost[key][1]
        v = z3.Int(self.fresh_name(how))
        st.ghost[key] = (x, v)
        R = z3.ToReal(v)
        half = z3.RealVal(Fraction(1, 2))
        if how == 'floor':
            self.floor_facts(st, v, x)
        elif how == 'ceil' and self.intlin(x):
            num, d = self.intlin(x)
            st.assume(z3.And(v * d >= num, num > v * d - d))
        elif how == 'ceil':
            st.assume(z3.And(R >= x, x > R - 1))
        elif how == 'trunc' and self.must(st, x >= 0):
            self.floor_facts(st, v, x)
        elif how == 'trunc':
            st.assume(z3.If(x >= 0, z3.And(R <= x, x < R + 1), z3.And(R >= x, x > R - 1)))
        else:
            st.assume(z3.If(x >= 0, z3.And(R <= x + half, x + half < R + 1), z3.And(R >= x - half, x - half > R - 1)))
        return v

    def rintfp(self, st, x, how):
        from fractions import Fraction
        v = self.rint(st, x, how)
        g = self.grid(x)
        r = z3.ToReal(v) if not z3.is_int_value(v) else z3.RealVal(v.as_long())
        if not z3.is_rational_value(r):
            if g:
                self.setgrid(r, max(g[0], 0), g[1] + 1)
            else:
                self.setgrid(r, 0, Fraction(2) ** 1024)
        return r

    def asm(self, st, text, args, inst):
        h = self.opts.get('asm')
        if h:
            return h(self, st, text, args, inst)
        if '""' in text.split(',')[0]:
            return None
        raise Unsupported('inline assembly ' + text[:60])

    # ------------------------------------------------------------------ intrinsics
    def intrinsic(self, st, fn, args):
        n = fn.name
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant')):
            if n.startswith('llvm.assume'):
                pass
            return None
        if n.startswith('llvm.expect'):
            return args[0]
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(st, args[0], args[1], args[2], n.startswith('llvm.memmove'))
            return None
        if n.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], args[2])
            return None
        m = re.match(r'llvm\.(umul|uadd|usub|smul|sadd|ssub)\.with\.overflow\.i(\d+)', n)
        if m:
            w = int(m.group(2))
            op = m.group(1)[1:]
            a, b = args
            if self.mode == 'int' and m.group(1)[0] == 'u':
                r = a + b if op == 'add' else a - b if op == 'sub' else a * b
                if not is_sym(r):
                    return [r % (1 << w), not (0 <= r < (1 << w))]
                if self.must(st, z3.And(r >= 0, r < (1 << w))):
                    return [r, False]
                return [self.wrap(st, r, w), z3.Not(z3.And(r >= 0, r < (1 << w)))]
            if self.mode == 'bv' and m.group(1)[0] == 'u' and op == 'mul':
                a, b = self.bv(a, w), self.bv(b, w)
                return [a * b, z3.Not(z3.BVMulNoOverflow(a, b, False))]
            raise Unsupported(n)
        m = re.match(r'llvm\.(umin|umax|smin|smax)\.i(\d+)', n)
        if m:
            w = int(m.group(2))
            a, b = args
            c = self.icmp(st, {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[m.group(1)], a, b, IntTy(w))
            if isinstance(c, bool):
                return a if c else b
            return self.merge(c, a, b, IntTy(w))
        m = re.match(r'llvm\.(fshl|fshr)\.i(\d+)', n)
        if m and self.mode == 'bv':
            w = int(m.group(2))
            a, b, c = [self.bv(x, w) for x in args]
            s = z3.URem(c, z3.BitVecVal(w, w))
            cc = z3.Concat(a, b)
            s2 = z3.ZeroExt(w, s)
            if m.group(1) == 'fshl':
                return z3.Extract(2 * w - 1, w, cc << s2)
            return z3.Extract(w - 1, 0, z3.LShR(cc, s2))
        m = re.match(r'llvm\.bswap\.i(\d+)', n)
        if m and self.mode == 'bv':
            w = int(m.group(1))
            a = self.bv(args[0], w)
            return z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, a) for k in range(w // 8)])
        if n.startswith('llvm.objectsize'):
            return (1 << 64) - 1
        if n.startswith(('llvm.trap', 'llvm.ubsantrap')):
            raise PathEnd()
        if n.startswith('llvm.stacksave'):
            return NULL
        if n.startswith('llvm.stackrestore'):
            return None
        if n.startswith('llvm.fabs'):
            v = args[0]
            return z3.If(v >= 0, v, -v) if self.opts['fp'] == 'real' else z3.fpAbs(v)
        m = re.match(r'llvm\.(floor|ceil|round|trunc)\.f64', n)
        if m and self.opts.get('rnd'):
            return self.rintfp(st, args[0], m.group(1))
        if m and self.opts['fp'] == 'real':
            v = self.rint(st, args[0], m.group(1))
            return z3.ToReal(v) if is_sym(v) and not z3.is_int_value(v) else z3.RealVal(v.as_long())
        m = re.match(r'llvm\.l?lround\.i(\d+)\.f64', n)
        if m and self.opts.get('rnd'):
            v, w = self.rint(st, args[0], 'round'), int(m.group(1))
            self.oblige(st, 'floating to integer conversion in range', z3.And(v >= -(1 << (w - 1)), v < 1 << (w - 1)), 'overflow')
            return z3.If(v < 0, v + (1 << w), v)
        if n.startswith('llvm.is.constant'):
            return False
        if n.startswith('llvm.eh.typeid'):
            return 0
        if n.startswith('llvm.fmuladd'):
            a, b, c = args
            if self.opts['fp'] == 'real':
                return a * b + c
        raise Unsupported('intrinsic ' + n)

    def memcpy(self, st, d, s, n, move=False):
        if not is_sym(n) and n == 0:
            return
        d, s = (self.redirect(x) if isinstance(x, Ptr) else x for x in (d, s))
        for x in (d, s):
            if isinstance(x, Ptr) and x.obj is not None and 'memcpy' in x.obj.tags:
                return x.obj.tags['memcpy'](self, st, d, s, n)
        if isinstance(d, Ptr) and isinstance(s, Ptr) and d.obj is not None and s.obj is not None:
            self.in_bounds_range(st, s, n, 'memcpy read')
            self.in_bounds_range(st, d, n, 'memcpy write')
            do, so = d.obj, s.obj
            if do.const:
                self.oblige(st, 'no write to constant %s' % do.name, False)
                raise PathEnd()
            if do is so and not move and not (not is_sym(d.off) and not is_sym(s.off) and d.off == s.off):
                if self.mode == 'int':
                    self.oblige(st, 'memcpy of disjoint ranges', Or(B(d.off + n <= s.off), B(s.off + n <= d.off), B(n == 0)))
                else:
                    self.oblige(st, 'memcpy of disjoint ranges', z3.Or(self.bv(n, 64) == 0, z3.And(
                        z3.UGE(self.bv(d.off, 64) - self.bv(s.off, 64), self.bv(n, 64)), z3.UGE(self.bv(s.off, 64) - self.bv(d.off, 64), self.bv(n, 64)))))
            if do.stride is None and so.stride is None:
                if is_sym(n) or is_sym(d.off) or is_sym(s.off):
                    raise Unsupported('memcpy of symbolic size on struct objects')
                cells = []
                for k in range(s.off, s.off + n):
                    c = st.mem.get((so, ('c', k)))
                    if c is not None:
                        if k + c[0].size > s.off + n:
                            raise Unsupported('memcpy splits a cell')
                        cells.append((k - s.off, c))
                for k in range(max(0, d.off - 15), d.off + n):
                    c = st.mem.get((do, ('c', k)))
                    if c is not None and k + c[0].size > d.off:
                        if k < d.off or k + c[0].size > d.off + n:
                            self.store(st, Ptr(do, d.off), 0, _I8)
                        st.mem.pop((do, ('c', k)), None)
                        st.writes.add((do, ('c', k)))
                covered = set()
                for k, c in cells:
                    st.mem[(do, ('c', d.off + k))] = c
                    st.writes.add((do, ('c', d.off + k)))
                    covered.update(range(k, k + c[0].size))
                if len(covered) < n and 'default' in do.tags:
                    raise Unsupported('memcpy of uninitialised bytes over initialised object')
                # bytes never initialised in the source: arbitrary in the destination
                k = 0
                while k < n:
                    if k not in covered:
                        st.mem[(do, ('c', d.off + k))] = (_I8, self.initial(st, so, s.off + k, _I8))
                        if (so, ('c', s.off + k)) not in st.mem:
                            st.mem[(so, ('c', s.off + k))] = st.mem[(do, ('c', d.off + k))]
                        st.writes.add((do, ('c', d.off + k)))
                    k += 1
                return
            if do.stride is not None and so.stride is not None and do.stride == so.stride:
                if do.ghost or so.ghost:
                    raise Unsupported('memcpy of opaque elements')
                di, dc = self.elem(st, d)
                si, sc = self.elem(st, s)
                S = do.stride
                if (dc or sc or not is_sym(n) and n < S) and not is_sym(n) and n in (1, 2, 4, 8):
                    v = self.load(st, s, IntTy(8 * n))
                    self.store(st, d, v, IntTy(8 * n))
                    return
                if dc or sc:
                    raise Unsupported('memcpy inside an element')
                if self.mode == 'bv' and S == 1:
                    cnt = n
                elif self.mode == 'int':
                    cnt = self.exact_div(n, S)
                else:
                    cnt = n // S if not is_sym(n) and n % S == 0 else None
                if cnt is None:
                    raise Unsupported('memcpy of partial elements')
                keys = set()
                for (oo, k) in list(st.mem):
                    if oo in (do, so) and k[0] == 'm':
                        keys.add(k)
                if S in (1, 2, 4, 8) and not keys:
                    keys.add(('m', 0, S, False))
                for k in keys:
                    t = FpTy(k[2] * 8) if k[3] else IntTy(k[2] * 8)
                    ms, md = self.getmap(st, so, k[1], t), self.getmap(st, do, k[1], t)
                    self.setmap(st, do, k[1], t, self.copy_map(st, md, di, ms, si, cnt))
                return
            if not is_sym(n) and n in (1, 2, 4, 8) and do.stride != 1 and so.stride != 1:
                # one field of an array element
                v = self.load(st, s, IntTy(8 * n))
                self.store(st, d, v, IntTy(8 * n))
                return
            if not is_sym(n) and n <= 64:
                # small copy between a struct object and a byte array
                if do.stride == 1:
                    bs = self.cell_bytes(st, so, s.off, n) if so.stride is None else None
                    if bs is not None:
                        for k in range(n):
                            self.store(st, self.ptr_add(d, k), bs[k], _I8)
                        return
                if so.stride == 1 and do.stride is None and n in (1, 2, 4, 8):
                    v = self.load(st, s, IntTy(8 * n))
                    self.store(st, d, v, IntTy(8 * n))
                    return
        if isinstance(d, Ptr) and isinstance(s, Ptr) and (d.obj is None or s.obj is None):
            # a null pointer is only allowed with nothing to copy
            self.oblige(st, 'memcpy through a null pointer copies nothing', Eq(n, 0))
            return
        raise Unsupported('memcpy %r <- %r (%s)' % (d, s, n))

    def copy_map(self, st, md, di, ms, si, cnt):
        if not is_sym(cnt) and cnt <= 8:
            m = md
            vals = [z3.Select(ms, si + k) for k in range(cnt)]
            for k in range(cnt):
                m = z3.Store(m, di + k, vals[k])
            return m
        m = z3.Const(self.fresh_name('cp'), md.sort())
        if self.mode == 'int':
            j = z3.Int(self.fresh_name('j'))
            st.assume(z3.ForAll([j], z3.Select(m, j) == z3.If(z3.And(j >= di, j < di + cnt), z3.Select(ms, j - di + si), z3.Select(md, j)),
                                patterns=[z3.Select(m, j)]))
        else:
            j = z3.BitVec(self.fresh_name('j'), 64)
            c = self.bv(cnt, 64)
            d = self.bv(di, 64)
            s = self.bv(si, 64)
            st.assume(z3.ForAll([j], z3.Select(m, j) == z3.If(z3.ULT(j - d, c), z3.Select(ms, j - d + s), z3.Select(md, j)),
                                patterns=[z3.Select(m, j)]))
        return m

    def memset(self, st, d, v, n):
        if not is_sym(n) and n == 0:
            return
        if not isinstance(d, Ptr) or d.obj is None:
            raise Unsupported('memset')
        self.in_bounds_range(st, d, n, 'memset')
        o = d.obj
        if o.stride is None:
            if is_sym(n) or is_sym(d.off) or is_sym(v):
                raise Unsupported('symbolic memset')
            k = 0
            while k < n:
                step = 8 if n - k >= 8 and (d.off + k) % 8 == 0 else 4 if n - k >= 4 and (d.off + k) % 4 == 0 else 1
                val = int.from_bytes(bytes([v]) * step, 'little')
                self.store(st, Ptr(o, d.off + k), val, IntTy(8 * step))
                k += step
            return
        i, c = self.elem(st, d)
        S = o.stride
        if c or o.ghost or (is_sym(v) and S != 1):
            raise Unsupported('memset inside element')
        cnt = n if S == 1 else (self.exact_div(n, S) if self.mode == 'int' else (n // S if not is_sym(n) and n % S == 0 else None))
        if cnt is None:
            raise Unsupported('memset size')
        t = IntTy(8 * S)
        if S not in (1, 2, 4, 8):
            raise Unsupported('memset stride')
        val = v if S == 1 else int.from_bytes(bytes([v]) * S, 'little')
        md = self.getmap(st, o, 0, t)
        m = z3.Const(self.fresh_name('ms'), md.sort())
        if self.mode == 'int':
            j = z3.Int(self.fresh_name('j'))
            st.assume(z3.ForAll([j], z3.Select(m, j) == z3.If(z3.And(j >= i, j < i + cnt), B_int(val), z3.Select(md, j)), patterns=[z3.Select(m, j)]))
        else:
            j = z3.BitVec(self.fresh_name('j'), 64)
            st.assume(z3.ForAll([j], z3.Select(m, j) == z3.If(z3.ULT(j - i, self.bv(cnt, 64)), self.bv(val, 8 * S), z3.Select(md, j)), patterns=[z3.Select(m, j)]))
        self.setmap(st, o, 0, t, m)

    def in_bounds_range(self, st, p, n, what):
        o = p.obj
        if o in st.dead:
            self.oblige(st, 'no use after %s (%s of %s)' % (st.dead[o], what, o.name), False)
            raise PathEnd()
        if o.size is None:
            return
        if not is_sym(p.off) and not is_sym(n) and not is_sym(o.size):
            if p.off < 0 or p.off + n > o.size:
                self.oblige(st, 'in-bounds %s of %s' % (what, o.name), False)
                raise PathEnd()
            return
        if self.mode == 'bv':
            off, size, nn = self.bv(p.off, 64), self.bv(o.size, 64), self.bv(n, 64)
            self.oblige(st, 'in-bounds %s of %s' % (what, o.name), z3.And(z3.ULE(off, size), z3.ULE(nn, size - off)))
        else:
            self.oblige(st, 'in-bounds %s of %s' % (what, o.name),
                        z3.Or(B(n == 0), z3.And(B(p.off >= 0), B(p.off + n <= o.size))))

    # ------------------------------------------------------------------ loops
    def loop(self, fn, lo, prev, env, st, active):
        h = lo.header
        self.stats['loops'] += 1
        act2 = active + ((h.id, lo.blocks),)
        env0 = self.phis(h, prev, env, st)
        st0 = st
        phis = h.phis
        modset = set()
        base_obls = self.obls
        dropped = set()
        hk = self.opts.get('loop_ghost')
        mod_ok = False
        inits = {ph.id: env0[ph.id] for ph in phis}
        rounds = 0
        where = None
        bad_ptr = set()
        rehome = set()      # pointer cells whose storage is replaced in the loop
        while True:
            rounds += 1
            if rounds > 60:
                raise Unsupported('loop analysis does not converge in %s' % fn.dname)
            self.obls = []
            s = st0.copy()
            s.writes = set()
            e = dict(env0)
            view = LoopView(eng=self, fn=fn, loop=lo, entry=st0, st=s, ints={}, ptrs={}, pidx={}, init={}, env=e, env0=env0,
                            fps={}, bools={}, ghosts={}, depth=len(active), modset=modset)
            # havoc phis
            for ph in phis:
                v0 = inits[ph.id]
                nm = 'phi%d' % ph.id
                if ph.ty.k == 'int' and ph.ty.w == 1:
                    v = self.fresh_bool(nm)
                    view.bools[('phi', ph.id)] = v
                elif ph.ty.k == 'int':
                    if isinstance(v0, PInt):
                        raise Unsupported('integer-cast pointer carried by a loop')
                    v = self.fresh_int(nm, ph.ty.w, s)
                    view.ints[('phi', ph.id)] = (v, v0, ph.ty.w)
                elif ph.ty.k == 'ptr':
                    if not isinstance(v0, Ptr):
                        raise Unsupported('pointer phi with initial value %r' % (v0,))
                    if v0.obj is None or ph.id in bad_ptr:
                        hv = self.opts.get('ptr_phi')
                        v = hv(self, view, ph, v0) if hv else v0
                        if v is None:
                            raise Unsupported('pointer phi')
                    else:
                        v = self.fresh_ptr(v0, nm, view, ('phi', ph.id))
                elif ph.ty.k == 'fp':
                    v = self.fresh_fp(nm, ph.ty.w)
                    view.fps[('phi', ph.id)] = (v, v0)
                else:
                    raise Unsupported('phi of type %s' % ph.ty)
                e[ph.id] = v
            # havoc modified memory
            for key in sorted(modset, key=lambda k: (k[0].uid if isinstance(k[0], Obj) else -1, str(k[1]))):
                o, k = key
                if o == 'ghost':
                    old = s.ghost.get(k)
                    nv = self.havoc_ghost(s, k, old)
                    s.ghost[k] = nv
                    view.ghosts[k] = (nv, old)
                    continue
                if k[0] == 'c':
                    if key not in s.mem:
                        continue
                    cty, v0 = s.mem[key]
                    nm = 'lc_%s_%d' % (o.name, k[1])
                    if cty.k == 'ptr':
                        if not isinstance(v0, Ptr) or v0.obj is None:
                            raise Unsupported('loop modifies pointer cell %s with initial %r' % (o, v0))
                        if key in rehome:
                            # the cell owns its storage: at the loop head it designates an arbitrary block, and the
                            # block it designated on entry must not be used through anything else
                            o0 = v0.obj
                            ho = Obj(self.fresh_name('home_%s' % o0.name), o0.kind)
                            ho.stride, ho.count = o0.stride, z3.Int(self.fresh_name('home_count'))
                            ho.size = ho.count * o0.stride
                            s.assume(z3.And(ho.count >= 0, ho.size <= (1 << 47)))
                            s.dead[o0] = 'moved'
                            if o0 in s.allocs:
                                s.allocs.remove(o0)
                            if ho.kind == 'heap':
                                s.allocs.append(ho)
                            s.mem[key] = (cty, Ptr(ho, 0))
                            view.ptrs[key] = (Ptr(ho, 0), v0)
                            continue
                        v = self.fresh_ptr(v0, nm, view, key)
                    elif cty.k == 'int' and cty.w == 1:
                        v = self.fresh_bool(nm)
                    elif cty.k == 'int':
                        v = self.fresh_int(nm, cty.w, s)
                        view.ints[key] = (v, v0, cty.w)
                    else:
                        v = self.fresh_fp(nm, cty.w)
                        view.fps[key] = (v, v0)
                    s.mem[key] = (cty, v)
                elif k[0] == 'm':
                    m0 = s.mem.get(key)
                    if m0 is None:
                        # created in the body: force its initial value first
                        t = FpTy(k[2] * 8) if k[3] else IntTy(k[2] * 8)
                        m0 = self.getmap(st0, o, k[1], t)
                        s.mem[key] = m0
                    s.mem[key] = z3.Const(self.fresh_name('lm_%s' % o.name), m0.sort())
                elif k[0] == 'g':
                    m0 = self.getghost(s, o, k[1])
                    s.mem[key] = z3.Const(self.fresh_name('lg_%s_%s' % (o.name, k[1])), m0.sort())
                elif k[0] == 'free':
                    raise Unsupported('loop frees an object that existed before it')
            cands = []
            ev = self.entry_view(view, st0, inits)
            for tmpl in ([auto_invariants] if self.opts['auto_inv'] else []) + self.invs:
                a = list(tmpl(view))
                cands += a
            entry_cands = []
            for tmpl in ([auto_invariants] if self.opts['auto_inv'] else []) + self.invs:
                entry_cands += list(tmpl(ev))
            ec = dict(entry_cands)
            if rounds == 1 or where != 'init':
                pass
            # initial check
            live = []
            for nm, f in cands:
                if nm in dropped or f is None:
                    continue
                g = ec.get(nm)
                if g is None:
                    dropped.add(nm)
                    continue
                live.append((nm, f))
            if not hasattr(lo, '_init_ok') or lo._init_ok[0] is not st0:
                lo._init_ok = (st0, {})
            okc = lo._init_ok[1]
            still = []
            for nm, f in live:
                kk = (nm, frozenset(modset)) if False else (nm, B(ec[nm]).get_id())
                if kk not in okc:
                    okc[kk] = self.quick(st0, ec[nm])
                if okc[kk]:
                    still.append((nm, f))
                else:
                    dropped.add(nm)
            for nm, f in still:
                s.assume(f)
            body_start = s.copy()
            outs = self.run_body(fn, h, prev, e, s, act2)
            backs = [o for o in outs if o[0] == 'back']
            # pointer cells whose storage is replaced by new storage
            newr = set()
            for o in backs if self.mode == 'int' else ():
                bs = o[3]
                for key, c in bs.mem.items():
                    if key in rehome or key[1][0] != 'c' or c[0].k != 'ptr' or key not in st0.mem:
                        continue
                    a, b = body_start.mem[key][1], c[1]
                    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is not None and b.obj is not None and a.obj is not b.obj \
                            and a.obj in bs.dead and a.obj.stride and a.obj.stride == b.obj.stride and a.obj.kind == b.obj.kind and a.obj.kind in ('heap', 'str'):
                        newr.add(key)
            if newr:
                rehome |= newr
                modset |= newr
                modset -= set(k for k in modset if k[1] == ('free',))
                continue
            # new writes?
            neww = set()
            for o in outs:
                so = o[3] if o[0] == 'back' else o[4] if o[0] == 'exit' else o[1]
                for w in so.writes:
                    if w in modset or (w[0] != 'ghost' and w[0] in s.dead and w[0] not in st0.dead):
                        continue
                    if w[0] == 'ghost':
                        neww.add(w)
                        continue
                    if w[0].kind in ('stack', 'heap', 'str'):
                        # objects created inside this iteration
                        if w[0] not in self.existing(st0, env0):
                            continue
                    if o[0] == 'back':
                        neww.add(w)
                    else:
                        pass
            if neww:
                modset |= neww
                continue
            # inductiveness
            fail = False
            for o in backs:
                _, pb, be, bs = o
                be2 = self.phis(h, pb, be, bs)
                for ph in phis:
                    if ph.ty.k == 'ptr':
                        a, b = e[ph.id], be2[ph.id]
                        if not (isinstance(b, Ptr) and isinstance(a, Ptr) and a.obj is b.obj):
                            if self.opts.get('ptr_phi') and ph.id not in bad_ptr:
                                bad_ptr.add(ph.id)
                                fail = True
                                continue
                            if self.opts.get('ptr_phi_ok') and self.opts['ptr_phi_ok'](self, view, ph, a, b, bs):
                                continue
                            raise Unsupported('pointer phi changes object in a loop of %s' % fn.dname)
                for key in modset:
                    if key[0] != 'ghost' and key[1][0] == 'c' and key in bs.mem:
                        cty, bv = bs.mem[key]
                        if cty.k == 'ptr':
                            if key not in body_start.mem:
                                continue     # no value at the loop head either
                            a = body_start.mem[key][1]
                            if key in rehome:
                                ho = a.obj
                                if not (isinstance(bv, Ptr) and bv.obj is not None and bv.obj not in bs.dead and bv.obj.kind == ho.kind
                                        and not is_sym(bv.off) and bv.off == 0 and bv.obj.stride == ho.stride and bv.obj.count is not None):
                                    raise Unsupported('replaced storage of a pointer cell in a loop of %s' % fn.dname)
                                if bv.obj is not ho:
                                    if bv.obj in self.existing(st0, env0):
                                        raise Unsupported('pointer cell takes over existing storage in a loop')
                                    if ho not in bs.dead:
                                        raise Unsupported('storage of a pointer cell replaced but not freed in a loop')
                                for k2, c2 in bs.mem.items():
                                    if k2 != key and k2[0] is not bv.obj and k2[1][0] == 'c' and isinstance(c2[1], Ptr) and c2[1].obj is bv.obj \
                                            and k2[0] in self.existing(st0, env0):
                                        raise Unsupported('replaced storage is shared in a loop')
                                continue
                            if not (isinstance(bv, Ptr) and bv.obj is a.obj):
                                raise Unsupported('pointer cell changes object in a loop of %s' % fn.dname)
                if fail:
                    break
                bview = self.back_view(view, bs, be2, modset)
                bc = {}
                for tmpl in ([auto_invariants] if self.opts['auto_inv'] else []) + self.invs:
                    for nm, f in tmpl(bview):
                        bc[nm] = f
                for nm, f in still:
                    if nm in dropped:
                        continue
                    g = bc.get(nm)
                    if g is None or not self.quick(bs, g):
                        if HDBG:
                            HDBG(self, fn, lo, nm, g, bs)
                        dropped.add(nm)
                        fail = True
            if fail:
                continue
            # stable: record obligations
            self.stats['dropped'] += ['%s@%s' % (n, fn.dname[:60]) for n in dropped]
            body_obls = self.obls
            self.obls = base_obls
            for nm, f in still:
                ob = Obligation('loop invariant %s holds on entry' % nm, None, True, self.loop_where(fn, lo), 'inv')
                ob.result, ob.backend = 'proved', 'z3'
                self.obls.append(ob)
            for o in backs:
                for nm, f in still:
                    ob = Obligation('loop invariant %s preserved' % nm, None, True, self.loop_where(fn, lo), 'inv')
                    ob.result, ob.backend = 'proved', 'z3'
                    self.obls.append(ob)
            self.obls += body_obls
            for o in outs:
                so = o[3] if o[0] == 'back' else o[4] if o[0] == 'exit' else o[1]
                so.writes |= st0.writes | modset
            return [o for o in outs if o[0] != 'back']

    def run_body(self, fn, h, prev, e, s, act2):
        outs = []
        work = []
        self.block(fn, h, None, e, s, work, outs, start=0 if not h.phis else 0) if not h.phis else self.block_nophi(fn, h, e, s, work, outs)
        res = list(outs)
        for (b, p, en, stt) in work:
            res += self.region(fn, b, p, en, stt, act2)
        return res

    def block_nophi(self, fn, h, e, s, work, outs):
        # values of the phis are already in e
        saved = h.phis
        h.phis = []
        try:
            self.block(fn, h, None, e, s, work, outs)
        finally:
            h.phis = saved

    def existing(self, st0, env0):
        ex = set(o for (o, k) in st0.mem if isinstance(o, Obj))
        for v in env0.values():
            if isinstance(v, Ptr) and v.obj is not None:
                ex.add(v.obj)
        for v in env0.get('allocas', ()):
            ex.add(v)
        for o in st0.allocs:
            ex.add(o)
        for v in st0.mem.values():
            if isinstance(v, tuple) and isinstance(v[1], Ptr) and v[1].obj is not None:
                ex.add(v[1].obj)
        for o in self.opts.get('objects', ()):
            ex.add(o)
        for o in self.globals.values():
            ex.add(o)
        return ex

    def loop_where(self, fn, lo):
        for i in lo.header.insts:
            if i.line:
                return '%s:%s (%s)' % (os.path.basename(i.file or '?'), i.line, fn.dname[:120])
        return fn.dname[:160]

    def fresh_ptr(self, v0, nm, view, key):
        v0 = self.redirect(v0)
        o = v0.obj
        if self.mode == 'int' and o.stride is None and o.kind == 'heap' and o.tags.get('untyped'):
            raise Unsupported('loop pointer into an allocation without element type')
        S = o.stride or 1
        if self.mode == 'bv':
            v = Ptr(o, self.fresh_off(nm))
            view.ptrs[key] = (v, v0)
            if S == 1 and o.stride:
                view.pidx[key] = (v.off, self.bv(v0.off, 64), 0)
            return v
        if 'rows' in o.tags:
            r, i0, c0 = self.rowcol(v0)
            q = z3.Int(self.fresh_name('idx_' + nm))
            v = self.ptr_add(self.ptr_add(Ptr(o, q * S), r * o.tags['rows'][0]), c0)
            view.ptrs[key] = (v, v0)
            view.pidx[key] = (q, i0, c0)
            return v
        i0, c0 = self.elem(None, v0) if o.stride else (v0.off, 0)
        q = z3.Int(self.fresh_name('idx_' + nm))
        off = q * S if S != 1 else q
        v = Ptr(o, off + c0 if c0 else off)
        view.ptrs[key] = (v, v0)
        view.pidx[key] = (q, i0, c0)
        return v

    def cur_idx(self, p, c0):
        o = p.obj
        if not o.stride:
            return p.off
        if 'rows' in o.tags:
            raise Unsupported('loop pointer into %s' % o)
        i, c = self.elem(None, p)
        if c != c0:
            raise Unsupported('loop pointer changes its position inside the element')
        return i

    def fresh_off(self, nm):
        if self.mode == 'bv':
            return z3.BitVec(self.fresh_name('off_' + nm), 64)
        return z3.Int(self.fresh_name('off_' + nm))

    def havoc_ghost(self, s, k, old):
        if is_sym(old):
            return z3.Const(self.fresh_name('gh_%s' % k), old.sort())
        if isinstance(old, int):
            return z3.Int(self.fresh_name('gh_%s' % k))
        raise Unsupported('havoc ghost %s' % k)

    def set_ghost(self, st, k, v):
        st.ghost[k] = v
        st.writes.add(('ghost', k))

    def getghost(self, st, o, name):
        key = (o, ('g', name))
        m = st.mem.get(key)
        if m is None:
            srt = self.opts['ghost_sorts'][name]
            idx = z3.IntSort()
            m = z3.Const('%s!%d.%s' % (o.name, o.uid, name), z3.ArraySort(idx, srt))
            st.mem[key] = m
        return m

    def setghost(self, st, o, name, m):
        st.mem[(o, ('g', name))] = m
        st.writes.add((o, ('g', name)))

    def entry_view(self, view, st0, inits):
        v = LoopView(**view.__dict__)
        v.st = st0
        v.env = view.env0
        v.ints = {k: (x[1], x[1], x[2]) for k, x in view.ints.items()}
        v.ptrs = {k: (x[1], x[1]) for k, x in view.ptrs.items()}
        v.pidx = {k: (x[1], x[1], x[2]) for k, x in view.pidx.items()}
        v.fps = {k: (x[1], x[1]) for k, x in view.fps.items()}
        v.ghosts = {k: (x[1], x[1]) for k, x in view.ghosts.items()}
        v.bools = {k: inits[k[1]] for k in view.bools if k[0] == 'phi'}
        v.at = 'entry'
        return v

    def back_view(self, view, bs, be, modset):
        v = LoopView(**view.__dict__)
        v.st = bs
        v.env = be

        def cur(k):
            if k[0] == 'phi':
                return be[k[1]]
            return bs.mem[k][1]
        v.ints = {k: (cur(k), x[1], x[2]) for k, x in view.ints.items()}
        v.ptrs = {k: (cur(k), x[1]) for k, x in view.ptrs.items()}
        v.pidx = {k: (self.cur_idx(cur(k), x[2]), x[1], x[2]) for k, x in view.pidx.items()}
        v.fps = {k: (cur(k), x[1]) for k, x in view.fps.items()}
        v.ghosts = {k: (bs.ghost[k], x[1]) for k, x in view.ghosts.items()}
        v.bools = {k: be[k[1]] for k in view.bools if k[0] == 'phi'}
        v.at = 'back'
        v.head = view
        return v

    def quick(self, st, goal):
        """proof attempt used for loop invariant candidates"""
        if goal is True:
            return True
        if goal is False:
            return not self.feasible(st, z3.BoolVal(True))
        return quick_prove(st.pc, goal, self.opts['houdini_rl'] * SLOW, self.opts['houdini_ms'] * SLOW)


QLOG = []
HDBG = None     # development aid: called for every loop invariant candidate that is not inductive


def skolem(goal):
    """strip outer universal quantifiers of a goal and expose reads over writes to e-matching"""
    for _ in range(4):
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [z3.Const(_sk(goal.var_name(i)), goal.var_sort(i)) for i in range(goal.num_vars())]
            goal = z3.substitute_vars(goal.body(), *reversed(vs))
        else:
            break
    return z3.simplify(goal, expand_select_store=True)


def _sk(n):
    return 'sk_%s!%d' % (n, next(_fresh))


def has_app(e):
    """does the term read an array or apply an uninterpreted function?"""
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and (x.decl().kind() == z3.Z3_OP_SELECT or (x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0)):
            return True
        st.extend(x.children())
    return False


SUBST = False     # substitute equal terms for constants before solving (bit-vector tasks)


def subst_eqs(pc, goal):
    """pc and goal with constants replaced by the terms pc equates them with (equivalent problem)"""
    facts, st = [], list(reversed(pc))
    while st:
        f = st.pop()
        if z3.is_and(f):
            st.extend(reversed(f.children()))
        else:
            facts.append(f)

    def consts(t):
        out, st, seen = set(), [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.get_id())
            st.extend(x.children())
        return out
    for _ in range(200):
        hit = None
        for k, f in enumerate(facts):
            if z3.is_eq(f):
                a, b = f.children()
                for x, y in ((a, b), (b, a)):
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_array(x) and x.get_id() not in consts(y):
                        hit = (k, x, y)
                        break
            if hit:
                break
        if not hit:
            break
        k, x, y = hit
        facts = [z3.simplify(z3.substitute(f, (x, y))) for j, f in enumerate(facts) if j != k]
        goal = z3.substitute(goal, (x, y))
    return facts, z3.simplify(goal)


def quick_prove(pc, goal, rl, ms):
    """deterministic, resource-bounded proof attempt (e-matching only)"""
    if SUBST and is_sym(goal):
        goal = skolem(goal)
        while z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
            pc, goal = list(pc) + [goal.children()[0]], goal.children()[1]
        pc, goal = subst_eqs(pc, goal)
    q = has_quant(goal) or has_app(goal)
    goal = g = skolem(goal)
    if z3.is_true(g):
        return True
    s = z3.SimpleSolver()
    s.set('rlimit', rl)
    s.set('timeout', ms)
    s.set('smt.mbqi', False)
    s.set('smt.auto_config', False)
    for f in pc:
        if q or not has_quant(f):
            s.add(f)
    s.add(z3.Not(goal))
    t0 = time.time()
    r = s.check()
    PROVE_LOG['calls'] += 1
    PROVE_LOG['secs'] += time.time() - t0
    if os.environ.get('QLOG'):
        rc = [v for k, v in s.statistics() if k == 'rlimit count']
        QLOG.append((str(r), time.time() - t0, rc, str(goal)[:150].replace(chr(10), ' ')))
    return r == z3.unsat


class PathEnd(Exception):
    pass


class PInt:
    """integer obtained from a pointer"""
    __slots__ = ('p', 'k')

    def __init__(self, p):
        self.p = p
        self.k = 1


class IntTy:
    k = 'int'
    _c = {}

    def __new__(cls, w):
        t = cls._c.get(w)
        if t is None:
            t = object.__new__(cls)
            t.w = w
            t.size = max(1, w // 8)
            t.s = 'i%d' % w
            cls._c[w] = t
        return t

    def __init__(self, w):
        pass


class FpTy:
    k = 'fp'
    _c = {}

    def __new__(cls, w):
        t = cls._c.get(w)
        if t is None:
            t = object.__new__(cls)
            t.w = w
            t.size = w // 8
            t.s = 'f%d' % w
            cls._c[w] = t
        return t

    def __init__(self, w):
        pass


class PtrTyC:
    k = 'ptr'
    w = 64
    size = 8
    s = 'ptr'


PTR = PtrTyC()
_I8 = IntTy(8)
_I64 = IntTy(64)
I8, I16, I32, I64 = IntTy(8), IntTy(16), IntTy(32), IntTy(64)
F64 = FpTy(64)


def B_int(x):
    return x if is_sym(x) else z3.IntVal(x)


def auto_invariants(L):
    """candidate invariants over the loop's own counters, independent of variable names"""
    eng = L.eng
    out = []
    ints = sorted(L.ints.items(), key=lambda kv: str(kv[0]))
    if eng.mode == 'bv':
        for k, (v, v0, w) in ints:
            if v is UNDEF or v0 is UNDEF or isinstance(v, PInt):
                continue
            out.append(('auto:%s>=init' % (k,), z3.UGE(eng.bv(v, w), eng.bv(v0, w))))
            out.append(('auto:%s<=init' % (k,), z3.ULE(eng.bv(v, w), eng.bv(v0, w))))
        return out
    ok = [(k, v, v0, w) for k, (v, v0, w) in ints if v is not UNDEF and v0 is not UNDEF and not isinstance(v, PInt) and not isinstance(v0, PInt)]
    ok += [(('p',) + tuple(str(x) for x in k), i, i0, 0) for k, (i, i0, c) in sorted(L.pidx.items(), key=lambda kv: str(kv[0]))]
    ok += [(('ghost', k), g, g0, 0) for k, (g, g0) in sorted(L.ghosts.items()) if isinstance(g, int) or (is_sym(g) and z3.is_int(g))]
    bounds = loop_bounds(L)
    pbounds = ptr_bounds(L)
    for k, v, v0, w in ok:
        out.append(('auto:%s>=init' % (k,), B(v >= v0)))
        out.append(('auto:%s<=init' % (k,), B(v <= v0)))
        if w:
            H = 1 << (w - 1)
            out.append(('auto:%s nonneg' % (k,), B(v < H)))
            out.append(('auto:%s>=init signed' % (k,), B(eng.sgn(v, w) >= eng.sgn(v0, w))))
            out.append(('auto:%s<=init signed' % (k,), B(eng.sgn(v, w) <= eng.sgn(v0, w))))
        for bn, b in bounds if w else pbounds:
            out.append(('auto:%s<=%s' % (k, bn), B(v <= b)))
            out.append(('auto:%s>=%s' % (k, bn), B(v >= b)))
    for (k1, a, a0, w1), (k2, b, b0, w2) in itertools.combinations(ok, 2):
        out.append(('auto:%s-%s const' % (k1, k2), B(a - b == a0 - b0)))
        out.append(('auto:%s+%s const' % (k1, k2), B(a + b == a0 + b0)))
    return out


def ptr_bounds(L):
    res, seen = [], set()
    objs = set(p0.obj for _, p0 in L.ptrs.values())
    if not objs:
        return res
    for b in L.fn.blocks:
        if b.id not in L.loop.blocks:
            continue
        for i in b.insts:
            if i.op == 'icmp' and i.ops[0].ty.k == 'ptr':
                for x in i.ops:
                    v = None
                    if isinstance(x, SSA) and (x.op == 'arg' or x.block.id not in L.loop.blocks):
                        v = L.env0.get(x.id)
                    elif isinstance(x, SSA) and x.op == 'load' and isinstance(x.ops[0], SSA):
                        p = L.env0.get(x.ops[0].id)
                        if isinstance(p, Ptr) and p.obj is not None and not is_sym(p.off):
                            c = L.entry.mem.get((p.obj, ('c', p.off)))
                            if c is not None and (p.obj, ('c', p.off)) not in L.modset:
                                v = c[1]
                    if isinstance(v, Ptr) and v.obj in objs:
                        try:
                            ix = L.eng.elem(None, v)[0] if v.obj.stride else v.off
                        except Unsupported:
                            continue
                        res.append(('p#%d' % x.id, ix))
    for o in objs:
        if o.count is not None:
            res.append(('count', o.count))
    return res[:12]


def loop_bounds(L):
    """loop-invariant terms the loop's exit tests compare against (values at loop entry)"""
    res = []
    seen = set()
    fn = L.fn
    for b in fn.blocks:
        if b.id not in L.loop.blocks:
            continue
        for i in b.insts:
            if i.op == 'icmp' and i.ops[0].ty.k == 'int':
                for x in i.ops:
                    v = None
                    if isinstance(x, Const) and x.kind == 'int':
                        v = x.val
                    elif isinstance(x, SSA):
                        if x.op == 'arg' or x.block.id not in L.loop.blocks:
                            v = L.env0.get(x.id)
                        elif x.op == 'load' and isinstance(x.ops[0], SSA):
                            a = x.ops[0]
                            p = L.env0.get(a.id)
                            if p is None and a.op == 'gep' and isinstance(a.ops[0], SSA):
                                bp = L.env0.get(a.ops[0].id)
                                if isinstance(bp, Ptr) and all(isinstance(y, Const) for y in a.ops[1:]):
                                    try:
                                        p = L.eng.gep(L.entry, a.x['ty'], bp, [(y.val, y.ty.w) for y in a.ops[1:]])
                                    except Exception:
                                        p = None
                            if isinstance(p, Ptr) and p.obj is not None and not is_sym(p.off):
                                c = L.entry.mem.get((p.obj, ('c', p.off)))
                                if c is not None and (p.obj, ('c', p.off)) not in L.modset:
                                    v = c[1]
                    if v is None or v is UNDEF or isinstance(v, (PInt, bool, list)):
                        continue
                    if is_sym(v) and not z3.is_int(v):
                        continue
                    key = str(v) if not is_sym(v) else v.get_id()
                    if key in seen:
                        continue
                    seen.add(key)
                    res.append(('%s#%d' % (x.name or 'c', x.id) if isinstance(x, SSA) else 'c%s' % v, v))
    return res[:12]


# ---------------------------------------------------------------------- proving
_CVC5 = None
SLOW = 1  # factor on the short time limits (see check.py: a second try with more time)
PROVE_LOG = dict(z3=0, cvc5=0, secs=0.0, calls=0)


def prove(pc, goal, ms=15000, fallback=True, quick=False):
    """-> (result, backend, secs, model-or-None); result in proved / refuted / unknown"""
    t0 = time.time()
    PROVE_LOG['calls'] += 1
    if SUBST and is_sym(goal):
        pc, goal = subst_eqs(pc, skolem(goal))
    goal = g = skolem(goal)
    if z3.is_true(g):
        return 'proved', 'z3', 0.0, None
    last = 'unknown'
    model = None
    s = z3.SimpleSolver()
    s.set('rlimit', 20000000)
    s.set('timeout', ms)
    s.set('smt.mbqi', False)
    s.set('smt.auto_config', False)
    s.add(*pc)
    s.add(z3.Not(goal))
    if s.check() == z3.unsat:
        dt = time.time() - t0
        PROVE_LOG['z3'] += 1
        PROVE_LOG['secs'] += dt
        return 'proved', 'z3', dt, None
    tries = [dict(mbqi=False)] if quick else [dict()] if not fallback else [dict(), dict(mbqi=False), dict(seed=7, mbqi=True)]
    quant = has_quant(goal) or any(has_quant(f) for f in pc)
    if not quant:
        tries = tries[:1]
    for k, tr in enumerate(tries):
        s = z3.Solver()
        s.set('timeout', int(ms if k == 0 else ms))
        if 'mbqi' in tr:
            s.set('smt.mbqi', tr['mbqi'])
        if 'seed' in tr:
            s.set('smt.random_seed', tr['seed'])
        s.add(*pc)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            dt = time.time() - t0
            PROVE_LOG['z3'] += 1
            PROVE_LOG['secs'] += dt
            return 'proved', 'z3', dt, None
        if r == z3.sat:
            try:
                model = s.model()
            except z3.Z3Exception:
                model = None
            dt = time.time() - t0
            PROVE_LOG['secs'] += dt
            return 'refuted', 'z3', dt, model
    if fallback:
        s = z3.Solver()
        s.add(*pc)
        s.add(z3.Not(goal))
        r = run_cvc5(s.to_smt2(), ms)
        dt = time.time() - t0
        PROVE_LOG['secs'] += dt
        if r == 'unsat':
            PROVE_LOG['cvc5'] += 1
            return 'proved', 'cvc5', dt, None
        if r == 'sat':
            return 'refuted', 'cvc5', dt, None
    return 'unknown', 'z3', time.time() - t0, None


def run_cvc5(smt, ms):
    exe = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5'
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    try:
        f.write('(set-logic ALL)\n' + smt)
        f.close()
        p = subprocess.run([exe, '--tlimit=%d' % ms, '--full-saturate-quant' if 'forall' in smt else '--no-incremental', f.name],
                           capture_output=True, text=True, timeout=ms / 1000 + 10)
        return p.stdout.strip().split('\n')[0]
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)

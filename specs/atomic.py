"""Contracts of lintel::Atomic: every operation is one indivisible step on the counter, whatever other threads do in
between.  Rely: before each instruction that touches the counter, other threads may have given it any value.  The
instructions are those of the inline assembly, read from the template and its constraints (x86): an exchange with
memory is always locked, xadd and cmpxchg only with the lock prefix; without it the reading and the writing are two
steps with other threads in between."""
import re
import z3
import vc
from vc import *
from lib import *
from runner import Task

DRIVERS = {'atomic': ['drivers/atomic.cpp']}
TYPES = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'unsigned short': 16, 'signed char': 8}
UNSAFE = [('unsigned int', 32, 'int', 32), ('long', 64, 'int', 32), ('unsigned char', 8, 'int', 32), ('long', 64, 'unsigned int', 32), ('short', 16, 'long', 64)]


class Mem(Engine):
    """all accesses to the counter are steps among those of other threads"""

    def other_threads(self, st):
        c = self.counter
        v = z3.BitVec(self.fresh_name('counter_now'), self.width)
        Engine.store(self, st, Ptr(c, 0), v, self.cty)
        return v

    def mine(self, p):
        return isinstance(p, Ptr) and p.obj is getattr(self, 'counter', None)

    def load(self, st, p, ty, what='read'):
        if self.mine(p) and self.shared:
            v = self.other_threads(st)
            r = Engine.load(self, st, p, ty, what)
            self.set_ghost(st, 'seen', v)
            self.set_ghost(st, 'reads', st.ghost['reads'] + 1)
            self.set_ghost(st, 'ordered', z3.BoolVal(False))
            return r
        return Engine.load(self, st, p, ty, what)

    def store(self, st, p, v, ty, what='write'):
        if self.mine(p) and self.shared:
            old = self.other_threads(st)
            Engine.store(self, st, p, v, ty, what)
            self.event(st, old, Engine.load(self, st, Ptr(self.counter, 0), self.cty), False)
            return
        Engine.store(self, st, p, v, ty, what)

    def event(self, st, old, new, locked):
        self.set_ghost(st, 'writes', st.ghost['writes'] + 1)
        self.set_ghost(st, 'old', old)
        self.set_ghost(st, 'new', new)
        self.set_ghost(st, 'fenced', z3.BoolVal(bool(locked)))
        self.set_ghost(st, 'ordered', z3.BoolVal(False))

    def asm(self, st, text, args, inst):
        m = re.search(r'asm (sideeffect )?(?:alignstack )?(?:inteldialect )?"(.*?)", "(.*?)"', text, re.S)
        if not m:
            raise Unsupported('inline assembly ' + text[:80])
        code = re.sub(r'\\([0-9A-Fa-f]{2})', lambda h: chr(int(h.group(1), 16)), m.group(2))
        cons = m.group(3).split(',')
        clobbers = [c for c in cons if c.startswith('~')]
        cons = [c for c in cons if not c.startswith('~')]
        rty = getattr(inst, 'ty', None)
        rtys = [] if rty is None or rty.k == 'void' else list(rty.els) if rty.k == 'struct' else [rty]
        args = list(args)
        ops, fixed = [], {}
        outs = []
        for k, c in enumerate(cons):
            o = dict(c=c)
            if c.startswith('='):
                if '*' in c:
                    o['mem'] = args.pop(0)
                else:
                    o['ty'] = rtys[len(outs)]
                    o['reg'] = o
                    o['val'] = UNDEF
                    outs.append(o)
            elif '*' in c:
                o['mem'] = args.pop(0)
            else:
                v = args.pop(0)
                if c.isdigit():
                    ops[int(c)]['val'] = v
                    o = dict(ops[int(c)], c=c)
                else:
                    o['val'] = v
            ops.append(o)
            r = re.search(r'\{(\w+)\}', c)
            if r and 'mem' not in o:
                fixed[r.group(1)] = o
        if args:
            raise Unsupported('operands of inline assembly ' + text[:80])
        flag = None
        locked = False
        for line in re.split(r'[\n;]', code):
            line = line.split('#')[0].strip()
            if line.startswith('lock'):
                locked, line = True, line[4:].strip()
            if not line:
                continue
            w = line.split(None, 1)
            name = w[0]
            opn = [x.strip() for x in w[1].split(',')] if len(w) > 1 else []
            L = []
            for x in opn:
                if not re.match(r'\$(\d+)$', x):
                    raise Unsupported('inline assembly operand ' + x)
                L.append(ops[int(x[1:])])
            width = next((o['ty'].w if 'ty' in o else o['val'].size() for o in L if 'mem' not in o), None)

            def mem(o):
                return o['mem']

            def touch(o):
                return self.mine(o['mem'])

            def read(o):
                if 'mem' in o:
                    return Engine.load(self, st, o['mem'], self.ity(width))
                return o['val']

            def write(o, v):
                if 'mem' in o:
                    Engine.store(self, st, o['mem'], v, self.ity(width))
                else:
                    o['val'] = v
            sfx = {'b': 8, 'w': 16, 'l': 32, 'q': 64}
            base = name
            if name not in ('mov', 'xchg', 'xadd', 'cmpxchg', 'setz', 'sete', 'mfence', 'lfence', 'sfence') and name[-1] in sfx:
                base = name[:-1]
                if width != sfx[name[-1]]:
                    raise Unsupported('operand size of ' + name)
            if base in ('mfence', 'lfence', 'sfence'):
                if base == 'mfence':
                    self.set_ghost(st, 'fenced', z3.BoolVal(True))
                    self.set_ghost(st, 'fences', st.ghost['fences'] + 1)
            elif base == 'mov':
                s, d = L
                for o in (s, d):
                    if 'mem' in o and touch(o):
                        before = self.other_threads(st)
                v = read(s)
                if 'mem' in s and touch(s):
                    self.set_ghost(st, 'seen', before)
                    self.set_ghost(st, 'reads', st.ghost['reads'] + 1)
                    self.set_ghost(st, 'ordered', z3.BoolVal(False))
                write(d, v)
                if 'mem' in d and touch(d):
                    self.event(st, before, Engine.load(self, st, Ptr(self.counter, 0), self.cty), False)
            elif base == 'xchg':
                a, b = L
                mo = [o for o in L if 'mem' in o]
                shared = any(touch(o) for o in mo)
                if shared:
                    before = self.other_threads(st)
                x, y = read(a), read(b)
                write(a, y)
                write(b, x)
                if shared:
                    self.event(st, before, Engine.load(self, st, Ptr(self.counter, 0), self.cty), True)
            elif base == 'xadd':
                s, d = L
                if 'mem' not in d:
                    raise Unsupported('xadd without memory')
                before = self.other_threads(st) if touch(d) else None
                x, y = read(d), read(s)
                write(s, x)
                if touch(d) and not locked:
                    before = self.other_threads(st)
                write(d, x + y)
                if touch(d):
                    self.event(st, before, Engine.load(self, st, Ptr(self.counter, 0), self.cty), locked)
            elif base == 'cmpxchg':
                s, d = L
                ax = fixed.get('ax')
                if 'mem' not in d or ax is None:
                    raise Unsupported('cmpxchg operands')
                before = self.other_threads(st) if touch(d) else None
                x, want, v = read(d), ax['val'], read(s)
                flag = x == want
                if touch(d):
                    now = before
                    if not locked:
                        now = self.other_threads(st)
                    write(d, z3.If(flag, v, now))
                    g = dict(st.ghost)
                    self.event(st, now, Engine.load(self, st, Ptr(self.counter, 0), self.cty), locked)
                    self.set_ghost(st, 'seen', before)
                    self.set_ghost(st, 'reads', st.ghost['reads'] + 1)
                    for k in ('writes', 'old', 'new', 'fenced'):
                        self.set_ghost(st, k, z3.If(flag, st.ghost[k], g[k]))
                else:
                    write(d, z3.If(flag, v, x))
                ax['val'] = z3.If(flag, want, x)
            elif base in ('setz', 'sete'):
                width = 8
                if flag is None:
                    raise Unsupported('flag of an unknown instruction')
                v = z3.If(flag, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                write(L[0], v)
            else:
                raise Unsupported('instruction ' + name)
            locked = False
        if m.group(1) and any('memory' in c for c in clobbers):
            self.set_ghost(st, 'ordered', z3.BoolVal(True))
        if not outs:
            return None
        return outs[0]['val'] if len(outs) == 1 else [o['val'] for o in outs]

    def ity(self, w):
        return {8: I8, 16: I16, 32: I32, 64: I64}[w]


class A:
    def __init__(self, ctx, w):
        self.mod = ctx['mods']['atomic']
        vc.SUBST = True
        e = self.e = Mem(self.mod, 'bv', dict(check_nsw=False))
        e.shared = True
        std_contracts(e)
        st = self.st = State()
        self.w = e.width = w
        e.cty = e.ity(w)
        e.counter = self.this = Obj('atomic', 'param', w // 8)
        for k in ('writes', 'reads', 'fences'):
            st.ghost[k] = z3.BitVecVal(0, 32)
        for k in ('old', 'new', 'seen'):
            st.ghost[k] = z3.BitVec('no_' + k, w)
        st.ghost['fenced'], st.ghost['ordered'] = z3.BoolVal(True), z3.BoolVal(True)
        e.shared = False
        e.store(st, Ptr(self.this, 0), z3.BitVec('counter0', w), e.cty)
        e.shared = True
        e.invs = [self.inv]

    def inv(self, L):
        out = []
        for k, (v, v0) in sorted(L.ghosts.items()):
            if is_sym(v):
                out.append(('%s as on entry' % k, v == v0))
        for k, t in sorted(L.ints.items(), key=lambda x: str(x[0])):
            v = t[0]
            if is_sym(v) and z3.is_bv(v) and v.size() == self.w and 'seen' in L.st.ghost:
                out.append(('%s is the value last seen' % (k,), v == L.st.ghost['seen']))
        return out

    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(pat, f.dname) and not f.decl]
        if len(fs) != 1:
            raise Unsupported('%d functions %s' % (len(fs), pat))
        return fs[0]


def bvv(v, w):
    return v if z3.is_bv(v) else z3.BitVecVal(v, w)


def conv(v, w, c, signed):
    return v if w == c else z3.Extract(w - 1, 0, v) if w < c else z3.SignExt(w - c, v) if signed else z3.ZeroExt(w - c, v)


OPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'or': lambda a, b: a | b, 'and': lambda a, b: a & b, 'xor': lambda a, b: a ^ b}


def atomic_step(e, s, new, what, keep=False):
    """one write, of the value asked for in terms of the value it replaces, and a full barrier; an operation that
    leaves the value it found may also leave the writing out (keep)"""
    g = s.ghost
    once, none = g['writes'] == 1, z3.BoolVal(False)
    if keep:
        none = z3.And(g['writes'] == 0, g['reads'] == 1, new(g['seen']) == g['seen'])
    e.oblige(s, what + ': the counter is written exactly once', z3.Or(once, none), 'post')
    e.oblige(s, what + ': the step gives the counter the right value, of the value it had just before', z3.Implies(once, g['new'] == new(g['old'])), 'post')
    e.oblige(s, what + ': the step is a full memory barrier', g['fenced'], 'post')
    e.oblige(s, what + ': the compiler moves no access across it', g['ordered'], 'post')
    return z3.If(once, g['old'], g['seen']) if keep else g['old'], z3.If(once, g['new'], g['seen']) if keep else g['new']


def task(T, w, pat, what, kind, op=None, amount='arg', ret='old', ctype=None, csigned=True):
    def run(ctx):
        h = A(ctx, w)
        e, st = h.e, h.st
        f = h.fn(pat)
        v = z3.BitVec('amount', w)
        args = [Ptr(h.this, 0)]
        vv = v
        if kind in ('rmw', 'store', 'exchange', 'init'):
            if amount == 'arg':
                if ctype:
                    v = z3.BitVec('amount', ctype)
                    vv = conv(v, w, ctype, csigned)
                args.append(v)
            elif amount == 'suffix':
                args.append(z3.BitVecVal(0, 32))
                vv = z3.BitVecVal(1, w)
            else:
                vv = z3.BitVecVal(1, w)
        if kind == 'init':
            e.shared = False
            if amount != 'arg':
                args, vv = args[:1], z3.BitVecVal(0, w)
        exp = None
        if kind == 'cas':
            exp = Obj('expected', 'param', w // 8)
            want = z3.BitVec('wanted', w)
            e.store(st, Ptr(exp, 0), want, e.cty)
            if ctype:
                v = z3.BitVec('amount', ctype)
                vv = conv(v, w, ctype, csigned)
            args += [Ptr(exp, 0), v]
        r = e.run(f, args, st)
        for s, x in r:
            g = s.ghost
            if kind == 'rmw':
                new = lambda o: OPS[op](o, vv)
                old, now = atomic_step(e, s, new, what, True)
                if ret == 'old':
                    e.oblige(s, what + ': returns the value replaced', bvv(x, w) == old, 'post')
                else:
                    e.oblige(s, what + ': returns the value given', bvv(x, w) == now, 'post')
            elif kind == 'store':
                atomic_step(e, s, lambda o: vv, what)
                if ret == 'arg':
                    e.oblige(s, what + ': returns what was assigned', bvv(x, w) == vv, 'post')
            elif kind == 'exchange':
                atomic_step(e, s, lambda o: vv, what)
                e.oblige(s, what + ': returns the value replaced', bvv(x, w) == g['old'], 'post')
            elif kind == 'init':
                e.oblige(s, what + ': the counter starts with the value given', bvv(e.load(s, Ptr(h.this, 0), e.cty), w) == vv, 'post')
            elif kind == 'load':
                e.oblige(s, what + ': the counter is read exactly once and not written', z3.And(g['reads'] == 1, g['writes'] == 0), 'post')
                if ret == 'iszero':
                    x = x if z3.is_bool(x) or isinstance(x, bool) else x != 0
                    e.oblige(s, what + ': true exactly if the value seen is zero', (x if is_sym(x) else z3.BoolVal(x)) == (g['seen'] == 0), 'post')
                else:
                    e.oblige(s, what + ': returns the value the counter had', bvv(x, w) == g['seen'], 'post')
                e.oblige(s, what + ': the compiler moves no access across it', g['ordered'], 'post')
            elif kind == 'cas':
                x = x if z3.is_bool(x) or isinstance(x, bool) else bvv(x, 8) != 0
                x = x if is_sym(x) else z3.BoolVal(x)
                e.shared = False
                now = bvv(e.load(s, Ptr(exp, 0), e.cty), w)
                e.shared = True
                e.oblige(s, what + ': true exactly if the counter had the expected value', x == (g['seen'] == want), 'post')
                e.oblige(s, what + ': success writes once, failure does not write', g['writes'] == z3.If(x, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), 'post')
                e.oblige(s, what + ': success replaces the expected value by the one desired', z3.Implies(x, z3.And(g['old'] == want, g['new'] == vv)), 'post')
                e.oblige(s, what + ': expected is left on success and the value found on failure', now == g['seen'], 'post')
                e.oblige(s, what + ': the comparison is one step', g['reads'] == 1, 'post')
                e.oblige(s, what + ': the step is a full memory barrier', g['fenced'], 'post')
                e.oblige(s, what + ': the compiler moves no access across it', g['ordered'], 'post')
        e.returns = len(r)
        return e
    return run


def t_fence(ctx):
    h = A(ctx, 32)
    e, st = h.e, h.st
    st.ghost['ordered'] = z3.BoolVal(False)
    o = z3.BitVec('order', 32)
    st.assume(z3.ULE(o, 5))
    r = e.run(h.fn(r'^lintel::atomic_thread_fence\('), [o], st)
    for s, x in r:
        e.oblige(s, 'atomic_thread_fence: sequentially consistent order issues a full barrier', z3.Implies(o == 5, s.ghost['fences'] != 0), 'post')
        e.oblige(s, 'atomic_thread_fence: every order but relaxed is a barrier to the compiler', z3.Implies(o != 0, s.ghost['ordered']), 'post')
        e.oblige(s, 'atomic_thread_fence: touches no counter', z3.And(s.ghost['writes'] == 0, s.ghost['reads'] == 0), 'post')
    e.returns = len(r)
    return e


TASKS = [Task('atomic_thread_fence', t_fence)]


def add(T, w, name, *a, **k):
    TASKS.append(Task('Atomic<%s>::%s' % (T, name), task(T, w, *a, **k)))


for T, w in TYPES.items():
    q = re.escape('lintel::Atomic<%s>::' % T)
    add(T, w, 'Atomic()', '^' + q + r'Atomic\(\)$', 'Atomic()', 'init', amount='none')
    add(T, w, 'Atomic(value)', '^' + q + r'Atomic\(%s\)$' % T, 'Atomic(value)', 'init')
    for n in ('incThenFetch', 'operator++'):
        add(T, w, n, '^' + q + re.escape(n) + r'\(\)', n, 'rmw', 'add', amount='one', ret='new')
    for n in ('decThenFetch', 'operator--'):
        add(T, w, n, '^' + q + re.escape(n) + r'\(\)', n, 'rmw', 'sub', amount='one', ret='new')
    add(T, w, 'operator++(int)', '^' + q + r'operator\+\+\(int\)', 'operator++(int)', 'rmw', 'add', amount='suffix')
    add(T, w, 'operator--(int)', '^' + q + r'operator--\(int\)', 'operator--(int)', 'rmw', 'sub', amount='suffix')
    add(T, w, 'addThenFetch', '^' + q + r'addThenFetch\(', 'addThenFetch', 'rmw', 'add', ret='new')
    for o, c in (('add', '+='), ('sub', '-='), ('or', '|='), ('and', '&='), ('xor', '^=')):
        add(T, w, 'operator' + c, '^' + q + re.escape('operator' + c) + r'\(', 'operator' + c, 'rmw', o, ret='new')
        add(T, w, 'fetch_' + o, '^' + q + 'fetch_' + o + r'\(', 'fetch_' + o, 'rmw', o)
    add(T, w, 'load', '^' + q + r'load\(', 'load', 'load')
    add(T, w, 'conversion', '^' + q + r'operator %s\(' % T, 'conversion', 'load')
    add(T, w, 'isZero', '^' + q + r'isZero\(', 'isZero', 'load', ret='iszero')
    add(T, w, 'store', '^' + q + r'store\(', 'store', 'store', ret=None)
    add(T, w, 'operator=', '^' + q + r'operator=\(', 'operator=', 'store', ret='arg')
    add(T, w, 'exchange', '^' + q + r'exchange\(', 'exchange', 'exchange')
    add(T, w, 'compare_exchange_strong', '^' + q + r'compare_exchange_strong\(', 'compare_exchange_strong', 'cas')

for T, w, C, cw in UNSAFE:
    def u(name, kind, op=None, ret='old', args=1):
        if not args and C == 'unsigned int':
            return
        ta = '<%s>' % T if not args else '<%s, %s>' % (T, C)
        TASKS.append(Task('unsafe::%s%s' % (name, ta), task(T, w, r'(^|\s)' + re.escape('lintel::unsafe::' + name + ta) + r'\(', 'unsafe::' + name, kind, op, ret=ret,
                                                           ctype=cw if args else None, csigned='unsigned' not in C)))
    u('atomic_load', 'load', args=0)
    u('atomic_store', 'store', ret=None)
    u('atomic_exchange', 'exchange')
    u('atomic_compare_exchange_strong', 'cas')
    for o in OPS:
        u('atomic_fetch_' + o, 'rmw', o)

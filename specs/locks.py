"""Contracts of mutexes, scoped locks, lock ordering, conditions and threads: which thread holds what, at every point.
The pthread functions are known by their specification: ghost state says whether this thread holds a mutex; every call may
fail with an error, which must be refused (assertion), never passed over."""
import re
import z3
import vc
from vc import *
from lib import *
from runner import Task

DRIVERS = {'locks': ['drivers/locks.cpp', 'REPO/src/PThread.cpp', 'REPO/src/SimpleMutex.cpp']}
EBUSY, ETIMEDOUT, G = 16, 110, 10 ** 9
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def key(p):
    off = p.off if isinstance(p.off, int) else z3.simplify(p.off)
    return '%s@%s' % (p.obj.name, off)


class L:
    def __init__(self, ctx, **opts):
        self.mod = ctx['mods']['locks']
        o = dict(fp='real', unroll=4)
        o.update(opts)
        e = self.e = Engine(self.mod, 'int', o)
        std_contracts(e)
        st = self.st = State()
        st.ghost['err'] = FALSE
        for n in ('calls', 'bodies'):
            st.ghost[n] = ()
        self.level = None
        self.contention = None
        e.assert_ok = self.refuse
        self.legit = lambda st: FALSE
        for n in ('lock', 'trylock', 'timedlock', 'unlock', 'destroy', 'init'):
            e.contract('^pthread_mutex_%s$' % n, getattr(self, n))
        e.contract(r'^pthread_mutexattr_', self.attr)
        e.contract(r'^pthread_attr_', self.attr)
        e.contract(r'^pthread_cond_(wait|timedwait)$', self.cond_wait)
        e.contract(r'^pthread_cond_(signal|broadcast|init|destroy)$', self.cond)
        e.contract(r'^clock_gettime$', self.clock)
        e.contract(r'^pthread_(create|join|kill)$', self.thread)
        e.contract(r'^pthread_sigmask$', self.sigmask)
        e.contract(r'^sigfillset$', self.fill)
        e.contract(r'^body[1-4]$', self.body)
        e.contract(r'^l?lround$', self.lround)
        e.contract(r'^boost::thread_specific_ptr<double>::(get|operator\*|operator->)\b', self.tss_get)
        e.contract(r'^boost::thread_specific_ptr<double>::reset\b', self.tss_reset)

    def fn(self, pat):
        fs = [f for f in self.mod.fns.values() if re.search(pat, f.dname) and not f.decl]
        if len(fs) < 1:
            raise Unsupported('no function %s' % pat)
        return fs[0]

    # ------------------------------------------------------------ state
    def obj(self, name, size=256):
        return Obj(name, 'param', size)

    def held(self, st, p):
        return st.ghost.get('held:' + key(p), FALSE)

    def any_held(self, st, o):
        return z3.Or([v for k, v in st.ghost.items() if k.startswith('held:%s@' % o.name)] + [FALSE])

    def set_held(self, eng, st, p, v):
        eng.set_ghost(st, 'held:' + key(p), v)

    def refuse(self, eng, st):
        return z3.Or(st.ghost['err'], self.legit(st))

    def ret(self, eng, st, name, errs=()):
        """0, one of errs, or an error"""
        r = eng.fresh_int(name, 32, st)
        st.assume(r >= 0, ) if False else st.assume(z3.And(r >= 0, r < 4096))
        eng.set_ghost(st, 'err', z3.Or(st.ghost['err'], z3.And(r != 0, *[r != x for x in errs])))
        return r

    def call(self, eng, st, *what):
        eng.set_ghost(st, 'calls', st.ghost['calls'] + (what,))

    # ------------------------------------------------------------ pthread by contract
    def lock(self, eng, st, fn, a):
        eng.oblige(st, 'a mutex this thread holds is not locked again', z3.Not(self.held(st, a[0])), 'call')
        r = self.ret(eng, st, 'lock')
        self.set_held(eng, st, a[0], z3.Or(self.held(st, a[0]), r == 0))
        self.call(eng, st, 'lock', a[0], r)
        if self.contention:
            # while this thread waited, others had the mutex and counted
            c = eng.fresh_int('contention_now', 32, st)
            eng.store(st, Ptr(a[0].obj, self.contention[0]), c, I32)
            eng.set_ghost(st, 'counted', c)
        return r

    def trylock(self, eng, st, fn, a):
        r = self.ret(eng, st, 'trylock', (EBUSY,))
        self.set_held(eng, st, a[0], z3.Or(self.held(st, a[0]), r == 0))
        self.call(eng, st, 'trylock', a[0], r)
        return r

    def timedlock(self, eng, st, fn, a):
        eng.oblige(st, 'a mutex this thread holds is not locked again', z3.Not(self.held(st, a[0])), 'call')
        r = self.ret(eng, st, 'timedlock', (ETIMEDOUT,))
        self.set_held(eng, st, a[0], z3.Or(self.held(st, a[0]), r == 0))
        self.call(eng, st, 'timedlock', a[0], a[1], r)
        return r

    def unlock(self, eng, st, fn, a):
        eng.oblige(st, 'only a mutex this thread holds is unlocked', self.held(st, a[0]), 'call')
        r = self.ret(eng, st, 'unlock')
        self.set_held(eng, st, a[0], z3.And(self.held(st, a[0]), r != 0))
        self.call(eng, st, 'unlock', a[0], r)
        return r

    def init(self, eng, st, fn, a):
        r = self.ret(eng, st, 'init') if isinstance(a[1], Ptr) and a[1].obj is not None else 0     # does not fail without attributes (glibc)
        self.set_held(eng, st, a[0], FALSE)
        self.call(eng, st, 'init', a[0], r)
        return r

    def destroy(self, eng, st, fn, a):
        eng.oblige(st, 'a mutex that is held is not destroyed', z3.Not(self.held(st, a[0])), 'call')
        r = self.ret(eng, st, 'destroy')
        self.call(eng, st, 'destroy', a[0], r)
        return r

    def attr(self, eng, st, fn, a):
        r = self.ret(eng, st, 'attr')
        n = re.sub(r'.*_', '', fn.name)
        out = None
        if 'get' in n:
            out = eng.fresh_int('attribute', 64, st)
            eng.store(st, a[1], out, I64)
        self.call(eng, st, fn.name, a[0], a[1] if len(a) > 1 else None, r, out)
        return r

    def cond_wait(self, eng, st, fn, a):
        eng.oblige(st, 'the mutex is held when the waiting begins', self.held(st, a[1]), 'call')
        timed = 'timed' in fn.name
        r = self.ret(eng, st, 'wait', (ETIMEDOUT,) if timed else ())
        sec = ns = None
        if timed:
            sec, ns = eng.load(st, a[2], I64), eng.load(st, eng.ptr_add(a[2], 8), I64)
        self.call(eng, st, 'wait', a[0], a[1], sec, ns, r)
        return r

    def cond(self, eng, st, fn, a):
        r = self.ret(eng, st, 'cond')
        self.call(eng, st, fn.name, a[0], r)
        return r

    def clock(self, eng, st, fn, a):
        r = self.ret(eng, st, 'clock')
        s, n = eng.fresh_int('now_sec', 64, st), eng.fresh_int('now_nsec', 64, st)
        st.assume(z3.And(s < 1 << 40, n < G))
        eng.store(st, a[1], s, I64)
        eng.store(st, eng.ptr_add(a[1], 8), n, I64)
        self.call(eng, st, 'clock', a[0], s, n, r)
        return r

    def thread(self, eng, st, fn, a):
        r = self.ret(eng, st, fn.name)
        if fn.name == 'pthread_kill':       # only a signal that does not exist is refused, other errors are told to the caller
            eng.set_ghost(st, 'err', z3.And(r == 22, True))
        out = None
        if fn.name == 'pthread_create':
            out = eng.fresh_int('tid', 64, st)
            eng.store(st, a[0], out, I64)
        elif fn.name == 'pthread_join' and isinstance(a[1], Ptr) and a[1].obj is not None:
            out = Ptr(Obj('result', 'param', 8), 0)
            eng.store(st, a[1], out, PTR)
        self.call(eng, st, fn.name, list(a), r, out, st.ghost.get('mask', 'own'))
        return r

    def sigmask(self, eng, st, fn, a):
        how, new, old = a
        if isinstance(old, Ptr) and old.obj is not None:
            eng.set_ghost(st, 'set:' + key(old), st.ghost.get('mask', 'own'))
        if isinstance(new, Ptr) and new.obj is not None:
            s = st.ghost.get('set:' + key(new), 'unknown')
            h = how if isinstance(how, int) else z3.simplify(how).as_long() if z3.is_int_value(z3.simplify(how)) else None
            if h not in (0, 2):
                raise Unsupported('pthread_sigmask %r' % (how,))
            eng.set_ghost(st, 'mask', s if h == 2 or s == 'all' else 'unknown')
        return 0

    def fill(self, eng, st, fn, a):
        eng.set_ghost(st, 'set:' + key(a[0]), 'all')
        return 0

    def lround(self, eng, st, fn, a):
        v = eng.rint(st, a[0], 'round')
        eng.oblige(st, 'floating to integer conversion in range', z3.And(v >= -(1 << 63), v < 1 << 63), 'overflow')
        return z3.If(v < 0, v + (1 << 64), v)

    # ------------------------------------------------------------ the level of this thread
    def tss_get(self, eng, st, fn, a):
        t = st.ghost.get('tss', 'null')
        if t == 'null':
            if 'get' not in fn.dname.split('::')[-1]:
                eng.oblige(st, 'the group is prepared for this thread', False, 'call')
                raise PathEnd()
            return Ptr(None, 0)
        return Ptr(t, 0)

    def tss_reset(self, eng, st, fn, a):
        eng.set_ghost(st, 'tss', a[1].obj if a[1].obj is not None else 'null')
        return None

    def cur(self, st):
        return self.e.load(st, Ptr(st.ghost['tss'], 0), F64)

    def with_level(self):
        o = Obj('level', 'param', 8)
        self.level = z3.Real('level_before')
        self.e.store(self.st, Ptr(o, 0), self.level, F64)
        self.st.ghost['tss'] = o

    def body(self, eng, st, fn, a):
        eng.set_ghost(st, 'bodies', st.ghost['bodies'] + (fn.name,))
        self.in_body(eng, st, int(fn.name[-1]))
        return None

    def in_body(self, eng, st, k):
        pass


def boolean(x):
    return x if z3.is_bool(x) else z3.BoolVal(x) if isinstance(x, bool) else x != 0


# ---------------------------------------------------------------- mutexes
def t_mutex(fnpat, what, extra=None, held0=False, args=None):
    def run(ctx):
        h = L(ctx)
        e, st = h.e, h.st
        f = h.fn(fnpat)
        m = h.obj('mutex', 64)
        start = Ptr(m, 0)
        # where the pthread mutex is inside the object is found by locking an object that nobody holds
        if held0:
            st.ghost['held:all'] = TRUE
            h.held = lambda st, p: st.ghost.get('held:' + key(p), TRUE)
        cont = None
        if 'PThread' in what:
            off = const_of(h.mod, 'off_contention')
            cont = e.fresh_int('contention', 32, st)
            e.store(st, Ptr(m, off), cont, I32)
            h.contention = (off,)
        r = e.run(f, [start] + (args(h) if args else []), st)
        for s, x in r:
            ks = [k for k in s.ghost if k.startswith('held:mutex@')]
            e.oblige(s, what + ': one mutex is touched, inside the object', z3.BoolVal(len(ks) == 1), 'post')
            e.oblige(s, what + ': no error is passed over', z3.Not(s.ghost['err']), 'post')
            if ks:
                extra(h, s, x, s.ghost[ks[0]], cont)
        e.returns = len(r)
        return e
    return run


def p_lock(h, s, x, held, cont):
    h.e.oblige(s, 'lock: the mutex is held when lock returns', held, 'post')
    if cont is not None:
        now = h.e.load(s, Ptr(h_obj(s), h.contention[0]), I32)
        cont = s.ghost.get('counted', cont)
        tried = [c for c in s.ghost['calls'] if c[0] == 'trylock']
        busy = z3.Or([c[2] == EBUSY for c in tried] + [FALSE])
        h.e.oblige(s, 'lock: contention counts the times the mutex was found taken', now == z3.If(busy, (cont + 1) % (1 << 32), cont), 'post')


def h_obj(s):
    return [c[1].obj for c in s.ghost['calls']][0]


def p_unlock(h, s, x, held, cont):
    h.e.oblige(s, 'unlock: the mutex is not held any more', z3.Not(held), 'post')


def p_try(h, s, x, held, cont):
    h.e.oblige(s, 'trylock: true exactly if the mutex is held now', boolean(x) == held, 'post')
    h.e.oblige(s, 'trylock: does not wait', z3.BoolVal(all(c[0] == 'trylock' for c in s.ghost['calls'])), 'post')


def p_timed(h, s, x, held, cont):
    h.e.oblige(s, 'timedLock: true exactly if the mutex is held now', boolean(x) == held, 'post')
    t = [c for c in s.ghost['calls'] if c[0] == 'timedlock']
    h.e.oblige(s, 'timedLock: waits until the time given', z3.BoolVal(all(c[2].obj.name == 'until' and c[2].off == 0 for c in t)), 'post')
    h.e.oblige(s, 'timedLock: does not wait longer', z3.BoolVal(not any(c[0] == 'lock' for c in s.ghost['calls'])), 'post')


def until(h):
    o = Obj('until', 'param', 16)
    o.const = True
    return [Ptr(o, 0)]


# ---------------------------------------------------------------- regions
def t_region(name, objs, expect, ordered=None):
    """expect: body number -> which of the mutexes are held there"""
    def run(ctx):
        h = L(ctx)
        e, st = h.e, h.st
        os = [h.obj('mutex%d' % k, 64) for k in range(objs)]
        if 'simple' not in name:
            for o in os:
                e.store(st, Ptr(o, const_of(h.mod, 'off_contention')), e.fresh_int('contention', 32, st), I32)
        args = [Ptr(o, 0) for o in os]
        lv = []
        if ordered:
            h.with_level()
            args.append(Ptr(h.obj('group', 64), 0))
            lv = [z3.Real('lock_level%d' % k) for k in range(objs)]
            args += lv

            def legit(s):
                # refused for its level: nothing of it is locked yet
                return z3.Or([z3.And(z3.Not((h.level if k == 0 else lv[k - 1]) < lv[k]), z3.Not(h.any_held(s, os[k]))) for k in range(objs)])
            h.legit = legit

        def check(eng, s, k):
            for j, o in enumerate(os):
                v = h.any_held(s, o)
                want = j in expect[k]
                eng.oblige(s, '%s: mutex %d is %sheld in part %d' % (name, j, '' if want else 'not ', k), v if want else z3.Not(v), 'call')
            if ordered:
                now = h.cur(s)
                want = ordered[k]
                eng.oblige(s, '%s: the level of the thread is that of the locks held in part %d' % (name, k), now == (h.level if want < 0 else lv[want]), 'call')
                if k == 1:
                    eng.oblige(s, '%s: locked only above the level of the thread' % name, h.level < lv[0], 'call')
                if objs == 2 and k == 2:
                    eng.oblige(s, '%s: locked only above the level of the lock held' % name, lv[0] < lv[1], 'call')
        h.in_body = check
        f = h.fn('^%s$' % name)
        r = e.run(f, args, st)
        for s, x in r:
            e.oblige(s, '%s: every part is run once, in order' % name, z3.BoolVal(s.ghost['bodies'] == tuple('body%d' % k for k in sorted(expect))), 'post')
            e.oblige(s, '%s: nothing is held at the end' % name, z3.Not(z3.Or([h.any_held(s, o) for o in os])), 'post')
            e.oblige(s, '%s: no error is passed over' % name, z3.Not(s.ghost['err']), 'post')
            if ordered:
                e.oblige(s, '%s: the thread is back at its level' % name, h.cur(s) == h.level, 'post')
        e.returns = len(r)
        return e
    return run


# ---------------------------------------------------------------- ordering group
def t_group(what):
    def run(ctx):
        h = L(ctx)
        e, st = h.e, h.st
        g = Ptr(h.obj('group', 64), 0)
        a, b = z3.Real('a'), z3.Real('b')
        if what == 'prepare new':
            r = e.run(h.fn('^g_prepare$'), [g], st)
            for s, x in r:
                ok = s.ghost.get('tss', 'null') != 'null'
                e.oblige(s, 'prepare: the thread has a level', z3.BoolVal(ok), 'post')
                if ok:
                    e.oblige(s, 'prepare: the level starts at 0', h.cur(s) == 0, 'post')
        else:
            h.with_level()
            o = st.ghost['tss']
            if what == 'prepare again':
                r = e.run(h.fn('^g_prepare$'), [g], st)
                for s, x in r:
                    e.oblige(s, 'prepare: a thread that is prepared keeps its level', z3.And(z3.BoolVal(s.ghost['tss'] is o), h.cur(s) == h.level), 'post')
            elif what == 'level':
                r = e.run(h.fn('^g_level$'), [g], st)
                for s, x in r:
                    e.oblige(s, 'curLevel: the level of the thread', x == h.level, 'post')
            elif what == 'down':
                h.legit = lambda s: z3.And(z3.Not(h.level < a), h.cur(s) == h.level)
                r = e.run(h.fn('^g_down$'), [g, a], st)
                for s, x in r:
                    e.oblige(s, 'scopeDown: only to a higher level', h.level < a, 'post')
                    e.oblige(s, 'scopeDown: returns the level before', x == h.level, 'post')
                    e.oblige(s, 'scopeDown: the thread has the new level', h.cur(s) == a, 'post')
            else:
                h.legit = lambda s: z3.And(h.level != a, h.cur(s) == h.level)
                r = e.run(h.fn('^g_up$'), [g, a, b], st)
                for s, x in r:
                    e.oblige(s, 'scopeUp: only from the level it was taken down to', h.level == a, 'post')
                    e.oblige(s, 'scopeUp: the thread has the level before', h.cur(s) == b, 'post')
        e.returns = len(r)
        return e
    return run


# ---------------------------------------------------------------- conditions
def t_cond(name):
    def run(ctx):
        h = L(ctx, **(dict(rnd=True) if name == 'c_timed' else {}))
        e, st = h.e, h.st
        c, m = Ptr(h.obj('condition', 64), 0), h.obj('mutex', 64)
        h.held = lambda st, p: st.ghost.get('held:' + key(p), TRUE)
        args = [c]
        if name not in ('c_signal', 'c_broadcast'):
            args.append(Ptr(m, 0))
        secs = z3.Real('seconds')
        us, un = z3.Int('until_sec'), z3.Int('until_nsec')
        if name == 'c_timed':
            st.assume(secs < 1 << 40)
            st.assume(secs > -(1 << 40))
            args.append(secs)
            h.legit = lambda s: secs < 0
        if name == 'c_timed_abs':
            o = Obj('until', 'param', 16)
            st.assume(z3.And(us >= 0, us < 1 << 62, un >= 0, un < G))
            e.store(st, Ptr(o, 0), us, I64)
            e.store(st, Ptr(o, 8), un, I64)
            args.append(Ptr(o, 0))
        r = e.run(h.fn('^%s$' % name), args, st)
        for s, x in r:
            e.oblige(s, name + ': no error is passed over', z3.Not(s.ghost['err']), 'post')
            calls = s.ghost['calls']
            w = [k for k in calls if k[0] == 'wait']
            if name in ('c_signal', 'c_broadcast'):
                ok = len(calls) == 1 and calls[0][0] == 'pthread_cond_' + name[2:] and calls[0][1].obj.name == 'condition'
                e.oblige(s, name + ': the waiters of this condition are woken, one or all as asked', z3.BoolVal(ok), 'post')
                continue
            ok = len(w) == 1 and w[0][1].obj.name == 'condition' and w[0][2].obj is m
            e.oblige(s, name + ': waits once, for this condition, with this mutex', z3.BoolVal(ok), 'post')
            if not ok:
                continue
            if name == 'c_wait':
                continue
            e.oblige(s, name + ': true exactly if the time has passed', boolean(x) == (w[0][5] == ETIMEDOUT), 'post')
            sec, ns = w[0][3], w[0][4]
            e.oblige(s, name + ': a proper time is waited for', z3.And(ns >= 0, ns < G, sec < 1 << 63), 'post')
            if name == 'c_timed_abs':
                e.oblige(s, name + ': waits until the time given', z3.And(sec == us, ns == un), 'post')
            else:
                k = [k for k in calls if k[0] == 'clock']
                e.oblige(s, name + ': from the time of day', z3.BoolVal(len(k) == 1 and k[0][1] == 0), 'post')
                if len(k) == 1:
                    d = z3.ToReal((sec - k[0][2]) * G + (ns - k[0][3])) - secs * G
                    e.oblige(s, name + ': waits as long as asked, to the nanosecond', z3.And(d <= 1, d >= -1), 'post')
                    e.oblige(s, name + ': only times that are not negative', secs >= 0, 'post')
        e.returns = len(r)
        return e
    return run


# ---------------------------------------------------------------- threads

def t_thread(what):
    def run(ctx):
        h = L(ctx)
        e, st = h.e, h.st
        o = h.obj('thread', 256)
        this = Ptr(o, 0)
        LIVE, TID = const_of(h.mod, 'off_live'), const_of(h.mod, 'off_tid')
        live = z3.Int('live')
        st.assume(z3.And(live >= 0, live <= 1))
        e.store(st, Ptr(o, LIVE), live, I8)
        tid = e.fresh_int('last_tid', 64, st)
        e.store(st, Ptr(o, TID), tid, I64)
        pats = {'start': r'^PThread::start\(', 'start without signals': r'^PThreadNoSignals::start\(', 'join': r'^PThread::join\(', 'kill': r'^PThread::kill\(',
                'setDetached': r'^PThread::setDetached\(', 'setStackSize': r'^PThread::setStackSize', 'getStackSize': r'^PThread::getStackSize',
                'setGuardSize': r'^PThread::setGuardSize', 'getGuardSize': r'^PThread::getGuardSize'}
        args = [this]
        sig, size = z3.Int('signal'), z3.Int('size')
        if what == 'kill':
            st.assume(z3.And(sig >= 0, sig < 64))
            args.append(sig)
        if what == 'setDetached':
            args.append(z3.Bool('detached'))
        if what.startswith('set') and 'Size' in what:
            st.assume(z3.And(size >= 0, size < 1 << 64))
            args.append(size)
        if what.startswith('start'):
            h.legit = lambda s: live != 0
        if what == 'join':
            h.legit = lambda s: live == 0
        r = e.run(h.fn(pats[what]), args, st)
        for s, x in r:
            e.oblige(s, what + ': no error is passed over', z3.Not(s.ghost['err']), 'post')
            calls = [c for c in s.ghost['calls']]
            now, nid = e.load(s, Ptr(o, LIVE), I8), e.load(s, Ptr(o, TID), I64)
            if what.startswith('start'):
                cs = [c for c in calls if c[0] == 'pthread_create']
                ok = len(cs) == 1 and isinstance(cs[0][1][3], Ptr) and cs[0][1][3].obj is o and isinstance(cs[0][1][2], Fn)
                e.oblige(s, what + ': one thread is made for this object', z3.BoolVal(ok), 'post')
                if ok:
                    runs(h, s, what, cs[0][1][2].fn, cs[0][1][3])
                e.oblige(s, what + ': not while one is running', live == 0, 'post')
                if len(cs) == 1:
                    e.oblige(s, what + ': with the attributes set', z3.BoolVal(isinstance(cs[0][1][1], Ptr) and cs[0][1][1].obj is o), 'post')
                    e.oblige(s, what + ': the thread is known by its id', z3.And(now != 0, nid == cs[0][3], x == cs[0][3]), 'post')
                    if 'signals' in what:
                        e.oblige(s, what + ': the thread starts with every signal blocked', z3.BoolVal(cs[0][4] == 'all'), 'post')
                        e.oblige(s, what + ': the mask of the caller is as before', z3.BoolVal(s.ghost.get('mask', 'own') == 'own'), 'post')
                    else:
                        e.oblige(s, what + ': the mask of the caller is not touched', z3.BoolVal(cs[0][4] == 'own' and s.ghost.get('mask', 'own') == 'own'), 'post')
            elif what == 'join':
                cs = [c for c in calls if c[0] == 'pthread_join']
                e.oblige(s, 'join: only a thread that was started', live != 0, 'post')
                e.oblige(s, 'join: waits once', z3.BoolVal(len(cs) == 1), 'post')
                if len(cs) == 1:
                    e.oblige(s, 'join: for the thread started last', cs[0][1][0] == tid, 'post')
                    e.oblige(s, 'join: returns the result of the thread', z3.BoolVal(isinstance(x, Ptr) and cs[0][3] is not None and x.obj is cs[0][3].obj), 'post')
                    e.oblige(s, 'join: it can be started again', now == 0, 'post')
            elif what == 'kill':
                cs = [c for c in calls if c[0] == 'pthread_kill']
                e.oblige(s, 'kill: one signal to the thread', z3.BoolVal(len(cs) == 1), 'post')
                if len(cs) == 1:
                    e.oblige(s, 'kill: the signal asked for, and what came of it', z3.And(cs[0][1][0] == tid, cs[0][1][1] == sig, x == cs[0][2]), 'post')
            else:
                n = {'setDetached': 'setdetachstate', 'setStackSize': 'setstacksize', 'getStackSize': 'getstacksize', 'setGuardSize': 'setguardsize', 'getGuardSize': 'getguardsize'}[what]
                ok = len(calls) == 1 and calls[0][0] == 'pthread_attr_' + n and calls[0][1].obj is o
                e.oblige(s, what + ': the attribute of the threads started from here', z3.BoolVal(ok), 'post')
                if ok:
                    if what == 'setDetached':
                        e.oblige(s, what + ': detached or joinable as asked', calls[0][2] == z3.If(z3.Bool('detached'), z3.IntVal(1), z3.IntVal(0)), 'post')
                    elif 'get' in what:
                        e.oblige(s, what + ': returns the attribute', x == calls[0][4], 'post')
                    else:
                        e.oblige(s, what + ': the size asked for', calls[0][2] == size, 'post')
        e.returns = len(r)
        return e
    return run


def runs(h, s, what, starter, arg):
    """the new thread: the start routine calls run() of the object once and returns its result"""
    e = h.e
    vt = Obj('vtable', 'param', 1 << 10)
    vt.tags['default'] = lambda eng, st, off, ty: Ptr(vt, off)
    s = s.copy()
    e.store(s, Ptr(arg.obj, 0), Ptr(vt, 0), PTR)
    e.opts['indirect'] = lambda eng, st, f: (eng.set_ghost(st, 'slot', f.off), eng.mod.fns['user_run'])[1]
    res = Ptr(Obj('result_of_run', 'param', 8), 0)

    def user_run(eng, st, fn, a):
        slot = st.ghost.get('slot')
        eng.set_ghost(st, 'slot', None)
        eng.set_ghost(st, 'runs', st.ghost.get('runs', ()) + ((slot, a[0]),))
        return res
    e.contract('^user_run$', user_run)
    seen = [q.ghost['runs'] for q, x in e.run(h.fn('^ask_run$'), [arg], s.copy())]
    want = seen[0][-1][0]
    for q, x in e.run(starter, [arg], s.copy()):
        rs = q.ghost.get('runs', ())
        ok = len(rs) == 1 and rs[0][0] == want and rs[0][1].obj is arg.obj and rs[0][1].off == 0
        e.oblige(q, what + ': the thread runs the object, once', z3.BoolVal(ok), 'post')
        e.oblige(q, what + ': the thread ends with what run returns', z3.BoolVal(isinstance(x, Ptr) and x.obj is res.obj), 'post')


def t_life(what, pats):
    def run(ctx):
        n = 0
        for pat in pats:
            h = L(ctx)
            e, st = h.e, h.st
            o = h.obj('thing', 256)
            f = h.fn(pat)
            args = [Ptr(o, 0)] + ([z3.Bool('errorcheck')] if '(bool)' in f.dname else [])
            r = e.run(f, args, st)
            n += len(r)
            for s, x in r:
                calls = [c for c in s.ghost['calls'] if isinstance(c[1], Ptr) and c[1].obj is o]
                good = z3.Not(s.ghost['err'])
                e.oblige(s, what + ': no error is passed over', good, 'post')
                e.oblige(s, what + ': made or destroyed once', z3.BoolVal(len(calls) == 1 and ('init' if 'new' in what else 'destroy') in calls[0][0]), 'post')
                if what == 'new PThread':
                    e.oblige(s, what + ': not running', e.load(s, Ptr(o, const_of(h.mod, 'off_live')), I8) == 0, 'post')
                if what == 'new PThreadMutex':
                    e.oblige(s, what + ': no contention so far', e.load(s, Ptr(o, const_of(h.mod, 'off_contention')), I32) == 0, 'post')
        e.returns = n
        return e
    return run


TASKS = [
    Task('SimpleMutex::lock', t_mutex(r'^SimpleMutex::lock\(', 'SimpleMutex::lock', p_lock)),
    Task('SimpleMutex::unlock', t_mutex(r'^SimpleMutex::unlock\(', 'SimpleMutex::unlock', p_unlock, True)),
    Task('PThreadMutex::lock', t_mutex(r'^m_lock$', 'PThreadMutex::lock', p_lock)),
    Task('PThreadMutex::unlock', t_mutex(r'^m_unlock$', 'PThreadMutex::unlock', p_unlock, True)),
    Task('PThreadMutex::trylock', t_mutex(r'^m_trylock$', 'PThreadMutex::trylock', p_try)),
    Task('PThreadMutex::timedLock', t_mutex(r'^m_timedlock$', 'PThreadMutex::timedLock', p_timed, args=until)),
    Task('SimpleScopedLock', t_region('simple_region', 1, {1: {0}, 2: set()})),
    Task('PThreadScopedLock, PThreadScopedUnlock', t_region('region', 1, {1: {0}, 2: set(), 3: {0}, 4: set()})),
    Task('PThreadAutoLocker', t_region('auto_region', 1, {1: {0}, 4: set()})),
    Task('PThreadScopedLock, PThreadScopedUnlock (ordered)', t_region('ordered_region', 1, {1: {0}, 2: set(), 3: {0}, 4: set()}, {1: 0, 2: -1, 3: 0, 4: -1})),
    Task('PThreadScopedLock (ordered, nested)', t_region('ordered_pair', 2, {1: {0}, 2: {0, 1}, 3: {0}, 4: set()}, {1: 0, 2: 1, 3: 0, 4: -1})),
]
for w in ('prepare new', 'prepare again', 'level', 'down', 'up'):
    TASKS.append(Task('LockOrderingGroup %s' % w, t_group(w)))
for n in ('c_wait', 'c_signal', 'c_broadcast', 'c_timed', 'c_timed_abs'):
    TASKS.append(Task('PThreadCond %s' % n, t_cond(n)))
for w in ('start', 'start without signals', 'join', 'kill', 'setDetached', 'setStackSize', 'getStackSize', 'setGuardSize', 'getGuardSize'):
    TASKS.append(Task('PThread %s' % w, t_thread(w)))
for w, p in (('new PThreadMutex', [r'^PThreadScopedOnlyMutex::PThreadScopedOnlyMutex\(']), ('delete PThreadMutex', [r'^PThreadScopedOnlyMutex::~PThreadScopedOnlyMutex\(']),
             ('new SimpleMutex', [r'^SimpleMutex::SimpleMutex\(']), ('delete SimpleMutex', [r'^SimpleMutex::~SimpleMutex\(']),
             ('new PThreadCond', [r'^PThreadCond::PThreadCond\(']), ('delete PThreadCond', [r'^PThreadCond::~PThreadCond\(']), ('new PThread', [r'^PThread::PThread\('])):
    TASKS.append(Task(w, t_life(w, p)))

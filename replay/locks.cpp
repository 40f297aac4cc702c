// Replays P20 against the real code: mutexes, scoped locks, ordering, conditions and threads.  The pthread calls of the
// header go through recorders, which know what this thread holds and can let a call fail.
#include "vh.hpp"
#include <errno.h>
#include <math.h>
#include <pthread.h>
#include <stdexcept>
#include <Lintel/AssertBoost.hpp>
#include <Lintel/Clock.hpp>
#include <Lintel/StringUtil.hpp>
#include <Lintel/SimpleMutex.hpp>
#include <boost/thread/tss.hpp>
#include <boost/function.hpp>
#include <boost/bind.hpp>
#include <map>
#include <set>

static __thread bool watch;          // this thread records and injects
static std::map<pthread_mutex_t *, int> held;
static int busy, fail;               // the next trylock finds the mutex taken; the next lock operation fails with this
static struct timespec now, until;
static clockid_t asked;
static int waits, wait_result, woken, woken_all;
static bool wait_held;
static pthread_mutex_t *wait_mutex;

static int r_trylock(pthread_mutex_t *m) {
    if (!watch) return pthread_mutex_trylock(m);
    if (fail) return fail;
    if (busy) { --busy; return EBUSY; }
    if (held[m]) return EBUSY;
    held[m] = 1;
    return 0;
}
static void waited(pthread_mutex_t *m);
static int r_lock(pthread_mutex_t *m) {
    if (!watch) return pthread_mutex_lock(m);
    if (fail) return fail;
    VH_CHECK(!held[m], "a mutex this thread holds is locked again");
    waited(m);
    held[m] = 1;
    return 0;
}
static int r_timedlock(pthread_mutex_t *m, const struct timespec *t) {
    if (!watch) return pthread_mutex_timedlock(m, t);
    if (fail) return fail;
    until = *t;
    if (busy) { --busy; return ETIMEDOUT; }
    held[m] = 1;
    return 0;
}
static int r_unlock(pthread_mutex_t *m) {
    if (!watch) return pthread_mutex_unlock(m);
    if (fail) return fail;
    VH_CHECK(held[m] == 1, "a mutex this thread does not hold is unlocked");
    held[m] = 0;
    return 0;
}
static int r_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    if (!watch) return pthread_cond_timedwait(c, m, t);
    if (fail) return fail;
    until = *t; ++waits; wait_mutex = m; wait_held = held[m] == 1;
    return wait_result;
}
static int r_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!watch) return pthread_cond_wait(c, m);
    if (fail) return fail;
    ++waits; wait_mutex = m; wait_held = held[m] == 1;
    return 0;
}
static int r_signal(pthread_cond_t *c) { if (!watch) return pthread_cond_signal(c); ++woken; return fail; }
static int r_broadcast(pthread_cond_t *c) { if (!watch) return pthread_cond_broadcast(c); ++woken_all; return fail; }
static int r_clock(clockid_t c, struct timespec *t) {
    if (!watch) return clock_gettime(c, t);
    asked = c; *t = now;
    return fail;
}
#define pthread_mutex_trylock r_trylock
#define pthread_mutex_lock r_lock
#define pthread_mutex_timedlock r_timedlock
#define pthread_mutex_unlock r_unlock
#define pthread_cond_timedwait r_timedwait
#define pthread_cond_wait r_wait
#define pthread_cond_signal r_signal
#define pthread_cond_broadcast r_broadcast
#define clock_gettime r_clock
#include <Lintel/PThread.hpp>
#undef pthread_mutex_trylock
#undef pthread_mutex_lock
#undef pthread_mutex_timedlock
#undef pthread_mutex_unlock
#undef pthread_cond_timedwait
#undef pthread_cond_wait
#undef pthread_cond_signal
#undef pthread_cond_broadcast
#undef clock_gettime

// while this thread waited for the mutex others had it, and counted that they found it taken
static unsigned others;
static void waited(pthread_mutex_t *m) {
    PThreadScopedOnlyMutex *x = (PThreadScopedOnlyMutex *)((char *)m - offsetof(PThreadScopedOnlyMutex, m));
    x->ncontention += others;
}
#define REFUSED(x, what) do { bool t_ = false; try { x; } catch (AssertBoostException &) { t_ = true; } VH_CHECK(t_, what); } while (0)
static const int N = 3;
struct World {
    PThreadMutex m[N];
    LockOrderingGroup g;
    bool mine[N];
    unsigned contended[N];
    double level;
    World() : level(0) { for (int i = 0; i < N; ++i) { mine[i] = false; contended[i] = 0; } }
    void check() {
        for (int i = 0; i < N; ++i) {
            VH_CHECK((held[&m[i].m] == 1) == mine[i], mine[i] ? "a mutex is not held in its region" : "a mutex is held outside its region");
            VH_CHECK(m[i].getContention() == contended[i], "the contention counted is wrong");
        }
        g.prepare();
        VH_CHECK(g.curLevel() == level, "the thread is on the wrong level");
    }
    // one lock operation is about to happen: perhaps it finds the mutex taken
    void maybe(vh::Rng &r, int k) { if (r.chance(30)) { busy = 1; ++contended[k]; } }
    void regions(vh::Rng &r, int depth) {
        check();
        for (int n = r.below(4); n > 0; --n) {
            int k = r.below(N);
            if (depth > 4 || mine[k]) continue;
            if (r.chance(50)) {
                maybe(r, k);
                vh::logf("lock %d\n", k);
                try {
                    PThreadScopedLock l(m[k]);
                    mine[k] = true;
                    inside(r, depth, k, l, level, level);
                } catch (int) { }
            } else {
                double lv = r.chance(30) ? level : level + r.range(-3, 6), was = level;
                bool ok = was < lv, thrown = false;
                if (ok && r.chance(15)) {      // the lock fails: nothing has happened
                    fail = r.chance(50) ? EDEADLK : EINVAL;
                    vh::logf("lock %d at level %g from %g fails\n", k, lv, was);
                    REFUSED(PThreadScopedLock l(m[k], g, lv), "a scoped lock passes over an error");
                    fail = 0;
                    check();
                    continue;
                }
                if (ok) maybe(r, k);
                vh::logf("lock %d at level %g from %g\n", k, lv, was);
                try {
                    PThreadScopedLock l(m[k], g, lv);
                    VH_CHECK(ok, "a lock is taken against the order");
                    mine[k] = true; level = lv;
                    inside(r, depth, k, l, was, lv);
                } catch (AssertBoostException &) { thrown = true; }
                catch (int) { }
                VH_CHECK(thrown == !ok, "a lock in order is refused");
            }
            mine[k] = false;
            check();
        }
    }
    void inside(vh::Rng &r, int depth, int k, PThreadScopedLock &l, double was, double lv) {
        regions(r, depth + 1);
        if (r.chance(8)) { vh::logf("leave %d by an exception\n", k); level = was; throw 1; }
        if (r.chance(50)) {
            vh::logf("unlock %d\n", k);
            {
                PThreadScopedUnlock u(l);
                mine[k] = false; level = was;
                check();
                if (was != lv && r.chance(50)) {       // a lower level can be used in between
                    PThreadMutex x;
                    PThreadScopedLock y(x, g, (was + lv) / 2);
                    VH_CHECK(g.curLevel() == (was + lv) / 2, "the level in between is wrong");
                }
                maybe(r, k);
            }
            mine[k] = true; level = lv;
            check();
            regions(r, depth + 1);
        }
        level = was;        // when the region ends
    }
};


static void mutex(vh::Rng &r) {
    PThreadMutex m(r.chance(50));
    bool mine = false;
    unsigned cont = 0;
    for (int n = r.below(20); n > 0; --n) {
        bool b = r.chance(30);
        fail = r.chance(20) ? (r.chance(50) ? EINVAL : EPERM) : 0;
        int op = r.below(4);
        vh::logf("mutex op %d busy %d fail %d\n", op, b, fail);
        if (op == 0) {
            if (fail) REFUSED(m.trylock(), "trylock passes over an error");
            else { busy = b; bool got = m.trylock(); VH_CHECK(got == (!b && !mine), "trylock returns the wrong thing"); busy = 0; mine = mine || got; }
        } else if (op == 1 && !mine) {
            struct timespec t = { (time_t)r.below(1000000), (long)r.below(1000000000) };
            if (fail) REFUSED(m.timedLock(t), "timedLock passes over an error");
            else {
                busy = b; bool got = m.timedLock(t); busy = 0;
                VH_CHECK(got == !b, "timedLock returns the wrong thing");
                VH_CHECK(until.tv_sec == t.tv_sec && until.tv_nsec == t.tv_nsec, "timedLock waits for another time");
                mine = got;
            }
        } else if (op == 2 && !mine) {
            if (fail) REFUSED(m.lock(), "lock passes over an error");
            else { busy = b; others = r.below(3); m.lock(); mine = true; if (b) cont += 1 + others; others = 0; }
        } else if (op == 3 && mine) {
            if (fail) REFUSED(m.unlock(), "unlock passes over an error");
            else { m.unlock(); mine = false; }
        }
        fail = 0;
        VH_CHECK((held[&m.m] == 1) == mine, "the mutex is not held as it should be");
        VH_CHECK(m.getContention() == cont, "the contention counted is wrong");
    }
    fail = 0;
    if (mine) m.unlock();
    held.clear();
}

static void timed(vh::Rng &r) {
    PThreadCond c;
    PThreadMutex m;
    m.lock();
    now.tv_sec = r.below(1u << 31);
    now.tv_nsec = r.chance(40) ? 999999999 - r.below(3) : r.chance(30) ? r.below(3) : r.below(1000000000);
    double s = r.chance(30) ? r.below(5) : r.chance(30) ? r.below(4) + r.below(1000) / 1000.0 : r.chance(30) ? r.below(3) + 0.9999999999 - r.below(30) * 1e-10 : r.unit() * 1000;
    if (r.chance(20)) now.tv_nsec = (1000000000 - lrint(1e9 * (s - floor(s)))) % 1000000000;      // a full second together
    wait_result = r.chance(50) ? ETIMEDOUT : 0;
    waits = 0;
    vh::logf("timedWait %.17g at %lld.%09ld\n", s, (long long)now.tv_sec, now.tv_nsec);
    bool t;
    if (r.chance(20)) {
        struct timespec a = now;
        t = c.timedWaitAbs(m, a);
        VH_CHECK(until.tv_sec == now.tv_sec && until.tv_nsec == now.tv_nsec, "timedWaitAbs waits for another time");
    } else {
        t = c.timedWait(m, s);
        VH_CHECK(asked == CLOCK_REALTIME, "timedWait asks the wrong clock");
        VH_CHECK(until.tv_nsec >= 0 && until.tv_nsec < 1000000000, "timedWait waits for an improper time");
        double d = (double)(until.tv_sec - now.tv_sec) * 1e9 + (double)(until.tv_nsec - now.tv_nsec);
        VH_CHECK(fabs(d - s * 1e9) <= 1.001, "timedWait does not wait as long as asked");
    }
    VH_CHECK(waits == 1 && wait_mutex == &m.m && wait_held, "the wait is not for the mutex held");
    VH_CHECK(t == (wait_result == ETIMEDOUT), "the result of timedWait is wrong");
    REFUSED(c.timedWait(m, -0.5), "timedWait takes a time that is negative");
    fail = EINVAL;
    REFUSED(c.timedWait(m, s), "timedWait passes over an error");
    REFUSED(c.wait(m), "wait passes over an error");
    REFUSED(c.signal(), "signal passes over an error");
    REFUSED(c.broadcast(), "broadcast passes over an error");
    fail = waits = woken = woken_all = 0;
    c.wait(m);
    VH_CHECK(waits == 1 && wait_mutex == &m.m && wait_held, "the wait is not for the mutex held");
    c.signal();
    VH_CHECK(woken == 1 && woken_all == 0, "signal does not wake one");
    c.broadcast();
    VH_CHECK(woken == 1 && woken_all == 1, "broadcast does not wake all");
    held.clear();
}

static void signals(sigset_t *s) { pthread_sigmask(SIG_SETMASK, NULL, s); }
static bool same(const sigset_t &a, const sigset_t &b) {
    for (int i = 1; i < 32; ++i) if (sigismember(&a, i) != sigismember(&b, i)) return false;
    return true;
}
struct Work {
    sigset_t mask;
    int runs;
    void *result;
    size_t stack;
    Work() : runs(0), result(NULL), stack(0) { }
    void *work() {
        signals(&mask); ++runs;
        pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstacksize(&a, &stack); pthread_attr_destroy(&a);
        return result;
    }
};
struct Plain : PThread, Work { void *run() { return work(); } };
static Work *the_work;
static void *work_now() { return the_work->work(); }
struct Function : PThreadFunction, Work { Function() : PThreadFunction(work_now) { the_work = this; } };
struct Quiet : PThreadNoSignals, Work { void *run() { return work(); } };

template<class T> static void thread(vh::Rng &r, bool quiet) {
    sigset_t own, before, after;
    signals(&own);
    sigset_t some;
    sigemptyset(&some);
    if (r.chance(50)) sigaddset(&some, SIGUSR1);
    if (r.chance(50)) sigaddset(&some, SIGHUP);
    pthread_sigmask(SIG_BLOCK, &some, NULL);
    signals(&before);
    {
        T t;
        REFUSED(t.join(), "a thread that was not started is joined");
        size_t s = (size_t)(r.range(20, 60)) << 16, gd = (size_t)r.range(1, 4) << 12;
        bool sized = r.chance(50);
        if (sized) {
            t.setStackSize(s); t.setGuardSize(gd);
            VH_CHECK(t.getStackSize() == s && t.getGuardSize() == gd, "the size set is not the size got");
        }
        for (int n = r.below(3); n > 0; --n) {
            bool d = r.chance(50);
            int state = -1;
            t.setDetached(d);
            pthread_attr_getdetachstate(&t.attr, &state);
            VH_CHECK(state == (d ? PTHREAD_CREATE_DETACHED : PTHREAD_CREATE_JOINABLE), "the thread is not detached or joinable as asked");
            t.setDetached(false);
            pthread_attr_getdetachstate(&t.attr, &state);
            VH_CHECK(state == PTHREAD_CREATE_JOINABLE, "the thread is not joinable");
        }
        for (int k = 0; k < 2; ++k) {
            t.result = (void *)(uintptr_t)r.next();
            pthread_t id = t.start();
            REFUSED(t.start(), "a running thread is started again");
            signals(&after);
            VH_CHECK(same(before, after), "start changes the signals of the caller");
            void *res = t.join();
            (void)id;
            VH_CHECK(res == t.result, "join returns the wrong result");
            VH_CHECK(t.runs == k + 1, "the thread does not run once");
            if (sized) VH_CHECK(t.stack + gd + 65536 >= s, "the thread has a smaller stack than asked for");
            REFUSED(t.join(), "a thread is joined twice");
            if (quiet) for (int i = 1; i < 32; ++i) { if (i != SIGKILL && i != SIGSTOP) VH_CHECK(sigismember(&t.mask, i) == 1, "a signal is not blocked in the thread"); }
            else VH_CHECK(same(before, t.mask), "the signals of the thread are not those of the caller");
        }
    }
    pthread_sigmask(SIG_SETMASK, &own, NULL);
}

// threads that exclude each other
static PThreadMutex *pm; static SimpleMutex *sm; static PThreadCond *pc;
static volatile long value; static long queue_, taken_;
static LockOrderingGroup *pg; static volatile bool wrong;
struct Adder { int n, kind; PThreadMutex m; double level; };
static void *adder(void *p) {
    Adder *a = (Adder *)p;
    for (int i = 0; i < a->n; ++i) {
        if (a->kind == 0) { PThreadScopedLock l(*pm); long v = value; if (i % 7 == 0) sched_yield(); value = v + 1; }
        else if (a->kind == 1) { SimpleScopedLock l(*sm); long v = value; if (i % 7 == 0) sched_yield(); value = v + 1; }
        else if (a->kind == 4) {
            try {
                pg->prepare();
                if (pg->curLevel() != 0) wrong = true;
                PThreadScopedLock l(a->m, *pg, a->level);
                if (i % 7 == 0) sched_yield();
                PThreadScopedLock k(*pm, *pg, 10);
                if (pg->curLevel() != 10) wrong = true;
                PThreadScopedUnlock u(k);
                if (pg->curLevel() != a->level) wrong = true;
            } catch (AssertBoostException &) { wrong = true; }
        }
        else if (a->kind == 2) { pm->lock(); ++queue_; pm->unlock(); pc->signal(); }
        else { pm->lock(); while (queue_ == 0) pc->wait(*pm); --queue_; ++taken_; pm->unlock(); }
    }
    return NULL;
}
static void together(vh::Rng &r) {
    PThreadMutex m; SimpleMutex s; PThreadCond c;
    pm = &m; sm = &s; pc = &c; value = 0; queue_ = taken_ = 0;
    int what = r.below(4), n = 50 + r.below(200);
    Adder a[4];
    pthread_t t[4];
    for (int i = 0; i < 4; ++i) { a[i].n = n; a[i].kind = what == 2 ? 2 + i % 2 : what == 3 ? 4 : what; a[i].level = 1 + (i * 7) % 4; }
    LockOrderingGroup g; pg = &g; wrong = false;
    vh::logf("four threads, %d times, kind %d\n", n, what);
    for (int i = 0; i < 4; ++i) pthread_create(&t[i], NULL, adder, &a[i]);
    for (int i = 0; i < 4; ++i) pthread_join(t[i], NULL);
    if (what == 3) { VH_CHECK(!wrong, "the level of a thread is that of another one"); return; }
    VH_CHECK(what == 2 ? (queue_ == 0 && taken_ == 2 * n) : value == 4 * n, "threads are in a region at the same time");
}

static void one(uint64_t c, vh::Rng &r) {
    AssertBoostClearFns();
    AssertBoostFnBefore(AssertBoostThrowExceptionFn);
    busy = fail = 0; held.clear();
    if (c % 20 == 3) { together(r); return; }
    if (c % 20 == 11) { if (r.chance(40)) thread<Plain>(r, false); else if (r.chance(40)) thread<Function>(r, true); else thread<Quiet>(r, true); return; }
    watch = true;
    switch (c % 3) {
    case 0: mutex(r); break;
    case 1: timed(r); break;
    default: { World w; w.regions(r, 0); w.regions(r, 0); w.check(); }
    }
    watch = false;
}

VH_MAIN(one, 0)

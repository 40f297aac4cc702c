// Driver: the real mutexes, scoped locks, lock ordering, conditions and threads; no logic of its own.
#include <Lintel/AssertBoost.hpp>
#include <Lintel/PThread.hpp>
#include <Lintel/SimpleMutex.hpp>
#define F extern "C" __attribute__((used))
// what the user does: known only by its contract
extern "C" void body1(); extern "C" void body2(); extern "C" void body3(); extern "C" void body4();
F void simple_region(SimpleMutex &m) { { SimpleScopedLock l(m); body1(); } body2(); }
F void m_lock(PThreadMutex &m) { m.lock(); }
F void m_unlock(PThreadMutex &m) { m.unlock(); }
F bool m_trylock(PThreadMutex &m) { return m.trylock(); }
F bool m_timedlock(PThreadMutex &m, const struct timespec &t) { return m.timedLock(t); }
F unsigned m_contention(PThreadMutex &m) { return m.getContention(); }
F void region(PThreadMutex &m) { { PThreadScopedLock l(m); body1(); { PThreadScopedUnlock u(l); body2(); } body3(); } body4(); }
F void auto_region(PThreadMutex &m) { { PThreadAutoLocker l(m); body1(); } body4(); }
F void ordered_region(PThreadMutex &m, LockOrderingGroup &g, double level) { { PThreadScopedLock l(m, g, level); body1(); { PThreadScopedUnlock u(l); body2(); } body3(); } body4(); }
F void ordered_pair(PThreadMutex &a, PThreadMutex &b, LockOrderingGroup &g, double la, double lb) { { PThreadScopedLock l(a, g, la); body1(); { PThreadScopedLock k(b, g, lb); body2(); } body3(); } body4(); }
F void g_prepare(LockOrderingGroup &g) { g.prepare(); }
F double g_level(LockOrderingGroup &g) { return g.curLevel(); }
F double g_down(LockOrderingGroup &g, double l) { return g.scopeDown(l); }
F void g_up(LockOrderingGroup &g, double d, double o) { g.scopeUp(d, o); }
F void c_wait(PThreadCond &c, PThreadMutex &m) { c.wait(m); }
F void c_signal(PThreadCond &c) { c.signal(); }
F void c_broadcast(PThreadCond &c) { c.broadcast(); }
F bool c_timed(PThreadCond &c, PThreadMutex &m, double s) { return c.timedWait(m, s); }
F bool c_timed_abs(PThreadCond &c, PThreadMutex &m, const struct timespec &t) { return c.timedWaitAbs(m, t); }
extern "C" void *user_run(void *);
F void *ask_run(PThread &p) { user_run(&p); return p.run(); }
#include <cstddef>
F void life_cond() { PThreadCond c; body1(); }
extern "C" const size_t off_live = offsetof(PThread, thread_live);
extern "C" const size_t off_tid = offsetof(PThread, last_tid);
extern "C" const size_t off_attr = offsetof(PThread, attr);
extern "C" const size_t off_contention = offsetof(PThreadMutex, ncontention);

// Replays P19 against the real code: lintel::Atomic, alone against a model and by threads against what must add up.
#include "vh.hpp"
#include <limits>
#include <thread>
#include <vector>
#include <type_traits>
#include <Lintel/AtomicCounter.hpp>

template<typename T> static T value(vh::Rng &r) {
    if (std::is_signed<T>::value && sizeof(T) > 2) return (T)((int64_t)(r.next() % 2000001) - 1000000);   // no signed overflow
    T v = (T)r.next();
    if (r.chance(30)) v = (T)(v % 3);
    return v;
}

template<typename T> static void alone(vh::Rng &r) {
    typedef typename std::make_unsigned<T>::type U;
    T x = value<T>(r), plain = x;
    lintel::Atomic<T> a(x), z;
    VH_CHECK(z.load() == 0, "a counter without a value does not start with 0");
    VH_CHECK(a.load() == x, "a counter does not start with the value given");
    int n = 1 + r.below(40);
    for (int i = 0; i < n; ++i) {
        T v = value<T>(r), old = x, got;
        int op = r.below(22);
        bool uns = r.chance(25);
        vh::logf("%d bits: op %d value %lld on %lld\n", (int)sizeof(T) * 8, op, (long long)v, (long long)x);
#define RES(e, what) VH_CHECK((T)(got) == (T)(e), what " returns the wrong value")
        switch (op) {
        case 0: got = a.incThenFetch(); x = (T)((U)x + 1); RES(x, "incThenFetch"); break;
        case 1: got = a.decThenFetch(); x = (T)((U)x - 1); RES(x, "decThenFetch"); break;
        case 2: got = a.addThenFetch(v); x = (T)((U)x + (U)v); RES(x, "addThenFetch"); break;
        case 3: got = ++a; x = (T)((U)x + 1); RES(x, "++a"); break;
        case 4: got = --a; x = (T)((U)x - 1); RES(x, "--a"); break;
        case 5: got = a++; x = (T)((U)x + 1); RES(old, "a++"); break;
        case 6: got = a--; x = (T)((U)x - 1); RES(old, "a--"); break;
        case 7: got = a += v; x = (T)((U)x + (U)v); RES(x, "+="); break;
        case 8: got = a -= v; x = (T)((U)x - (U)v); RES(x, "-="); break;
        case 9: got = a |= v; x = (T)(x | v); RES(x, "|="); break;
        case 10: got = a &= v; x = (T)(x & v); RES(x, "&="); break;
        case 11: got = a ^= v; x = (T)(x ^ v); RES(x, "^="); break;
        case 12: got = uns ? lintel::unsafe::atomic_fetch_add(reinterpret_cast<T *>(&a), v) : a.fetch_add(v); x = (T)((U)x + (U)v); RES(old, "fetch_add"); break;
        case 13: got = uns ? lintel::unsafe::atomic_fetch_sub(reinterpret_cast<T *>(&a), v) : a.fetch_sub(v); x = (T)((U)x - (U)v); RES(old, "fetch_sub"); break;
        case 14: got = uns ? lintel::unsafe::atomic_fetch_or(reinterpret_cast<T *>(&a), v) : a.fetch_or(v); x = (T)(x | v); RES(old, "fetch_or"); break;
        case 15: got = uns ? lintel::unsafe::atomic_fetch_and(reinterpret_cast<T *>(&a), v) : a.fetch_and(v); x = (T)(x & v); RES(old, "fetch_and"); break;
        case 16: got = uns ? lintel::unsafe::atomic_fetch_xor(reinterpret_cast<T *>(&a), v) : a.fetch_xor(v); x = (T)(x ^ v); RES(old, "fetch_xor"); break;
        case 17: got = uns ? lintel::unsafe::atomic_exchange(reinterpret_cast<T *>(&a), v) : a.exchange(v); x = v; RES(old, "exchange"); break;
        case 18: if (uns) lintel::unsafe::atomic_store(reinterpret_cast<T *>(&a), v); else a.store(v); x = v; break;
        case 19: got = (a = v); x = v; RES(v, "operator="); break;
        default: {
            T want = r.chance(60) ? x : r.chance(50) ? (T)(x ^ ((U)1 << r.below(sizeof(T) * 8))) : v, exp = want;
            bool ok = uns ? lintel::unsafe::atomic_compare_exchange_strong(reinterpret_cast<T *>(&a), &exp, v) : a.compare_exchange_strong(&exp, v);
            VH_CHECK(ok == (want == x), "compare_exchange_strong succeeds wrongly");
            VH_CHECK(exp == x, "compare_exchange_strong does not tell the value found");
            if (want == x) x = v;
        } }
        VH_CHECK(a.load() == x, "the counter has the wrong value");
        VH_CHECK((T)a == x, "the conversion gives the wrong value");
        VH_CHECK(a.isZero() == (x == 0), "isZero is wrong");
        VH_CHECK(lintel::unsafe::atomic_load(reinterpret_cast<const T *>(&a)) == x, "atomic_load is wrong");
        // values that stay far from the ends of signed types
        if (std::is_signed<T>::value && sizeof(T) > 2 && (x > 100000000 || x < -100000000)) { a.store(0); x = 0; }
        vh::nontrivial();
    }
    (void)plain;
}

// amounts of another type than the counter
template<typename T, typename C> static void mixed(vh::Rng &r) {
    typedef typename std::make_unsigned<T>::type U;
    T x = value<T>(r), old = x, got;
    C c = (C)value<int16_t>(r);
    if (!std::is_signed<C>::value) c = (C)r.next();
    T v = static_cast<T>(c);
    int op = r.below(7);
    lintel::unsafe::atomic_store(&x, x);
    vh::logf("%d bits with an amount of %d bits: op %d value %lld on %lld\n", (int)sizeof(T) * 8, (int)sizeof(C) * 8, op, (long long)c, (long long)x);
    switch (op) {
    case 0: got = lintel::unsafe::atomic_fetch_add(&x, c); VH_CHECK(x == (T)((U)old + (U)v), "atomic_fetch_add of another type is wrong"); break;
    case 1: got = lintel::unsafe::atomic_fetch_sub(&x, c); VH_CHECK(x == (T)((U)old - (U)v), "atomic_fetch_sub of another type is wrong"); break;
    case 2: got = lintel::unsafe::atomic_fetch_or(&x, c); VH_CHECK(x == (T)(old | v), "atomic_fetch_or of another type is wrong"); break;
    case 3: got = lintel::unsafe::atomic_fetch_and(&x, c); VH_CHECK(x == (T)(old & v), "atomic_fetch_and of another type is wrong"); break;
    case 4: got = lintel::unsafe::atomic_fetch_xor(&x, c); VH_CHECK(x == (T)(old ^ v), "atomic_fetch_xor of another type is wrong"); break;
    case 5: got = lintel::unsafe::atomic_exchange(&x, c); VH_CHECK(x == v, "atomic_exchange of another type is wrong"); break;
    default: { T e = old; bool ok = lintel::unsafe::atomic_compare_exchange_strong(&x, &e, c); VH_CHECK(ok && x == v, "atomic_compare_exchange_strong of another type is wrong"); got = e; }
    }
    VH_CHECK(got == old, "the value returned is not the one replaced");
    vh::nontrivial();
}

struct Gate {
    volatile int n;
    Gate() : n(0) { }
    void wait(int all) { __sync_fetch_and_add(&n, 1); while (n < all) std::this_thread::yield(); }
};

template<typename T> static void together(vh::Rng &r) {
    const int threads = 4, rounds = 3000;
    int kind = r.below(4);
    vh::logf("%d bits: %d threads, %d steps each, kind %d\n", (int)sizeof(T) * 8, threads, rounds, kind);
    lintel::Atomic<T> a((T)0);
    Gate gate;
    std::vector<uint64_t> sum(threads, 0), bad(threads, 0);
    std::vector<std::thread> ts;
    uint64_t seed = r.next();
    for (int t = 0; t < threads; ++t) {
        ts.push_back(std::thread([&, t]() {
            vh::Rng q(seed + t);
            uint64_t s = 0, b = 0;
            gate.wait(threads);
            T bit = (T)((T)1 << t), mine = 0;
            for (int i = 0; i < rounds; ++i) {
                int op = q.below(8);
                T v = (T)(q.below(3));
                if (kind == 0) {            // amounts add up
                    switch (op) {
                    case 0: a.incThenFetch(); s += 1; break;
                    case 1: a.decThenFetch(); s -= 1; break;
                    case 2: a += v; s += v; break;
                    case 3: a -= v; s -= v; break;
                    case 4: a++; s += 1; break;
                    case 5: --a; s -= 1; break;
                    case 6: a.fetch_sub(v); s -= v; break;
                    default: {
                        T e = a.load();
                        while (!a.compare_exchange_strong(&e, (T)(e + v))) ;
                        s += v; } }
                } else if (kind == 1) {     // every thread has a bit of its own
                    T got;
                    switch (op) {
                    case 0: case 1: got = a.fetch_or(bit); b += (got & bit) != mine; mine = bit; break;
                    case 2: case 3: got = a.fetch_and((T)~bit); b += (got & bit) != mine; mine = 0; break;
                    case 4: got = a.fetch_xor(bit); b += (got & bit) != mine; mine ^= bit; break;
                    case 5: got = a |= bit; mine = bit; b += (got & bit) != mine; break;
                    case 6: got = a &= (T)~bit; mine = 0; b += (got & bit) != mine; break;
                    default: got = a ^= bit; mine ^= bit; b += (got & bit) != mine; }
                } else if (kind == 2) {     // what is put in comes out exactly once
                    T in = (T)q.below(100);
                    s += in;
                    s -= a.exchange(in);
                } else {                    // every number is handed out once: sums tell
                    T got = op & 1 ? a++ : (T)(a.incThenFetch() - 1);
                    s += sizeof(T) >= 4 ? (uint64_t)got : 0;
                    if (sizeof(T) < 4) s += 1;
                }
            }
            if (kind == 1) s = mine;
            sum[t] = s;
            bad[t] = b;
        }));
    }
    for (auto &t : ts) t.join();
    uint64_t total = 0, wrong = 0;
    for (int t = 0; t < threads; ++t) { total += sum[t]; wrong += bad[t]; }
    if (kind == 0) VH_CHECK(a.load() == (T)total, "the amounts added by several threads do not add up");
    if (kind == 1) { VH_CHECK(!wrong, "a thread found its own bit changed"); VH_CHECK(a.load() == (T)total, "the bits set by several threads are wrong"); }
    if (kind == 2) VH_CHECK(a.load() == (T)total, "a value exchanged was lost or came twice");
    if (kind == 3) {
        uint64_t n = (uint64_t)threads * rounds;
        if (sizeof(T) >= 4) { VH_CHECK(total == n * (n - 1) / 2, "a number was handed out twice"); }
        VH_CHECK(a.load() == (T)n, "increments were lost");
    }
    vh::nontrivial();
}

static void litmus(vh::Rng &r) {
    // each thread says that it is there, then looks for the other: one of them sees the other
    vh::logf("two threads: store, then load of the other's flag\n");
    int how = r.below(3);
    const int rounds = 4000;
    for (int part = 0; part < 1; ++part) {
        lintel::Atomic<int> x, y;
        std::vector<char> sx(rounds), sy(rounds);
        lintel::Atomic<int> turn;
        struct S { static void say(lintel::Atomic<int> &a, int v, int how) { if (how == 0) a.store(v); else if (how == 1) a = v; else a.exchange(v); } };
        auto run = [&](lintel::Atomic<int> &mine, lintel::Atomic<int> &other, std::vector<char> &saw, lintel::Atomic<int> &me, lintel::Atomic<int> &you) {
            for (int i = 1; i <= rounds; ++i) {
                me.store(i);
                int spins = 0;
                while (you.load() < i) if (++spins > 2000) std::this_thread::yield();
                S::say(mine, i, how);
                saw[i - 1] = other.load() >= i;
            }
        };
        lintel::Atomic<int> ra, rb;
        std::thread a(run, std::ref(x), std::ref(y), std::ref(sx), std::ref(ra), std::ref(rb));
        std::thread b(run, std::ref(y), std::ref(x), std::ref(sy), std::ref(rb), std::ref(ra));
        a.join();
        b.join();
        for (int i = 0; i < rounds; ++i) VH_CHECK(sx[i] || sy[i], "two threads both missed what the other had stored before");
    }
    vh::nontrivial();
}

static void one(uint64_t c, vh::Rng &r) {
    if (c % 40 == 7) {
        switch (r.below(5)) {
        case 0: together<int32_t>(r); break;
        case 1: together<uint64_t>(r); break;
        case 2: together<uint16_t>(r); break;
        case 3: together<int64_t>(r); break;
        default: together<uint8_t>(r); break;
        }
        return;
    }
    if (c % 40 == 23) { litmus(r); return; }
    switch (r.below(13)) {
    case 8: mixed<int64_t, uint32_t>(r); break;
    case 9: mixed<int64_t, int>(r); break;
    case 10: mixed<int16_t, int64_t>(r); break;
    case 11: mixed<uint8_t, int>(r); break;
    case 12: mixed<uint64_t, int16_t>(r); break;
    case 0: alone<int>(r); break;
    case 1: alone<uint32_t>(r); break;
    case 2: alone<int64_t>(r); break;
    case 3: alone<uint64_t>(r); break;
    case 4: alone<uint16_t>(r); break;
    case 5: alone<int16_t>(r); break;
    case 6: alone<int8_t>(r); break;
    default: alone<uint8_t>(r); break;
    }
}

VH_MAIN(one, 0)

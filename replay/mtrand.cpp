// bounded harness for the random number generators: against std::mt19937 and direct transcriptions of the papers
#include "vh.hpp"
#include <vector>
#include <random>
#include <sstream>
#include <string>
#include <algorithm>
#include <cmath>
#include <sanitizer/lsan_interface.h>
#include <Lintel/AssertBoost.hpp>
#include <Lintel/HashFns.hpp>
#include <Lintel/MersenneTwisterRandom.hpp>
#include <Lintel/MarsagliaRandom.hpp>

typedef std::vector<uint32_t> Seeds;
struct Source { virtual uint32_t next() = 0; virtual ~Source() { } };
struct MT : Source {
    std::mt19937 g;
    explicit MT(uint32_t seed) : g(seed) { }
    explicit MT(const Seeds &key) {
        uint32_t mt[624];
        mt[0] = 19650218u;
        for (int i = 1; i < 624; ++i) mt[i] = 1812433253u * (mt[i-1] ^ (mt[i-1] >> 30)) + i;
        size_t i = 1, j = 0, n = key.size();
        for (size_t k = n > 624 ? n : 624; k; --k) {
            mt[i] = (mt[i] ^ ((mt[i-1] ^ (mt[i-1] >> 30)) * 1664525u)) + key[j] + (uint32_t)j;
            if (++i >= 624) { mt[0] = mt[623]; i = 1; }
            if (++j >= n) j = 0;
        }
        for (size_t k = 623; k; --k) {
            mt[i] = (mt[i] ^ ((mt[i-1] ^ (mt[i-1] >> 30)) * 1566083941u)) - (uint32_t)i;
            if (++i >= 624) { mt[0] = mt[623]; i = 1; }
        }
        mt[0] = 0x80000000u;
        std::string s;
        for (int k = 0; k < 624; ++k) s += std::to_string(mt[k]) + " ";
        std::istringstream in(s + "624");
        in >> g;
        VH_CHECK(!in.fail(), "harness: state not read");
    }
    uint32_t next() { return g(); }
};
struct Xorshift : Source {
    uint32_t x, y, z, w;
    explicit Xorshift(uint32_t seed) {
        x = lintel::BobJenkinsHashMix3(0x243F6A88, 0x85A308D3, seed);
        y = lintel::BobJenkinsHashMix3(0x13198A2E, 0x03707344, seed);
        z = lintel::BobJenkinsHashMix3(0xA4093822, 0x299F31D0, seed);
        w = lintel::BobJenkinsHashMix3(0x082EFA98, 0xEC4E6C89, seed);
    }
    uint32_t next() { uint32_t t = x ^ (x << 15); x = y; y = z; z = w; return w = (t ^ (t >> 4)) ^ (w ^ (w >> 21)); }
};
static uint32_t unbiased(Source &s, uint32_t max, int &refused) {
    uint64_t whole = 0xffffffffull / max * max;
    for (;;) {
        uint32_t x = s.next();
        if (x < whole) return x % max;
        ++refused;
    }
}
struct Mwc : Source {      // complementary multiply with carry, base 2^32-1
    std::vector<uint32_t> x; uint64_t c, a; size_t i;
    Mwc(uint32_t seed, size_t n, uint32_t a) : a(a), i(n - 1) {
        Xorshift r(seed);
        int refused = 0;
        for (size_t k = 0; k < n; ++k) x.push_back(r.next());
        c = unbiased(r, a, refused);
    }
    uint32_t next() {
        i = (i + 1) % x.size();
        uint64_t t = a * x[i] + c, b = 0xffffffffull;
        uint64_t q = t / b, rest = t % b;
        // the paper's code leaves rest = b for q - 1 in some cases: quotient by 2^32, plus the wrap
        uint64_t h = t >> 32, l = t & b;
        if (h + l == b) { q = h; rest = b; }
        c = q;
        return x[i] = (uint32_t)(b - 1 - rest);
    }
};

template <class R> static void use(R &g, Source &s, vh::Rng &r, unsigned n, bool reseed, unsigned &left, uint64_t &bits) {
    for (unsigned k = 0; k < n; ++k) {
        unsigned op = r.below(14);
        vh::logf("op %u\n", op);
        if (op < 3) {
            unsigned m = op == 0 ? 1 : r.below(700);
            for (unsigned j = 0; j < m; ++j) { uint32_t a = g.randInt(), b = s.next(); VH_CHECK(a == b, "randInt %u, not %u", a, b); }
        } else if (op == 3) {
            uint32_t m = r.chance(30) ? 1 + r.below(10) : r.chance(50) ? 0xffffffffu - r.below(3) : 1u << r.below(32);
            uint32_t x = s.next(), a = g.randInt(m);
            VH_CHECK(a == x % m && a < m, "randInt(%u) = %u from %u", m, a, x);
        } else if (op < 6) {
            uint32_t m = r.chance(20) ? 1 + r.below(100) : r.chance(60) ? 0x80000000u + r.below(0x7fffffffu) : 1 + (uint32_t)r.next() % 0xfffffffeu;
            if (r.chance(10)) m = r.chance(50) ? 0xffffffffu : 0x80000000u;
            int refused = 0;
            for (int j = 0; j < 8; ++j) { uint32_t b = unbiased(s, m, refused), a = g.randIntUnbiased(m); VH_CHECK(a == b, "randIntUnbiased(%u) = %u, not %u", m, a, b); }
            if (refused) vh::nontrivial();
        } else if (op == 6) {
            uint64_t hi = s.next(), lo = s.next(), a = g.randLongLong();
            VH_CHECK(a == (hi << 32 | lo), "randLongLong %llx", (unsigned long long)a);
        } else if (op == 7) {
            bool b = s.next() & 1;
            VH_CHECK(g.randBool() == b, "randBool is not %d", b);
        } else if (op == 8 || op == 9) {
            unsigned m = r.below(150);
            for (unsigned j = 0; j < m; ++j) {
                if (left == 0) { uint64_t hi = s.next(); bits = hi << 32 | s.next(); left = 64; }
                bool b = bits & 1, a = g.randBoolFast();
                bits >>= 1; --left;
                VH_CHECK(a == b, "randBoolFast %d with %u bits left, not %d", a, left, b);
            }
        } else if (op == 10) {
            uint32_t x = s.next();
            double a = r.chance(50) ? g.randDoubleOpen() : g.randDouble();
            VH_CHECK(a == x / 4294967296.0 && a >= 0 && a < 1, "randDoubleOpen %.17g from %u", a, x);
        } else if (op == 11) {
            uint32_t x = s.next();
            double a = g.randDoubleClosed(), b = x / 4294967295.0;
            VH_CHECK(std::fabs(a - b) <= b * 1e-15 && a >= 0 && a <= 1, "randDoubleClosed %.17g from %u", a, x);
        } else {
            uint64_t x = s.next() >> 5, y = s.next() >> 6, v = x << 26 | y;
            double a = op == 12 ? g.randDoubleOpen53() : g.randDoubleClosed53();
            double b = op == 12 ? std::ldexp((double)v, -53) : (double)v / 9007199254740991.0;
            VH_CHECK(op == 12 ? a == b && a < 1 : std::fabs(a - b) <= b * 1e-15 && a <= 1, "randDouble%s53 %.17g, not %.17g", op == 12 ? "Open" : "Closed", a, b);
        }
    }
}

static Seeds someSeeds(vh::Rng &r) {
    static const unsigned sizes[] = { 1, 2, 3, 4, 10, 311, 397, 622, 623, 624, 625, 626, 1247, 1248, 1300, 2000 };
    unsigned n = r.chance(50) ? sizes[r.below(16)] : 1 + r.below(1400);
    Seeds v;
    for (unsigned k = 0; k < n; ++k) v.push_back(r.chance(10) ? 0 : (uint32_t)r.next());
    return v;
}
static uint32_t someSeed(vh::Rng &r) {
    return r.chance(20) ? 1 + r.below(5) : r.chance(20) ? 0xffffffffu - r.below(4) : 1 + (uint32_t)r.next() % 0xfffffffeu;
}

template <class G, class S> static void history(vh::Rng &r, G *g, S make) {
    Source *s = 0;
    unsigned left = 0; uint64_t bits = 0;
    if (g == 0) { uint32_t seed = someSeed(r); vh::logf("constructed with %u\n", seed); g = new G(seed); s = make(seed); }
    for (int round = 0; round < 3; ++round) {
        if (s) use(*g, *s, r, r.below(12), true, left, bits);
        uint32_t seed = r.chance(5) ? 0 : someSeed(r);
        vh::logf("init %u\n", seed);
        g->init(seed);
        delete s;
        s = make(seed); left = 0;
    }
    use(*g, *s, r, r.below(12), true, left, bits);
    delete s;
    delete g;
}
static Source *mt(uint32_t seed) { return new MT(seed); }
static Source *micro(uint32_t seed) { return new Xorshift(seed); }
static Source *tiny(uint32_t seed) { return new Mwc(seed, 8, 716514398); }
static Source *huge(uint32_t seed) { return new Mwc(seed, 4096, 18782); }

template <class G> static G *dirty(vh::Rng &r) {       // an object in memory that held something else before
    void *p = ::operator new(sizeof(G));
    for (size_t k = 0; k < sizeof(G); ++k) ((volatile unsigned char *)p)[k] = (unsigned char)r.next();
    return new (p) G(someSeed(r));
}

static void shuffle(vh::Rng &r) {
    unsigned n = r.chance(30) ? r.below(4) : r.below(60);
    uint32_t seed = someSeed(r);
    std::vector<int> v, w;
    for (unsigned k = 0; k < n; ++k) v.push_back(r.chance(20) ? 7 : (int)r.next());
    w = v;
    MersenneTwisterRandom g(seed);
    MT s(seed);
    unsigned lo = n ? r.below(n) : 0, hi = n ? lo + r.below(n - lo + 1) : 0;
    if (r.chance(60)) { lo = 0; hi = n; }
    vh::logf("shuffle %u..%u of %u, seed %u\n", lo, hi, n, seed);
    MT_random_shuffle(v.begin() + lo, v.begin() + hi, g);
    for (unsigned k = 1; k < hi - lo; ++k) std::swap(w[lo + k], w[lo + s.next() % (k + 1)]);
    VH_CHECK(v == w, "shuffled differently from the draws");
    VH_CHECK(g.randInt() == s.next(), "the shuffle used other than one draw per place");
}
static void everyOrder() {           // every order of four elements for the same share of the draws
    std::vector<unsigned> seen(24, 0);
    MersenneTwisterRandom g(77);
    for (int k = 0; k < 24000; ++k) {
        int v[4] = { 0, 1, 2, 3 };
        MT_random_shuffle(v, v + 4, g);
        unsigned c = 0;
        for (int i = 0; i < 4; ++i) { unsigned m = 0; for (int j = i + 1; j < 4; ++j) m += v[j] < v[i]; c = c * (4 - i) + m; }
        ++seen[c];
    }
    for (int k = 0; k < 24; ++k) VH_CHECK(seen[k] > 840 && seen[k] < 1160, "order %d came %u times of 24000", k, seen[k]);
}

template <int N> static void size(vh::Rng &r, uint32_t a) {
    lintel::Marsaglia<N> *g = new lintel::Marsaglia<N>;
    if (r.chance(50)) for (unsigned k = r.below(3 * N); k; --k) g->randInt();
    uint32_t seed = 1 + r.below(0xffffffffu);
    vh::logf("size %d seed %u\n", N, seed);
    g->init(seed);
    Mwc s(seed, N, a);
    for (unsigned k = 0, n = N + r.below(2 * N); k < n; ++k) {
        uint32_t got = g->randInt(), want = s.next();
        VH_CHECK(got == want, "number %u of Marsaglia<%d> is %u, expected %u", k, N, got, want);
    }
    delete g;
}

static void sizes(vh::Rng &r) {
    switch (r.below(8)) {
    case 0: size<2048>(r, 1047570); break;
    case 1: size<1024>(r, 123471786); break;
    case 2: size<512>(r, 123554632); break;
    case 3: size<256>(r, 8001634); break;
    case 4: size<128>(r, 8007626); break;
    case 5: size<64>(r, 647535442); break;
    case 6: size<32>(r, 547416522); break;
    default: size<16>(r, 487198574);
    }
}

static void one(uint64_t c, vh::Rng &r) {
    if (c == 0) { everyOrder(); vh::nontrivial(); return; }
    if (c == 1) {
        bool refused = false;
        MersenneTwisterRandom g(1);
        AssertBoostClearFns();
        AssertBoostFnBefore(AssertBoostThrowExceptionFn);
        __lsan_disable();
        try { g.initArray(Seeds()); } catch (AssertBoostException &) { refused = true; }
        __lsan_enable();
        AssertBoostClearFns();
        VH_CHECK(refused, "seeded from no seeds");
        return;
    }
    switch (r.below(8)) {
    case 6: sizes(r); break;
    case 0: vh::logf("mersenne twister\n"); history(r, r.chance(50) ? dirty<MersenneTwisterRandom>(r) : (MersenneTwisterRandom *)0, mt); break;
    case 1: case 2: {
        Seeds v = someSeeds(r);
        vh::logf("seed array of %u\n", (unsigned)v.size());
        unsigned left = 0; uint64_t bits = 0;
        MersenneTwisterRandom *g;
        if (r.chance(50)) g = new MersenneTwisterRandom(v);
        else { g = dirty<MersenneTwisterRandom>(r); if (r.chance(50)) for (unsigned k = r.below(90); k; --k) g->randBoolFast(); g->initArray(v); }
        MT s(v);
        use(*g, s, r, 3 + r.below(10), false, left, bits);
        delete g;
        break;
    }
    case 3: vh::logf("micro\n"); history(r, r.chance(50) ? dirty<lintel::MarsagliaRNGMicro>(r) : (lintel::MarsagliaRNGMicro *)0, micro); break;
    case 4: vh::logf("tiny\n"); history(r, r.chance(50) ? dirty<lintel::MarsagliaRNGTiny>(r) : (lintel::MarsagliaRNGTiny *)0, tiny); break;
    case 5: vh::logf("huge\n"); history(r, r.chance(50) ? dirty<lintel::MarsagliaRNGHuge>(r) : (lintel::MarsagliaRNGHuge *)0, huge); break;
    default: shuffle(r);
    }
    vh::nontrivial();
}
VH_MAIN(one, 2)

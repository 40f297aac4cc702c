// bounded harness for the hash functions: reference implementation, exact-size buffers at every alignment
#include "vh.hpp"
#include <string>
#include <memory>
#include <boost/shared_ptr.hpp>
#include <Lintel/HashFns.hpp>

static void rmix(uint32_t &a, uint32_t &b, uint32_t &c) {
    static const int sh[9] = { -13, 8, -13, -12, 16, -5, -3, 10, -15 };
    uint32_t *v[3] = { &a, &b, &c };
    for (int i = 0; i < 9; ++i) {
        uint32_t &x = *v[i % 3], y = *v[(i + 1) % 3], z = *v[(i + 2) % 3];
        x = x - y - z;
        x ^= sh[i] < 0 ? z >> -sh[i] : z << sh[i];
    }
}
static uint32_t ref(uint32_t init, const unsigned char *k, size_t len) {
    uint32_t s[3] = { 0x9e3779b9u, 0x9e3779b9u, init };
    size_t at = 0;
    for (; len - at >= 12; at += 12) {
        for (int i = 0; i < 12; ++i) s[i / 4] += (uint32_t)k[at + i] << (8 * (i % 4));
        rmix(s[0], s[1], s[2]);
    }
    s[2] += (uint32_t)len;
    for (size_t i = 0; at + i < len; ++i) {
        size_t p = i < 8 ? i : i + 1;
        s[p / 4] += (uint32_t)k[at + i] << (8 * (p % 4));
    }
    rmix(s[0], s[1], s[2]);
    return s[2];
}
static uint32_t ref64(uint64_t v, uint32_t p) {
    uint32_t a = (uint32_t)v, b = (uint32_t)(v >> 32);
    rmix(a, b, p);
    return p;
}
namespace hu {
    struct A { int x; A(int y) : x(y) { } };
    uint32_t hashType(const A &a) { return 77 * a.x; }
}
struct Mem { uint32_t x; uint32_t hash() const { return x ^ 0x5555; } };

static void one(uint64_t cs, vh::Rng &r) {
    size_t n = cs < 200 ? cs : r.below(r.below(4) ? 80 : 3000);
    size_t al = r.below(9);
    std::unique_ptr<unsigned char[]> b(new unsigned char[al + n]);     // ends exactly behind the key
    int style = r.below(4);
    for (size_t i = 0; i < al + n; ++i) b[i] = style == 0 ? 0 : style == 1 ? 0xFF : style == 2 ? 0x80 + r.below(128) : r.next();
    uint32_t init = r.below(3) ? (uint32_t)r.next() : 1972;
    vh::logf("bytes n=%zu align=%zu style=%d init=%u", n, al, style, init);
    uint32_t want = ref(init, b.get() + al, n);
    VH_CHECK(lintel::bobJenkinsHash(init, b.get() + al, n) == want, "bobJenkinsHash differs from the published function");
    VH_CHECK(lintel::hashBytes(b.get() + al, n, init) == want, "hashBytes");
    VH_CHECK(lintel::hashBytes(b.get() + al, n) == ref(1972, b.get() + al, n), "hashBytes default start value");
    std::string s((const char *)b.get() + al, n);
    VH_CHECK(lintel::hash(s) == ref(1972, b.get() + al, n), "hash(std::string)");
    std::unique_ptr<char[]> z(new char[n + 1]);
    size_t m = 0;
    for (size_t i = 0; i < n; ++i) if (b[al + i]) z[m++] = b[al + i];
    std::unique_ptr<char[]> zz(new char[m + 1]);
    memcpy(zz.get(), z.get(), m);
    zz[m] = 0;
    VH_CHECK(lintel::hashType((const char *)zz.get()) == lintel::hash(std::string(zz.get())), "equal C and C++ strings hash differently");
    VH_CHECK(lintel::hashType((const char *)zz.get()) == ref(1972, (unsigned char *)zz.get(), m), "hash of a C string");
    uint64_t v = r.below(3) ? r.next() : (r.next() & 0xFFFFFFFFu);
    VH_CHECK(lintel::hash((uint64_t)v) == ref64(v, 1972) && lintel::hash((int64_t)v) == ref64(v, 1972) && lintel::hash((unsigned long long)v) == ref64(v, 1972), "64 bit hash");
    VH_CHECK(lintel::hash((uint32_t)v) == (uint32_t)v && lintel::hash((int32_t)v) == (uint32_t)v, "32 bit hash");
    VH_CHECK(lintel::hash((uint16_t)v) == (uint16_t)v && lintel::hash((int16_t)v) == (uint16_t)v, "16 bit hash");
    VH_CHECK(lintel::hash((uint8_t)v) == (uint8_t)v && lintel::hash((int8_t)v) == (uint8_t)v && lintel::hash((char)v) == (uint8_t)v, "8 bit hash");
    VH_CHECK(lintel::BobJenkinsHashMixULL(v, init) == ref64(v, init), "BobJenkinsHashMixULL");
    { uint32_t a = v, b2 = v >> 32, c = init; rmix(a, b2, c); VH_CHECK(lintel::BobJenkinsHashMix3((uint32_t)v, (uint32_t)(v >> 32), init) == c, "BobJenkinsHashMix3"); }
    int x = (int)(r.next() & 0xFFFFF), y = (int)(r.next() & 0xFFFFF);
    std::pair<hu::A, hu::A> p(x, y);
    uint32_t f = hu::hashType(x);
    VH_CHECK(lintel::hash(p) == ref(hu::hashType(y), (unsigned char *)&f, 4), "hash of a pair");
    Mem mm = { (uint32_t)v };
    VH_CHECK(lintel::hash(mm) == mm.hash(), "member hash");
    int *pi = &x;
    VH_CHECK(lintel::PointerHash<int>()(pi) == ref64((uint64_t)(uintptr_t)pi, 1972), "pointer hash");
    VH_CHECK(lintel::PointerEqual<int>()(pi, &x) && !lintel::PointerEqual<int>()(pi, &y), "pointer equality");
    boost::shared_ptr<int> s1(new int(5)), s2(s1), s3(new int(5));
    VH_CHECK(lintel::SharedPointerHash<int>()(s1) == ref64((uint64_t)(uintptr_t)s1.get(), 1972), "shared pointer hash");
    VH_CHECK(lintel::SharedPointerHash<int>()(s1) == lintel::SharedPointerHash<int>()(s2) && lintel::SharedPointerEqual<int>()(s1, s2) && !lintel::SharedPointerEqual<int>()(s1, s3), "shared pointer equality");
    if (n > 12) vh::nontrivial();
}
VH_MAIN(one, 0)

// bounded harness for ASCIIbeticalB64: against a bit-by-bit encoder, on exactly sized buffers
#include "vh.hpp"
#include <Lintel/Base64.hpp>
typedef lintel::ASCIIbeticalB64 B64;
static const char *A = "+,0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
static int bit(const std::string &s, size_t i) { return i / 8 < s.size() ? ((unsigned char)s[i / 8] >> (7 - i % 8)) & 1 : 0; }
static std::string ref(const std::string &s, size_t digits) {
    std::string o;
    for (size_t k = 0; k < digits; ++k) {
        int v = 0;
        for (int b = 0; b < 6; ++b) v = v * 2 + bit(s, 6 * k + b);
        o += A[v];
    }
    return o;
}
static std::string refback(const std::string &s, size_t digits) {
    std::string o(digits, A[0]);
    for (size_t k = 0; k < digits; ++k) {
        int v = 0;
        for (int b = 0; b < 6; ++b) {
            size_t i = 6 * k + b;          // bit i from the end
            if (i / 8 < s.size()) v |= (((unsigned char)s[s.size() - 1 - i / 8] >> (i % 8)) & 1) << b;
        }
        o[digits - 1 - k] = A[v];
    }
    return o;
}
static size_t full(size_t n) { return (n * 8 + 5) / 6; }

static void one(uint64_t cs, vh::Rng &r) {
    std::string s = r.bytes(r.below(r.chance(80) ? 12 : 300)), t = s;
    if (r.chance(30)) for (size_t i = 0; i < s.size(); ++i) s[i] = r.chance(50) ? (char)0xff : 0;
    if (r.chance(70)) { t = s.substr(0, r.below(s.size() + 1)); if (r.chance(70)) t += r.bytes(r.below(4)); }
    else t = r.bytes(r.below(6));
    vh::logf("s %s t %s\n", vh::show(s, 80).c_str(), vh::show(t, 80).c_str());
    char *in = new char[s.size()];
    memcpy(in, s.data(), s.size());
    size_t n = full(s.size());
    std::string e = B64::encode((const void *)in, s.size(), 0);
    VH_CHECK(e == ref(s, n), "encode gives %s, expected %s", e.c_str(), ref(s, n).c_str());
    VH_CHECK(B64::encode(s, 0) == e, "encode of a string");
    VH_CHECK(B64::decode(e) == s, "decode(encode(s)) differs from s");
    char *ex = new char[n];
    memcpy(ex, e.data(), n);
    VH_CHECK(B64::decode(ex, n) == s, "decode of a buffer");
    delete [] ex;
    std::string et = B64::encode(t, 0);
    VH_CHECK((s < t) == (e < et) && (s == t) == (e == et), "order of %s and %s is not kept", vh::show(s, 80).c_str(), vh::show(t, 80).c_str());
    // explicit digits: a prefix, or the rest is zero digits
    size_t d = 1 + r.below(n + 6);
    std::string p = B64::encode((const void *)in, s.size(), (int32_t)d);
    VH_CHECK(p == ref(s, d), "encode with %zu digits gives %s", d, p.c_str());
    char *raw = new char[d];
    memset(raw, '#', d);
    B64::encode((const void *)in, s.size(), (int32_t)d, raw);
    for (size_t i = 0; i < d; ++i) VH_CHECK(raw[i] == p[i], "raw digit %zu", i);
    memset(raw, '#', d);
    B64::encodeBackward(in, s.size(), (int32_t)d, raw);
    VH_CHECK(std::string(raw, d) == refback(s, d), "encodeBackward with %zu digits gives %s, expected %s", d, std::string(raw, d).c_str(), refback(s, d).c_str());
    delete [] raw;
    delete [] in;
    // numbers
    uint64_t v = r.next() >> r.below(64);
    int32_t k = r.below(15);
    size_t kk = k ? k : 11;
    std::string w = B64::encode(v, k);
    VH_CHECK(w.size() == kk, "digits");
    uint64_t q = v;
    for (size_t i = kk; i-- > 0; q >>= 6) VH_CHECK(w[i] == A[q & 63], "digit %zu of %llu", i, (unsigned long long)v);
    VH_CHECK(B64::encode((int64_t)v, k) == w, "signed number");
    kk = k ? k : 6;
    w = B64::encode((uint32_t)v, k);
    VH_CHECK(w.size() == kk, "digits");
    q = (uint32_t)v;
    for (size_t i = kk; i-- > 0; q >>= 6) VH_CHECK(w[i] == A[q & 63], "digit %zu of %u", i, (uint32_t)v);
    VH_CHECK(B64::encode((int32_t)v, k) == w, "signed number");
    {
        char b[16];
        for (int kind = 0; kind < 4; ++kind) {
            memset(b, '#', sizeof(b));
            kind == 0 ? B64::encode((uint32_t)v, k, b) : kind == 1 ? B64::encode((int32_t)v, k, b) : kind == 2 ? B64::encode((uint64_t)v, k, b) : B64::encode((int64_t)v, k, b);
            q = kind < 2 ? (uint32_t)v : v;
            for (size_t i = k; i-- > 0; q >>= 6) VH_CHECK(b[i] == A[q & 63], "raw digit %zu of %llu (kind %d)", i, (unsigned long long)v, kind);
            for (size_t i = k; i < 16; ++i) VH_CHECK(b[i] == '#', "written behind the digits");
        }
        char *rs = new char[d];
        B64::encode(s, (int32_t)d, rs);
        VH_CHECK(std::string(rs, d) == p, "raw encode of a string");
        delete [] rs;
    }
    // decoding anything stays inside the buffers and gives 6 bits for each character
    std::string g = r.bytes(r.below(20));
    char *gx = new char[g.size()];
    memcpy(gx, g.data(), g.size());
    std::string o = B64::decode(gx, g.size());
    VH_CHECK(o.size() == g.size() * 6 / 8, "size of the decoded string");
    VH_CHECK(B64::decode(gx, g.size()) == o, "decoding again differs");
    delete [] gx;
    if (s.size() > 3) vh::nontrivial();
}
VH_MAIN(one, 0)

// bounded harness for ConstantString: every constant string against the std::string it was made from
#include "vh.hpp"
#include <sanitizer/lsan_interface.h>
#include <map>
#include <sstream>
#include <sys/mman.h>
#include <iostream>
#include <Lintel/ConstantString.hpp>
#include <Lintel/AssertBoost.hpp>

static std::map<std::string, const char *> &pool() { static std::map<std::string, const char *> *m = new std::map<std::string, const char *>; return *m; }
static uint64_t g_bytes;

static int sgn(int x) { return (x > 0) - (x < 0); }

static void keep(const ConstantString &c, const std::string &s);

static std::string word(vh::Rng &r, int alpha, const std::vector<std::string> &old) {
    static const char letters[] = {'a', '\0', (char)0xff, 'b', '\x80', '\x01', 'A', ' '};
    std::string s;
    if (!old.empty() && r.chance(45)) {
        s = old[r.below(old.size())];
        switch (r.below(6)) {
            case 0: s.resize(r.below(s.size() + 1)); break;
            case 1: s += '\0'; break;
            case 2: s += letters[r.below(alpha)]; break;
            case 3: if (!s.empty()) s[r.below(s.size())] ^= 1 << r.below(8); break;
            case 4: s += std::string(1 + r.below(4), '\0') + letters[r.below(alpha)]; break;
            default: break;
        }
        return s;
    }
    size_t n = r.below(r.chance(90) ? 12 : r.chance(90) ? 300 : 8100);
    for (size_t i = 0; i < n; ++i) s += n > 40 ? (char)r.below(256) : letters[r.below(alpha)];
    return s;
}

static void check(const ConstantString &c, const std::string &s) {
    VH_CHECK(c.size() == s.size() && c.length() == s.size(), "size %u, expected %zu for %s", c.size(), s.size(), vh::show(s, 60).c_str());
    VH_CHECK(c.empty() == s.empty(), "empty");
    VH_CHECK(memcmp(c.data(), s.data(), s.size()) == 0, "the bytes of %s changed", vh::show(s, 60).c_str());
    VH_CHECK(c.c_str()[s.size()] == '\0', "no null byte after %s", vh::show(s, 60).c_str());
    VH_CHECK(c.str() == s, "str() of %s", vh::show(s, 60).c_str());
}

// make a constant string of s, one of the ways there are; the bytes given do not outlive the call
static ConstantString make(const std::string &s, int how) {
    if (how == 0) { std::string t(s); return ConstantString(t); }
    if (how == 1 && s.find('\0') == std::string::npos) { char *b = strdup(s.c_str()); ConstantString c(b); free(b); return c; }
    if (how == 2 && s.empty()) return ConstantString();
    if (how == 6) {
        // from the bytes of another constant string
        std::string t = s.substr(0, 3) + s;
        t.resize(t.size() < 8170 ? t.size() : 8170);
        ConstantString o(t);
        keep(o, t);
        size_t at = t.size() == s.size() + (s.size() < 3 ? s.size() : 3) ? t.size() - s.size() : 0;
        if (at || t == s) { ConstantString c(o.data() + at, s.size()); keep(o, t); return c; }
    }
    if (how == 3) { ConstantString c("something else"); keep(c, "something else"); ConstantString d(s); c = d; return c; }
    char *b = new char[s.size()];
    memcpy(b, s.data(), s.size());
    ConstantString c(b, s.size());
    memset(b, '?', s.size());
    delete [] b;
    return c;
}

static void keep(const ConstantString &c, const std::string &s) {
    std::map<std::string, const char *>::iterator i = pool().find(s);
    if (i == pool().end()) {
        pool()[s] = c.data();
        g_bytes += s.size() + 1;
    } else {
        VH_CHECK(i->second == c.data(), "a second copy of %s was stored", vh::show(s, 60).c_str());
    }
    check(c, s);
}

static bool refused(const std::string &s, int how, ConstantString *out) {
    AssertBoostClearFns();
    AssertBoostFnBefore(AssertBoostThrowExceptionFn);
    bool t = false;
    __lsan_disable();
    try { *out = make(s, how); } catch (AssertBoostException &) { t = true; }
    __lsan_enable();
    AssertBoostClearFns();
    return t;
}

static void dump() {
    std::ostringstream o;
    std::streambuf *b = std::cout.rdbuf(o.rdbuf());
    ConstantString::dumpInfo();
    std::cout.rdbuf(b);
    long n = -1, sb = -1, used = -1, alloc = -1;
    sscanf(o.str().c_str(), "CSInfo: %ld strings, bytes: %ld string, %ld used, %ld alloced", &n, &sb, &used, &alloc);
    VH_CHECK(n == (long)pool().size() && sb == (long)g_bytes, "dumpInfo reports %ld strings of %ld bytes, there are %zu of %zu", n, sb, pool().size(), (size_t)g_bytes);
    VH_CHECK(used >= sb && used <= alloc, "dumpInfo reports %ld bytes used of %ld", used, alloc);
}

static void compare(const std::string &a, const std::string &b, const ConstantString &x, const ConstantString &y) {
    int w = sgn(a.compare(b));
#define BOTH(op) VH_CHECK((x op y) == (a op b), "%s " #op " %s", vh::show(a, 40).c_str(), vh::show(b, 40).c_str()); \
                 VH_CHECK((x op b) == (a op b), "%s " #op " string %s", vh::show(a, 40).c_str(), vh::show(b, 40).c_str())
    VH_CHECK(sgn(x.compare(y)) == w, "compare(%s, %s)", vh::show(a, 40).c_str(), vh::show(b, 40).c_str());
    VH_CHECK(sgn(x.compare(b)) == w, "compare(%s, string %s)", vh::show(a, 40).c_str(), vh::show(b, 40).c_str());
    BOTH(<); BOTH(<=); BOTH(==); BOTH(!=); BOTH(>); BOTH(>=);
    VH_CHECK(x.equal(y) == (a == b), "equal");
    VH_CHECK((a != b) || x.hash() == y.hash(), "equal strings hash differently");
    VH_CHECK((x != b.c_str()) == (a != std::string(b.c_str())), "%s != the characters of %s", vh::show(a, 40).c_str(), vh::show(b, 40).c_str());
    ConstantString::hteHash h;
    ConstantString::hteEqual e;
    const ConstantStringValue *p = reinterpret_cast<const ConstantStringValue *>(x.data()), *q = reinterpret_cast<const ConstantStringValue *>(y.data());
    VH_CHECK(e(p, q) == (a == b), "hteEqual");
    VH_CHECK(h(p) == lintel::hashBytes(a.data(), a.size()), "hteHash");
}

static void one(uint64_t cs, vh::Rng &r) {
    int alpha = 1 + r.below(8), n = 1 + r.below(r.chance(90) ? 12 : 60);
    if (pool().size() > 200000) return;
    std::vector<std::string> v;
    std::vector<ConstantString> c;
    bool fill = cs % 400 == 399;
    if (fill) n = 120;
    for (int i = 0; i < n; ++i) {
        std::string s = word(r, alpha, v);
        if (fill) s = std::string(r.chance(50) ? 8100 + r.below(60) : r.below(9000) % 8150, (char)r.below(256)) + s.substr(0, 20);
        if (s.size() > 8100 && !fill) s.resize(8100);
        if (s.size() > 8178) s.resize(8178);
        int how = r.below(7);
        vh::logf("ConstantString(%s) way %d\n", vh::show(s, 60).c_str(), how);
        c.push_back(make(s, how));
        v.push_back(s);
        keep(c.back(), s);
    }
    for (int i = 0; i < n; ++i) {
        check(c[i], v[i]);
        int j = r.below(n);
        compare(v[i], v[j], c[i], c[j]);
        if (!v[i].empty()) { size_t k = r.below(v[i].size()); VH_CHECK(c[i][k] == v[i][k], "[%zu]", k); }
        std::ostringstream o;
        o << c[i];
        VH_CHECK(o.str() == v[i], "written as %s, expected %s", vh::show(o.str(), 60).c_str(), vh::show(v[i], 60).c_str());
        for (int k = 0; k < n; ++k) VH_CHECK((c[i] == c[k]) == (v[i] == v[k]), "== of %s and %s", vh::show(v[i], 40).c_str(), vh::show(v[k], 40).c_str());
    }
    if (cs % 64 == 1) dump();
    if (cs % 100 == 7) {
        // a string longer than the limit is refused or stored like any other
        std::string s(8160 + r.below(r.chance(50) ? 60 : 600000), 'x');
        for (int k = 0; k < 8; ++k) s[r.below(s.size())] = (char)r.below(256);
        vh::logf("ConstantString of %zu bytes\n", s.size());
        ConstantString got("?");
        keep(got, "?");
        if (!refused(s, r.below(2) * 5, &got)) { keep(got, s); VH_CHECK(s.size() <= 512 * 1024 - 5, "%zu bytes fit nowhere", s.size()); }
        else { VH_CHECK(got.str() == "?", "a refused string"); VH_CHECK(s.size() > 8178, "a string of %zu bytes is refused", s.size()); }
        for (int i = 0; i < n; ++i) { check(c[i], v[i]); keep(make(v[i], r.below(6)), v[i]); }
        dump();
    }
    if (cs % 4000 == 3) {
        // sizes near the ends of the 32-bit ranges
        size_t room = (size_t)1 << 32;
        char *b = (char *)mmap(0, room, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (b != (char *)MAP_FAILED) {
            AssertBoostClearFns();
            AssertBoostFnBefore(AssertBoostThrowExceptionFn);
            static const uint32_t sizes[] = {0x7ffffff0u, 0x7ffffffbu, 0x80000000u, 0xc0000000u, 0xfffffffau, 0xfffffffbu, 0xffffffffu};
            for (unsigned k = 0; k < sizeof sizes / sizeof *sizes; ++k) {
                vh::logf("ConstantString of %u bytes\n", sizes[k]);
                bool t = false;
                __lsan_disable();
                try { ConstantString big(b, sizes[k]); } catch (AssertBoostException &) { t = true; }
                __lsan_enable();
                VH_CHECK(t, "a string of %u bytes is not refused", sizes[k]);
            }
            AssertBoostClearFns();
            munmap(b, room);
        }
    }
    if (cs % 2000 == 11 || fill) {
        for (std::map<std::string, const char *>::iterator i = pool().begin(); i != pool().end(); ++i)
            VH_CHECK(memcmp(i->second, i->first.data(), i->first.size()) == 0 && i->second[i->first.size()] == '\0', "the bytes of %s changed", vh::show(i->first, 60).c_str());
    }
    if (n > 2) vh::nontrivial();
}
VH_MAIN(one, 0)

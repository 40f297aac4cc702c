// bounded harness for StringUtil: every codec against an independent definition, with decoders
#include "vh.hpp"
#include <sanitizer/lsan_interface.h>
#include <Lintel/StringUtil.hpp>
#include <Lintel/AssertBoost.hpp>
#include <math.h>
typedef std::string S;
typedef unsigned char uc;
template <class F> static bool refused(F f) {
    AssertBoostClearFns();
    AssertBoostFnBefore(AssertBoostThrowExceptionFn);
    bool t = false;
    __lsan_disable();
    try { f(); } catch (AssertBoostException &) { t = true; }
    __lsan_enable();
    AssertBoostClearFns();
    return t;
}
static bool printable(char c) { return (uc)c >= 32 && (uc)c < 127; }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static S hex(const S &s) { S o; for (size_t i = 0; i < s.size(); ++i) { o += "0123456789abcdef"[(uc)s[i] >> 4]; o += "0123456789abcdef"[(uc)s[i] & 15]; } return o; }
static S text(vh::Rng &r, size_t n, int k) {
    S s;
    static const char *sets[] = {"ab", ",\"x\n", "0123456789abcdefABCDEF", " \t\n\v\f\r", "\\'\"0bnrtZ%", "%0aZ"};
    for (size_t i = 0; i < n; ++i) {
        if (k < 6) { size_t l = strlen(sets[k]); s += sets[k][r.below(l)]; }
        else if (k == 6) s += (char)r.below(256);
        else s += (char)(32 + r.below(95));
    }
    if (n && r.chance(20)) s[r.below(n)] = (char)r.below(256);
    return s;
}
static void one(uint64_t cs, vh::Rng &r) {
    S s = text(r, r.below(r.chance(90) ? 10 : 60), r.below(8));
    vh::logf("s %s\n", vh::show(s, 200).c_str());
    // split and join
    S sep = r.chance(60) ? text(r, 1 + r.below(2), r.below(2)) : (s.size() ? s.substr(r.below(s.size()), 1 + r.below(3)) : S("q"));
    std::vector<S> before, v;
    for (size_t i = r.below(3); i-- > 0;) before.push_back(text(r, r.below(4), 0));
    v = before;
    split(s, sep, v);
    std::vector<S> w(v.begin() + before.size(), v.end());
    VH_CHECK(std::equal(before.begin(), before.end(), v.begin()), "split changed what was in the vector");
    VH_CHECK(!w.empty() && join(sep, w) == s, "join of split by %s", vh::show(sep, 20).c_str());
    size_t at = 0, t = 0;
    for (;; ++t) {
        size_t e = s.find(sep, at);
        VH_CHECK(t < w.size() && w[t] == s.substr(at, e == S::npos ? S::npos : e - at), "piece %zu", t);
        if (e == S::npos) break;
        at = e + sep.size();
    }
    VH_CHECK(t + 1 == w.size(), "number of pieces");
    VH_CHECK(split(s, sep) == w, "split returning a vector");
    S j;
    for (size_t i = 0; i < before.size(); ++i) { if (i) j += sep; j += before[i]; }
    VH_CHECK(join(sep, before) == j, "join");
    // hex
    S h = hexstring(s);
    VH_CHECK(h == hex(s), "hexstring gives %s", h.c_str());
    VH_CHECK(ishexstring(h) && hex2raw(h) == s && maybehex2raw(h) == s, "hex2raw of hexstring");
    S H = h;
    for (size_t i = 0; i < H.size(); ++i) if (r.chance(50)) H[i] = toupper(H[i]);
    VH_CHECK(hex2raw(H) == s, "hex2raw of upper case");
    bool ish = s.size() % 2 == 0;
    bool allp = true;
    for (size_t i = 0; i < s.size(); ++i) { ish = ish && hexv(s[i]) >= 0; allp = allp && printable(s[i]); }
    VH_CHECK(ishexstring(s) == ish, "ishexstring");
    VH_CHECK(maybehex2raw(s) == (ish ? hex2raw(s) : s), "maybehex2raw");
    if (!ish && r.chance(20)) VH_CHECK(refused([&] { hex2raw(s); }), "hex2raw of %s is not refused", vh::show(s, 80).c_str());
    VH_CHECK(maybehexstring(s) == (allp ? s : hex(s)), "maybehexstring(string)");
    VH_CHECK(maybehexstring(s.data(), s.size()) == (allp ? s : hex(s)), "maybehexstring(data)");
    // mysql
    S m = mysqlEscape(s), u;
    for (size_t i = 0; i < m.size(); ++i) {
        VH_CHECK(m[i] && m[i] != '\'' && m[i] != '"' && m[i] != '\n' && m[i] != '\r' && m[i] != 26, "mysqlEscape leaves byte %d", m[i]);
        if (m[i] != '\\') { u += m[i]; continue; }
        VH_CHECK(i + 1 < m.size(), "mysqlEscape ends with a backslash");
        static const char from[] = "0bntrZ\"'\\", to[] = "\0\b\n\t\r\x1a\"'\\";
        const char *p = strchr(from, m[++i]);
        VH_CHECK(m[i] && p, "mysqlEscape writes \\%c", m[i]);
        u += to[p - from];
        m[i] = 'x';
    }
    VH_CHECK(u == s, "mysqlEscape is read back as %s", vh::show(u, 200).c_str());
    // unprintable
    S e = escapeUnprintable(s), d;
    for (size_t i = 0; i < e.size(); ++i) {
        VH_CHECK(printable(e[i]), "escapeUnprintable leaves an unprintable byte");
        if (e[i] != '%') { d += e[i]; continue; }
        VH_CHECK(i + 1 < e.size(), "escapeUnprintable ends with %%");
        if (e[i + 1] == '%') { d += '%'; ++i; continue; }
        VH_CHECK(i + 2 < e.size() && hexv(e[i + 1]) >= 0 && hexv(e[i + 2]) >= 0, "escape without two digits");
        d += (char)(hexv(e[i + 1]) * 16 + hexv(e[i + 2]));
        i += 2;
    }
    VH_CHECK(d == s, "escapeUnprintable %s is read back as %s", e.c_str(), vh::show(d, 200).c_str());
    size_t n = 0;
    for (size_t i = 0; i < s.size(); ++i) n += s[i] == '%' ? 2 : printable(s[i]) ? 1 : 3;
    VH_CHECK(e.size() == n, "escapeUnprintable escapes more than it needs to");
    VH_CHECK(htmlEscapeUnprintable(s) == e, "htmlEscapeUnprintable");
    // csv
    S c = toCSVform(s), f;
    if (c.size() && c[0] == '"') {
        size_t i = 1;
        for (;; ++i) {
            VH_CHECK(i < c.size(), "the quoted field %s does not end", vh::show(c, 200).c_str());
            if (c[i] == '"') { if (i + 1 < c.size() && c[i + 1] == '"') ++i; else break; }
            f += c[i];
        }
        VH_CHECK(i + 1 == c.size(), "text behind the quoted field %s", vh::show(c, 200).c_str());
    } else {
        VH_CHECK(c.find_first_of(",\r\n") == S::npos, "the unquoted field %s has a separator", vh::show(c, 200).c_str());
        f = c;
    }
    VH_CHECK(f == s, "toCSVform %s is read back as %s", vh::show(c, 200).c_str(), vh::show(f, 200).c_str());
    // prefix and suffix
    S q = r.chance(50) ? s.substr(0, r.below(s.size() + 1)) : r.chance(50) ? s.substr(r.below(s.size() + 1)) : text(r, r.below(4), r.below(2));
    if (r.chance(30) && q.size()) q[r.below(q.size())] ^= 1;
    VH_CHECK(prefixequal(s, q) == (q.size() <= s.size() && s.substr(0, q.size()) == q), "prefixequal");
    VH_CHECK(suffixequal(s, q) == (q.size() <= s.size() && s.substr(s.size() - q.size()) == q), "suffixequal");
    bool bl = true, sp = true;
    S up = s, dn = s;
    for (size_t i = 0; i < s.size(); ++i) {
        bl = bl && (s[i] == ' ' || s[i] == '\t');
        sp = sp && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13));
        if (s[i] >= 'a' && s[i] <= 'z') up[i] = s[i] - 32;
        if (s[i] >= 'A' && s[i] <= 'Z') dn[i] = s[i] + 32;
    }
    VH_CHECK(stringIsBlank(s) == bl && stringIsSpace(s) == sp, "stringIsBlank, stringIsSpace");
    VH_CHECK(upcaseString(s) == up && downcaseString(s) == dn, "upcaseString, downcaseString");
    VH_CHECK(wstring2string(string2wstring(S("ascii text")), '?') == "ascii text", "wide strings");
    // numbers
    uint64_t x = r.next() >> r.below(64);
    char b[64];
    uint32_t ip = (uint32_t)x;
    snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255);
    VH_CHECK(ipv4tostring(ip) == b, "ipv4tostring gives %s for %u", ipv4tostring(ip).c_str(), ip);
    if (ip != 0xffffffffu) VH_CHECK(stringtoipv4(b) == ip, "stringtoipv4 of %s", b);
    snprintf(b, sizeof b, "%lld", (long long)x);
    VH_CHECK(stringToInteger<int64_t>(b) == (int64_t)x, "stringToInteger %s", b);
    if ((int64_t)x != (int32_t)x) VH_CHECK(cs % 8 || refused([&] { stringToInteger<int32_t>(b); }), "stringToInteger<int32_t> of %s is not refused", b);
    else VH_CHECK(stringToInteger<int32_t>(b) == (int32_t)x, "stringToInteger<int32_t> %s", b);
    snprintf(b, sizeof b, "%s%llx", r.chance(50) ? "0x" : "", (unsigned long long)x);
    VH_CHECK(stringToInteger<uint64_t>(b, 16) == x, "stringToInteger %s, 16", b);
    snprintf(b, sizeof b, "%llo", (unsigned long long)x);
    VH_CHECK(stringToInteger<uint64_t>(b, 8) == x, "stringToInteger %s, 8", b);
    if (cs % 16 == 0) {
        S g = b;
        g += "zx/ 8"[r.below(5)];
        VH_CHECK(refused([&] { stringToInteger<uint64_t>(g + "y", 8); }), "stringToInteger of %s in base 8 is not refused", g.c_str());
        VH_CHECK(refused([&] { stringToInteger<uint64_t>("", 16); }), "stringToInteger of an empty string is not refused");
        VH_CHECK(refused([&] { stringToInteger<uint32_t>("1ffffffff", 16); }), "stringToInteger of a large number is not refused");
        VH_CHECK(refused([&] { stringToDouble(""); }), "stringToDouble of an empty string is not refused");
        VH_CHECK(refused([&] { stringToDouble(S("1.5") + (char)r.below(32) + "x"); }), "stringToDouble of a number followed by other bytes is not refused");
        VH_CHECK(refused([&] { stringtoipv4("1.2.3.4.5"); }) && refused([&] { stringtoipv4("x"); }), "stringtoipv4 of other text is not refused");
    }
    uint64_t bits = r.next();
    double dv;
    memcpy(&dv, &bits, 8);
    if (dv == dv) { snprintf(b, sizeof b, "%.17g", dv); VH_CHECK(stringToDouble(b) == dv, "stringToDouble of %s", b); }
    if (s.size() > 2) vh::nontrivial();
}
VH_MAIN(one, 0)

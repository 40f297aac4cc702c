// bounded harness for BoyerMooreHorspool: every position against a plain search, on exactly sized buffers
#include "vh.hpp"
#include <sanitizer/lsan_interface.h>
#include <Lintel/BoyerMooreHorspool.hpp>
#include <Lintel/AssertBoost.hpp>
using lintel::BoyerMooreHorspool;

static void one(uint64_t cs, vh::Rng &r) {
    int alpha = 1 + r.below(r.chance(80) ? 4 : 256);
    size_t nl = 1 + r.below(r.chance(80) ? 6 : 300), hl = r.below(r.chance(80) ? 24 : 2000);
    std::string n, h;
    unsigned char base = r.chance(50) ? 'a' : (unsigned char)(256 - alpha);
    for (size_t i = 0; i < nl; ++i) n += (char)(base + r.below(alpha));
    for (size_t i = 0; i < hl; ++i) h += (char)(base + r.below(alpha));
    if (r.chance(50) && hl >= nl) { size_t at = r.chance(30) ? hl - nl : r.below(hl - nl + 1); h.replace(at, nl, n); if (r.chance(30)) h[at + r.below(nl)] ^= 1; }
    vh::logf("needle %s hay %s\n", vh::show(n, 80).c_str(), vh::show(h, 200).c_str());
    char *nb = new char[nl], *hb = new char[hl];
    memcpy(nb, n.data(), nl);
    memcpy(hb, h.data(), hl);
    BoyerMooreHorspool *b = r.chance(50) ? new BoyerMooreHorspool(nb, nl) : new BoyerMooreHorspool(n);
    memset(nb, '?', nl);
    delete [] nb;
    size_t want = h.find(n);
    size_t got = b->find(hb, hl);
    VH_CHECK(got == (want == std::string::npos ? BoyerMooreHorspool::npos : want), "find gives %zd, expected %zd", (ssize_t)got, (ssize_t)want);
    VH_CHECK(b->matches(hb, hl) == (want != std::string::npos), "matches");
    VH_CHECK(b->find(hb, hl) == got, "the same search again differs");
    delete b;
    delete [] hb;
    if (want != std::string::npos && want > 0) vh::nontrivial();
    if (cs % 500 == 0) {
        AssertBoostClearFns();
        AssertBoostFnBefore(AssertBoostThrowExceptionFn);
        bool t = false;
        __lsan_disable();
        try { BoyerMooreHorspool e("", 0); } catch (AssertBoostException &) { t = true; }
        __lsan_enable();
        VH_CHECK(t, "an empty needle is not refused");
    }
}
VH_MAIN(one, 0)

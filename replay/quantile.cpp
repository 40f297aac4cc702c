// bounded harness for StatsQuantile: quantiles of random histories against the sorted values
#include "vh.hpp"
#include <vector>
#include <algorithm>
#include <cmath>
#include <memory>
#include <Lintel/StatsQuantile.hpp>
#include <Lintel/AssertBoost.hpp>
extern "C" void __lsan_disable(void);
extern "C" void __lsan_enable(void);

typedef std::vector<double> V;
static double draw(vh::Rng &r, int kind, size_t i, size_t n) {
    switch (kind) {
    case 0: return r.unit();
    case 1: return (double)i;
    case 2: return (double)(n - i);
    case 3: return (double)r.below(3);
    case 4: return (i & 1) ? (double)i : -(double)i;
    case 5: return 7.5;
    case 6: return std::floor(r.unit() * r.unit() * 50);
    case 7: return (double)((i * 7919) % (n + 1));
    default: return std::exp(8 * r.unit()) * (r.chance(50) ? 1 : -1);
    }
}
// v may be the quantile phi with rank error eps
static void near(const V &s, double v, double phi, double eps, const char *what) {
    double n = s.size();
    V::const_iterator lo = std::lower_bound(s.begin(), s.end(), v), hi = std::upper_bound(s.begin(), s.end(), v);
    VH_CHECK(lo != hi, "%s: the quantile %.17g is %.17g, which was never added", what, phi, v);
    double first = lo - s.begin() + 1, last = hi - s.begin();
    double a = std::ceil((phi - eps) * n - 1e-9 * n), b = std::ceil((phi + eps) * n + 1e-9 * n);
    if (eps == 0) { a = b = std::ceil(n * (phi - 1e-15)); }
    a = std::min(std::max(a, 1.0), n);
    b = std::min(std::max(b, 1.0), n);
    VH_CHECK(first <= b && last >= a, "%s: the quantile %.17g of %.0f values is at positions %.0f..%.0f, not within %.0f..%.0f", what, phi, n, first, last, a, b);
}
static void check(const StatsQuantile &q, V s, double eps, vh::Rng &r, const char *what) {
    std::sort(s.begin(), s.end());
    VH_CHECK(q.countll() == s.size(), "%s: count %llu, %zu values", what, (unsigned long long)q.countll(), s.size());
    if (s.empty()) {
        VH_CHECK(std::isnan(q.getQuantile(r.unit())), "%s: a quantile of no values", what);
        return;
    }
    int m = r.range(1, 40);
    double prev = -INFINITY;
    for (int i = 0; i <= m; ++i) {
        double phi = (double)i / m;
        double v = q.getQuantile(phi, true);
        VH_CHECK(v >= prev, "%s: the quantiles %.17g and before are not in order", what, phi);
        prev = v;
        near(s, v, phi, eps, what);
    }
    for (int i = 0; i < 5; ++i) {
        double phi = i == 0 ? (double)r.range(1, s.size()) / s.size() : r.unit();
        near(s, q.getQuantile(phi, true), phi, eps, what);
    }
}
static bool refused(const StatsQuantile &q, double phi, bool allow) {
    __lsan_disable();
    bool r = false;
    try { q.getQuantile(phi, allow); } catch (AssertBoostException &) { r = true; }
    __lsan_enable();
    return r;
}
static void one(uint64_t n, vh::Rng &r) {
    AssertBoostClearFns();
    AssertBoostFnBefore(AssertBoostThrowExceptionFn);
    int kind = r.below(9);
    switch (r.below(5)) {
    case 0: case 1: {
        static const double es[] = { 0.199, 0.15, 0.1, 0.1, 0.05, 0.05, 0.02, 0.01, 0.003 };
        double eps = r.chance(70) ? es[r.below(9)] : 0.002 + 0.197 * r.unit();
        static const int64_t ns[] = { 2, 50, 100, 101, 1000, 5000, 20000, 100000, 1000000000 };
        int64_t nb = ns[r.below(9)];
        size_t cap = nb < 100 ? 100 : nb > 20000 ? 20000 : nb;
        size_t cnt = r.chance(25) ? cap : r.chance(50) ? r.below(cap + 1) : r.below(std::min<size_t>(cap, 400) + 1);
        bool lazy = r.chance(50);
        StatsQuantile q(eps, nb, 10, lazy);
        vh::logf("error %.17g bound %lld lazy %d: %d buffers of %d; %zu values of kind %d\n", eps, (long long)nb, lazy, q.getNBuffers(), q.getBufferSize(), cnt, kind);
        V s;
        for (int round = r.chance(20) ? 0 : 1; round < 2; ++round) {
            s.clear();
            for (size_t i = 0; i < cnt; ++i) {
                double v = draw(r, kind, i, cnt);
                q.add(v);
                s.push_back(v);
                if (r.below(cnt) < 3) check(q, s, eps, r, "while adding");
            }
            check(q, s, eps, r, "all added");
            if (cnt > (size_t)q.getBufferSize() * q.getNBuffers()) vh::nontrivial();
            if (round == 0) {
                q.reset();
                check(q, V(), eps, r, "after reset");
            }
        }
        VH_CHECK(refused(q, -0.001, true) || s.empty(), "a quantile below 0 is refused");
        VH_CHECK(refused(q, 1.001, true) || s.empty(), "a quantile above 1 is refused");
        break;
    }
    case 2: case 3: {
        // as long as everything fits, quantiles are exact; the number of buffers and their size are free
        int b = r.range(2, r.chance(30) ? 40 : 8), k = r.range(10, r.chance(30) ? 100 : 14);
        StatsQuantile q("tune", b, k);
        size_t cnt = r.chance(30) ? (size_t)b * k : r.below(b * k + 1);
        vh::logf("%d buffers of %d; %zu values of kind %d\n", b, k, cnt, kind);
        V s;
        for (size_t i = 0; i < cnt; ++i) {
            double v = draw(r, kind, i, cnt);
            q.add(v);
            s.push_back(v);
            if (r.below(cnt) < 2) check(q, s, 0, r, "while adding, exact");
        }
        check(q, s, 0, r, "exact");
        if (s.size()) VH_CHECK(q.getQuantile(0) == q.min() && q.getQuantile(1) == q.max(), "first and last quantile");
        // beyond that one more value per buffer is lost at most: many more values, no memory errors, values only from the input
        size_t more = r.below(4 * b * k);
        for (size_t i = 0; i < more; ++i) {
            double v = draw(r, kind, i, more);
            q.add(v);
            s.push_back(v);
        }
        check(q, s, 1, r, "values added");
        vh::nontrivial();
        break;
    }
    default: {
        double eps = r.chance(50) ? 0.1 : 0.05;
        int64_t nb = 10000;
        bool same = r.chance(60);
        StatsQuantile a(eps, nb, 10, r.chance(50)), b(same ? eps : eps / 2, nb, 10, r.chance(50));
        V sa, sb;
        size_t na = r.chance(30) ? 0 : r.below(r.chance(50) ? 60 : 4000), nn = r.chance(30) ? 0 : r.below(r.chance(50) ? 60 : 4000);
        vh::logf("merge %zu and %zu values of kind %d, %s\n", na, nn, kind, same ? "same sizes" : "different sizes");
        for (size_t i = 0; i < na; ++i) { double v = draw(r, kind, i, na); a.add(v); sa.push_back(v); }
        for (size_t i = 0; i < nn; ++i) { double v = draw(r, kind, i, nn); b.add(v); sb.push_back(v); }
        double qa = b.countll() ? b.getQuantile(0.3) : 0;
        a.add((const Stats &)b);
        check(b, sb, same ? eps : eps / 2, r, "the statistic added");
        V s(sa);
        s.insert(s.end(), sb.begin(), sb.end());
        check(a, s, sa.empty() && same ? eps : 2 * eps, r, "merged");
        if (sa.empty() && same && !sb.empty()) VH_CHECK(a.getQuantile(0.3) == qa, "a copy has the quantiles of the original");
        if (r.chance(15)) {
            a.add((const Stats &)a);
            V twice(s);
            s.insert(s.end(), twice.begin(), twice.end());
            check(a, s, 3 * eps, r, "added to itself");
            return;
        }
        // independent afterwards
        for (size_t i = 0; i < 50; ++i) { double v = draw(r, 0, i, na); b.add(v); sb.push_back(v); }
        check(a, s, sa.empty() && same ? eps : 2 * eps, r, "merged, the other changed since");
        check(b, sb, same ? eps : eps / 2, r, "continued");
        for (size_t i = 0; i < 300; ++i) { double v = draw(r, 6, i, na); a.add(v); s.push_back(v); }
        check(a, s, 2 * eps, r, "merged and continued");
        vh::nontrivial();
    }
    }
}
VH_MAIN(one, 0)

// bounded harness for the histograms: every bin against the values that were added
#include "vh.hpp"
#include <vector>
#include <string>
#include <sstream>
#include <algorithm>
#include <cmath>
#include <sanitizer/lsan_interface.h>
#include <Lintel/AssertBoost.hpp>
#include <Lintel/StatsHistogram.hpp>

template <class F> static bool refused(F f) {
    bool r = false;
    AssertBoostClearFns();
    AssertBoostFnBefore(AssertBoostThrowExceptionFn);
    __lsan_disable();
    try { f(); } catch (AssertBoostException &) { r = true; }
    __lsan_enable();
    AssertBoostClearFns();
    return r;
}

struct Item { double x, d; };
typedef std::vector<Item> Items;
enum Kind { U, L, UA, LA };

struct Model {
    StatsHistogram *h;
    Kind kind;
    bool scal, grow, exact;
    double lo, hi;
    unsigned n;
    Items items;
    bool accum() const { return kind == UA || kind == LA; }
    bool log() const { return kind == L || kind == LA; }
};

static double val(const Model &m, unsigned k) {
    return m.kind == UA ? static_cast<StatsHistogramUniformAccum *>(m.h)->value(k) : static_cast<StatsHistogramLogAccum *>(m.h)->value(k);
}

static void check(const Model &m) {
    const StatsHistogram &h = *m.h;
    unsigned n = h.numBins();
    uint64_t total = 0;
    double dsum = 0, sum = 0;
    for (unsigned k = 0; k < n; ++k) total += h[k];
    for (size_t k = 0; k < m.items.size(); ++k) dsum += m.items[k].d;
    VH_CHECK(h.countll() == m.items.size() && total == m.items.size(), "%llu values counted, %llu in bins, not %llu", (unsigned long long)h.countll(), (unsigned long long)total, (unsigned long long)m.items.size());
    VH_CHECK(m.items.empty() || std::fabs(h.total() - dsum) <= 1e-6 * (1 + std::fabs(dsum)), "total %g, not %g", h.total(), dsum);
    VH_CHECK(n % 2 == 0 || m.grow, "%u bins", n);
    VH_CHECK(m.grow || n == 2 * ((m.n + 1) / 2), "%u bins, %u asked for", n, m.n);
    VH_CHECK(h.isScalable() == m.scal && h.isGrowable() == m.grow, "scalable %d growable %d", h.isScalable(), h.isGrowable());
    if (!m.scal && !m.grow) VH_CHECK(h.low() == m.lo && h.high() == m.hi && h.numRescales() == 0 && h.numGrows() == 0, "fixed range %g..%g became %g..%g", m.lo, m.hi, h.low(), h.high());
    // the edges
    VH_CHECK(std::fabs(h.binlow(0) - h.low()) <= 1e-9 * (std::fabs(h.low()) + h.binWidth(0)), "binlow(0) %g, low %g", h.binlow(0), h.low());
    if (m.hi > m.lo) VH_CHECK(std::fabs(h.binhigh(n - 1) - h.high()) <= 1e-9 * (std::fabs(h.high()) + std::fabs(h.low()) + h.binWidth(0)), "binhigh %.17g, high %.17g", h.binhigh(n - 1), h.high());
    // below each edge lie as many values as are smaller
    uint64_t cum = 0;
    double dcum = 0, mag = 0;
    for (size_t k = 0; k < m.items.size(); ++k) mag += std::fabs(m.items[k].d);
    if (m.hi > m.lo) for (unsigned k = 0; k + 1 < n; ++k) {
        cum += h[k];
        if (m.accum()) { VH_CHECK(h[k] || val(m, k) == 0, "a sum in an empty bin"); dcum += val(m, k); }
        double e = h.binhigh(k), eps = m.exact ? 0 : 1e-9 * (std::fabs(e) + std::fabs(h.low()) + std::fabs(h.high()));
        if (m.log()) eps = 1e-9 * e;
        VH_CHECK(e == h.binlow(k + 1) || std::fabs(e - h.binlow(k + 1)) <= 1e-9 * (std::fabs(e) + h.binWidth(k)), "bins %u and %u do not meet", k, k + 1);
        VH_CHECK(std::fabs(h.binWidth(k) - (e - h.binlow(k))) <= 1e-9 * (std::fabs(e) + h.binWidth(k)) && h.bincenter(k) >= h.binlow(k) && h.bincenter(k) <= e, "width or centre of bin %u", k);
        uint64_t lo = 0, hi = 0;
        double dlo = 0;
        for (size_t j = 0; j < m.items.size(); ++j) {
            lo += m.items[j].x < e - eps; hi += m.items[j].x < e + eps;
            if (m.items[j].x < e) dlo += m.items[j].d;
        }
        VH_CHECK(cum >= lo && cum <= hi, "%llu values below %.17g, not %llu..%llu", (unsigned long long)cum, e, (unsigned long long)lo, (unsigned long long)hi);
        if (m.accum() && lo == hi) VH_CHECK(std::fabs(dcum - dlo) <= 1e-9 * (1 + mag), "sum below %g is %g, not %g", e, dcum, dlo);
    }
    if (m.accum()) {
        for (unsigned k = 0; k < n; ++k) sum += val(m, k);
        VH_CHECK(std::fabs(sum - dsum) <= 1e-9 * (1 + mag), "the sums add up to %g, not %g", sum, dsum);
    }
    // the range covers all values if it may change
    if (m.scal || m.grow) for (size_t k = 0; k < m.items.size(); ++k) {
        double x = m.items[k].x, eps = m.exact ? 0 : 1e-9 * (std::fabs(x) + std::fabs(h.low()) + std::fabs(h.high()));
        if (m.log()) eps = 1e-9 * x;
        VH_CHECK(x >= h.low() - eps && (x < h.high() || x <= h.high() + eps && eps), "%.17g outside %.17g..%.17g", x, h.low(), h.high());
    }
    // most popular bin
    uint64_t best = 0;
    for (unsigned k = 0; k < n; ++k) best = std::max<uint64_t>(best, h[k]);
    double mode = h.mode();
    bool found = false;
    for (unsigned k = 0; k < n; ++k) if (h[k] == best && std::fabs(h.bincenter(k) - mode) <= 1e-12 * (std::fabs(mode) + h.binWidth(k))) found = true;
    VH_CHECK(found, "mode %g is not the centre of a fullest bin", mode);
    // percentiles
    if (m.hi > m.lo && !m.items.empty()) for (int q = 1; q <= 10; ++q) {
        double p = q / 10.0, want = p * m.items.size(), got = h.percentile(p);
        uint64_t c = 0;
        unsigned k = 0;
        for (; k < n; ++k) { if (c + h[k] >= want - 1e-6 * (1 + want)) break; c += h[k]; }
        double f = h[k] ? (want - c) / h[k] : 0, e = m.log() ? h.low() * std::pow(h.high() / h.low(), (k + f) / n) : h.binlow(k) + f * h.binWidth(k);
        VH_CHECK(k < n && std::fabs(got - e) <= 1e-6 * (std::fabs(e) + h.binWidth(k)), "percentile(%g) %.17g, not %.17g", p, got, e);
    }
    VH_CHECK(refused([&] { h[n]; }) && refused([&] { h[n + 1000000]; }), "a bin past the last");
    if (m.accum()) VH_CHECK(refused([&] { val(m, n); }), "a sum past the last");
}

static Model make(vh::Rng &r, int kind, bool plain) {
    Model m;
    m.kind = (Kind)kind;
    m.exact = !m.log() && r.chance(60);
    m.n = 1 + r.below(r.chance(70) ? 12 : 60);
    m.scal = !plain && m.kind != LA && r.chance(60);
    m.grow = !plain && !m.log() && !m.scal && r.chance(70);
    if (m.log()) {
        m.lo = std::exp(r.unit() * 20 - 10);
        m.hi = m.lo * std::exp(r.unit() * 10 + .1);
        if (!m.scal && r.chance(5)) m.hi = m.lo;
    } else if (m.exact) {
        m.lo = (double)(int)r.below(200) - 100;
        m.hi = m.lo + 2 * ((m.n + 1) / 2) * std::ldexp(1, (int)r.below(8) - 4);
    } else {
        m.lo = r.unit() * std::pow(10, (int)r.below(9) - 4) - (r.chance(50) ? 10 : 0);
        m.hi = m.lo + (r.unit() + .001) * std::pow(10, (int)r.below(6) - 3);
        if (!m.scal && !m.grow && r.chance(3)) m.hi = m.lo;
        if (r.chance(20)) { m.lo = 0; m.hi = r.unit() + .1; }
    }
    vh::logf("kind %d bins %u range %.17g..%.17g scalable %d growable %d\n", kind, m.n, m.lo, m.hi, m.scal, m.grow);
    switch (m.kind) {
    case U: m.h = new StatsHistogramUniform(m.n, m.lo, m.hi, m.scal, m.grow); break;
    case L: m.h = new StatsHistogramLog(m.n, m.lo, m.hi, m.scal); break;
    case UA: m.h = new StatsHistogramUniformAccum(m.n, m.lo, m.hi, m.scal, m.grow); break;
    case LA: m.h = new StatsHistogramLogAccum(m.n, m.lo, m.hi); break;
    }
    return m;
}

static double pick(const Model &m, vh::Rng &r) {
    double lo = m.h->low(), hi = m.h->high(), w = hi - lo;
    unsigned n = m.h->numBins();
    if (m.log()) {
        switch (r.below(8)) {
        case 0: return m.h->binlow(r.below(n));
        case 1: return m.scal && (hi / lo > 1e20 || hi > 1e60) ? lo : hi * (1 + r.unit() * 5);
        case 2: return m.scal && (hi / lo > 1e20 || lo < 1e-60) ? lo : lo / (1 + r.unit() * 5);
        case 3: return m.scal ? lo : r.chance(50) ? 1e300 : 1e-300;
        case 4: return r.chance(50) || m.scal ? std::nextafter(hi, 0.) : hi;
        default: return lo * std::pow(hi / lo, r.unit());
        }
    }
    double q = m.exact ? std::ldexp(1, -6) : 0;
    double x;
    switch (r.below(9)) {
    case 0: x = lo + (double)r.below(n) * (m.h->binWidth(0)); break;
    case 1: x = hi + w * r.unit() * (r.chance(20) ? 20 : 1); break;
    case 2: x = lo - w * r.unit() * (r.chance(20) ? 20 : 1); break;
    case 3: x = r.chance(50) ? hi : lo; break;
    case 4: if (m.exact && (m.scal || m.grow)) { x = hi; break; }
        return r.chance(50) ? std::nextafter(hi, lo) : std::nextafter(lo, r.chance(50) ? hi : lo - 1);
    case 5: x = m.scal || m.grow ? lo + w * r.unit() : r.chance(50) ? 1e300 : -1e300; break;
    default: x = lo + w * r.unit();
    }
    if (n > 3000 || w > 1e9) x = lo + w * r.unit();
    return q && std::fabs(x) < 1e9 ? std::floor(x / q) * q : x;
}

static bool exact(const Model &m) { return m.exact; }

static void history(vh::Rng &r, int kind, bool plain) {
    Model m = make(r, kind, plain);
    unsigned ops = r.below(40), rescales = 0, grows = 0;
    for (unsigned k = 0; k < ops; ++k) {
        unsigned op = r.below(20);
        if (op == 0) {
            vh::logf("reset\n");
            m.h->reset();
            m.items.clear();
            rescales = grows = 0;
        } else if (op == 1) {
            Stats *a = m.h->another_new();
            StatsHistogram *b = dynamic_cast<StatsHistogram *>(a);
            VH_CHECK(b && b->countll() == 0 && b->numBins() == m.h->numBins() + (m.h->numBins() & 1) && b->low() == m.h->low() && b->high() == m.h->high() && b->getType() == m.h->getType()
                     && b->isScalable() == m.h->isScalable() && b->isGrowable() == m.h->isGrowable(), "another_new differs");
            delete a;
        } else if (op == 2) {
            std::ostringstream o;
            m.h->printRome(2, o); m.h->printTabular(0, o); m.h->printHistogramRandomInput(o);
            std::string t = "bins " + std::to_string(m.h->numBins());
            VH_CHECK(o.str().find(t) != std::string::npos && m.h->debugString().size() > 0, "printed without the number of bins");
        } else if (op == 3 && m.kind == L) {
            VH_CHECK(refused([&] { m.h->add(r.chance(50) ? 0. : -1.); }), "a value of the logarithmic histogram that is not positive");
        } else if (op == 3 && m.kind == U) {
            VH_CHECK(refused([&] { m.h->add(m.lo, m.lo + 1); }), "another data value");
        } else if (op == 4 && (m.scal || m.grow) && m.kind != L) {
            VH_CHECK(refused([&] { m.h->add(r.chance(50) ? INFINITY : -INFINITY); }), "an infinite value");
        } else if (op == 4 && m.grow) {
            VH_CHECK(refused([&] { m.h->add((r.chance(50) ? 1e300 : -1e300)); }), "more bins than can be counted");
        } else {
            Item it;
            it.x = it.d = pick(m, r);
            if (m.log() && !(it.x > 0)) continue;
            bool out = it.x < m.h->low() || it.x >= m.h->high();
            unsigned rs = m.h->numRescales(), gs = m.h->numGrows(), n = m.h->numBins();
            double lo = m.h->low(), hi = m.h->high();
            if (m.accum() && r.chance(60)) {
                it.d = (double)r.below(1000);
                vh::logf("add %.17g %g\n", it.x, it.d);
                m.h->add(it.x, it.d);
            } else {
                vh::logf("add %.17g\n", it.x);
                if (r.chance(70)) m.h->add(it.x); else m.h->add(it.x, it.x);
            }
            m.items.push_back(it);
            if (std::fabs(it.d) > 1e200) { for (size_t j = 0; j < m.items.size(); ++j) m.items[j].d = NAN; }
            VH_CHECK(m.h->numRescales() == rs + (m.scal && out) && m.h->numGrows() == gs + (m.grow && out), "rescales %u -> %u, grows %u -> %u", rs, m.h->numRescales(), gs, m.h->numGrows());
            if (m.grow && out) VH_CHECK(m.h->numBins() >= 2 * n && (it.x < lo ? m.h->high() == hi : m.h->low() == lo), "grew to %u bins", m.h->numBins());
            if (out) vh::nontrivial();
            if (it.d != it.d || m.items.back().d != m.items.back().d) { // sums lose small values next to these: start over
                uint64_t c = 0;
                for (unsigned j = 0; j < m.h->numBins(); ++j) c += (*m.h)[j];
                VH_CHECK(c == m.items.size(), "%llu values in bins", (unsigned long long)c);
                unsigned end = it.x > 1 ? m.h->numBins() - 1 : 0;
                VH_CHECK((*m.h)[end] > 0, "a far value is not in the end bin");
                m.h->reset(); m.items.clear();
            }
        }
        if (r.chance(30)) check(m);
    }
    check(m);
    delete m.h;
}

static void group(vh::Rng &r) {
    unsigned n = 1 + r.below(5);
    std::vector<double> ranges;
    double x = 1 + r.below(10);
    for (unsigned k = 0; k <= n; ++k) { ranges.push_back(x); x += 1 + r.below(20); }
    std::vector<StatsHistogram::HistMode> modes;
    std::vector<int> buckets;
    StatsHistogram::HistMode one = (StatsHistogram::HistMode)r.below(4);
    bool same = r.chance(40);
    int b = 1 + r.below(9);
    for (unsigned k = 0; k < n; ++k) { modes.push_back(same ? one : (StatsHistogram::HistMode)r.below(4)); buckets.push_back(same ? b : 1 + r.below(9)); }
    StatsHistogramGroup *g = same ? new StatsHistogramGroup(one, b, ranges) : new StatsHistogramGroup(modes, buckets, ranges);
    vh::logf("group of %u, same %d\n", n, same);
    std::vector<Items> in(n);
    Items low, high;
    unsigned ops = r.below(60), all = 0;
    for (unsigned k = 0; k < ops; ++k) {
        if (r.chance(3)) { g->reset(); for (unsigned j = 0; j < n; ++j) in[j].clear(); low.clear(); high.clear(); all = 0; vh::logf("reset\n"); continue; }
        Item it;
        it.x = r.chance(30) ? ranges[r.below(n + 1)] : r.unit() * (ranges[n] + 5);
        if (r.chance(10)) it.x = -3;
        it.d = it.x;
        unsigned at = std::upper_bound(ranges.begin(), ranges.end(), it.x) - ranges.begin();
        bool accum = at > 0 && at <= n && modes[at - 1] >= StatsHistogram::UniformAccum;
        vh::logf("add %.17g\n", it.x);
        if ((accum || at == 0 || at > n) && r.chance(50)) { it.d = r.below(100); g->add(it.x, it.d); }
        else g->add(it.x);
        (at == 0 ? low : at > n ? high : in[at - 1]).push_back(it);
        ++all;
    }
    VH_CHECK(g->countll() == all, "%llu of %u values", (unsigned long long)g->countll(), all);
    double sum = 0, s1 = 0;
    for (size_t j = 0; j < low.size(); ++j) s1 += low[j].d;
    sum += s1;
    VH_CHECK(g->getLow().countll() == low.size() && (low.empty() || std::fabs(g->getLow().total() - s1) < 1e-6), "low");
    s1 = 0;
    for (size_t j = 0; j < high.size(); ++j) s1 += high[j].d;
    sum += s1;
    VH_CHECK(g->getHigh().countll() == high.size() && (high.empty() || std::fabs(g->getHigh().total() - s1) < 1e-6), "high");
    for (unsigned k = 0; k < n; ++k) {
        Model m;
        m.h = const_cast<StatsHistogram *>(&g->getHistogram(k));
        m.kind = (Kind)modes[k]; m.scal = m.grow = m.exact = false;
        m.lo = ranges[k]; m.hi = ranges[k + 1]; m.n = buckets[k]; m.items = in[k];
        for (size_t j = 0; j < in[k].size(); ++j) sum += in[k][j].d;
        check(m);
    }
    VH_CHECK(all == 0 || std::fabs(g->total() - sum) < 1e-6 * (1 + std::fabs(sum)), "total %g, not %g", g->total(), sum);
    VH_CHECK(refused([&] { g->getHistogram(n); }), "a histogram past the last");
    std::ostringstream o;
    g->printRome(0, o);
    delete g;
}

static void one(uint64_t c, vh::Rng &r) {
    if (c == 0) {
        VH_CHECK(refused([] { delete new StatsHistogramUniform(4, 2, 1); }), "high below low");
        VH_CHECK(refused([] { delete new StatsHistogramUniform(0, 0, 1); }), "no bins");
        VH_CHECK(refused([] { delete new StatsHistogramUniform(4, 0, 1, true, true); }), "both scalable and growable");
        VH_CHECK(refused([] { delete new StatsHistogramUniform(4, 1, 1, true); }) && refused([] { delete new StatsHistogramUniform(4, 1, 1, false, true); }), "an empty range that scales or grows");
        VH_CHECK(refused([] { delete new StatsHistogramLog(0, 1, 2); }), "no bins");
        VH_CHECK(refused([] { delete new StatsHistogramLog(4, 0, 2); }), "low 0");
        VH_CHECK(refused([] { delete new StatsHistogramLog(4, 3, 2); }), "high below low");
        VH_CHECK(refused([] { delete new StatsHistogramLog(4, 3, 3, true); }), "an empty range that scales");
        VH_CHECK(refused([] { StatsHistogramLog h(4, 1, 3, true); h.add(INFINITY); }), "infinite value");
        return;
    }
    if (c == 1) {          // just below the upper end, for many ranges
        for (unsigned n = 2; n < 120; n += 2) for (unsigned k = 1; k < 60; ++k) {
            double hi = k / 10.0, lo = k % 3 ? 0 : k / -7.0;
            StatsHistogramUniform u(n, lo, hi);
            StatsHistogramUniformAccum a(n, lo, hi);
            double x = std::nextafter(hi, lo);
            u.add(x); a.add(x, 5);
            VH_CHECK(u[n - 1] == 1 && a[n - 1] == 1 && a.value(n - 1) == 5, "%u bins up to %g: %.17g is not in the last", n, hi, x);
        }
        vh::nontrivial();
        return;
    }
    unsigned k = r.below(10);
    if (k < 8) history(r, k % 4, r.chance(30));
    else group(r);
    vh::nontrivial();
}
VH_MAIN(one, 2)

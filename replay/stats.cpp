// P11: the statistics accumulators against the list of the values they were given.
#include "vh.hpp"
#include <cmath>
#include <cfloat>
#include <algorithm>
#include <memory>
#include <sstream>
#include <vector>
#include <sanitizer/lsan_interface.h>
#include <Lintel/AssertBoost.hpp>
#include <Lintel/Stats.hpp>
#include <Lintel/StatsSequence.hpp>
#include <Lintel/StatsSeries.hpp>
#include <Lintel/StatsEMA.hpp>

using namespace std;

static bool near(double a, double b, double scale) {
    if (a == b) return true;
    return fabs(a - b) <= 1e-9 * (fabs(scale) + fabs(a) + fabs(b));
}

template <class F> static bool refused(F f) {
    AssertBoostClearFns();
    AssertBoostFnBefore(AssertBoostThrowExceptionFn);
    bool r = false;
    __lsan_disable();
    try {
        f();
    } catch (AssertBoostException &) {
        r = true;
    }
    __lsan_enable();
    AssertBoostClearFns();
    return r;
}

// values for which sums and products are exact, or arbitrary ones
static double value(vh::Rng &r, int kind) {
    switch (kind) {
    case 0: return (double)(int64_t)r.range(0, 200) - 100;
    case 1: return -(double)r.range(1, 1000);
    case 2: return (double)r.range(0, 3);
    case 3: return ((double)r.range(0, 2000) - 1000) / 16;
    case 4: return (r.unit() - 0.5) * pow(10.0, (double)r.range(0, 12) - 6);
    default: return r.chance(50) ? 7.5 : (double)r.range(0, 5) - 2;
    }
}

struct Model {
    vector<double> v;
    double sum() const { long double s = 0; for (double x : v) s += x; return s; }
    double sumsq() const { long double s = 0; for (double x : v) s += (long double)x * x; return s; }
    double mean() const { return v.empty() ? 0 : sum() / v.size(); }
    double scale() const { double m = 0; for (double x : v) m = max(m, fabs(x)); return m; }
};

static void check(const char *what, const Stats &s, const Model &m) {
    size_t n = m.v.size();
    VH_CHECK(s.count() == n && s.countll() == n, "%s: count %llu after %zu values", what, s.countll(), n);
    double sc = m.scale();
    VH_CHECK(near(s.total(), m.sum(), sc * n), "%s: total %.17g of values that sum to %.17g", what, s.total(), m.sum());
    VH_CHECK(near(s.total_sq(), m.sumsq(), sc * sc * n), "%s: total of squares %.17g, expected %.17g", what, s.total_sq(), m.sumsq());
    VH_CHECK(near(s.mean(), m.mean(), sc), "%s: mean %.17g, expected %.17g", what, s.mean(), m.mean());
    double mn = HUGE_VAL, mx = -HUGE_VAL;
    for (double x : m.v) { mn = min(mn, x); mx = max(mx, x); }
    VH_CHECK(s.min() == mn, "%s: min %.17g, expected %.17g", what, s.min(), mn);
    VH_CHECK(s.max() == mx, "%s: max %.17g, expected %.17g", what, s.max(), mx);
    long double var = 0, mean = n ? (long double)0 : 0;
    for (double x : m.v) mean += x;
    if (n) mean /= n;
    for (double x : m.v) var += (x - mean) * (x - mean);
    if (n) var /= n;
    VH_CHECK(near(s.variance(), var, sc * sc), "%s: variance %.17g, expected %.17Lg", what, s.variance(), var);
    double sd = s.variance() <= 0 ? 0 : sqrt(s.variance());
    VH_CHECK(near(s.stddev(), sd, 0), "%s: stddev %.17g, expected %.17g", what, s.stddev(), sd);
    if (n == 0) {
        VH_CHECK(s.conf95() == DBL_MAX, "%s: confidence interval %.17g of nothing", what, s.conf95());
    } else {
        VH_CHECK(near(s.conf95(), 1.96 * sd / sqrt((double)n), 0), "%s: conf95 %.17g, expected %.17g", what, s.conf95(), 1.96 * sd / sqrt((double)n));
        double want = s.conf95() / s.mean();
        VH_CHECK((std::isnan(want) && std::isnan(s.relconf95())) || near(s.relconf95(), want, 0), "%s: relconf95 %.17g, expected %.17g", what, s.relconf95(), want);
        char buf[300];
        snprintf(buf, sizeof buf, "count=%zu, mean=%.8g, stddev=%.8g, min=%.8g, max=%.8g\n", n, s.mean(), s.stddev(), s.min(), s.max());
        ostringstream o;
        s.Stats::printText(o);
        VH_CHECK(o.str() == buf, "%s: text %s expected %s", what, vh::show(o.str()).c_str(), vh::show(buf).c_str());
    }
    ostringstream r;
    s.Stats::printRome(1, r);
    ostringstream w;
    w << " { count " << n << " }\n";
    if (n) w << " { min " << s.min() << " }\n { max " << s.max() << " }\n { mean " << s.mean() << " }\n { stddev " << s.stddev() << " }\n { variance " << s.variance()
             << " }\n { conf95 " << s.conf95() << " }\n { total " << s.total() << " }\n { total_sq " << s.total_sq() << " }\n";
    VH_CHECK(r.str() == w.str(), "%s: Rome text %s expected %s", what, vh::show(r.str()).c_str(), vh::show(w.str()).c_str());
}

static void plain(vh::Rng &r) {
    Stats a, b;
    Model ma, mb;
    int kind = r.below(6);
    unsigned ops = r.range(0, 40);
    check("new Stats", a, ma);
    for (unsigned i = 0; i < ops; ++i) {
        double v = value(r, kind);
        switch (r.below(10)) {
        case 0: case 1: case 2: case 3:
            vh::logf("a.add(%.17g)\n", v);
            a.add(v); ma.v.push_back(v);
            break;
        case 4: case 5:
            vh::logf("b.add(%.17g)\n", v);
            b.add(v); mb.v.push_back(v);
            break;
        case 6:
            vh::logf("a.addTimeSeq(%.17g)\n", v);
            a.addTimeSeq(v, 12.5); ma.v.push_back(v);
            break;
        case 7:
            vh::logf("a.add(b)\n");
            a.add(b);
            ma.v.insert(ma.v.end(), mb.v.begin(), mb.v.end());
            vh::nontrivial();
            break;
        case 8:
            if (ma.v.size() < 2000) {
                vh::logf("a.add(a)\n");
                a.add(a);
                vector<double> c(ma.v);
                ma.v.insert(ma.v.end(), c.begin(), c.end());
            }
            break;
        case 9:
            if (r.chance(30)) {
                unsigned was = b.resets();
                vh::logf("b.reset()\n");
                b.reset(); mb.v.clear();
                VH_CHECK(b.resets() == was + 1, "resets() %u after one more than %u", b.resets(), was);
            }
            break;
        }
        check("a", a, ma);
        check("b", b, mb);
    }
    unique_ptr<Stats> n(a.another_new());
    check("another_new", *n, Model());
    Stats copy(a);
    check("copy", copy, ma);
}

static double merged(const vector<double> &v, size_t lo, size_t hi, int mode) {
    long double s = 0;
    double mx = -HUGE_VAL;
    for (size_t i = lo; i < hi; ++i) { s += v[i]; mx = max(mx, v[i]); }
    return mode == 0 ? (double)s : mode == 1 ? (double)(s / (hi - lo)) : mx;
}

static void sequence(vh::Rng &r) {
    static const StatsSequence::mode modes[] = { StatsSequence::MergeSum, StatsSequence::MergeMean, StatsSequence::MergeMax };
    int mode = r.below(3);
    unsigned retain = 2 * r.range(1, r.chance(20) ? 40 : 6);
    vh::logf("StatsSequence(%u, mode %d)\n", retain, mode);
    StatsSequence s(retain, r.chance(50) ? modes[mode] : modes[0]);
    s.setMergeMode(modes[mode]);
    s.setIntervalWidth(0.25);
    if (r.chance(10)) {
        VH_CHECK(refused([] { StatsSequence t(3); }), "an odd number of values to retain is accepted");
        VH_CHECK(refused([] { StatsSequence t(0); }), "zero values to retain is accepted");
        VH_CHECK(refused([&] { Stats o; s.add(o); }), "merging into a sequence is accepted");
    }
    Model m;
    int kind = r.below(6);
    size_t p = 1, n = 0, open = 0;
    unsigned adds = r.range(0, r.chance(10) ? 3000 : 80);
    for (unsigned i = 0; i <= adds; ++i) {
        VH_CHECK(s.maxSeqNum() == n, "%u buckets after %zu values, expected %zu", s.maxSeqNum(), m.v.size(), n);
        VH_CHECK(s.getPointsPerBucket() == (int)p, "%d values per bucket after %zu values, expected %zu", s.getPointsPerBucket(), m.v.size(), p);
        double sc = m.scale() * p;
        if (i < 200 || i == adds || r.chance(2))
            for (size_t k = 0; k < n; ++k)
                VH_CHECK(near(s.get(k), merged(m.v, k * p, (k + 1) * p, mode), sc), "bucket %zu of %zu (of %zu values, %zu each, mode %d) is %.17g, expected %.17g",
                         k, n, m.v.size(), p, mode, s.get(k), merged(m.v, k * p, (k + 1) * p, mode));
        if (i == adds) break;
        double v = value(r, kind);
        vh::logf("add(%.17g)\n", v);
        if (r.chance(20)) s.addTimeSeq(v, 3); else s.add(v);
        m.v.push_back(v);
        if (n == retain) { n /= 2; p *= 2; vh::nontrivial(); }
        if (++open == p) { ++n; open = 0; }
        if (r.chance(1)) {
            vh::logf("reset()\n");
            s.reset(); m.v.clear(); n = 0; p = 1; open = 0;
        }
    }
    check("StatsSequence", s, m);
    VH_CHECK(refused([&] { s.get(n); }), "bucket %zu of %zu is accepted", n, n);
    if (n) {
        VH_CHECK(refused([&] { s.setMergeMode(modes[0]); }), "the merge mode changes after a value");
        VH_CHECK(refused([&] { s.setIntervalWidth(1); }), "the interval width changes after a value");
    }
    // the open bucket is printed after the closed ones
    ostringstream o, w;
    s.printRome(0, o);
    s.Stats::printRome(0, w);
    int doublings = 0;
    for (size_t q = 1; q < p; q *= 2) ++doublings;
    w << "{ sequence {\n  { intervalWidth " << 0.25 * p << " }\n  { numRescales " << doublings << " }\n  { values (";
    for (size_t k = 0; k < n; ++k) w << s.get(k) << " ";
    string head = w.str();
    VH_CHECK(o.str().compare(0, head.size(), head) == 0, "Rome text %s does not start with %s", vh::show(o.str()).c_str(), vh::show(head).c_str());
    string rest = o.str().substr(head.size());
    if (open) {
        double last = strtod(rest.c_str(), 0), want = merged(m.v, n * p, n * p + open, mode);
        if (mode == 1) want = want * open / p;
        VH_CHECK(fabs(last - want) <= 1e-5 * (fabs(want) + m.scale()), "open bucket printed as %.9g, expected %.9g", last, want);
    } else VH_CHECK(rest.compare(0, 1, ")") == 0, "text after the last bucket: %s", vh::show(rest).c_str());
}

static void series(vh::Rng &r) {
    unsigned lags = r.range(1, r.chance(20) ? 30 : 6);
    vh::logf("StatsSeries(%u)\n", lags);
    StatsSeries s(lags);
    VH_CHECK(s.maxlag() == lags, "maxlag %u of %u", s.maxlag(), lags);
    Model m;
    int kind = r.below(6);
    unsigned adds = r.range(0, 60);
    for (unsigned i = 0; i <= adds; ++i) {
        size_t n = m.v.size();
        double mean = m.mean(), sc = m.scale();
        double c0 = 0;
        for (unsigned lag = 0; lag <= lags; ++lag) {
            long double c = 0;
            for (size_t t = 0; t + lag < n; ++t) c += ((long double)m.v[t] - mean) * (m.v[t + lag] - mean);
            if (n) c /= n;
            if (!lag) c0 = c;
            VH_CHECK(near(s.autocovariance(lag), c, sc * sc), "autocovariance(%u) of %zu values is %.17g, expected %.17Lg", lag, n, s.autocovariance(lag), c);
            if (lag < n) vh::nontrivial();
            if (c0 > 1e-6 * sc * sc) {
                double ac = s.autocorrelation(lag);
                VH_CHECK(fabs(ac - c / c0) <= 1e-6, "autocorrelation(%u) of %zu values is %.17g, expected %.17Lg", lag, n, ac, c / c0);
                double z = n > 3 ? (sqrt(n - 3.0) / 2) * log((1 + ac) / (1 - ac)) : 0;
                if (n <= 3 || fabs(z - 1.96) > 1e-6)
                    VH_CHECK(s.iscorrelated95(lag) == (n > 3 && z >= 1.96), "iscorrelated95(%u) of %zu values with autocorrelation %.9g", lag, n, ac);
            } else if (n <= 3) VH_CHECK(!s.iscorrelated95(lag), "%zu values are correlated", n);
        }
        if (i == adds) break;
        double v = value(r, kind);
        vh::logf("add(%.17g)\n", v);
        s.add(v);
        m.v.push_back(v);
        if (r.chance(2)) {
            vh::logf("reset()\n");
            s.reset(); m.v.clear();
        }
    }
    check("StatsSeries", s, m);
    VH_CHECK(refused([&] { s.autocovariance(lags + 1); }), "a lag beyond the maximum is accepted");
    VH_CHECK(refused([&] { Stats o; s.add(o); }), "merging into a series is accepted");
    unique_ptr<Stats> n(s.another_new());
    VH_CHECK(dynamic_cast<StatsSeries *>(n.get()) && dynamic_cast<StatsSeries *>(n.get())->maxlag() == lags, "another_new is not such a series");
}

static void ema(vh::Rng &r) {
    vector<double> rates, val;
    vector<bool> low;
    unsigned k = r.range(1, 4);
    for (unsigned i = 0; i < k; ++i) {
        rates.push_back(r.chance(30) ? 1.0 / (double)(1 << r.range(1, 5)) : 0.001 + 0.99 * r.unit());
        vh::logf("decay rate %.17g\n", rates.back());
    }
    val.resize(k); low.assign(k, true);
    unique_ptr<StatsEMA> p(k == 1 && r.chance(50) ? new StatsEMA(rates[0]) : new StatsEMA(rates));
    StatsEMA &s = *p;
    Model m;
    int kind = r.below(6);
    unsigned adds = r.range(1, 80);
    for (unsigned i = 0; i < adds; ++i) {
        double v = value(r, kind);
        vh::logf("add(%.17g)\n", v);
        s.add(v);
        m.v.push_back(v);
        double mn = HUGE_VAL, mx = -HUGE_VAL, sc = m.scale();
        for (unsigned j = 0; j < k; ++j) {
            if ((double)m.v.size() > 1 / rates[j]) {
                val[j] = (1 - rates[j]) * val[j] + rates[j] * v;
                vh::nontrivial();
            } else val[j] = m.mean();
            VH_CHECK(near(s.getEMA(j), val[j], sc), "moving average %u (rate %.17g) of %zu values is %.17g, expected %.17g", j, rates[j], m.v.size(), s.getEMA(j), val[j]);
            mn = min(mn, s.getEMA(j)); mx = max(mx, s.getEMA(j));
        }
        VH_CHECK(s.minEMA() == mn && s.maxEMA() == mx, "least and greatest moving average %.17g %.17g, expected %.17g %.17g", s.minEMA(), s.maxEMA(), mn, mx);
    }
    check("StatsEMA", s, m);
    VH_CHECK(refused([&] { s.getEMA(k); }), "moving average %u of %u is accepted", k, k);
    VH_CHECK(refused([] { StatsEMA t(0.0); }) && refused([] { StatsEMA t(1.0); }) && refused([] { StatsEMA t(vector<double>{}); }), "an invalid decay rate is accepted");
}

static void one(uint64_t c, vh::Rng &r) {
    switch (c % 4) {
    case 0: plain(r); break;
    case 1: sequence(r); break;
    case 2: series(r); break;
    case 3: ema(r); break;
    }
}
VH_MAIN(one, 400)

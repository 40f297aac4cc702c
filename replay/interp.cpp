// Replays P18 against the real code: interpolation search against std::lower_bound.
#include "vh.hpp"
#include <limits>
#include <algorithm>
#include <vector>
#include <boost/format.hpp>
#include <Lintel/unstable/InterpolationSearch.hpp>

template<typename T> static std::vector<T> values(vh::Rng &r, size_t n) {
    typedef std::numeric_limits<T> L;
    std::vector<T> v(n);
    int shape = r.below(6);
    uint64_t span = shape == 1 ? 1 + r.below(8) : shape == 2 ? 1 + r.below(2 * n + 2) : 0;
    for (size_t i = 0; i < n; ++i) {
        uint64_t x = r.next();
        switch (shape) {
        case 0: v[i] = (T)x; break;                                            // the whole range
        case 1: case 2: v[i] = (T)(r.chance(2) ? x : x % span); break;         // few or dense values, some far away
        case 3: v[i] = (T)(x >> r.below(64)); break;                           // skewed towards 0
        case 4: v[i] = r.chance(50) ? (T)(L::max() - (T)(x % 50)) : (T)(L::min() + (T)(x % 50)); break;   // both ends
        default: v[i] = (T)(i * (1 + x % 3)); break;
        }
    }
    std::sort(v.begin(), v.end());
    return v;
}

// an estimator that keeps to its contract, but estimates anything
struct Wild {
    vh::Rng *r;
    template<typename T> size_t operator()(const T &v, const T &first, const T &last, size_t last_pos) const {
        VH_CHECK(first < v && v <= last, "the estimator is asked about a value that is not in ]first, last]");
        int k = r->below(4);
        return k == 0 ? 0 : k == 1 ? last_pos : r->below(last_pos + 1);
    }
};

template<typename T> struct Wrap {         // any random access iterator, any value that the order is defined for
    T key; int other;
};
struct ByKey { template<typename T> bool operator()(const Wrap<T> &a, const Wrap<T> &b) const { return a.key < b.key; } };
struct Half { template<typename T> size_t operator()(const Wrap<T> &, const Wrap<T> &, const Wrap<T> &, size_t p) const { return p / 2; } };

template<typename T> static void run(const char *name, vh::Rng &r) {
    typedef std::numeric_limits<T> L;
    size_t n = r.chance(25) ? r.below(6) : r.chance(50) ? r.below(300) : r.chance(60) ? 250 + r.below(1500) : 1000 + r.below(9000);
    std::vector<T> all = values<T>(r, n);
    T *v = new T[n];                        // exactly as long as the values, so that a read beside them shows
    std::copy(all.begin(), all.end(), v);
    int probes = 60;
    for (int i = 0; i < probes; ++i) {
        T x;
        int k = r.below(5);
        if (k == 0 || n == 0) x = (T)r.next();
        else if (k == 1) x = r.chance(50) ? L::max() : L::min();
        else if (k == 2) x = v[r.chance(20) ? n - 1 : r.chance(20) ? 0 : r.below(n)];
        else if (k == 3) { size_t j = r.below(n); x = v[j] == L::max() ? v[j] : (T)(v[j] + 1); }
        else { size_t j = r.below(n); x = v[j] == L::min() ? v[j] : (T)(v[j] - 1); }
        size_t want = std::lower_bound(all.begin(), all.end(), x) - all.begin();
        size_t got = lintel::interpolationLowerBound(v, v + n, x) - v;
        if (want > 0 && want < n) vh::nontrivial();
        if (got != want) {
            vh::logf("%s: %zu values %s..%s, value %s: lower bound at %zu, interpolationLowerBound at %zu\n", name, n, n ? std::to_string(v[0]).c_str() : "",
                     n ? std::to_string(v[n - 1]).c_str() : "", std::to_string(x).c_str(), want, got);
            VH_CHECK(false, "the result is not the lower bound");
        }
        Wild w; w.r = &r;
        const T &cx = x;
        got = lintel::detail::interpolationLowerBound<2, 4, 256>(v, v + n, cx, w, lintel::Compare<T>()) - v;
        VH_CHECK(got == want, "the result depends on the estimates");
        got = lintel::detail::interpolationLowerBound<3, 1, 2>(v, v + n, cx, w, lintel::Compare<T>()) - v;
        VH_CHECK(got == want, "the result depends on the estimates or steps");
        got = lintel::detail::interpolationLowerBound<1, 3, 0>(v, v + n, cx, w, lintel::Compare<T>()) - v;
        VH_CHECK(got == want, "the result depends on the estimates or steps");
        got = lintel::detail::interpolationLowerBound<0, 2, 1>(v, v + n, cx, w, lintel::Compare<T>()) - v;
        VH_CHECK(got == want, "the result depends on the estimates or steps");
        if (want > 0 && want < n && v[0] < x) {
            size_t p = lintel::EstimateOffset<T>()(x, v[0], v[n - 1], n - 1);
            VH_CHECK(p <= n - 1, "an estimate beyond the last position");
            p = lintel::EstimateOffset<T>()(v[n - 1], v[0], v[n - 1], n - 1);
            VH_CHECK(p <= n - 1, "an estimate beyond the last position");
            size_t far = r.next() >> (11 + r.below(53));
            VH_CHECK(lintel::EstimateOffset<T>()(x, v[0], v[n - 1], far) <= far, "an estimate beyond the last position");
        }
        std::vector<T> const &c = all;
        VH_CHECK((size_t)(lintel::interpolationLowerBound(c.begin(), c.end(), x) - c.begin()) == want, "the result differs for a vector's iterators");
    }
    std::vector<Wrap<T> > ws(n);
    for (size_t i = 0; i < n; ++i) { ws[i].key = v[i]; ws[i].other = i; }
    for (int i = 0; i < 5 && n; ++i) {
        Wrap<T> x; x.key = r.chance(50) ? v[r.below(n)] : (T)r.next(); x.other = -1;
        size_t want = std::lower_bound(all.begin(), all.end(), x.key) - all.begin();
        size_t got = lintel::detail::interpolationLowerBound<2, 4, 16>(ws.begin(), ws.end(), x, Half(), ByKey()) - ws.begin();
        VH_CHECK(got == want, "the result differs for records");
    }
    delete[] v;
}

static void one(uint64_t c, vh::Rng &r) {
    switch (c % 8) {
    case 0: run<int64_t>("int64_t", r); break;
    case 1: run<uint64_t>("uint64_t", r); break;
    case 2: run<int32_t>("int32_t", r); break;
    case 3: run<uint32_t>("uint32_t", r); break;
    case 4: run<int8_t>("int8_t", r); break;
    case 5: run<uint16_t>("uint16_t", r); break;
    case 6: run<int16_t>("int16_t", r); break;
    default: run<uint8_t>("uint8_t", r); break;
    }
}
VH_MAIN(one, 64)

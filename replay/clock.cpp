// Bounded harness: Clock conversions against exact integer arithmetic.
#include "vh.hpp"
#include <math.h>
#include <limits>
#include <Lintel/Clock.hpp>
#include <Lintel/AssertBoost.hpp>
#include <Lintel/AssertException.hpp>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef Clock::Tfrac Tfrac;
extern "C" void __lsan_disable(); extern "C" void __lsan_enable();

static void parts(uint32_t s, uint32_t us, uint32_t ns) {
    vh::logf("s=%u us=%u ns=%u\n", s, us, ns);
    u128 two32 = (u128)1 << 32;
    Tfrac a = Clock::secMicroToTfrac(s, us), b = Clock::secNanoToTfrac(s, ns);
    VH_CHECK(a == ((Tfrac)s << 32) + (Tfrac)((us * two32 + 999999) / 1000000), "secMicroToTfrac(%u,%u)=%llu", s, us, (unsigned long long)a);
    VH_CHECK(b == ((Tfrac)s << 32) + (Tfrac)((ns * two32 + 999999999) / 1000000000), "secNanoToTfrac(%u,%u)=%llu", s, ns, (unsigned long long)b);
    VH_CHECK(Clock::TfracToSec(a) == s && Clock::TfracToMicroSec(a) == us, "s.us round trip of %u.%06u", s, us);
    VH_CHECK(Clock::TfracToSec(b) == s && Clock::TfracToNanoSec(b) == ns, "s.ns round trip of %u.%09u", s, ns);
    VH_CHECK(Clock::TfracToTll(a) == (long long)s * 1000000 + us, "TfracToTll of %u.%06u", s, us);
}
static bool nearest(Tfrac r, double s) {
    // |r - s*2^32| <= 1/2, exactly: s*2^32 is a double whose integer part fits 128 bits
    double sc = ldexp(s, 32);
    i128 whole = (i128)floor(sc);
    double frac = sc - floor(sc);
    i128 d = (i128)r - whole;
    return (d == 0 && frac <= 0.500001) || (d == 1 && frac >= 0.499999);
}
static void tfrac(Tfrac t) {
    vh::logf("tfrac=%llu\n", (unsigned long long)t);
    uint32_t hi = t >> 32, lo = t;
    uint64_t us = ((u128)lo * 1000000) >> 32, ns = ((u128)lo * 1000000000) >> 32;
    VH_CHECK(Clock::TfracToSec(t) == hi, "TfracToSec");
    VH_CHECK(Clock::TfracToMicroSec(t) == us && us < 1000000, "TfracToMicroSec(%llu)", (unsigned long long)t);
    VH_CHECK(Clock::TfracToNanoSec(t) == ns && ns < 1000000000, "TfracToNanoSec(%llu)", (unsigned long long)t);
    VH_CHECK(Clock::TfracToTll(t) == (long long)(hi * 1000000ULL + us), "TfracToTll(%llu)", (unsigned long long)t);
    struct timeval tv = Clock::TfracToStructTimeval(t);
    VH_CHECK((uint64_t)tv.tv_sec == hi && (uint64_t)tv.tv_usec == us, "TfracToStructTimeval(%llu)", (unsigned long long)t);
    double d = Clock::TfracToDouble(t);
    VH_CHECK(fabsl((long double)d - (long double)t / 4294967296.0L) <= ldexpl((long double)t, -32 - 53), "TfracToDouble(%llu)=%.17g", (unsigned long long)t, d);
    int64_t i = (int64_t)t;
    double di = Clock::int64TfracToDouble(i);
    VH_CHECK(fabsl((long double)di - (long double)i / 4294967296.0L) <= ldexpl(fabsl((long double)i), -32 - 53), "int64TfracToDouble(%lld)=%.17g", (long long)i, di);
    if (t < ((Tfrac)1 << 52)) VH_CHECK(Clock::secondsToTfrac(d) == t, "secondsToTfrac(TfracToDouble(%llu))", (unsigned long long)t);
}
static void secs(double s) {
    vh::logf("seconds=%a\n", s);
    bool ok = s >= 0 && s < 4294967295.0;
    bool threw = false;
    Tfrac r = 0;
    __lsan_disable();
    try { r = Clock::secondsToTfrac(s); } catch (AssertBoostException &) { threw = true; }
    __lsan_enable();
    VH_CHECK(threw == !ok, "secondsToTfrac(%a) is %s", s, threw ? "refused" : "accepted");
    if (ok) VH_CHECK(nearest(r, s), "secondsToTfrac(%a)=%llu", s, (unsigned long long)r);
}
static void offset(Tfrac t, double d) {
    vh::logf("tfrac=%llu offset=%a\n", (unsigned long long)t, d);
    Tfrac o = Clock::secondsToTfrac(fabs(d)), r = Clock::TfracOffsetDouble(t, d);
    VH_CHECK(r == (d < 0 ? t - o : t + o), "TfracOffsetDouble(%llu,%a)=%llu", (unsigned long long)t, d, (unsigned long long)r);
    VH_CHECK(nearest(o, fabs(d)), "offset %a", d);
}
static double rndsec(vh::Rng &r) {
    switch (r.below(6)) {
    case 0: return ldexp((double)(r.next() >> 11), -(int)r.below(60) - 21);
    case 1: return (double)(uint32_t)r.next();
    case 2: return nextafter((double)(uint32_t)(r.next() >> r.below(32)), r.chance(50) ? 0 : 1e300);
    case 3: return (double)(uint32_t)(r.next() >> r.below(32)) + ldexp((double)(2 * r.below(1000) + 1), -33 - (int)r.below(12));
    case 4: return (double)(uint32_t)(r.next() >> r.below(32)) + 1 - ldexp((double)(r.below(1000) + 1), -30 - (int)r.below(14));
    default: return r.unit() * 4294967295.0;
    }
}
static void one(uint64_t c, vh::Rng &r) {
    AssertBoostClearFns(); AssertBoostFnBefore(AssertBoostThrowExceptionFn);
    static const double special[] = {0.0, -0.0, 1, 0.5, 4294967294.0, 4294967294.999999, 4294967295.0, 4294967296.0, 1e300, -1, -0.25, -1e-300, 5e-324,
        std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(),
        0.99999999999, 0.9999999998835847, 0.9999999998835846, 1.9999999999999998, 1099511627775.0 / 256};
    if (c < sizeof special / sizeof *special) { secs(special[c]); return; }
    if (c < 60) {
        static const uint64_t e[] = {0, 1, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL,
            0x8000000000000001ULL, ~0ULL, 0xffffffff00000000ULL, 0xfffffffe00000000ULL, 4294, 4295};
        tfrac(e[c % 14]);
        offset(e[c % 14], -2147483648.0); offset(e[c % 14], 2147483648.0); offset(e[c % 14], 4294967294.5);
        return;
    }
    if (c < 2060) {           // every microsecond
        uint32_t k = c - 60;
        for (uint32_t us = k * 500; us < (k + 1) * 500; ++us) parts(us * 2654435761U, us, us * 1000 + us % 1000);
        vh::nontrivial();
        return;
    }
    for (int i = 0; i < 40; ++i) {
        parts((uint32_t)r.next(), r.below(1000000), r.below(1000000000));
        tfrac(r.next() >> r.below(64));
        tfrac(((uint64_t)(uint32_t)r.next() << 32) + (uint32_t)(r.chance(50) ? -(int)r.below(3000) : r.below(3000)));
        secs(rndsec(r));
        double d = rndsec(r);
        if (d < 4294967295.0) offset(r.next(), r.chance(50) ? -d : d);
    }
    // a clock driven through its public state: readings lie on the line from the last calibration
    Clock::allowUnsafeFrequencyScaling(Clock::AUFSO_Yes);
    Clock::clock_rate = 200 + r.unit() * 5000;
    Clock::inverse_clock_rate_tfrac = 1.0 / Clock::clock_rate * (4294967296.0 / 1000000.0);
    Clock::max_recalibrate_measure_time = ~0ULL >> 1;
    Clock k;
    double iv = r.unit() * 0.02;
    bool refused = false;
    __lsan_disable();
    try { k.setRecalibrateIntervalSeconds(iv); } catch (AssertBoostException &) { refused = true; }
    __lsan_enable();
    if (refused) return;
    VH_CHECK(k.recalibrate_interval_cycles < (1u << 31) && k.recalibrate_interval_cycles * Clock::inverse_clock_rate_tfrac < 2147483648.0, "interval");
    Tfrac before = Clock::todTfrac();
    Tfrac t0 = k.todccTfrac();
    Tfrac after = Clock::todTfrac();
    VH_CHECK(before <= t0 && t0 <= after, "first reading %llu outside [%llu,%llu]", (unsigned long long)t0, (unsigned long long)before, (unsigned long long)after);
    VH_CHECK(k.nrecalibrate == 1 && k.last_calibrate_tod_tfrac == t0 && k.last_cc == k.last_recalibrate_cc, "first reading calibrates");
    k.recalibrate_interval_cycles = 1u << 30; // long enough that the next reading extrapolates
    if (k.recalibrate_interval_cycles * Clock::inverse_clock_rate_tfrac >= 4294967295.0) k.recalibrate_interval_cycles = (uint64_t)(4294967295.0 / Clock::inverse_clock_rate_tfrac);
    k.last_recalibrate_cc -= r.below(k.recalibrate_interval_cycles);
    Tfrac prev = 0;
    for (int i = 0; i < 5; ++i) {
        uint64_t was = k.last_cc;
        size_t nr = k.nrecalibrate;
        Tfrac base = k.last_calibrate_tod_tfrac;
        Tfrac x = k.todccTfrac();
        if (k.nrecalibrate != nr) break;
        VH_CHECK(k.last_cc > was, "reading remembered");
        double want = (double)(k.last_cc - k.last_recalibrate_cc) * Clock::inverse_clock_rate_tfrac;
        VH_CHECK(fabs((double)(x - base) - want) <= 1.001, "reading %llu cycles after calibration is %llu Tfrac, not %.3f",
                 (unsigned long long)(k.last_cc - k.last_recalibrate_cc), (unsigned long long)(x - base), want);
        VH_CHECK(x >= prev, "clock went back");
        prev = x;
    }
    {   // a counter that went back (another core), then one past the interval: recalibrate
        k.last_recalibrate_cc = Clock::cycleCounter() - 1000;
        k.last_cc = k.last_recalibrate_cc + (1u << 28);
        size_t nr = k.nrecalibrate;
        Tfrac a = Clock::todTfrac(), x = k.todccTfrac(), b = Clock::todTfrac();
        VH_CHECK(k.nrecalibrate == nr + 1 && a <= x && x <= b, "a reading behind the previous one must recalibrate");
        k.recalibrate_interval_cycles = 1000000;
        k.last_recalibrate_cc = Clock::cycleCounter() - 1000001 - r.below(1ULL << 33);
        k.last_cc = k.last_recalibrate_cc;
        a = Clock::todTfrac(), x = k.todccTfrac(), b = Clock::todTfrac();
        VH_CHECK(k.nrecalibrate == nr + 2 && a <= x && x <= b, "a reading past the interval must recalibrate");
        // a reading that took too long must not become the calibration
        Clock::max_recalibrate_measure_time = 1;
        Tfrac cal = k.last_calibrate_tod_tfrac;
        k.last_cc = ~0ULL >> 1;
        a = Clock::todTfrac(), x = k.todccTfrac(), b = Clock::todTfrac();
        VH_CHECK(k.nrecalibrate == nr + 2 && k.last_calibrate_tod_tfrac == cal && a <= x && x <= b, "a slow reading is not a calibration");
        delete k.bad_get_tod_cycle_gap;
    }
    vh::nontrivial();
    Clock::clock_rate = -std::numeric_limits<double>::infinity();
}
VH_MAIN(one, 2060)

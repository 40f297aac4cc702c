// bounded harness for HashTupleStats and StatsCube: every cell against the rows it stands for
#include "vh.hpp"
#include <vector>
#include <map>
#include <set>
#include <string>
#include <algorithm>
#include <cmath>
#include <Lintel/AssertBoost.hpp>
#include <Lintel/HashFns.hpp>
#include <Lintel/StatsCube.hpp>

static int live;
struct Counted : public Stats {
    Counted() { ++live; }
    ~Counted() { --live; }
};
static Stats *make() { return new Counted(); }

struct Acc {
    uint64_t n; double sum, sq, lo, hi;
    Acc() : n(0), sum(0), sq(0), lo(INFINITY), hi(-INFINITY) { }
    void add(double v) { ++n; sum += v; sq += v * v; lo = std::min(lo, v); hi = std::max(hi, v); }
    void add(const Acc &a) { n += a.n; sum += a.sum; sq += a.sq; lo = std::min(lo, a.lo); hi = std::max(hi, a.hi); }
};
static bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); } // means are not exact
static void same(const Stats &s, const Acc &a, const char *what) {
    VH_CHECK(s.countll() == a.n, "%s: %llu values, not %llu", what, (unsigned long long)s.countll(), (unsigned long long)a.n);
    VH_CHECK(a.n == 0 || (close(s.total(), a.sum) && close(s.total_sq(), a.sq) && close(s.min(), a.lo) && close(s.max(), a.hi)), "%s: total %g, not %g", what, s.total(), a.sum);
}

// keys of 4 small numbers; -1 is any
typedef std::vector<int> K;
struct Ordered { bool operator()(const K &a, const K &b) const {
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i] == b[i]) continue;
        if (a[i] < 0) return false;
        if (b[i] < 0) return true;
        return a[i] < b[i];
    }
    return false;
} };
typedef std::map<K, Acc, Ordered> M;

template <class T> struct Conv;
typedef boost::tuple<int> T1;
typedef boost::tuple<int, std::string> T2;
typedef boost::tuple<int, bool, std::string> T3;
typedef boost::tuple<uint16_t, int, std::string, int64_t> T4;
static std::string str(int v) { return std::string(v, 'x'); }
template <> struct Conv<T1> { enum { n = 1 }; static T1 to(const K &k) { return T1(k[0]); } static int at(const T1 &t, int) { return t.get<0>(); } };
template <> struct Conv<T2> { enum { n = 2 }; static T2 to(const K &k) { return T2(k[0], str(k[1])); } static int at(const T2 &t, int i) { return i ? t.get<1>().size() : t.get<0>(); } };
template <> struct Conv<T3> { enum { n = 3 }; static T3 to(const K &k) { return T3(k[0], k[1], str(k[2])); }
    static int at(const T3 &t, int i) { return i == 0 ? t.get<0>() : i == 1 ? t.get<1>() : t.get<2>().size(); } };
template <> struct Conv<T4> { enum { n = 4 }; static T4 to(const K &k) { return T4(k[0], k[1], str(k[2]), k[3] * 0x100000000LL); }
    static int at(const T4 &t, int i) { return i == 0 ? t.get<0>() : i == 1 ? t.get<1>() : i == 2 ? t.get<2>().size() : t.get<3>() >> 32; } };

template <class T> struct Test {
    typedef lintel::StatsCube<T> Cube;
    typedef lintel::HashTupleStats<T> HTS;
    typedef typename Cube::MyAny Any;
    enum { N = Conv<T>::n };
    typedef bool (*Opt)(bool, const K &);
    static Opt opt;
    static M seen;
    static bool ordered;
    static K last;
    static int calls;
    static K key(const Any &a) { K k; for (int i = 0; i < N; ++i) k.push_back(a.any[i] ? -1 : Conv<T>::at(a.data, i)); return k; }
    static K key(const T &t) { K k; for (int i = 0; i < N; ++i) k.push_back(Conv<T>::at(t, i)); return k; }
    static bool optional(bool had, const Any &a) {
        bool any = false;
        for (int i = 0; i < N; ++i) any |= a.any[i];
        VH_CHECK(any == had, "the cube function is told whether there is an any: told %d", had);
        return opt(had, key(a));
    }
    static bool all(bool, const K &) { return true; }
    static bool hadAny(bool had, const K &) { return had; }
    static bool some(bool, const K &k) { return k[0] != 1 && k[N - 1] != 0; }
    static Acc take(const Stats &s) { Acc a; a.n = s.countll(); a.sum = s.total(); a.sq = s.total_sq(); a.lo = s.min(); a.hi = s.max(); return a; }
    static void visit(const K &k, Stats &s) {
        ++calls;
        VH_CHECK(!seen.count(k), "an entry is visited once");
        VH_CHECK(!ordered || calls == 1 || Ordered()(last, k), "the visits are in order");
        last = k;
        seen[k] = take(s);
    }
    static void visitAny(const Any &a, Stats &s) { visit(key(a), s); }
    static Cube *current;
    static void visitBase(const T &t, Stats &s) { visit(key(t), s); }
    static void visitZero(const T &t, Stats &s) {
        visit(key(t), s);
        if (rows->count(key(t))) VH_CHECK(&s == &current->base_data.getHashEntry(t), "the statistic of a row is handed over");
    }
    static const M *rows;
    static K gone;
    static int mod;
    static bool pruneK(const K &k) { int h = 7; for (size_t i = 0; i < k.size(); ++i) h = h * 5 + k[i] + 1; return h % mod == 0; }
    static bool pruneAny(const Any &a) { return pruneK(key(a)); }
    static bool pruneBase(const T &t) { return pruneK(key(t)); }
    static void begin(bool o) { seen.clear(); ordered = o; calls = 0; }
    static void compare(const M &m, const char *what) {
        VH_CHECK(seen.size() == m.size(), "%s: %zu entries visited, there are %zu", what, seen.size(), m.size());
        for (M::const_iterator i = m.begin(); i != m.end(); ++i) {
            VH_CHECK(seen.count(i->first), "%s: an entry is not visited", what);
            const Acc &x = seen[i->first], &y = i->second;
            VH_CHECK(x.n == y.n && close(x.sum, y.sum) && close(x.sq, y.sq) && (x.n == 0 || (close(x.lo, y.lo) && close(x.hi, y.hi))), "%s: an entry has %llu values of sum %g, not %llu of %g", what,
                     (unsigned long long)x.n, x.sum, (unsigned long long)y.n, y.sum);
        }
    }
    static void row(M &cube, const K &k, const Acc &a, bool mean) {
        for (int m = 0; m < (1 << N); ++m) {
            K x(k);
            for (int i = 0; i < N; ++i) if (m & (1 << i)) x[i] = -1;
            if (!opt(m != 0, x)) continue;
            if (mean) cube[x].add(a.sum / a.n); else cube[x].add(a);
        }
    }
    static void checkCube(Cube &c, const M &m, const char *what) {
        VH_CHECK(c.size() == m.size(), "%s: size %zu, not %zu", what, c.size(), m.size());
        begin(false); c.walk(&visitAny); compare(m, what);
        begin(true); c.walkOrdered(&visitAny); compare(m, what);
    }
    static void checkBase(HTS &h, const M &m, const char *what) {
        VH_CHECK(h.size() == m.size(), "%s: size %zu, not %zu", what, h.size(), m.size());
        begin(false); h.walk(&visitBase); compare(m, what);
        begin(true); h.walkOrdered(&visitBase); compare(m, what);
    }
    typedef std::vector<std::set<int> > Vals;
    static void zeros(M &m, const M &base, const Vals &v, bool count, K k, int pos) {
        if (pos == N) {
            M::const_iterator i = base.find(k);
            if (i != base.end()) m[k] = i->second;
            else { Acc a; if (count) a.add(0); m[k] = a; }
            return;
        }
        for (std::set<int>::const_iterator i = v[pos].begin(); i != v[pos].end(); ++i) { k.push_back(*i); zeros(m, base, v, count, k, pos + 1); k.pop_back(); }
    }
    static void drop(boost::tuples::null_type, int, int) { }
    template <class H> static void drop(H &h, int pos, int which) {
        if (pos == which) h.get_head().clear();
        dropTail(h.get_tail(), pos + 1, which);
    }
    static void dropTail(const boost::tuples::null_type &, int, int) { }
    template <class H> static void dropTail(H &h, int pos, int which) { drop(h, pos, which); }
    static K rnd(vh::Rng &r, int w) { K k; for (int i = 0; i < N; ++i) k.push_back(r.below(i == 1 ? 2 : w)); return k; }
    static void run(vh::Rng &r) {
        live = 0;
        {
            Opt opts[] = { all, hadAny, some };
            opt = opts[r.below(3)];
            bool mean = r.chance(25);
            vh::logf("%d elements, rule %s, %s\n", N, opt == all ? "all" : opt == hadAny ? "had any" : "some", mean ? "means" : "all values");
            typename Cube::CubeStatsAddFn full = boost::bind(&lintel::StatsCubeFns::addFullStats, _1, _2), avg = boost::bind(&lintel::StatsCubeFns::addMean, _1, _2);
            Cube c(&optional, mean ? avg : full, &make, &make);
            if (r.chance(30)) { c.setOptionalCubeFn(&optional); c.setCubeStatsAddFn(mean ? avg : full); }
            M base, cube;
            int w = r.range(1, 6), ops = r.range(1, 30);
            for (int o = 0; o < ops; ++o) {
                switch (r.below(13)) {
                case 0: case 1: case 2: case 3: {
                    int n = r.range(1, r.chance(30) ? 40 : 4);
                    for (int i = 0; i < n; ++i) {
                        K k = rnd(r, w);
                        double v = r.below(16);
                        vh::logf("add %g at", v);
                        for (int j = 0; j < N; ++j) vh::logf(" %d", k[j]);
                        vh::logf("\n");
                        if (!mean && r.chance(15)) {                     // a row without values
                            vh::logf("... no value\n");
                            c.base_data.getHashEntry(Conv<T>::to(k)); base[k];
                            continue;
                        }
                        if (r.chance(60)) c.add(Conv<T>::to(k), v);
                        else if (r.chance(50)) c.base_data[Conv<T>::to(k)].add(v);
                        else c.base_data.getHashEntry(Conv<T>::to(k)).add(v);
                        base[k].add(v);
                    }
                    break;
                }
                case 4: {
                    vh::logf("cube\n");
                    c.cube();
                    for (M::iterator i = base.begin(); i != base.end(); ++i) row(cube, i->first, i->second, mean);
                    break;
                }
                case 5: case 6: {
                    bool count = mean || r.chance(50);
                    int which = r.chance(60) ? -1 : (int)r.below(N);
                    vh::logf("zero cube, zeros %scounted, without the values at %d\n", count ? "" : "not ", which);
                    Vals v(N);
                    for (M::iterator i = base.begin(); i != base.end(); ++i) for (int j = 0; j < N; ++j) v[j].insert(i->first[j]);
                    if (which >= 0) v[which].clear();
                    M z;
                    zeros(z, base, v, count, K(), 0);
                    if (z.size() > 300) break;
                    if (which < 0 && r.chance(50)) {
                        begin(false); current = &c; rows = &base; c.base_data.walkZeros(&visitZero, count); compare(z, "walkZeros");
                        c.zeroCube(count);
                    } else {
                        typename Cube::HashUniqueTuple hut;
                        c.base_data.fillHashUniqueTuple(hut);
                        if (which >= 0) drop(hut, 0, which);
                        begin(false); current = &c; rows = &base; c.base_data.walkZeros(&visitZero, hut, count); compare(z, "walkZeros of given values");
                        c.zeroCube(c.base_data, hut, count);
                    }
                    for (M::iterator i = z.begin(); i != z.end(); ++i) row(cube, i->first, i->second, mean);
                    vh::nontrivial();
                    break;
                }
                case 7: {
                    K k = rnd(r, w);
                    Stats s; Acc a;
                    int n = r.range(1, 3);
                    for (int i = 0; i < n; ++i) { double v = r.below(16); s.add(v); a.add(v); }
                    vh::logf("add to cube\n");
                    c.addToCube(Conv<T>::to(k), s);
                    same(s, a, "the value added to the cube");
                    row(cube, k, a, mean);
                    break;
                }
                case 8: {
                    mod = r.range(1, 4);
                    vh::logf("prune cube %d\n", mod);
                    c.prune(&pruneAny);
                    for (M::iterator i = cube.begin(); i != cube.end();) if (pruneK(i->first)) cube.erase(i++); else ++i;
                    break;
                }
                case 9: {
                    mod = r.range(2, 5);
                    vh::logf("prune base %d\n", mod);
                    c.base_data.prune(&pruneBase);
                    for (M::iterator i = base.begin(); i != base.end();) if (pruneK(i->first)) base.erase(i++); else ++i;
                    break;
                }
                case 10: {
                    bool b = r.chance(50);
                    if (r.chance(60)) break;
                    vh::logf("clear %d\n", b);
                    if (b && r.chance(50)) c.clear(); else c.clear(b);
                    cube.clear();
                    if (b) base.clear();
                    break;
                }
                default: {
                    K k = rnd(r, w);
                    Any a(Conv<T>::to(k));
                    for (int i = 0; i < N; ++i) if (r.chance(50)) { a.any[i] = true; k[i] = -1; }
                    vh::logf("entry\n");
                    Stats &s = c.getCubeEntry(a);
                    VH_CHECK(&s == &c.getCubeEntry(a), "an entry stays where it is");
                    same(s, cube[k], "entry");
                }
                }
                VH_CHECK((size_t)live == base.size() + cube.size(), "%d statistics for %zu entries", live, base.size() + cube.size());
                if (r.chance(30)) { checkCube(c, cube, "cube"); checkBase(c.base_data, base, "base data"); }
            }
            checkCube(c, cube, "cube at the end");
            checkBase(c.base_data, base, "base data at the end");
        }
        VH_CHECK(live == 0, "%d statistics are left", live);
    }
};
template <class T> typename Test<T>::Opt Test<T>::opt;
template <class T> M Test<T>::seen;
template <class T> typename Test<T>::Cube *Test<T>::current;
template <class T> const M *Test<T>::rows;
template <class T> bool Test<T>::ordered;
template <class T> K Test<T>::last;
template <class T> K Test<T>::gone;
template <class T> int Test<T>::calls;
template <class T> int Test<T>::mod;

static void one(uint64_t n, vh::Rng &r) {
    switch (r.below(4)) {
    case 0: Test<T1>::run(r); break;
    case 1: Test<T2>::run(r); break;
    case 2: Test<T3>::run(r); break;
    default: Test<T4>::run(r); break;
    }
}
VH_MAIN(one, 0)

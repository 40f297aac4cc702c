// Bounded check of Tuples: random tuples, wildcard tuples and any-tuples against vectors of optional values.
#include "vh.hpp"
#include <sstream>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <Lintel/Tuples.hpp>
#include <Lintel/HashMap.hpp>
using namespace std;
using namespace lintel::tuples;

// values with an extra part that neither == nor < nor the hash look at
struct V {
    int key; int extra;
    V() : key(0), extra(0) {}
    V(int k, int e) : key(k), extra(e) {}
};
static bool operator==(const V &a, const V &b) { return a.key == b.key; }
static bool operator<(const V &a, const V &b) { return a.key < b.key; }
static bool operator>(const V &a, const V &b) { return a.key > b.key; }
static uint32_t hashType(const V &v) { return (uint32_t)v.key * 2654435761u; }
static ostream &operator<<(ostream &o, const V &v) { return o << v.key; }

struct Opt { bool any; int rank; string text; uint32_t hash; };   // one position of the model

typedef boost::tuple<V> T1;
typedef boost::tuple<V, string> T2;
typedef boost::tuple<V, string, int32_t> T3;
typedef boost::tuple<int64_t, V, string, int32_t, V> T5;
typedef boost::tuple<int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, V> T9;

static uint32_t mix(uint32_t a, uint32_t b, uint32_t c) { return lintel::BobJenkinsHashMix3(a, b, c); }

template <class E> struct Gen;
template <> struct Gen<V> {
    static V make(vh::Rng &r, int &rank, string &t, uint32_t &h) { rank = r.below(3); t = to_string(rank); h = (uint32_t)rank * 2654435761u; return V(rank, (int)r.next()); }
};
template <> struct Gen<int32_t> {
    static int32_t make(vh::Rng &r, int &rank, string &t, uint32_t &h) {
        rank = (int)r.below(3) - 1; t = to_string(rank); h = lintel::hash((int32_t)rank); return rank;
    }
};
template <> struct Gen<int64_t> {
    static int64_t make(vh::Rng &r, int &rank, string &t, uint32_t &h) {
        rank = (int)r.below(3) - 1; int64_t v = (int64_t)rank * 4294967296LL; t = to_string(v); h = lintel::hash(v); return v;
    }
};
template <> struct Gen<string> {
    static string make(vh::Rng &r, int &rank, string &t, uint32_t &h) {
        static const char *w[] = { "", "a", "b" };
        rank = r.below(3); t = w[rank]; h = lintel::hash(t); return t;
    }
};

template <class C> struct Fill {
    template <class B> static void go(C &c, B &any, size_t pos, vh::Rng &r, vector<Opt> &m, int pct) {
        Opt o;
        o.any = r.chance(pct);
        c.get_head() = Gen<typename C::head_type>::make(r, o.rank, o.text, o.hash);
        any[pos] = o.any;
        m.push_back(o);
        Fill<typename C::tail_type>::go(c.get_tail(), any, pos + 1, r, m, pct);
    }
};
template <> struct Fill<boost::tuples::null_type> {
    template <class N, class B> static void go(N, B &, size_t, vh::Rng &, vector<Opt> &, int) {}
};
template <class A> struct SetAny {          // an any-tuple, from the assigned values and the model's wildcards
    static void go(A &a, const vector<Opt> &m, size_t pos, vh::Rng &r) {
        if (m[pos].any) { a.get_head().any = true; }
        else if (r.chance(30)) { typename A::head_type h(a.get_head().val); a.get_head() = typename A::head_type(); a.get_head().set(h.val); }
        SetAny<typename A::tail_type>::go(a.get_tail(), m, pos + 1, r);
    }
};
template <> struct SetAny<boost::tuples::null_type> { template <class N> static void go(N, const vector<Opt> &, size_t, vh::Rng &) {} };

static bool same(const vector<Opt> &a, const vector<Opt> &b) {
    for (size_t i = 0; i < a.size(); ++i) { if (a[i].any != b[i].any || (!a[i].any && a[i].rank != b[i].rank)) return false; }
    return true;
}
static bool before(const vector<Opt> &a, const vector<Opt> &b) {
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].any != b[i].any) return !a[i].any;
        if (!a[i].any && a[i].rank != b[i].rank) return a[i].rank < b[i].rank;
    }
    return false;
}
static uint32_t hashOf(const vector<Opt> &m, size_t pos, bool wild) {
    size_t left = m.size() - pos;
    if (left == 0) return 0;
    uint32_t a = wild && m[pos].any ? 0x8bc74d0bU : m[pos].hash;
    if (left == 1) return a;
    uint32_t b = wild && m[pos + 1].any ? 0x8bc74d0bU : m[pos + 1].hash;
    return mix(a, b, hashOf(m, pos + 2, wild));
}
static string show(const vector<Opt> &m) {
    string r = "(";
    for (size_t i = 0; i < m.size(); ++i) { r += (i ? " " : "") + (m[i].any ? string("*") : m[i].text); }
    return r + ")";
}
static string key(const vector<Opt> &m) {
    string r;
    for (size_t i = 0; i < m.size(); ++i) { r += m[i].any ? string("*,") : to_string(m[i].rank) + ","; }
    return r;
}

template <class T> static void run(vh::Rng &r, const char *name) {
    typedef BitsetAnyTuple<T> BA;
    typedef typename TupleToAnyTuple<T>::type AT;
    size_t n = 2 + r.below(6);
    int pct = r.chance(25) ? 0 : r.chance(20) ? 100 : 40;
    vector<BA> b; vector<AT> a; vector<T> t; vector<vector<Opt> > m;
    for (size_t i = 0; i < n; ++i) {
        vector<Opt> o; T v; BA x;
        VH_CHECK(x.any.none(), "a new BitsetAnyTuple has wildcards");
        if (i && r.chance(40)) {            // the same as before except for one position
            o = m[i - 1];
            T old(t[i - 1]);
            v = old;
            BA y(v);
            VH_CHECK(y.any.none(), "a BitsetAnyTuple made of a tuple has wildcards");
            y.any = b[i - 1].any;
            size_t k = r.below(o.size());
            y.any[k] = !y.any[k];
            o[k].any = !o[k].any;
            x = y;
        } else {
            Fill<typename T::inherited>::go(v, x.any, 0, r, o, pct);
            x.data = v;
        }
        AT at;
        assign(at, v);
        SetAny<AT>::go(at, o, 0, r);
        vh::logf("%s %d: %s\n", name, (int)i, show(o).c_str());
        b.push_back(x); a.push_back(at); t.push_back(v); m.push_back(o);
    }
    for (size_t i = 0; i < n; ++i) {
        ostringstream os;
        os << b[i];
        VH_CHECK(os.str() == show(m[i]), "%d printed as %s", (int)i, os.str().c_str());
        uint32_t hb = hashType(b[i]), want = hashOf(m[i], 0, true);
        VH_CHECK(hb == want, "%d: hash of the BitsetAnyTuple %u, want %u", (int)i, hb, want);
        VH_CHECK(BitsetAnyTupleHash<T>()(b[i]) == want && lintel::hash(b[i]) == want, "%d: other hashes of the BitsetAnyTuple", (int)i);
        VH_CHECK(TupleHash<AT>()(a[i]) == want && boost::tuples::hash(a[i]) == want, "%d: hash of the any-tuple", (int)i);
        uint32_t plain = hashOf(m[i], 0, false);
        VH_CHECK(TupleHash<T>()(t[i]) == plain && lintel::hash(t[i]) == plain && boost::tuples::hash(t[i]) == plain, "%d: hash of the tuple", (int)i);
        for (size_t j = 0; j < n; ++j) {
            bool s = same(m[i], m[j]), l = before(m[i], m[j]);
            VH_CHECK((b[i] == b[j]) == s, "BitsetAnyTuple %d == %d", (int)i, (int)j);
            VH_CHECK((b[i] < b[j]) == l, "BitsetAnyTuple %d < %d", (int)i, (int)j);
            VH_CHECK((a[i] == a[j]) == s, "any-tuple %d == %d", (int)i, (int)j);
            VH_CHECK((a[i] < a[j]) == l, "any-tuple %d < %d", (int)i, (int)j);
            if (s && i != j) vh::nontrivial();
        }
    }
    // as keys
    HashMap<BA, int> hm; map<BA, int> om; map<string, int> ref;
    HashMap<AT, int, TupleHash<AT> > ha; map<AT, int> oa;
    for (size_t i = 0; i < n; ++i) { hm[b[i]] += 1 << i; om[b[i]] += 1 << i; ref[key(m[i])] += 1 << i; ha[a[i]] += 1 << i; oa[a[i]] += 1 << i; }
    VH_CHECK(hm.size() == ref.size() && om.size() == ref.size() && ha.size() == ref.size() && oa.size() == ref.size(), "number of distinct keys");
    for (size_t i = 0; i < n; ++i) {
        int want = ref[key(m[i])];
        VH_CHECK(hm[b[i]] == want && om[b[i]] == want && ha[a[i]] == want && oa[a[i]] == want, "entry of %d", (int)i);
    }
}

static void one(uint64_t c, vh::Rng &r) {
    switch (c % 6) {
    case 0: run<T1>(r, "1"); break;
    case 1: run<T2>(r, "2"); break;
    case 2: run<T3>(r, "3"); break;
    case 3: case 4: run<T5>(r, "5"); break;
    default: run<T9>(r, "9"); break;
    }
}
VH_MAIN(one, 0)

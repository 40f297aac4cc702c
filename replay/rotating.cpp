// bounded harness for RotatingHashMap: operation sequences against two ordered maps
#include "vh.hpp"
#include <map>
#include <iostream>
#include <boost/bind.hpp>
#include <Lintel/RotatingHashMap.hpp>
#include <Lintel/AssertBoost.hpp>

static long g_live;
struct Tok {
    int v;
    char *own;
    Tok() : v(0), own(new char[1]) { ++g_live; }
    Tok(int a) : v(a), own(new char[1]) { ++g_live; }
    Tok(const Tok &o) : v(o.v), own(new char[1]) { *own = *o.own; ++g_live; }
    Tok &operator=(const Tok &o) { *own = *o.own; v = o.v; return *this; }
    ~Tok() { delete[] own; own = NULL; --g_live; }
};
static inline std::ostream &operator<<(std::ostream &o, const Tok &k) { return o << k.v; }
static int g_hash;
struct TH {
    uint32_t operator()(const Tok &k) const {
        switch (g_hash) {
        case 0: return 7;
        case 1: return (uint32_t)k.v & 1;
        case 2: return (uint32_t)k.v;
        default: return (uint32_t)(vh::Rng(k.v).next());
        }
    }
};
struct TE { bool operator()(const Tok &a, const Tok &b) const { return a.v == b.v; } };
typedef RotatingHashMap<Tok, Tok, TH, TE> RM;
typedef std::map<int, int> M;

static std::multimap<int, int> seen;
static int bump;
static void visit(const Tok &k, Tok &v) {
    seen.insert(std::make_pair(k.v, v.v));
    VH_CHECK(seen.size() < 5000, "the function is called for too many entries");
    v.v += bump;
}
static std::multimap<int, int> both(const M &a, const M &b) {
    std::multimap<int, int> r(a.begin(), a.end());
    r.insert(b.begin(), b.end());
    return r;
}
static void compare(RM &t, const M &a, const M &b, int universe) {
    const RM &c = t;
    VH_CHECK(t.size_recent() == a.size(), "size_recent is %zu, expected %zu", t.size_recent(), a.size());
    VH_CHECK(t.size_old() == b.size(), "size_old is %zu, expected %zu", t.size_old(), b.size());
    VH_CHECK(t.size() == a.size() + b.size(), "size()");
    VH_CHECK(c.empty() == (a.empty() && b.empty()), "empty()");
    seen.clear();
    bump = 0;
    t.walk(visit);
    VH_CHECK(seen == both(a, b), "walk does not visit every entry once with its value");
    for (int i = 0; i < universe; ++i) {
        VH_CHECK(t.exists_recent(i) == (a.count(i) > 0), "exists_recent(%d)", i);
        VH_CHECK(t.exists_old(i) == (b.count(i) > 0), "exists_old(%d)", i);
        VH_CHECK(t.existsNoPromote(i) == (a.count(i) + b.count(i) > 0), "existsNoPromote(%d)", i);
    }
    VH_CHECK(t.size_recent() == a.size() && t.size_old() == b.size(), "a query that does not count as an access moved an entry");
}
static void promote(M &a, M &b, int k) {
    M::iterator i = b.find(k);
    if (i != b.end()) { a[k] = i->second; b.erase(k); }
}
static void one(uint64_t n, vh::Rng &r) {
    AssertBoostClearFns();
    AssertBoostFnBefore(AssertBoostThrowExceptionFn);
    long live0 = g_live;
    {
        g_hash = r.below(4);
        const int universe = r.chance(50) ? 6 : r.chance(50) ? 30 : 200;
        RM t;
        M a, b;
        int ops = r.range(1, 60);
        for (int s = 0; s < ops; ++s) {
            int k = r.below(universe), v = r.range(1, 1000);
            int op = r.below(13);
            vh::logf("op %d key %d value %d\n", op, k, v);
            switch (op) {
            case 0: case 1: case 2: {
                Tok &x = t[Tok(k)];
                promote(a, b, k);
                VH_CHECK(x.v == a[k], "operator[](%d) has value %d, expected %d", k, x.v, a[k]);
                x = Tok(v);
                a[k] = v;
                break;
            }
            case 3: case 4: {
                Tok *x = t.lookup(Tok(k));
                promote(a, b, k);
                M::iterator i = a.find(k);
                VH_CHECK((x != NULL) == (i != a.end()), "lookup(%d)", k);
                if (x) {
                    VH_CHECK(x->v == i->second, "lookup(%d) has value %d, expected %d", k, x->v, i->second);
                    x->v = v;
                    i->second = v;
                    vh::nontrivial();
                }
                break;
            }
            case 5: {
                bool e = t.exists(Tok(k));
                promote(a, b, k);
                VH_CHECK(e == (a.count(k) > 0), "exists(%d)", k);
                break;
            }
            case 6: {
                bool want = a.count(k) + b.count(k) > 0;
                VH_CHECK(t.remove(Tok(k), false) == want, "remove(%d, false)", k);
                a.erase(k);
                b.erase(k);
                break;
            }
            case 7: {
                if (a.count(k) + b.count(k)) {
                    VH_CHECK(t.remove(Tok(k)), "remove(%d)", k);
                    a.erase(k);
                    b.erase(k);
                } else {
                    bool refused = false;
                    try { t.remove(Tok(k)); } catch (AssertBoostException &) { refused = true; }
                    VH_CHECK(refused, "remove(%d) does not refuse a missing key that must exist", k);
                }
                break;
            }
            case 8:
                t.rotate();
                b = a;
                a.clear();
                break;
            case 9: case 10: {
                seen.clear();
                bump = 3;
                t.rotate(visit);
                VH_CHECK(seen == both(b, M()), "rotate calls the function for exactly the entries about to go");
                b = a;
                a.clear();
                break;
            }
            case 11: {
                if (!r.chance(30)) break;
                if (r.chance(50)) {
                    seen.clear();
                    bump = 1;
                    t.flushRotate(visit);
                    VH_CHECK(seen == both(a, b), "flushRotate calls the function once for every entry");
                } else {
                    t.flushRotate();
                }
                a.clear();
                b.clear();
                break;
            }
            default: {
                seen.clear();
                bump = 5;
                t.walk(visit);
                VH_CHECK(seen == both(a, b), "walk calls the function once for every entry");
                for (M::iterator i = a.begin(); i != a.end(); ++i) i->second += 5;
                for (M::iterator i = b.begin(); i != b.end(); ++i) i->second += 5;
            }
            }
            compare(t, a, b, universe < 40 ? universe : 8);
        }
    }
    VH_CHECK(g_live == live0, "%ld keys or values are still alive", g_live - live0);
}
VH_MAIN(one, 0)

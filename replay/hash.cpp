// bounded harness for HashTable, HashMap, HashUnique: operation sequences against ordered maps
#include "vh.hpp"
#include <map>
#include <set>
#include <algorithm>
#include <iostream>
#include <Lintel/AssertBoost.hpp>
#include <Lintel/HashMap.hpp>
#include <Lintel/HashUnique.hpp>

static long g_live;
struct Key {
    int k;
    char *own;
    Key() : k(0), own(new char[1]) { ++g_live; }
    Key(int a) : k(a), own(new char[1]) { ++g_live; }
    Key(const Key &o) : k(o.k), own(new char[1]) { *own = *o.own; ++g_live; }
    Key &operator=(const Key &o) { k = o.k; *own = *o.own; return *this; }
    ~Key() { delete[] own; own = NULL; --g_live; }
};
static inline std::ostream &operator<<(std::ostream &o, const Key &k) { return o << k.k; }
static int g_hash;   // quality of the hash function of this case
static uint32_t hashOf(int k) {
    switch (g_hash) {
    case 0: return 7;
    case 1: return (uint32_t)k & 1;
    case 2: return (uint32_t)k;
    case 3: return (uint32_t)k * 5u;
    case 4: return 0xFFFFFFFFu - ((uint32_t)k & 3);
    default: return (uint32_t)(vh::Rng(k).next());
    }
}
struct Item {
    Key key;
    int val;
    Item() : val(0) { }
    Item(int k, int v) : key(k), val(v) { }
};
struct IHash { uint32_t operator()(const Item &i) const { return hashOf(i.key.k); } };
struct IEq { bool operator()(const Item &a, const Item &b) const { return a.key.k == b.key.k; } };
typedef HashTable<Item, IHash, IEq> HT;
typedef std::pair<int, int> KV;
struct KHash { uint32_t operator()(const Key &k) const { return hashOf(k.k); } };
struct KEq { bool operator()(const Key &a, const Key &b) const { return a.k == b.k; } };

static int universe;
static void compare(HT &t, const std::multiset<KV> &m) {
    const HT &c = t;
    VH_CHECK(t.size() == m.size(), "size is %u, expected %zu", t.size(), m.size());
    VH_CHECK(t.empty() == m.empty(), "empty()");
    t.verifyFreeListSize();
    std::multiset<KV> seen;
    size_t n = 0;
    for (HT::iterator i = t.begin(); i != t.end(); ++i) {
        VH_CHECK(++n <= m.size(), "iteration does not end");
        seen.insert(KV(i->key.k, i->val));
    }
    VH_CHECK(seen == m, "iteration does not visit the stored entries exactly once");
    seen.clear();
    n = 0;
    for (HT::const_iterator i = c.begin(); i != c.end(); i++) {
        VH_CHECK(++n <= m.size(), "const iteration does not end");
        seen.insert(KV((*i).key.k, (*i).val));
    }
    VH_CHECK(seen == m, "const iteration does not visit the stored entries exactly once");
    for (int k = 0; k < universe; ++k) {
        std::multiset<KV>::const_iterator lo = m.lower_bound(KV(k, INT32_MIN)), hi = m.upper_bound(KV(k, INT32_MAX));
        Item probe(k, -1);
        Item *p = t.lookup(probe);
        const Item *q = c.lookup(probe);
        VH_CHECK((p != NULL) == (lo != hi) && p == q, "lookup(%d) %s", k, p ? "finds a removed key" : "misses a key");
        HT::iterator f = t.find(probe);
        VH_CHECK((f != t.end()) == (lo != hi), "find(%d)", k);
        VH_CHECK((c.find(probe) != c.end()) == (lo != hi), "const find(%d)", k);
        if (p) {
            VH_CHECK(p->key.k == k && m.count(KV(k, p->val)), "lookup(%d) returns an entry that is not stored", k);
            VH_CHECK(&*f == p, "find and lookup differ for %d", k);
        }
    }
}
static void drop(std::multiset<KV> &m, int k, int v) {
    std::multiset<KV>::iterator i = m.find(KV(k, v));
    if (i == m.end()) vh::fail("removed an entry (%d,%d) that was not stored", k, v);
    m.erase(i);
}
static std::multiset<KV> contents(HT &t) {
    std::multiset<KV> r;
    for (HT::iterator i = t.begin(); i != t.end(); ++i) r.insert(KV(i->key.k, i->val));
    return r;
}
static void table(vh::Rng &r) {
    double tcl = r.chance(50) ? 2.0 : r.chance(50) ? 0.5 : 5.0;
    HT *tp = r.chance(30) ? new HT() : new HT(tcl);
    std::multiset<KV> m;
    int serial = 0, steps = r.range(1, 80);
    bool mass = r.chance(30);
    if (r.chance(30)) { unsigned n = r.below(60); vh::logf("reserve(%u);\n", n); tp->reserve(n); }
    for (int s = 0; s < steps; ++s) {
        HT &t = *tp;
        int k = r.below(universe), op = r.below(14);
        if (op < 4) {
            int n = mass ? r.range(1, 20) : 1;
            for (; n > 0; --n) {
                k = r.below(universe);
                vh::logf("add(%d);\n", k);
                Item *p = t.add(Item(k, ++serial));
                VH_CHECK(p && p->key.k == k && p->val == serial, "add returns a wrong entry");
                m.insert(KV(k, serial));
            }
        } else if (op == 4) {
            vh::logf("addOrReplace(%d);\n", k);
            bool rep = r.chance(50);
            std::multiset<KV> before = m;
            Item *p = t.addOrReplace(Item(k, ++serial), rep);
            bool had = m.lower_bound(KV(k, INT32_MIN)) != m.upper_bound(KV(k, INT32_MAX));
            VH_CHECK(rep == had, "addOrReplace reports %d", rep);
            VH_CHECK(p && p->key.k == k && p->val == serial, "addOrReplace does not store the new data");
            if (!had) m.insert(KV(k, serial));
            else {
                // exactly one of the entries with this key was replaced
                std::multiset<KV> now = contents(t), gone, come;
                std::set_difference(m.begin(), m.end(), now.begin(), now.end(), std::inserter(gone, gone.end()));
                std::set_difference(now.begin(), now.end(), m.begin(), m.end(), std::inserter(come, come.end()));
                VH_CHECK(gone.size() == 1 && gone.begin()->first == k && come.size() == 1 && *come.begin() == KV(k, serial), "addOrReplace changed other entries");
                m = now;
            }
        } else if (op < 8) {
            std::multiset<KV>::iterator lo = m.lower_bound(KV(k, INT32_MIN)), hi = m.upper_bound(KV(k, INT32_MAX));
            bool had = lo != hi, ret;
            std::multiset<KV> before = m;
            if (had && r.chance(20)) {
                vh::logf("remove(reference to the stored entry with key %d);\n", k);
                ret = t.remove(*t.lookup(Item(k, 0)));
            } else {
                vh::logf("remove(%d);\n", k);
                ret = t.remove(Item(k, 0), had ? r.chance(50) : false);
            }
            VH_CHECK(ret == had, "remove(%d) reports %d", k, ret);
            if (!had && r.chance(30)) {
                bool refused = false;
                try { if (r.chance(50)) t.remove(Item(k, 0)); else t.remove(Item(k, 0), true); } catch (AssertBoostException &) { refused = true; }
                VH_CHECK(refused, "remove(%d) does not refuse a missing key that must exist", k);
            }
            if (had) {
                std::multiset<KV> now = contents(t), gone;
                std::set_difference(m.begin(), m.end(), now.begin(), now.end(), std::inserter(gone, gone.end()));
                VH_CHECK(gone.size() == 1 && gone.begin()->first == k, "remove(%d) removed other entries", k);
                drop(m, gone.begin()->first, gone.begin()->second);
            }
        } else if (op == 8 && !m.empty()) {
            int steps2 = r.below(m.size());
            HT::iterator i = t.begin();
            while (steps2-- > 0) ++i;
            vh::logf("erase(iterator at key %d);\n", i->key.k);
            drop(m, i->key.k, i->val);
            if (r.chance(50)) {
                // incremental scan: go on from the same chain after the removal
                HT::iterator next(i);
                t.erase(i);
                next.partialReset();
                std::multiset<KV> rest;
                size_t n = 0;
                for (; next != t.end(); ++next) { VH_CHECK(++n <= m.size(), "scan after partialReset does not end"); rest.insert(KV(next->key.k, next->val)); }
                VH_CHECK(std::includes(m.begin(), m.end(), rest.begin(), rest.end()), "scan after partialReset visits an entry that is not stored");
                i.reset();
                VH_CHECK(i == t.begin(), "reset() is not begin()");
            } else t.erase(i);
        } else if (op == 9 && r.chance(20)) {
            vh::logf("clear();\n");
            HT::iterator stale = t.begin();
            t.clear(); m.clear();
            stale.reset();
            VH_CHECK(stale == t.end(), "reset() on an empty table is not end()");
            if (r.chance(50)) { unsigned n = r.below(300); vh::logf("reserve(%u);\n", n); t.reserve(n); }
        } else if (op == 10) {
            vh::logf("copy;\n");
            HT *c = r.chance(50) ? new HT(t) : new HT();
            if (r.chance(50)) { c->clear(); c->add(Item(1, 1)); }
            *c = t;
            compare(*c, m);
            if (r.chance(50)) { c->add(Item(k, -5)); compare(t, m); delete c; }
            else { if (!m.empty()) t.remove(Item(m.begin()->first, 0)); compare(*c, m); delete tp; tp = c; }
        } else if (op == 11 && !m.empty()) {
            vh::logf("add(reference to a stored entry);\n");
            Item *p = t.lookup(Item(m.begin()->first, 0));
            m.insert(KV(p->key.k, p->val));
            t.add(*p);
        } else if (op == 12) {
            Item *p = t.randomlookup(r.next(), r.next());
            VH_CHECK((p == NULL) == m.empty(), "randomlookup");
            if (p) VH_CHECK(m.count(KV(p->key.k, p->val)), "randomlookup returns an entry that is not stored");
        } else if (op == 13) {
            size_t n = 0, starts = 0, ends = 0;
            for (HT::iterator i = t.begin(); i != t.end(); ++i, ++n) { starts += i.atStartOfChain(); ends += i.atEndOfChain(); }
            VH_CHECK(starts == ends && (n == 0) == (starts == 0), "atStartOfChain/atEndOfChain");
            VH_CHECK(t.end().atStartOfChain() && t.end().atEndOfChain(), "end() is at a chain boundary");
            if (t.dense()) {
                std::multiset<KV> raw;
                for (size_t i = 0; i < t.unsafeGetRawDataVector().size(); ++i) raw.insert(KV(t.unsafeGetRawDataVector()[i].data.key.k, t.unsafeGetRawDataVector()[i].data.val));
                VH_CHECK(raw == m, "raw vector of a dense table");
            }
            Stats st;
            if (t.capacity()) { t.chainLengthStats(st); VH_CHECK((size_t)(st.mean() * st.countll() + 0.5) == m.size(), "chain length statistics"); }
        }
        compare(*tp, m);
    }
    if (m.size() > 3) vh::nontrivial();
    delete tp;
    VH_CHECK(g_live == 0, "%ld keys leaked", g_live);
}
typedef HashMap<Key, int, KHash, KEq> HM;
static void mapCompare(HM &t, const std::map<int, int> &m) {
    const HM &c = t;
    VH_CHECK(t.size() == m.size() && t.empty() == m.empty(), "map size is %u, expected %zu", t.size(), m.size());
    std::map<int, int> seen;
    size_t n = 0;
    for (HM::iterator i = t.begin(); i != t.end(); ++i) { VH_CHECK(++n <= m.size(), "map iteration does not end"); seen[i->first.k] = i->second; }
    VH_CHECK(seen == m, "map iteration");
    std::vector<Key> keys = c.keys();
    std::set<int> ks;
    for (size_t i = 0; i < keys.size(); ++i) ks.insert(keys[i].k);
    VH_CHECK(keys.size() == m.size() && ks.size() == m.size(), "keys()");
    for (int k = 0; k < universe; ++k) {
        std::map<int, int>::const_iterator f = m.find(k);
        int *p = t.lookup(k);
        const int *q = c.lookup(k);
        VH_CHECK((p != NULL) == (f != m.end()) && p == q && c.exists(k) == (p != NULL), "map lookup(%d)", k);
        VH_CHECK((t.find(k) != t.end()) == (p != NULL) && (c.find(k) != c.end()) == (p != NULL), "map find(%d)", k);
        VH_CHECK(ks.count(k) == m.count(k), "keys() of %d", k);
        if (p) {
            VH_CHECK(*p == f->second, "value of %d is %d, expected %d", k, *p, f->second);
            VH_CHECK(c.cGet(k) == f->second && c.dGet(k) == f->second, "cGet/dGet");
            VH_CHECK(t.find(k)->second == f->second, "find value");
        } else
            VH_CHECK(c.dGet(k) == 0, "dGet of a missing key");
    }
}
static void map(vh::Rng &r) {
    HM *tp = r.chance(50) ? new HM() : new HM(r.chance(50) ? 0.7 : 4.0);
    std::map<int, int> m;
    int steps = r.range(1, 90), serial = 0;
    if (r.chance(30)) tp->reserve(r.below(90));
    for (int s = 0; s < steps; ++s) {
        HM &t = *tp;
        int k = r.below(universe);
        switch (r.below(10)) {
        case 0: case 1: vh::logf("m[%d] = %d;\n", k, ++serial); t[k] = serial; m[k] = serial; break;
        case 2: { vh::logf("m[%d];\n", k); int v = t[k]; VH_CHECK(v == m[k], "operator[](%d) gives %d, expected %d", k, v, m[k]); break; }
        case 3: { vh::logf("addUnlessExist(%d);\n", k); bool a = t.addUnlessExist(k); VH_CHECK(a == !m.count(k), "addUnlessExist"); m[k]; break; }
        case 4: case 5: case 6: {
            vh::logf("remove(%d);\n", k);
            bool had = m.erase(k) != 0;
            bool ret = had && r.chance(50) ? t.remove(k) : t.remove(k, false);
            VH_CHECK(ret == had, "map remove(%d) reports %d", k, ret);
            if (!had && r.chance(30)) {
                bool refused = false;
                try { t.remove(k); } catch (AssertBoostException &) { refused = true; }
                VH_CHECK(refused, "map remove(%d) does not refuse a missing key that must exist", k);
            }
            break;
        }
        case 7: {
            HM::iterator i = t.find(k);
            if (i != t.end()) { vh::logf("erase(find(%d));\n", k); t.erase(i); m.erase(k); }
            break;
        }
        case 8: {
            vh::logf("copy;\n");
            HM *c = r.chance(50) ? new HM(t) : new HM();
            *c = t;
            if (r.chance(50)) { (*c)[k] = -1; c->remove(k); mapCompare(t, m); delete c; }
            else { t.clear(); delete tp; tp = c; }
            break;
        }
        default: if (r.chance(10)) { vh::logf("clear();\n"); t.clear(); m.clear(); }
        }
        mapCompare(*tp, m);
    }
    if (m.size() > 3) vh::nontrivial();
    delete tp;
    VH_CHECK(g_live == 0, "%ld keys leaked", g_live);
}
typedef HashUnique<Key, KHash, KEq> HU;
static void uniq(vh::Rng &r) {
    HU *tp = new HU();
    std::set<int> m;
    int steps = r.range(1, 90);
    for (int s = 0; s < steps; ++s) {
        HU &t = *tp;
        int k = r.below(universe);
        switch (r.below(8)) {
        case 0: case 1: vh::logf("add(%d);\n", k); VH_CHECK(t.add(k) == m.insert(k).second, "set add(%d)", k); break;
        case 2: vh::logf("addOrReplace(%d);\n", k); VH_CHECK(t.addOrReplace(k) == !m.insert(k).second, "set addOrReplace(%d)", k); break;
        case 3: case 4: case 5: vh::logf("remove(%d);\n", k); t.remove(k, false); m.erase(k); break;
        case 6: { HU *c = new HU(t); if (r.chance(50)) { c->add(k); c->clear(); delete c; } else { t.clear(); *tp = *c; delete c; } break; }
        default: if (r.chance(10)) { t.clear(); m.clear(); }
        }
        const HU &c = *tp;
        VH_CHECK(c.size() == m.size(), "set size is %u, expected %zu", c.size(), m.size());
        std::set<int> seen;
        size_t n = 0;
        for (HU::const_iterator i = c.begin(); i != c.end(); ++i) { VH_CHECK(++n <= m.size(), "set iteration does not end"); seen.insert(i->k); }
        VH_CHECK(seen == m, "set iteration");
        for (int j = 0; j < universe; ++j) VH_CHECK(c.exists(j) == (m.count(j) > 0), "exists(%d)", j);
    }
    if (m.size() > 3) vh::nontrivial();
    delete tp;
    VH_CHECK(g_live == 0, "%ld keys leaked", g_live);
}
// deep growth: every step of the bucket list, with a reference map
static void grow(vh::Rng &r) {
    HM t;
    std::map<int, int> m;
    int n = r.range(100, 4000);
    vh::logf("grow to %d with interleaved removals\n", n);
    for (int i = 0; i < n; ++i) {
        int k = r.below(n);
        if (r.chance(75)) { t[k] = i; m[k] = i; } else { bool a = t.remove(k, false), b = m.erase(k); VH_CHECK(a == b, "remove(%d)", k); }
    }
    universe = n;
    mapCompare(t, m);
    vh::nontrivial();
}
static void one(uint64_t c, vh::Rng &r) {
    AssertBoostClearFns();
    AssertBoostFnBefore(AssertBoostThrowExceptionFn);
    g_hash = r.below(6);
    universe = r.chance(50) ? 6 : r.chance(50) ? 20 : 60;
    vh::logf("hash kind %d, keys 0..%d\n", g_hash, universe - 1);
    switch (c % 8) {
    case 0: case 1: case 2: case 3: vh::logf("HashTable\n"); table(r); break;
    case 4: case 5: vh::logf("HashMap\n"); map(r); break;
    case 6: vh::logf("HashUnique\n"); uniq(r); break;
    default: if (c % 64 == 7) { g_hash = 2 + r.below(4); if (g_hash == 4) g_hash = 5; grow(r); } else { vh::logf("HashMap\n"); map(r); }
    }
}
VH_MAIN(one, 0)

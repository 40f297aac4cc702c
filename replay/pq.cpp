// bounded harness for PriorityQueue: random operation sequences against a multiset
#include "vh.hpp"
#include <set>
#include <algorithm>
#include <boost/format.hpp>
#include <Lintel/PriorityQueue.hpp>

struct El { int key, id; char pad[16]; };
struct NonStrict { bool operator()(const El &a, const El &b) const { return a.key >= b.key; } };
struct Strict { bool operator()(const El &a, const El &b) const { return a.key > b.key; } };
struct Big { int key, id; char pad[2000]; };
struct BigCmp { bool operator()(const Big &a, const Big &b) const { return a.key >= b.key; } };

template <class T> static T mk(int key, int id) { T e; memset(&e, 0, sizeof e); e.key = key; e.id = id; return e; }

template <class T, class Q> static void compare(Q &q, const std::vector<std::pair<int, int> > &m) {
    VH_CHECK(q.size() == m.size(), "size is %u, expected %zu", q.size(), m.size());
    VH_CHECK(q.empty() == m.empty(), "empty()");
    if (!m.empty()) {
        int best = m[0].first;
        for (size_t i = 0; i < m.size(); ++i) best = std::min(best, m[i].first);
        const Q &cq = q;
        VH_CHECK(q.top().key == best && cq.top().key == best, "top has key %d, the most important is %d", q.top().key, best);
    }
    std::vector<std::pair<int, int> > a(m), b;
    for (T *p = q.PQ_Begin(); p != q.PQ_End(); ++p) b.push_back(std::make_pair(p->key, p->id));
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    VH_CHECK(a == b, "stored elements differ from those pushed and not removed");
    q.selfVerify();
}
static void drop(std::vector<std::pair<int, int> > &m, int key, int id) {
    for (size_t i = 0; i < m.size(); ++i)
        if (m[i].first == key && m[i].second == id) { m.erase(m.begin() + i); return; }
    vh::fail("removed an element (%d,%d) that is not in the queue", key, id);
}

template <class T, class Q> static void drive(Q &q, vh::Rng &r, bool nonstrict, int keys) {
    std::vector<std::pair<int, int> > m;
    int id = 0, steps = r.range(1, 90);
    for (int s = 0; s < steps; ++s) {
        int op = r.below(12);
        if (op < 6) {
            int k = r.below(keys);
            vh::logf("push(%d);\n", k);
            T e = mk<T>(k, ++id);
            q.push(e); m.push_back(std::make_pair(k, id));
        } else if (op < 8 && !m.empty()) {
            T t = q.top();
            vh::logf("pop();\n");
            q.pop(); drop(m, t.key, t.id);
        } else if (op == 8 && !m.empty() && nonstrict) {
            T t = q.top();
            vh::logf("pop_bottom_up_heuristic();\n");
            q.pop_bottom_up_heuristic(); drop(m, t.key, t.id);
        } else if (op == 9 && !m.empty()) {
            T t = q.top();
            int k = r.below(keys);
            vh::logf("replaceTop(%d);\n", k);
            T e = mk<T>(k, ++id);
            q.replaceTop(e); drop(m, t.key, t.id); m.push_back(std::make_pair(k, id));
        } else if (op == 10 && !m.empty() && nonstrict) {
            size_t k = r.below(m.size());
            vh::logf("push(element %zu of the queue);\n", k);
            T *p = q.PQ_Begin() + k;
            m.push_back(std::make_pair(p->key, p->id));
            q.push(*p);
        } else if (op == 11 && r.chance(15)) {
            vh::logf("clear();\n");
            q.clear(); m.clear();
            if (r.chance(50)) { int c = 1 + r.below(9); vh::logf("reserve(%d);\n", c); q.reserve(c); }
        }
        compare<T>(q, m);
    }
    if (m.size() > 4) vh::nontrivial();
    int last = -1;
    while (!q.empty()) {
        T t = q.top();
        VH_CHECK(t.key >= last, "keys come out as %d after %d", t.key, last);
        last = t.key;
        if (nonstrict && r.chance(50)) { vh::logf("pop_bottom_up_heuristic();\n"); q.pop_bottom_up_heuristic(); }
        else { vh::logf("pop();\n"); q.pop(); }
        drop(m, t.key, t.id);
        compare<T>(q, m);
    }
    VH_CHECK(m.empty(), "%zu elements were lost", m.size());
}
static void one(uint64_t c, vh::Rng &r) {
    int keys = r.chance(50) ? 6 : 1000, cap = r.below(8);
    switch (c % 4) {
    case 0: case 1: { vh::logf("non-strict comparator, capacity %d\n", cap); PriorityQueue<El, NonStrict> q(cap); drive<El>(q, r, true, keys); break; }
    case 2: { vh::logf("strict comparator, capacity %d\n", cap); Strict sc; PriorityQueue<El, Strict> q(sc, cap); drive<El>(q, r, false, keys); break; }
    default:
        if (c % 16 == 3) { vh::logf("default capacity, 2008-byte elements\n"); PriorityQueue<Big, BigCmp> q; drive<Big>(q, r, true, keys); }
        else { vh::logf("default capacity\n"); PriorityQueue<El, NonStrict> q; drive<El>(q, r, true, keys); }
    }
}
VH_MAIN(one, 0)

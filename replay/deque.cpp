// bounded harness for Deque: random operation sequences against std::vector, with element
// lifetimes tracked by address
#include "vh.hpp"
#include <set>
#include <deque>
#include <Lintel/Deque.hpp>

static std::set<const void *> alive;
struct E {
    int v; char pad[20];
    E(int v) : v(v) { born(); }
    E(const E &o) : v(o.v) { VH_CHECK(alive.count(&o), "copied from an object that is not alive"); born(); }
    ~E() { VH_CHECK(alive.erase(this), "destroyed an object that is not alive"); v = -77777; }
    E &operator=(const E &o) {
        VH_CHECK(alive.count(this) && alive.count(&o), "assignment between objects that are not alive");
        v = o.v; return *this;
    }
    void born() { VH_CHECK(alive.insert(this).second, "constructed over a live object"); }
};
typedef Deque<E> D;

static void compare(D &d, const std::vector<int> &m) {
    VH_CHECK(d.size() == m.size(), "size is %zu, expected %zu", d.size(), m.size());
    VH_CHECK(d.empty() == m.empty(), "empty()");
    VH_CHECK(alive.size() == m.size(), "%zu objects alive, %zu stored", alive.size(), m.size());
    VH_CHECK(d.capacity() >= d.size(), "capacity below size");
    if (!m.empty()) {
        VH_CHECK(d.front().v == m.front(), "front is %d, expected %d", d.front().v, m.front());
        VH_CHECK(d.back().v == m.back(), "back is %d, expected %d", d.back().v, m.back());
    }
    size_t k = 0;
    for (D::iterator i = d.begin(); i != d.end(); ++i, ++k) {
        VH_CHECK(k < m.size(), "iteration runs past the end");
        VH_CHECK((*i).v == m[k], "element %zu is %d, expected %d", k, (*i).v, m[k]);
        VH_CHECK(i->v == m[k], "operator-> of element %zu", k);
    }
    VH_CHECK(k == m.size(), "iteration stops after %zu of %zu", k, m.size());
    k = m.size();
    for (D::iterator i = d.end(); i != d.begin(); ) { --i; --k; VH_CHECK((*i).v == m[k], "backward element %zu", k); }
    VH_CHECK(k == 0, "backward iteration");
    for (size_t a = 0; a < m.size(); ++a) {
        VH_CHECK(d.at(a).v == m[a], "at(%zu) is %d, expected %d", a, d.at(a).v, m[a]);
    }
    const D &cd = d;
    for (size_t a = 0; a < m.size(); ++a) { (void)cd; }
}

static void iters(D &d, const std::vector<int> &m, vh::Rng &r) {
    long n = m.size();
    for (int t = 0; t < 6; ++t) {
        long a = r.below(n + 1), b = r.below(n + 1);
        D::iterator ia = d.begin() + a, ib = d.begin();
        ib += b;
        VH_CHECK(ia - ib == a - b, "iterator difference %ld, expected %ld", (long)(ia - ib), a - b);
        VH_CHECK((ia == ib) == (a == b) && (ia != ib) == (a != b), "iterator equality %ld %ld", a, b);
        VH_CHECK((ia < ib) == (a < b) && (ia <= ib) == (a <= b), "iterator order %ld %ld", a, b);
        VH_CHECK((ia > ib) == (a > b) && (ia >= ib) == (a >= b), "iterator order %ld %ld", a, b);
        D::iterator ic = ia + (b - a), id = ia - (a - b), ie = ia, ig = ia;
        ie += b - a; ig -= a - b;
        VH_CHECK(ic == ib && id == ib && ie == ib && ig == ib, "iterator arithmetic %ld -> %ld", a, b);
        if (a < n) { D::iterator x = ia++; VH_CHECK((*x).v == m[a] && ia - d.begin() == a + 1, "post-increment"); }
        if (b > 0) { D::iterator x = ib--; VH_CHECK(x - d.begin() == b && ib - d.begin() == b - 1, "post-decrement"); }
    }
}

static void one(uint64_t c, vh::Rng &r) {
    alive.clear();
    {
        size_t cap = 2 + r.below(c % 3 ? 6 : 20);
        std::vector<int> m;
        vh::logf("Deque d(%zu);\n", cap);
        D d(cap);
        int steps = r.range(1, 60), next = 1;
        bool wrapped = false;
        for (int s = 0; s < steps; ++s) {
            int op = r.below(14);
            if (op < 6) {
                vh::logf("d.push_back(%d);\n", next);
                { E e(next); d.push_back(e); }
                m.push_back(next++);
            } else if (op < 9) {
                if (m.empty()) continue;
                vh::logf("d.pop_front();\n");
                d.pop_front(); m.erase(m.begin()); wrapped = true;
            } else if (op == 9) {
                if (m.empty()) continue;
                size_t k = r.below(m.size());
                vh::logf("d.push_back(d.at(%zu));\n", k);
                d.push_back(d.at(k)); m.push_back(m[k]);
            } else if (op == 10 && r.chance(30)) {
                vh::logf("d.clear();\n");
                d.clear(); m.clear();
            } else if (op == 11 && m.empty()) {
                size_t k = 1 + r.below(9);
                vh::logf("d.reserve(%zu);\n", k);
                d.reserve(k);
                VH_CHECK(d.capacity() >= k, "reserve(%zu) left capacity %zu", k, d.capacity());
            } else if (op == 12) {
                std::vector<E> v;
                size_t k = r.below(5);
                vh::logf("d.push_back({ %zu values from %d });\n", k, next);
                v.reserve(k);
                for (size_t i = 0; i < k; ++i) { v.push_back(E(next)); m.push_back(next++); }
                d.push_back(v);
            } else if (op == 13) {
                for (int i = 0; i < 4 && !m.empty(); ++i) {
                    vh::logf("d.pop_front();\n");
                    d.pop_front(); m.erase(m.begin()); wrapped = true;
                }
            }
            compare(d, m);
            if (r.chance(25)) iters(d, m, r);
        }
        if (wrapped && m.size() > 2) vh::nontrivial();
        vh::logf("~d with %zu elements;\n", m.size());
    }
    VH_CHECK(alive.empty(), "%zu elements still alive after the deque is gone", alive.size());
}
VH_MAIN(one, 0)

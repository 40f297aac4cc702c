// bounded harness for ByteBuffer: operation sequences on buffers sharing storage, against strings
#define DISABLE_DEBUG_LINTELLOG 1
#include "vh.hpp"
#include <sstream>
#include <algorithm>
#include <sanitizer/lsan_interface.h>
#include <Lintel/ByteBuffer.hpp>
using lintel::ByteBuffer;

struct B {
    ByteBuffer *b;
    std::string want;
    int group;      // buffers of one group share their storage
    bool cow;
};
static const int N = 4;
static B v[N];
static int nextgroup;
static bool shared(int i) { for (int j = 0; j < N; ++j) if (j != i && v[j].group == v[i].group) return true; return false; }
static void own(int i) { if (shared(i)) v[i].group = nextgroup++; }

static void compare(const char *op) {
    for (int i = 0; i < N; ++i) {
        const ByteBuffer &b = *v[i].b;
        VH_CHECK(b.readAvailable() == v[i].want.size(), "%s: buffer %d holds %zu bytes, expected %zu", op, i, b.readAvailable(), v[i].want.size());
        VH_CHECK(v[i].want.empty() || memcmp(b.readStart(), v[i].want.data(), v[i].want.size()) == 0, "%s: contents of buffer %d differ", op, i);
        VH_CHECK(b.asString() == v[i].want, "%s: asString of %d", op, i);
        VH_CHECK(b.empty() == v[i].want.empty(), "%s: empty of %d", op, i);
        VH_CHECK(b.readAvailable() + b.writeAvailable() <= b.bufferSize(), "%s: regions of %d exceed the buffer", op, i);
        for (int j = 0; j < N; ++j) {
            VH_CHECK((b == *v[j].b) == (v[i].want == v[j].want), "%s: == of %d and %d", op, i, j);
            VH_CHECK((b != *v[j].b) == (v[i].want != v[j].want), "%s: != of %d and %d", op, i, j);
        }
    }
}
// a stream that hands out its characters in pieces
struct Pieces : std::streambuf {
    std::string s;
    size_t at, step;
    char c[64];
    Pieces(const std::string &t, size_t st) : s(t), at(0), step(st) { }
    int_type underflow() {
        if (at >= s.size()) return traits_type::eof();
        size_t n = std::min(std::min(step, s.size() - at), sizeof c);
        memcpy(c, s.data() + at, n);
        at += n;
        setg(c, c, c + n);
        return traits_type::to_int_type(c[0]);
    }
};

static void one(uint64_t cs, vh::Rng &r) {
    AssertBoostClearFns();
    AssertBoostFnBefore(AssertBoostThrowExceptionFn);
    nextgroup = N;
    for (int i = 0; i < N; ++i) {
        v[i].cow = r.chance(60);
        v[i].group = i;
        v[i].want = r.chance(50) ? "" : r.bytes(r.below(20), 4, 'a');
        switch (r.below(3)) {
        case 0: v[i].b = new ByteBuffer(v[i].cow); v[i].want = ""; break;
        case 1: v[i].b = new ByteBuffer(v[i].want, v[i].cow); break;
        default: {
            std::string z = v[i].want + std::string(1, '\0');
            if (r.chance(30)) {
                // fewer bytes than the array has
                std::string more = v[i].want + "rest";
                v[i].b = new ByteBuffer(more.data(), v[i].want.size(), v[i].cow);
                break;
            }
            v[i].b = r.chance(50) ? new ByteBuffer(z.c_str(), -1, v[i].cow) : new ByteBuffer(z.data(), v[i].want.size(), v[i].cow);
        }
        }
        vh::logf("%d=%s%s ", i, vh::show(v[i].want).c_str(), v[i].cow ? "(cow)" : "");
    }
    compare("construction");
    int steps = 1 + r.below(40);
    int nshared = 0;
    for (int s = 0; s < steps; ++s) {
        int i = r.below(N), j = r.below(N), op = r.below(24);
        B &x = v[i];
        size_t before = x.b->bufferSize();
        bool refuse = shared(i) && before > 0 && !x.cow;    // a shared buffer may only be copied on write if allowed
        std::string d = r.bytes(r.below(r.chance(80) ? 12 : 3000), 5, 'A');
        size_t avail = x.want.size(), k = r.below(avail + 1), k2 = r.below(avail - k + 1);
        if (shared(i)) ++nshared;
        vh::logf("\n%d.op%d(%d,%zu,%zu,%s)", i, op, j, k, k2, vh::show(d, 30).c_str());
        bool threw = false, mutating = true, invalid = false;
        std::string old = x.want;
        try {
            switch (op) {
            case 0: x.b->append(d); x.want += d; break;
            case 1: x.b->append(d.data(), d.size()); x.want += d; break;
            case 2: x.b->append(*v[j].b); x.want += v[j].want; break;
            case 3: x.b->assign(d); x.want = d; break;
            case 4: if (i == j && shared(i)) { mutating = false; break; }
                x.b->assign(*v[j].b); x.want = v[j].want; break;
            case 5: x.b->assign(d.data(), d.size()); x.want = d; break;
            case 6: x.b->consume(k); x.want.erase(0, k); break;
            case 7: x.b->unextend(k); x.want.erase(avail - k); break;
            case 8: invalid = true; x.b->unextend(avail + 1 + k); break;
            case 9: if (k2) { x.b->replace(k, d.size() >= k2 ? d.data() : std::string(k2, 'z').data(), k2); x.want.replace(k, k2, d.size() >= k2 ? d.substr(0, k2) : std::string(k2, 'z')); } else mutating = false; break;
            case 10: invalid = true; x.b->replace(k, d.data(), avail - k + 1); break;
            case 11: x.b->shift(); break;
            case 12: x.b->reset(); x.want = ""; break;
            case 13: x.b->purge(); x.want = ""; break;
            case 14: x.b->detach(); x.group = nextgroup++; x.want = ""; mutating = false; break;
            case 15: x.b->forceUnique(); own(i); mutating = false; break;
            case 16: *x.b = *v[j].b; x.want = v[j].want; x.group = v[j].group; x.cow = v[j].cow; mutating = false; break;
            case 17: {
                ByteBuffer *n = new ByteBuffer(*v[j].b);
                delete x.b;
                x.b = n; x.want = v[j].want; x.group = v[j].group; x.cow = v[j].cow; mutating = false;
                break;
            }
            case 18: x.b->resizeBuffer(avail + d.size());
                VH_CHECK(x.b->bufferSize() == avail + d.size() && x.b->writeAvailable() == d.size() && x.b->readStart() != NULL, "resizeBuffer");
                break;
            case 19: if (avail) {
                    struct L { L() { __lsan_disable(); } ~L() { __lsan_enable(); } } l;   // the refusal normally ends the program
                    invalid = true; x.b->resizeBuffer(avail - 1);
                } else mutating = false;
                break;
            case 20: {
                // write directly into the buffer
                x.b->forceUnique(); own(i); refuse = false;
                size_t w = std::min(x.b->writeAvailable(), d.size());
                if (r.chance(30)) {
                    w -= w % 4;
                    if (r.chance(50)) memcpy(x.b->writeStartAs<uint32_t>(w / 4), d.data(), w);
                    else { memcpy(x.b->writeStart(0), d.data(), w); x.b->extendAs<uint32_t>(w / 4); }
                } else if (r.chance(50)) memcpy(x.b->writeStart(w), d.data(), w);
                else { memcpy(x.b->writeStartAs<char>(0), d.data(), w); x.b->extend(w); }
                x.want += d.substr(0, w);
                bool t2 = false;
                size_t more = x.b->writeAvailable() + 1;
                try { x.b->extend(more); } catch (AssertBoostException &) { t2 = true; }
                VH_CHECK(t2, "extend beyond the buffer is not refused");
                break;
            }
            case 21: if (avail) { uint8_t *p = x.b->writeableReadStart(); p[k % avail] = '#'; x.want[k % avail] = '#'; } else mutating = false; break;
            default: {
                size_t step = 1 + r.below(20);
                Pieces pb(d, step);
                std::istream in(&pb);
                size_t lim = r.chance(50) ? d.size() + k : r.below(d.size() + 5);
                if (op == 22) {
                    int64_t got = x.b->appendFromStream(in, lim);
                    VH_CHECK(got == (int64_t)std::min(lim, d.size()), "appendFromStream returned %lld", (long long)got);
                    x.want += d.substr(0, lim);
                    mutating = true;
                } else {
                    size_t max = r.chance(60) ? 128 * 1024 * 1024 : r.below(4000);
                    int64_t got = x.b->appendEntireStream(in, max);
                    VH_CHECK(got >= 0 && got <= (int64_t)d.size(), "appendEntireStream returned %lld", (long long)got);
                    VH_CHECK(got == (int64_t)d.size() || x.b->writeAvailable() == 0, "appendEntireStream stopped early");
                    VH_CHECK(x.b->bufferSize() <= std::max(std::max(max, before), avail) , "appendEntireStream exceeds the limit");
                    x.want += d.substr(0, got);
                }
            }
            }
        } catch (AssertBoostException &e) {
            threw = true;
            x.want = old;
        }
        if (op == 14 || op == 15 || op == 16 || op == 17 || !mutating) { VH_CHECK(!threw, "operation refused"); }
        else if (op == 10 || (op == 9 && invalid)) VH_CHECK(threw, "replace beyond the data is not refused");
        else if (refuse) VH_CHECK(threw, "a shared buffer is changed although copying on write is not allowed");
        else VH_CHECK(threw == invalid, threw ? "operation refused" : "invalid operation not refused");
        if (mutating && !(refuse || op == 10)) own(i);
        if (op == 10 || invalid) { VH_CHECK(threw, "invalid operation not refused"); }
        // writes never reach another buffer: every buffer is compared
        compare("operation");
    }
    {
        // a range whose end wraps around is out of range
        bool t2 = false;
        std::string big(8, 'q');
        try { ByteBuffer y(std::string("abcdef")); y.replace((size_t)-3, big.data(), 5); } catch (AssertBoostException &) { t2 = true; }
        VH_CHECK(t2, "replace with a wrapping range is not refused");
    }
    for (int i = 0; i < N; ++i) delete v[i].b;
    if (nshared > 2) vh::nontrivial();
}
VH_MAIN(one, 0)

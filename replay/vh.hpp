// Frame of the bounded native harnesses: the real headers and sources of /repo run against a
// reference, on cases that depend only on (seed, case number).  Each case logs what it does to
// a shared file, so that the failing input is known even after a sanitizer abort.
#ifndef VH_HPP
#define VH_HPP
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <string>
#include <vector>

namespace vh {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { }
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
    bool chance(int pct) { return below(100) < (uint64_t)pct; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    std::string bytes(size_t n, int alphabet = 256, int base = 0) {
        std::string r;
        for (size_t i = 0; i < n; ++i) r += (char)(base + below(alphabet));
        return r;
    }
};
struct Shared { uint64_t case_no, nontrivial, checks, len; char text[1]; };
static const size_t LOGMAX = 1 << 18;
static Shared *sh;
static uint64_t g_case, g_checks, g_nontrivial, g_seed;
inline void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void logf(const char *fmt, ...) {
    if (!sh || sh->len > LOGMAX - 1024) return;
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(sh->text + sh->len, 1000, fmt, ap);
    va_end(ap);
    if (n > 999) n = 999;
    if (n > 0) sh->len += n;
    sh->text[sh->len] = 0;
}
inline std::string show(const std::string &s, size_t max = 200) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        char b[8];
        unsigned char c = s[i];
        if (c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c;
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    if (s.size() > max) r += "...";
    return r + "\"";
}
inline void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
inline void fail(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    char b[2000];
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    printf("FAIL case %llu: %s\n", (unsigned long long)g_case, b);
    fflush(stdout);
    _exit(77);
}
inline void check(bool ok, const char *what) { ++g_checks; if (!ok) fail("%s", what); }
#define VH_CHECK(c, ...) do { ++vh::g_checks; if (!(c)) vh::fail(__VA_ARGS__); } while (0)
inline void nontrivial() { ++g_nontrivial; }

typedef void (*CaseFn)(uint64_t case_no, Rng &r);

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline double cpu() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline void on_prof(int) {
    static const char m[] = "FAIL: case used more than its CPU time allowance (does not terminate?)\n";
    ssize_t n = write(1, m, sizeof m - 1); (void)n;
    _exit(77);
}
inline int run(int argc, char **argv, CaseFn f, uint64_t exhaustive = 0) {
    double seconds = 10; uint64_t cases = 0, from = 0, only = (uint64_t)-1;
    const char *log = NULL;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--seed") g_seed = strtoull(argv[i + 1], NULL, 10);
        else if (a == "--seconds") seconds = atof(argv[i + 1]);
        else if (a == "--cases") cases = strtoull(argv[i + 1], NULL, 10);
        else if (a == "--from") from = strtoull(argv[i + 1], NULL, 10);
        else if (a == "--only") only = strtoull(argv[i + 1], NULL, 10);
        else if (a == "--log") log = argv[i + 1];
    }
    if (log) {
        int fd = open(log, O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shared) + LOGMAX)) { perror("log"); return 3; }
        void *m = mmap(NULL, sizeof(Shared) + LOGMAX, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) { perror("mmap"); return 3; }
        sh = (Shared *)m;
    }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_prof;
    sigaction(SIGPROF, &sa, NULL);
    double t0 = now();
    uint64_t done = 0;
    for (uint64_t c = from; ; ++c) {
        if (only != (uint64_t)-1) c = only;
        else if (cases && c >= from + cases) break;
        else if (c >= exhaustive && now() - t0 > seconds) break;
        g_case = c;
        if (sh) { sh->case_no = c; sh->len = 0; sh->text[0] = 0; }
        struct itimerval it = { { 0, 0 }, { 60, 0 } };
        setitimer(ITIMER_PROF, &it, NULL);
        // the first cases do not depend on the seed (boundary and enumerated cases)
        Rng r(c < exhaustive ? c : g_seed * 0x100000001b3ULL + c * 0x9e3779b97f4a7c15ULL);
        f(c, r);
        ++done;
        if (sh) { sh->nontrivial = g_nontrivial; sh->checks = g_checks; }
        if (only != (uint64_t)-1) break;
    }
    printf("OK cases=%llu nontrivial=%llu checks=%llu\n", (unsigned long long)done, (unsigned long long)g_nontrivial, (unsigned long long)g_checks);
    return 0;
}
}
#define VH_MAIN(fn, nexh) int main(int argc, char **argv) { return vh::run(argc, argv, fn, nexh); }
#endif

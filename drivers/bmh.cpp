// Driver: the real BoyerMooreHorspool; no logic of its own.
#include <BoyerMooreHorspool.cpp>
#include <stddef.h>
typedef lintel::BoyerMooreHorspool B;
#define M(n, ...) extern "C" __attribute__((used)) auto n = __VA_ARGS__;
M(m1, &B::matches) M(m2, &B::find)
extern "C" void b_bytes(B *p, const void *n, size_t l) { new (p) B(n, l); }
extern "C" void b_string(B *p, const std::string &s) { new (p) B(s); }
extern "C" void b_destroy(B *p) { p->~B(); }
extern "C" const size_t off_shift = offsetof(B, bad_char_shift);
extern "C" const size_t off_needle = offsetof(B, needle);
extern "C" const size_t off_len = offsetof(B, needle_length);
extern "C" const size_t off_last = offsetof(B, last);
extern "C" const size_t sizeof_bmh = sizeof(B);
extern "C" const size_t shift_width = sizeof(((B *)0)->bad_char_shift[0]);
extern "C" const size_t shift_count = sizeof(((B *)0)->bad_char_shift) / sizeof(((B *)0)->bad_char_shift[0]);

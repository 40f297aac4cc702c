// Driver: the real ASCIIbeticalB64; no logic of its own.
#include <Lintel/Base64.hpp>
typedef lintel::ASCIIbeticalB64 B;
#define M(n, T, f) extern "C" __attribute__((used)) T n = f;
typedef std::string S;
extern "C" __attribute__((used)) const char *(*b0)() = &B::translate;
extern "C" __attribute__((used)) const char *(*b1)() = &B::detranslate;
extern "C" __attribute__((used)) S (*b2)(S &) = &B::decode;
extern "C" __attribute__((used)) S (*b3)(const char *, size_t) = &B::decode;
extern "C" __attribute__((used)) S (*b4)(uint32_t, int32_t) = &B::encode;
extern "C" __attribute__((used)) void (*b5)(uint32_t, int32_t, char *) = &B::encode;
extern "C" __attribute__((used)) S (*b6)(int32_t, int32_t) = &B::encode;
extern "C" __attribute__((used)) void (*b7)(int32_t, int32_t, char *) = &B::encode;
extern "C" __attribute__((used)) S (*b8)(uint64_t, int32_t) = &B::encode;
extern "C" __attribute__((used)) void (*b9)(uint64_t, int32_t, char *) = &B::encode;
extern "C" __attribute__((used)) S (*b10)(int64_t, int32_t) = &B::encode;
extern "C" __attribute__((used)) void (*b11)(int64_t, int32_t, char *) = &B::encode;
extern "C" __attribute__((used)) S (*b12)(const void *, size_t, int32_t) = &B::encode;
extern "C" __attribute__((used)) void (*b13)(const void *, size_t, int32_t, char *) = &B::encode;
extern "C" __attribute__((used)) void (*b14)(const void *, size_t, int32_t, char *) = &B::encodeBackward;
extern "C" __attribute__((used)) S (*b15)(S, int32_t) = &B::encode;
extern "C" __attribute__((used)) void (*b16)(S, int32_t, char *) = &B::encode;

// Driver: the real hash functions; templates instantiated for the integral widths and pairs.
#include "HashFns.cpp"

#define INST(name, T) extern "C" uint32_t name(const T &v) { return lintel::hash(v); }
INST(hash_u8, uint8_t)
INST(hash_i8, int8_t)
INST(hash_char, char)
INST(hash_u16, uint16_t)
INST(hash_i16, int16_t)
INST(hash_u32, uint32_t)
INST(hash_i32, int32_t)
INST(hash_u64, uint64_t)
INST(hash_i64, int64_t)
extern "C" uint32_t hash_ptr(const int *p) { return lintel::PointerHash<int>()(p); }
extern "C" uint32_t hash_mix3(uint32_t a, uint32_t b, uint32_t c) { return lintel::BobJenkinsHashMix3(a, b, c); }
extern "C" uint32_t hash_mixull(uint64_t v, uint32_t p) { return lintel::BobJenkinsHashMixULL(v, p); }
extern "C" uint32_t hash_bytes(const void *p, size_t n, uint32_t h) { return lintel::hashBytes(p, n, h); }
extern "C" uint32_t hash_string(const std::string &s) { return lintel::hash(s); }
extern "C" uint32_t hash_cstr(const char *s) { return lintel::hashType(s); }
struct HUser { uint32_t hash() const; uint32_t x; };
extern "C" uint32_t hash_member(const HUser &v) { return lintel::hash(v); }
namespace huser {
    struct A { uint32_t x; };
    uint32_t hashType(const A &a);
}
typedef std::pair<huser::A, huser::A> APair;
extern "C" uint32_t hash_pair(const APair &v) { return lintel::hash(v); }

// Driver: the real interpolation search; no logic of its own.
#include <stddef.h>
#include <stdint.h>
#include <algorithm>
#include <boost/format.hpp>
#include <Lintel/unstable/InterpolationSearch.hpp>
#define F extern "C" __attribute__((used))
// an estimate and an order known only by their contracts
struct Estimate { size_t operator()(const int64_t &v, const int64_t &first, const int64_t &last, size_t last_pos) const; };
F const int64_t *s_any(const int64_t *b, const int64_t *e, const int64_t &v) { return lintel::detail::interpolationLowerBound<2, 4, 256>(b, e, v, Estimate(), lintel::Compare<int64_t>()); }
F const int64_t *s_steps(const int64_t *b, const int64_t *e, const int64_t &v) { return lintel::detail::interpolationLowerBound<1, 1, 1>(b, e, v, Estimate(), lintel::Compare<int64_t>()); }
F const int64_t *s_i64(const int64_t *b, const int64_t *e, const int64_t &v) { return lintel::interpolationLowerBound(b, e, v); }
F const uint64_t *s_u64(const uint64_t *b, const uint64_t *e, const uint64_t &v) { return lintel::interpolationLowerBound(b, e, v); }
F const int32_t *s_i32(const int32_t *b, const int32_t *e, const int32_t &v) { return lintel::interpolationLowerBound(b, e, v); }
F const uint32_t *s_u32(const uint32_t *b, const uint32_t *e, const uint32_t &v) { return lintel::interpolationLowerBound(b, e, v); }
F const int8_t *s_i8(const int8_t *b, const int8_t *e, const int8_t &v) { return lintel::interpolationLowerBound(b, e, v); }
F const uint16_t *s_u16(const uint16_t *b, const uint16_t *e, const uint16_t &v) { return lintel::interpolationLowerBound(b, e, v); }
#define EST(n, T) F size_t e_##n(const T &v, const T &f, const T &l, size_t p) { return lintel::EstimateOffset<T>()(v, f, l, p); }
EST(i64, int64_t) EST(u64, uint64_t) EST(i32, int32_t) EST(u32, uint32_t) EST(i8, int8_t) EST(u16, uint16_t)

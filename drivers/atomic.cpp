/* instantiates lintel::Atomic and the unsafe:: functions for the types under contract */
#include <stdint.h>
#include <Lintel/AtomicCounter.hpp>

template class lintel::Atomic<int>;
template class lintel::Atomic<uint32_t>;
template class lintel::Atomic<int64_t>;
template class lintel::Atomic<uint64_t>;
template class lintel::Atomic<uint16_t>;
template class lintel::Atomic<int8_t>;

#define USE_UNSAFE(T, C) \
  template void lintel::unsafe::atomic_store<T, C>(T *, C); \
  template T lintel::unsafe::atomic_exchange<T, C>(T *, C); \
  template bool lintel::unsafe::atomic_compare_exchange_strong<T, C>(T *, T *, C); \
  template T lintel::unsafe::atomic_fetch_add<T, C>(T *, C); \
  template T lintel::unsafe::atomic_fetch_sub<T, C>(T *, C); \
  template T lintel::unsafe::atomic_fetch_or<T, C>(T *, C); \
  template T lintel::unsafe::atomic_fetch_and<T, C>(T *, C); \
  template T lintel::unsafe::atomic_fetch_xor<T, C>(T *, C);

USE_UNSAFE(uint32_t, int)
USE_UNSAFE(int64_t, int)
USE_UNSAFE(uint8_t, int)
USE_UNSAFE(int64_t, uint32_t)
USE_UNSAFE(int16_t, int64_t)
template uint32_t lintel::unsafe::atomic_load<uint32_t>(const uint32_t *);
template int64_t lintel::unsafe::atomic_load<int64_t>(const int64_t *);
template uint8_t lintel::unsafe::atomic_load<uint8_t>(const uint8_t *);
template int16_t lintel::unsafe::atomic_load<int16_t>(const int16_t *);

void use_fence(lintel::memory_order o) { lintel::atomic_thread_fence(o); }

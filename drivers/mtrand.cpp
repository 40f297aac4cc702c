// the random number generators of the library, with every member of RandomTempl instantiated
#define MTR_DRIVER
#include "/repo/src/MersenneTwisterRandom.cpp"
#include <Lintel/MarsagliaRandom.hpp>
template class lintel::RandomTempl<lintel::MersenneTwisterInternal>;
uint32_t use_marsaglia(lintel::MarsagliaRNGTiny &t, lintel::MarsagliaRNGHuge &h, lintel::MarsagliaRNGMicro &m, uint32_t seed) {
    t.init(seed); h.init(seed); m.init(seed);
    return t.randInt() + h.randInt() + m.randInt();
}
template <int N> uint32_t use_size(lintel::Marsaglia<N> &g, uint32_t seed) { g.init(seed); return g.randInt(); }
template uint32_t use_size(lintel::Marsaglia<2048> &, uint32_t);
template uint32_t use_size(lintel::Marsaglia<1024> &, uint32_t);
template uint32_t use_size(lintel::Marsaglia<512> &, uint32_t);
template uint32_t use_size(lintel::Marsaglia<256> &, uint32_t);
template uint32_t use_size(lintel::Marsaglia<128> &, uint32_t);
template uint32_t use_size(lintel::Marsaglia<64> &, uint32_t);
template uint32_t use_size(lintel::Marsaglia<32> &, uint32_t);
template uint32_t use_size(lintel::Marsaglia<16> &, uint32_t);
void use_shuffle(std::vector<int> &v, lintel::MersenneTwisterRandom &r) { MT_random_shuffle(v.begin(), v.end(), r); }

// Driver: StatsCube and HashTupleStats over tuples of three opaque elements.
#define DISABLE_DEBUG_SINVARIANT 1
#include <stddef.h>
#include <stdint.h>
#include <Lintel/HashFns.hpp>
struct EL { uint64_t id; };
bool operator==(const EL &, const EL &);
bool operator<(const EL &, const EL &);
bool operator>(const EL &, const EL &);
uint32_t hashType(const EL &);
#include <Lintel/StatsCube.hpp>
typedef boost::tuple<EL, EL, EL> T3;
typedef lintel::StatsCube<T3> CUBE;
typedef lintel::HashTupleStats<T3> HTS;
struct Use {
    void hts(HTS &h, const HTS &c, const T3 &k, double v, const HTS::WalkFn &w, const HTS::PruneFn &p, HTS::HashUniqueTuple &u, Stats *&s, bool b, size_t &n) {
        h.add(k, v); c.walk(w); c.walkOrdered(w); c.walkZeros(w, b); c.fillHashUniqueTuple(u); c.walkZeros(w, u, b); s = &h.getHashEntry(k); s = &h[k];
        n = c.size(); h.prune(p); h.clear(); HTS x; 
    }
    void cube(CUBE &c, const T3 &k, double v, const HTS &h, const HTS::HashUniqueTuple &u, bool b, Stats &s, const CUBE::WalkFn &w, const CUBE::MyAny &a, Stats *&r, size_t &n,
              const CUBE::PruneFn &p, const CUBE::OptionalCubeFn &of, const CUBE::CubeStatsAddFn &af) {
        c.add(k, v); c.cube(); c.cube(h); c.zeroCube(b); c.zeroCube(h, b); c.zeroCube(h, u, b); c.addToCube(k, s); c.walk(w); c.walkOrdered(w); r = &c.getCubeEntry(a);
        n = c.size(); c.prune(p); c.clear(b); CUBE x; c.setOptionalCubeFn(of); c.setCubeStatsAddFn(af);
    }
};
void (Use::*f1)(HTS &, const HTS &, const T3 &, double, const HTS::WalkFn &, const HTS::PruneFn &, HTS::HashUniqueTuple &, Stats *&, bool, size_t &) = &Use::hts;
void (Use::*f2)(CUBE &, const T3 &, double, const HTS &, const HTS::HashUniqueTuple &, bool, Stats &, const CUBE::WalkFn &, const CUBE::MyAny &, Stats *&, size_t &,
                const CUBE::PruneFn &, const CUBE::OptionalCubeFn &, const CUBE::CubeStatsAddFn &) = &Use::cube;

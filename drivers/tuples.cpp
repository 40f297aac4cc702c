// Driver: the tuple operations for opaque elements, an opaque rest of the tuple and an opaque set of bits.
#include <stddef.h>
#include <stdint.h>
#include <Lintel/HashFns.hpp>
struct EL { uint64_t id; };
bool operator==(const EL &, const EL &);
bool operator<(const EL &, const EL &);
bool operator>(const EL &, const EL &);
uint32_t hashType(const EL &);
#include <Lintel/Tuples.hpp>
namespace boost { namespace tuples {
    // any tuple tail
    struct REST { uint64_t id; };
    uint32_t hash(const REST &);
    void assign(REST &, const REST &);
    template <> struct length<REST> { BOOST_STATIC_CONSTANT(int, value = 7); };
} }
namespace lintel { namespace tuples {
    struct BITS { uint64_t id; bool operator[](size_t) const; };
    using boost::tuples::REST;
    uint32_t bitset_any_hash(const REST &, const BITS &, size_t);
    bool bitset_any_equal(const REST &, const REST &, const BITS &, size_t);
    bool bitset_any_strict_less_than(const REST &, const REST &, const BITS &, const BITS &, size_t);
} }
using namespace lintel::tuples;
typedef boost::tuples::cons<EL, boost::tuples::null_type> One;
typedef boost::tuples::cons<EL, boost::tuples::cons<EL, REST> > Two;
typedef boost::tuples::cons<EL, REST> Step;
typedef boost::tuple<EL, EL, EL> T3;
typedef BitsetAnyTuple<T3> BA;
typedef AnyPair<EL> AP;
typedef boost::tuples::cons<AP, REST> AStep;
struct Use {
    void use(const One &o, const Two &t, const Step &s, const Step &s2, const BITS &b, const BITS &c, size_t n, const BA &x, const BA &y, AP &p, const AP &q,
             const EL &e, AStep &as, const T3 &t3, uint32_t &h, bool &r) {
        h = boost::tuples::hash(o); h = boost::tuples::hash(t); h = boost::tuples::hash(t3); h = TupleHash<T3>()(t3);
        h = bitset_any_hash(o, b, n); h = bitset_any_hash(t, b, n);
        r = bitset_any_equal(s, s2, b, n); r = bitset_any_strict_less_than(s, s2, b, c, n);
        r = x == y; r = x < y; h = hashType(x);
        r = p == q; r = p < q; p.set(e); AP z; AP w(e); h = hashType(q); h = lintel::hash(q); h = lintel::hash(x); h = lintel::hash(t3);
        assign(as, s);
        BA d; BA f(t3);
        h = BitsetAnyTupleHash<T3>()(x);
    }
};
void (Use::*force)(const One &, const Two &, const Step &, const Step &, const BITS &, const BITS &, size_t, const BA &, const BA &, AP &, const AP &, const EL &, AStep &,
                   const T3 &, uint32_t &, bool &) = &Use::use;

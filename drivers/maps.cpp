// Driver: HashMap, HashUnique and RotatingHashMap over the contracts of HashTable, for opaque keys and values.
#define DISABLE_DEBUG_SINVARIANT 1
#include <stdint.h>
#include <stddef.h>
#include <Lintel/RotatingHashMap.hpp>
#include <Lintel/HashUnique.hpp>
struct KEY { uint64_t id; };
struct VAL { uint64_t id; };
struct KH { uint32_t operator()(const KEY &) const; };
struct KE { bool operator()(const KEY &, const KEY &) const; };
std::ostream &operator<<(std::ostream &, const KEY &);
typedef HashMap<KEY, VAL, KH, KE> HM;
typedef HashUnique<KEY, KH, KE> HU;
typedef RotatingHashMap<KEY, VAL, KH, KE> RH;
struct Use {
    void hm(HM &m, const HM &c, const KEY &k, VAL *&v, const VAL *&cv, bool &b, uint32_t &n, size_t &s, uint32_t r) {
        v = m.lookup(k); cv = c.lookup(k); v = &m[k]; b = m.addUnlessExist(k); cv = &c.cGet(k); cv = &c.dGet(k);
        b = c.exists(k); b = m.remove(k); m.clear(); n = c.size(); s = c.capacity(); b = c.empty();
        HM::iterator i = m.begin(); i = m.end(); HM::const_iterator j = c.begin(); j = c.end(); i = m.find(k); j = c.find(k); m.erase(i);
        HM d(c); HM e(2.0); HM f; f = d; m.reserve(r); std::vector<KEY> ks = c.keys(); s = c.memoryUsage(); m.getHashTable();
    }
    void hu(HU &m, const HU &c, const KEY &k, bool &b, uint32_t &n, size_t &s, uint32_t r) {
        b = c.exists(k); b = m.add(k); b = m.addOrReplace(k); m.remove(k); m.clear(); n = c.size(); s = c.capacity(); m.reserve(r);
        HU::iterator i = m.begin(); i = m.end(); HU::const_iterator j = c.begin(); j = c.end(); HU d(c); HU e; e = d;
    }
    void rh(RH &m, const RH &c, const KEY &k, VAL *&v, bool &b, size_t &s, const RH::RotateFn &fn) {
        RH x; v = m.lookup(k); v = &m[k]; b = m.exists(k); b = m.existsNoPromote(k); b = m.remove(k); m.rotate(); m.rotate(fn); m.flushRotate(); m.flushRotate(fn);
        m.walk(fn); s = m.size_recent(); s = m.size_old(); s = m.size(); b = c.empty(); b = m.exists_recent(k); b = m.exists_old(k); s = m.memoryUsage();
    }
};
void (Use::*f1)(HM &, const HM &, const KEY &, VAL *&, const VAL *&, bool &, uint32_t &, size_t &, uint32_t) = &Use::hm;
void (Use::*f2)(HU &, const HU &, const KEY &, bool &, uint32_t &, size_t &, uint32_t) = &Use::hu;
void (Use::*f3)(RH &, const RH &, const KEY &, VAL *&, bool &, size_t &, const RH::RotateFn &) = &Use::rh;

// Driver: instantiates the real HashTable for an opaque element type, hash and equality.
#include <stddef.h>
#include <stdint.h>
#include <Lintel/HashTable.hpp>

struct HD {
    uint64_t a, b, c;
    HD();
    HD(const HD &);
    ~HD();
    HD &operator=(const HD &);
};
struct HHash {
    uint32_t operator()(const HD &a) const;
};
struct HEq {
    bool operator()(const HD &a, const HD &b) const;
};
typedef HashTable<HD, HHash, HEq> HT;
// explicit instantiation would include the members that do not compile (available())
struct Use {
    typedef HT::iterator I;
    typedef HT::const_iterator C;
    void use(HT &t, const HT &c, const HD &d, bool &r, I i, C k, unsigned n) {
        HT x(1.0), y, z(c);
        t.add(d); t.addOrReplace(d, r); t.lookup(d); c.lookup(d); t.randomlookup(n, n); t.remove(d, r); t.clear();
        i == i; i != i; *i; i.operator->(); i.partialReset(); i.atStartOfChain(); i.atEndOfChain(); i.reset(); i.getCurChain(); ++i; i++;
        k == k; k != k; *k; k.operator->(); k.partialReset(); k.atStartOfChain(); k.atEndOfChain(); k.reset(); k.getCurChain(); ++k; k++;
        I j(i); j = i;
        t.begin(n); t.end(); t.find(d); t.erase(i); c.begin(n); c.end(); c.find(d);
        c.size(); c.empty(); t = c; t.reserve(n); c.capacity(); c.memoryUsage(); t.dense(); t.unsafeGetRawDataVector(); c.verifyFreeListSize();
    }
};
void (Use::*force)(HT &, const HT &, const HD &, bool &, HT::iterator, HT::const_iterator, unsigned) = &Use::use;

#define OFF(n, T, f) extern "C" const size_t n = offsetof(T, f);
OFF(off_fl, HT, free_list)
OFF(off_fls, HT, free_list_size)
OFF(off_chains, HT, chains)
OFF(off_ep, HT, entry_points)
OFF(off_tcl, HT, target_chain_length)
OFF(off_data, HT::hte, data)
OFF(off_next, HT::hte, next)
OFF(off_it_table, HT::iterator, mytable)
OFF(off_it_chain, HT::iterator, cur_chain)
OFF(off_it_loc, HT::iterator, chain_loc)
extern "C" const size_t sizeof_ht = sizeof(HT);
extern "C" const size_t sizeof_hte = sizeof(HT::hte);

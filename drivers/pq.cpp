// Driver: instantiates the real PriorityQueue for an opaque element type and comparator.
#include <stddef.h>
#include <stdint.h>
#include <boost/format.hpp>
#include <boost/utility.hpp>
#include <Lintel/PriorityQueue.hpp>

struct PElem {
    uint64_t a, b, c;
    PElem &operator=(const PElem &);
};
struct PCmp {
    bool operator()(const PElem &a, const PElem &b) const;
};
typedef PriorityQueue<PElem, PCmp> PQ;
template class PriorityQueue<PElem, PCmp>;

#define OFF(n, T, f) extern "C" const size_t n = offsetof(T, f);
OFF(off_avail, PQ, size_available)
OFF(off_size, PQ, pq_size)
OFF(off_pq, PQ, pq)
extern "C" const size_t sizeof_pq = sizeof(PQ);

// Driver: instantiates the real Deque template for an opaque element type.
// Every special member of Elem is declared only, so what is proved holds for any T whose
// copy constructor / destructor obey the assumed contracts in specs/deque.py.
#include <stddef.h>
#include <stdint.h>
#include <Lintel/Deque.hpp>

struct Elem {
    uint64_t a, b, c;
    Elem(const Elem &);
    ~Elem();
    Elem &operator=(const Elem &);
};
typedef Deque<Elem> DQ;
template class Deque<Elem>;

#define OFF(n, T, f) extern "C" const size_t n = offsetof(T, f);
OFF(off_deque, DQ, deque)
OFF(off_front, DQ, q_front)
OFF(off_back, DQ, q_back)
OFF(off_size, DQ, q_size)
extern "C" const size_t sizeof_dq = sizeof(DQ);
OFF(off_it_deque, DQ::iterator, mydeque)
OFF(off_it_pos, DQ::iterator, cur_pos)

// Driver: the real ConstantString; no logic of its own.
#define private public
#include <ConstantString.cpp>
#undef private
#include <stddef.h>
typedef ConstantString CS;
typedef ConstantStringValue CSV;
#define F extern "C" __attribute__((used))
F void k_string(CS *p, const std::string &s) { new (p) CS(s); }
F void k_chars(CS *p, const char *s) { new (p) CS(s); }
F void k_bytes(CS *p, const void *s, uint32_t n) { new (p) CS(s, n); }
F void k_empty(CS *p) { new (p) CS(); }
F void k_copy(CS *p, const CS &o) { new (p) CS(o); }
F void k_assign(CS *p, const CS &o) { *p = o; }
F uint32_t k_size(const CS &a) { return a.size(); }
F uint32_t k_length(const CS &a) { return a.length(); }
F const char *k_data(const CS &a) { return a.data(); }
F const char *k_c_str(const CS &a) { return a.c_str(); }
F bool k_is_empty(const CS &a) { return a.empty(); }
F void k_str(std::string *r, const CS &a) { new (r) std::string(a.str()); }
F uint32_t k_hash(const CS &a) { return a.hash(); }
F unsigned k_map_hash(const CS &a) { return HashMap_hash<const ConstantString>()(a); }
F char k_index(const CS &a, size_t i) { return a[i]; }
F int k_compare(const CS &a, const CS &b) { return a.compare(b); }
F int k_compare_string(const CS &a, const std::string &b) { return a.compare(b); }
F bool k_equal(const CS &a, const CS &b) { return a.equal(b); }
F bool k_lt(const CS &a, const CS &b) { return a < b; }
F bool k_le(const CS &a, const CS &b) { return a <= b; }
F bool k_eq(const CS &a, const CS &b) { return a == b; }
F bool k_ne(const CS &a, const CS &b) { return a != b; }
F bool k_gt(const CS &a, const CS &b) { return a > b; }
F bool k_ge(const CS &a, const CS &b) { return a >= b; }
F bool k_ne_string(const CS &a, const std::string &b) { return a != b; }
F bool k_ne_chars(const CS &a, const char *b) { return a != b; }
F std::ostream &k_write(std::ostream &o, const CS &a) { return o << a; }
F unsigned k_hte_hash(const CSV *k) { return CS::hteHash()(k); }
F bool k_hte_equal(const CSV *a, const CSV *b) { return CS::hteEqual()(a, b); }
F const int buffer_bytes = CS::buffer_size;
F const size_t off_data = offsetof(CS::buffer, data);
F const size_t off_size = offsetof(CS::buffer, size);
F const size_t off_used = offsetof(CS::buffer, amt_used);
F const size_t sizeof_buffer = sizeof(CS::buffer);

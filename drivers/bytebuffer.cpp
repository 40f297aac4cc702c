// Driver: the real NoCopyByteBuffer and ByteBuffer; every member emitted, no logic of its own.
#define DISABLE_DEBUG_LINTELLOG 1
#include <Lintel/ByteBuffer.hpp>
#include <stddef.h>
using lintel::ByteBuffer;
using lintel::NoCopyByteBuffer;
typedef NoCopyByteBuffer N;
typedef ByteBuffer BB;
#define M(n, ...) extern "C" __attribute__((used)) auto n = __VA_ARGS__;
M(n1, &N::empty) M(n2, &N::bufferSize) M(n3, &N::readAvailable) M(n4, &N::readStart) M(n5, &N::writeableReadStart)
M(n6, &N::consume) M(n7, &N::writeAvailable) M(n8, &N::writeStart) M(n9, &N::extend) M(n10, &N::unextend)
M(n11, &N::resizeBuffer) M(n12, &N::shift) M(n13, &N::reset) M(n14, &N::purge)
M(b1, &BB::empty) M(b2, &BB::bufferSize) M(b3, &BB::readAvailable) M(b4, &BB::readStart) M(b5, &BB::writeableReadStart)
M(b6, &BB::consume) M(b7, &BB::writeAvailable) M(b8, &BB::writeStart) M(b9, &BB::extend) M(b10, &BB::unextend)
M(b11, &BB::resizeBuffer) M(b12, &BB::shift) M(b13, &BB::reset) M(b14, &BB::purge) M(b15, &BB::detach)
M(b16, static_cast<void (BB::*)(const BB &)>(&BB::append)) M(b17, static_cast<void (BB::*)(const std::string &)>(&BB::append))
M(b18, static_cast<void (BB::*)(const void *, size_t)>(&BB::append)) M(b19, &BB::replace)
M(b20, static_cast<void (BB::*)(const BB &)>(&BB::assign)) M(b21, static_cast<void (BB::*)(const std::string &)>(&BB::assign))
M(b22, static_cast<void (BB::*)(const void *, size_t)>(&BB::assign)) M(b23, &BB::operator==) M(b24, &BB::operator!=)
M(b25, &BB::forceUnique) M(b26, &BB::appendEntireStream) M(b27, &BB::appendFromStream) M(b28, &BB::asString) M(b29, &BB::uniqueify)
M(b30, static_cast<BB &(BB::*)(const BB &)>(&BB::operator=))
M(b31, &BB::readStartAs<uint32_t>) M(b32, &BB::writeStartAs<uint32_t>) M(b33, &BB::extendAs<uint32_t>)
extern "C" void bb_default(BB *p, bool c) { new (p) BB(c); }
extern "C" void bb_string(BB *p, const std::string &s, bool c) { new (p) BB(s, c); }
extern "C" void bb_chars(BB *p, const char *s, ssize_t n, bool c) { new (p) BB(s, n, c); }
extern "C" void bb_copy(BB *p, const BB &f) { new (p) BB(f); }
extern "C" void bb_destroy(BB *p) { p->~BB(); }
extern "C" void ncb_default(N *p) { new (p) N(); }
extern "C" void ncb_destroy(N *p) { p->~N(); }
extern "C" const size_t off_data = offsetof(N, byte_data);
extern "C" const size_t off_dsize = offsetof(N, data_size);
extern "C" const size_t off_front = offsetof(N, front);
extern "C" const size_t off_back = offsetof(N, back);
extern "C" const size_t sizeof_ncb = sizeof(N);
extern "C" const size_t off_rep = offsetof(BB, rep);
extern "C" const size_t off_cow = offsetof(BB, allow_copy_on_write);
extern "C" const size_t sizeof_bb = sizeof(BB);

// Driver: the real clock conversions (inline members of Clock) and the cycle-counter clock.
#include "Clock.cpp"
typedef Clock::Tfrac Tfrac;
extern "C" {
Tfrac ck_seconds(double s) { return Clock::secondsToTfrac(s); }
Tfrac ck_micro(uint32_t s, uint32_t u) { return Clock::secMicroToTfrac(s, u); }
Tfrac ck_nano(uint32_t s, uint32_t n) { return Clock::secNanoToTfrac(s, n); }
uint32_t ck_sec(Tfrac t) { return Clock::TfracToSec(t); }
uint32_t ck_usec(Tfrac t) { return Clock::TfracToMicroSec(t); }
uint32_t ck_nsec(Tfrac t) { return Clock::TfracToNanoSec(t); }
Clock::Tll ck_tll(Tfrac t) { return Clock::TfracToTll(t); }
double ck_double(Tfrac t) { return Clock::TfracToDouble(t); }
double ck_idouble(int64_t t) { return Clock::int64TfracToDouble(t); }
Tfrac ck_offset(Tfrac t, double d) { return Clock::TfracOffsetDouble(t, d); }
struct timeval ck_timeval(Tfrac t) { return Clock::TfracToStructTimeval(t); }
Tfrac ck_now(Clock &c) { return c.todccTfrac(); }
}

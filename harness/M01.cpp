// @SOURCES: ecl_time/src/lib/timestamp_*.cpp ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @WRAP: clock_gettime
// @ASSUME: instants within 2^62 ns so that sums are representable;; doubles from exact binary fractions and decimals up to 1e9 seconds;; the system clock is replaced by chosen readings and failures
#include "util.hpp"
#include <cmath>
#include <limits>
#include <sstream>
#include <cstring>
#include <ecl/time/timestamp.hpp>
#include <ecl/time/duration.hpp>
using ecl::TimeStamp; using ecl::TimeStampBase;
namespace { bool on; timespec mono, real; int fail_errno, reads_mono, reads_real; }
extern "C" int __real_clock_gettime(clockid_t, timespec*);
extern "C" int __wrap_clock_gettime(clockid_t c, timespec* t) { if (!on) return __real_clock_gettime(c, t); if (fail_errno) { errno = fail_errno; return -1; } if (c == CLOCK_REALTIME) { *t = real; ++reads_real; } else { *t = mono; ++reads_mono; } return 0; }
namespace {
typedef __int128 I; const I G = 1000000000;
std::string str(I n) { bool neg = n < 0; if (neg) n = -n; char b[64]; snprintf(b, sizeof b, "%s%lld.%09lld", neg ? "-" : "", (long long)(n / G), (long long)(n % G)); return b; }
I inst(const TimeStampBase& t) { return (I)t.sec() * G + t.nsec(); }
I inst(double d) { return (I)std::llround(d * 1e9); }
void good(const TimeStampBase& t, I want, const char* key, const char* what) {
  mc::validated(); MC_CHECK(inst(t) == want, key, "%s: %ld s %ld ns (%s) instead of %s", what, t.sec(), t.nsec(), str(inst(t)).c_str(), str(want).c_str());
  MC_CHECK(std::labs(t.nsec()) < 1000000000L && !(t.sec() > 0 && t.nsec() < 0) && !(t.sec() < 0 && t.nsec() > 0), "normalised", "%s: %s is stored as %ld s and %ld ns", what, str(want).c_str(), t.sec(), t.nsec());
  MC_CHECK(t.msec() == (long)(want % G / 1000000) && t.usec() == (long)(want % G / 1000), "parts", "%s: %s has %ld ms and %ld us", what, str(want).c_str(), t.msec(), t.usec());
  long double v = (long double)want / 1e9L; double d = t; MC_CHECK(std::fabs(d - v) <= 3 * std::numeric_limits<double>::epsilon() * std::max(1.0L, std::fabs(v)), "to-double", "%s: %s converts to %.17g", what, str(want).c_str(), d);
}
std::vector<I> instants() {
  std::vector<I> v; static const long long base[] = {0, 1, 9, 10, 99, 1000, 99999, 1000000, 9999999, 99999999, 100000000, 300000000, 499999999, 500000000, 500000001, 700000000, 999999998, 999999999, 1000000000, 1000000001, 1300000000, 1700000000, 1999999999, 2000000000, 2000000001, 2700000000, 1700000000000000001LL, 1700000000000000002LL, 1700000000999999999LL, (1LL << 31) * 1000000000LL, (1LL << 61) + 7};
  for (long long b : base) { v.push_back(b); if (b) v.push_back(-(I)b); } return v;
}
const std::vector<I> vals = instants();
TimeStamp make(I n) { return TimeStamp((time_t)(n / G), (long)(n % G)); }
}
MC_SCENARIO(pairs) {
  I a = mc::pick(vals), b = mc::pick(vals); mc::trace("%s with %s", str(a).c_str(), str(b).c_str()); mc::step(20);
  TimeStamp x = make(a), y = make(b); TimeStampBase bx((time_t)(a / G), (long)(a % G)); good(x, a, "construct", "construction"); good(bx, a, "construct", "construction");
  struct C { bool got, want; const char* op; };
  const TimeStamp cx = x, cy = y;
  for (C c : {C{x == y, a == b, "=="}, C{x != y, a != b, "!="}, C{x < y, a < b, "<"}, C{x > y, a > b, ">"}, C{x <= y, a <= b, "<="}, C{x >= y, a >= b, ">="}, C{bx == y, a == b, "base =="}, C{bx < y, a < b, "base <"}}) MC_CHECK(c.got == c.want, "compare", "%s %s %s gives %d", str(a).c_str(), c.op, str(b).c_str(), c.got);
  for (C c : {C{cx == cy, a == b, "=="}, C{cx != cy, a != b, "!="}, C{cx < cy, a < b, "<"}, C{cx > cy, a > b, ">"}, C{cx <= cy, a <= b, "<="}, C{cx >= cy, a >= b, ">="}}) MC_CHECK(c.got == c.want, "compare-const", "constant %s %s constant %s gives %d", str(a).c_str(), c.op, str(b).c_str(), c.got);
  good(x + y, a + b, "sum", "the sum"); good(x - y, a - b, "difference", "the difference");
  good(x, a, "operand", "the left operand afterwards"); good(y, b, "operand", "the right operand afterwards");
  MC_CHECK(inst(cx + cy) == a + b && inst(cx - cy) == a - b, "const-arithmetic", "sum and difference of constant %s and %s are %s and %s", str(a).c_str(), str(b).c_str(), str(inst(cx + cy)).c_str(), str(inst(cx - cy)).c_str());
  { TimeStamp z = x; z += y; good(z, a + b, "sum", "the in-place sum"); good(y, b, "operand", "the right operand afterwards"); z = y; good(z, b, "assign", "assignment"); } { TimeStamp z = x; z -= y; good(z, a - b, "difference", "the in-place difference"); TimeStamp w(x - y); good(w, a - b, "difference", "a stamp built from the difference"); }
  if (a == b) { x += x; good(x, a + a, "self", "a stamp added to itself"); y -= y; good(y, 0, "self", "a stamp less itself"); }
}
MC_SCENARIO(chains) {
  static const long long small[] = {0, 1, -1, 300000000, -300000000, 700000000, -700000000, 999999999, -999999999, 1000000000, -1000000000, 1700000000, -1700000000, 2000000001, -2000000001}; int depth = mc::tiered(3, 4);
  I a = small[mc::choose(mc::tiered(9, 15))]; TimeStamp x = make(a); std::vector<std::string> h;
  for (int d = 0; d < depth; ++d) { int op = mc::choose(4); I b = small[mc::choose(15)]; mc::step(); TimeStamp y = make(b); mc::trace("%c %s", op % 2 ? '-' : '+', str(b).c_str()); switch (op) { case 0: x += y; a += b; break; case 1: x -= y; a -= b; break; case 2: x = x + y; a += b; break; case 3: x = x - y; a -= b; break; } good(x, a, "chain", "a chain of sums and differences"); mc::state(mc::mix((uint64_t)(long long)a, d)); }
}
MC_SCENARIO(printed) {
  I a = mc::pick(vals); TimeStamp x = make(a); mc::step(); mc::validated(); std::ostringstream o; o << "<" << x << ">"; MC_CHECK(o.str() == "<" + str(a) + ">", "printed", "%s is printed as %s", str(a).c_str(), o.str().c_str());
  I b = mc::pick(vals); TimeStamp y = make(b); std::ostringstream p; p << (x - y) << " " << (x + y); MC_CHECK(p.str() == str(a - b) + " " + str(a + b), "printed", "difference and sum of %s and %s are printed as %s", str(a).c_str(), str(b).c_str(), p.str().c_str());
}
MC_SCENARIO(components) {
  static const long secs[] = {0, 1, -1, 3, -3, 2147483648L, -2147483648L}; static const long ns[] = {0, 1, -1, 500000000, -500000000, 999999999, -999999999}; long s = mc::pick(secs), n = mc::pick(ns); bool bad = (s > 0 && n < 0) || (s < 0 && n > 0); int how = mc::choose(4); if (bad && !h::checked) mc::skip(); mc::step(); mc::validated(); TimeStamp t(7, 8); TimeStampBase b(7, 8);
  int o = h::outcome([&] { switch (how) { case 0: t = TimeStamp(s, n); break; case 1: t.stamp(s, n); break; case 2: b = TimeStampBase(s, n); break; case 3: b.stamp(s, n); break; } });
  MC_CHECK(o == (bad ? (int)ecl::InvalidInputError : (int)h::Ok), "reject", "%ld s and %ld ns: %s", s, n, h::oname(o).c_str()); I w = bad ? 7 * G + 8 : (I)s * G + n, u = 7 * G + 8; good(t, how < 2 ? w : u, "stamp", "a stamp"); good(b, how < 2 ? u : w, "stamp", "a stamp");
}
MC_SCENARIO(doubles) {
  static const double whole[] = {0, 1, 2, 3, 59, 1000, 1048576, 1700000000, 999999999}; static const double frac[] = {0, 0.5, 0.25, 0.125, 0.7, 0.3, 0.1, 0.000000001, 0.00000142, 0.999999999, 0.9999999995, 0.001, 0.099999999, 0.123456789}; double d = (mc::pick(whole) + mc::pick(frac)) * (mc::flip() ? -1 : 1); int how = mc::choose(4); mc::step(); mc::validated(); TimeStamp t(7, 8); TimeStampBase b(7, 8);
  switch (how) { case 0: t = TimeStamp(d); break; case 1: t.stamp(d); break; case 2: t = d; break; case 3: b.stamp(d); t = TimeStamp(b); break; }
  long double err = (long double)inst(t) - (long double)d * 1e9L; MC_CHECK(std::fabs(err) <= 1.000001L, "from-double", "%.17g becomes %ld s %ld ns", d, t.sec(), t.nsec()); good(t, inst(t), "from-double", "a stamp from a double");
  double back = t; MC_CHECK(std::fabs(back - d) <= 1.0001e-9 + 2 * std::numeric_limits<double>::epsilon() * std::fabs(d), "round-trip", "%.17g converts to a stamp and back to %.17g", d, back);
  if (d == std::floor(d) || std::fabs(d) < 4e6 && d * 8 == std::floor(d * 8)) MC_CHECK((long double)inst(t) == (long double)d * 1e9L, "from-double", "%.17g becomes %ld s %ld ns", d, t.sec(), t.nsec());
}
MC_SCENARIO(clock) {
  static const timespec when[] = {{0, 0}, {1, 0}, {1700000000, 999999999}, {5, 1}, {4294967296L, 500000000}}; static const int errs[] = {0, EINVAL, EFAULT, EPERM}; mono = mc::pick(when); real = mc::pick(when); int err = mc::pick(errs), how = mc::choose(4); if (err && !h::checked) mc::skip(); I m = (I)mono.tv_sec * G + mono.tv_nsec, r = (I)real.tv_sec * G + real.tv_nsec; TimeStamp t(7, 8); const TimeStamp* ret = &t; reads_mono = reads_real = 0; mc::step(); mc::validated();
  fail_errno = err; on = true; int o = h::outcome([&] { switch (how) { case 0: t = TimeStamp(); break; case 1: ret = &t.stamp(); break; case 2: t = TimeStamp::realtime_now(); break; case 3: { ecl::Duration d; t = d; break; } } }); on = false; fail_errno = 0;
  if (err) { int want = err == EINVAL ? ecl::NotSupportedError : err == EFAULT ? ecl::OutOfRangeError : ecl::UnknownError; MC_CHECK(o == want, "clock-error", "a clock failing with %s: %s", strerror(err), h::oname(o).c_str()); good(t, 7 * G + 8, "clock-error", "the stamp after a failure"); return; }
  MC_CHECK(o == h::Ok && ret == &t, "clock", "reading the clock: %s", h::oname(o).c_str()); good(t, how == 2 ? r : m, "clock", "the current time");
}

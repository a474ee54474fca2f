// @SOURCES: ecl_exceptions/src/lib/*.cpp ecl_time/src/lib/timestamp_*.cpp ecl_time/src/lib/sleep_pos.cpp ecl_time/src/lib/snooze_pos.cpp
// @BUILDS: release
// @WRAP: clock_gettime nanosleep clock_nanosleep
// @ASSUME: clocks and sleeps are replaced by a simulated clock that validates its arguments as the system does, may be late or interrupted;; a snooze that is behind without validation may catch up or resynchronise;; periods of 1 ns to 3 s
#include "util.hpp"
#include <cmath>
#include <memory>
#include <ecl/time/sleep.hpp>
#include <ecl/time/snooze.hpp>
namespace {
typedef long long I; const I G = 1000000000; bool on; I now, slept, asked, target; int calls, clock_errors; bool invalid; int fail_at, fail_errno, late;
bool bad(const timespec* t) { return t->tv_nsec < 0 || t->tv_nsec >= G || t->tv_sec < 0; }
}
extern "C" int __real_clock_gettime(clockid_t, timespec*); extern "C" int __real_nanosleep(const timespec*, timespec*); extern "C" int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
extern "C" int __wrap_clock_gettime(clockid_t c, timespec* t) { if (!on) return __real_clock_gettime(c, t); I v = now + (c == CLOCK_REALTIME ? 1600000000 * G : 0); t->tv_sec = v / G; t->tv_nsec = v % G; return 0; }
extern "C" int __wrap_nanosleep(const timespec* r, timespec* rem) {
  if (!on) return __real_nanosleep(r, rem); int k = calls++; if (bad(r)) { invalid = true; errno = EINVAL; return -1; } I n = r->tv_sec * G + r->tv_nsec; asked = n;
  if (k == fail_at) { errno = fail_errno; if (fail_errno == EINTR) { I part = n / 3; slept += part; now += part; if (rem) { rem->tv_sec = (n - part) / G; rem->tv_nsec = (n - part) % G; } } return -1; }
  slept += n; now += n; return 0;
}
extern "C" int __wrap_clock_nanosleep(clockid_t c, int flags, const timespec* r, timespec* rem) {
  if (!on) return __real_clock_nanosleep(c, flags, r, rem); int k = calls++; if (bad(r)) { invalid = true; return EINVAL; } if (flags != TIMER_ABSTIME) { I n = r->tv_sec * G + r->tv_nsec; target = now + n; } else target = r->tv_sec * G + r->tv_nsec - (c == CLOCK_REALTIME ? 1600000000 * G : 0);
  if (target <= now) return 0; if (k == fail_at) { now += (target - now) / 2; return EINTR; } now = target + late; return 0;
}
namespace {
struct Env { Env() { on = true; now = 0; slept = 0; calls = 0; invalid = false; fail_at = -1; fail_errno = 0; late = 0; } ~Env() { on = false; } };
// one sleeper class at a time: its unit in nanoseconds
template <class S, bool Dur> struct Call { static void go(S& s, I n) { s(ecl::Duration(n / G, n % G)); } };
template <class S> struct Call<S, false> { static void go(S&, I) {} };
template <class S, bool Dur> void sleeper(I unit, const char* name) {
  Env e; static const unsigned long vals[] = {0, 1, 7, 999, 1000, 1001, 1500, 999999, 1000000, 1000001, 2500000, 999999999, 1000000000, 1000000001, 2147483648ul, 4294967297ul, 5000000007ul};
  auto ok = [&](unsigned long v) { return (__int128)v * unit <= (__int128)2200000000LL * G; }; std::vector<unsigned long> vs; for (unsigned long v : vals) if (ok(v)) vs.push_back(v);
  unsigned long v0 = mc::pick(vs); bool dflt = v0 == 0 && mc::flip(); std::unique_ptr<S> s(dflt ? new S : new S(v0)); I conf = (I)v0 * unit; int depth = mc::tiered(2, 3); mc::trace("%s of %lu", name, v0);
  auto dur = [&] { ecl::Duration d = s->duration(); mc::validated(); MC_CHECK(d.sec() * G + d.nsec() == conf, "duration", "%s configured for %lld ns says %ld s %ld ns", name, conf, d.sec(), d.nsec()); };
  MC_CHECK(calls == 0, "constructor", "constructing a %s sleeps", name); dur();
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(Dur ? 3 : 2), fault = mc::choose_dev(4); static const int errs[] = {0, EINTR, EFAULT, ENOSYS}; slept = 0; calls = 0; invalid = false; fail_errno = errs[fault]; fail_at = fault ? 0 : -1; mc::step(); mc::validated();
    int o; if (op == 0) { mc::trace("()"); o = h::outcome([&] { (*s)(); }); } else if (op == 1) { unsigned long v = mc::pick(vs); conf = (I)v * unit; mc::trace("(%lu)", v); o = h::outcome([&] { (*s)(v); }); } else { static const I ds[] = {0, 1, 1500000000, 999999999, 4000000001LL}; conf = mc::pick(ds); mc::trace("(duration %lld ns)", conf); o = h::outcome([&] { Call<S, Dur>::go(*s, conf); }); }
    MC_CHECK(!invalid, "valid-request", "%s for %lld ns asks the system for an invalid time", name, conf); MC_CHECK(calls >= 1, "slept", "%s for %lld ns does not sleep", name, conf);
    if (fault && !h::checked) MC_CHECK(o == h::Ok, "failure", "%s throws in a release build", name);
    else if (fault) { MC_CHECK(o == (fault == 1 ? ecl::InterruptedError : fault == 2 ? ecl::MemoryError : ecl::UnknownError) || (fault == 1 && o == h::Ok && slept == conf), "failure", "%s whose system call fails with %s: %s", name, strerror(fail_errno), h::oname(o).c_str()); }
    else MC_CHECK(o == h::Ok && slept == conf, "slept", "%s for %lld ns: slept %lld ns, %s", name, conf, slept, h::oname(o).c_str());
    dur();
  }
}
}
MC_SCENARIO(seconds) { mc::set_deviations(1); sleeper<ecl::Sleep, true>(G, "Sleep"); }
MC_SCENARIO(milliseconds) { mc::set_deviations(1); sleeper<ecl::MilliSleep, false>(1000000, "MilliSleep"); }
MC_SCENARIO(microseconds) { mc::set_deviations(1); sleeper<ecl::MicroSleep, false>(1000, "MicroSleep"); }
MC_SCENARIO(nanoseconds) { mc::set_deviations(1); sleeper<ecl::NanoSleep, false>(1, "NanoSleep"); }
MC_SCENARIO(duration_sleep) {   // configured by a duration, also ones no sleep can last
  Env e; static const I ds[] = {0, 1, 999999999, 1000000000, 1500000000, 86400 * G + 5, -1, -1000000000, -1500000000}; I n = mc::pick(ds); if (n < 0 && !h::checked) mc::skip(); mc::step(); mc::validated(); ecl::Duration dn(n / G, n % G); ecl::Sleep a(dn), b(2ul); ecl::Duration got = a.duration(); MC_CHECK(got.sec() * G + got.nsec() == n, "duration", "a sleep of %lld ns says %ld s %ld ns", n, got.sec(), got.nsec());
  for (int k = 0; k < 2; ++k) { slept = calls = 0; invalid = false; int o = h::outcome([&] { if (k) b(dn); else a(); }); MC_CHECK(o == (n < 0 ? (int)ecl::InvalidInputError : (int)h::Ok) && (n < 0 || slept == n), "slept", "a sleep of %lld ns: slept %lld ns, %s", n, slept, h::oname(o).c_str()); }
}
MC_SCENARIO(snooze) {
  Env e; static const I periods[] = {10000000, 1, 999999999, 1000000000, 1500000000, 2999999999LL, 3}; static const I starts[] = {0, 990000000, 5 * G + 999999999, 1700000000 * G, 7 * G + 1, 500000000}; now = mc::pick(starts); I p = mc::pick(periods); bool validate = mc::flip(), dflt = p == 10000000 && !validate && mc::flip(); if (p == 10000000 && !dflt) p = 20000000; mc::set_deviations(1);
  ecl::Duration pd(p / G, p % G); std::unique_ptr<ecl::Snooze> s(dflt ? new ecl::Snooze : validate ? new ecl::Snooze(pd, true) : mc::flip() ? new ecl::Snooze(pd) : new ecl::Snooze(pd, false)); I base = now; int depth = mc::tiered(4, 5); mc::trace("period %lld ns from %lld ns%s", p, now, validate ? ", validating" : "");
  for (int d = 0; d < depth; ++d) {
    { ecl::Duration g = s->period(); MC_CHECK(g.sec() * G + g.nsec() == p, "period", "the period is %ld s %ld ns instead of %lld ns", g.sec(), g.nsec(), p); }
    I works[] = {0, p / 2, p, p + 1, 3 * p + p / 2, -1, -2}; int wi = mc::choose(7); mc::step(); mc::validated();
    if (wi == 5) { now += 3; s->initialise(); base = now; mc::trace("initialise"); continue; }
    if (wi == 6) { p = p == 1000000 ? 20000000 : 1000000; validate = mc::flip(); now += 7; s->period(ecl::Duration(p / G, p % G), validate); base = now; mc::trace("period %lld ns%s", p, validate ? ", validating" : ""); continue; }
    now += works[wi]; int env = mc::choose_dev(3); late = env == 1 ? 700 : 0; fail_at = env == 2 ? 0 : -1; calls = 0; invalid = false; target = -1; I before = now, next = base + p; mc::trace("work %lld ns", works[wi]);
    (*s)();
    MC_CHECK(!invalid, "valid-request", "the wake-up at %lld ns is requested as an invalid time", next); if (before == next && calls == 0) { base = next; continue; } MC_CHECK(calls >= 1 || before > next, "slept", "at %lld ns, before the wake-up at %lld ns, no sleep is requested", before, next);
    if (before <= next) { MC_CHECK(target == next, "schedule", "at %lld ns the wake-up is set for %lld ns instead of %lld ns", before, target, next); base = next; if (env != 2) MC_CHECK(now == next + (before < next ? late : 0), "schedule", "woke at %lld ns instead of %lld ns", now, next); }
    else { MC_CHECK(target == before + p || (!validate && (target == next || calls == 0)), "resync", "at %lld ns, after the wake-up at %lld ns was missed, the wake-up is set for %lld ns", before, next, target); base = calls ? target : next; }
    late = 0;
  }
}

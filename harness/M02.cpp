// @SOURCES: ecl_exceptions/src/lib/*.cpp ecl_time/src/lib/timestamp_*.cpp ecl_time/src/lib/stopwatch.cpp ecl_time/src/lib/cpuwatch_rt.cpp ecl_time/src/lib/frequency.cpp ecl_time/src/lib/time_data.cpp
// @BUILDS: release
// @FLAGS: -include unistd.h
// @WRAP: clock_gettime clock
// @ASSUME: the clocks are replaced by counters the harness advances, each at its own rate, so that reading the wrong clock shows;; statistics are asked of at least one sample of up to a million seconds;; the first interval of a frequency monitor counts from its construction, intervals stay below 100000 s
#include <memory>
#include "util.hpp"
#include <cmath>
#include <limits>
#include <ecl/time/stopwatch.hpp>
#include <ecl/time/cpuwatch.hpp>
#include <ecl/time/frequency.hpp>
#include <ecl/time/time_data.hpp>
namespace { typedef long long I; typedef long double LD; const I G = 1000000000; bool on; I mono, real, cpu, thr, tick; int calls; }
extern "C" int __real_clock_gettime(clockid_t, timespec*);
extern "C" int __wrap_clock_gettime(clockid_t c, timespec* t) { if (!on) return __real_clock_gettime(c, t); ++calls; mono += tick; real += tick; cpu += tick; thr += tick; I v = c == CLOCK_REALTIME ? real : c == CLOCK_PROCESS_CPUTIME_ID ? cpu : c == CLOCK_THREAD_CPUTIME_ID ? thr : mono; t->tv_sec = v / G; t->tv_nsec = v % G; return 0; }
extern "C" clock_t __real_clock();
extern "C" clock_t __wrap_clock() { if (!on) return __real_clock(); return (cpu + tick) / 1000; }
namespace {
struct Clocks { Clocks() { static const I starts[] = {0, 5 * G + 999999999, 1700000000 * G + 500000000}; mono = mc::pick(starts); real = 1600000000 * G + 7; cpu = mono / 1000 + 3; thr = 11; tick = 0; on = true; } ~Clocks() { on = false; } };
I inst(const ecl::TimeStamp& t) { return t.sec() * G + t.nsec(); }
LD sec(const ecl::TimeStamp& t) { return (LD)t.sec() + t.nsec() / 1e9L; }
void check(const ecl::TimeStamp& t, I want, const char* key, const char* what) { mc::validated(); MC_CHECK(inst(t) == want && std::labs(t.nsec()) < G, key, "%s is %ld s %ld ns instead of %lld ns", what, t.sec(), t.nsec(), want); }
template <class W> void watch(I& clk, bool cpu_watch) {
  Clocks c; static const I deltas[] = {0, 1, 300000000, 999999999, 1000000000, 2700000001LL}; bool slow = mc::flip(); tick = slow ? 1500000000 : 0; I before = clk; W* w = new W; tick = 0; I after = clk, mark = 0, sum = 0, start = 0;
  // where the watch took its start reading: asked once, then binding for everything else
  { ecl::TimeStamp e = w->elapsed(); start = clk - inst(e); MC_CHECK(start >= before && start <= after, "start", "a watch constructed between %lld and %lld ns counts from %lld", before, after, start); mark = start; }
  int depth = mc::tiered(4, 5);
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(5); mc::step();
    switch (op) {
      case 0: { ecl::TimeStamp e = w->elapsed(); mc::trace("elapsed"); check(e, clk - start, "elapsed", "the total"); break; }
      case 1: { ecl::TimeStamp s = w->split(); mc::trace("split"); check(s, clk - mark, "split", "a split"); sum += inst(s); mark = clk; ecl::TimeStamp e = w->elapsed(); check(e, sum, "split-sum", "the total after a split, against the sum of the splits,"); break; }
      case 2: w->restart(); mc::trace("restart"); start = mark = clk; sum = 0; break;
      case 3: case 4: { I dt = mc::pick(deltas); mc::trace("+%lld ns", dt); if (cpu_watch) { cpu += dt; mono += 3 * dt + 5; thr += dt / 2; } else { mono += dt; cpu += dt / 3; real += dt + 11; } if (op == 4) { W copy(*w); check(copy.elapsed(), clk - start, "copy", "the total of a copied watch"); check(copy.split(), clk - mark, "copy", "the split of a copied watch"); copy.restart(); } break; }
    }
    if (op == 0) { check(w->elapsed(), clk - start, "elapsed", "the total asked twice"); }
  }
  check(w->elapsed(), clk - start, "elapsed", "the total at the end"); check(w->split(), clk - mark, "split", "the split at the end"); delete w;
}
}
MC_SCENARIO(stopwatch) { watch<ecl::StopWatch>(mono, false); }
MC_SCENARIO(cpuwatch) { watch<ecl::CpuWatch>(cpu, true); }
MC_SCENARIO(time_data) {
  static const double vals[] = {0, 1.5, 0.000000001, 2.25, 0.999999999, 86400.5, 1000000, 0.7}; ecl::TimeData t; std::vector<I> m; int depth = mc::tiered(5, 6);
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(9); mc::step(); if (op == 8) { t.clear(); m.clear(); continue; }
    double v = vals[op]; I n = (I)std::llround(v * 1e9); t.push_back(ecl::Duration(n / G, n % G)); m.push_back(n); mc::trace("%lld ns", n);
    LD s = 0, q = 0; for (I k : m) s += k; LD avg = s / m.size() / 1e9L; for (I k : m) { LD x = k / 1e9L - avg; q += x * x; } LD var = q / m.size(), sd = std::sqrt(var); const ecl::TimeData& ct = t; mc::validated(3);
    struct { LD got, want, tol; const char* name; } r[] = {{sec(ct.average()), avg, 2e-9L + 1e-15L * avg, "average"}, {sec(ct.variance()), var, 3e-9L + 3e-9L * sd + 1e-14L * (var + avg * avg), "variance"}, {sec(ct.stdDev()), sd, 3e-9L + 1e-14L * (sd + avg), "standard deviation"}};
    for (auto& x : r) MC_CHECK(std::fabs(x.got - x.want) <= x.tol, "statistics", "%s of %zu samples is %.12Lg instead of %.12Lg", x.name, m.size(), x.got, x.want);
  }
}
MC_SCENARIO(long_time_data) {
  static const int ns[] = {8, 17, 64, 100, 256, 1000}; int n = mc::pick(ns), pat = mc::choose(4); bool again = mc::flip(); ecl::TimeData t; std::vector<I> m; if (again) { for (int i = 0; i < 5; ++i) t.push_back(ecl::Duration(i, 5)); t.clear(); } mc::step(n); mc::trace("%d durations of pattern %d", n, pat);
  for (int i = 0; i < n; ++i) { I v = pat == 0 ? (I)i * 1000003 : pat == 1 ? (i % 7) * 300000000LL : pat == 2 ? 999999999 : (i * i % 11) * G + i; t.push_back(ecl::Duration(v / G, v % G)); m.push_back(v); } LD s = 0, q = 0; for (I k : m) s += k; LD avg = s / n / 1e9L; for (I k : m) { LD x = k / 1e9L - avg; q += x * x; } LD var = q / n, sd = std::sqrt(var); mc::validated(3);
  struct { LD got, want, tol; const char* name; } r[] = {{sec(t.average()), avg, 2e-9L + 1e-14L * avg, "average"}, {sec(t.variance()), var, 3e-9L + 3e-9L * sd + 1e-12L * (var + avg * avg), "variance"}, {sec(t.stdDev()), sd, 3e-9L + 1e-12L * (sd + avg) + (sd < 1e-3L ? 6e-5L : 3e-9L / sd), "standard deviation"}};
  for (auto& x : r) MC_CHECK(std::fabs(x.got - x.want) <= x.tol, "statistics", "%s of %d samples is %.12Lg instead of %.12Lg", x.name, n, x.got, x.want);
}
namespace { bool close(float a, LD b) { return std::fabs(a - b) <= 1e-9L + 3e-7L * std::fabs(b); } }
MC_SCENARIO(frequency) {
  Clocks c; bool rt = mc::flip(); static const float windows[] = {2.0f, 0.5f}; float window = mc::pick(windows); std::unique_ptr<ecl::FrequencyMonitor> fp(rt ? new ecl::FrequencyMonitor(window, true) : window == 2.0f ? new ecl::FrequencyMonitor() : new ecl::FrequencyMonitor(window)); ecl::FrequencyMonitor& f = *fp; I& clk = rt ? real : mono; I& other = rt ? mono : real; I last = clk, wstart = clk, period = (I)(window * 1e9); int count = 0; I lo = -1, hi = 0; bool conn = false; LD hz = -1, mn = -1, mx = -1; int depth = mc::tiered(6, 7); bool analysed = false;
  static const I deltas[] = {1, 400000000, 999999999, 2000000001}; mc::trace("window %g, %s clock", window, rt ? "real-time" : "monotonic");
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(3); mc::step();
    if (op == 0) { I dt = mc::pick(deltas); mc::trace("+%lld ns", dt); clk += dt; other += dt + (d == 1 ? 7 * G : 0); continue; }
    if (op == 1) { f.update(); mc::trace("update"); ++count; I iv = clk - last; if (lo < 0 || iv < lo) lo = iv; if (iv > hi) hi = iv; last = clk; conn = true; MC_CHECK(f.diagnostics().has_connection, "connection", "no connection right after an update"); continue; }
    const ecl::FrequencyDiagnostics& r = f.analyse(); mc::trace("analyse"); mc::validated(); analysed = true;
    if (clk - wstart > period) { LD w = (clk - wstart) / 1e9L; wstart = clk; if (!count) { conn = false; hz = mn = mx = 0; } else { conn = true; hz = count / w; mn = lo / 1e9L; mx = hi / 1e9L; count = 0; lo = -1; hi = 0; } }
    MC_CHECK(&r == &f.diagnostics(), "diagnostics", "analysis and diagnostics are different objects"); MC_CHECK(r.has_connection == conn, "connection", "connection is reported as %d", r.has_connection);
    MC_CHECK(close(r.hz, hz), "hz", "frequency %g instead of %Lg", r.hz, hz); MC_CHECK(close(r.minimum_interval, mn) && close(r.maximum_interval, mx), "interval", "intervals from %g to %g instead of %Lg to %Lg", r.minimum_interval, r.maximum_interval, mn, mx);
    MC_CHECK(close(r.last_incoming, last / 1e9L), "last", "last update reported at %.9g instead of %.12Lg", r.last_incoming, last / 1e9L);
  }
  (void)analysed;
}

// @SOURCES: ecl_exceptions/src/lib/*.cpp ecl_devices/src/lib/*.cpp ecl_devices/src/lib/detail/*.cpp ecl_streams/src/lib/*.cpp ecl_formatters/src/lib/*.cpp ecl_threads/src/lib/mutex_pos.cpp ecl_time/src/lib/*.cpp
// @BUILDS: release
// @WRAP: clock_gettime
// @ASSUME: histories of up to 4 (thorough 6) operations on one stream and 4 (5) on two streams sharing a file, short lines; the system clock is replaced by chosen readings;; the prefix is "seconds.nanoseconds [HEADER] : " with the disabled parts left out
#include "util.hpp"
#include <memory>
#include <map>
#include <ctime>
#include <unistd.h>
#include <ecl/streams/log_stream.hpp>
#include <ecl/streams/manipulators.hpp>
extern "C" int __real_clock_gettime(clockid_t, timespec*);
namespace { bool on = false; timespec now; long calls = 0; }
extern "C" int __wrap_clock_gettime(clockid_t c, timespec* t) { if (!on || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC)) return __real_clock_gettime(c, t); *t = now; ++calls; return 0; }
namespace {
using namespace ecl;
struct On { On() { on = true; } ~On() { on = false; } };
std::string slurp(const std::string& p) { std::string c; FILE* f = fopen(p.c_str(), "r"); if (!f) return c; char b[8192]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) c.append(b, n); fclose(f); return c; }
const timespec times[] = {{12, 5}, {1700000000, 999999999}, {13, 0}, {99, 123456789}, {2147483648L, 1000000}, {7, 99999}, {8, 1000}, {9, 999}, {10, 10}, {11, 12345678}};
int evaluated = 0; template <class T> T eval(T v) { ++evaluated; return v; }
struct Model { std::map<int, std::string> modes; bool header = true, stamp = true; std::string pending; };
struct World {
  std::string paths[2]; std::unique_ptr<LogStream> s[2]; Model m[2]; std::string out[2]; int nfiles;
  World(bool shared, bool late) { nfiles = shared ? 1 : 2; for (int i = 0; i < 2; ++i) { paths[i] = std::string(mc::scratch_dir()) + "/log" + (char)('0' + (shared ? 0 : i)); unlink(paths[i].c_str()); } for (int i = 0; i < 2; ++i) { if (late) { void* mem = ::operator new(sizeof(LogStream)); memset(mem, i ? 0 : 1, sizeof(LogStream)); ::operator delete(mem); s[i].reset(new LogStream()); s[i]->device().open(paths[i], New); } else s[i].reset(new LogStream(paths[i], New)); } }
  std::string& file(int i) { return out[nfiles == 1 ? 0 : i]; }
  void log(int i, int mode, int what) {
    Model& k = m[i]; LogStream& l = *s[i]; bool want = k.modes.count(mode); std::string t; int before = evaluated; mc::trace("stream %d: LOG mode %d, text %d at %ld.%09ld", i, mode, what, (long)now.tv_sec, now.tv_nsec);
    switch (what) { case 0: LOG(l, mode) << eval("line\n"); t = "line\n"; break; case 1: LOG(l, mode) << eval(42) << ' ' << 0.5 << std::string(" s") << "\n"; t = "42 0.500000 s\n"; break; case 2: if (want) LOG(l, mode) << eval(""); else LOG(l, mode) << eval("never"); t = ""; break; default: LOG(l, mode) << eval("end") << ecl::endl; t = "end\n"; break; }
    mc::step(); MC_CHECK(evaluated - before == (want ? 1 : 0), "evaluated", "the inserted expressions of a statement in %s mode were evaluated %d times", want ? "an enabled" : "a disabled", evaluated - before);
    if (want) { if (k.stamp) { char b[64]; snprintf(b, sizeof b, "%ld.%09ld ", (long)now.tv_sec, now.tv_nsec); k.pending += b; } if (k.header) k.pending += "[" + k.modes[mode] + "] "; if (k.stamp || k.header) k.pending += ": "; k.pending += t; if (what == 3) { file(i) += k.pending; k.pending.clear(); } }
  }
  void flush(int i) { mc::trace("stream %d: FLUSH", i); FLUSH((*s[i])); mc::step(); if (!m[i].modes.empty()) { file(i) += m[i].pending; m[i].pending.clear(); } }
  void set(int i, int what) { mc::trace("stream %d: switch %d", i, what); LogStream& l = *s[i]; Model& k = m[i]; mc::step(); switch (what) { case 0: l.enableHeader(); k.header = true; break; case 1: l.disableHeader(); k.header = false; break; case 2: l.enableTimeStamp(); k.stamp = true; break; default: l.disableTimeStamp(); k.stamp = false; } }
  void enable(int i, int mode, const char* h) { mc::trace("stream %d: enable mode %d %s", i, mode, h); s[i]->enableMode(mode, h); m[i].modes[mode] = h; mc::step(); }
  void disable(int i, int mode) { mc::trace("stream %d: disable mode %d", i, mode); s[i]->disableMode(mode); m[i].modes.erase(mode); mc::step(); }
  void observe(int i) { mc::validated(2); MC_CHECK(s[i]->isEnabled() == !m[i].modes.empty(), "enabled", "isEnabled() is %d", s[i]->isEnabled()); for (int k = 0; k < 3; ++k) MC_CHECK(s[i]->isModeEnabled(k) == (m[i].modes.count(k) > 0), "enabled", "isModeEnabled(%d) is %d", k, s[i]->isModeEnabled(k)); }
  void finish() { for (int i = 0; i < 2; ++i) { if (m[i].modes.empty()) enable(i, 0, ""); flush(i); } for (auto& p : s) p.reset(); for (int i = 0; i < nfiles; ++i) { std::string g = slurp(paths[i]); mc::validated(); mc::state(mc::hash(out[i])); MC_CHECK(g == out[i], "lines", "file %d holds %s instead of %s", i, mc::show(g).c_str(), mc::show(out[i]).c_str()); } }
};
MC_SCENARIO(one_stream, .shard(4)) {
  On o; World w(false, mc::flip()); now = times[0]; int n = mc::tiered(4, 6); w.enable(0, 1, "A"); if (mc::flip()) w.enable(0, 0, "");
  for (int i = 0; i < n; ++i) { now = times[i]; int k = mc::choose(10); if (k < 3) { if (k == 0) w.log(0, 1, 0); else if (k == 1) w.log(0, 0, 1); else w.log(0, 1, 3); } else if (k == 3) w.flush(0); else if (k < 8) w.set(0, k - 4); else if (k == 8) w.enable(0, mc::choose(2), "B"); else w.disable(0, mc::choose(2)); w.observe(0); }
  w.log(0, 1, 1); w.finish();
}
MC_SCENARIO(two_streams, .shard(4)) {
  On o; World w(mc::flip(), false); int n = mc::tiered(4, 5); w.enable(0, 0, "M0"); w.enable(1, 0, "N0");
  for (int i = 0; i < n; ++i) { now = times[i]; int s = mc::choose(2), k = mc::choose(7); switch (k) { case 0: w.log(s, 0, 0); break; case 1: w.log(s, 2, 1); break; case 2: w.log(s, 0, 3); break; case 3: w.flush(s); break; case 4: w.set(s, mc::range(0, 3)); break; case 5: w.enable(s, 2, "two"); break; default: w.disable(s, 0); } w.observe(0); w.observe(1); } w.finish();
}
MC_SCENARIO(stamps) { On o; World w(false, false); w.enable(0, -3, "neg"); static const long secs[] = {0, 1, 1700000000, 2147483647L, 2147483648L, 9999999999L}; long s = mc::pick(secs); now.tv_sec = s; static const long ns[] = {0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, 999999, 1000000, 9999999, 10000000, 99999999, 100000000, 999999999}; now.tv_nsec = mc::pick(ns); w.log(0, -3, 0); w.log(0, 0, mc::choose(3)); now.tv_sec++; w.log(0, -3, 2); w.finish(); }
// Many statements, long headers and long texts, past every buffer on the way.
MC_SCENARIO(long_lines, .shard(2)) {
  On o; World w(false, mc::flip()); static const int hl[] = {0, 1, 31, 32, 300}; static const int tl[] = {1, 100, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 9000}; std::string hd(mc::pick(hl), 'H'); int len = mc::pick(tl), n = mc::pick(std::vector<int>{1, 2, 7}), fl = mc::choose(3); w.enable(0, 1, hd.c_str()); w.enable(0, -5, "neg"); mc::trace("%d lines of %d, header of %zu", n, len, hd.size());
  for (int i = 0; i < n; ++i) { now = times[i]; int mode = i % 2 ? -5 : 1; std::string t; for (int k = 0; k < len; ++k) t += (char)('a' + (k * 7 + i) % 26); if (i % 3 == 2) LOG((*w.s[0]), mode) << t.c_str() << "\n"; else LOG((*w.s[0]), mode) << t << "\n"; char b[64]; snprintf(b, sizeof b, "%ld.%09ld ", (long)now.tv_sec, now.tv_nsec); w.m[0].pending += b + ("[" + w.m[0].modes[mode] + "] : ") + t + "\n"; mc::step(); if (fl == 1 || (fl == 2 && i == n / 2)) w.flush(0); }
  w.finish();
}
}

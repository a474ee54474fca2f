// @SOURCES: ecl_exceptions/src/lib/*.cpp ecl_devices/src/lib/*.cpp ecl_devices/src/lib/detail/*.cpp ecl_streams/src/lib/manipulators.cpp ecl_formatters/src/lib/*.cpp ecl_threads/src/lib/mutex_pos.cpp ecl_time/src/lib/*.cpp
// @BUILDS: release
// @ASSUME: streams over string, file, shared file and console devices; sequences of up to 3 (thorough 4) insertions; floats are the fixed notation with six digits of the standard library
#include "util.hpp"
#include <memory>
#include <cmath>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <ecl/streams/string_stream.hpp>
#include <ecl/streams/file_streams.hpp>
#include <ecl/streams/shared_file_stream.hpp>
#include <ecl/streams/console_streams.hpp>
#include <ecl/streams/manipulators.hpp>
#include <ecl/formatters.hpp>
namespace {
using namespace ecl;
std::string slurp(const std::string& p) { std::string c; FILE* f = fopen(p.c_str(), "r"); if (!f) return c; char b[8192]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) c.append(b, n); fclose(f); return c; }
std::string path(int i) { return std::string(mc::scratch_dir()) + "/s" + (char)('0' + i); }
// Points descriptor fd to a scratch file for the lifetime of the object.
struct Redirect { int fd, saved; Redirect(int d, const std::string& p) : fd(d) { fflush(stdout); saved = dup(fd); int n = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(n, fd); ::close(n); } ~Redirect() { fflush(stdout); dup2(saved, fd); ::close(saved); } };
struct Sink { virtual ~Sink() {} virtual void put(int item) = 0; virtual void flush() = 0; virtual std::string got() = 0; };
std::string big() { std::string s; for (int i = 0; i < 5000; ++i) s += (char)('!' + i % 90); return s; }
std::string fixed(double d) { char b[400]; snprintf(b, sizeof b, "%f", d); return b; }
const int Items = 38;
// Inserts item i, returns its text.
template <class S> std::string insert(S& s, int i) {
  static const std::string bigs = big(), nul("a\0b", 3), empty; Format<int> fi; Format<double> fd; Format<std::string> fs;
  switch (i) {
    case 0: s << 'x'; return "x"; case 1: s << '\0'; return std::string(1, '\0'); case 2: s << '\xff'; return "\xff"; case 3: s << "text"; return "text"; case 4: s << ""; return ""; case 5: s << nul; return nul; case 6: s << empty; return ""; case 7: s << bigs; return bigs; case 8: s << bigs.c_str(); return bigs;
    case 9: s << true; return "true"; case 10: s << false; return "false"; case 11: s << (short)-32768; return "-32768"; case 12: s << 2147483647; return "2147483647"; case 13: s << (-2147483647 - 1); return "-2147483648"; case 14: s << (long)(-9223372036854775807L - 1); return "-9223372036854775808"; case 15: s << 9223372036854775807LL; return "9223372036854775807"; case 16: s << (unsigned short)65535; return "65535"; case 17: s << 4294967295u; return "4294967295"; case 18: s << 18446744073709551615ul; return "18446744073709551615"; case 19: s << 10000000000000000000ull; return "10000000000000000000"; case 20: s << 0; return "0";
    case 21: s << 0.5f; return fixed(0.5f); case 22: s << -1.25; return fixed(-1.25); case 23: s << 1e300; return fixed(1e300); case 24: s << 1e-9; return fixed(1e-9); case 25: s << -0.0; return fixed(-0.0); case 26: s << 123456789.1234567; return fixed(123456789.1234567);
    case 27: s << ecl::endl; return "\n"; case 28: s << fi(42, 6, RightAlign, Dec); return "    42"; case 29: s << fd(3.14159, 2, 5); return " 3.14"; case 30: s << fs("ab", 4, LeftAlign); return "ab  "; case 31: { Format<int> h(8, RightAlign, Hex); s << h(255); return "0x000000ff"; }
    case 32: s << "a" << 1 << 'b' << true << "c"; return "a1btruec"; case 33: { std::string t(4096, 'p'); s << t; return t; } case 34: { std::string t(4095, 'q'); s << t; return t; } case 35: { std::string t(4097, 'r'); s << t; return t; } case 36: s << ecl::clrscr; return std::string(80, '\n'); default: { s << "x" << ecl::endl << "y"; return "x\ny"; }
  }
}
template <class S> struct Stream : Sink { S* s; int slot; std::unique_ptr<Redirect> r; std::string m; Stream(int sl) : slot(sl) {} void put(int i) override { m += insert(*s, i); } void flush() override { s->flush(); } ~Stream() { delete s; } };
struct StringSink : Stream<StringStream> { StringSink(int sl) : Stream(sl) { s = new StringStream(); } std::string got() override { return s->device().str(); } };
struct FileSink : Stream<OFileStream> { FileSink(int sl) : Stream(sl) { unlink(path(sl).c_str()); s = new OFileStream(path(sl), New); } std::string got() override { return slurp(path(slot)); } };
struct SharedSink : Stream<SharedFileStream> { SharedSink(int sl) : Stream(sl) { unlink(path(sl).c_str()); s = new SharedFileStream(path(sl), New); } std::string got() override { delete s; s = nullptr; return slurp(path(slot)); } };
struct OutSink : Stream<OConsoleStream> { OutSink(int sl) : Stream(sl) { r.reset(new Redirect(1, path(sl))); s = new OConsoleStream(); } std::string got() override { return slurp(path(slot)); } };
struct ErrSink : Stream<EConsoleStream> { ErrSink(int sl) : Stream(sl) { r.reset(new Redirect(2, path(sl))); s = new EConsoleStream(); } std::string got() override { return slurp(path(slot)); } };
Sink* make(int kind, int slot) { switch (kind) { case 0: return new StringSink(slot); case 1: return new FileSink(slot); case 2: return new SharedSink(slot); case 3: return new OutSink(slot); default: return new ErrSink(slot); } }
const char* const names[] = {"string", "file", "shared file", "console", "error console"};
std::string model(Sink& s, int kind) { switch (kind) { case 0: return static_cast<StringSink&>(s).m; case 1: return static_cast<FileSink&>(s).m; case 2: return static_cast<SharedSink&>(s).m; case 3: return static_cast<OutSink&>(s).m; default: return static_cast<ErrSink&>(s).m; } }
void compare(Sink& s, int kind) { std::string m = model(s, kind); s.flush(); std::string g = s.got(); mc::validated(); mc::state(mc::mix(mc::hash(m), kind)); if (g != m) { size_t i = 0; while (i < g.size() && i < m.size() && g[i] == m[i]) ++i; mc::fail("text", "%s stream: %zu bytes arrived, %zu were inserted; they differ from byte %zu on: %s instead of %s", names[kind], g.size(), m.size(), i, mc::show(g.substr(i, 40)).c_str(), mc::show(m.substr(i, 40)).c_str()); } }
MC_SCENARIO(sequences, .shard(2)) {
  int kind = mc::choose(5); std::unique_ptr<Sink> s(make(kind, 0)); int n = mc::range(1, mc::tiered(2, 3)); mc::trace("%s stream", names[kind]); for (int i = 0; i < n; ++i) { int it = mc::choose(Items); mc::trace("item %d", it); s->put(it); mc::step(); if (it == 27 && kind != 2) { std::string g = s->got(), m = model(*s, kind); MC_CHECK(g == m, "end of line", "%s stream: after an end of line %zu of %zu bytes have arrived", names[kind], g.size(), m.size()); } if (i + 1 < n && mc::flip()) { mc::trace("flush"); s->flush(); } } compare(*s, kind);
}
// Two streams, items in every order: neither alters the other.
MC_SCENARIO(two_streams, .shard(3)) {
  int ka = mc::choose(5), kb = mc::choose(5); if (ka == kb && ka >= 3) mc::skip(); if (ka == 3 && kb == 4) {} std::unique_ptr<Sink> a(make(ka, 0)), b(make(kb, 1)); mc::trace("%s and %s stream", names[ka], names[kb]); static const int few[] = {5, 12, 22, 27, 28, 29, 34, 30, 32}; int n = mc::tiered(3, 4);
  for (int i = 0; i < n; ++i) { int w = mc::choose(2), it = few[mc::choose(mc::thorough() ? 9 : 6)]; mc::trace("item %d to %d", it, w); (w ? *b : *a).put(it); mc::step(); } compare(*a, ka); compare(*b, kb);
}
template <class T> void all_values() { const std::vector<T>& e = h::edges<T>(); T v = mc::pick(e); StringStream s; s << 'a' << v << 'z'; std::ostringstream o; o << 'a' << v << 'z'; mc::validated(); mc::step(); mc::trace("%s", o.str().c_str()); MC_CHECK(s.device().str() == o.str(), "value", "inserting gives %s", s.device().str().c_str()); }
#define ALL(T, N) MC_SCENARIO(values_##N) { all_values<T>(); }
ALL(short, short) ALL(int, int) ALL(long, long) ALL(long long, llong) ALL(unsigned short, ushort) ALL(unsigned int, uint) ALL(unsigned long, ulong) ALL(unsigned long long, ullong)
MC_SCENARIO(characters) { int c = mc::choose(256), n = mc::choose(3); StringStream s; std::string m; for (int i = 0; i <= n; ++i) { s << (char)c; m += (char)c; } mc::validated(); MC_CHECK(s.device().str() == m, "value", "character %d arrives as %s", c, mc::show(s.device().str()).c_str()); }
MC_SCENARIO(float_values) { static const double man[] = {1, 1.5, 1.0 / 3, 9.9999999, 5e-7}; double d = mc::pick(man); int e = mc::range(-330, 308); d = d * pow(10.0, e); if (std::isinf(d)) mc::skip(); if (mc::flip()) d = -d; bool f = mc::flip(); StringStream s; std::string m; if (f) { float x = (float)d; if (std::isinf(x)) mc::skip(); s << x << '|'; m = fixed(x) + "|"; } else { s << d << '|'; m = fixed(d) + "|"; } mc::validated(); mc::step(); mc::trace("%.17g", d); MC_CHECK(s.device().str() == m, "value", "inserting gives '%s' instead of '%s'", s.device().str().c_str(), m.c_str()); }
// Inserting into a stream whose device is not open is an error and nothing is written.
MC_SCENARIO(closed) { bool shared = mc::flip(); int item = mc::choose(Items); int r; bool failed = false, none = false; if (shared) { SharedFileStream s; r = h::outcome([&] { none = insert(s, item).empty(); }); failed = s.fail(); } else { OFileStream s; r = h::outcome([&] { none = insert(s, item).empty(); }); failed = s.fail(); } mc::validated(); MC_CHECK(h::checked ? r == OpenError : r == h::Ok && (failed || none || shared), "closed", "inserting item %d into a closed stream gives %s", item, h::oname(r).c_str()); }
}

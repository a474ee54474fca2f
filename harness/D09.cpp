// @SOURCES: ecl_exceptions/src/lib/*.cpp ecl_devices/src/lib/console.cpp ecl_devices/src/lib/detail/*.cpp
// @BUILDS: release
// @ASSUME: byte strings up to length 4 (thorough 5) over an alphabet with NUL, 0xff, newline and a letter in every split, and lengths around one and two times the internal buffer; descriptors 0, 1 and 2 are redirected to files, /dev/full and a directory
#include "util.hpp"
#include <memory>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <ecl/devices/console.hpp>
namespace {
using namespace ecl;
const char alphabet[] = {'a', '\0', '\n', '\xff'};
std::string path(const char* n) { return std::string(mc::scratch_dir()) + "/" + n; }
std::string slurp(const std::string& p) { std::string c; int f = open(p.c_str(), O_RDONLY); char b[8192]; long n; while ((n = read(f, b, sizeof b)) > 0) c.append(b, n); close(f); return c; }
struct Redirect { int fd, saved; Redirect(int d, const std::string& p) : fd(d) { fflush(stdout); saved = dup(fd); int n = ::open(p.c_str(), O_RDWR | O_CREAT | O_APPEND, 0600); dup2(n, fd); ::close(n); } ~Redirect() { fflush(stdout); clearerr(stdout); clearerr(stderr); dup2(saved, fd); ::close(saved); } };
template <class C> void output(int fd, const char* name) {
  std::string p = path(name); unlink(p.c_str()); Redirect r(fd, p); C c; std::string m; size_t flushed = 0; int ops = mc::range(1, mc::tiered(3, 4)); int lens[] = {0, 1, 4094, 4095, 4096, 8191};
  for (int i = 0; i < ops; ++i) {
    int k = mc::choose(4 + 4 + 6 + 1); mc::trace("op %d", k); long n = 0, want = 1;
    if (k < 4) { n = c.write(alphabet[k]); m += alphabet[k]; } else if (k < 8) { int l = 2; std::string s; for (int j = 0; j < l; ++j) s += alphabet[(k + j) % 4]; n = c.write(s.data(), l); m += s; want = l; } else if (k < 14) { std::string s; for (int j = 0; j < lens[k - 8]; ++j) s += (char)(j * 7 + i); n = c.write(s.data(), s.size()); m += s; want = s.size(); } else { c.flush(); n = want = 0; flushed = m.size(); }
    mc::step(); mc::validated(); MC_CHECK(n == want, "accepted", "write of %ld bytes returns %ld", want, n); std::string g = slurp(p); MC_CHECK(g.size() >= flushed && g.size() <= m.size() && m.compare(0, g.size(), g) == 0, "bytes", "%zu bytes emitted, %zu flushed, %zu written, or they differ", g.size(), flushed, m.size());
  }
  c.flush(); std::string g = slurp(p); mc::validated(); mc::state(mc::hash(m)); MC_CHECK(g == m, "bytes", "%zu bytes emitted, %zu written, or they differ", g.size(), m.size()); MC_CHECK(c.open(), "open", "not open");
}
MC_SCENARIO(out, .shard(3)) { output<OConsole>(1, "out"); }
MC_SCENARIO(err, .shard(3)) { output<EConsole>(2, "err"); }
template <class C> void bytewise(int fd) { std::string p = path("b"); unlink(p.c_str()); Redirect r(fd, p); C c; int n = mc::choose(6); int len[] = {4094, 4095, 4096, 4097, 8190, 9000}; std::string m; for (int i = 0; i < len[n]; ++i) { char ch = (char)(i * 31 + i / 256); c.write(ch); m += ch; } c.flush(); mc::step(len[n]); mc::validated(); MC_CHECK(slurp(p) == m, "bytes", "%d bytes written one by one are not emitted", len[n]); }
MC_SCENARIO(out_bytewise) { bytewise<OConsole>(1); }
MC_SCENARIO(err_bytewise) { bytewise<EConsole>(2); }
// Two devices of the same kind keep their own pending bytes.
MC_SCENARIO(two_devices) { std::string p = path("t"); unlink(p.c_str()); Redirect r(1, p); OConsole a, b; int ops = mc::tiered(4, 5); std::string pa, pb, m; for (int i = 0; i < ops; ++i) { int k = mc::choose(4); std::string s(1, (char)('0' + i)); if (k == 0) { a.write(s.data(), 1); pa += s; } else if (k == 1) { b.write(s[0]); pb += s; } else if (k == 2) { a.flush(); m += pa; pa.clear(); } else { b.flush(); m += pb; pb.clear(); } mc::step(); } a.flush(); m += pa; b.flush(); m += pb; mc::validated(); MC_CHECK(slurp(p) == m, "bytes", "two devices: '%s' instead of '%s'", slurp(p).c_str(), m.c_str()); }
template <class C> void full(int fd) { if (!h::checked) mc::skip(); Redirect r(fd, "/dev/full"); C c; int n = mc::choose(4); static const int len[] = {1, 100, 4095, 5000}; std::string s(len[n], 'x'); int o = h::outcome([&] { c.write(s.data(), s.size()); c.flush(); }); mc::validated(); MC_CHECK(o == WriteError, "unreported", "writing %d bytes to a full device gives %s", len[n], h::oname(o).c_str()); }
MC_SCENARIO(out_full, .noleak()) { full<OConsole>(1); }
MC_SCENARIO(err_full, .noleak()) { full<EConsole>(2); }
void feed(const std::string& s) { std::string p = path("in"); int f = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (write(f, s.data(), s.size()) != (long)s.size()) abort(); close(f); if (!freopen(p.c_str(), "r", stdin)) abort(); clearerr(stdin); }
void input(const std::string& t) {
  feed(t); IConsole c; MC_CHECK(c.open(), "open", "the input console is said to be closed"); size_t at = 0; static const int sizes[] = {1, 2, 3, 5, 6000}; bool ended = false; int mode = mc::choose(7);   // 0-4: always that block size, 5: characters, 6: chosen every time
  for (int i = 0; i < 9000 && !ended; ++i) {
    int k = mode < 6 ? mode : 1 + mc::choose(3); if (mode == 6 && k == 3) k = 5; mc::step();
    if (k == 5) { char ch = 'Z'; long n = -1; int o = h::outcome([&] { n = c.read(ch); }); mc::validated(); if (at < t.size()) { MC_CHECK(o == h::Ok && n == 1 && ch == t[at], "bytes", "character %zu: read gives %s, %ld, %02x instead of %02x", at, h::oname(o).c_str(), n, (unsigned char)ch, (unsigned char)t[at]); ++at; } else { MC_CHECK((h::checked ? o == ReadError : o == h::Ok && n == 0) && ch == 'Z', "end", "reading at the end gives %s, character %02x", h::oname(o).c_str(), (unsigned char)ch); ended = true; } }
    else { int sz = sizes[k]; std::vector<char> b(sz + 4, 'Z'); long n = -1; int o = h::outcome([&] { n = c.read(b.data(), sz); }); mc::validated(); for (size_t j = sz; j < b.size(); ++j) MC_CHECK(b[j] == 'Z', "overrun", "reading %d bytes writes beyond them", sz);
      if (sz == 1 && at < t.size() && n == 0) { if (mode < 6) return; continue; }   // a block of one byte has no room besides the terminator
      if (at >= t.size()) { MC_CHECK(o == ReadError || (o == h::Ok && n == 0), "end", "reading at the end gives %s, %ld", h::oname(o).c_str(), n); ended = true; continue; }
      size_t nl = t.find('\n', at), line = (nl == std::string::npos ? t.size() : nl + 1) - at; MC_CHECK(o == h::Ok && n >= 1 && n <= sz && (size_t)n <= line, "count", "a block of %d gives %s, %ld, the line has %zu bytes left", sz, h::oname(o).c_str(), n, line); MC_CHECK(t.compare(at, n, b.data(), n) == 0, "bytes", "a block of %d at %zu of %s gives %s", sz, at, mc::show(t).c_str(), mc::show(std::string(b.data(), n)).c_str()); MC_CHECK((size_t)n == line || n >= sz - 1, "count", "a block of %d gives only %ld of %zu bytes", sz, n, line); at += n; }
  }
  MC_CHECK(ended || mode < 1, "end", "the end of the input is never reported"); mc::state(mc::hash(t));
}
MC_SCENARIO(in, .noleak().shard(3)) { int n = mc::range(0, mc::tiered(4, 5)); std::string t; for (int i = 0; i < n; ++i) t += alphabet[mc::choose(4)]; mc::trace("%s", mc::show(t).c_str()); input(t); }
MC_SCENARIO(in_long, .noleak()) { static const int len[] = {4094, 4095, 4096, 4097, 8300}; int n = mc::pick(len); bool lines = mc::flip(); std::string t; for (int i = 0; i < n; ++i) { char ch = (char)(i * 31 + i / 256); if (!lines && ch == '\n') ch = 'n'; t += ch; } feed(t); IConsole c; size_t at = 0; std::vector<char> b(3000); bool chars = mc::flip(); while (at < t.size()) { if (chars) { char ch; c.read(ch); MC_CHECK(ch == t[at], "bytes", "byte %zu of %d is wrong", at, n); ++at; } else { long k = c.read(b.data(), b.size()); MC_CHECK(k > 0 && t.compare(at, k, b.data(), k) == 0, "bytes", "block at %zu of %d is wrong", at, n); at += k; } } mc::validated(); }
MC_SCENARIO(in_error, .noleak()) { if (!freopen(mc::scratch_dir(), "r", stdin)) abort(); IConsole c; int o; char ch = 'Z'; char b[10]; bool block = mc::flip(); long n = -1; o = h::outcome([&] { if (block) n = c.read(b, 10); else n = c.read(ch); }); mc::validated(); MC_CHECK((h::checked ? o == ReadError : o == h::Ok && n == 0) && ch == 'Z', "unreported", "a failing read gives %s", h::oname(o).c_str()); }
}

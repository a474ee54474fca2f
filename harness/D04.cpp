// @SOURCES: ecl_exceptions/src/lib/*.cpp ecl_devices/src/lib/string.cpp
// @BUILDS: release
// @ASSUME: histories of up to 4 (thorough 5) operations with block sizes around 0, 1, 256 and the growth step; bytes cycle through all 256 values
#include "util.hpp"
#include <memory>
#include <cstring>
#include <ecl/devices/string.hpp>
namespace {
unsigned char byte(size_t i) { return (unsigned char)(i * 37 + (i >> 8) * 11); }
void observe(ecl::String& s, const std::string& m, size_t rd) {
  mc::validated(3); MC_CHECK(s.size() == m.size(), "size", "size() is %lu after %zu bytes", s.size(), m.size());
  MC_CHECK(s.remaining() == m.size() - rd, "remaining", "remaining() is %lu, %zu bytes are unread", s.remaining(), m.size() - rd);
  MC_CHECK(s.str() == m, "contents", "str() differs from the %zu bytes written", m.size());
  const char* c = s.c_str(); MC_CHECK(memcmp(c, m.c_str(), m.size() + 1) == 0, "contents", "c_str() differs from the %zu bytes written", m.size());
}
void history(int depth) {
  static const std::string k255(255, 'i'), k256(256, 'j'), k257(257, 'k'), k1000(1000, 'l'); static const char* const init[] = {"", "x", "hello", k255.c_str(), k256.c_str(), k257.c_str(), k1000.c_str()}; const char* i0 = init[mc::choose(depth > 2 ? 3 : 7)]; ecl::String s(i0); std::string m = i0; size_t rd = 0; mc::trace("String(\"%.10s\", %zu)", i0, m.size());
  auto put_block = [&](size_t n) { mc::trace("write block of %zu", n); std::string b; for (size_t k = 0; k < n; ++k) b += (char)byte(m.size() + k); long r = s.write(b.data(), n); MC_CHECK(r == (long)n, "write", "writing %zu bytes returns %ld", n, r); m += b; };
  auto put_chars = [&](int n) { mc::trace("write %d single bytes", n); for (int k = 0; k < n; ++k) { char c = (char)byte(m.size()); long r = s.write(c); MC_CHECK(r == 1, "write", "writing one byte returns %ld", r); m += c; } mc::step(n); };
  auto get_block = [&](size_t n) { mc::trace("read block of %zu", n); std::vector<char> b(n + 8, 'Z'); long r = s.read(b.data(), n); size_t want = std::min(n, m.size() - rd); MC_CHECK(r == (long)want, "read", "reading %zu bytes returns %ld, %zu are unread", n, r, m.size() - rd); MC_CHECK(memcmp(b.data(), m.data() + rd, want) == 0, "read-data", "reading %zu bytes returns the wrong data", n); for (size_t k = want; k < b.size(); ++k) MC_CHECK(b[k] == 'Z', "read-overrun", "reading %zu bytes wrote beyond the %zu returned", n, want); rd += want; };
  for (int d = 0; d < depth; ++d) {
    static const int blocks[] = {0, 1, 2, 255, 256, 257, 300, 513}, chars[] = {1, 2, 255, 256, 257, 513}, reads[] = {0, 1, 3, 256, 257, 2000};
    int op = mc::choose(8 + 6 + 6 + 3);
    if (op < 8) put_block(blocks[op]); else if (op < 14) put_chars(chars[op - 8]); else if (op < 20) get_block(reads[op - 14]);
    else if (op == 20) { mc::trace("read one byte"); char c = 'Z'; long r = s.read(c); if (rd < m.size()) { MC_CHECK(r == 1 && c == m[rd], "read", "reading a byte returns %ld, byte %02x", r, (unsigned char)c); ++rd; } else MC_CHECK(r == 0 && c == 'Z', "read", "reading a byte of an exhausted device returns %ld", r); }
    else if (op == 21) { mc::trace("clear"); s.clear(); m.clear(); rd = 0; }
    else { mc::trace("flush"); s.flush(); MC_CHECK(s.open() && s.isOpen(), "open", "the device is not open"); }
    observe(s, m, rd); mc::state(mc::mix(mc::mix(m.size(), rd), d));
  }
}
MC_SCENARIO(histories) { history(mc::tiered(4, 5)); }
MC_SCENARIO(long_initial) { history(2); }
// Byte by byte through several growth steps, with a read or a clear at any point.
MC_SCENARIO(bytewise) {
  ecl::String s; std::string m; size_t rd = 0; int n = mc::tiered(800, 2200), at = mc::choose(n), what = mc::choose(3), first = mc::choose(2) ? 255 : 0; mc::trace("byte by byte, event %d at %d", what, at);
  if (first) { std::string b(first, 'b'); s.write(b.data(), first); m = b; }
  for (int i = 0; i < n; ++i) { if (i == at) { if (what == 0) { s.clear(); m.clear(); rd = 0; } else if (what == 1) { char c; while (s.read(c) == 1) { MC_CHECK(rd < m.size() && c == m[rd], "read", "byte %zu read back differs", rd); ++rd; } MC_CHECK(rd == m.size(), "read", "%zu of %zu bytes could be read", rd, m.size()); } else { std::string b(300, 'q'); s.write(b.data(), b.size()); m += b; } } char c = (char)byte(i); s.write(c); m += c; if (s.size() != m.size()) observe(s, m, rd); }
  mc::step(n); observe(s, m, rd); mc::state(m.size());
}
}

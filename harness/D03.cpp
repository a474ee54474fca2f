// @SOURCES: ecl_exceptions/src/lib/*.cpp ecl_devices/src/lib/detail/character_buffer.cpp
// @BUILDS: release
// @ASSUME: histories of up to 4 (thorough 5) operations; block lengths around 0, 1, half the capacity, the remaining capacity and the capacity
#include "util.hpp"
#include <memory>
#include <cstring>
#include <ecl/devices/detail/character_buffer.hpp>
namespace {
using namespace ecl::devices;
template <class B> const char* text(B& b); template <> const char* text(CharBuffer& b) { return b.c_ptr(); } template <> const char* text(CharStringBuffer& b) { return b.c_str(); }
long size_of(CharBuffer& b) { return b.size(); } long size_of(CharStringBuffer& b) { return (long)CharStringBuffer::buffer_size - b.remaining(); }
template <class B> void history(int depth) {
  std::unique_ptr<B> b(new B); std::string m; const long cap = B::buffer_size; size_t serial = 1; static std::string* src = nullptr; if (!src) { src = new std::string; for (int i = 0; i < 20000; ++i) *src += (char)(i * 31 + (i >> 8) * 7); }
  for (int d = 0; d < depth; ++d) {
    long rem = cap - (long)m.size(); int op = mc::choose(14);
    if (op < 12) {
      const long len[] = {0, 1, 2, rem - 1, rem, rem + 1, cap / 2, cap - 1, cap, cap + 1, 3 * cap, rem / 2}; long n = len[op] < 0 ? 0 : len[op]; mc::trace("append %ld (room for %ld)", n, rem); const char* p = src->data() + (serial++ * 13) % 97; std::string exact(p, n);
      std::unique_ptr<char[]> heap(new char[n]); memcpy(heap.get(), p, n); long r = b->append(heap.get(), (unsigned long)n), want = std::min(n, rem); MC_CHECK(r == want, "append", "appending %ld bytes with room for %ld returns %ld", n, rem, r); m += exact.substr(0, want);
    } else if (op == 12) { char c = (char)(0xf9 + serial++); mc::trace("append one byte"); long r = b->append(c); MC_CHECK(r == (rem > 0 ? 1 : 0), "append", "appending a byte with room for %ld returns %ld", rem, r); if (rem > 0) m += c; }
    else { mc::trace("clear"); b->clear(); m.clear(); }
    MC_CHECK((long)b->remaining() == cap - (long)m.size() && size_of(*b) == (long)m.size(), "size", "remaining() is %ld with %zu of %ld bytes stored", (long)b->remaining(), m.size(), cap);
    MC_CHECK(b->full() == ((long)m.size() == cap), "full", "full() is %d with %zu of %ld bytes stored", b->full(), m.size(), cap);
    const char* t = text(*b); MC_CHECK(memcmp(t, m.data(), m.size()) == 0, "contents", "the %zu stored bytes differ from those appended", m.size()); mc::validated(3);
    if (std::is_same<B, CharStringBuffer>::value) MC_CHECK(t[m.size()] == '\0', "terminator", "the text is not terminated");
    mc::state(mc::mix(m.size(), d));
  }
}
MC_SCENARIO(char_buffer) { history<CharBuffer>(mc::tiered(4, 5)); }
MC_SCENARIO(char_string_buffer) { history<CharStringBuffer>(mc::tiered(4, 5)); }
}

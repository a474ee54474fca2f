// @SOURCES: ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @ASSUME: wider than 16 bit values are limited to sets closed around zero, every power of two and ten and the type limits;; the end pointer of a supplied buffer is its last writable character, as in the code and tests
#include "util.hpp"
#include <memory>
#include <ecl/converters.hpp>
static bool g_refuse = false;
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (g_refuse) return nullptr; return ::operator new[](n); }
namespace {
using namespace ecl;
template <class T> std::string text(T v) { return std::to_string(v); }
template <> std::string text(bool v) { return v ? "true" : "false"; }
// Runs one conversion with a supplied buffer of exactly `bytes` characters.
template <class Conv, class T> void in_buffer(T v, int bytes, const char* kind) {
  std::string want = text(v); std::unique_ptr<char[]> buf(new char[bytes]); memset(buf.get(), 'Z', bytes); char* r = nullptr; bool err = false;
  int o = h::outcome([&] { Conv c(buf.get(), buf.get() + bytes - 1); r = c(v); err = ((const Converter<char*, T>&)c).error().flag() != NoError; });
  mc::state(mc::hash(want)); mc::trace("%s of %s into %d bytes: %s, %s", kind, want.c_str(), bytes, h::oname(o).c_str(), r ? "text" : "null"); mc::validated();
  if (bytes >= (int)want.size() + 1) {
    MC_CHECK(o == h::Ok && r && !err, "refused", "%s: %s does not convert into a buffer of %d bytes", kind, want.c_str(), bytes);
    MC_CHECK(r >= buf.get() && r + want.size() < buf.get() + bytes, "outside", "%s: result outside the buffer", kind);
    MC_CHECK(want == r, "wrong", "%s: %s converts to '%s'", kind, want.c_str(), mc::show(r).c_str());
  } else MC_CHECK(o != h::Ok || !r || err, "unreported", "%s: %s into a buffer of %d bytes is not reported; result '%s'", kind, want.c_str(), bytes, mc::show(std::string(r, strnlen(r, buf.get() + bytes - r))).c_str());
}
template <class Conv, class T> void internal(Conv& c, T v, const char* kind) {
  std::string want = text(v); char* r = nullptr; mc::state(mc::hash(want)); int o = h::outcome([&] { r = c(v); }); mc::validated();
  MC_CHECK(o == h::Ok && r, "refused", "%s: %s: %s", kind, want.c_str(), h::oname(o).c_str()); MC_CHECK(want == r, "wrong", "%s: %s converts to '%s'", kind, want.c_str(), mc::show(r).c_str());
}
template <class T> void edge_values() {
  T v = mc::pick(h::edges<T>()); int need = (int)text(v).size() + 1;
  switch (mc::choose(4)) {
    case 0: { Converter<char*, T> c; internal(c, v, "own buffer"); T w = mc::pick(h::edges<T>()); mc::trace("%s then %s", text(v).c_str(), text(w).c_str()); internal(c, w, "own buffer, second use"); break; }
    case 1: { Converter<char*> c; internal(c, v, "family, own buffer"); break; }
    case 2: in_buffer<Converter<char*, T>>(v, mc::range(1, need + 2), "supplied buffer"); break;
    case 3: in_buffer<Converter<char*>>(v, mc::range(1, need + 2), "family, supplied buffer"); break;
  }
}
template <class T> void all_values(int n) {
  T v = (T)(n == 65536 ? mc::choose(256) * 256 + mc::choose(256) : mc::choose(256)); int need = (int)text(v).size() + 1;
  static Converter<char*, T>* c = new Converter<char*, T>; static Converter<char*>* f = new Converter<char*>;
  internal(*c, v, "own buffer"); internal(*f, v, "family, own buffer"); in_buffer<Converter<char*, T>>(v, need, "exact buffer"); in_buffer<Converter<char*>>(v, need - 1, "one byte short");
}
MC_SCENARIO(edges_short) { edge_values<short>(); }
MC_SCENARIO(edges_unsigned_short) { edge_values<unsigned short>(); }
MC_SCENARIO(edges_int) { edge_values<int>(); }
MC_SCENARIO(edges_unsigned) { edge_values<unsigned>(); }
MC_SCENARIO(edges_long) { edge_values<long>(); }
MC_SCENARIO(edges_unsigned_long) { edge_values<unsigned long>(); }
MC_SCENARIO(edges_long_long) { edge_values<long long>(); }
MC_SCENARIO(edges_unsigned_long_long) { edge_values<unsigned long long>(); }
MC_SCENARIO(edges_char) { edge_values<char>(); }
MC_SCENARIO(edges_unsigned_char) { edge_values<unsigned char>(); }
MC_SCENARIO(all_char, .noleak()) { all_values<char>(256); }
MC_SCENARIO(all_unsigned_char, .noleak()) { all_values<unsigned char>(256); }
MC_SCENARIO(all_short, .noleak()) { all_values<short>(65536); }
MC_SCENARIO(all_unsigned_short, .noleak()) { all_values<unsigned short>(65536); }
MC_SCENARIO(booleans) {
  bool v = mc::flip();
  switch (mc::choose(3)) { case 0: { Converter<char*, bool> c; internal(c, v, "own buffer"); internal(c, mc::flip(), "own buffer again"); break; } case 1: { Converter<char*> c; internal(c, v, "family"); internal(c, mc::flip(), "family again"); break; }
    case 2: in_buffer<Converter<char*>>(v, mc::range(1, 8), "family, supplied buffer"); break; }
}
// An internal buffer of every size, and one that cannot be allocated.
MC_SCENARIO(internal_sizes) {
  int size = mc::range(1, 14); int v = mc::pick(h::edges<int>()); std::string want = text(v); char* r = nullptr; bool err = false;
  int o = h::outcome([&] { Converter<char*, int> c(size); r = c(v); err = c.error().flag() != NoError; std::string got = r ? r : ""; if (r && got != want && !err) mc::fail("wrong", "own buffer of %d: %s converts to '%s'", size, want.c_str(), mc::show(got).c_str()); });
  mc::trace("own buffer of %d bytes: %s: %s", size, want.c_str(), h::oname(o).c_str());
  MC_CHECK((size >= (int)want.size() + 1) == (o == h::Ok && r && !err), "size", "own buffer of %d bytes for %s: %s", size, want.c_str(), r ? "text" : "refused");
}
MC_SCENARIO(allocation_failure) {
  int kind = mc::choose(3); bool err = false; g_refuse = true;
  int o = h::outcome([&] { switch (kind) { case 0: { Converter<char*, int> c; err = c.error().flag() == MemoryError; break; } case 1: { Converter<char*, bool> c; err = c.error().flag() == MemoryError; break; } default: { Converter<char*> c; err = ((Converter<char*, int>&)c).error().flag() == MemoryError; } } });
  g_refuse = false; mc::trace("buffer allocation fails, kind %d: %s", kind, h::oname(o).c_str());
  MC_CHECK(o == MemoryError || (o == h::Ok && err), "alloc", "failed allocation: %s", h::oname(o).c_str());
}
MC_SCENARIO(digits) {
  switch (mc::choose(7)) {
    case 0: { int c = mc::choose(256); Converter<int, char> conv; int r = -1; int o = h::outcome([&] { r = conv((char)c); }); mc::trace("int of char %d: %s", c, h::oname(o).c_str()); bool ok = c >= '0' && c <= '9';
      MC_CHECK(ok ? (o == h::Ok && r == c - '0' && conv.error().flag() == NoError) : (o == ConversionError || conv.error().flag() == ConversionError), "char-to-digit", "char %d gives %d, %s", c, r, h::oname(o).c_str()); break; }
    case 1: { int c = mc::choose(256); Converter<int> conv; int r = -1; int o = h::outcome([&] { r = conv((char)c); }); bool ok = c >= '0' && c <= '9'; mc::trace("family int of char %d", c); MC_CHECK(ok ? (o == h::Ok && r == c - '0') : (o == ConversionError || (!h::checked && conv.error().flag() == ConversionError)), "char-to-digit", "family: char %d gives %d, %s", c, r, h::oname(o).c_str()); break; }
    case 2: { int v = mc::choose(2) ? mc::range(-12, 22) : mc::pick(h::edges<int>()); Converter<char, int> conv; char r = 0; int o = h::outcome([&] { r = conv(v); }); bool ok = v >= 0 && v <= 9; mc::trace("char of int %d: %s", v, h::oname(o).c_str());
      MC_CHECK(ok ? (o == h::Ok && r == '0' + v && conv.error().flag() == NoError) : (o != h::Ok || conv.error().flag() != NoError), "digit-to-char", "int %d gives '%c', %s", v, r, h::oname(o).c_str()); break; }
    case 3: { unsigned v = mc::choose(2) ? (unsigned)mc::range(0, 22) : mc::pick(h::edges<unsigned>()); Converter<char, unsigned> conv; char r = 0; int o = h::outcome([&] { r = conv(v); }); bool ok = v <= 9; mc::trace("char of unsigned %u: %s", v, h::oname(o).c_str());
      MC_CHECK(ok ? (o == h::Ok && r == (char)('0' + v)) : (o != h::Ok || conv.error().flag() != NoError), "digit-to-char", "unsigned %u gives '%c', %s", v, r, h::oname(o).c_str()); break; }
    case 4: { Converter<char> conv; int v = mc::range(-2, 11); char r = 0; int o = h::outcome([&] { r = mc::flip() ? conv(v) : conv((unsigned)v); }); mc::trace("family char of %d", v); bool ok = v >= 0 && v <= 9; MC_CHECK(ok ? (o == h::Ok && r == '0' + v) : (o != h::Ok || (!h::checked && conv.error().flag() != NoError)), "digit-to-char", "family: %d gives '%c', %s", v, r, h::oname(o).c_str()); break; }
    case 5: { int v = mc::pick(h::edges<int>()); Converter<std::string, int> c; std::string s = c(v), t = Converter<std::string>()(v); mc::trace("string of %d", v); MC_CHECK(s == text(v) && t == s, "string", "%d converts to '%s' / '%s'", v, s.c_str(), t.c_str()); int w = mc::pick(h::edges<int>()); MC_CHECK(c(w) == text(w), "string", "%d after %d converts wrongly", w, v); 
      int back = 0; int o = h::outcome([&] { back = Converter<int, std::string>()(s); }); MC_CHECK(o == h::Ok && back == v, "round-trip", "'%s' converts back to %d, %s", s.c_str(), back, h::oname(o).c_str()); break; }
    case 6: { // all short texts over an alphabet: an int followed by nothing else, or an error
      static const char al[] = "019-+ax "; int n = mc::range(0, 4); std::string s; for (int i = 0; i < n; ++i) s += al[mc::choose(8)]; if (mc::flip()) s = (mc::flip() ? "214748364" : "-214748364") + s;
      errno = 0; const char* p = s.c_str(); char* end; long w = strtol(p, &end, 10); bool ok = end != p && !*end && w >= INT32_MIN && w <= INT32_MAX; int r = 0; Converter<int, std::string> c; int o = h::outcome([&] { r = c(s); }); mc::trace("int of '%s': %s", s.c_str(), h::oname(o).c_str());
      MC_CHECK(ok ? (o == h::Ok && r == w) : (o == ConversionError || c.error().flag() == ConversionError), "text-to-int", "'%s' gives %d, %s", s.c_str(), r, h::oname(o).c_str()); break; }
  }
}
}

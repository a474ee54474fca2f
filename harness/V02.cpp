// @SOURCES: ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @ASSUME: eight byte values from a two letter byte alphabet in quick mode (five in thorough mode) plus every byte value at every position;; a range shorter than the type denotes the value of the bytes it has
#include "util.hpp"
#include <memory>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <ecl/converters.hpp>
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
#include <ecl/containers/converters.hpp>
namespace {
using namespace ecl;
struct Quiet { std::ostringstream sink; std::streambuf* old; Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {} ~Quiet() { std::cout.rdbuf(old); } };
typedef unsigned long long U;
template <class I> U bits(I v) { return (U)v & (sizeof(I) == 8 ? ~0ull : (1ull << (8 * sizeof(I))) - 1); }
// A byte pattern of n bytes: one byte of any value among equal ones, or all words over an alphabet.
U pattern(int n) {
  static const unsigned char al[] = {0x00, 0x80, 0xff, 0x01, 0x7f}; U v = 0;
  if (n == 0) return 0;
  if (mc::flip()) { unsigned char rest = mc::flip() ? 0xff : 0; int at = mc::choose(n), b = mc::choose(256); for (int i = 0; i < n; ++i) v |= (U)(i == at ? b : rest) << 8 * i; }
  else for (int i = 0, k = n > 4 && !mc::thorough() ? 2 : 5; i < n; ++i) v |= (U)al[mc::choose(k)] << 8 * i;
  return v;
}
// Integer to bytes: C is a container with any number of elements, prepared by the caller.
template <class Conv, class C, class I> void to_bytes(C& c, size_t len, I v, const char* kind) {
  Quiet q; Conv conv; std::vector<int> before; for (size_t i = 0; i < len; ++i) before.push_back((unsigned char)c[i]);
  bool err = false, same = false; int o = h::outcome([&] { const C& r = conv(c, v); same = &r == &c; err = conv.error().flag() != NoError; });
  mc::trace("%s: 0x%llx into %zu bytes: %s", kind, bits(v), len, h::oname(o).c_str()); mc::state(mc::mix(bits(v), len));
  if (len == sizeof(I)) { MC_CHECK(o == h::Ok && !err, "refused", "%s: 0x%llx into %zu bytes refused: %s", kind, bits(v), len, h::oname(o).c_str()); MC_CHECK(same, "returned", "%s: another container is returned", kind);
    for (size_t i = 0; i < len; ++i) MC_CHECK((unsigned char)c[i] == (unsigned char)(bits(v) >> 8 * i), "wrong-byte", "%s: byte %zu of 0x%llx is 0x%02x", kind, i, bits(v), (unsigned char)c[i]); }
  else { MC_CHECK(o == ConversionError || err, "size-unreported", "%s: %zu bytes for a type of %zu: %s", kind, len, sizeof(I), h::oname(o).c_str()); for (size_t i = 0; i < len; ++i) MC_CHECK((unsigned char)c[i] == before[i], "touched", "%s: byte %zu changed by a refused conversion", kind, i); }
}
template <class I, class C> void from_bytes(const C& c, size_t len, U want, const char* kind) {
  Converter<I, C> conv; I got = 0; int o = h::outcome([&] { got = conv(c); }); mc::trace("%s: %zu bytes of 0x%llx into an integer of %zu: %s", kind, len, want, sizeof(I), h::oname(o).c_str()); mc::state(mc::mix(want, len));
  if (len <= sizeof(I)) { MC_CHECK(o == h::Ok && conv.error().flag() == NoError, "refused", "%s: %zu bytes refused: %s", kind, len, h::oname(o).c_str()); MC_CHECK(bits(got) == want && got == (I)want, "wrong-value", "%s: %zu bytes of 0x%llx give 0x%llx", kind, len, want, bits(got)); }
  else MC_CHECK(o == ConversionError || conv.error().flag() == ConversionError, "length-unreported", "%s: %zu bytes for a type of %zu: %s", kind, len, sizeof(I), h::oname(o).c_str());
}
template <class C> void put(C& c, size_t len, U v) { for (size_t i = 0; i < len; ++i) c[i] = (typename C::value_type)(unsigned char)(i < 8 ? v >> 8 * i : 0x11); }
template <class I> I value() { return (I)pattern(sizeof(I)); }
// A destination length: mostly the right one, otherwise every length up to two more than the type.
template <class I> size_t length() { return mc::flip() ? sizeof(I) : (size_t)mc::choose(sizeof(I) + 3); }
template <class I, class B> void vectors_to() { size_t n = length<I>(); I v = n == sizeof(I) ? value<I>() : (I)-2; std::vector<B> c(n, B(0x5a)); to_bytes<Converter<std::vector<B>, I>>(c, n, v, "vector"); }
template <class I, class B> void vectors_from() { size_t n = length<I>(); U v = pattern((int)std::min(n, (size_t)sizeof(I))); std::vector<B> c(n); put(c, n, v); from_bytes<I>(c, n, v, "vector"); }
template <class I, class B> void round() {
  I v = value<I>(); std::vector<B> c(sizeof(I)); Converter<std::vector<B>, I>()(c, v); I w = Converter<I, std::vector<B>>()(c); mc::trace("round trip of 0x%llx", bits(v)); MC_CHECK(v == w, "round-trip", "0x%llx comes back as 0x%llx", bits(v), bits(w)); mc::state(bits(v));
}
template <class I> void vec_all() {
  switch (mc::choose(9)) { case 0: vectors_to<I, char>(); break; case 1: vectors_to<I, unsigned char>(); break; case 2: vectors_to<I, signed char>(); break;
    case 3: vectors_from<I, char>(); break; case 4: vectors_from<I, unsigned char>(); break; case 5: vectors_from<I, signed char>(); break;
    case 6: round<I, char>(); break; case 7: round<I, unsigned char>(); break; case 8: round<I, signed char>(); break; }
}
template <class I> void vec_from() { switch (mc::choose(3)) { case 0: vectors_from<I, char>(); break; case 1: vectors_from<I, unsigned char>(); break; case 2: vectors_from<I, signed char>(); break; } }
MC_SCENARIO(vector_int) { vec_all<int>(); }
MC_SCENARIO(vector_long) { vec_all<long>(); }
MC_SCENARIO(vector_long_long) { switch (mc::choose(3)) { case 0: vectors_to<long long, char>(); break; case 1: vectors_from<long long, unsigned char>(); break; default: round<long long, signed char>(); } }
MC_SCENARIO(vector_unsigned) { switch (mc::choose(6)) { case 0: vectors_to<unsigned, char>(); break; case 1: vectors_to<unsigned, unsigned char>(); break; case 2: vectors_to<unsigned, signed char>(); break; default: vec_from<unsigned>(); } }
MC_SCENARIO(vector_unsigned_long) { switch (mc::choose(4)) { case 0: vectors_to<unsigned long, char>(); break; case 1: vectors_to<unsigned long, unsigned char>(); break; case 2: vectors_to<unsigned long, signed char>(); break; default: vec_from<unsigned long>(); } }
MC_SCENARIO(vector_to_short) { switch (mc::choose(3)) { case 0: vec_from<short>(); break; case 1: vec_from<unsigned short>(); break; default: vec_from<unsigned long long>(); } }
MC_SCENARIO(families) {
  int v = mc::pick(h::edges<int>()); unsigned long w = mc::pick(h::edges<unsigned long>()); mc::trace("family: %d, %lu", v, w);
  std::vector<char> a(4); Converter<std::vector<char>>()(a, v); std::vector<unsigned char> b(8); Converter<std::vector<unsigned char>>()(b, w); std::vector<signed char> c(4); Converter<std::vector<signed char>>()(c, (unsigned)v);
  for (int i = 0; i < 8; ++i) MC_CHECK(b[i] == (unsigned char)(w >> 8 * i) && (i > 3 || ((unsigned char)a[i] == (unsigned char)((unsigned)v >> 8 * i) && (unsigned char)c[i] == (unsigned char)a[i])), "wrong-byte", "family: byte %d", i);
}
// ecl arrays and stencils of every length
template <class I, class B> void array_to() { size_t n = length<I>(); if (!n) mc::skip(); I v = n == sizeof(I) ? value<I>() : (I)-2; Array<B> c(n); for (auto& x : c) x = B(0x5a); to_bytes<Converter<Array<B>, I>>(c, n, v, "array"); }
template <class I, class B, size_t N> void array_from() { U v = pattern((int)std::min(N, sizeof(I))); Array<B, N> c; put(c, N, v); from_bytes<I>(c, N, v, "array"); }
template <class I, class B> void array_from_any() { switch (mc::choose(5)) { case 0: array_from<I, B, 1>(); break; case 1: array_from<I, B, 2>(); break; case 2: array_from<I, B, 4>(); break; case 3: array_from<I, B, 8>(); break; default: array_from<I, B, 9>(); } }
template <class I, class B> void stencil_to() {  // a window of any length inside a larger array; nothing around it changes
  typedef Array<B, 12> A; A a; for (auto& x : a) x = B(0x5a); size_t n = length<I>(), at = mc::choose(3); if (at + n > 12) mc::skip(); I v = n == sizeof(I) ? value<I>() : (I)-2; Stencil<A> s(a, a.begin() + at, a.begin() + at + n); to_bytes<Converter<Stencil<A>, I>>(s, n, v, "stencil");
  for (size_t i = 0; i < 12; ++i) if (i < at || i >= at + n) MC_CHECK((unsigned char)a[i] == 0x5a, "around", "stencil: byte %zu outside the window changed", i);
}
template <class I, class B> void stencil_from() { typedef Array<B, 12> A; A a; for (auto& x : a) x = B(0x5a); size_t n = length<I>(), at = mc::choose(3); if (at + n > 12) mc::skip(); U v = pattern((int)std::min(n, sizeof(I))); Stencil<A> s(a, a.begin() + at, a.begin() + at + n); for (size_t i = 0; i < n; ++i) a[at + i] = (B)(unsigned char)(i < 8 ? v >> 8 * i : 1); from_bytes<I>(s, n, v, "stencil"); }
template <class I> void vstencil_to() { std::vector<unsigned char> a(12, 0x5a); size_t n = length<I>(), at = mc::choose(3); if (at + n > 12) mc::skip(); I v = n == sizeof(I) ? value<I>() : (I)-2; Stencil<std::vector<unsigned char>> s(a, a.begin() + at, a.begin() + at + n); to_bytes<Converter<Stencil<std::vector<unsigned char>>, I>>(s, n, v, "vector stencil");
  for (size_t i = 0; i < 12; ++i) if (i < at || i >= at + n) MC_CHECK(a[i] == 0x5a, "around", "vector stencil: byte %zu outside the window changed", i); }
template <class I> void cstencil_from() { size_t n = length<I>(); U v = pattern((int)std::min(n, sizeof(I))); std::unique_ptr<unsigned char[]> a(new unsigned char[n + 1]); for (size_t i = 0; i < n; ++i) a[i] = (unsigned char)(i < 8 ? v >> 8 * i : 1); Stencil<const unsigned char*> s(a.get(), n, a.get(), a.get() + n); from_bytes<I>(s, n, v, "C array stencil"); }
template <class I> void ecl_containers() {
  switch (mc::choose(9)) { case 0: array_to<I, char>(); break; case 1: array_to<I, unsigned char>(); break; case 2: array_to<I, signed char>(); break; case 3: array_from_any<I, char>(); break; case 4: array_from_any<I, unsigned char>(); break; case 5: array_from_any<I, signed char>(); break;
    case 6: stencil_to<I, unsigned char>(); break; case 7: stencil_from<I, char>(); break; case 8: cstencil_from<I>(); break; }
}
MC_SCENARIO(ecl_short) { ecl_containers<short>(); }
MC_SCENARIO(ecl_unsigned_short) { ecl_containers<unsigned short>(); }
MC_SCENARIO(ecl_int) { if (mc::choose(3) == 0) { if (mc::flip()) stencil_to<int, signed char>(); else vstencil_to<int>(); } else ecl_containers<int>(); }
MC_SCENARIO(ecl_unsigned) { if (mc::flip()) ecl_containers<unsigned>(); else vstencil_to<unsigned>(); }
MC_SCENARIO(ecl_long) { switch (mc::choose(4)) { case 0: array_to<long, char>(); break; case 1: array_from_any<long, unsigned char>(); break; case 2: vstencil_to<long>(); break; default: cstencil_from<long>(); } }
MC_SCENARIO(ecl_unsigned_long) { switch (mc::choose(3)) { case 0: array_to<unsigned long, unsigned char>(); break; case 1: stencil_from<unsigned long, signed char>(); break; default: cstencil_from<unsigned long long>(); } }
MC_SCENARIO(ecl_long_long) { switch (mc::choose(3)) { case 0: stencil_to<long long, char>(); break; case 1: vstencil_to<long long>(); break; default: array_from_any<long long, char>(); } }
// Hexadecimal text: every byte in every spelling, and all short texts over an alphabet.
int hexval(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
bool parse(const std::string& s, std::string& out) {  // ( ' '* "0x" hex hex )* ' '*
  size_t i = 0; while (i < s.size()) { if (s[i] == ' ') { ++i; continue; } if (s[i] != '0' || i + 3 >= s.size() || s[i + 1] != 'x' || hexval(s[i + 2]) < 0 || hexval(s[i + 3]) < 0) return false; out += (char)(hexval(s[i + 2]) * 16 + hexval(s[i + 3])); i += 4; } return true;
}
void hex_text(const std::string& s) {
  std::string want; bool ok = parse(s, want); Converter<std::vector<char>, char*> conv; std::vector<char> got; int o = h::outcome([&] { got = mc::thorough() && s.size() % 2 ? Converter<std::vector<char>>()(s.c_str()) : conv(s.c_str()); });
  mc::trace("'%s': %s", mc::show(s).c_str(), h::oname(o).c_str()); mc::state(mc::hash(want, ok));
  if (ok) MC_CHECK(o == h::Ok && conv.error().flag() == NoError && std::string(got.begin(), got.end()) == want, "hex", "'%s' gives %zu bytes '%s', %s", mc::show(s).c_str(), got.size(), mc::show(std::string(got.begin(), got.end())).c_str(), h::oname(o).c_str());
  else MC_CHECK((o == ConversionError || conv.error().flag() == ConversionError) && got.empty(), "hex-malformed", "'%s' is accepted as %zu bytes, %s", mc::show(s).c_str(), got.size(), h::oname(o).c_str());
}
MC_SCENARIO(hex_bytes) {
  int b = mc::choose(256), spell = mc::choose(4), sep = mc::choose(4), b2 = mc::choose(4) * 85; static const char* fmt[] = {"0x%02x", "0x%02X", "0x%01x%01X", "0x%01X%01x"}; char t[16], t2[16];
  snprintf(t, sizeof t, fmt[spell], spell < 2 ? b : b >> 4, b & 15); snprintf(t2, sizeof t2, "0x%02x", b2); static const char* seps[] = {" ", "", "  ", " 0x7F "}; hex_text(std::string(t) + seps[sep] + t2);
}
MC_SCENARIO(hex_texts) { static const char al[] = "0x 4fAgG:/@`Z9"; int k = mc::tiered(6, 14), n = mc::range(0, mc::tiered(6, 6)); std::string s; for (int i = 0; i < n; ++i) s += al[mc::choose(k)]; hex_text(s); }
MC_SCENARIO(hex_digits) { std::string s = "0x"; int a = 1 + mc::choose(255), at = mc::choose(4); s = at == 0 ? std::string(1, (char)a) + "x11" : at == 1 ? std::string("0") + (char)a + "11" : at == 2 ? std::string("0x") + (char)a + "1" : std::string("0x1") + (char)a; if (mc::flip()) s = "0x55 " + s; hex_text(s); }
}

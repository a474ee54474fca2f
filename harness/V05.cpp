// @SOURCES: ecl_exceptions/src/lib/*.cpp
// @EXTRA: harness/V05_ndebug.cpp
// @ASSUME: the failure value of a conversion that documents none (digits out of range to characters) is not judged;; exceptions disabled altogether (ECL_DISABLE_EXCEPTIONS) is not a build this library compiles in
#include "util.hpp"
#include "V05_env.hpp"
#include <climits>
#include <cstdlib>
#include <new>
#include <ecl/converters.hpp>
bool starving = false;
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return starving ? nullptr : ::operator new[](n); }
#define VARIANT debug
#include "V05_body.inc"
Subject* make_release(int);
Done starve_release(int, bool);
namespace {
using namespace ecl;
// What a conversion must do: the value of a success, or the flag of a failure and its documented value.
struct Want { bool ok; std::string value; int flag; bool valued; };
Want good(const std::string& v) { return Want{true, v, NoError, true}; }
Want bad(int flag) { return Want{false, "", flag, false}; }
Want bad(int flag, const std::string& v) { return Want{false, v, flag, true}; }
Want text_int(const std::string& s) {
  size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) ++i; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  if (i == s.size()) return bad(ConversionError, std::to_string(INT_MIN)); __int128 v = 0; for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return bad(ConversionError, std::to_string(INT_MIN)); v = v * 10 + (s[i] - '0'); if (v > (__int128)1 << 40) v = (__int128)1 << 40; }
  if (neg) v = -v; if (v < INT_MIN || v > INT_MAX) return bad(ConversionError, std::to_string(INT_MIN)); return good(std::to_string((int)v));
}
Want char_int(int c) { return c >= '0' && c <= '9' ? good(std::to_string(c - '0')) : bad(ConversionError, "-1"); }
Want int_char(long long v, int flag) { return v >= 0 && v <= 9 ? good(std::string(1, (char)('0' + v))) : bad(flag); }
Want to_bytes(long long v, size_t n, size_t width) { if (n != width) return bad(ConversionError, std::string(n, 0x5a)); std::string s; for (size_t i = 0; i < n; ++i) s += (char)((unsigned long long)v >> 8 * i); return good(s); }
Want from_bytes(const std::string& s, size_t width, bool sign) {
  if (s.size() > width) return bad(ConversionError); unsigned long long v = 0; for (size_t i = 0; i < s.size(); ++i) v |= (unsigned long long)(unsigned char)s[i] << 8 * i;
  long long r = width == 8 ? (long long)v : sign ? (long long)(v ^ 1ull << (8 * width - 1)) - (long long)(1ull << (8 * width - 1)) : (long long)v; return good(std::to_string(r));
}
int hexval(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
Want hex(const std::string& s) {
  std::string out; size_t i = 0; while (i < s.size()) { if (s[i] == ' ') { ++i; continue; } if (s[i] != '0' || i + 3 >= s.size() || s[i + 1] != 'x' || hexval(s[i + 2]) < 0 || hexval(s[i + 3]) < 0) return bad(ConversionError, ""); out += (char)(hexval(s[i + 2]) * 16 + hexval(s[i + 3])); i += 4; } return good(out);
}
// A history of conversions by one object in each build; every step is judged by itself.
struct Pair {
  std::unique_ptr<Subject> d, r; const char* name; int step;
  Pair(int what, const char* n) : d(debug_(what)), r(make_release(what)), name(n), step(0) {}
  static Subject* debug_(int what) { return make_debug(what); }
  void check(const Input& in, const Want& w) {
    ++step; Done a = d->run(in), b = r->run(in); std::string what = std::string(name) + " of " + (in.s.empty() ? std::to_string(in.i) : "'" + mc::show(in.s) + "'") + (in.n ? " in " + std::to_string(in.n) + " bytes" : "");
    mc::trace("%d: %s: debug %s '%s', release error %d '%s'", step, what.c_str(), a.thrown ? "throws" : "gives", mc::show(a.value).c_str(), b.flag, mc::show(b.value).c_str()); mc::state(mc::hash(a.value + "/" + b.value, w.flag));
    MC_CHECK(!b.thrown, "release-throws", "a release build throws for the %s", what.c_str());
    if (w.ok) {
      MC_CHECK(!a.thrown && a.flag == NoError && a.value == w.value, "debug-value", "the %s gives '%s' (%s) in a debug build", what.c_str(), mc::show(a.value).c_str(), a.thrown ? "thrown" : Error((ErrorFlag)a.flag).what());
      MC_CHECK(b.value == w.value, "release-value", "the %s gives '%s' in a release build", what.c_str(), mc::show(b.value).c_str());
      MC_CHECK(b.flag == NoError, "stale-error", "the %s (conversion %d of the object) succeeds but leaves the error %d", what.c_str(), step, b.flag);
    } else {
      MC_CHECK(a.thrown && a.flag == w.flag, "debug-unreported", "the %s is not refused with flag %d in a debug build (%d)", what.c_str(), w.flag, a.flag);
      MC_CHECK(b.flag == w.flag, "release-unreported", "the %s fails but error() tells %d in a release build, not %d", what.c_str(), b.flag, w.flag);
      if (w.valued) MC_CHECK(b.value == w.value, "failure-value", "the %s fails and gives '%s', not '%s', in a release build", what.c_str(), mc::show(b.value).c_str(), mc::show(w.value).c_str());
    }
  }
};
int steps() { return mc::tiered(3, 4); }
const char* texts[] = {"", "7", "-12", "12a", "2147483647", "2147483648", "x", " 5", "5 ", "+3", "-", "-2147483648", "-2147483649", "00", "1.5", "99999999999999999999"};
std::string text() { return texts[mc::choose(mc::tiered(10, 16))]; }
MC_SCENARIO(text_to_int) { Pair p(0, "text to int"); for (int k = 0, n = steps(); k < n; ++k) { Input in{0, 0, 0, text()}; p.check(in, text_int(in.s)); } }
MC_SCENARIO(short_texts) { static const char al[] = "09-+ a.x"; std::string s; for (int n = mc::range(0, mc::tiered(3, 5)), i = 0; i < n; ++i) s += al[mc::choose(8)]; Pair p(mc::flip() ? 0 : 2, "text to int"); Input in{0, 0, 0, s}; p.check(in, text_int(s)); p.check(Input{0, 0, 0, "5"}, good("5")); }
MC_SCENARIO(char_to_int) { Pair p(1, "char to int"); int c = mc::choose(256) - 128; p.check(Input{1, c, 0, ""}, char_int(c)); for (int k = 0; k < 2; ++k) { static const int v[] = {'0', '9', '/', ':', 0, -1, '5'}; int x = v[mc::choose(7)]; p.check(Input{1, x, 0, ""}, char_int(x)); } }
MC_SCENARIO(int_family) { Pair p(2, "int family"); for (int k = 0, n = steps(); k < n; ++k) { if (mc::flip()) { static const int v[] = {'0', '9', 'a', ':', '/', -1}; int x = v[mc::choose(6)]; p.check(Input{1, x, 0, ""}, char_int(x)); } else { static const char* t[] = {"3", "", "4x", "-2147483648", "2147483648"}; std::string s = t[mc::choose(5)]; p.check(Input{0, 0, 0, s}, text_int(s)); } } }
const long long digits[] = {0, 9, 10, 5, -1, 11, INT_MAX, INT_MIN, 99, 100};
MC_SCENARIO(int_to_char) { bool u = mc::flip(); Pair p(u ? 4 : 3, u ? "unsigned to char" : "int to char"); for (int k = 0, n = steps(); k < n; ++k) { long long v = digits[mc::choose(10)]; if (u) v = (unsigned)v; p.check(Input{0, v, 0, ""}, int_char(v, u ? ConversionError : OutOfRangeError)); } }
MC_SCENARIO(digit_family) { Pair p(5, "char family"); for (int k = 0, n = steps(); k < n; ++k) { int u = mc::choose(2); long long v = digits[mc::choose(7)]; if (u) v = (unsigned)v; p.check(Input{u, v, 0, ""}, int_char(v, u ? ConversionError : OutOfRangeError)); } }
const char* hexes[] = {"", "0x12", "0x1", "0xg1", "12", "0x12 0xFF", "0", "0x", "0x1g", " 0xaB ", "0x123", "1x12", "0y12", "0x12 0", "0xFF0x01", "x12"};
MC_SCENARIO(hex_text) { Pair p(mc::flip() ? 6 : 7, "hexadecimal text"); for (int k = 0, n = mc::tiered(3, 3); k < n; ++k) { Input in{0, 0, 0, hexes[mc::choose(16)]}; p.check(in, hex(in.s)); } }
MC_SCENARIO(hex_texts) { static const char al[] = "0x 4fAgG"; std::string s; for (int n = mc::range(0, mc::tiered(5, 6)), i = 0; i < n; ++i) s += al[mc::choose(mc::tiered(6, 8))]; Pair p(6, "hexadecimal text"); Input in{0, 0, 0, s}; p.check(in, hex(s)); p.check(Input{0, 0, 0, "0x41"}, good("A")); }
const long long wide[] = {0, 1, -1, 0x80, 0x8000, 0x7fffffff, -0x80000000ll, 0x0123456789abcdefll, LLONG_MIN, 255};
MC_SCENARIO(number_to_bytes) {
  static const struct { int what; size_t width; const char* name; } k[] = {{20, 4, "int to bytes"}, {21, 4, "unsigned to bytes"}, {22, 8, "long to bytes"}, {23, 8, "unsigned long to bytes"}, {24, 8, "long long to bytes"}}; int w = mc::choose(5); Pair p(k[w].what, k[w].name);
  for (int s = 0; s < 3; ++s) { size_t n = (size_t[]){k[w].width, 0, k[w].width - 1, k[w].width + 1}[mc::choose(4)]; long long v = wide[s == 0 ? mc::choose(10) : 7]; p.check(Input{0, v, n, ""}, to_bytes(v, n, k[w].width)); }
}
MC_SCENARIO(byte_families) {
  int f = mc::choose(3); static const char* names[] = {"char family", "unsigned char family", "signed char family"}; Pair p(7 + f, names[f]);
  for (int s = 0; s < 3; ++s) { int kind = mc::choose(f == 0 ? 5 : 4) + (f == 0 ? 0 : 1); size_t width = kind <= 2 ? 4 : 8; if (kind == 0) { Input in{0, 0, 0, hexes[mc::choose(5)]}; p.check(in, hex(in.s)); } else { size_t n = mc::flip() ? width : 12 - width; p.check(Input{kind, 0x0123456789abcdefll, n, ""}, to_bytes(0x0123456789abcdefll, n, width)); } }
}
MC_SCENARIO(bytes_to_number) {
  static const struct { int what; size_t width; bool sign; const char* name; } k[] = {{30, 4, true, "bytes to int"}, {31, 4, false, "bytes to unsigned"}, {32, 2, true, "bytes to short"}, {33, 2, false, "bytes to unsigned short"}, {34, 8, true, "bytes to long"}, {35, 8, true, "bytes to unsigned long"}, {36, 8, true, "bytes to long long"}};
  int w = mc::choose(7); Pair p(k[w].what, k[w].name); for (int s = 0; s < 3; ++s) { size_t n = s == 0 ? mc::choose(k[w].width + 3) : (size_t[]){k[w].width, k[w].width + 1, 1, k[w].width + 8}[mc::choose(4)]; std::string v(n, (char)(mc::flip() ? 0xff : 0x12)); if (n) v[n - 1] = 0x7f; p.check(Input{0, 0, n, v}, from_bytes(v, k[w].width, k[w].sign)); }
}
MC_SCENARIO(number_to_text) {
  int w = mc::choose(3); Pair p(10 + w, "number to text");
  for (int s = 0; s < 2; ++s) { if (w < 2) { int v = mc::pick(h::edges<int>()); p.check(Input{0, v, 0, ""}, good(std::to_string(v))); } else { int kind = mc::choose(4); long long v = kind == 3 ? mc::choose(3) * 60 : (long long[]){0, -1, 1, INT_MIN, INT_MAX, 1000000}[mc::choose(6)]; p.check(Input{kind, v, 0, ""}, good(kind == 0 ? std::to_string((int)v) : kind == 1 ? std::to_string((unsigned long)v) : kind == 2 ? (v ? "true" : "false") : std::to_string(v))); } }
}
MC_SCENARIO(buffer_refused) {   // no memory for the internal buffer
  int what = mc::choose(13); bool fail = mc::flip(); Done a = starve_debug(what, fail), b = starve_release(what, fail); mc::trace("converter %d, memory %s: debug %d, release %d", what, fail ? "refused" : "had", a.flag, b.flag);
  if (fail) { MC_CHECK(a.thrown && a.flag == MemoryError, "debug-unreported", "converter %d without a buffer is not refused in a debug build", what); MC_CHECK(!b.thrown && b.flag == MemoryError, "release-unreported", "converter %d without a buffer reports %d in a release build", what, b.flag); }
  else { MC_CHECK(!a.thrown && a.flag == NoError && a.value == "usable" && !b.thrown && b.flag == NoError && b.value == "usable", "stale-error", "converter %d reports an error although it has its buffer", what); }
}
}

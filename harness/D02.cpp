// @SOURCES: ecl_exceptions/src/lib/*.cpp ecl_devices/src/lib/string.cpp ecl_streams/src/lib/manipulators.cpp
// @BUILDS: release
// @ASSUME: tokens are separated by blanks or newlines;; a number directly followed by other characters (12ab) is not specified and only checked for memory safety;; floats are compared with strtod up to a relative error of 1e-13 (double) or one ulp (float), fixed notation only
#include "util.hpp"
#include <memory>
#include <cmath>
#include <cfloat>
#include <ecl/streams/string_stream.hpp>
#include <ecl/streams/manipulators.hpp>
namespace { struct Script; Script* script = nullptr; }
// A device that hands out a text and fails (or is exhausted) from a chosen read on.
struct ScriptDevice { std::string text; size_t pos = 0; long fail_at = -1, reads = 0; long answer = -1; bool open() { return true; } bool isOpen() { return true; }
  long read(char& c) { if (reads++ == fail_at) return answer; if (pos >= text.size()) return 0; c = text[pos++]; return 1; } long read(char* s, unsigned long n) { unsigned long k = 0; while (k < n && read(s[k]) == 1) ++k; return (long)k; } };
namespace ecl { template <> class is_source<ScriptDevice> : public True {}; }
namespace {
using namespace ecl;
typedef TextStream<ScriptDevice> In;
typedef __int128 W;
bool blank(char c) { return c == ' ' || c == '\n'; }
enum Kind { Value, Failure, Unspecified };
template <class T> struct Name; 
#define NAME(T) template <> struct Name<T> { static const char* get() { return #T; } };
NAME(short) NAME(int) NAME(long) NAME(long long) NAME(unsigned char) NAME(unsigned short) NAME(unsigned int) NAME(unsigned long) NAME(unsigned long long) NAME(float) NAME(double) NAME(bool) NAME(char) NAME(std::string)
// Reference meaning of one token for an integer type.
template <class T> Kind meaning(const std::string& t, T& v) {
  const W lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); size_t i = 0; bool neg = false, hex = false; W n = 0; bool big = false; auto hexv = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
  if (t.compare(0, 2, "0x") == 0) { hex = true; i = 2; } else if (t.compare(0, 1, "x") == 0) { hex = true; i = 1; } else if (!t.empty() && (t[0] == '-' || t[0] == '+')) { neg = t[0] == '-'; i = 1; if (neg && lo == 0) return Failure; }
  size_t b = i; for (; i < t.size(); ++i) { int d = hexv(t[i]); if (d < 0 || (!hex && d > 9)) break; n = n * (hex ? 16 : 10) + d; if (n > ((W)1 << 100)) { big = true; n = (W)1 << 100; } }
  if (i == b) return t.compare(0, 1, "0") == 0 ? Unspecified : Failure; if (i < t.size()) return Unspecified;
  if (neg) n = -n; if (big || n < lo || n > hi) return Failure; v = (T)n; return Value;
}
template <class T> Kind meaning_float(const std::string& t, T& v) {
  size_t i = 0; if (!t.empty() && (t[0] == '-' || t[0] == '+')) i = 1; size_t d = 0; while (i < t.size() && isdigit(t[i])) ++i, ++d; if (i < t.size() && t[i] == '.') { ++i; while (i < t.size() && isdigit(t[i])) ++i, ++d; }
  if (d == 0) return Failure; if (i < t.size()) return Unspecified; double x = strtod(t.c_str(), nullptr); v = (T)x; return std::isinf(v) ? Failure : Value;
}
template <> Kind meaning<float>(const std::string& t, float& v) { return meaning_float(t, v); }
template <> Kind meaning<double>(const std::string& t, double& v) { return meaning_float(t, v); }
template <> Kind meaning<bool>(const std::string& t, bool& v) { if (t == "true" || t == "TRUE" || t == "True") { v = true; return Value; } if (t == "false" || t == "FALSE" || t == "False") { v = false; return Value; } return Failure; }
template <> Kind meaning<std::string>(const std::string& t, std::string& v) { v = t; return t.empty() ? Failure : Value; }
template <class T> bool same(T a, T b) { return a == b; }
template <> bool same<double>(double a, double b) { return std::fabs(a - b) <= 1e-13 * std::fabs(b) && std::signbit(a) == std::signbit(b); }
template <> bool same<float>(float a, float b) { return (a == b || a == std::nextafterf(b, INFINITY) || a == std::nextafterf(b, -INFINITY)) && std::signbit(a) == std::signbit(b); }
template <class T> T mark() { return (T)85; } template <> bool mark<bool>() { return true; } template <> std::string mark<std::string>() { return "unchanged"; }
template <class T> std::string text(const T& v) { std::ostringstream s; s.precision(20); s << v; return s.str(); } template <> std::string text(const unsigned char& v) { return std::to_string((int)v); }
// Extracts one T and compares with the meaning of the token at `at` of the text; advances; false = stop here.
template <class T, class S> bool extract(S& s, const std::string& t, size_t& at) {
  size_t b = at; while (b < t.size() && blank(t[b])) ++b; size_t e = b; while (e < t.size() && !blank(t[e])) ++e; std::string tok = t.substr(b, e - b); T want = mark<T>(), got = mark<T>(); Kind k = tok.empty() ? Failure : meaning<T>(tok, want); s >> got; mc::step(); mc::trace("read %s: '%s'", Name<T>::get(), mc::show(text(got)).c_str());
  if (k == Unspecified) return false; mc::validated(); mc::state(mc::mix(mc::hash(tok), mc::hash(Name<T>::get())));
  if (k == Failure) { MC_CHECK(s.fail() && s.errorStatus().flag() != NoError, "no-failure", "reading %s from '%s' reports success (value %s)", Name<T>::get(), mc::show(t.substr(at)).c_str(), mc::show(text(got)).c_str()); MC_CHECK((std::is_same<T, std::string>::value && !tok.empty()) || got == mark<T>(), "changed", "a failed read of %s from '%s' changed the value to %s", Name<T>::get(), mc::show(t.substr(at)).c_str(), mc::show(text(got)).c_str()); return false; }
  MC_CHECK(!s.fail() && s.errorStatus().flag() == NoError, "failure", "reading %s from '%s' fails (%s)", Name<T>::get(), mc::show(t.substr(at)).c_str(), s.errorStatus().what());
  MC_CHECK(same<T>(got, want), "value", "reading %s from '%s' gives %s", Name<T>::get(), mc::show(t.substr(at)).c_str(), mc::show(text(got)).c_str());
  at = e < t.size() ? e + 1 : e; return true;
}
template <class S> bool extract_char(S& s, const std::string& t, size_t& at) {
  size_t b = at; while (b < t.size() && blank(t[b])) ++b; char c = 'Z'; s >> c; mc::step(); mc::validated(); if (b >= t.size()) { MC_CHECK(s.fail(), "no-failure", "reading a character from the blank rest '%s' reports success", mc::show(t.substr(at)).c_str()); return false; }
  MC_CHECK(!s.fail() && c == t[b], "value", "reading a character from '%s' gives '%c' (fail %d)", mc::show(t.substr(at)).c_str(), c, s.fail()); at = b + 1; return true;
}
template <class S> bool extract_any(S& s, const std::string& t, size_t& at, int type) {
  switch (type) { case 0: return extract<int>(s, t, at); case 1: return extract<unsigned char>(s, t, at); case 2: return extract<double>(s, t, at); case 3: return extract<std::string>(s, t, at); case 4: return extract_char(s, t, at); case 5: return extract<short>(s, t, at); case 6: return extract<bool>(s, t, at); case 7: return extract<float>(s, t, at); case 8: return extract<unsigned long long>(s, t, at); default: return extract<long>(s, t, at); }
}
void fill(StringStream& s, const std::string& t) { s.device().write(t.data(), t.size()); }
// Every text up to a length over the alphabet, read by every pair of types.
MC_SCENARIO(short_texts, .shard(3)) {
  static const char al[] = "019-+xa. \n"; int n = mc::range(0, mc::tiered(4, 5)); std::string t; for (int i = 0; i < n; ++i) t += al[mc::choose(10)]; mc::trace("'%s'", mc::show(t).c_str());
  for (int a = 0; a < 8; ++a) for (int b = 0; b < (n > 1 ? 5 : 1); ++b) { StringStream s; fill(s, t); size_t at = 0; if (extract_any(s, t, at, a)) extract_any(s, t, at, b); }
}
std::string wide(W v) { bool neg = v < 0; if (neg) v = -v; std::string s; do { s += (char)('0' + (int)(v % 10)); v /= 10; } while (v); if (neg) s += '-'; return std::string(s.rbegin(), s.rend()); }
template <class T> void integers() {
  const std::vector<T>& e = h::edges<T>(); static const char* const pre[] = {"", "\n ", " "}; static const char* const post[] = {"", " 7", "\n 7 ", " ", "\n"}; static const int zeros[] = {0, 30, 1}; W v = mc::pick(e); int over = mc::choose(4); if (over == 1) v = (W)std::numeric_limits<T>::max() + 1 + mc::choose(mc::tiered(3, 12)); if (over == 2) v = (W)std::numeric_limits<T>::min() - 1 - mc::choose(mc::tiered(3, 12)); if (over == 3) v = v * 10 + mc::choose(3);
  std::string d = wide(v < 0 ? -v : v), t = pre[mc::choose(mc::tiered(2, 3))]; t += v < 0 ? "-" : mc::flip() ? "+" : ""; t += std::string(zeros[mc::choose(mc::tiered(2, 3))], '0') + d; t += post[mc::choose(mc::tiered(3, 5))]; mc::trace("'%s'", mc::show(t).c_str()); StringStream s; fill(s, t); size_t at = 0; if (extract<T>(s, t, at)) extract<int>(s, t, at);
}
template <class T> void hexes() {
  const std::vector<T>& e = h::edges<T>(); W v = mc::pick(e); if (v < 0) v = -v; int over = mc::choose(3); if (over == 1) v = (W)std::numeric_limits<T>::max() + 1 + mc::choose(3); if (over == 2) v = v * 16 + mc::choose(2); std::string d; W x = v; bool up = mc::flip(); const char* digits = up ? "0123456789ABCDEF" : "0123456789abcdef"; /* (a ? "x" : "y")[i] is miscompiled by g++ 13 -fsanitize=undefined */ do { int k = (int)(x % 16); d += digits[k]; x /= 16; } while (x); static const int zeros[] = {0, 1, 30}; static const char* const post[] = {"", " 7", "\n7"};
  std::string t = mc::flip() ? " " : ""; t += mc::flip() ? "0x" : "x"; t += std::string(mc::pick(zeros), '0') + std::string(d.rbegin(), d.rend()); t += mc::pick(post); mc::trace("'%s'", mc::show(t).c_str()); StringStream s; fill(s, t); size_t at = 0; if (extract<T>(s, t, at)) extract<int>(s, t, at);
}
#define INT(T, N) MC_SCENARIO(integer_##N) { integers<T>(); } MC_SCENARIO(hex_##N) { hexes<T>(); }
INT(short, short) INT(int, int) INT(long, long) INT(long long, llong) INT(unsigned char, uchar) INT(unsigned short, ushort) INT(unsigned int, uint) INT(unsigned long, ulong) INT(unsigned long long, ullong)
template <class T> void floats() {
  static const char* const ip[] = {"", "0", "7", "19", "123456789", "16777217", "12345678901234567890123456789", "340282346638528859811704183484516925440", "1000000000000000000000000000000000000000"}; static const char* const fp[] = {"", ".", ".0", ".5", ".25", ".1", ".123456789", ".000000000000000000000000000001", ".99999999999999999999999999999999999999"}; static const char* const sg[] = {"", "-", "+"}; static const char* const post[] = {"", " ", "\n", " 7.5", "\n7.5"}; static const char* const pre[] = {"", " \n"};
  std::string t = mc::pick(pre); t += mc::pick(sg); t += mc::pick(ip); t += mc::pick(fp); t += mc::pick(post); mc::trace("'%s'", mc::show(t).c_str()); StringStream s; fill(s, t); size_t at = 0; if (extract<T>(s, t, at)) extract<T>(s, t, at);
}
MC_SCENARIO(float_double) { floats<double>(); }
MC_SCENARIO(float_float) { floats<float>(); }
MC_SCENARIO(float_long_digits) { int n = mc::range(1, 330); bool frac = mc::flip(); std::string t = frac ? "0." + std::string(n - 1, '0') + "7" : std::string(n, '3'); if (mc::flip()) t += " 1"; mc::trace("%d digits", n); { StringStream s; fill(s, t); size_t at = 0; if (!frac && n > 308) {} else if (frac && n > 295) {} else if (extract<double>(s, t, at)) extract<double>(s, t, at); } }
// Every token of a list, in every order of three, by every type.
MC_SCENARIO(token_lists) {
  static const char* const tok[] = {"true", "TRUE", "True", "false", "False", "FALSE", "tRUE", "1", "-1", "0", "0x1F", "255", "256", "abc", "-", "+", "--1", "2.5", "x", "0xg", "word_with_punct.,;", "-0", "\t5", "99999999999999999999"}; const int N = sizeof tok / sizeof *tok; static const char* const sep[] = {" ", "\n", "  \n"}; int k = mc::tiered(2, 3); std::string t, sp = mc::pick(sep); for (int i = 0; i < k; ++i) { if (i) t += sp; t += tok[mc::choose(N)]; } if (mc::flip()) t += sp; mc::trace("'%s'", mc::show(t).c_str());
  int types[3]; for (int i = 0; i < k; ++i) types[i] = mc::choose(10); StringStream s; fill(s, t); size_t at = 0; for (int i = 0; i < k; ++i) if (!extract_any(s, t, at, types[i])) return;
}
// What is written is read back.
template <class T> void put(StringStream& s, T v) { s << v; }
void put(StringStream& s, unsigned char v) { s << (int)v; }
template <class T> bool trip(StringStream& s, int i, std::vector<std::function<void()>>& reads) {
  const std::vector<T>& e = h::edges<T>(); T v = e[(size_t)i % e.size()]; put(s, v); reads.push_back([&s, v] { T got = 85; s >> got; mc::step(); mc::validated(); MC_CHECK(!s.fail() && got == v, "round-trip", "%s %s is read back as %s (fail %d)", Name<T>::get(), text(v).c_str(), text(got).c_str(), s.fail()); }); return true;
}
MC_SCENARIO(round_trips) {
  StringStream s; std::vector<std::function<void()>> reads; int k = mc::tiered(2, 3); static const char* const seps[] = {" ", "\n", " \n "}; static const double fl[] = {0.5, -2.25, 1234567.75, -0.0625, 100}; static const int idx[] = {0, 1, 3, 4, 7, 100, 101, 102, 103, 104, 105};
  for (int i = 0; i < k; ++i) {
    int type = mc::choose(12), n = type < 9 ? mc::pick(idx) : mc::choose(5); mc::trace("type %d value %d", type, n);
    switch (type) {
      case 0: trip<short>(s, n, reads); break; case 1: trip<int>(s, n, reads); break; case 2: trip<long>(s, n, reads); break; case 3: trip<long long>(s, n, reads); break; case 4: trip<unsigned char>(s, n, reads); break; case 5: trip<unsigned short>(s, n, reads); break; case 6: trip<unsigned int>(s, n, reads); break; case 7: trip<unsigned long>(s, n, reads); break; case 8: trip<unsigned long long>(s, n, reads); break;
      case 9: { bool b = n & 1; s << b; reads.push_back([&s, b] { bool g = !b; s >> g; MC_CHECK(!s.fail() && g == b, "round-trip", "%d is read back as %d", b, g); }); break; }
      case 10: { double d = fl[n]; s << d; reads.push_back([&s, d] { double g = 85; s >> g; MC_CHECK(!s.fail() && same<double>(g, d), "round-trip", "%g is read back as %.17g", d, g); }); break; }
      case 11: { std::string w = std::string("w") + (char)('a' + n) + (n == 4 ? std::string(400, '\xfe') : ""); s << w; reads.push_back([&s, w] { std::string g; s >> g; MC_CHECK(!s.fail() && g == w, "round-trip", "'%s' is read back as '%s'", mc::show(w).c_str(), mc::show(g).c_str()); }); break; }
    }
    s << mc::pick(seps);
  }
  for (auto& r : reads) r(); int x = 85; s >> x; MC_CHECK(s.fail() && x == 85, "exhausted", "reading from the exhausted stream gives %d", x);
}
// The device fails or is exhausted at any of its reads.
MC_SCENARIO(device_faults) {
  static const char* const texts[] = {" 12 34", "0", "0x1f 5", "-7", "+8\n", "2.50 1", "word next", "true", "x", " \n ", "c d"}; std::string t = mc::pick(texts); int type = mc::choose(10), at_read = mc::choose(9); bool error = mc::flip(); mc::trace("'%s' type %d, read %d answers %d", mc::show(t).c_str(), type, at_read, error ? -1 : 0);
  In s; s.device().text = t; s.device().fail_at = at_read; s.device().answer = error ? -1 : 0; size_t at = 0;
  if (!error) { if (at_read <= (int)t.size()) { std::string cut = t.substr(0, at_read); extract_any(s, cut, at, type); } else extract_any(s, t, at, type); return; }
  // an error: if the extraction gets that far it must fail and leave the value alone
  int iv = 85; unsigned char cv = 85; double dv = 85; std::string sv; char ch = 'Z'; bool bv = true; switch (type) { case 0: s >> iv; break; case 1: s >> cv; break; case 2: s >> dv; break; case 3: s >> sv; break; case 4: s >> ch; break; default: s >> bv; break; }
  mc::step(); mc::validated(); if (s.device().reads > at_read) { MC_CHECK(s.fail(), "no-failure", "the device failed at read %d but extraction %d from '%s' reports success", at_read, type, mc::show(t).c_str()); MC_CHECK(iv == 85 && cv == 85 && dv == 85 && bv, "changed", "a failed read changed the value"); }
}
MC_SCENARIO(raw_characters) {
  static const char al[] = {' ', '\n', 'a', '\0', '\xff'}; int n = mc::range(0, mc::tiered(4, 5)); std::string t; for (int i = 0; i < n; ++i) t += al[mc::choose(5)]; mc::trace("'%s'", mc::show(t).c_str()); StringStream s; fill(s, t); s.enableRawCharReads(); size_t i = 0, off = mc::choose(3);
  for (; i < t.size(); ++i) { if (i == off) s.disableRawCharReads(); char c = 'Z'; if (i >= off) { if (!extract_char(s, t, i)) return; --i; } else { s >> c; mc::validated(); MC_CHECK(!s.fail() && c == t[i], "raw", "raw character %zu of '%s' is read as '%c'", i, mc::show(t).c_str(), c); } }
  char c = 'Z'; s >> c; MC_CHECK(s.fail() && c == 'Z', "raw", "reading past the end succeeds");
}
}

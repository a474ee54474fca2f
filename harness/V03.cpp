// @SOURCES: ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @ASSUME: values are limited to a set around zero, the powers of ten, rounding ties, the type limits and the non-finite ones;; the end pointer of a supplied buffer is its last writable character, as in the code and tests
#include "util.hpp"
#include <memory>
#include <cfloat>
#include <cmath>
#include <ecl/converters.hpp>
namespace {
using namespace ecl;
const std::vector<double>& values() {
  static std::vector<double> v = [] {
    std::vector<double> w = {0.0, 1.0, 0.5, 1.5, 2.5, 0.25, 0.125, 0.375, 0.0625, 9.5, 9.9999995, 9.9999994, 0.05, 0.005, 0.0005, 0.0000005, 0.00000049, 1.005, 2.134, 3.14159265358979, 321.23, 99.995, 999999.5, 1234567.891, 16777216.0, 16777217.0, 4294967296.0, 9007199254740993.0, 1e-10, 1e-20, 1e-21, 4.9e-20, 5.1e-21, 1e10, 1e19, 1e20, 1e38, FLT_MIN, FLT_MAX, 1e-45};
    size_t n = w.size(); for (size_t i = 0; i < n; ++i) w.push_back(-w[i]); w.push_back(INFINITY); w.push_back(-INFINITY); w.push_back(NAN); return w; }();
  return v;
}
const std::vector<double>& huge_values() { static std::vector<double> v = {1e100, -1e200, DBL_MAX, -DBL_MAX, DBL_MIN, 4.9e-324, 1e230, 1e240, -1e245, 1e248}; return v; }
std::string want(double v, int precision) {
  char b[512]; if (precision < 0) snprintf(b, sizeof b, "%f", v); else snprintf(b, sizeof b, "%.*f", precision > 20 ? 20 : precision, v); return b;
}
const std::vector<int>& precisions() { static std::vector<int> p = {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 25, 99, 1000, INT32_MAX, -2, -10, INT32_MIN}; return p; }
// One conversion of an object whose buffer holds `room` characters and a terminator.
template <class T, class Conv> void convert(Conv& c, T v, int precision, int room, char* from, char* to, const char* kind) {
  std::string w = want(v, precision); char* r = nullptr;
  bool plain = precision == -1 && mc::flip();
  int o = h::outcome([&] { r = plain ? c(v) : c(v, precision); }); mc::state(mc::hash(w)); mc::validated();
  mc::trace("%s: %.9g with precision %d in %d: %s '%s'", kind, (double)v, precision, room, h::oname(o).c_str(), r ? r : "");
  MC_CHECK(o == h::Ok && r, "refused", "%s: %.17g with precision %d does not convert: %s", kind, (double)v, precision, h::oname(o).c_str());
  if (from) MC_CHECK(r >= from && r <= to, "outside", "%s: result outside the supplied buffer", kind);
  std::string got = r;
  // As documented, a text that is too long for the buffer is truncated to fit it.
  if ((int)w.size() <= room) MC_CHECK(got == w, "wrong", "%s: %.17g with precision %d converts to '%s', not '%s'", kind, (double)v, precision, mc::show(got).c_str(), w.c_str());
  else MC_CHECK(w.compare(0, got.size(), got) == 0 && (int)got.size() >= room && (int)got.size() <= room + 1, "truncation", "%s: %.17g with precision %d in room for %d converts to '%s', not to the start of '%s'", kind, (double)v, precision, room, mc::show(got).c_str(), w.c_str());
}
template <class T> void any_value(const std::vector<double>& vs) {
  T v = (T)mc::pick(vs); int p = mc::pick(precisions());
  if (mc::flip()) { Converter<char*, T> c; convert<T>(c, v, p, 248, nullptr, nullptr, "own buffer"); }
  else { Converter<char*> c; convert<T>(c, v, p, 248, nullptr, nullptr, "family"); }
}
// Sequences of precisions over one object: what was asked for before does not matter.
template <class T> void sequences(int depth) {
  static const double vals[] = {-2.718281828459045, 0.5, 123456.75}; bool family = mc::flip(); T v = (T)vals[mc::choose(3)];
  Converter<char*, T> c; Converter<char*> f;
  for (int i = 0; i < depth; ++i) { int p = mc::range(-1, 21); if (family) convert<T>(f, v, p, 248, nullptr, nullptr, "family, sequence"); else convert<T>(c, v, p, 248, nullptr, nullptr, "own buffer, sequence"); v = -v; }
}
// Every buffer size around the text's length, surrounded by memory that may not be touched.
template <class T> void buffers() {
  static const double vals[] = {0, -1.5, 2.134, -321.23, 99.995, 123456.75, INFINITY, -INFINITY, NAN}; T v = (T)vals[mc::choose(9)]; int p = mc::range(-1, 21), n = (int)want(v, p).size();
  int bytes = mc::range(2, n + 4); std::unique_ptr<char[]> b(new char[bytes]); memset(b.get(), 'Z', bytes); char *from = b.get(), *to = from + bytes - 1;
  bool own = mc::flip();
  if (own) { if (mc::flip()) { Converter<char*, T> c(bytes); convert<T>(c, v, p, bytes - 2, nullptr, nullptr, "own buffer of a size"); convert<T>(c, -v, p < 0 ? 2 : -1, bytes - 2, nullptr, nullptr, "own buffer of a size, again"); } else { Converter<char*> c(bytes); convert<T>(c, v, p, bytes - 2, nullptr, nullptr, "family, own buffer of a size"); } }
  else if (mc::flip()) { Converter<char*, T> c(from, to); convert<T>(c, v, p, bytes - 2, from, to, "supplied buffer"); convert<T>(c, -v, p < 0 ? 2 : -1, bytes - 2, from, to, "supplied buffer, again"); }
  else { Converter<char*> c(from, to); convert<T>(c, v, p, bytes - 2, from, to, "family, supplied buffer"); }
}
// Numbers of different types take turns over the one buffer of the family.
MC_SCENARIO(mixed) {
  Converter<char*> c; for (int i = 0; i < 3; ++i) switch (mc::choose(6)) {
    case 0: convert<double>(c, -2.25, mc::range(-1, 20), 248, nullptr, nullptr, "mixed"); break;
    case 1: convert<float>(c, 0.1f, mc::range(-1, 20), 248, nullptr, nullptr, "mixed"); break;
    case 2: { int v = mc::flip() ? INT32_MIN : 7; MC_CHECK(std::to_string(v) == c(v), "mixed", "%d after other numbers", v); break; }
    case 3: { unsigned long v = mc::flip() ? UINT64_MAX : 0; MC_CHECK(std::to_string(v) == c(v), "mixed", "%lu after other numbers", v); break; }
    case 4: { bool v = mc::flip(); MC_CHECK(std::string(v ? "true" : "false") == c(v), "mixed", "%d after other numbers", v); break; }
    case 5: { short v = -9; MC_CHECK(std::string("-9") == c(v), "mixed", "short after other numbers"); break; } }
  mc::trace("mixed");
}
MC_SCENARIO(any_float) { any_value<float>(values()); }
MC_SCENARIO(any_double) { any_value<double>(values()); }
MC_SCENARIO(huge_double) { any_value<double>(huge_values()); }
MC_SCENARIO(sequences_float) { sequences<float>(mc::thorough() ? 4 : 3); }
MC_SCENARIO(sequences_double) { sequences<double>(mc::thorough() ? 4 : 3); }
MC_SCENARIO(buffers_float) { buffers<float>(); }
MC_SCENARIO(buffers_double) { buffers<double>(); }
}

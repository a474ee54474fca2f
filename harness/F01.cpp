// @SOURCES: ecl_exceptions/src/lib/*.cpp ecl_formatters/src/lib/*.cpp
// @BUILDS: release
// @ASSUME: a value handed to a formatter is printed before the formatter is used again;; width 0 or less and no alignment mean no padding; setting a positive width on an unaligned formatter aligns right, as documented in the code
#include "util.hpp"
#include <memory>
#include <ecl/formatters.hpp>
namespace {
using namespace ecl;
struct Fmt { int w; Alignment a; IntegralBase b; };
template <class T> std::string digits(T v, IntegralBase b) {
  typedef unsigned long long U; U u = (U)v; if (sizeof(T) < 8) u &= (1ull << (8 * sizeof(T) % 64)) - 1;
  if (b == Dec) return std::to_string(v);
  std::string s = b == Hex ? "0x" : "0b"; int per = b == Hex ? 4 : 1; for (int i = 8 * sizeof(T) / per - 1; i >= 0; --i) s += "0123456789abcdef"[(u >> (i * per)) & (b == Hex ? 15 : 1)]; return s;
}
std::string padded(const std::string& t, int w, Alignment a) {
  int n = w - (int)t.size(); if (n <= 0 || a == NoAlign) return t;
  switch (a) { case LeftAlign: return t + std::string(n, ' '); case RightAlign: return std::string(n, ' ') + t; case CentreAlign: return std::string(n / 2 + n % 2, ' ') + t + std::string(n / 2, ' '); default: return t; }
}
void set_width(Fmt& f, int w) { f.w = w; if (w > 0 && f.a == NoAlign) f.a = RightAlign; }
void set_align(Fmt& f, Alignment a) { f.a = a; if (a == NoAlign) f.w = 0; }
const Alignment als[] = {NoAlign, LeftAlign, RightAlign, CentreAlign}; const IntegralBase bases[] = {Bin, Hex, Dec};
const char* aname(Alignment a) { static const char* n[] = {"none", "left", "right", "centre"}; return n[a]; }
template <class T> void check(const std::string& got, T v, const Fmt& f, const char* what) {
  std::string want = padded(digits(v, f.b), f.w, f.a); mc::state(mc::hash(want)); mc::validated();
  MC_CHECK(got == want, "text", "%s: %s (width %d, align %s, base %d) prints '%s', expected '%s'", what, std::to_string(v).c_str(), f.w, aname(f.a), (int)f.b, mc::show(got).c_str(), want.c_str());
}
template <class T> void empty(Format<T>& f) {  // a formatter without a value: reported, nothing printed
  if (!h::checked) return;
  std::ostringstream s; int o = h::outcome([&] { s << f; }); MC_CHECK(o == UsageError, "no-value", "printing without a value: %s", h::oname(o).c_str()); MC_CHECK(s.str().empty(), "no-value", "printing without a value prints '%s'", s.str().c_str());
}
// Every value with every one-off and permanent format.
template <class T> void formats(T v) {
  int w = mc::range(-1, 12); if (w == 12) w = mc::choose(2) ? 68 : 19; Fmt f{w, mc::pick(als), mc::pick(bases)}; std::ostringstream s;
  mc::trace("%s width %d align %s base %d", std::to_string(v).c_str(), f.w, aname(f.a), f.b);
  switch (mc::choose(4)) {
    case 0: { Format<T> p(f.w, f.a, f.b); s << p(v); check(s.str(), v, f, "permanent, constructor"); break; }
    case 1: { Format<T> p; Fmt m = f; p(f.w, f.a, f.b); if (f.a == NoAlign) m.w = 0; s << p(v); check(s.str(), v, m, "permanent, set at once"); break; }
    case 2: { Format<T> p; Fmt m{-1, NoAlign, Dec}; p.base(f.b); m.b = f.b; p.align(f.a); set_align(m, f.a); p.width(f.w); set_width(m, f.w); s << p(v); check(s.str(), v, m, "permanent, set one by one"); break; }
    case 3: { Format<T> p; Fmt m = f; if (f.a == NoAlign) m.w = 0; s << p(v, f.w, f.a, f.b); check(s.str(), v, m, "one-off"); break; }
  }
}
template <class T> void all_formats() { if (sizeof(T) == 1) formats<T>((T)mc::choose(256)); else formats<T>(mc::pick(h::edges<T>())); }
template <class T> void all_values() {  // every 16 bit value in each base
  T v = (T)(mc::choose(256) * 256 + mc::choose(256)); static Format<T>* p = new Format<T>(); std::ostringstream s; Fmt f{20, RightAlign, Dec};
  for (IntegralBase b : bases) { f.b = b; s.str(""); s << (*p)(v, 20, RightAlign, b); check(s.str(), v, f, "one-off"); }
}
// Histories of permanent and one-off formats over two formatters, one of them possibly a copy.
template <class T> void history(int depth) {
  std::unique_ptr<Format<T>> f[2]; Fmt m[2]; static const T vals[] = {(T)-5, (T)42};
  for (int i = 0; i < 2; ++i) { m[i] = i ? Fmt{6, LeftAlign, Hex} : Fmt{-1, NoAlign, Dec}; f[i].reset(i ? new Format<T>(6, LeftAlign, Hex) : new Format<T>()); }
  for (int d = 0; d < depth; ++d) {
    int i = mc::choose(2), other = 1 - i; std::ostringstream s; T v = vals[d & 1];
    switch (mc::choose(9)) {
      case 0: { int w = 7 * mc::choose(2); mc::trace("#%d width %d", i, w); f[i]->width(w); set_width(m[i], w); break; }
      case 1: { Alignment a = mc::pick(als); mc::trace("#%d align %s", i, aname(a)); f[i]->align(a); set_align(m[i], a); break; }
      case 2: { IntegralBase b = bases[mc::range(1, 2)]; mc::trace("#%d base %d", i, b); f[i]->base(b); m[i].b = b; break; }
      case 3: { mc::trace("#%d (9, centre, dec)", i); (*f[i])(9, CentreAlign, Dec); m[i] = {9, CentreAlign, Dec}; break; }
      case 4: { mc::trace("#%d print", i); s << (*f[i])(v); check(s.str(), v, m[i], "permanent"); break; }
      case 5: { Fmt t{8, m[i].a, Hex}; if (t.a == NoAlign) t.a = RightAlign; mc::trace("#%d one-off (8, hex)", i); s << (*f[i])(v, 8, Hex); check(s.str(), v, t, "one-off without alignment"); break; }
      case 6: { Alignment a = mc::pick(als); Fmt t{a == NoAlign ? 0 : 5, a, Dec}; mc::trace("#%d one-off (5, %s, dec)", i, aname(a)); s << (*f[i])(v, 5, a, Dec); check(s.str(), v, t, "one-off"); break; }
      case 7: { if (mc::flip()) { mc::trace("#%d becomes a copy of #%d", i, other); std::unique_ptr<Format<T>> c(new Format<T>(*f[other])); f[i].swap(c); } else { mc::trace("#%d assigned from #%d", i, other); *f[i] = *f[other]; } m[i] = m[other]; break; }
      case 8: { mc::trace("#%d pending value, the other one prints first", i); auto& r = (*f[i])(v, 5, LeftAlign, Hex); s << (*f[other])((T)3); check(s.str(), (T)3, m[other], "while another value is pending"); s.str(""); s << r; check(s.str(), v, Fmt{5, LeftAlign, Hex}, "pending one-off"); break; }
    }
    uint64_t hs = depth - d; for (auto& x : m) hs = mc::mix(hs, (x.w * 8 + x.a) * 4 + x.b); if (h::first(mc::mix(hs, sizeof(T)))) for (auto& p : f) empty(*p);
    mc::state(hs);
  }
  for (int i = 0; i < 2; ++i) { std::ostringstream s; s << (*f[i])(vals[i]); check(s.str(), vals[i], m[i], "finally"); }
}
MC_SCENARIO(formats_short) { all_formats<short>(); }
MC_SCENARIO(formats_int) { all_formats<int>(); }
MC_SCENARIO(formats_long) { all_formats<long>(); }
MC_SCENARIO(formats_char) { all_formats<char>(); }
MC_SCENARIO(formats_signed_char) { all_formats<signed char>(); }
MC_SCENARIO(formats_unsigned_short) { all_formats<unsigned short>(); }
MC_SCENARIO(formats_unsigned) { all_formats<unsigned>(); }
MC_SCENARIO(formats_unsigned_long) { all_formats<unsigned long>(); }
MC_SCENARIO(formats_unsigned_char) { all_formats<unsigned char>(); }
MC_SCENARIO(every_short, .noleak()) { all_values<short>(); }
MC_SCENARIO(every_unsigned_short, .noleak()) { all_values<unsigned short>(); }
MC_SCENARIO(history_int) { history<int>(mc::tiered(3, 4)); }
MC_SCENARIO(history_char) { history<char>(mc::tiered(2, 3)); }
MC_SCENARIO(history_unsigned_long) { history<unsigned long>(mc::tiered(2, 3)); }
MC_SCENARIO(history_short) { history<short>(mc::tiered(2, 3)); }
}

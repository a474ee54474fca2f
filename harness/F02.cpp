// @SOURCES: ecl_exceptions/src/lib/*.cpp ecl_formatters/src/lib/*.cpp
// @BUILDS: release
// @ASSUME: values from a set spanning all magnitudes, signs, ties and non-finite values; precisions 0 to 20; widths -1 to 14, 40 and 330;; a value handed to a formatter is printed before the formatter is used again;; setting a positive width on an unaligned float formatter aligns right
#include "util.hpp"
#include <memory>
#include <cmath>
#include <cfloat>
#include <ecl/formatters.hpp>
namespace {
using namespace ecl;
struct Fmt { int w, p; Alignment a; };
std::string padded(const std::string& t, int w, Alignment a) {
  int n = w - (int)t.size(); if (n <= 0 || a == NoAlign) return t;
  switch (a) { case LeftAlign: return t + std::string(n, ' '); case RightAlign: return std::string(n, ' ') + t; case CentreAlign: return std::string(n / 2 + n % 2, ' ') + t + std::string(n / 2, ' '); default: return t; }
}
std::string number(double v, int p) { char b[512]; snprintf(b, sizeof b, "%.*f", p, v); return b; }
const Alignment als[] = {NoAlign, LeftAlign, RightAlign, CentreAlign};
const char* aname(Alignment a) { static const char* n[] = {"none", "left", "right", "centre"}; return n[a]; }
template <class T> const std::vector<T>& values() {
  static std::vector<T>* v = nullptr; if (v) return *v; v = new std::vector<T>;
  const double pos[] = {0, 0.5, 1.5, 2.5, 0.125, 0.05, 0.0005, 0.99995, 0.3, 1, 9.5, 9.99999, 10, 99.995, 123.456, 1000, 99999.5, 1234567.891, 1e9, 123456789012.5, 1e15, 1e20, 1e29, 1e30, 1e38, 1e-5, 1e-20, 1e-38, 4e-45, 1e100, 1e300, 1.7e308, 5e-324, DBL_MAX, DBL_MIN, FLT_MAX, FLT_MIN, (double)INFINITY, (double)NAN};
  for (double x : pos) { if (std::is_same<T, float>::value && std::isfinite(x) && x > FLT_MAX) continue; v->push_back((T)x); v->push_back((T)-x); } return *v;
}
template <class T> void check(const std::string& got, T v, const Fmt& f, const char* what) {
  std::string want = padded(number(v, f.p), f.w, f.a); mc::state(mc::hash(want)); mc::validated();
  MC_CHECK(got == want, "text", "%s: %g (width %d, precision %d, align %s) prints '%s', expected '%s'", what, (double)v, f.w, f.p, aname(f.a), mc::show(got).c_str(), want.c_str());
}
void set_width(Fmt& f, int w) { f.w = w; if (w > 0 && f.a == NoAlign) f.a = RightAlign; }
void set_align(Fmt& f, Alignment a) { f.a = a; if (a == NoAlign) f.w = 0; }
template <class T> void formats() {
  static const int ws[] = {-1, 0, 1, 4, 5, 6, 7, 9, 10, 14, 40, 330}; T v = mc::pick(values<T>()); int p = mc::range(0, 20), w; Alignment a; w = mc::pick(ws); a = mc::pick(als);
  std::ostringstream s; mc::trace("%g width %d precision %d align %s", (double)v, w, p, aname(a)); Fmt f{w, p, a}, m = f; if (a == NoAlign) m.w = 0;
  { Format<T> q(w, p, a); s << q(v); check(s.str(), v, f, "permanent, constructor"); MC_CHECK(q.width() == w && q.precision() == p, "getters", "width %d precision %d", q.width(), q.precision()); } s.str("");
  { Format<T> q; q(p, w, a, Fixed); s << q(v); check(s.str(), v, m, "permanent, set at once"); } s.str("");
  { Format<T> q; Fmt n{-1, 4, NoAlign}; q.align(a); set_align(n, a); q.precision(p); n.p = p; q.width(w); set_width(n, w); s << q(v); check(s.str(), v, n, "permanent, set one by one"); } s.str("");
  { Format<T> q; q(p, w); Fmt n{-1, p, NoAlign}; set_width(n, w); s << q(v); check(s.str(), v, n, "precision and width set together"); } s.str("");
  { Format<T> q; s << q(v, p, w, a, Fixed); check(s.str(), v, m, "one-off"); s.str(""); s << q(v); check(s.str(), v, Fmt{-1, 4, NoAlign}, "after a one-off"); } s.str("");
  { Format<T> q(3, 2, a); Fmt n{w, p, a}; set_width(n, w); s << q(v, p, w); check(s.str(), v, n, "one-off without alignment"); s.str(""); s << q(v); check(s.str(), v, Fmt{3, 2, a}, "after a one-off without alignment"); }
}
template <class F> void empty(F& f) { if (!h::checked) return; std::ostringstream s; int o = h::outcome([&] { s << f; }); MC_CHECK(o == UsageError && s.str().empty(), "no-value", "printing without a value: %s, prints '%s'", h::oname(o).c_str(), s.str().c_str()); }
template <class T> void history(int depth) {
  std::unique_ptr<Format<T>> f[2]; Fmt m[2]; static const T vals[] = {(T)-1234.5678, (T)1e12};
  for (int i = 0; i < 2; ++i) { m[i] = i ? Fmt{12, 2, LeftAlign} : Fmt{-1, 4, NoAlign}; f[i].reset(i ? new Format<T>(12, 2, LeftAlign) : new Format<T>()); }
  for (int d = 0; d < depth; ++d) {
    int i = mc::choose(2), other = 1 - i; std::ostringstream s; T v = vals[d & 1];
    switch (mc::choose(9)) {
      case 0: { int w = 16 * mc::choose(2); mc::trace("#%d width %d", i, w); f[i]->width(w); set_width(m[i], w); break; }
      case 1: { Alignment a = mc::pick(als); mc::trace("#%d align %s", i, aname(a)); f[i]->align(a); set_align(m[i], a); break; }
      case 2: { int p = 3 + 9 * mc::choose(2); mc::trace("#%d precision %d", i, p); f[i]->precision(p); m[i].p = p; break; }
      case 3: { mc::trace("#%d (1, 22, centre)", i); (*f[i])(1, 22, CentreAlign, Fixed); m[i] = {22, 1, CentreAlign}; break; }
      case 4: { mc::trace("#%d print", i); s << (*f[i])(v); check(s.str(), v, m[i], "permanent"); break; }
      case 5: { Fmt t{18, 11, m[i].a}; if (t.a == NoAlign) t.a = RightAlign; mc::trace("#%d one-off (11, 18)", i); s << (*f[i])(v, 11, 18); check(s.str(), v, t, "one-off without alignment"); break; }
      case 6: { Alignment a = mc::pick(als); Fmt t{a == NoAlign ? 0 : 15, 0, a}; mc::trace("#%d one-off (0, 15, %s)", i, aname(a)); s << (*f[i])(v, 0, 15, a, Fixed); check(s.str(), v, t, "one-off"); break; }
      case 7: { if (mc::flip()) { mc::trace("#%d becomes a copy of #%d", i, other); std::unique_ptr<Format<T>> c(new Format<T>(*f[other])); f[i].swap(c); } else { mc::trace("#%d assigned from #%d", i, other); *f[i] = *f[other]; } m[i] = m[other]; break; }
      case 8: { mc::trace("#%d pending value, the other one prints first", i); auto& r = (*f[i])(v, 1, 9, LeftAlign, Fixed); s << (*f[other])((T)3); check(s.str(), (T)3, m[other], "while another value is pending"); s.str(""); s << r; check(s.str(), v, Fmt{9, 1, LeftAlign}, "pending one-off"); break; }
    }
    uint64_t hs = depth - d; for (auto& x : m) hs = mc::mix(hs, (x.w * 8 + x.a) * 32 + x.p); if (h::first(mc::mix(hs, sizeof(T)))) for (auto& p : f) empty(*p); mc::state(hs);
  }
  for (int i = 0; i < 2; ++i) { std::ostringstream s; s << (*f[i])(vals[i]); check(s.str(), vals[i], m[i], "finally"); }
}
MC_SCENARIO(formats_double) { formats<double>(); }
MC_SCENARIO(formats_float) { formats<float>(); }
MC_SCENARIO(history_double) { history<double>(mc::tiered(3, 4)); }
MC_SCENARIO(history_float) { history<float>(mc::tiered(2, 3)); }
// Strings: every text with every layout, and histories of permanent and one-off layouts.
void check(const std::string& got, const std::string& t, int w, Alignment a, const char* what) { std::string want = padded(t, w, a); mc::validated(); mc::state(mc::hash(want)); MC_CHECK(got == want, "string", "%s: '%s' (width %d, align %s) prints '%s', expected '%s'", what, mc::show(t).c_str(), w, aname(a), mc::show(got).c_str(), mc::show(want).c_str()); }
MC_SCENARIO(strings) {
  static const char al[] = {'a', ' ', '\0', '\n', '\xff'}; int n = mc::range(0, 4); std::string t; for (int i = 0; i < n; ++i) t += al[mc::choose(mc::tiered(3, 5))]; if (mc::flip()) t += std::string(60 + 240 * mc::choose(2), 'z');
  int w = mc::range(-1, 9); if (w == 9) w = 310; Alignment a = mc::pick(als); std::ostringstream s; mc::trace("'%s' width %d align %s", mc::show(t).c_str(), w, aname(a));
  { Format<std::string> q(w, a); s << q(t); check(s.str(), t, w, a, "permanent, constructor"); } s.str(""); { Format<std::string> q; s << q(w, a)(t); check(s.str(), t, w, a, "permanent, set at once"); } s.str("");
  { Format<std::string> q; q.width(w).align(a); s << q(t); check(s.str(), t, w, a, "permanent, set one by one"); } s.str(""); { Format<std::string> q(3, RightAlign); s << q(t, w, a); check(s.str(), t, w, a, "one-off"); s.str(""); s << q(t); check(s.str(), t, 3, RightAlign, "after a one-off"); } s.str("");
  { Format<std::string> q(3, a); s << q(t, w); check(s.str(), t, w, a, "one-off width"); s.str(""); s << q("x"); check(s.str(), "x", 3, a, "after a one-off width"); }
}
MC_SCENARIO(string_history) {
  std::unique_ptr<Format<std::string>> f[2]; int w[2] = {-1, 9}; Alignment al[2] = {NoAlign, RightAlign}; f[0].reset(new Format<std::string>()); f[1].reset(new Format<std::string>(9, RightAlign)); std::string t = "text";
  for (auto& p : f) if (h::first((uint64_t)1)) empty(*p);
  for (int d = 0, depth = mc::tiered(3, 4); d < depth; ++d) {
    int i = mc::choose(2), other = 1 - i; std::ostringstream s; t += 'x';
    switch (mc::choose(8)) {
      case 0: { int x = 12 * mc::choose(2); mc::trace("#%d width %d", i, x); f[i]->width(x); w[i] = x; break; }
      case 1: { Alignment a = mc::pick(als); mc::trace("#%d align %s", i, aname(a)); f[i]->align(a); al[i] = a; break; }
      case 2: mc::trace("#%d (11, centre)", i); (*f[i])(11, CentreAlign); w[i] = 11; al[i] = CentreAlign; break;
      case 3: mc::trace("#%d print", i); s << (*f[i])(t); check(s.str(), t, w[i], al[i], "permanent"); break;
      case 4: mc::trace("#%d one-off 10", i); s << (*f[i])(t, 10); check(s.str(), t, 10, al[i], "one-off width"); break;
      case 5: { Alignment a = mc::pick(als); mc::trace("#%d one-off (8, %s)", i, aname(a)); s << (*f[i])(t, 8, a); check(s.str(), t, 8, a, "one-off"); break; }
      case 6: if (mc::flip()) { mc::trace("#%d becomes a copy", i); std::unique_ptr<Format<std::string>> c(new Format<std::string>(*f[other])); f[i].swap(c); } else { mc::trace("#%d assigned", i); *f[i] = *f[other]; } w[i] = w[other]; al[i] = al[other]; break;
      case 7: { mc::trace("#%d pending value, the other one prints first", i); auto& r = (*f[i])(t, 9, LeftAlign); s << (*f[other])("o"); check(s.str(), "o", w[other], al[other], "while another value is pending"); s.str(""); s << r; check(s.str(), t, 9, LeftAlign, "pending one-off"); break; }
    }
    uint64_t hs = mc::mix(mc::mix(w[0] * 4 + al[0], w[1] * 4 + al[1]), d); if (h::first(hs)) for (auto& p : f) empty(*p); mc::state(hs);
  }
  for (int i = 0; i < 2; ++i) { std::ostringstream s; s << (*f[i])(t); check(s.str(), t, w[i], al[i], "finally"); }
}
}

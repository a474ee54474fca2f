// @SOURCES: ecl_exceptions/src/lib/*.cpp ecl_formatters/src/lib/*.cpp
// @BUILDS: release
// @ASSUME: containers of 0 to 4 elements, and up to 300 in the sweep of sizes (matrices up to 3x3, and some up to 12x40) with finite values from a small set;; a container handed to a formatter is printed before the formatter is used again;; automatic width: a common right-aligned width wide enough for every element
#include "util.hpp"
#include <memory>
#include <cmath>
#include <type_traits>
#include <ecl/containers.hpp>
#include <ecl/formatters.hpp>
#include <ecl/linear_algebra/eigen.hpp>
namespace {
using namespace ecl;
std::string num(double v, int p) { char b[512]; snprintf(b, sizeof b, "%.*f", p, v); return b; }
std::string right(const std::string& t, int w) { return (int)t.size() < w ? std::string(w - t.size(), ' ') + t : t; }
// Expected text of a float container; with width -1 the common width is taken from the first printed element.
template <class T> void check_float(const std::string& got, const std::vector<T>& v, int p, int w, const char* what) {
  std::vector<std::string> t; size_t widest = 0; for (T x : v) { t.push_back(num(x, p)); widest = std::max(widest, t.back().size()); }
  if (w == -1 && !v.empty()) { MC_CHECK(got.size() >= 3 + v.size() && (got.size() - 3) % v.size() == 0, "auto-width", "%s: '%s' has no common width", what, got.c_str()); w = (got.size() - 3) / v.size() - 1; MC_CHECK(w >= (int)widest && w <= (int)widest + 2, "auto-width", "%s: common width %d for elements of %zu characters", what, w, widest); }
  std::string want = "[ "; for (auto& x : t) want += right(x, w) + " "; want += "]"; mc::state(mc::hash(want)); mc::validated();
  MC_CHECK(got == want, "text", "%s: printed '%s', expected '%s'", what, got.c_str(), want.c_str());
}
template <class F> void no_value(F& f) { if (!h::checked) return; std::ostringstream s; int o = h::outcome([&] { s << f; }); MC_CHECK(o == UsageError && s.str().empty(), "no-value", "printing without a value: %s, prints '%s'", h::oname(o).c_str(), s.str().c_str()); }
// Holders give a container of exactly v.size() elements.
template <class T> struct Dyn { typedef Array<T> C; C c; Dyn(const std::vector<T>& v) : c(v.size()) { for (size_t i = 0; i < v.size(); ++i) c[i] = v[i]; } C& get() { return c; } };
template <class T> struct Win { typedef Stencil<Array<T>> C; Array<T> a; C c; Win(const std::vector<T>& v) : a(v.size() + 2), c(fill(a, v).stencil(1, v.size())) {} static Array<T>& fill(Array<T>& a, const std::vector<T>& v) { a[0] = 7; a[v.size() + 1] = 9; for (size_t i = 0; i < v.size(); ++i) a[i + 1] = v[i]; return a; } C& get() { return c; } };
template <class T, size_t N> struct Fix { typedef Array<T, N> C; C c; Fix(const std::vector<T>& v) { for (size_t i = 0; i < N; ++i) c[i] = v[i]; } C& get() { return c; } };
template <class T> std::vector<T> values(int n) { static const double s[] = {0, -0.5, 9.996, 1234.5, -99999.95, 0.004, 1e12, -1}; std::vector<T> v; int k = n > 2 ? mc::tiered(4, 6) : mc::tiered(6, 8); for (int i = 0; i < n; ++i) v.push_back((T)s[mc::choose(k)]); return v; }
template <class H, class T> void float_container(int n) {
  std::vector<T> v = values<T>(n); static const int ps[] = {0, 1, 2, 7}, ws[] = {-1, 0, 1, 5, 9, 24}; int p = mc::pick(ps), w = mc::pick(ws); H hold(v); auto& c = hold.get(); typedef typename H::C::Formatter F; std::ostringstream s;
  mc::trace("%d elements, precision %d width %d", n, p, w);
  { F f(p, w); s << f(c); check_float(s.str(), v, p, w, "constructor"); if (h::first(n)) no_value(f); s.str(""); s << f(c); check_float(s.str(), v, p, w, "used again"); } s.str("");
  { F f; if (h::first(n + 100)) no_value(f); f.precision(p).width(w); s << f(c); check_float(s.str(), v, p, w, "set one by one"); MC_CHECK((int)f.precision() == p, "getter", "precision() is %d", (int)f.precision()); } s.str("");
  { F f; f(p, w); s << f(c); check_float(s.str(), v, p, w, "set at once"); } s.str("");
  { F f(3, 11); s << f(c, p, w); check_float(s.str(), v, p, w, "one-off"); s.str(""); s << f(c); check_float(s.str(), v, 3, 11, "after a one-off"); } s.str("");
  { std::unique_ptr<F> o(new F(p, w)); F f(*o); o->width(3); o.reset(); s << f(c); check_float(s.str(), v, p, w, "copy of a formatter"); }
}
template <class T> void float_arrays() {
  int n = mc::range(0, 4); if (n > 3 && !mc::thorough()) n = 3;
  switch (mc::choose(3)) {
    case 0: mc::trace("dynamic"); float_container<Dyn<T>, T>(n); break;
    case 1: mc::trace("stencil"); float_container<Win<T>, T>(n); break;
    case 2: mc::trace("fixed"); if (n == 0) mc::skip(); if (n == 1) float_container<Fix<T, 1>, T>(1); else if (n == 2) float_container<Fix<T, 2>, T>(2); else if (n == 3) float_container<Fix<T, 3>, T>(3); else float_container<Fix<T, 4>, T>(4); break;
  }
}
MC_SCENARIO(floats_double) { float_arrays<double>(); }
MC_SCENARIO(floats_float) { float_arrays<float>(); }
// One formatter used for two containers in any order with any mixture of permanent and one-off formats.
MC_SCENARIO(float_history) {
  typedef Array<double> A; std::vector<double> v[2] = {{1, -20.25, 300}, {}}; if (mc::flip()) v[1] = {0.125, 5}; A a[2]; for (int i = 0; i < 2; ++i) { a[i].resize(v[i].size()); for (size_t k = 0; k < v[i].size(); ++k) a[i][k] = v[i][k]; }
  A::Formatter f[2] = {A::Formatter(2, -1), A::Formatter(1, 8)}; int p[2] = {2, 1}, w[2] = {-1, 8};
  for (int d = 0, depth = mc::tiered(3, 4); d < depth; ++d) {
    int i = mc::choose(2), op = mc::choose(7), k = op == 2 || op == 6 ? 0 : mc::choose(2); std::ostringstream s;
    switch (op) {
      case 0: mc::trace("#%d width", i); w[i] = k ? 12 : -1; f[i].width(w[i]); break;
      case 1: mc::trace("#%d precision", i); p[i] = k ? 5 : 0; f[i].precision(p[i]); break;
      case 2: mc::trace("#%d (4, 14)", i); p[i] = 4; w[i] = 14; f[i](4, 14); break;
      case 3: mc::trace("#%d print", i); s << f[i](a[k]); check_float(s.str(), v[k], p[i], w[i], "permanent"); break;
      case 4: mc::trace("#%d one-off (3, 10)", i); s << f[i](a[k], 3, 10); check_float(s.str(), v[k], 3, 10, "one-off"); break;
      case 5: mc::trace("#%d one-off (3, -1)", i); s << f[i](a[k], 3, -1); check_float(s.str(), v[k], 3, -1, "one-off automatic width"); break;
      case 6: mc::trace("#%d = #%d", i, 1 - i); f[i] = f[1 - i]; p[i] = p[1 - i]; w[i] = w[1 - i]; break;
    }
    mc::state(mc::mix(mc::mix(p[0] * 100 + w[0], p[1] * 100 + w[1]), d));
  }
  for (int i = 0; i < 2; ++i) { std::ostringstream s; s << f[i](a[0]); check_float(s.str(), v[0], p[i], w[i], "finally"); }
}
// Byte containers print hexadecimal, integer containers print decimal.
std::string hexs(const std::vector<int>& v) { std::string s = "[ "; char b[16]; for (int x : v) { snprintf(b, sizeof b, "0x%02x ", (unsigned char)x); s += b; } return s + "]"; }
void same(const std::string& got, const std::string& want, const char* what) { mc::validated(); mc::state(mc::hash(want)); MC_CHECK(got == want, "text", "%s: printed '%s', expected '%s'", what, got.c_str(), want.c_str()); }
template <class B> void bytes() {
  int n = mc::range(0, 3); std::vector<int> v; std::vector<B> bv; static const int s[] = {0, 1, 0x0f, 0x10, 0x7f, 0x80, 0xff, 0xa5, 10, 32}; for (int i = 0; i < n; ++i) { v.push_back(mc::pick(s)); bv.push_back((B)v.back()); }
  std::string want = hexs(v); mc::trace("%s", want.c_str()); std::ostringstream o;
  { Dyn<B> d(bv); typename Array<B>::Formatter f; if (h::first(sizeof(want))) no_value(f); o << f(d.c); same(o.str(), want, "dynamic array"); o.str(""); o << f(d.c.begin(), d.c.end()); same(o.str(), want, "iterators"); o.str(""); if (n) { o << f(d.c.begin() + 1, d.c.end()); same(o.str(), hexs(std::vector<int>(v.begin() + 1, v.end())), "iterators"); } o.str(""); }
  { Win<B> d(bv); typename Array<B>::Formatter f; o << f(d.c); same(o.str(), want, "stencil"); o.str(""); }
  if (n == 3) { Fix<B, 3> d(bv); typename Array<B, 3>::Formatter f; o << f(d.c); same(o.str(), want, "fixed array"); }
}
MC_SCENARIO(bytes_unsigned) { bytes<unsigned char>(); }
MC_SCENARIO(bytes_char) { bytes<char>(); }
MC_SCENARIO(bytes_signed) { bytes<signed char>(); }
template <class Q, class V> void push(Q& q, const std::vector<V>& v, int drop) { for (int i = 0; i < drop; ++i) { q.push_back((V)99); q.pop_front(); } for (auto x : v) q.push_back(x); }
MC_SCENARIO(queues) {
  int n = mc::range(0, 3), drop = mc::range(0, 4); std::vector<int> v; std::vector<unsigned char> bv; static const int s[] = {0, 0x0f, 0x80, 0xff}; for (int i = 0; i < n; ++i) { v.push_back(mc::pick(s)); bv.push_back(v.back()); } std::ostringstream o; std::string want = hexs(v); mc::trace("%s after %d", want.c_str(), drop);
  { PushAndPop<unsigned char, 3> q; push(q, bv, drop); PushAndPop<unsigned char, 3>::Formatter f; o << f(q); same(o.str(), want, "fixed queue"); } o.str("");
  { PushAndPop<unsigned char> q(3); push(q, bv, drop); PushAndPop<unsigned char>::Formatter f; o << f(q); same(o.str(), want, "dynamic queue"); } o.str("");
  { PushAndPop<int> q(3); push(q, v, drop); PushAndPop<int>::Formatter f; const PushAndPop<int>& r = f(q); MC_CHECK(&r == &q, "queue", "the generic formatter returns another object"); }
}
MC_SCENARIO(plain) {
  int n = mc::range(0, 3); std::vector<int> v; static const int s[] = {0, -1, 2147483647, 42}; for (int i = 0; i < n; ++i) v.push_back(mc::pick(s)); std::string want = "[ "; for (int x : v) want += std::to_string(x) + " "; want += "]"; mc::trace("%s", want.c_str()); std::ostringstream o;
  { Dyn<int> d(v); Array<int>::Formatter f; o << d.c; same(o.str(), want, "dynamic array"); o.str(""); o << f(d.c); same(o.str(), want, "dynamic array formatter"); } o.str("");
  { Win<int> d(v); Stencil<Array<int>>::Formatter f; o << d.c; same(o.str(), want, "stencil"); o.str(""); o << f(d.c); same(o.str(), want, "stencil formatter"); } o.str("");
  if (n == 3) { Fix<int, 3> d(v); Array<int, 3>::Formatter f; o << d.c; same(o.str(), want, "fixed array"); o.str(""); o << f(d.c); same(o.str(), want, "fixed array formatter"); }
}
template <class M> void matrix(int rows, int cols) {
  typedef typename M::Scalar T; M m(rows, cols); static const double s[] = {1, -20.125, 0, 99999.5}; int k = rows * cols > 4 ? 2 : mc::tiered(3, 4); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) m(i, j) = (T)s[mc::choose(k)];
  static const int ps[] = {0, 2, 6}, ws[] = {-1, 0, 5, 12}; int p = mc::pick(ps), w = mc::pick(ws); mc::trace("%dx%d precision %d width %d", rows, cols, p, w);
  auto text = [&](int p, int w) { std::string t; for (int i = 0; i < rows; ++i) { for (int j = 0; j < cols; ++j) t += right(num(m(i, j), p), w) + "  "; if (rows != 1) t += "\n"; } return t; };
  std::ostringstream o; typedef typename M::Formatter F;
  { F f(w, p); if (h::first(rows * 8 + cols)) no_value(f); o << f(m); same(o.str(), text(p, w), "constructor"); if (h::first(rows * 8 + cols + 100)) no_value(f); } o.str("");
  { F f; f.precision(p).width(w); o << f(m); same(o.str(), text(p, w), "set one by one"); MC_CHECK((int)f.precision() == p && f.width() == w, "getter", "precision %d width %d", (int)f.precision(), f.width()); } o.str("");
  { F f(9, 3); o << f(m, w, p); same(o.str(), text(p, w), "one-off"); o.str(""); o << f(m); same(o.str(), text(3, 9), "after a one-off"); o.str(""); F g(f); o << g(m); same(o.str(), text(3, 9), "copy"); }
}
// Larger containers of fixed contents.
MC_SCENARIO(sizes) {
  static const int ns[] = {5, 8, 9, 16, 17, 31, 33, 64, 100, 128, 255, 257, 300}; int n = mc::pick(ns), kind = mc::choose(5), shift = mc::choose(3); mc::step(); mc::trace("%d elements, kind %d", n, kind); std::ostringstream o; std::vector<double> v; std::vector<int> iv; std::vector<unsigned char> bv; for (int i = 0; i < n; ++i) { v.push_back((i * 37 + shift * 11) % 1000 * (i % 3 ? 1.25 : -0.5)); iv.push_back(i * 7919 * (i % 2 ? 1 : -1) + shift); bv.push_back((unsigned char)(i * 5 + shift)); }
  std::string ints = "[ "; for (int x : iv) ints += std::to_string(x) + " "; ints += "]"; std::string hex = hexs(std::vector<int>(bv.begin(), bv.end()));
  switch (kind) {
    case 0: { Dyn<double> d(v); Array<double>::Formatter f(2, shift ? 9 : -1); o << f(d.c); check_float(o.str(), v, 2, shift ? 9 : -1, "dynamic array"); o.str(""); o << f(d.c, 1, 12); check_float(o.str(), v, 1, 12, "one-off"); break; }
    case 1: { Win<double> d(v); Stencil<Array<double>>::Formatter f(3, shift ? 12 : -1); o << f(d.c); check_float(o.str(), v, 3, shift ? 12 : -1, "stencil"); break; }
    case 2: { Dyn<int> d(iv); o << d.c; same(o.str(), ints, "dynamic array"); o.str(""); Win<int> w(iv); o << w.c; same(o.str(), ints, "stencil"); break; }
    case 3: { Dyn<unsigned char> d(bv); Array<unsigned char>::Formatter f; o << f(d.c); same(o.str(), hex, "bytes"); o.str(""); Win<unsigned char> w(bv); o << f(w.c); same(o.str(), hex, "stencil of bytes"); o.str(""); o << f(d.c.begin(), d.c.end()); same(o.str(), hex, "iterators"); break; }
    case 4: { PushAndPop<unsigned char> q(n); push(q, bv, shift * n / 2); PushAndPop<unsigned char>::Formatter f; o << f(q); same(o.str(), hex, "dynamic queue"); o.str(""); PushAndPop<unsigned char, 300> r; push(r, bv, shift * 140); PushAndPop<unsigned char, 300>::Formatter g; o << g(r); same(o.str(), hex, "fixed queue"); break; }
  }
}
MC_SCENARIO(large_matrices) {
  static const int rs[] = {1, 4, 5, 8, 9, 12}, cs[] = {1, 3, 4, 7, 8, 9, 17, 40}; int r = mc::pick(rs), c = mc::pick(cs), w = mc::flip() ? 10 : -1; Eigen::MatrixXd m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = (i * 41 + j * 3) % 100 - 12.5; std::ostringstream o; std::string t; for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) t += right(num(m(i, j), 2), w) + "  "; if (r != 1) t += "\n"; } Eigen::MatrixXd::Formatter f(w, 2); mc::step(); o << f(m); same(o.str(), t, "large matrix");
}
MC_SCENARIO(matrices) {
  switch (mc::choose(6)) {
    case 0: { int r = mc::range(0, 3), c = mc::range(0, 2); matrix<Eigen::MatrixXd>(r, c); break; }
    case 1: matrix<Eigen::Matrix2f>(2, 2); break; case 2: matrix<Eigen::Vector3d>(3, 1); break; case 3: matrix<Eigen::RowVector3f>(1, 3); break; case 4: matrix<Eigen::Matrix<double, 2, 2, Eigen::RowMajor>>(2, 2); break; case 5: matrix<Eigen::MatrixXf>(2, 3); break;
  }
}
}

// @SOURCES: ecl_statistics/src/lib/covariance_ellipsoid.cpp
// @BUILDS: release
// @FLAGS: -I/usr/include/eigen3
// @ASSUME: sample sequences of up to 6 (thorough 7) samples from a small alphabet with offsets, clears in between;; all symmetric positive definite integer matrices with entries up to 4 (two dimensions: 6), scaled from 1e-4 to 1e4, plus nearly diagonal and rotated ones with condition number up to 1e6 (float 1e3);; the sign of an axis is left open
#include "util.hpp"
#include <cmath>
#include <limits>
#include <ecl/statistics/cumulative_statistics.hpp>
#include <ecl/statistics/covariance_ellipsoid.hpp>
namespace {
typedef long double LD; template <class T> LD eps() { return std::numeric_limits<T>::epsilon(); }
template <class T> void cumulative() {
  static const double vals[] = {0, 1, -1, 3.5, 1000, 1001, -0.0625}; ecl::CumulativeStatistics<T> s; std::vector<LD> m; int depth = mc::tiered(6, 7);
  auto look = [&] {
    const ecl::CumulativeStatistics<T>& c = s; LD sum = 0, q = 0, big = 1; for (LD v : m) { sum += v; big = std::max(big, std::fabs(v)); } LD mean = m.empty() ? 0 : sum / m.size(); for (LD v : m) q += (v - mean) * (v - mean); LD var = m.size() > 1 ? q / (m.size() - 1) : 0; mc::validated(3);
    MC_CHECK(c.size() == (T)m.size(), "size", "%Lg samples counted after %zu", (LD)c.size(), m.size()); MC_CHECK(std::fabs(c.mean() - mean) <= 8 * eps<T>() * big, "mean", "mean of %zu samples is %.12Lg instead of %.12Lg", m.size(), (LD)c.mean(), mean);
    MC_CHECK(std::fabs(c.variance() - var) <= 32 * eps<T>() * (var + big * std::sqrt(var)) + 1e-30L, "variance", "variance of %zu samples is %.12Lg instead of %.12Lg", m.size(), (LD)c.variance(), var);
  };
  look();
  for (int d = 0; d < depth; ++d) { int op = mc::choose(8); mc::step(); if (op == 7) { mc::trace("clear"); s.clear(); m.clear(); } else { mc::trace("%g", vals[op]); s.push_back((T)vals[op]); m.push_back((T)vals[op]); } look(); }
}
template <class T> void long_run() {
  static const int ns[] = {8, 15, 64, 100, 255, 256, 257, 1000}; int n = mc::pick(ns), pat = mc::choose(4), again = mc::choose(2); ecl::CumulativeStatistics<T> s; mc::trace("%d samples of pattern %d%s", n, pat, again ? " after a clear" : ""); if (again) { for (int i = 0; i < 10; ++i) s.push_back((T)(i * i)); s.clear(); } std::vector<LD> m;
  for (int i = 0; i < n; ++i) { T v = (T)(pat == 0 ? i : pat == 1 ? (i * 37) % 19 - 9 : pat == 2 ? (i % 2 ? 0.5 : -0.25) : 100 + (i * i) % 7); s.push_back(v); m.push_back(v); } LD sum = 0, q = 0, big = 1; for (LD v : m) { sum += v; big = std::max(big, std::fabs(v)); } LD mean = sum / n; for (LD v : m) q += (v - mean) * (v - mean); LD var = q / (n - 1); mc::step(n); mc::validated(3);
  MC_CHECK(s.size() == (T)n, "size", "%Lg samples counted after %d", (LD)s.size(), n); MC_CHECK(std::fabs(s.mean() - mean) <= 4 * n * eps<T>() * big, "mean", "mean of %d samples is %.12Lg instead of %.12Lg", n, (LD)s.mean(), mean); MC_CHECK(std::fabs(s.variance() - var) <= 16 * n * eps<T>() * (var + big * std::sqrt(var)), "variance", "variance of %d samples is %.12Lg instead of %.12Lg", n, (LD)s.variance(), var);
}
template <class T, int N> struct M { T a[N][N]; };
template <class T, int N> std::string str(const Eigen::Matrix<T, N, N>& m) { std::ostringstream o; o.precision(12); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) o << (i || j ? (j ? ", " : "; ") : "(") << m(i, j); o << ")"; return o.str(); }
template <class T, int N, class E> void ellipsoid(E& e, const Eigen::Matrix<T, N, N>& m, bool handed, bool unit, LD cond) {
  auto l = e.lengths(); auto q = e.axes(); std::string s = str<T, N>(m); LD norm = 0; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) norm = std::max(norm, std::fabs((LD)m(i, j))); LD tol = 256 * eps<T>(); mc::step(); mc::validated(4);
  for (int i = 0; i < N; ++i) {
    LD len = 0; for (int r = 0; r < N; ++r) len += (LD)q(r, i) * q(r, i); len = std::sqrt(len); MC_CHECK(std::isfinite(l(i)) && l(i) > 0 && std::isfinite((double)len) && len > 0, "finite", "axis %d of %s has length %Lg", i, s.c_str(), (LD)l(i)); if (unit) MC_CHECK(std::fabs(len - 1) <= tol, "unit", "axis vector %d of %s has length %Lg", i, s.c_str(), len);
    for (int r = 0; r < N; ++r) { LD v = 0; for (int k = 0; k < N; ++k) v += (LD)m(r, k) * q(k, i) / len; MC_CHECK(std::fabs(v - (LD)l(i) * l(i) * q(r, i) / len) <= tol * norm * 4, "axis", "axis %d of %s: the matrix times the axis is not the squared length %Lg times the axis", i, s.c_str(), (LD)l(i) * l(i)); }
    for (int j = 0; j < i; ++j) { LD d = 0, lj = 0; for (int r = 0; r < N; ++r) { d += (LD)q(r, i) * q(r, j); lj += (LD)q(r, j) * q(r, j); } MC_CHECK(std::fabs(d) <= tol * 64 * len * std::sqrt(lj), "orthogonal", "axes %d and %d of %s enclose an angle with cosine %Lg", j, i, s.c_str(), d / (len * std::sqrt(lj))); }
  }
  for (int r = 0; r < N; ++r) for (int c = 0; c < N; ++c) { LD v = 0; for (int i = 0; i < N; ++i) { LD len = 0; for (int k = 0; k < N; ++k) len += (LD)q(k, i) * q(k, i); v += (LD)q(r, i) * q(c, i) * l(i) * l(i) / len; } MC_CHECK(std::fabs(v - m(r, c)) <= tol * norm * 64, "reconstruct", "axes and lengths give %Lg for element (%d, %d) of %s", v, r, c, s.c_str()); }
  if (handed) { Eigen::Matrix<LD, N, N> x = q.template cast<LD>(); MC_CHECK(x.determinant() > 0, "right-handed", "the axes of %s are not right-handed", s.c_str()); }
  (void)cond;
}
template <class T, class E> void plane(E& e, const Eigen::Matrix<T, 2, 2>& m, LD cond) {
  ellipsoid<T, 2>(e, m, false, true, cond); std::string s = str<T, 2>(m); auto l = e.lengths(); auto q = e.axes(); LD tol = 512 * eps<T>() * std::sqrt(cond) + 1e-15L;
  MC_CHECK(l(0) >= l(1) * (1 - 8 * eps<T>()), "major", "the first axis of %s is the minor one", s.c_str()); double r = e.rotation(); MC_CHECK(std::fabs(std::sin((LD)r) * q(0, 0) - std::cos((LD)r) * q(1, 0)) <= 64 * eps<T>(), "rotation", "the rotation of %s is %.12g", s.c_str(), r);
  LD a = m(0, 0), b = m(0, 1), d = m(1, 1), det = a * d - b * b; auto i = e.intercepts(); LD wx = std::sqrt(det / d), wy = std::sqrt(det / a);
  MC_CHECK(std::fabs(i(0) - wx) <= tol * std::sqrt(cond) * wx && std::fabs(i(1) - wy) <= tol * std::sqrt(cond) * wy, "intercepts", "the intercepts of %s are %.9Lg and %.9Lg instead of %.9Lg and %.9Lg", s.c_str(), (LD)i(0), (LD)i(1), wx, wy);
}
const double scales[] = {1, 0.0625, 0.1, 1e-4, 1e4, 0.3};
template <class T> void ellipse_grid() {
  typedef ecl::CovarianceEllipsoid<T, 2> E; typedef Eigen::Matrix<T, 2, 2> Mat; int r = 6; int a = mc::range(1, r), d = mc::range(1, r), b = mc::range(-r, r); if (a * d - b * b <= 0) mc::skip(); T s = (T)mc::pick(scales); Mat m; m << a * s, b * s, b * s, d * s; LD cond = (LD)(a + d) * (a + d) / (a * d - b * b);
  E e(m); plane<T>(e, m, cond); E f; { MC_CHECK(f.lengths()(0) == 1 && f.lengths()(1) == 1, "default", "a default ellipse is not the unit circle"); } f.compute(m); plane<T>(f, m, cond); Mat o; o << 2, 1, 1, 9; f.compute(o); f.compute(m); plane<T>(f, m, cond); E g(f); plane<T>(g, m, cond);
}
template <class T> void ellipse_flat() {   // nearly diagonal, and stretched ones in every direction
  typedef ecl::CovarianceEllipsoid<T, 2> E; typedef Eigen::Matrix<T, 2, 2> Mat; Mat m; LD cond = 1;
  if (mc::flip()) { static const double ds[] = {1, 3, 5, 0.1, 0.7, 0.01, 1.8e-3}; static const LD rel[] = {0, 1e-8L, 0.1L, 0.5L, 1, 4, 64, 1024, 1e5L}; T a = (T)mc::pick(ds), d = (T)mc::pick(ds), b = (T)(mc::pick(rel) * eps<T>() * std::min(a, d)) * (mc::flip() ? -1 : 1); m << a, b, b, d; cond = std::max(a / d, d / a) + 1; }
  else { static const double ratios[] = {1, 2, 100, 1e3, 1e6}; LD r = ratios[mc::choose(sizeof(T) == 4 ? 4 : 5)], t = mc::choose(24) * 3.14159265358979323846L / 24 + (mc::flip() ? 1e-5L : 0), s = mc::pick(scales); LD c = std::cos(t), n = std::sin(t); m << (T)(s * (r * c * c + n * n)), (T)(s * (r - 1) * c * n), (T)(s * (r - 1) * c * n), (T)(s * (r * n * n + c * c)); cond = r; }
  E e(m); plane<T>(e, m, cond + 1);
}
template <class T> void solid_grid() {
  typedef ecl::CovarianceEllipsoid<T, 3> E; typedef Eigen::Matrix<T, 3, 3> Mat; int r = mc::tiered(3, 4); int a = mc::range(1, r), b = mc::range(1, r), c = mc::range(1, r), p = mc::range(-2, 2), q = mc::range(-2, 2), w = mc::range(-2, 2); int det = a * (b * c - w * w) - p * (p * c - w * q) + q * (p * w - b * q); if (a * b - p * p <= 0 || det <= 0) mc::skip();
  T s = (T)scales[mc::choose(mc::tiered(3, 6))]; Mat m; m << a * s, p * s, q * s, p * s, b * s, w * s, q * s, w * s, c * s; bool sort = mc::flip(); E e(m, sort); ellipsoid<T, 3>(e, m, sort, sort, 1); if (sort) { E d(m); ellipsoid<T, 3>(d, m, true, true, 1); E f; MC_CHECK(f.lengths()(0) == 1 && f.lengths()(2) == 1, "default", "a default ellipsoid is not the unit ball"); f.compute(m); ellipsoid<T, 3>(f, m, true, true, 1); } else { E f; f.compute(m, false); ellipsoid<T, 3>(f, m, false, false, 1); }
}
template <class T> void solid_turned() {   // given axes and lengths, also equal ones
  typedef ecl::CovarianceEllipsoid<T, 3> E; typedef Eigen::Matrix<T, 3, 3> Mat; static const LD ls[][3] = {{1, 1, 1}, {1, 1, 2}, {2, 1, 1}, {3, 2, 1}, {1, 2, 3}, {100, 1, 1}, {1, 100, 100}, {1000, 30, 1}, {1, 1.0001L, 0.9999L}}; const LD* l = mc::pick(ls); Eigen::Matrix<LD, 3, 3> R; R.setIdentity(); const LD step = 3.14159265358979323846L / 6;
  for (int ax = 0; ax < 3; ++ax) { int k = mc::choose(6); LD c = std::cos(k * step), s = std::sin(k * step); Eigen::Matrix<LD, 3, 3> A; A.setIdentity(); int u = (ax + 1) % 3, v = (ax + 2) % 3; A(u, u) = A(v, v) = c; A(u, v) = -s; A(v, u) = s; R = R * A; }
  LD sc = mc::pick(scales); Eigen::Matrix<LD, 3, 3> D; D.setZero(); for (int i = 0; i < 3; ++i) D(i, i) = l[i] * sc; Eigen::Matrix<LD, 3, 3> P = R * D * R.transpose(); Mat m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = (T)P(std::min(i, j), std::max(i, j)); bool sort = mc::flip(); E e(m, sort); ellipsoid<T, 3>(e, m, sort, sort, 1);
}
}
MC_SCENARIO(long_run_double) { long_run<double>(); }
MC_SCENARIO(long_run_float) { long_run<float>(); }
MC_SCENARIO(statistics_float) { cumulative<float>(); }
MC_SCENARIO(statistics_double) { cumulative<double>(); }
MC_SCENARIO(ellipse_float) { ellipse_grid<float>(); }
MC_SCENARIO(ellipse_double) { ellipse_grid<double>(); }
MC_SCENARIO(flat_float) { ellipse_flat<float>(); }
MC_SCENARIO(flat_double) { ellipse_flat<double>(); }
MC_SCENARIO(ellipsoid_float) { solid_grid<float>(); }
MC_SCENARIO(ellipsoid_double) { solid_grid<double>(); }
MC_SCENARIO(turned_float) { solid_turned<float>(); }
MC_SCENARIO(turned_double) { solid_turned<double>(); }

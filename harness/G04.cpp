// @SOURCES: ecl_geometry/src/lib/polynomial.cpp ecl_geometry/src/lib/polynomial_blueprints.cpp ecl_geometry/src/lib/pascals_triangle.cpp ecl_formatters/src/lib/*.cpp ecl_type_traits/src/lib/numeric_limits.cpp ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @FLAGS: -I/usr/include/eigen3
// @ASSUME: integer coefficients and dyadic root sets, scaled by powers of two, for which the number of real roots is decided exactly in integer arithmetic; polynomials that vanish identically excluded; intervals with begin <= end;; oracle: exact discriminants in 128-bit integers for the number of roots, the given root sets for their values, residuals for the rest, bisection in long double for the extremes
#include "util.hpp"
#include <cmath>
#include <algorithm>
#include <ecl/geometry/polynomial.hpp>
namespace {
typedef long double LD; typedef __int128 I; typedef std::vector<LD> Poly;
LD eval(const Poly& c, LD x) { LD s = 0; for (size_t i = c.size(); i-- > 0;) s = s * x + c[i]; return s; }
LD mag(const Poly& c, LD x) { LD s = 0; for (size_t i = c.size(); i-- > 0;) s = s * std::fabs(x) + std::fabs(c[i]); return s; }
std::string show(const Poly& c) { std::ostringstream s; for (size_t i = 0; i < c.size(); ++i) s << (i ? " + " : "") << c[i] << "x^" << i; return s.str(); }
template <unsigned N> ecl::Polynomial<N> make(const Poly& c) { ecl::Polynomial<N> p; for (unsigned i = 0; i <= N; ++i) p.coefficients()[i] = (double)c[i]; return p; }
template <unsigned N> std::vector<double> solve(const Poly& c) {
  ecl::Polynomial<N> p = make<N>(c); ecl::Array<double> r; mc::step(); if (mc::flip()) r = ecl::Polynomial<N>::Roots(p); else { ecl::Roots<ecl::Polynomial<N>> f; r = f(p); }
  std::vector<double> v; for (size_t i = 0; i < r.size(); ++i) v.push_back(r[i]); for (double x : v) MC_CHECK(std::isfinite(x), "not-finite", "the roots of %s contain %g", show(c).c_str(), x); std::sort(v.begin(), v.end()); mc::trace("%s: %zu roots", show(c).c_str(), v.size()); return v;
}
LD scale(const Poly& c) { size_t n = c.size() - 1; while (n && c[n] == 0) --n; LD s = 0; for (size_t i = 0; i < n; ++i) s = std::max(s, std::pow(std::fabs(c[i] / c[n]), 1.0L / (n - i))); return s; }   // magnitude of the largest root
int sgn(I x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
int count(const std::vector<int>& c) {   // distinct real roots, exactly
  int n = (int)c.size() - 1; while (n > 0 && c[n] == 0) --n; I a, b, d, e;
  if (n == 0) return 0; if (n == 1) return 1; if (n == 2) { a = c[2]; b = c[1]; d = c[0]; return 1 + sgn(b * b - 4 * a * d); }
  a = c[3]; b = c[2]; d = c[1]; e = c[0]; I D = 18 * a * b * d * e - 4 * b * b * b * e + b * b * d * d - 4 * a * d * d * d - 27 * a * a * e * e; if (D > 0) return 3; if (D < 0) return 1; return b * b == 3 * a * d ? 1 : 2;
}
template <unsigned N> void coefficients(int m) {
  std::vector<int> k; bool any = false; for (unsigned i = 0; i <= N; ++i) { k.push_back(mc::range(-m, m)); any |= k[i] != 0; } if (!any) return; static const LD scales[] = {1, 1.0L / 1048576, 4194304}; LD s = mc::pick(scales); Poly c; for (int x : k) c.push_back(x * s);
  std::vector<double> r = solve<N>(c); int want = count(k); mc::validated(2 + r.size()); MC_CHECK((int)r.size() == want, "count", "%s has %d distinct real roots, %zu reported", show(c).c_str(), want, r.size());
  for (size_t i = 0; i < r.size(); ++i) { LD res = std::fabs(eval(c, r[i])), m2 = mag(c, std::max<LD>(std::fabs(r[i]), scale(c))); MC_CHECK(res <= 1e-9L * m2, "residual", "%s at its reported root %.17g is %Lg", show(c).c_str(), r[i], res); if (i) MC_CHECK(r[i] - r[i - 1] > 1e-3 * (std::fabs(r[i]) + 1e-3), "repeated", "the roots of %s contain %.17g and %.17g", show(c).c_str(), r[i - 1], r[i]); }
}
template <unsigned N> void from_roots() {   // polynomials built from their roots; quadratic factors without roots
  static const LD g[] = {0, 1, -1, 2, -3, 0.5, -2.5, 8}; static const LD lead[] = {1, -1, 2, -0.5, 3}; static const LD xs[] = {1, 64, 1.0L / 32}; LD xscale = mc::pick(xs), a = mc::pick(lead); Poly c{a}; std::vector<LD> roots; int zeros = mc::choose(N); // vanishing leading coefficients
  int left = N - zeros; if (left >= 2 && mc::flip()) { LD m = mc::pick(g) * xscale; LD w = (mc::choose(2) + 1) * xscale; Poly d(c.size() + 2, 0); for (size_t i = 0; i < c.size(); ++i) { d[i] += c[i] * (m * m + w * w); d[i + 1] -= 2 * m * c[i]; d[i + 2] += c[i]; } c = d; left -= 2; }
  for (int i = 0; i < left; ++i) { LD r = mc::pick(g) * xscale; roots.push_back(r); Poly d(c.size() + 1, 0); for (size_t j = 0; j < c.size(); ++j) { d[j] -= c[j] * r; d[j + 1] += c[j]; } c = d; }
  while (c.size() < N + 1) c.push_back(0); for (LD x : c) if (x != (LD)(double)x) return; std::sort(roots.begin(), roots.end()); roots.erase(std::unique(roots.begin(), roots.end()), roots.end());
  std::vector<double> r = solve<N>(c); mc::validated(1 + roots.size()); MC_CHECK(r.size() == roots.size(), "count", "%s has %zu distinct real roots, %zu reported", show(c).c_str(), roots.size(), r.size()); LD big = xscale; for (LD x : roots) big = std::max(big, std::fabs(x));
  for (size_t i = 0; i < r.size(); ++i) MC_CHECK(std::fabs(r[i] - roots[i]) <= 1e-8L * big * 8, "value", "root %zu of %s is reported as %.17g instead of %Lg", i, show(c).c_str(), r[i], roots[i]);
}
}
MC_SCENARIO(linear_roots) { coefficients<1>(9); }
MC_SCENARIO(quadratic_roots) { coefficients<2>(9); }
MC_SCENARIO(cubic_roots) { coefficients<3>(mc::tiered(5, 11)); }
MC_SCENARIO(quadratic_from_roots) { from_roots<2>(); }
MC_SCENARIO(cubic_from_roots) { from_roots<3>(); }
MC_SCENARIO(intersection) {
  static const double v[] = {0, 1, -1, 2, -3.5, 10, 0.25}; double a0 = mc::pick(v), b0 = mc::pick(v), a1 = mc::pick(v), b1 = mc::pick(v); ecl::LinearFunction f = make<1>({a0, b0}), g = make<1>({a1, b1}); bool par = b0 == b1; bool stat = mc::flip(); ecl::Intersection<ecl::LinearFunction> op; ecl::CartesianPoint2d pt; MC_CHECK(!op.fail(), "flag", "failed before any operation");
  if (!stat) { int o = h::outcome([&] { (void)op(make<1>({0, 1}), make<1>({5, mc::flip() ? 1.0 : 2.0})); }); MC_CHECK(op.fail() == (o != h::Ok), "flag", "the failure flag does not describe the last operation"); }
  int o = h::outcome([&] { pt = stat ? ecl::LinearFunction::Intersection(f, g) : op(f, g); }); mc::step(); mc::validated(3); MC_CHECK(o == (par ? (int)ecl::OutOfRangeError : (int)h::Ok), "outcome", "intersecting %g+%gx with %g+%gx: %s", a0, b0, a1, b1, h::oname(o).c_str()); if (!stat) MC_CHECK(op.fail() == par, "flag", "after %s intersection the failure flag is %d", par ? "a failed" : "a successful", op.fail());
  if (!par) { LD x = ((LD)a0 - a1) / ((LD)b1 - b0), y = a0 + b0 * x; MC_CHECK(std::fabs(pt.x() - x) <= 1e-13L * (1 + std::fabs(x)) && std::fabs(pt.y() - y) <= 1e-12L * (1 + std::fabs(y) + std::fabs(b0 * x)), "point", "%g+%gx and %g+%gx meet at (%.17g, %.17g) instead of (%Lg, %Lg)", a0, b0, a1, b1, pt.x(), pt.y(), x, y); }
}
namespace {
template <unsigned N> void extremes(const Poly& c, double lo, double hi, const std::vector<LD>& crit) {
  ecl::Polynomial<N> p = make<N>(c); LD mx = std::max(eval(c, lo), eval(c, hi)), mn = std::min(eval(c, lo), eval(c, hi)); for (LD x : crit) if (x > lo && x < hi) { mx = std::max(mx, eval(c, x)); mn = std::min(mn, eval(c, x)); }
  bool stat = mc::flip(); ecl::Maximum<ecl::Polynomial<N>> M; ecl::Minimum<ecl::Polynomial<N>> m; double gx = stat ? ecl::Polynomial<N>::Maximum(lo, hi, p) : M(lo, hi, p), gn = stat ? ecl::Polynomial<N>::Minimum(lo, hi, p) : m(lo, hi, p); LD tol = 1e-13L * (1 + std::max(mag(c, lo), mag(c, hi))); mc::step(2); mc::validated(2); 
  MC_CHECK(std::fabs(gx - mx) <= tol, "maximum", "the maximum of %s over [%g, %g] is %.17g instead of %.17Lg", show(c).c_str(), lo, hi, gx, mx); MC_CHECK(std::fabs(gn - mn) <= tol, "minimum", "the minimum of %s over [%g, %g] is %.17g instead of %.17Lg", show(c).c_str(), lo, hi, gn, mn);
}
std::vector<LD> critical(const Poly& c) { LD A = 3 * c[3], B = 2 * c[2], C = c[1]; std::vector<LD> r; if (A == 0) { if (B != 0) r.push_back(-C / B); } else { LD D = B * B - 4 * A * C; if (D >= 0) { r.push_back((-B + std::sqrt(D)) / (2 * A)); r.push_back((-B - std::sqrt(D)) / (2 * A)); } } return r; }
const double ends[] = {-4, -2, -1, -0.5, 0, 0.5, 1, 1.5, 3};
}
MC_SCENARIO(extremes_linear) { static const double v[] = {0, 1, -1, 2, -3.5}; Poly c{mc::pick(v), mc::pick(v)}; double lo = mc::pick(ends), hi = mc::pick(ends); if (lo > hi) return; extremes<1>(c, lo, hi, {}); }
MC_SCENARIO(extremes_cubic) { int m = mc::tiered(3, 5); Poly c; for (int i = 0; i < 4; ++i) c.push_back(mc::range(-m, m)); double lo = mc::pick(ends), hi = mc::pick(ends); if (lo > hi) return; extremes<3>(c, lo, hi, critical(c)); }
MC_SCENARIO(extremes_cubic_from_critical) {   // critical points placed inside, outside and exactly at the ends of the interval
  double r = mc::pick(ends), s = mc::pick(ends), k = mc::flip() ? 2 : -1; if (mc::flip()) s = r; Poly c{1, 6 * k * r * s, -3 * k * (r + s), 2 * k}; double lo = mc::pick(ends), hi = mc::pick(ends); if (lo > hi) return; extremes<3>(c, lo, hi, {r, s});
}
namespace { const double tiny[] = {1e-4, 1e-8, 1e-12, 1e-15, 1e-17, 1e-20, 1e-40, 1e-120}; }
MC_SCENARIO(extremes_cubic_nearly_quadratic) {   // the leading coefficient is next to nothing beside the others
  Poly c; for (int i = 0; i < 3; ++i) c.push_back(mc::range(-3, 3)); c.push_back((mc::flip() ? 1 : -1) * (LD)mc::pick(tiny)); double lo = mc::pick(ends), hi = mc::pick(ends); if (lo > hi) return; LD A = 3 * c[3], B = 2 * c[2], C = c[1], D = B * B - 4 * A * C; std::vector<LD> r; if (D > 0) { LD q = (-B - (B < 0 ? -1 : 1) * std::sqrt(D)) / 2; r.push_back(q / A); if (q != 0) r.push_back(C / q); } extremes<3>(c, lo, hi, r);
}
MC_SCENARIO(quadratic_nearly_linear) {
  LD b = mc::range(-3, 3), k = mc::range(-3, 3), a = (mc::flip() ? 1 : -1) * (LD)mc::pick(tiny); Poly c{k, b, a}; LD D = b * b - 4 * a * k; if (b == 0) return; std::vector<double> r = solve<2>(c); LD q = (-b - (b < 0 ? -1 : 1) * std::sqrt(D)) / 2; std::vector<LD> w{q / a, k / q}; std::sort(w.begin(), w.end()); MC_CHECK(r.size() == 2, "count", "%s has 2 distinct real roots, %zu reported", show(c).c_str(), r.size());
  for (int i = 0; i < 2; ++i) MC_CHECK(std::fabs(r[i] - w[i]) <= 1e-13L * std::fabs(w[i]), "value", "root %d of %s is reported as %.17g instead of %Lg", i, show(c).c_str(), r[i], w[i]);
}

// @SOURCES: ecl_geometry/src/lib/polynomial.cpp ecl_geometry/src/lib/polynomial_blueprints.cpp ecl_geometry/src/lib/pascals_triangle.cpp ecl_geometry/src/lib/cubic_spline.cpp ecl_geometry/src/lib/cubic_spline_blueprints.cpp ecl_geometry/src/lib/tension*.cpp ecl_geometry/src/lib/smooth_linear_spline.cpp ecl_formatters/src/lib/*.cpp ecl_type_traits/src/lib/numeric_limits.cpp ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @FLAGS: -I/usr/include/eigen3
// @ASSUME: strictly increasing knots, 2 to 5 of them with uneven spacing (and up to 33 in a few fixed patterns), values and slopes from small grids, tensions from 0.5 to 20;; each piece is inspected at its ends and at six interior points, which determine the polynomial of its degree;; a corner of a smoothed linear spline may reach to the middle of an inner segment and to the end of an outer one, as the code promises
#include "util.hpp"
#include <cmath>
#include <array>
#include <ecl/exceptions/data_exception.hpp>
#include <ecl/geometry/cubic_spline.hpp>
#include <ecl/geometry/tension_spline.hpp>
#include <ecl/geometry/smooth_linear_spline.hpp>
#include <ecl/geometry/spline_function.hpp>
namespace {
typedef long double LD; typedef std::vector<double> V;
ecl::Array<double> arr(const V& v) { ecl::Array<double> a; a.resize(v.size()); for (size_t i = 0; i < v.size(); ++i) a[i] = v[i]; return a; }
std::string str(const V& v) { std::ostringstream s; s << "("; for (size_t i = 0; i < v.size(); ++i) s << (i ? ", " : "") << v[i]; s << ")"; return s.str(); }
template <class F> int outcome(F f) { try { f(); return h::Ok; } catch (const ecl::StandardException& e) { return e.flag(); } catch (const ecl::DataException<int>& e) { return e.flag(); } }
struct Data { V x, y; double big; std::string s; };
Data data(int nmin, int nmax, int richness) {
  if (nmax >= 4 && mc::flip()) { static const int ns[] = {6, 9, 16, 33}; Data d; int n = mc::pick(ns), pat = mc::choose(mc::tiered(3, 8)); double x = -0.6 * n; for (int i = 0; i < n; ++i) { d.x.push_back(x); d.y.push_back(i == 0 && pat == 1 ? 0 : ((i * (pat + 3) * 5 + i * i * pat) % 11) - 4.0); x += 0.5 + ((i * (pat + 2)) % 5) * 0.5; } d.big = 7 * (1 + n * n * n / 100.0); d.s = "pattern " + std::to_string(pat) + " of " + std::to_string(n) + " knots"; mc::trace("%s", d.s.c_str()); return d; }
  static const double x0s[] = {0, -2, 10}; static const double hs[] = {1, 0.5, 3}; static const double ys[] = {0, 1, -2, 4}; Data d; int n = mc::range(nmin, nmax); double x = x0s[mc::choose(n <= 3 ? 3 : 1 + (richness > 1))]; if (n > 3 && x == 0) x = -1.5; int hn = n <= 4 ? 3 : 2, yn = n <= 3 ? 4 : n == 4 ? 3 : 2 + (richness > 1);
  for (int i = 0; i < n; ++i) { d.x.push_back(x); d.y.push_back(ys[mc::choose(yn)]); if (i + 1 < n) x += hs[mc::choose(hn)]; } d.big = 1; for (double y : d.y) d.big = std::max(d.big, std::fabs(y)); d.s = "x = " + str(d.x) + ", y = " + str(d.y); mc::trace("%s", d.s.c_str()); return d;
}
double spacing(const Data& d) { double m = 1e9; for (size_t i = 0; i + 1 < d.x.size(); ++i) m = std::min(m, d.x[i + 1] - d.x[i]); return m; }
void near(LD got, LD want, LD scale, const char* key, const char* what, LD at, const Data& d) { mc::validated(); MC_CHECK(std::isfinite((double)got) && std::fabs(got - want) <= scale, key, "%s at %.17Lg is %.17Lg instead of %.17Lg for %s", what, at, got, want, d.s.c_str()); }
template <class S> void domain_errors(S& s, double lo, double hi, const Data& d) {
  if (d.y[0] != 0 || d.y.back() != 0) return;   // depends on the knots only
  if (h::checked) for (double x : {std::nextafter(lo, -1e9), lo - 1, std::nextafter(hi, 1e9), hi + 2}) for (int k = 0; k < 3; ++k) { int o = h::outcome([&] { volatile double v = k == 0 ? s(x) : k == 1 ? s.derivative(x) : s.dderivative(x); (void)v; }); mc::step(); mc::validated(); MC_CHECK(o == ecl::OutOfRangeError, "domain", "evaluating at %.17g outside [%g, %g]: %s (%s)", x, lo, hi, h::oname(o).c_str(), d.s.c_str()); }
  for (double x : {lo, hi}) for (int k = 0; k < 3; ++k) { int o = h::outcome([&] { volatile double v = k == 0 ? s(x) : k == 1 ? s.derivative(x) : s.dderivative(x); (void)v; }); MC_CHECK(o == h::Ok, "closed-domain", "evaluating at the end %.17g: %s (%s)", x, h::oname(o).c_str(), d.s.c_str()); }
}
// the cubic through four values, by Newton's divided differences, and its derivatives
void cubic_through(const LD* x, const LD* y, LD at, LD out[3]) {
  LD c[4] = {y[0], y[1], y[2], y[3]}; for (int k = 1; k < 4; ++k) for (int i = 3; i >= k; --i) c[i] = (c[i] - c[i - 1]) / (x[i] - x[i - k]);
  LD v = c[3], dv = 0, ddv = 0; for (int i = 2; i >= 0; --i) { ddv = ddv * (at - x[i]) + 2 * dv; dv = dv * (at - x[i]) + v; v = v * (at - x[i]) + c[i]; } out[0] = v; out[1] = dv; out[2] = ddv;
}
// values just right of a knot come from the piece on its right: approached, and extrapolated to the knot
void cubic_pieces(ecl::CubicSpline& s, const Data& d, LD slack, std::vector<std::array<LD, 6>>& ends) {   // per piece: y, y', y'' at its left and right end
  for (size_t i = 0; i + 1 < d.x.size(); ++i) {
    LD a = d.x[i], w = (LD)d.x[i + 1] - a, xs[4], ys[4]; for (int k = 0; k < 4; ++k) { xs[k] = (double)(a + w * (k + 1) / 5); ys[k] = s((double)xs[k]); } mc::step(12);
    for (int k = 0; k < 6; ++k) { double x = k < 4 ? (double)xs[k] : (double)(a + w * (k == 4 ? 0.03125L : 0.96875L)); LD o[3]; cubic_through(xs, ys, x, o); near(s(x), o[0], slack, "cubic", "the cubic piece", x, d); near(s.derivative(x), o[1], slack * 40 / w, "derivative", "the first derivative", x, d); near(s.dderivative(x), o[2], slack * 400 / (w * w), "dderivative", "the second derivative", x, d); }
    std::array<LD, 6> e; LD o[3]; cubic_through(xs, ys, a, o); for (int k = 0; k < 3; ++k) e[k] = o[k]; cubic_through(xs, ys, a + w, o); for (int k = 0; k < 3; ++k) e[3 + k] = o[k]; ends.push_back(e);
    near(e[0], d.y[i], slack * 40, "knot", "the piece right of a knot", a, d); near(e[3], d.y[i + 1], slack * 40, "knot", "the piece left of a knot", a + w, d);
  }
  for (size_t i = 0; i < d.x.size(); ++i) near(s(d.x[i]), d.y[i], slack, "knot", "the spline", d.x[i], d);
  MC_CHECK(s.domain().size() == d.x.size() && s.polynomials().size() + 1 == d.x.size(), "domain", "the spline has %zu domain points", (size_t)s.domain().size()); for (size_t i = 0; i < d.x.size(); ++i) MC_CHECK(s.domain()[i] == d.x[i], "domain", "domain point %zu is %g", i, s.domain()[i]);
}
template <class B> ecl::CubicSpline build(B b, const Data& other, size_t n) { switch (mc::choose(n <= 3 ? 3 : 1)) { case 0: { ecl::CubicSpline s(b); return s; } case 1: return b.instantiate(); default: { ecl::CubicSpline s = ecl::CubicSpline::Natural(arr(other.x), arr(other.y)); b.apply(s); ecl::CubicSpline c; c = s; return c; } } }
const Data& old() { static Data* d = new Data{{0, 1, 2, 3, 4, 5}, {3, 1, 4, 1, 5, 9}, 9, ""}; return *d; }
const double slopes[] = {0, 1, -3};
}
MC_SCENARIO(cubic_c2) {
  Data d = data(2, 5, mc::tiered(1, 2)); bool natural = mc::flip(); double s0 = natural ? 0 : mc::pick(slopes), s1 = natural ? 0 : mc::pick(slopes); LD w = spacing(d), slack = 1e-9L * d.big;
  ecl::CubicSpline s = natural ? build(ecl::CubicSpline::Natural(arr(d.x), arr(d.y)), old(), d.x.size()) : build(ecl::CubicSpline::ContinuousDerivatives(arr(d.x), arr(d.y), s0, s1), old(), d.x.size()); std::vector<std::array<LD, 6>> e; cubic_pieces(s, d, slack, e); size_t n = e.size();
  for (size_t i = 0; i + 1 < n; ++i) { near(e[i][4], e[i + 1][1], slack * 100 / w, "slope-continuity", "the slope left of the knot", d.x[i + 1], d); near(e[i][5], e[i + 1][2], slack * 1000 / (w * w), "curvature-continuity", "the second derivative left of the knot", d.x[i + 1], d); }
  if (natural) { near(e[0][2], 0, slack * 1000 / (w * w), "natural", "the second derivative", d.x[0], d); near(e[n - 1][5], 0, slack * 1000 / (w * w), "natural", "the second derivative", d.x[n], d); near(s.dderivative(d.x[0]), 0, slack * 100, "natural", "the second derivative", d.x[0], d); near(s.dderivative(d.x[n]), 0, slack * 100, "natural", "the second derivative", d.x[n], d); }
  else { near(e[0][1], s0, slack * 100 / w, "end-slope", "the slope", d.x[0], d); near(e[n - 1][4], s1, slack * 100 / w, "end-slope", "the slope", d.x[n], d); near(s.derivative(d.x[0]), s0, slack * 100, "end-slope", "the slope", d.x[0], d); near(s.derivative(d.x[n]), s1, slack * 100, "end-slope", "the slope", d.x[n], d); }
  domain_errors(s, d.x[0], d.x[n], d);
}
MC_SCENARIO(cubic_heuristic) {
  Data d = data(2, 5, mc::tiered(1, 2)); double s0 = mc::pick(slopes), s1 = mc::pick(slopes); LD w = spacing(d), slack = 1e-9L * d.big; ecl::CubicSpline s = build(ecl::CubicSpline::DerivativeHeuristic(arr(d.x), arr(d.y), s0, s1), old(), d.x.size()); std::vector<std::array<LD, 6>> e; cubic_pieces(s, d, slack, e); size_t n = e.size();
  for (size_t i = 0; i <= n; ++i) { LD m = i == 0 ? s0 : i == n ? s1 : (((LD)d.y[i] - d.y[i - 1]) / ((LD)d.x[i] - d.x[i - 1]) + ((LD)d.y[i + 1] - d.y[i]) / ((LD)d.x[i + 1] - d.x[i])) / 2; if (i) near(e[i - 1][4], m, slack * 100 / w, "via-slope", "the slope left of the knot", d.x[i], d); if (i < n) near(e[i][1], m, slack * 100 / w, "via-slope", "the slope right of the knot", d.x[i], d); near(s.derivative(d.x[i]), m, slack * 100 / w, "via-slope", "the slope", d.x[i], d); }
  domain_errors(s, d.x[0], d.x[n], d);
}
MC_SCENARIO(tension) {
  Data d = data(2, 5, mc::tiered(1, 2)); static const double taus[] = {0.5, 1, 5, 20}; double tau = mc::pick(taus); int how = mc::choose(3); ecl::TensionSpline s; ecl::blueprints::C2TensionSpline b = ecl::TensionSpline::Natural(arr(d.x), arr(d.y), tau); if (how == 0) s = b; else if (how == 1) s = b.instantiate(); else { ecl::TensionSpline t = ecl::TensionSpline::Natural(arr(old().x), arr(old().y), 3.0); b.apply(t); s = t; }
  LD slack = 1e-9L * d.big * (1 + tau) * (1 + 1 / tau / tau), w = spacing(d); size_t n = d.x.size() - 1; mc::step((n + 1) * 3);
  for (size_t i = 0; i <= n; ++i) near(s(d.x[i]), d.y[i], slack, "knot", "the tension spline", d.x[i], d); near(s.dderivative(d.x[0]), 0, slack, "natural", "the second derivative", d.x[0], d); near(s.dderivative(d.x[n]), 0, slack, "natural", "the second derivative", d.x[n], d);
  for (size_t i = 1; i < n; ++i) { double x = d.x[i], r = std::nextafter(x, 1e9); near(s(r), d.y[i], slack, "continuity", "the piece right of the knot", x, d); near(s.derivative(x), s.derivative(r), slack * 100 * (1 + tau) / w, "slope-continuity", "the slope left of the knot", x, d); near(s.dderivative(x), s.dderivative(r), slack * 1000 * (1 + tau * tau) / (w * w), "curvature-continuity", "the second derivative left of the knot", x, d); }
  for (size_t i = 0; i < n; ++i) { double a = d.x[i], e = d.x[i + 1], ra = std::nextafter(a, 1e9); LD za = s.dderivative(ra) / ((LD)tau * tau), ze = s.dderivative(e) / ((LD)tau * tau);
    for (int k = 1; k < 6; ++k) { double x = a + (e - a) * k / 6; mc::step(3); LD g = s(x) - s.dderivative(x) / ((LD)tau * tau), lin = ((d.y[i] - za) * (e - (LD)x) + (d.y[i + 1] - ze) * ((LD)x - a)) / ((LD)e - a); near(g, lin, slack * 100, "tension", "y - y''/tau^2 (linear for a spline of that tension)", x, d);
      double hh = 1e-4 / (1 + tau); LD num = ((LD)s(x + hh) - s(x - hh)) / (2 * (LD)hh), num2 = ((LD)s.derivative(x + hh) - s.derivative(x - hh)) / (2 * (LD)hh); near(s.derivative(x), num, 1e-5L * d.big * (1 + tau * tau), "derivative", "the first derivative", x, d); near(s.dderivative(x), num2, 1e-5L * d.big * (1 + tau * tau * tau) * 10, "dderivative", "the second derivative", x, d); } }
  const ecl::TensionSpline& c = s; MC_CHECK(c.domain().size() == n + 1 && c.domain()[0] == d.x[0] && c.domain()[n] == d.x[n], "domain", "the domain is wrong"); domain_errors(s, d.x[0], d.x[n], d);
}
MC_SCENARIO(smooth_linear) {
  Data d = data(2, 5, mc::tiered(1, 2)); if (d.x[0] == 10) for (double& x : d.x) x -= 9;   // corners are stored as polynomials in x: far from the origin they lose accuracy
  static const double as[] = {1, -5, 30, 1000, 0.1}; double amax = mc::pick(as), A = std::fabs(amax); size_t n = d.x.size() - 1; bool stat = mc::flip(); ecl::SmoothLinearSpline s; int o = outcome([&] { if (stat) s = ecl::SmoothLinearSpline::Interpolation(arr(d.x), arr(d.y), amax); else s = ecl::SmoothLinearSpline(arr(d.x), arr(d.y), amax); }); mc::step();
  V m; for (size_t i = 0; i < n; ++i) m.push_back((d.y[i + 1] - d.y[i]) / (d.x[i + 1] - d.x[i])); auto seg = [&](size_t i, LD x) { return d.y[i] + ((LD)d.y[i + 1] - d.y[i]) * (x - d.x[i]) / ((LD)d.x[i + 1] - d.x[i]); };
  if (o != h::Ok) { MC_CHECK(o == ecl::ConstructorError, "outcome", "construction: %s for %s", h::oname(o).c_str(), d.s.c_str());
    bool easy = true; for (size_t i = 1; i < n; ++i) { if (m[i - 1] == m[i]) continue; LD l = (i == 1 ? 1 : 0.5L) * ((LD)d.x[i] - d.x[i - 1]), r = (i + 1 == n ? 1 : 0.5L) * ((LD)d.x[i + 1] - d.x[i]), h = l + r;   // the widest corner: quintic with the two slopes and no end acceleration
        LD y0 = -m[i - 1] * l, y1 = m[i] * r, v0 = m[i - 1], v1 = m[i], D = y1 - y0, a3 = (20 * D - (8 * v1 + 12 * v0) * h) / (2 * h * h * h), a4 = (-30 * D + (14 * v1 + 16 * v0) * h) / (2 * h * h * h * h), a5 = (12 * D - 6 * (v1 + v0) * h) / (2 * h * h * h * h * h), mx = 0; for (int k = 0; k <= 2000; ++k) { LD t = h * k / 2000; mx = std::max(mx, std::fabs(6 * a3 * t + 12 * a4 * t * t + 20 * a5 * t * t * t)); } if (mx >= A * 0.98L) easy = false; }
    mc::validated(); MC_CHECK(!easy, "refused", "the acceleration bound %g is refused although the widest corners satisfy it, for %s", amax, d.s.c_str()); return; }
  const ecl::SmoothLinearSpline& c = s; const ecl::Array<double>& dom = c.domain(); MC_CHECK(dom.size() == 2 * n && dom[0] == d.x[0] && dom[2 * n - 1] == d.x[n], "domain", "the domain is wrong for %s", d.s.c_str());
  LD wmin = 1, far = std::max(std::fabs(d.x[0]), std::fabs(d.x[n])); for (size_t i = 1; i < n; ++i) if (dom[2 * i] > dom[2 * i - 1]) wmin = std::min(wmin, (LD)dom[2 * i] - dom[2 * i - 1]); LD noise = 5e-15L * d.big * std::pow((far + wmin) / wmin, 5), slack = 1e-9L * d.big + noise, aslack = slack * 400 / (wmin * wmin);
  near(s(d.x[0]), d.y[0], slack, "end", "the spline", d.x[0], d); near(s(d.x[n]), d.y[n], slack, "end", "the spline", d.x[n], d);
  for (size_t i = 1; i < n; ++i) { double l = dom[2 * i - 1], r = dom[2 * i]; LD lo = i == 1 ? (LD)d.x[0] : ((LD)d.x[i - 1] + d.x[i]) / 2, hi = i + 1 == n ? (LD)d.x[n] : ((LD)d.x[i] + d.x[i + 1]) / 2; MC_CHECK(l <= d.x[i] && r >= d.x[i] && l >= lo - 1e-9L && r <= hi + 1e-9L, "corner", "the corner at %g spans [%g, %g] for %s", d.x[i], l, r, d.s.c_str()); if (m[i - 1] == m[i]) near(s(d.x[i]), d.y[i], slack, "knot", "the spline at a straight knot", d.x[i], d); }
  double prev = d.x[0]; for (size_t p = 0; p < 2 * n - 1; ++p) { double a = dom[p], e = dom[p + 1]; bool straight = p % 2 == 0; if (!(a < e)) continue; double ra = std::max(std::nextafter(a, 1e9), d.x[0]); (void)prev;
    for (int k = 0; k <= 24; ++k) { double x = k == 0 ? ra : k == 24 ? e : a + (e - a) * k / 24; mc::step(3); LD y = s(x), v = s.derivative(x), acc = s.dderivative(x); MC_CHECK(std::fabs(acc) <= A + aslack, "acceleration", "the acceleration at %.17g is %Lg, beyond %g, for %s", x, acc, A, d.s.c_str());
      if (straight) { near(y, seg(p / 2, x), slack, "straight", "the straight part", x, d); near(v, m[p / 2], slack * 10, "straight-slope", "the slope of the straight part", x, d); near(acc, 0, slack * 10, "straight-acceleration", "the acceleration of the straight part", x, d); }
      else { size_t i = p / 2 + 1; if (k == 0) { near(y, seg(i - 1, x), slack * 10, "continuity", "the corner at its left end", x, d); near(v, m[i - 1], slack * 40 / wmin, "slope-continuity", "the slope of the corner at its left end", x, d); near(acc, 0, aslack, "curvature-continuity", "the acceleration of the corner at its left end", x, d); } if (k == 24) { near(y, seg(i, x), slack * 10, "continuity", "the corner at its right end", x, d); near(v, m[i], slack * 40 / wmin, "slope-continuity", "the slope of the corner at its right end", x, d); near(acc, 0, aslack, "curvature-continuity", "the acceleration of the corner at its right end", x, d); }
        if (k > 2 && k < 22) { double hh = (e - a) / 30; auto stencil = [&](auto f) { return (-(LD)f(x - 3 * hh) + 9 * (LD)f(x - 2 * hh) - 45 * (LD)f(x - hh) + 45 * (LD)f(x + hh) - 9 * (LD)f(x + 2 * hh) + (LD)f(x + 3 * hh)) / (60 * (LD)hh); };   // exact up to degree six
          LD num = stencil([&](double t) { return s(t); }), num2 = stencil([&](double t) { return s.derivative(t); }); near(v, num, 1e-3L * (1 + std::fabs(v) + d.big) + slack * 1000 / wmin, "derivative", "the first derivative", x, d); near(acc, num2, 1e-2L * (1 + std::fabs(acc) + d.big) + aslack * 100, "dderivative", "the second derivative", x, d); } } } }
  domain_errors(s, d.x[0], d.x[n], d);
}
MC_SCENARIO(bad_data) {   // too few points, sizes that differ
  if (!h::checked) mc::skip();
  int nx = mc::range(0, 3), ny = mc::range(0, 3); if (nx == ny && nx >= 2) return; V x, y; for (int i = 0; i < nx; ++i) x.push_back(i); for (int i = 0; i < ny; ++i) y.push_back(i * i); int kind = mc::choose(5); ecl::Array<double> ax = arr(x), ay = arr(y); mc::step(); mc::validated(); static const char* names[] = {"Natural", "ContinuousDerivatives", "DerivativeHeuristic", "tension", "smooth linear"};
  int o = outcome([&] { switch (kind) { case 0: { ecl::CubicSpline s = ecl::CubicSpline::Natural(ax, ay); break; } case 1: { ecl::CubicSpline s = ecl::CubicSpline::ContinuousDerivatives(ax, ay, 0, 0); break; } case 2: { ecl::CubicSpline s = ecl::CubicSpline::DerivativeHeuristic(ax, ay, 0, 0); break; } case 3: { ecl::TensionSpline s = ecl::TensionSpline::Natural(ax, ay, 1.0); break; } case 4: { ecl::SmoothLinearSpline s(ax, ay, 10.0); break; } } });
  MC_CHECK(o == ecl::OutOfRangeError, "bad-data", "%s with %d x values and %d y values: %s", names[kind], nx, ny, h::oname(o).c_str());
}
MC_SCENARIO(function_on_interval) {
  static const double es[] = {0, -1, 2.5}; double a = mc::pick(es), w = mc::flip() ? 2 : 0; ecl::CubicPolynomial p; p.coefficients() << 1, -2, 3, 0.5; ecl::SplineFunction<ecl::CubicPolynomial> f(a, a + w, p); ecl::GenericSplineFunction& g = f; Data d{{a, a + w}, {0, 0}, 1, "a function restricted to an interval"}; domain_errors(g, a, a + w, d);
  for (int k = 0; k <= 4; ++k) { double x = a + w * k / 4; mc::step(3); mc::validated(3); MC_CHECK(g(x) == p(x) && g.derivative(x) == p.derivative(x) && g.dderivative(x) == p.dderivative(x), "restriction", "the restricted function differs at %g", x); } MC_CHECK(g.domain()[0] == a && g.domain()[1] == a + w, "domain", "the interval is [%g, %g]", g.domain()[0], g.domain()[1]);
}

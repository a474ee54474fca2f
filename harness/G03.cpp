// @SOURCES: ecl_geometry/src/lib/polynomial.cpp ecl_geometry/src/lib/polynomial_blueprints.cpp ecl_geometry/src/lib/pascals_triangle.cpp ecl_formatters/src/lib/*.cpp ecl_type_traits/src/lib/numeric_limits.cpp ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @FLAGS: -I/usr/include/eigen3
// @ASSUME: degrees 0 to 7, coefficients and arguments small integers and halves, where the arithmetic is exact up to a few roundings;; interpolation over intervals of non-zero length, either direction;; oracle: the definitions in 128-bit integers and in long double
#include "util.hpp"
#include <cmath>
#include <sstream>
#include <ecl/geometry/polynomial.hpp>
#include <ecl/geometry/pascals_triangle.hpp>
namespace {
typedef long double LD; typedef std::vector<LD> Poly;
LD eval(const Poly& c, LD x) { LD s = 0; for (size_t i = c.size(); i-- > 0;) s = s * x + c[i]; return s; }
LD mag(const Poly& c, LD x) { LD s = 0; for (size_t i = c.size(); i-- > 0;) s = s * std::fabs(x) + std::fabs(c[i]); return s; }
Poly diff(const Poly& c) { Poly d; for (size_t i = 1; i < c.size(); ++i) d.push_back(c[i] * i); if (d.empty()) d.push_back(0); return d; }
std::string show(const Poly& c) { std::ostringstream s; for (size_t i = 0; i < c.size(); ++i) s << (i ? " + " : "") << c[i] << "x^" << i; return s.str(); }
bool close(LD got, LD want, LD scale, LD k = 64) { return std::fabs(got - want) <= k * 2.3e-16L * (scale + std::fabs(want)) + 1e-300L; }
template <unsigned N> Poly coeffs(const ecl::Polynomial<N>& p) { Poly c; for (unsigned i = 0; i <= N; ++i) c.push_back(p.coefficients()[i]); return c; }
const double xs[] = {0, 1, -1, 2, -2, 0.5, -0.5, 3, -3.5, 10};
template <unsigned N> void fill(ecl::Polynomial<N>& p, Poly& c) { static const double full[] = {0, 1, -1, 2, -3, 0.5}; c.clear(); for (unsigned i = 0; i <= N; ++i) { int m = N <= 3 ? 6 : N <= 5 ? 4 : 3; double v = full[mc::choose(m)]; if (N > 3 && v != 0) v += v > 0 ? i : -(int)i; p.coefficients()[i] = v; c.push_back(v); } mc::trace("p = %s", show(c).c_str()); }
template <unsigned N> struct Algebra { static void run() {
  ecl::Polynomial<N> p; for (unsigned i = 0; i <= N; ++i) MC_CHECK(p.coefficients()[i] == 0, "default", "a new polynomial is not zero"); Poly c; fill(p, c); const ecl::Polynomial<N>& cp = p; Poly d = diff(c), dd = diff(d);
  auto dp = cp.derivative(); { Poly g; for (unsigned i = 0; i + 1 < c.size(); ++i) g.push_back(dp.coefficients()[i]); if (g.empty()) g.push_back(0); MC_CHECK(g == d, "derivative", "the derivative of %s is %s", show(c).c_str(), show(g).c_str()); }
  for (double x : xs) { mc::step(3); mc::validated(3); 
    MC_CHECK(close(cp(x), eval(c, x), mag(c, x)), "evaluation", "(%s)(%g) is %.17g", show(c).c_str(), x, cp(x)); MC_CHECK(close(cp.derivative(x), eval(d, x), mag(d, x)), "derivative-at", "(%s)'(%g) is %.17g", show(c).c_str(), x, cp.derivative(x)); MC_CHECK(close(cp.dderivative(x), eval(dd, x), mag(dd, x)), "second-derivative", "(%s)''(%g) is %.17g", show(c).c_str(), x, cp.dderivative(x)); }
  MC_CHECK(coeffs(cp) == c, "const", "evaluation changed the polynomial");
  for (double s : xs) { ecl::Polynomial<N> q(p); q.shift_horizontal(s); Poly qc = coeffs(q); mc::step(1 + sizeof xs / sizeof *xs); mc::validated(sizeof xs / sizeof *xs);
    // exact shifted coefficients: (p(x-s)) = sum_i c_i (x-s)^i
    for (unsigned k = 0; k <= N; ++k) { LD w = 0, m = 0, b = 1; for (unsigned i = k; i <= N; ++i) { LD t = b * std::pow((LD)-s, (int)(i - k)) * c[i]; w += t; m += std::fabs(t); b = b * (i + 1) / (i + 1 - k); } MC_CHECK(close(qc[k], w, m), "shift", "shifting %s by %g gives %s", show(c).c_str(), s, show(qc).c_str()); }
    for (double x : xs) MC_CHECK(close(q(x), eval(c, (LD)x - s), mag(c, std::fabs(x) + std::fabs(s)), 256), "shift-evaluates", "%s shifted by %g is %.17g at %g, not p(%g)", show(c).c_str(), s, q(x), x, x - s); }
  ecl::Polynomial<N> copy(p), other; other = p; MC_CHECK(coeffs(copy) == c && coeffs(other) == c, "copy", "a copy differs");
  std::ostringstream o; o << cp; std::string s = o.str(); for (char& ch : s) if (ch == '+' || ch == 'x') ch = ' '; std::string t; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '^') { while (i + 1 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '9') ++i; continue; } t += s[i]; } std::istringstream in(t); for (unsigned i = 0; i <= N; ++i) { double v = 1e99; in >> v; MC_CHECK(v == (double)c[i], "printed", "%s is printed as '%s'", show(c).c_str(), o.str().c_str()); } mc::step(); mc::validated();
} };
template <> struct Algebra<0> { static void run() { ecl::Polynomial<0> p; MC_CHECK(p.coefficients()[0] == 0, "default", "a new constant is not zero"); double v = mc::pick(xs); p.coefficients()[0] = v; const ecl::Polynomial<0>& c = p; for (double x : xs) { mc::step(3); mc::validated(3); MC_CHECK(c(x) == v && c.derivative(x) == 0 && c.dderivative(x) == 0 && c.derivative()(x) == 0, "constant", "the constant %g misbehaves at %g", v, x); } p.shift_horizontal(3); MC_CHECK(p(7) == v, "constant", "shifting changed a constant"); } };
}
MC_SCENARIO(algebra) { switch (mc::choose(8)) { case 0: Algebra<0>::run(); break; case 1: Algebra<1>::run(); break; case 2: Algebra<2>::run(); break; case 3: Algebra<3>::run(); break; case 4: Algebra<4>::run(); break; case 5: Algebra<5>::run(); break; case 6: Algebra<6>::run(); break; case 7: if (mc::thorough()) Algebra<7>::run(); break; } }
namespace {
template <unsigned N> void divide() {   // p = quotient * (x - factor) + remainder, coefficient by coefficient
  ecl::Polynomial<N> p; Poly c; static const double vals[] = {0, 1, -1, 2, -3, 0.5, 4}; for (unsigned i = 0; i <= N; ++i) { double v = mc::pick(vals); p.coefficients()[i] = v; c.push_back(v); } double f = mc::pick(xs), rem = 777; bool stat = mc::flip(); 
  ecl::Polynomial<N - 1> q; if (stat) q = ecl::Polynomial<N>::Division(p, f, rem); else { ecl::Division<ecl::Polynomial<N>> d; q = d(p, f, rem); } Poly qc = coeffs(q); mc::step(); mc::validated(N + 2);
  for (unsigned i = 0; i <= N; ++i) { LD w = (i ? qc[i - 1] : (LD)rem) - (i < N ? qc[i] * f : 0); MC_CHECK(close(w, c[i], 100), "division", "(%s) / (x - %g) is %s remainder %g", show(c).c_str(), f, show(qc).c_str(), rem); }
  MC_CHECK(close(rem, eval(c, f), mag(c, f)), "remainder", "(%s) / (x - %g) leaves %g", show(c).c_str(), f, rem); MC_CHECK(coeffs(p) == c, "const", "division changed the dividend");
}
}
MC_SCENARIO(division) { if (mc::flip()) divide<3>(); else divide<2>(); }
namespace {
template <int N> void triangle() {
  typedef ecl::PascalsTriangle<N> Tri; Tri t; const Tri& c = t; std::ostringstream o; o << t; std::istringstream in(o.str());
  for (int r = 0; r <= N; ++r) { typename Tri::const_iterator it = c.begin(r), e = c.end(r); mc::step(); MC_CHECK(e - it == N + 1 - r, "row", "row %d of the triangle of size %d has %ld entries", r, N, (long)(e - it)); long b = 1; for (int k = 0; k <= N - r; ++k, ++it) { mc::validated(2); MC_CHECK(*it == b, "coefficient", "entry %d of row %d (size %d) is %ld instead of %ld", k, r, N, (long)*it, b); long v = -1; in >> v; MC_CHECK(v == b, "printed", "the printed triangle of size %d has %ld at row %d entry %d instead of %ld", N, v, r, k, b); b = b * (r + k + 1) / (k + 1); } }
  typename Tri::const_iterator d = c.begin(), d0 = c.begin(0); MC_CHECK(d == d0 && c.end() == c.end(0), "row", "the default row is not the first one");
}
}
MC_SCENARIO(binomials) { switch (mc::choose(13)) { case 0: triangle<0>(); break; case 1: triangle<1>(); break; case 2: triangle<2>(); break; case 3: triangle<3>(); break; case 4: triangle<4>(); break; case 5: triangle<5>(); break; case 6: triangle<6>(); break; case 7: triangle<7>(); break; case 8: triangle<8>(); break; case 9: triangle<10>(); break; case 10: triangle<16>(); break; case 11: triangle<25>(); break; case 12: triangle<33>(); break; } }
namespace {
const double ys[] = {0, 1, -2, 3.5}; const double x0s[] = {0, 1, -2, 0.5, 7}; const double dxs[] = {1, 2, 0.5, -1, 3, -0.25, 10};
struct Cond { LD x; int order; LD y; const char* what; };
template <unsigned N> void meets(const ecl::Polynomial<N>& p, const std::vector<Cond>& cs, LD scale, LD x0, LD dx, const char* kind) {
  Poly c = coeffs(p), d = diff(c), dd = diff(d); mc::step();
  for (const Cond& k : cs) { const Poly& f = k.order == 0 ? c : k.order == 1 ? d : dd; LD got = eval(f, k.x); mc::validated(2); LD tol = 1e-13L * scale * std::pow((std::fabs(x0) * 2 + std::fabs(dx)) / std::fabs(dx), (int)N) / std::pow(std::fabs(dx), k.order) + 1e-13L * (mag(f, k.x) + 1);
    MC_CHECK(std::fabs(got - k.y) <= tol, kind, "%s: %s is %.17Lg instead of %Lg (polynomial %s, interval %Lg..%Lg)", kind, k.what, got, k.y, show(c).c_str(), x0, x0 + dx);
    LD own = k.order == 0 ? p((double)k.x) : k.order == 1 ? p.derivative((double)k.x) : p.dderivative((double)k.x); MC_CHECK(std::fabs(own - k.y) <= tol, kind, "%s: %s evaluates to %.17Lg instead of %Lg", kind, k.what, own, k.y); }
}
template <class P, class B> P make(const B& b) { switch (mc::choose(4)) { case 0: return P(b); case 1: { B c(b); return c.instantiate(); } case 2: { P p; for (unsigned i = 0; i < p.coefficients().size(); ++i) p.coefficients()[i] = 99; p = b; return p; } default: { P p; b.apply(p); return p; } } }
}
MC_SCENARIO(interpolation) {
  double x0 = mc::pick(x0s), dx = mc::pick(dxs), x1 = x0 + dx; LD X0 = x0, X1 = x1, DX = dx;
  switch (mc::choose(5)) {
    case 0: { double y0 = mc::pick(ys), y1 = mc::pick(ys); ecl::LinearFunction f = make<ecl::LinearFunction>(ecl::LinearFunction::Interpolation(x0, y0, x1, y1)); meets<1>(f, {{X0, 0, y0, "y(x_i)"}, {X1, 0, y1, "y(x_f)"}}, std::fabs(y0) + std::fabs(y1), X0, DX, "LinearInterpolation"); break; }
    case 1: { double y0 = mc::pick(ys), s = mc::pick(ys); ecl::LinearFunction f = make<ecl::LinearFunction>(ecl::LinearFunction::PointSlopeForm(x0, y0, s)); meets<1>(f, {{X0, 0, y0, "y(x_f)"}, {X0, 1, s, "slope"}}, std::fabs(y0) + std::fabs(s), X0, 1, "LinearPointSlopeForm"); break; }
    case 2: { double y0 = mc::pick(ys), v0 = mc::pick(ys), y1 = mc::pick(ys), v1 = mc::pick(ys); ecl::CubicPolynomial f = make<ecl::CubicPolynomial>(ecl::CubicPolynomial::DerivativeInterpolation(x0, y0, v0, x1, y1, v1)); meets<3>(f, {{X0, 0, y0, "y(x_i)"}, {X0, 1, v0, "y'(x_i)"}, {X1, 0, y1, "y(x_f)"}, {X1, 1, v1, "y'(x_f)"}}, std::fabs(y0) + std::fabs(y1) + std::fabs(dx) * (std::fabs(v0) + std::fabs(v1)), X0, DX, "CubicDerivativeInterpolation"); break; }
    case 3: { double y0 = mc::pick(ys), a0 = mc::pick(ys), y1 = mc::pick(ys), a1 = mc::pick(ys); ecl::CubicPolynomial f = make<ecl::CubicPolynomial>(ecl::CubicPolynomial::SecondDerivativeInterpolation(x0, y0, a0, x1, y1, a1)); meets<3>(f, {{X0, 0, y0, "y(x_i)"}, {X0, 2, a0, "y''(x_i)"}, {X1, 0, y1, "y(x_f)"}, {X1, 2, a1, "y''(x_f)"}}, std::fabs(y0) + std::fabs(y1) + dx * dx * (std::fabs(a0) + std::fabs(a1)), X0, DX, "CubicSecondDerivativeInterpolation"); break; }
    case 4: { int n = mc::tiered(3, 4); auto y = [&] { return ys[mc::choose(n)]; }; double y0 = y(), v0 = y(), a0 = y(), y1 = y(), v1 = y(), a1 = y(); ecl::QuinticPolynomial f = make<ecl::QuinticPolynomial>(ecl::QuinticPolynomial::Interpolation(x0, y0, v0, a0, x1, y1, v1, a1)); meets<5>(f, {{X0, 0, y0, "y(x_i)"}, {X0, 1, v0, "y'(x_i)"}, {X0, 2, a0, "y''(x_i)"}, {X1, 0, y1, "y(x_f)"}, {X1, 1, v1, "y'(x_f)"}, {X1, 2, a1, "y''(x_f)"}}, std::fabs(y0) + std::fabs(y1) + std::fabs(dx) * (std::fabs(v0) + std::fabs(v1)) + dx * dx * (std::fabs(a0) + std::fabs(a1)), X0, DX, "QuinticInterpolation"); break; }
  }
}

// @SOURCES: ecl_type_traits/src/lib/numeric_limits.cpp
// @BUILDS: release
// @FLAGS: -I/usr/include/eigen3
// @ASSUME: finite values of a grid closed under sign, with every neighbour (one unit in the last place) of each tolerance boundary; operands of comparisons between integers of one signedness;; norms of values whose squares do not overflow;; oracle: the definitions in long double, with a tolerance of four units in the last place
#include "util.hpp"
#include <cmath>
#include <limits>
#include <ecl/math.hpp>
namespace {
template <class T> T next(T x, int ulps) { for (int i = 0; i < std::abs(ulps); ++i) x = std::nextafter(x, ulps > 0 ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity()); return x; }
template <class T> std::vector<T> values() { std::vector<T> v; for (T m : {T(0), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::min(), T(1e-30L), T(1e-9L), T(0.001L), T(0.1L), T(0.5L), T(0.75L), T(1), T(1.5L), T(2), T(3), T(7), T(10), T(123.456L), T(1000), T(65536), T(1e9L), T(1e12L)}) { v.push_back(m); if (m != 0) v.push_back(-m); } v.push_back(-T(0)); return v; }
template <class T> void signs(T x, const char* n) {
  int want = x > 0 ? 1 : x < T(0) ? -1 : 0; mc::step(3); mc::validated(3); MC_CHECK(ecl::sign(x) == want, "sign", "sign<%s>(%Lg) is %d", n, (long double)x, ecl::sign(x)); MC_CHECK(ecl::psign(x) == (want < 0 ? -1 : 1), "psign", "psign<%s>(%Lg) is %d", n, (long double)x, ecl::psign(x)); MC_CHECK(ecl::nsign(x) == (want > 0 ? 1 : -1), "nsign", "nsign<%s>(%Lg) is %d", n, (long double)x, ecl::nsign(x));
}
template <class T> void int_signs(const char* n) { std::vector<T> v = h::edges<T>(); signs<T>(v[mc::choose((int)v.size())], n); }
template <class T> void float_signs(const char* n) { std::vector<T> v = values<T>(); for (T m : {std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()}) v.push_back(m); signs<T>(v[mc::choose((int)v.size())], n); }
}
MC_SCENARIO(sign) { switch (mc::choose(11)) { case 0: int_signs<char>("char"); break; case 1: int_signs<signed char>("signed char"); break; case 2: int_signs<unsigned char>("unsigned char"); break; case 3: int_signs<short>("short"); break; case 4: int_signs<int>("int"); break; case 5: int_signs<unsigned>("unsigned"); break; case 6: int_signs<long>("long"); break; case 7: int_signs<unsigned long>("unsigned long"); break; case 8: float_signs<float>("float"); break; case 9: float_signs<double>("double"); break; case 10: float_signs<long double>("long double"); break; } }
namespace {
template <class T> void cube(const char* n) {
  std::vector<T> v; for (int i = -200; i <= 200; ++i) v.push_back(T(i) / 8); for (int e = -12; e <= 12; ++e) for (long double m : {1.0L, 1.7L, 3.3L, 9.99L}) { v.push_back(T(m * std::pow(10.0L, e))); v.push_back(-T(m * std::pow(10.0L, e))); }
  T x = v[mc::choose((int)v.size())], c = x * x * x; if (x != 0 && (!std::isfinite(c) || std::fabs(c) < std::numeric_limits<T>::min())) return; mc::step(); mc::validated(); T r = ecl::cube_root(c); long double err = std::fabs((long double)r - (long double)x);
  MC_CHECK(err <= 16 * std::numeric_limits<T>::epsilon() * std::fabs((long double)x), "cube_root", "cube_root<%s>(%Lg) is %.20Lg instead of %.20Lg", n, (long double)c, (long double)r, (long double)x);
}
template <class T> void norm(const char* n) {
  static const std::vector<T> v = [] { std::vector<T> s; for (T m : {T(0), T(1e-9L), T(0.1L), T(1), T(3), T(4), T(5.5L), T(12), T(1000), T(1e9L)}) { s.push_back(m); if (m != 0) s.push_back(-m); } return s; }();
  T x = v[mc::choose((int)v.size())], y = v[mc::choose((int)v.size())]; bool three = mc::flip(); T z = three ? v[mc::choose((int)v.size())] : T(0); long double want = std::sqrt((long double)x * x + (long double)y * y + (long double)z * z); mc::step(2); mc::validated(2); ecl::EuclideanNorm f;
  T a = three ? ecl::euclidean_norm(x, y, z) : ecl::euclidean_norm(x, y), b = three ? f(x, y, z) : f(x, y);
  for (T r : {a, b}) MC_CHECK(std::fabs((long double)r - want) <= 4 * std::numeric_limits<T>::epsilon() * want, "norm", "the norm<%s> of (%Lg,%Lg,%Lg) is %.20Lg instead of %.20Lg", n, (long double)x, (long double)y, (long double)z, (long double)r, want);
}
}
MC_SCENARIO(cube_root) { switch (mc::choose(3)) { case 0: cube<float>("float"); break; case 1: cube<double>("double"); break; case 2: { std::vector<long double> v; cube<double>("double"); break; } } }
MC_SCENARIO(norms) { switch (mc::choose(2)) { case 0: norm<float>("float"); break; case 1: norm<double>("double"); break; } }
namespace {
typedef long double LD;
template <class T> bool approx(T x, T y, T prec) { return std::fabs(T(x - y)) <= std::min(std::fabs(x), std::fabs(y)) * prec; }   // the definition, in the arithmetic of the type
template <class T> void fuzzy(const char* n, T standard) {
  static const std::vector<T> v = values<T>(); T x = v[mc::choose((int)v.size())]; int p = mc::choose(5); const T precs[] = {standard, T(0), T(1e-3L), T(0.25L), T(1)}; T prec = precs[p]; bool dflt = p == 0;
  int rel = mc::choose(4 + (int)v.size()); T y; if (rel < 4) { T edge = rel == 0 ? x * (1 + prec) : rel == 1 ? x / (1 + prec) : rel == 2 ? x : -x; y = next(edge, mc::range(-3, 3)); } else y = v[rel - 4]; mc::step(4); mc::validated(4);
  auto is = [&](T a, T b) { return dflt ? ecl::isApprox(a, b) : ecl::isApprox(a, b, prec); }; auto le = [&](T a, T b) { return dflt ? ecl::isApproxOrLessThan(a, b) : ecl::isApproxOrLessThan(a, b, prec); };
  // outside a few units of rounding at the boundary the answer is the mathematical one
  LD d = std::fabs((LD)x - (LD)y), lim = std::min(std::fabs((LD)x), std::fabs((LD)y)) * (LD)prec, slack = 4 * (LD)std::numeric_limits<T>::epsilon() * (lim + (p == 1 ? 0 : std::numeric_limits<T>::epsilon() * std::fabs((LD)x))) + 2 * (LD)std::numeric_limits<T>::denorm_min();
  bool got = is(x, y); if (d > lim + slack) MC_CHECK(!got, "isApprox", "isApprox<%s>(%.20Lg, %.20Lg) with tolerance %Lg holds", n, (LD)x, (LD)y, (LD)prec); if (d < lim - slack || d == 0) MC_CHECK(got, "isApprox", "isApprox<%s>(%.20Lg, %.20Lg) with tolerance %Lg does not hold", n, (LD)x, (LD)y, (LD)prec);
  MC_CHECK(got == is(y, x), "symmetry", "isApprox<%s>(%.20Lg, %.20Lg) is %d but %d with the operands exchanged", n, (LD)x, (LD)y, got, !got); MC_CHECK(is(-x, -y) == got, "sign-symmetry", "isApprox<%s>(%.20Lg, %.20Lg) changes with both signs", n, (LD)x, (LD)y); MC_CHECK(is(x, x), "reflexive", "isApprox(%Lg, itself) does not hold", (LD)x);
  MC_CHECK(le(x, y) == (x <= y || got), "isApproxOrLessThan", "isApproxOrLessThan<%s>(%.20Lg, %.20Lg) is %d", n, (LD)x, (LD)y, le(x, y)); MC_CHECK(le(x, y) || le(y, x), "total", "neither is less than or close to the other");
}
template <class A, class B> void ints() {
  std::vector<A> va = h::edges<A>(); std::vector<B> vb = h::edges<B>(); A x = va[mc::choose((int)va.size())]; int j = mc::choose((int)vb.size() + 3); B y; if (j < (int)vb.size()) y = vb[j]; else { __int128 w = (__int128)x + (j - (int)vb.size()) - 1; if (w < (long long)std::numeric_limits<B>::lowest() || w > (long long)std::numeric_limits<B>::max()) return; y = (B)w; }
  mc::step(2); mc::validated(3); __int128 X = x, Y = y; MC_CHECK(ecl::isApprox(x, y) == (X == Y), "integers", "isApprox(%lld, %lld) is %d", (long long)x, (long long)y, ecl::isApprox(x, y)); MC_CHECK(ecl::isApproxOrLessThan(x, y) == (X <= Y), "integers-less", "isApproxOrLessThan(%lld, %lld) is %d", (long long)x, (long long)y, ecl::isApproxOrLessThan(x, y)); MC_CHECK(ecl::isApprox(x, y) == ecl::isApprox(y, x), "symmetry", "isApprox of integers is not symmetric");
}
template <class I, class F> void mixed(F deflt) {   // an integer compared with a float, either way round
  static const I vi[] = {0, 1, 2, 3, 100, (I)-1, (I)-7}; I x = vi[mc::choose(std::numeric_limits<I>::is_signed ? 7 : 5)]; int p = mc::choose(3); F prec = p == 0 ? deflt : p == 1 ? F(0.001) : F(0.5); int b = mc::choose(3); F edge = b == 0 ? F(x) : b == 1 ? F(x) * (1 + prec) : F(x) / (1 + prec), y = edge; int k = mc::range(-2, 2); if (k) y = edge + F(k) * (std::fabs(edge) + F(b == 0)) * prec * F(0.01);
  LD d = std::fabs((LD)x - (LD)y), lim = std::min(std::fabs((LD)x), std::fabs((LD)y)) * (LD)prec, slack = lim * (LD)1e-3 ; mc::step(2); mc::validated(2);
  bool a = p == 0 ? ecl::isApprox(x, y) : ecl::isApprox(x, y, (typename ecl::numeric_limits<I>::Precision)prec), c = p == 0 ? ecl::isApprox(y, x) : ecl::isApprox(y, x, (typename ecl::numeric_limits<F>::Precision)prec);
  for (int w = 0; w < 2; ++w) { bool got = w ? c : a; if (d > lim + slack) MC_CHECK(!got, "mixed", "isApprox of %lld and %.20Lg with tolerance %Lg holds (order %d)", (long long)x, (LD)y, (LD)prec, w); if (d < lim - slack || d == 0) MC_CHECK(got, "mixed", "isApprox of %lld and %.20Lg with tolerance %Lg does not hold (order %d)", (long long)x, (LD)y, (LD)prec, w); }
}
}
MC_SCENARIO(fuzzy_float) { fuzzy<float>("float", 1e-5f); }
MC_SCENARIO(fuzzy_double) { fuzzy<double>("double", 1e-12); }
MC_SCENARIO(fuzzy_integers) { switch (mc::choose(8)) { case 0: ints<int, int>(); break; case 1: ints<char, char>(); break; case 2: ints<short, short>(); break; case 3: ints<unsigned, unsigned>(); break; case 4: ints<long, long>(); break; case 5: ints<int, long>(); break; case 6: ints<unsigned char, unsigned>(); break; case 7: ints<long, short>(); break; } }
MC_SCENARIO(fuzzy_mixed) { switch (mc::choose(4)) { case 0: mixed<int, double>(1e-12); break; case 1: mixed<long, double>(1e-12); break; case 2: mixed<int, float>(1e-5f); break; case 3: mixed<unsigned, double>(1e-12); break; } }
MC_SCENARIO(constants) {
  const LD P = 3.14159265358979323846264338327950288L; struct { const char* n; LD got, want; bool f; } t[] = {{"pi", ecl::pi, P, false}, {"two_pi", ecl::two_pi, 2 * P, false}, {"pi_2", ecl::pi_2, P / 2, false}, {"pi_4", ecl::pi_4, P / 4, false}, {"pi_f", ecl::pi_f, P, true}, {"two_pi_f", ecl::two_pi_f, 2 * P, true}, {"pi_2_f", ecl::pi_2_f, P / 2, true}, {"pi_4_f", ecl::pi_4_f, P / 4, true}};
  auto& c = t[mc::choose(8)]; mc::step(); mc::validated(); MC_CHECK(c.got == (c.f ? (LD)(float)c.want : (LD)(double)c.want), "constants", "%s is %.20Lg", c.n, c.got);
}

// @SOURCES: ecl_geometry/src/lib/angle.cpp ecl_type_traits/src/lib/numeric_limits.cpp
// @BUILDS: release
// @FLAGS: -I/usr/include/eigen3
// @ASSUME: finite angles up to six turns (single operations) and two turns (chains), at every multiple of a twelfth of a half turn with its neighbours in the representation;; oracle: the exact sum or product in long double reduced modulo a full turn, with a tolerance of a few units in the last place of the operands; the interval is closed, and in single precision its ends are the single-precision pi
#include "util.hpp"
#include <cmath>
#include <ecl/geometry/angle.hpp>
namespace {
typedef long double LD; const LD P = 3.14159265358979323846264338327950288L;
template <class T> const std::vector<T>& grid(int half_turns) {
  static std::vector<T> g[20]; std::vector<T>& v = g[half_turns];
  if (v.empty()) for (int a = 0; a <= half_turns * 12; ++a) for (int s = 1; s >= -1; s -= 2) { T c = T(s * a * P / 12); for (int u = 0; u < 3; ++u) v.push_back(u == 0 ? c : u == 1 ? std::nextafter(c, T(100)) : std::nextafter(c, T(-100))); if (!a) break; }
  return v;
}
template <class T> LD tol(LD size) { return (size + 8) * 4 * std::numeric_limits<T>::epsilon(); }
template <class T> void check(T got, LD exact, LD size, const char* key, const char* what) {
  mc::step(); mc::validated(2); mc::trace("%s -> %.20Lg", what, (LD)got);
  MC_CHECK(std::fabs(got) <= T(P), "wrapped", "%s is %.20Lg, outside [-pi, pi]", what, (LD)got);
  LD d = std::fabs(std::remainder((LD)got - exact, 2 * P)); MC_CHECK(d <= tol<T>(size), key, "%s is %.20Lg, which is %Lg away in direction from %.20Lg", what, (LD)got, d, exact);
}
template <class T> using M2 = ecl::linear_algebra::Matrix<T, 2, 2>;
const char* ops[] = {"a + T", "a + Angle", "a += T", "a += Angle", "a - T", "a - Angle", "a -= T", "a -= Angle", "a * T", "a *= T", "a = T", "copy", "from its rotation matrix"};
template <class T> void apply(ecl::Angle<T>& a, int op, T b) {
  LD v = (T)a, w = b, ex = 0, sz; ecl::Angle<T> B(b); LD wb = (T)B; ecl::Angle<T> r(a); T before = a; bool in_place = false; char what[160]; snprintf(what, sizeof what, "%s with a = %.20Lg, operand %.20Lg", ops[op], v, w);
  switch (op) {
    case 0: r = a + b; ex = v + w; break; case 1: r = a + B; ex = v + wb; break; case 2: a += b; r = a; ex = v + w; in_place = true; break; case 3: a += B; r = a; ex = v + wb; in_place = true; break;
    case 4: r = a - b; ex = v - w; break; case 5: r = a - B; ex = v - wb; break; case 6: a -= b; r = a; ex = v - w; in_place = true; break; case 7: a -= B; r = a; ex = v - wb; in_place = true; break;
    case 8: r = a * b; ex = v * w; break; case 9: a *= b; r = a; ex = v * w; in_place = true; break; case 10: { const ecl::Angle<T>& k = (a = b); MC_CHECK((const void*)&k == (const void*)&a, "assign", "assignment returns something else"); r = a; ex = w; in_place = true; break; } case 11: { ecl::Angle<T> c; c = a; ecl::Angle<T> d(c); r = d; ex = v; MC_CHECK((T)c == before && (T)d == before, "copy", "a copy of %.20Lg differs", v); break; }
    case 12: { M2<T> m = a.rotationMatrix(); r = ecl::Angle<T>(m); ex = v; LD c = std::cos(v), s = std::sin(v), e = 4 * std::numeric_limits<T>::epsilon(); MC_CHECK(std::fabs(m(0, 0) - c) <= e && std::fabs(m(1, 1) - c) <= e && std::fabs(m(1, 0) - s) <= e && std::fabs(m(0, 1) + s) <= e, "matrix", "the rotation matrix of %.20Lg is [%Lg %Lg; %Lg %Lg]", v, (LD)m(0, 0), (LD)m(0, 1), (LD)m(1, 0), (LD)m(1, 1)); break; }
  }
  sz = op == 8 || op == 9 ? std::fabs(v * w) : std::fabs(v) + std::fabs(w); check<T>(r, ex, sz, "direction", what); MC_CHECK((T)B == ecl::wrap_angle((const T&)b), "operand", "the operand changed");
  if (!in_place) { MC_CHECK((T)a == before, "const", "%s changed its left operand", what); a = r; }
}
template <class T> void single() {
  const std::vector<T>& g = grid<T>(12); T b = g[mc::choose((int)g.size())]; if (std::fabs(b) < T(1e-30L)) b = 0; int k = mc::choose(13 + 6); const std::vector<T>& ga = grid<T>(1);
  if (k < 13) {
    if (k >= 10) { ecl::Angle<T> x(b); if (k > 10) apply<T>(x, k, 0); else apply<T>(x, k, b); return; }
    T a0 = ga[mc::choose((int)ga.size())]; ecl::Angle<T> a(a0); check<T>(a, a0, std::fabs(a0), "direction", "construction"); apply<T>(a, k, b); return;
  }
  char w[100]; snprintf(w, sizeof w, "%s of %.20Lg", k == 13 ? "wrap_angle(const)" : k == 14 ? "wrap_angle in place" : k == 15 ? "Angle" : k == 16 ? "Radians" : k == 17 ? "Degrees" : "degrees", (LD)b); LD s = std::fabs((LD)b);
  switch (k) {
    case 13: { const T c = b; T r = ecl::wrap_angle(c); check<T>(r, b, s, "direction", w); MC_CHECK(c == b, "const", "changed its argument"); if (std::fabs(b) <= T(3.14159L)) MC_CHECK(r == b, "identity", "wrapping the wrapped angle %.20Lg gives %.20Lg", (LD)b, (LD)r); break; }
    case 14: { T x = b; const T& r = ecl::wrap_angle(x); check<T>(x, b, s, "direction", w); MC_CHECK(&r == &x, "reference", "wrap_angle returns another object"); const T y = b; T cw = ecl::wrap_angle(y); MC_CHECK(cw == x, "overloads", "the two overloads disagree on %.20Lg: %.20Lg, %.20Lg", (LD)b, (LD)x, (LD)cw); break; }
    case 15: check<T>(ecl::Angle<T>(b), b, s, "direction", w); { ecl::Angle<T> z; MC_CHECK((T)z == 0, "default", "the default angle is not zero"); } break; case 16: check<T>(ecl::Angle<T>::Radians(b), b, s, "direction", w); break;
    case 17: { T d = T((LD)b * 180 / P); check<T>(ecl::Angle<T>::Degrees(d), (LD)d * P / 180, s, "direction", w); int whole = (int)std::lround((double)((LD)b * 180 / P)); T t = T(whole); check<T>(ecl::Angle<T>::Degrees(t), whole * P / 180, s, "direction", "a whole number of degrees");
      T r = ecl::degrees_to_radians(d); MC_CHECK(std::fabs((LD)r - (LD)d * P / 180) <= 4 * std::numeric_limits<T>::epsilon() * std::fabs(r), "degrees_to_radians", "%.20Lg degrees are %.20Lg", (LD)d, (LD)r); T e = ecl::radians_to_degrees(b); MC_CHECK(std::fabs((LD)e - (LD)b * 180 / P) <= 4 * std::numeric_limits<T>::epsilon() * std::fabs(e), "radians_to_degrees", "%.20Lg radians are %.20Lg degrees", (LD)b, (LD)e); break; }
    case 18: { ecl::Angle<T> a(b); LD e = (LD)(T)a * 180 / P; T r = a.degrees(); mc::step(); mc::validated(); MC_CHECK(std::fabs((LD)r - e) <= 4 * std::numeric_limits<T>::epsilon() * std::fabs(e), "degrees", "%s is %.20Lg", w, (LD)r); MC_CHECK(std::fabs(r) <= 180 * (1 + 4 * std::numeric_limits<T>::epsilon()), "degrees-range", "%s is %.20Lg", w, (LD)r); break; }
  }
}
template <class T> void chain() {   // arbitrary sequences: the value stays wrapped and tracks the exact one
  static const T vals[] = {T(P), T(-P), T(P / 2), T(-P / 3), T(2 * P), T(-3 * P), T(0.1L), std::nextafter(T(P), T(9)), std::nextafter(T(-P), T(-9))};
  ecl::Angle<T> a(mc::pick(vals)); int n = mc::tiered(2, 3); for (int i = 0; i < n; ++i) { int op = mc::choose(13); apply<T>(a, op, op >= 11 ? T(0) : mc::pick(vals)); }
}
}
MC_SCENARIO(single_double) { single<double>(); }
MC_SCENARIO(single_float) { single<float>(); }
MC_SCENARIO(chain_double) { chain<double>(); }
MC_SCENARIO(chain_float) { chain<float>(); }
MC_SCENARIO(far) {   // many turns: the reduction keeps the direction within the resolution of the argument
  static const int turns[] = {7, 50, 1000, 12345, 1000000}; int t = mc::pick(turns) * (mc::flip() ? -1 : 1), f = mc::range(-12, 12); LD x = (t * 2 + f / 12.0L) * P; mc::step();
  if (mc::flip()) { double d = (double)x; check<double>(ecl::wrap_angle((const double&)d), d, std::fabs(x), "direction", "wrap_angle far out"); } else if (std::abs(t) <= 12345) { float d = (float)x; check<float>(ecl::wrap_angle((const float&)d), d, std::fabs(x), "direction", "wrap_angle far out"); }
}

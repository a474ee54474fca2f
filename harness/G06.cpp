// @SOURCES: ecl_geometry/src/lib/angle.cpp ecl_geometry/src/lib/pose2d.cpp ecl_formatters/src/lib/*.cpp ecl_type_traits/src/lib/numeric_limits.cpp ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @FLAGS: -I/usr/include/eigen3
// @ASSUME: poses of a grid of positions up to 5 and headings at the multiples of a quarter turn with their neighbours and a few oblique ones; spatial poses from axis-aligned and oblique axes;; oracle: homogeneous matrices in long double, with a tolerance of a few units in the last place of the coordinates
#include "util.hpp"
#include <cmath>
#include <ecl/geometry/angle.hpp>
#include <ecl/geometry/legacy_pose2d.hpp>
#include <ecl/geometry/legacy_pose3d.hpp>
#include <ecl/geometry/pose2d.hpp>
#include <ecl/geometry/cartesian_point.hpp>
#include <ecl/geometry/homogeneous_point.hpp>
namespace {
typedef long double LD; const LD P = 3.14159265358979323846264338327950288L;
struct M { LD a[4][4]; M() { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) a[i][j] = i == j; } };
M operator*(const M& x, const M& y) { M r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { r.a[i][j] = 0; for (int k = 0; k < 4; ++k) r.a[i][j] += x.a[i][k] * y.a[k][j]; } return r; }
M inv(const M& x) { M r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = x.a[j][i]; for (int i = 0; i < 3; ++i) { r.a[i][3] = 0; for (int j = 0; j < 3; ++j) r.a[i][3] -= x.a[j][i] * x.a[j][3]; } return r; }
M planar(LD x, LD y, LD h) { M m; m.a[0][0] = m.a[1][1] = std::cos(h); m.a[0][1] = -std::sin(h); m.a[1][0] = std::sin(h); m.a[0][3] = x; m.a[1][3] = y; return m; }
template <class T> LD eps() { return std::numeric_limits<T>::epsilon(); }
template <class T> struct G { T x, y, h; };
template <class T> G<T> pose(int rich) {
  static const T xy[][2] = {{0, 0}, {1, 2}, {-3, T(0.5L)}, {T(2.5L), -5}}; static const std::vector<T> hs = [] { std::vector<T> v; for (int k : {0, 4, -1, 2, 3}) v.push_back(T(k * P / 4)); v.push_back(std::nextafter(T(P), T(4))); v.push_back(std::nextafter(T(-P), T(0))); v.push_back(T(-P)); v.push_back(T(1.234L)); v.push_back(T(-P / 2)); v.push_back(T(0.1L)); return v; }();
  const T* p = xy[mc::choose(rich > 1 ? 4 : 3)]; T h = hs[mc::choose(rich > 1 ? (int)hs.size() : rich ? 7 : 5)]; mc::trace("(%Lg, %Lg, %.20Lg)", (LD)p[0], (LD)p[1], (LD)h); return {p[0], p[1], h};
}
template <class T, ecl::Pose2DStorageType S> void same(const ecl::LegacyPose2D<T, S>& p, const M& m, const char* key, const char* what) {
  mc::validated(); LD t = 200 * eps<T>(); auto bad = [&](LD a, LD b, LD s) { return !(std::fabs(a - b) <= t * s); }; ecl::linear_algebra::Matrix<T, 2, 2> R = p.rotationMatrix(); LD hw = std::atan2(m.a[1][0], m.a[0][0]);
  bool no = bad(p.x(), m.a[0][3], 16) || bad(p.y(), m.a[1][3], 16) || bad(p.translation()[0], p.x(), 0) || bad(p.translation()[1], p.y(), 0) || bad(std::remainder((LD)(T)p.heading() - hw, 2 * P), 0, 2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) no = no || bad(R(i, j), m.a[i][j], 2);
  MC_CHECK(!no, key, "%s is (%.20Lg, %.20Lg, %.20Lg) instead of (%.20Lg, %.20Lg, %.20Lg)", what, (LD)p.x(), (LD)p.y(), (LD)(T)p.heading(), m.a[0][3], m.a[1][3], hw); MC_CHECK(std::fabs((T)p.heading()) <= T(P), "wrapped", "%s has the heading %.20Lg", what, (LD)(T)p.heading());
}
template <class T, ecl::Pose2DStorageType S> ecl::LegacyPose2D<T, S> build(const G<T>& g) {
  typedef ecl::LegacyPose2D<T, S> P2; typename P2::Translation t; t << g.x, g.y; ecl::linear_algebra::Matrix<T, 2, 2> R = ecl::Angle<T>(g.h).rotationMatrix(); static const ecl::LegacyPose2D<T, S> dirty(7, 8, ecl::Angle<T>(2));
  switch (mc::choose(8)) { case 0: return P2(g.x, g.y, ecl::Angle<T>(g.h)); case 1: return P2(ecl::Angle<T>(g.h), t); case 2: return P2(R, t); case 3: return P2(ecl::LegacyPose2D<T, ecl::RotationAngleStorage>(g.x, g.y, ecl::Angle<T>(g.h))); case 4: return P2(ecl::LegacyPose2D<T, ecl::RotationMatrixStorage>(g.x, g.y, ecl::Angle<T>(g.h)));
    case 5: { P2 p(dirty); p.setPose(g.x, g.y, ecl::Angle<T>(g.h)); return p; } case 6: { P2 p(dirty); p.x(g.x); p.y(g.y); if (mc::flip()) p.heading(ecl::Angle<T>(g.h)); else p.rotationMatrix(R); return p; } default: { P2 p(dirty); p.translation(g.x, g.y); if (mc::flip()) p.rotation(ecl::Angle<T>(g.h)); else p.rotation(R); return p; } }
}
template <class T, ecl::Pose2DStorageType S, ecl::Pose2DStorageType S2> void planar_group() {
  typedef ecl::LegacyPose2D<T, S> A; typedef ecl::LegacyPose2D<T, S2> B; G<T> ga = pose<T>(mc::tiered(1, 2)); M ma = planar(ga.x, ga.y, ga.h); int op = mc::choose(9); mc::step();
  if (op == 0) { A a = build<T, S>(ga); same(a, ma, "construct", "a constructed pose"); A c(a), d; d = a; same(c, ma, "copy", "a copied pose"); same(d, ma, "copy", "an assigned pose"); B e(a), f; f = a; same(e, ma, "convert", "a pose converted to the other storage"); same(f, ma, "convert", "a pose assigned across storages"); a.setIdentity(); same(a, M(), "identity", "after setIdentity"); same(A::Identity(), M(), "identity", "the identity"); same(A(), M(), "identity", "a default pose"); ecl::LegacyPose3D<T> t(c), u; t = c; u.translation(ecl::linear_algebra::Matrix<T, 3, 1>(9, 9, 9)); u = c; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) { LD x = j < 3 ? t.rotation()(i, j) : t.translation()[i], y = j < 3 ? u.rotation()(i, j) : u.translation()[i]; MC_CHECK(std::fabs(x - ma.a[i][j]) <= 100 * eps<T>() && std::fabs(y - ma.a[i][j]) <= 100 * eps<T>(), "spatial", "the spatial version of a planar pose has %Lg / %Lg at (%d,%d)", x, y, i, j); } return; }
  A a(ga.x, ga.y, ecl::Angle<T>(ga.h)); const A& ca = a;
  if (op == 1) { A i = ca.inverse(); same(i, inv(ma), "inverse", "the inverse"); same(ca * i, M(), "inverse", "a pose times its inverse"); same(i * ca, M(), "inverse", "an inverse times its pose"); same(i.inverse(), ma, "inverse", "the inverse of the inverse"); same(ca, ma, "const", "the pose after inversion"); return; }
  if (op == 2) { A p = ca * ca; a *= a; same(p, ma * ma, "self-product", "a pose times itself"); same(a, ma * ma, "self-product", "a pose multiplied by itself in place"); return; }
  if (op == 3) { A r = ca.relative(ca); same(r, M(), "relative", "a pose relative to itself"); a = a; same(a, ma, "self-assign", "a pose assigned to itself"); return; }
  G<T> gb = pose<T>(mc::tiered(1, 2)); B b(gb.x, gb.y, ecl::Angle<T>(gb.h)); M mb = planar(gb.x, gb.y, gb.h);
  switch (op) {
    case 4: same(ca * b, ma * mb, "product", "the product"); same(ca, ma, "const", "the left factor"); same(b, mb, "const", "the right factor"); break;
    case 5: { A& r = (a *= b); MC_CHECK(&r == &a, "in-place", "in-place product returns another object"); same(a, ma * mb, "in-place", "the in-place product"); same(b, mb, "const", "the right factor"); break; }
    case 6: { A r = ca.relative(b); same(r, inv(mb) * ma, "relative", "the relative pose"); same(b * r, ma, "relative", "the reference times the relative pose"); break; }
    case 7: same((ca * b).inverse(), inv(ma * mb), "inverse-of-product", "the inverse of a product"); same(b.inverse() * ca.inverse(), inv(ma * mb), "inverse-of-product", "the product of inverses"); break;
    case 8: { G<T> gc = pose<T>(0); A c(gc.x, gc.y, ecl::Angle<T>(gc.h)); M m = ma * mb * planar(gc.x, gc.y, gc.h); same((ca * b) * c, m, "associative", "(a b) c"); same(ca * (b * c), m, "associative", "a (b c)"); a *= b; a *= c; same(a, m, "associative", "a multiplied in place by b and c"); break; }
  }
}
}
MC_SCENARIO(planar_matrix) { if (mc::flip()) planar_group<double, ecl::RotationMatrixStorage, ecl::RotationMatrixStorage>(); else planar_group<double, ecl::RotationMatrixStorage, ecl::RotationAngleStorage>(); }
MC_SCENARIO(planar_angle) { if (mc::flip()) planar_group<double, ecl::RotationAngleStorage, ecl::RotationAngleStorage>(); else planar_group<double, ecl::RotationAngleStorage, ecl::RotationMatrixStorage>(); }
MC_SCENARIO(planar_float) { if (mc::flip()) planar_group<float, ecl::RotationAngleStorage, ecl::RotationMatrixStorage>(); else planar_group<float, ecl::RotationMatrixStorage, ecl::RotationAngleStorage>(); }
namespace {
template <class T> using V3 = ecl::linear_algebra::Matrix<T, 3, 1>;
template <class T> void xyh(const V3<T>& v, const M& m, const char* key, const char* what) { mc::validated(); LD hw = std::atan2(m.a[1][0], m.a[0][0]), t = 200 * eps<T>(); MC_CHECK(std::fabs(v[0] - m.a[0][3]) <= 16 * t && std::fabs(v[1] - m.a[1][3]) <= 16 * t && std::fabs(std::remainder((LD)v[2] - hw, 2 * P)) <= 2 * t, key, "%s is (%.20Lg, %.20Lg, %.20Lg) instead of (%Lg, %Lg, %Lg)", what, (LD)v[0], (LD)v[1], (LD)v[2], m.a[0][3], m.a[1][3], hw); }
template <class T> V3<T> vec(const ecl::Pose2D<T>& p) { return V3<T>(p.x(), p.y(), p.heading()); }
template <class T> void simple_pose() {
  G<T> ga = pose<T>(2); V3<T> a(ga.x, ga.y, ga.h); M ma = planar(ga.x, ga.y, ga.h); int op = mc::choose(5); mc::step();
  if (op == 0) { ecl::Pose2D<T> p(ga.x, ga.y, ga.h), q(a), d; MC_CHECK(vec(p) == a && vec(q) == a, "construct", "a constructed pose differs from its elements"); MC_CHECK(vec(d) == V3<T>::Zero(), "identity", "the default pose is not the identity"); auto R = p.rotationMatrix(); auto t = p.translation(); for (int i = 0; i < 2; ++i) { MC_CHECK(t[i] == a[i], "translation", "translation() differs"); for (int j = 0; j < 2; ++j) MC_CHECK(std::fabs(R(i, j) - ma.a[i][j]) <= 8 * eps<T>(), "rotation", "rotationMatrix() differs"); } return; }
  if (op == 1) { V3<T> e = a; ecl::extend_pose(e, e); xyh<T>(e, ma * ma, "self-extend", "a pose extended by itself"); ecl::Pose2D<T> p(a); p *= p; xyh<T>(vec(p), ma * ma, "self-product", "a pose multiplied by itself in place"); ecl::Pose2D<T> q(a); xyh<T>(vec(q * q), ma * ma, "self-product", "a pose times itself"); V3<T> r = ecl::concatenate_poses(a, a); xyh<T>(r, ma * ma, "self-product", "a pose concatenated with itself"); MC_CHECK(std::fabs(r[2]) <= T(P), "wrapped", "the heading is %.20Lg", (LD)r[2]); return; }
  G<T> gb = pose<T>(2); V3<T> b(gb.x, gb.y, gb.h); M m = ma * planar(gb.x, gb.y, gb.h); const V3<T> a0 = a, b0 = b; ecl::Pose2D<T> pa(a), pb(b); V3<T> r;
  if (op == 2) r = ecl::concatenate_poses(a, b); else if (op == 3) { r = a; ecl::extend_pose(r, b); } else { ecl::Pose2D<T> prod = pa * pb; MC_CHECK(vec(pa) == a0, "const", "the left factor changed"); r = vec(prod); ecl::Pose2D<T>& ref = (pa *= pb); MC_CHECK(&ref == &pa && vec(pa) == r, "in-place", "the in-place product differs from the binary one"); }
  xyh<T>(r, m, "product", "the composed pose"); MC_CHECK(std::fabs(r[2]) <= T(P), "wrapped", "the heading of a composed pose is %.20Lg", (LD)r[2]); MC_CHECK(a == a0 && b == b0, "const", "an operand changed");
}
}
MC_SCENARIO(simple_double) { simple_pose<double>(); }
MC_SCENARIO(simple_float) { simple_pose<float>(); }
namespace {
template <class T> struct S3 { ecl::linear_algebra::Matrix<T, 3, 3> R; V3<T> t; M m; V3<T> axis; T angle; };
template <class T> S3<T> spatial(int rich) {
  static const LD ax[][3] = {{0, 0, 1}, {1, 0, 0}, {0.6L, 0, 0.8L}, {0, -1, 0}, {0.48L, 0.6L, 0.64L}}; static const LD an[] = {0, P / 2, P, -1.1L, P / 4}; static const LD ts[][3] = {{0, 0, 0}, {1, 2, 3}, {-4, 0.5L, 1}}; S3<T> s; const LD* u = ax[mc::choose(rich)]; LD h = (T)an[mc::choose(rich)]; const LD* t = ts[mc::choose(3)]; LD c = std::cos(h), v = 1 - c, w = std::sin(h);
  LD R[3][3] = {{c + u[0] * u[0] * v, u[0] * u[1] * v - u[2] * w, u[0] * u[2] * v + u[1] * w}, {u[1] * u[0] * v + u[2] * w, c + u[1] * u[1] * v, u[1] * u[2] * v - u[0] * w}, {u[2] * u[0] * v - u[1] * w, u[2] * u[1] * v + u[0] * w, c + u[2] * u[2] * v}}; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { s.R(i, j) = T(R[i][j]); s.m.a[i][j] = R[i][j]; } s.t[i] = T(t[i]); s.m.a[i][3] = t[i]; s.axis[i] = T(u[i]); } s.angle = T(h); mc::trace("axis (%Lg,%Lg,%Lg) angle %Lg translation (%Lg,%Lg,%Lg)", u[0], u[1], u[2], h, t[0], t[1], t[2]); return s;
}
template <class T> void same3(const ecl::LegacyPose3D<T>& p, const M& m, const char* key, const char* what) { mc::validated(); auto R = p.rotationMatrix(); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) MC_CHECK(std::fabs(R(i, j) - m.a[i][j]) <= 200 * eps<T>() && R(i, j) == p.rotation()(i, j), key, "%s: rotation entry (%d,%d) is %.20Lg instead of %.20Lg", what, i, j, (LD)R(i, j), m.a[i][j]); MC_CHECK(std::fabs(p.translation()[i] - m.a[i][3]) <= 2000 * eps<T>(), key, "%s: translation entry %d is %.20Lg instead of %.20Lg", what, i, (LD)p.translation()[i], m.a[i][3]); } }
template <class T> void spatial_group() {
  typedef ecl::LegacyPose3D<T> A; S3<T> s = spatial<T>(mc::tiered(4, 5)); int op = mc::choose(7); mc::step();
  if (op == 0) { same3(A(), M(), "identity", "a default pose"); same3(A(s.R, s.t), s.m, "construct", "a pose from a matrix"); same3(A(ecl::linear_algebra::AngleAxis<T>(s.angle, s.axis), s.t), s.m, "angle-axis", "a pose from an angle axis"); same3(A(ecl::linear_algebra::Quaternion<T>(ecl::linear_algebra::AngleAxis<T>(s.angle, s.axis)), s.t), s.m, "quaternion", "a pose from a quaternion"); A a(s.R, s.t), b(a), c; c = a; same3(b, s.m, "copy", "a copied pose"); same3(c, s.m, "copy", "an assigned pose"); A d; d.rotation(s.R); d.translation(s.t); same3(d, s.m, "set", "a pose set part by part"); d = d; same3(d, s.m, "copy", "a pose assigned to itself"); return; }
  A a(s.R, s.t); const A& ca = a;
  if (op == 1) { A i = ca.inverse(); same3(i, inv(s.m), "inverse", "the inverse"); same3(ca * i, M(), "inverse", "a pose times its inverse"); same3(i * ca, M(), "inverse", "an inverse times its pose"); same3(ca, s.m, "const", "the pose after inversion"); return; }
  if (op == 2) { A p = ca * ca; same3(p, s.m * s.m, "self-product", "a pose times itself"); same3(ca.relative(ca), M(), "relative", "a pose relative to itself"); a *= a; same3(a, s.m * s.m, "self-product", "a pose multiplied by itself in place"); return; }
  S3<T> q = spatial<T>(mc::tiered(4, 5)); A b(q.R, q.t);
  switch (op) { case 3: same3(ca * b, s.m * q.m, "product", "the product"); same3(ca, s.m, "const", "the left factor"); break; case 4: { A& r = (a *= b); MC_CHECK(&r == &a, "in-place", "in-place product returns another object"); same3(a, s.m * q.m, "in-place", "the in-place product"); same3(b, q.m, "const", "the right factor"); break; } case 5: { A r = ca.relative(b); same3(r, inv(q.m) * s.m, "relative", "the relative pose"); same3(b * r, s.m, "relative", "the reference times the relative pose"); break; } case 6: { S3<T> z = spatial<T>(3); A c(z.R, z.t); same3((ca * b) * c, s.m * q.m * z.m, "associative", "(a b) c"); same3(ca * (b * c), s.m * q.m * z.m, "associative", "a (b c)"); break; } }
}
}
MC_SCENARIO(spatial_double) { spatial_group<double>(); }
MC_SCENARIO(spatial_float) { spatial_group<float>(); }
namespace {
const double cs[] = {0, 1, -2, 3.5, -4, 0.25};
template <class T> void points2() {
  T x = (T)mc::pick(cs), y = (T)mc::pick(cs); typedef ecl::CartesianPoint<T, 2> Pt; Pt p(x, y); const Pt& cp = p; ecl::linear_algebra::Matrix<T, 2, 1> v; v << x, y; int op = mc::choose(6); LD t = 8 * eps<T>(); mc::step(); mc::validated(4); auto is = [&](const Pt& q, LD a, LD b, const char* key) { MC_CHECK(std::fabs(q.x() - a) <= t * (16 + std::fabs(a)) && std::fabs(q.y() - b) <= t * (16 + std::fabs(b)), key, "%s of (%Lg, %Lg) gives (%.20Lg, %.20Lg) instead of (%Lg, %Lg)", key, (LD)x, (LD)y, (LD)q.x(), (LD)q.y(), a, b); };
  if (op == 0) { Pt q(v), r, s(p), u(T(3)), w; r << x, y; w = p; q[0] = q[0]; for (const Pt* k : {(const Pt*)&p, (const Pt*)&q, (const Pt*)&r, (const Pt*)&s, (const Pt*)&w}) { MC_CHECK(k->x() == x && k->y() == y && k->positionVector() == v && (*k)[0] == x && (*k)[1] == y && *k == cp && !(*k != cp), "construct", "a constructed point differs from its coordinates"); } MC_CHECK(u.x() == 3 && u.y() == 3 && Pt().x() == 0 && Pt().y() == 0 && p.size() == 2, "construct", "the constant point is wrong"); q.x(T(9)); q.y(T(8)); MC_CHECK(q.x() == 9 && q.y() == 8, "set", "setters do not set"); if (h::checked) for (int k = 0; k < 2; ++k) { int o = h::outcome([&] { if (k) (void)cp[2]; else (void)q[2]; }); MC_CHECK(o == ecl::OutOfRangeError, "index", "element 2 of a planar point: %s", h::oname(o).c_str()); } std::ostringstream o; o << cp; std::ostringstream e; e << "[ " << x << " " << y << " ]"; MC_CHECK(o.str() == e.str(), "printed", "printed as %s", o.str().c_str()); return; }
  if (op == 1) { LD n = std::sqrt((LD)x * x + (LD)y * y); MC_CHECK(std::fabs(p.Norm() - n) <= t * (1 + n), "norm", "the norm of (%Lg, %Lg) is %g", (LD)x, (LD)y, p.Norm()); if (n > 0) MC_CHECK(std::fabs(p.get_angle() - std::atan2((LD)y, (LD)x)) <= 4 * t, "angle", "the angle of (%Lg, %Lg) is %g", (LD)x, (LD)y, p.get_angle()); Pt q(p); T m = q.Normalize(); MC_CHECK(std::fabs(m - n) <= t * (1 + n), "normalize", "Normalize returns %Lg", (LD)m); is(q, n > 0 ? x / n : 1, n > 0 ? y / n : 0, "normalize"); return; }
  if (op == 2) { static const LD as[] = {0, P / 2, P, -P / 3, 7}; LD a = (double)mc::pick(as); Pt q(p); q.rotate((double)a); is(q, x * std::cos(a) - y * std::sin(a), x * std::sin(a) + y * std::cos(a), "rotate"); return; }
  if (op == 3) { double d = mc::pick(cs); is(cp * d, x * d, y * d, "scale"); return; }
  T x2 = (T)mc::pick(cs), y2 = (T)mc::pick(cs); Pt q(x2, y2); const Pt& cq = q; MC_CHECK((cp == cq) == (x == x2 && y == y2) && (cp != cq) == !(x == x2 && y == y2), "equal", "comparison of (%Lg, %Lg) with (%Lg, %Lg)", (LD)x, (LD)y, (LD)x2, (LD)y2);
  if (op == 4) { is(cp + cq, x + x2, y + y2, "sum"); is(cp - cq, x - x2, y - y2, "difference"); LD dist = std::sqrt(((LD)x - x2) * ((LD)x - x2) + ((LD)y - y2) * ((LD)y - y2)); MC_CHECK(std::fabs(p.distance(cq) - dist) <= t * (16 + dist), "distance", "the distance of (%Lg, %Lg) and (%Lg, %Lg) is %Lg", (LD)x, (LD)y, (LD)x2, (LD)y2, (LD)p.distance(cq)); is(cp, x, y, "const"); is(cq, x2, y2, "const"); }
  else { Pt r(p); r += cq; is(r, x + x2, y + y2, "in-place sum"); Pt s(p); s += s; is(s, 2 * x, 2 * y, "sum with itself"); MC_CHECK(s.distance(s) == 0, "distance", "distance to itself"); s = s; is(s, 2 * x, 2 * y, "self-assign"); }
}
template <class T> void points3() {
  T x = (T)mc::pick(cs), y = (T)mc::pick(cs), z = (T)mc::pick(cs); typedef ecl::CartesianPoint<T, 3> Pt; V3<T> v(x, y, z); Pt a(x, y, z), b(v), c, d(T(2)); c << x, y, z; Pt e(a); mc::step(); mc::validated(6); for (const Pt* k : {&a, &b, &c, &e}) MC_CHECK(k->x() == x && k->y() == y && k->z() == z && k->positionVector() == v, "construct", "a spatial point differs from its coordinates"); MC_CHECK(d.x() == 2 && d.y() == 2 && d.z() == 2 && Pt().z() == 0 && d.size() == 3, "construct", "the constant point is wrong"); d.x(x); d.y(y); d.z(z); MC_CHECK(d.positionVector() == v && d.x() == x && d.y() == y && d.z() == z, "set", "setters do not set"); std::ostringstream o, w; o << a; w << "[ " << x << " " << y << " " << z << " ]"; MC_CHECK(o.str() == w.str(), "printed", "printed as %s", o.str().c_str());
}
template <class T> void homogeneous() {
  T x = (T)mc::pick(cs), y = (T)mc::pick(cs), z = (T)mc::pick(cs); typedef ecl::HomogeneousPoint<T> Pt; typedef ecl::linear_algebra::Matrix<T, 4, 1> V4; V3<T> v(x, y, z); V4 w(x, y, z, 1); Pt a(x, y, z), b(v), c(w), d; d << x, y, z, 1; Pt e(a), f; f = a; mc::step(); mc::validated(6); for (const Pt* k : {&a, &b, &c, &d, &e, &f}) MC_CHECK(k->x() == x && k->y() == y && k->z() == z && k->positionVector() == w, "homogeneous", "a homogeneous point differs from its coordinates");
  Pt u(T(3)), zero; MC_CHECK(u.positionVector() == V4(3, 3, 3, 1) && zero.positionVector() == V4(0, 0, 0, 1), "homogeneous", "the constant homogeneous point is wrong"); u.x(x); u.y(y); u.z(z); MC_CHECK(u.positionVector() == w && u.x() == x && u.y() == y && u.z() == z, "set", "setters do not set"); ecl::CartesianPoint<T, 3> p(V3<T>(a.positionVector().template head<3>())); Pt back(p.positionVector()); MC_CHECK(back.positionVector() == w, "round-trip", "converting to cartesian and back changes the point");
  if (h::checked) for (T s : {T(0), T(2), T(-1), T(1.0001L)}) { int o = h::outcome([&] { Pt q(V4(x, y, z, s)); }); MC_CHECK(o == ecl::InvalidInputError, "scale", "a homogeneous vector with last element %Lg: %s", (LD)s, h::oname(o).c_str()); } std::ostringstream o, r; o << a; r << "[ " << x << " " << y << " " << z << " ]"; MC_CHECK(o.str() == r.str(), "printed", "printed as %s", o.str().c_str());
}
}
MC_SCENARIO(cartesian) { switch (mc::choose(5)) { case 0: points2<double>(); break; case 1: points2<float>(); break; case 2: points3<double>(); break; case 3: points3<float>(); break; case 4: points3<int>(); break; } }
MC_SCENARIO(homogeneous) { if (mc::flip()) homogeneous<double>(); else homogeneous<float>(); }
MC_SCENARIO(generic_point) { ecl::CartesianPoint<double, 5> p(2.5), q; const ecl::CartesianPoint<double, 5>& c = p; mc::step(); for (unsigned i = 0; i < 5; ++i) { mc::validated(); MC_CHECK(c[i] == 2.5 && q[i] == 0, "construct", "element %u is %g / %g", i, c[i], q[i]); } q << 1, 2, 3, 4, 5; for (unsigned i = 0; i < 5; ++i) MC_CHECK(q[i] == i + 1, "comma", "element %u is %g", i, q[i]); if (!h::checked) return; int k = mc::range(5, 7); int o = h::outcome([&] { if (mc::flip()) (void)c[k]; else (void)q[k]; }); MC_CHECK(o == ecl::OutOfRangeError, "index", "element %d of five: %s", k, h::oname(o).c_str()); }

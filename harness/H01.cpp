// @SOURCES: ecl_linear_algebra/src/lib/*.cpp ecl_formatters/src/lib/*.cpp ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @FLAGS: -I/usr/include/eigen3 
// @ASSUME: poses from a grid of rotations (about the axes and a diagonal, up to 3 radians, and products of these) and translations;; the Sophus library itself is not installed: a textbook implementation of its groups stands in for it;; relative rotations of exactly half a turn are excluded, single precision tolerances;; oracle: homogeneous matrices in double precision
#include "util.hpp"
#include <cmath>
#include <ecl/linear_algebra.hpp>
namespace {
typedef Sophus::SE3f S; typedef Eigen::Matrix4d M4; typedef Eigen::Vector3f V3;
M4 mat(const S& s) { M4 m = M4::Identity(); m.topLeftCorner<3, 3>() = s.unit_quaternion().cast<double>().toRotationMatrix(); m.topRightCorner<3, 1>() = s.translation().cast<double>(); return m; }
double off(const M4& a, const M4& b) { return (a - b).cwiseAbs().maxCoeff(); }
M4 inv(const M4& m) { M4 r = M4::Identity(); r.topLeftCorner<3, 3>() = m.topLeftCorner<3, 3>().transpose(); r.topRightCorner<3, 1>() = -m.topLeftCorner<3, 3>().transpose() * m.topRightCorner<3, 1>(); return r; }
double angle(const M4& m) { double c = (m(0, 0) + m(1, 1) + m(2, 2) - 1) / 2; double s = 0.5 * std::sqrt((m(2, 1) - m(1, 2)) * (m(2, 1) - m(1, 2)) + (m(0, 2) - m(2, 0)) * (m(0, 2) - m(2, 0)) + (m(1, 0) - m(0, 1)) * (m(1, 0) - m(0, 1))); return std::atan2(s, c); }
const double angs[] = {0, 0.4, -1.2, 1.5707963, 3.0, -2.5, 0.01}; const double shifts[][3] = {{0, 0, 0}, {1, 0, 0}, {0, -2, 0}, {3, 1, 0.5}, {-10, 4, -7}};
Eigen::Quaternionf rot(int axis, double a) { V3 v = axis == 0 ? V3::UnitX() : axis == 1 ? V3::UnitY() : axis == 2 ? V3::UnitZ() : V3(1, 1, 1).normalized(); return Eigen::Quaternionf(Eigen::AngleAxisf((float)a, v)); }
S pose(int axes) { Eigen::Quaternionf q = rot(mc::choose(axes), mc::pick(angs)); const double* t = mc::pick(shifts); return S(q, V3(t[0], t[1], t[2])); }
S planar() { const double* t = mc::pick(shifts); return S(rot(2, mc::pick(angs)), V3(t[0], t[1], 0)); }
std::string str(const S& s) { char b[200]; auto q = s.unit_quaternion(); auto t = s.translation(); snprintf(b, sizeof b, "(%g %g %g; %g %g %g %g)", t.x(), t.y(), t.z(), q.w(), q.x(), q.y(), q.z()); return b; }
const double ts[] = {0, 0.1, 0.25, 0.5, 0.75, 0.9, 1};
// What holds for every interpolation between two transforms; rel is the motion from a to b
template <class I> void common(I& in, const S& a, const S& b, const char* what, bool subgroup) {
  M4 A = mat(a), B = mat(b); double tol = 2e-4 * (1 + A.cwiseAbs().maxCoeff() + B.cwiseAbs().maxCoeff()); std::string s = str(a) + " and " + str(b); mc::step(); mc::validated(3); MC_CHECK(off(mat(in(0)), A) <= tol, "start", "%s interpolation between %s starts at %s", what, s.c_str(), str(in(0)).c_str()); MC_CHECK(off(mat(in(1)), B) <= tol, "end", "%s interpolation between %s ends at %s", what, s.c_str(), str(in(1)).c_str());
  double full = angle(B * inv(A)), last = -1e-3; for (double t : ts) { double r = angle(mat(in(t)) * inv(A)); MC_CHECK(std::fabs(r - t * full) <= 2e-3, "rotation", "%s interpolation between %s has turned by %g instead of %g at %g", what, s.c_str(), r, t * full, t); MC_CHECK(r >= last - 1e-3, "monotonic", "%s interpolation between %s turns back at %g", what, s.c_str(), t); last = r;
    if (subgroup) { M4 X = mat(in(t)) * inv(A), H = mat(in(t / 2)) * inv(A); MC_CHECK(off(H * H, X) <= tol * 4, "uniform", "%s interpolation between %s: half of the motion to %g, done twice, is not that motion", what, s.c_str(), t); M4 Y = mat(in(1 - t)) * inv(A); MC_CHECK(off(Y * X, B * inv(A)) <= tol * 4, "complement", "%s interpolation between %s: the motions to %g and %g do not add up", what, s.c_str(), t, 1 - t); } }
}
void usual(const S& a, const S& b) { if (std::fabs(angle(mat(b) * inv(mat(a))) - M_PI) < 1e-2) mc::skip(); mc::trace("%s %s", str(a).c_str(), str(b).c_str()); }
}
MC_SCENARIO(general_interpolation) { S a = pose(4), b = pose(4); usual(a, b); Sophus::Interpolator<S> in(a, b); common(in, a, b, "the", true); }
MC_SCENARIO(sliding_interpolation) {
  S a = pose(4), b = pose(4); usual(a, b); Sophus::SlidingInterpolator in(a, b); common(in, a, b, "sliding", false); Eigen::Vector3d pa = inv(mat(a)).topRightCorner<3, 1>(), pb = inv(mat(b)).topRightCorner<3, 1>();
  for (double t : ts) { Eigen::Vector3d p = inv(mat(in(t))).topRightCorner<3, 1>(), w = pa + t * (pb - pa); MC_CHECK((p - w).cwiseAbs().maxCoeff() <= 2e-4 * (1 + pa.norm() + pb.norm()), "straight", "sliding between %s and %s leaves the straight line at %g", str(a).c_str(), str(b).c_str(), t); }
}
MC_SCENARIO(planar_interpolation) {
  S base = pose(4), ra = planar(); S a = base, b = ra * base; usual(a, b); Sophus::PlanarInterpolator in(a, b); common(in, a, b, "planar", true); for (double t : ts) { M4 X = mat(in(t)) * inv(mat(a)); MC_CHECK(std::fabs(X(2, 3)) <= 5e-4 * 10 && std::fabs(X(2, 2) - 1) < 1e-3, "plane", "planar interpolation between %s and %s leaves the plane at %g", str(a).c_str(), str(b).c_str(), t); }
}
MC_SCENARIO(not_planar) { if (!h::checked) mc::skip(); S base = pose(4), ra = planar(); static const double zs[] = {0.001, -0.5, 20}; ra.translation().z() = mc::pick(zs); S b = ra * base; int r = h::outcome([&] { Sophus::PlanarInterpolator in(base, b); }); mc::step(); mc::validated(); mc::trace("%s %s", str(base).c_str(), str(b).c_str()); MC_CHECK(r == ecl::InvalidArgError, "outcome", "planar interpolation between frames in different planes: %s", h::oname(r).c_str()); }
MC_SCENARIO(planar_poses) {
  static const float xs[] = {0, 1.5f, -20}; V3 p(mc::pick(xs), mc::pick(xs), (float)(mc::range(-31, 31) * 0.1)); bool conv = mc::flip(); S s = conv ? ecl::Converter<S, V3>()(p) : Sophus::toPose3D(p); V3 q = conv ? ecl::Converter<V3, S>()(s) : Sophus::toPose2D(s); mc::step(); mc::validated(3); mc::trace("%g %g %g", p.x(), p.y(), p.z()); M4 m = M4::Identity(); m(0, 0) = m(1, 1) = std::cos(p.z()); m(1, 0) = std::sin(p.z()); m(0, 1) = -m(1, 0); m(0, 3) = p.x(); m(1, 3) = p.y();
  MC_CHECK(off(mat(s), m) <= 1e-5, "matrix", "the planar pose (%g, %g, %g) becomes %s", p.x(), p.y(), p.z(), str(s).c_str()); MC_CHECK(q.x() == p.x() && q.y() == p.y() && std::fabs(std::remainder(q.z() - p.z(), 2 * M_PI)) <= 1e-5, "round trip", "the planar pose (%g, %g, %g) comes back as (%g, %g, %g)", p.x(), p.y(), p.z(), q.x(), q.y(), q.z());
}
MC_SCENARIO(projection) { S s = pose(4) * S(rot(mc::choose(4), mc::pick(angs)), V3::Zero()); M4 m = mat(s); mc::step(); mc::validated(2); mc::trace("%s", str(s).c_str()); V3 q = Sophus::toPose2D(s); if (std::fabs(m(0, 0)) + std::fabs(m(1, 0)) < 1e-3) mc::skip(); double yaw = std::atan2(m(1, 0), m(0, 0)); MC_CHECK(q.x() == s.translation().x() && q.y() == s.translation().y() && std::fabs(std::remainder(q.z() - yaw, 2 * M_PI)) <= 1e-3, "projection", "%s projects to (%g, %g, %g) instead of heading %g", str(s).c_str(), q.x(), q.y(), q.z(), yaw); }
MC_SCENARIO(between_points) { static const float xs[] = {0, 1, -2.5f, 7}; float a = mc::pick(xs), b = mc::pick(xs), c = mc::pick(xs), d = mc::pick(xs); Sophus::SE3fPtr p = Sophus::points2DToSophusTransform(a, b, c, d); M4 m = mat(*p); double l = std::hypot(c - a, d - b); mc::step(); mc::validated(); mc::trace("%g %g %g %g", a, b, c, d); MC_CHECK(p->translation().x() == a && p->translation().y() == b && p->translation().z() == 0, "origin", "the transform from (%g, %g) to (%g, %g) sits at %s", a, b, c, d, str(*p).c_str()); if (l > 0) { Eigen::Vector4d x = m * Eigen::Vector4d(l, 0, 0, 1); MC_CHECK((x - Eigen::Vector4d(c, d, 0, 1)).norm() <= 1e-5 * (1 + l), "direction", "the x axis of the transform from (%g, %g) to (%g, %g) points to (%g, %g, %g)", a, b, c, d, x(0), x(1), x(2)); } }
MC_SCENARIO(planar_quaternions) { float th = (float)(mc::range(-64, 64) * 0.1); Sophus::PlanarRotation2Quaternion f; Eigen::Quaternionf q = f(th), r(0, 9, 9, 9); f.convert(th, r); mc::step(); mc::validated(2); mc::trace("%g", th); auto good = [&](const Eigen::Quaternionf& x) { Eigen::Matrix3d m = x.cast<double>().toRotationMatrix(); return std::fabs(x.norm() - 1) < 1e-5 && std::fabs(m(0, 0) - std::cos(th)) < 1e-5 && std::fabs(m(1, 0) - std::sin(th)) < 1e-5 && std::fabs(m(2, 2) - 1) < 1e-5; }; MC_CHECK(good(q), "operator", "the rotation by %g becomes (%g; %g %g %g)", th, q.w(), q.x(), q.y(), q.z()); MC_CHECK(good(r), "convert", "the rotation by %g becomes (%g; %g %g %g)", th, r.w(), r.x(), r.y(), r.z()); }
MC_SCENARIO(formatting) {
  static const int ws[] = {-1, 6, 9, 12}, ps[] = {0, 2, 5}; struct F { int w = -1; unsigned p = 2; } m; Sophus::SE3fFormatter* f; bool ctor = mc::flip(); if (ctor) { m.w = mc::pick(ws); m.p = mc::pick(ps); f = new Sophus::SE3fFormatter(m.w, m.p); } else f = new Sophus::SE3fFormatter; std::unique_ptr<Sophus::SE3fFormatter> own(f);
  static const double t0[][3] = {{0, 0, 0}, {1.25, -3, 100.5}}; S poses[2] = {S(rot(2, 0.5), V3(1.25, -3, 100.5)), S(rot(0, -1), V3(0, 0.004f, -7))}; (void)t0;
  auto text = [](const S& s, int w, unsigned p) { auto q = s.unit_quaternion(); auto t = s.translation(); auto n = [&](float x) { char b[64]; if (w > 0) snprintf(b, sizeof b, "%*.*f", w, (int)p, (double)x); else snprintf(b, sizeof b, "%.*f", (int)p, (double)x); return std::string(b); }; return "[x:" + n(t.x()) + "  y:" + n(t.y()) + "  z:" + n(t.z()) + "][x:" + n(q.x()) + "  y:" + n(q.y()) + "  z:" + n(q.z()) + "  w:" + n(q.w()) + "  ]"; };
  bool ready = false; for (int k = 0; k < mc::tiered(2, 3); ++k) {
    int op = mc::choose(h::checked ? 5 : 4); S& s = poses[mc::choose(2)]; std::ostringstream o; mc::step(); mc::validated(2); std::string want;
    if (op == 0) { m.p = mc::pick(ps); f->precision(m.p); mc::trace("precision %u", m.p); } else if (op == 1) { m.w = mc::pick(ws); f->width(m.w); mc::trace("width %d", m.w); } else if (op == 2) { mc::trace("print"); o << (*f)(s); want = text(s, m.w, m.p); } else if (op == 3) { int w = mc::pick(ws); unsigned p = mc::pick(ps); mc::trace("print with %d %u", w, p); o << (*f)(s, w, p); want = text(s, w, p); }
    else { mc::trace("print nothing"); int r = h::outcome([&] { o << *f; }); MC_CHECK(r == ecl::UsageError, "no data", "printing without data: %s", h::oname(r).c_str()); }
    MC_CHECK(o.str() == want, "text", "'%s' is printed instead of '%s'", o.str().c_str(), want.c_str()); MC_CHECK(f->precision() == m.p && f->width() == m.w, "settings", "width %d and precision %u instead of %d and %u", f->width(), f->precision(), m.w, m.p); (void)ready;
  }
}

// A pose inserted into an output stream can be read back: the translation, then the quaternion.
MC_SCENARIO(printing) { S s = pose(4); std::ostringstream o; o.precision(9); o << s; mc::step(); mc::validated(); mc::trace("%s", o.str().c_str()); std::istringstream i(o.str()); double v[8]; int n = 0; while (n < 8 && i >> v[n]) ++n; auto q = s.unit_quaternion(); auto t = s.translation(); const double want[] = {t.x(), t.y(), t.z(), q.x(), q.y(), q.z(), q.w()}; MC_CHECK(n == 7, "numbers", "'%s' holds %d numbers", o.str().c_str(), n); for (int k = 0; k < 7; ++k) MC_CHECK(std::fabs(v[k] - want[k]) < 1e-5, "numbers", "number %d of '%s' is not %g", k, o.str().c_str(), want[k]); }

// @SOURCES: ecl_mobile_robot/src/lib/*.cpp ecl_geometry/src/lib/angle.cpp ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @FLAGS: -I/usr/include/eigen3
// @ASSUME: wheel radii and axis lengths from 1 cm to 20 m, wheel increments and velocities from a signed alphabet with many turns, poses on a grid with headings beyond one turn;; oracle: the rigid body rolling without slip in long double, headings compared modulo one turn and required to lie within half a turn
#include "util.hpp"
#include <cmath>
#include <ecl/linear_algebra.hpp>
#include <ecl/mobile_robot/kinematics/differential_drive.hpp>
namespace {
typedef long double LD; typedef ecl::mobile_robot::DifferentialDriveKinematics K; const LD pi = 3.14159265358979323846264338327950288L;
const double lengths[] = {0.23, 1, 0.01, 5, 20}, radii[] = {0.035, 1, 0.01, 0.5, 4}, turns[] = {0, 0.1, -0.1, 1, -1, 2.5, 3.141592653589793, -7, 100, -1e-9, 1e-6, -40.25};
bool heading(double got, LD want, LD slack) { LD d = std::remainder(got - want, 2 * pi); return std::fabs(d) <= slack && std::fabs((LD)got) <= pi * (1 + 1e-12L); }
bool close(LD a, LD b, LD scale) { return std::fabs(a - b) <= 1e-13L * scale; }
}
MC_SCENARIO(wheels_to_pose) {
  double L = mc::pick(lengths), r = mc::pick(radii), l = mc::pick(turns), q = mc::pick(turns); const K k(L, r); auto p = k.poseUpdateFromWheelDifferential(l, q); mc::step(); mc::validated(5); mc::trace("%g %g %g %g", L, r, l, q); LD ds = (LD)r * ((LD)l + q) / 2, w = (LD)r * ((LD)q - l) / L, mag = (LD)r * (std::fabs((LD)l) + std::fabs((LD)q));
  MC_CHECK(close(p[0], ds, mag) && p[1] == 0, "translation", "axis %g, wheel %g, turning the wheels by %g and %g moves the base by (%g, %g) instead of (%Lg, 0)", L, r, l, q, p[0], p[1], ds); MC_CHECK(heading(p[2], w, 1e-13L * (mag / L + 1)), "rotation", "axis %g, wheel %g, turning the wheels by %g and %g turns the base by %.12g instead of %.12Lg", L, r, l, q, p[2], w);
  auto b = k.poseUpdateFromBaseDifferential((double)ds, (double)w); MC_CHECK(close(b[0], ds, mag) && b[1] == 0 && heading(b[2], w, 1e-13L * (mag / L + 1)), "agree", "axis %g, wheel %g, wheels %g and %g: the base and wheel updates differ", L, r, l, q);
  auto n = k.poseUpdateFromWheelDifferential(-l, -q), s = k.poseUpdateFromWheelDifferential(q, l); MC_CHECK(n[0] == -p[0] && heading(n[2], -w, 1e-13L * (mag / L + 1)), "sign", "reversing the wheel motion %g, %g does not reverse the update", l, q); MC_CHECK(s[0] == p[0] && heading(s[2], -w, 1e-13L * (mag / L + 1)), "mirror", "exchanging the wheel motions %g, %g does not mirror the update", l, q);
}
MC_SCENARIO(base_update) { static const double m[] = {0, 0.5, -2, 1e3}; double t = mc::pick(m), w = mc::pick(turns); K k(0.3, 0.1); auto p = k.poseUpdateFromBaseDifferential(t, w); mc::step(); mc::validated(2); mc::trace("%g %g", t, w); MC_CHECK(p[0] == t && p[1] == 0, "translation", "a translation by %g becomes (%g, %g)", t, p[0], p[1]); MC_CHECK(heading(p[2], w, 1e-13L * (1 + std::fabs(w))), "rotation", "a rotation by %g becomes %g", w, p[2]); }
MC_SCENARIO(velocities) {
  double L = mc::pick(lengths), r = mc::pick(radii), v = mc::pick(turns), w = mc::pick(turns); const K k(L, r); auto x = k.baseToWheelVelocities(v, w); mc::step(); mc::validated(4); mc::trace("%g %g %g %g", L, r, v, w); LD left = (v - (LD)w * L / 2) / r, right = (v + (LD)w * L / 2) / r, mag = (std::fabs((LD)v) + std::fabs((LD)w) * L) / r;
  MC_CHECK(close(x[0], left, mag * 4) && close(x[1], right, mag * 4), "wheels", "axis %g, wheel %g: velocities %g and %g need wheel rates %.12Lg and %.12Lg, not %.12g and %.12g", L, r, v, w, left, right, x[0], x[1]);
  auto p = k.poseUpdateFromWheelDifferential(x[0], x[1]); MC_CHECK(close(p[0], v, mag * r * 8) && heading(p[2], w, 1e-12L * (mag * r / L + 1)), "inverse", "axis %g, wheel %g: velocities %g and %g come back as %.12g and %.12g", L, r, v, w, p[0], p[2]);
  auto n = k.baseToWheelVelocities(-v, -w), d = k.baseToWheelVelocities(2 * v, 2 * w); MC_CHECK(close(n[0], -left, mag * 4) && close(n[1], -right, mag * 4), "sign", "reversed velocities do not reverse the wheels"); MC_CHECK(close(d[0], 2 * left, mag * 8) && close(d[1], 2 * right, mag * 8), "scale", "doubled velocities do not double the wheel rates");
}
MC_SCENARIO(pose_difference) {
  static const double xs[] = {0, 1, -2.5, 1000}, th[] = {0, 0.5, 1.5707963267948966, -1.2, 3.141592653589793, -3.0, 5.5, -9, 2.6}; ecl::linear_algebra::Vector3d a, b; a << mc::pick(xs), mc::pick(xs), mc::pick(th); b << mc::pick(xs), mc::pick(xs), mc::pick(th); auto d = K::PoseToBaseDifferential(a, b); mc::step(); mc::validated(2); mc::trace("(%g %g %g) (%g %g %g)", a[0], a[1], a[2], b[0], b[1], b[2]);
  LD dx = (LD)b[0] - a[0], dy = (LD)b[1] - a[1], ds = std::sqrt(dx * dx + dy * dy), fwd = dx * std::cos((LD)a[2]) + dy * std::sin((LD)a[2]); MC_CHECK(close(std::fabs((LD)d[0]), ds, 10 * (1 + ds)), "distance", "from (%g, %g, %g) to (%g, %g, %g) the distance is %Lg, not %g", a[0], a[1], a[2], b[0], b[1], b[2], ds, d[0]);
  if (std::fabs(fwd) > 1e-9L * (1 + ds)) MC_CHECK((d[0] < 0) == (fwd < 0), "direction", "from (%g, %g, %g) to (%g, %g, %g) the base drives %s", a[0], a[1], a[2], b[0], b[1], b[2], d[0] < 0 ? "backwards" : "forwards"); MC_CHECK(heading(d[1], (LD)b[2] - a[2], 1e-12L), "turn", "from heading %g to %g the turn is given as %g", a[2], b[2], d[1]);
}
MC_SCENARIO(small_steps) {   // extending a pose by a wheel update and taking the difference gives the update back
  double L = mc::pick(lengths), r = mc::pick(radii), l = mc::pick(turns), q = mc::pick(turns); static const double th[] = {0, 0.5, -1.2, 3.1, -3.0}; double h = mc::pick(th); K k(L, r); auto p = k.poseUpdateFromWheelDifferential(l, q); ecl::linear_algebra::Vector3d a, b; a << 1, -2, h; b << 1 + p[0] * std::cos(h), -2 + p[0] * std::sin(h), h + p[2]; auto d = K::PoseToBaseDifferential(a, b); mc::step(); mc::validated(2); mc::trace("%g %g %g %g %g", L, r, l, q, h);
  MC_CHECK(std::fabs(d[0] - p[0]) <= 1e-12 * (3 + std::fabs(p[0])) && heading(d[1], p[2], 1e-12L), "round trip", "axis %g, wheel %g, wheels %g and %g from heading %g: (%.12g, %.12g) comes back as (%.12g, %.12g)", L, r, l, q, h, p[0], p[2], d[0], d[1]);
}

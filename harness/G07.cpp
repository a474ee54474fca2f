// @SOURCES: ecl_geometry/src/lib/linear_segment.cpp ecl_geometry/src/lib/odometry_helper.cpp
// @BUILDS: release
// @FLAGS: -I/usr/include/eigen3
// @ASSUME: segment ends and points on an integer grid, also scaled and shifted away from the origin;; trajectories of 0 to 4 samples, with histories of up to 4 operations on a pair of trajectories;; the distance of a pose to an empty trajectory is left open
#include "util.hpp"
#include <cmath>
#include <limits>
#include <array>
#include <memory>
#include <ecl/geometry/linear_segment.hpp>
#include <ecl/geometry/odometry_helper.hpp>
namespace {
typedef long double LD; using namespace ecl::odometry;
LD exact(LD x1, LD y1, LD x2, LD y2, LD x, LD y) {   // coordinates are small integers: exact but for the final division
  LD ux = x2 - x1, uy = y2 - y1, vx = x - x1, vy = y - y1, l = ux * ux + uy * uy, d = ux * vx + uy * vy;
  if (l == 0 || d <= 0) return vx * vx + vy * vy; if (d >= l) return (x - x2) * (x - x2) + (y - y2) * (y - y2); LD c = ux * vy - uy * vx; return c * c / l;
}
}
MC_SCENARIO(segment) {
  int r = mc::tiered(2, 3), n = 2 * r + 1; int x1 = mc::choose(n) - r, y1 = mc::choose(n) - r, x2 = mc::choose(n) - r, y2 = mc::choose(n) - r;
  static const double scales[] = {1, 0.125, 1024, 1e-3, 1e6}; static const double shifts[] = {0, 16384};
  for (double s : scales) for (double o : shifts) {
    const ecl::LinearSegment seg(x1 * s + o, y1 * s + o, x2 * s + o, y2 * s + o); const ecl::LinearSegment rev(x2 * s + o, y2 * s + o, x1 * s + o, y1 * s + o);
    for (int i = -r - 2; i <= r + 2; ++i) for (int j = -r - 2; j <= r + 2; ++j) {
      double x = i * s + o, y = j * s + o; LD e = exact(x1, y1, x2, y2, i, j) * s * (LD)s, m = (8 * s + (o != 0 ? o : 0)), tol = 64 * std::numeric_limits<double>::epsilon() * (8 * s) * m + 1e-300L; mc::step(2); mc::validated();
      double d = seg.squaredDistanceFromPoint(x, y), q = rev.squaredDistanceFromPoint(x, y);
      MC_CHECK(std::fabs(d - e) <= tol && d >= 0, "distance", "squared distance of (%g, %g) to the segment (%g, %g)-(%g, %g) is %.17g instead of %.17Lg", x, y, x1 * s + o, y1 * s + o, x2 * s + o, y2 * s + o, d, e);
      MC_CHECK(std::fabs(q - e) <= tol, "distance", "squared distance of (%g, %g) to the reversed segment (%g, %g)-(%g, %g) is %.17g instead of %.17Lg", x, y, x1 * s + o, y1 * s + o, x2 * s + o, y2 * s + o, q, e);
    }
  }
}
// Steep, long, thin and far away: rational data where the foot of the perpendicular is known
MC_SCENARIO(segment_far) {
  static const double len[] = {1e-8, 1, 1e8}; static const double ts[] = {-2, -0.25, 0, 0.125, 0.5, 1, 1.5}; static const double hs[] = {0, 1, -3, 1e4}; static const double dir[][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {0.6, 0.8}, {-0.8, 0.6}, {5.0 / 13, -12.0 / 13}, {1, 1e-9}, {1e-9, 1}};
  double l = mc::pick(len), t = mc::pick(ts), h = mc::pick(hs); const double* u = mc::pick(dir); double x2 = l * u[0], y2 = l * u[1]; LD L = std::sqrt((LD)x2 * x2 + (LD)y2 * y2); double x = (double)(t * (LD)x2 - h * y2 / L), y = (double)(t * (LD)y2 + h * x2 / L);
  LD along = t < 0 ? t * L : t > 1 ? (t - 1) * L : 0, e = along * along + (LD)h * h; mc::step(); mc::validated();
  double d = ecl::LinearSegment(0, 0, x2, y2).squaredDistanceFromPoint(x, y); LD size = L * 2 + std::fabs(h); LD tol = 64 * std::numeric_limits<double>::epsilon() * size * (std::sqrt(e) + size * 1e-15L * 16);
  MC_CHECK(std::fabs(d - e) <= tol, "distance", "a point at parameter %g and height %g of a segment of length %Lg: squared distance %.17g instead of %.17Lg", t, h, L, d, e);
}
namespace {
typedef std::array<float, 6> Row; typedef std::vector<Row> Model;
Odom2D odom(const Row& r) { Odom2D o; for (int i = 0; i < 6; ++i) o(i) = r[i]; return o; }
Pose2D pose(const Row& r) { return Pose2D(r[0], r[1], r[2]); }
Row row(int tag) { Row r; for (int i = 0; i < 6; ++i) r[i] = (float)(tag * 10 + i + 1) * (i % 2 ? -1.f : 1.f); return r; }
template <class Tr> struct Kind;
template <> struct Kind<Trajectory2D> { typedef Pose2D Item; typedef Trajectory2DPtr Ptr; enum { D = 3 }; static Item item(const Row& r) { return pose(r); } };
template <> struct Kind<Odom2DTrajectory> { typedef Odom2D Item; typedef Odom2DTrajectoryPtr Ptr; enum { D = 6 }; static Item item(const Row& r) { return odom(r); } };
template <class Tr> void same(const Tr& t, const Model& m, const char* what) {
  const int D = Kind<Tr>::D; mc::validated();
  MC_CHECK(size(t) == (int)m.size() && t.cols() == (int)m.size() && empty(t) == m.empty(), what, "%s: the trajectory has %d samples instead of %zu", what, size(t), m.size());
  for (size_t i = 0; i < m.size(); ++i) { typename Kind<Tr>::Item it = getAt(t, (int)i); for (int k = 0; k < D; ++k) MC_CHECK(it(k) == m[i][k] && t(k, i) == m[i][k], what, "%s: component %d of sample %zu of %zu is %g instead of %g", what, k, i, m.size(), it(k), m[i][k]); }
  if (!m.empty()) { typename Kind<Tr>::Item f = getFront(t), b = getBack(t); for (int k = 0; k < D; ++k) MC_CHECK(f(k) == m.front()[k] && b(k) == m.back()[k], "ends", "component %d of the front and back samples is %g, %g instead of %g, %g", k, f(k), b(k), m.front()[k], m.back()[k]); }
}
template <class Tr> void history() {
  typedef Kind<Tr> Kd; Tr t[2]; Model m[2]; int tag = 0;
  for (int w = 0; w < 2; ++w) { int n = mc::choose(w ? 4 : 3); std::vector<typename Kd::Item> v; for (int i = 0; i < n; ++i) { m[w].push_back(row(++tag)); v.push_back(Kd::item(m[w].back())); } t[w] = vectorToTrajectory(v); same(t[w], m[w], "vectorToTrajectory"); typename Kd::Ptr p = vectorToTrajectoryPtr(v); MC_CHECK(!!p && size(p) == n && empty(p) == (n == 0), "pointer", "the shared trajectory has the wrong size"); same(*p, m[w], "vectorToTrajectoryPtr"); MC_CHECK(empty(typename Kd::Ptr()), "pointer", "a null trajectory is not empty"); }
  int depth = mc::tiered(3, 4);
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(7); mc::step();
    if (op == 0) break;
    switch (op) {
      case 1: case 2: { int a = op - 1; mc::trace("append other to %d", a); addAtEnd(t[a], t[1 - a]); m[a].insert(m[a].end(), m[1 - a].begin(), m[1 - a].end()); break; }
      case 3: { mc::trace("append 0 to itself"); addAtEnd(t[0], t[0]); Model c = m[0]; m[0].insert(m[0].end(), c.begin(), c.end()); break; }
      case 4: { int n = mc::choose(6), old = m[0].size(); mc::trace("resize %d -> %d", old, n); resize(t[0], n); m[0].resize(n); MC_CHECK(size(t[0]) == n, "resize", "resizing to %d gives %d", n, size(t[0])); for (int i = old; i < n; ++i) { m[0][i] = row(++tag); setAt(t[0], i, Kd::item(m[0][i])); } break; }
      case 5: { int n = m[0].size(); if (!n) break; int i = mc::choose(n); mc::trace("set %d", i); m[0][i] = row(++tag); setAt(t[0], i, Kd::item(m[0][i])); break; }
      case 6: { int n = m[0].size(); if (!n) break; int i = mc::choose(n); mc::trace("copy sample %d to the front of the other", i); if (m[1].empty()) break; setAt(t[1], 0, getAt(t[0], i)); m[1][0] = m[0][i]; break; }
    }
    same(t[0], m[0], "history"); same(t[1], m[1], "history");
    if (m[0].size() > 24) break;
  }
}
void parts(const Odom2DTrajectory& t, const Model& m) { Trajectory2D p = getPoses(t); Twist2DVector w = getTwists(t); MC_CHECK(p.cols() == (int)m.size() && w.cols() == (int)m.size(), "split", "splitting %zu samples gives %d poses and %d twists", m.size(), (int)p.cols(), (int)w.cols()); for (size_t i = 0; i < m.size(); ++i) for (int k = 0; k < 3; ++k) MC_CHECK(p(k, i) == m[i][k] && w(k, i) == m[i][k + 3], "split", "component %d of pose and twist %zu is %g, %g instead of %g, %g", k, i, p(k, i), w(k, i), m[i][k], m[i][k + 3]); }
}
MC_SCENARIO(trajectories) { history<Trajectory2D>(); }
MC_SCENARIO(odometries) { history<Odom2DTrajectory>(); }
MC_SCENARIO(split) { int n = mc::choose(6); Odom2DTrajectory t; Model m; std::vector<Odom2D> v; for (int i = 0; i < n; ++i) { m.push_back(row(mc::choose(3) * 7 + i)); v.push_back(odom(m.back())); } t = vectorToTrajectory(v); mc::step(); mc::validated(); parts(t, m); same(t, m, "split"); }
MC_SCENARIO(fields) {
  static const float vals[] = {0, 1.5f, -2.25f, 1e30f, std::numeric_limits<float>::denorm_min()}; Row r = row(3); Odom2D o = odom(r); Pose2D p = pose(r); Position2D q(r[0], r[1]); Twist2D w(r[3], r[4], r[5]); Row pr = r, qr = r, wr = r; int depth = mc::tiered(2, 3); mc::step();
  auto all = [&] {
    mc::validated(); for (int k = 0; k < 6; ++k) MC_CHECK(o(k) == r[k], "fields", "component %d of the odometry is %g instead of %g", k, o(k), r[k]); for (int k = 0; k < 3; ++k) MC_CHECK(p(k) == pr[k] && w(k) == wr[3 + k], "fields", "component %d of pose and twist is %g, %g instead of %g, %g", k, p(k), w(k), pr[k], wr[3 + k]); MC_CHECK(q(0) == qr[0] && q(1) == qr[1], "fields", "the position is wrong");
    MC_CHECK(getX(o) == r[0] && getY(o) == r[1] && getYaw(o) == r[2] && getVelocityX(o) == r[3] && getVelocityY(o) == r[4] && getVelocityAngular(o) == r[5], "fields", "a getter of an odometry is wrong"); MC_CHECK(getX(p) == pr[0] && getY(p) == pr[1] && getYaw(p) == pr[2] && getX(q) == qr[0] && getY(q) == qr[1], "fields", "a getter of a pose is wrong"); MC_CHECK(getVelocityX(w) == wr[3] && getVelocityY(w) == wr[4] && getVelocityAngular(w) == wr[5], "fields", "a getter of a twist is wrong");
    Pose2D op = getPose(o); Twist2D ot = getTwist(o); Position2D oq = getPosition(o), pq = getPosition(p); for (int k = 0; k < 3; ++k) MC_CHECK(op(k) == r[k] && ot(k) == r[3 + k], "fields", "the pose or twist of an odometry is wrong"); for (int k = 0; k < 2; ++k) MC_CHECK(oq(k) == r[k] && pq(k) == pr[k], "fields", "the position of an odometry or pose is wrong");
  };
  all();
  for (int d = 0; d < depth; ++d) {
    int f = mc::choose(14); float v = mc::pick(vals); mc::trace("set field %d to %g", f, v); mc::step();
    switch (f) { case 0: setX(o, v); r[0] = v; break; case 1: setY(o, v); r[1] = v; break; case 2: setYaw(o, v); r[2] = v; break; case 3: setVelocityX(o, v); r[3] = v; break; case 4: setVelocityY(o, v); r[4] = v; break; case 5: setVelocityAngular(o, v); r[5] = v; break; case 6: setX(p, v); pr[0] = v; break; case 7: setY(p, v); pr[1] = v; break; case 8: setYaw(p, v); pr[2] = v; break; case 9: setX(q, v); qr[0] = v; break; case 10: setY(q, v); qr[1] = v; break; case 11: setVelocityX(w, v); wr[3] = v; break; case 12: setVelocityY(w, v); wr[4] = v; break; case 13: setVelocityAngular(w, v); wr[5] = v; break; }
    all();
  }
}
// Distances between samples, and to the polyline through a trajectory
MC_SCENARIO(distances) {
  int r = mc::tiered(1, 2), n = 2 * r + 1; auto c = [&] { return (float)(mc::choose(n) - r); }; Row a{c(), c(), 7, 8, 9, 10}, b{c(), c(), -3, 5, 6, 11}; mc::step(); mc::validated(5);
  LD dx = a[0] - b[0], dy = a[1] - b[1], s = dx * dx + dy * dy, d = std::sqrt(s), t = 8 * std::numeric_limits<float>::epsilon() * (1 + s);
  MC_CHECK(std::fabs(distance(odom(a), odom(b)) - d) <= t && std::fabs(distance(pose(a), pose(b)) - d) <= t && std::fabs(distance(pose(a), odom(b)) - d) <= t, "distance", "the distance of (%g, %g) and (%g, %g)", a[0], a[1], b[0], b[1]);
  MC_CHECK(std::fabs(distanceSqared(odom(a), odom(b)) - s) <= t && std::fabs(distanceSqared(pose(a), pose(b)) - s) <= t, "distance", "the squared distance of (%g, %g) and (%g, %g)", a[0], a[1], b[0], b[1]);
}
MC_SCENARIO(polyline) {
  int n = mc::range(1, 4), r = 1, w = 3; std::vector<Pose2D> v; std::vector<Row> m; for (int i = 0; i < n; ++i) { Row k{(float)(mc::choose(w) - r) * 2, (float)(mc::choose(w) - r) * 2, (float)i, 0, 0, 0}; m.push_back(k); v.push_back(pose(k)); } Trajectory2D t = vectorToTrajectory(v);
  for (int x = -3; x <= 3; ++x) for (int y = -3; y <= 3; ++y) { LD e = (x - m[0][0]) * (x - m[0][0]) + (y - m[0][1]) * (y - m[0][1]); for (int i = 0; i + 1 < n; ++i) e = std::min(e, exact(m[i][0], m[i][1], m[i + 1][0], m[i + 1][1], x, y)); e = std::sqrt(e); mc::step(2); mc::validated(); double d = distance(Position2D(x, y), t), q = distance(Pose2D(x, y, 5), t); MC_CHECK(std::fabs(d - e) <= 1e-5 && std::fabs(q - e) <= 1e-5, "polyline", "the distance of (%d, %d) to a trajectory of %d samples is %g, %g instead of %Lg", x, y, n, d, q, e); }
}
// Long trajectories
MC_SCENARIO(long_trajectories) {
  static const int ns[] = {5, 8, 9, 16, 33, 100, 257}; int n = mc::pick(ns), k = mc::pick(ns); std::vector<Odom2D> v; std::vector<Pose2D> pv; Model m, q; for (int i = 0; i < n; ++i) { m.push_back(row(i)); v.push_back(odom(m.back())); pv.push_back(pose(m.back())); } for (int i = 0; i < k; ++i) q.push_back(row(1000 + i)); mc::step(n); mc::trace("%d and %d samples", n, k);
  Odom2DTrajectory t = vectorToTrajectory(v), u; Trajectory2D p = vectorToTrajectory(pv); same(t, m, "vector"); same(p, m, "vector"); parts(t, m); resize(u, k); for (int i = 0; i < k; ++i) setAt(u, i, odom(q[i])); same(u, q, "set"); addAtEnd(t, u); Model both = m; both.insert(both.end(), q.begin(), q.end()); same(t, both, "append"); same(u, q, "appended"); resize(t, n); both.resize(n); same(t, both, "shrink"); resize(t, n + 3); for (int i = n; i < n + 3; ++i) { setAt(t, i, odom(q[0])); both.push_back(q[0]); } same(t, both, "grow");
  int at = mc::choose(3) * (n - 1) / 2; setAt(p, at, pose(q[1])); Model c = m; c[at] = q[1]; same(p, c, "set one"); LD e = 1e18L; Position2D z(c[at][0], c[at][1]); for (int i = 0; i + 1 < n; ++i) e = std::min(e, exact(c[i][0], c[i][1], c[i + 1][0], c[i + 1][1], z(0), z(1))); MC_CHECK(e == 0 && distance(z, p) <= 1e-3, "polyline", "sample %d is %g from its trajectory", at, distance(z, p));
}

// @SOURCES: ecl_manipulators/src/lib/*.cpp ecl_geometry/src/lib/*.cpp ecl_exceptions/src/lib/*.cpp ecl_formatters/src/lib/*.cpp ecl_type_traits/src/lib/numeric_limits.cpp
// @BUILDS: release
// @FLAGS: -I/usr/include/eigen3
// @ASSUME: one or two joints, two to five waypoints (tension splines: five or six) with angles, rates, nominal rates, durations and acceleration limits from small alphabets;; trajectories are examined at 400 instants and at every junction of their pieces;; histories of up to 4 (thorough 5) operations on two waypoints and two trajectories
#include "util.hpp"
#include <cmath>
#include <memory>
#include <ecl/linear_algebra.hpp>
#include <ecl/manipulators/waypoint.hpp>
#include <ecl/manipulators/trajectory.hpp>
namespace {
typedef ecl::WayPoint<ecl::JointAngles> W; typedef ecl::Trajectory<ecl::JointAngles> Tr; typedef std::vector<double> V;
struct MW { V a, r, c, n; double d = 0; std::string name; bool rc = false, cc = false; int fresh = 0; };   // the plain waypoint
void same(W& w, const MW& m, const char* who) {
  const W& c = w; mc::validated(6); MC_CHECK(c.dimension() == m.a.size(), "dimension", "%s has dimension %u instead of %zu", who, c.dimension(), m.a.size());
  MC_CHECK(c.name() == m.name && c.duration() == m.d, "parameters", "%s is called '%s' and lasts %g instead of '%s' and %g", who, c.name().c_str(), c.duration(), m.name.c_str(), m.d);
  MC_CHECK(c.rates_configured() == m.rc && c.accelerations_configured() == m.cc, "configured", "%s: rates configured %d, accelerations configured %d instead of %d and %d", who, c.rates_configured(), c.accelerations_configured(), m.rc, m.cc);
  MC_CHECK(c.angles().size() == m.a.size() && c.rates().size() == m.a.size() && c.accelerations().size() == m.a.size() && w.nominalRates().size() == m.a.size(), "sizes", "%s holds arrays of different sizes", who);
  for (size_t i = 0; i < m.a.size(); ++i) MC_CHECK(c.angles()[i] == m.a[i] && c.rates()[i] == m.r[i] && c.accelerations()[i] == m.c[i] && w.nominalRates()[i] == m.n[i], "values", "joint %zu of %s is %g/%g/%g/%g instead of %g/%g/%g/%g", i, who, c.angles()[i], c.rates()[i], c.accelerations()[i], w.nominalRates()[i], m.a[i], m.r[i], m.c[i], m.n[i]);
}
MC_SCENARIO(waypoint_history, .shard(3)) {
  W w[2]; MW m[2]; auto fresh = [&](int i, int d) { m[i] = MW(); m[i].a = m[i].r = m[i].c = V(d, 0.0); m[i].n = V(d, 1.0); };
  int d0 = mc::choose(3), d1 = mc::choose(3); { W a(d0), b(d1); w[0] = a; w[1] = b; } fresh(0, d0); fresh(1, d1);
  int depth = mc::tiered(3, 5); double v = 0.5;
  for (int k = 0; k < depth; ++k) {
    int op = mc::choose(10), i = mc::choose(2), o = 1 - i; v += 1; mc::step(); size_t last = m[i].a.size() - 1;
    switch (op) {
      case 0: if (m[i].a.empty()) mc::skip(); mc::trace("angles of %d", i); w[i].angles()[last] = v; m[i].a[last] = v; break;
      case 1: if (m[i].a.empty()) mc::skip(); mc::trace("rates of %d", i); w[i].rates()[0] = v; m[i].r[0] = v; m[i].rc = true; break;
      case 2: if (m[i].a.empty()) mc::skip(); mc::trace("accelerations of %d", i); w[i].accelerations()[last] = v; m[i].c[last] = v; m[i].cc = true; break;
      case 3: mc::trace("nominal rates of %d", i); w[i].nominalRates(v); m[i].n.assign(m[i].n.size(), v); break;
      case 4: mc::trace("name and duration of %d", i); w[i].name(std::string("waypoint ") + char('a' + k)); w[i].duration(v); m[i].name = std::string("waypoint ") + char('a' + k); m[i].d = v; break;
      case 5: mc::trace("assign %d", i); w[i] = w[o]; m[i] = m[o]; break;
      case 6: { mc::trace("copy of %d", i); std::unique_ptr<W> c(new W(w[i])); same(*c, m[i], "the copy"); MW mm = m[i]; if (!mm.a.empty()) { c->angles()[0] = -v; mm.a[0] = -v; } same(*c, mm, "the changed copy"); break; }
      case 7: { int d = mc::choose(3); mc::trace("redimension %d to %d", i, d); MW old = m[i]; w[i].redimension(d); fresh(i, d); m[i].name = old.name; m[i].d = old.d; m[i].rc = w[i].rates_configured(); m[i].cc = w[i].accelerations_configured(); if (d && w[i].nominalRates()[0] == 0) m[i].n = V(d, 0.0); break; }
      case 8: { bool e = m[0].a == m[1].a; mc::trace("compare"); const W &a = w[i], &b = w[o]; MC_CHECK((a == b) == e && (a != b) == !e, "equality", "waypoints with %s angles: == says %d, != says %d", e ? "equal" : "different", a == b, a != b); break; }
      case 9: { bool e = m[0].a.size() == m[1].a.size(); for (size_t j = 0; e && j < m[0].a.size(); ++j) e = std::fabs(m[0].a[j] - m[1].a[j]) <= 1.5; mc::trace("approx"); MC_CHECK(w[i].approx(w[o], 1.5) == e, "approx", "waypoints that are %s: approx says the opposite", e ? "close" : "apart"); break; }
    }
    same(w[0], m[0], "waypoint 0"); same(w[1], m[1], "waypoint 1");
  }
}
struct Case { int dim; std::vector<V> at; V d, nom, acc, r0, r1; int oi = -1, oj = 0; double on = 0; }; // waypoint oi, joint oj has the rate on
Tr* build(const Case& c) {
  Tr* t = new Tr((unsigned)c.dim, "trajectory"); size_t n = c.at.size(); for (size_t i = 0; i < n; ++i) { W w(c.dim); for (int j = 0; j < c.dim; ++j) w.angles()[j] = c.at[i][j]; w.nominalRates(c.nom[i]); if ((int)i == c.oi) w.nominalRates()[c.oj] = c.on; w.duration(c.d[i]); if (i == 0 && !c.r0.empty()) for (int j = 0; j < c.dim; ++j) w.rates()[j] = c.r0[j]; if (i == n - 1 && !c.r1.empty()) for (int j = 0; j < c.dim; ++j) w.rates()[j] = c.r1[j]; t->append(w); }
  for (int j = 0; j < c.dim; ++j) t->maxAccelerations()[j] = c.acc[j]; return t;
}
std::string str(const Case& c) { std::ostringstream o; o << "(angles"; for (auto& a : c.at) { o << " "; for (size_t j = 0; j < a.size(); ++j) o << (j ? "/" : "") << a[j]; } o << "; durations"; for (double d : c.d) o << " " << d; o << "; nominal rates"; for (double d : c.nom) o << " " << d; o << "; limits"; for (double d : c.acc) o << " " << d; o << "; initial rates"; for (double d : c.r0) o << " " << d; o << "; final rates"; for (double d : c.r1) o << " " << d; o << ")"; return o.str(); }
// Everything the caller can see of a generated trajectory.
void look(Tr& t, const Case& c, bool tension) {
  double T = t.duration(); std::string s = str(c); int n = c.at.size(), D = c.dim; mc::step(); mc::validated(5); MC_CHECK(std::isfinite(T) && T > 0, "duration", "the trajectory %s lasts %g", s.c_str(), T);
  for (int i = 0; i + 1 < n; ++i) { double need = c.d[i]; for (int j = 0; j < D; ++j) need = std::max(need, std::fabs(c.at[i + 1][j] - c.at[i][j]) / c.nom[i]); MC_CHECK(t.waypoint(i).duration() >= need - 1e-12, "segment duration", "segment %d of %s takes %g although at least %g was asked for", i, s.c_str(), t.waypoint(i).duration(), need); }
  for (int j = 0; j < D; ++j) {
    MC_CHECK(std::fabs(t(j, 0) - c.at[0][j]) <= 1e-4, "start", "joint %d of %s starts at %g", j, s.c_str(), t(j, 0)); MC_CHECK(std::fabs(t(j, T) - c.at[n - 1][j]) <= 1e-2, "end", "joint %d of %s ends at %g", j, s.c_str(), t(j, T));
    double r0 = c.r0.empty() ? 0 : c.r0[j], r1 = c.r1.empty() ? 0 : c.r1[j]; MC_CHECK(std::fabs(t.derivative(j, 0) - r0) <= 1e-3, "initial rate", "joint %d of %s starts at rate %g instead of %g", j, s.c_str(), t.derivative(j, 0), r0); MC_CHECK(std::fabs(t.derivative(j, T) - r1) <= 1e-3, "final rate", "joint %d of %s ends at rate %g instead of %g", j, s.c_str(), t.derivative(j, T), r1);
    const int N = 400; double v0 = t(j, 0), w0 = t.derivative(j, 0), a = c.acc[j] * (1 + 1e-4) + 1e-6;
    for (int k = 0; k <= N; ++k) { double x = T * k / N; double y = t(j, x), w = t.derivative(j, x), q = t.dderivative(j, x); MC_CHECK(std::isfinite(y) && std::isfinite(w) && std::isfinite(q), "finite", "joint %d of %s is not finite at %g", j, s.c_str(), x);
      MC_CHECK(std::fabs(q) <= a, "limit", "joint %d of %s accelerates with %g at %g", j, s.c_str(), q, x);
      if (k) { double h = T / N; MC_CHECK(std::fabs(w - w0) <= a * h + 1e-3, "rate jump", "the rate of joint %d of %s jumps from %g to %g at %g", j, s.c_str(), w0, w, x); MC_CHECK(std::fabs(y - v0 - (w + w0) / 2 * h) <= a * h * h / 2 + 1e-4, "jump", "joint %d of %s jumps from %g to %g at %g", j, s.c_str(), v0, y, x); }
      v0 = y; w0 = w; }
    auto bad = [&](double x) { return h::outcome([&] { t(j, x); }) == ecl::OutOfRangeError && h::outcome([&] { t.derivative(j, x); }) == ecl::OutOfRangeError && h::outcome([&] { t.dderivative(j, x); }) == ecl::OutOfRangeError; }; MC_CHECK(!h::checked || (bad(-0.01) && bad(T + 0.01)), "range", "times outside the trajectory %s are answered", s.c_str());
  }
  // the interior waypoints are reached together, at the times of their durations after one common lead-in
  double best = 1e9; int where = -1; double d0 = t.waypoint(0).duration();
  for (int cand = 0; cand < (tension ? 5 : 26); ++cand) {
    double lead = tension ? (cand + 1) * d0 / 10 : cand < 25 ? 0.001 * (1 << (cand / 2 + cand % 2)) * 1.0 : 0; if (lead > 4 * d0 + 1) continue; double worst = 0, x = lead; int wi = -1;
    for (int i = 1; i + 1 < n; ++i) { x += t.waypoint(i - 1).duration(); if (x > T) { worst = 1e9; break; } double tol = 1e-4; 
      for (int j = 0; j < D; ++j) { double e = std::fabs(t(j, x) - c.at[i][j]); if (!tension) { double dl = t.waypoint(i - 1).duration(), dr = t.waypoint(i).duration(), sl = (c.at[i][j] - c.at[i - 1][j]) / dl, sr = (c.at[i + 1][j] - c.at[i][j]) / dr; tol = 0.2 * (std::fabs(sl - sr) + 0.5 * std::fabs(sl) + 0.5 * std::fabs(sr)) * std::max(dl, dr) + 1e-6; } if (e - tol > worst) { worst = e - tol; wi = i; } } }
    if (worst < best) best = worst, where = wi; }
  MC_CHECK(n <= 2 || best <= 0, "waypoint", "the trajectory %s misses waypoint %d by %g", s.c_str(), where, best);
}
void limits(Case& c) { static const double as[] = {5, 0.5, 40}; int k = mc::tiered(c.dim > 1 ? 2 : 3, 3); c.acc.push_back(as[mc::choose(k)]); if (c.dim > 1) c.acc.push_back(as[mc::choose(k)]); }
void run(const Case& c, bool tension, double k) {
  std::unique_ptr<Tr> t(build(c)); mc::trace("%s", str(c).c_str()); int r = h::outcome([&] { if (tension) t->tensionSplineInterpolation(k); else t->linearSplineInterpolation(); });
  bool still = false; for (size_t i = 0; i + 1 < c.at.size(); ++i) still |= c.d[i] == 0 && c.at[i] == c.at[i + 1]; if (still) { MC_CHECK(r == ecl::ConfigurationError, "zero duration", "the trajectory %s has a segment without duration: %s", str(c).c_str(), h::oname(r).c_str()); return; }
  MC_CHECK(r == h::Ok, "outcome", "generating the trajectory %s gives %s", str(c).c_str(), h::oname(r).c_str()); look(*t, c, tension);
}
void grid(bool tension, int dim) {
  static const double angles[] = {0, 1, -2, 1.25}, durs[] = {0, 3}, noms[] = {1, 0.4}, tens[] = {1, 4, 0.25}; Case c; c.dim = dim; int n = tension ? 5 : 2 + mc::choose(dim == 1 ? 3 : 2);
  for (int i = 0; i < n; ++i) { V a; for (int j = 0; j < dim; ++j) a.push_back(i == 0 && j == 0 ? 0.5 : angles[mc::choose(dim == 1 ? (tension ? 3 : 4) : 2 + (i == 1 && !tension))] + 0.1 * j * (i % 2)); c.at.push_back(a); }
  double d = mc::pick(durs), nm = mc::pick(noms); for (int i = 0; i < n; ++i) { c.d.push_back(i % 2 ? 0 : d); c.nom.push_back(i % 2 ? 1 : nm); }
  limits(c); int rates = mc::choose(4); if (rates & 1) { c.r0.push_back(0.3); if (dim > 1) c.r0.push_back(-0.2); } if (rates & 2) { c.r1.push_back(-0.3); if (dim > 1) c.r1.push_back(0.6); } run(c, tension, tension ? tens[mc::choose(mc::tiered(dim > 1 ? 1 : 3, 3))] : 0);
}
}
// Trajectories are containers of waypoints, and values as well.
MC_SCENARIO(trajectory_history, .shard(3)) {
  struct M { int dim = 0; std::vector<V> at; V acc; bool made = false; double T = 0, mid = 0; std::string name; }; M m[2]; std::unique_ptr<Tr> t[2]; m[0].dim = 1; m[0].acc = V(1, 0.0); m[0].name = "first"; t[0].reset(new Tr(1u, "first")); int depth = mc::tiered(3, 5);
  if (mc::flip()) { for (int w = 0; w < 2; ++w) { W x(1); x.angles()[0] = w; t[0]->append(x); m[0].at.push_back(V(1, w)); } t[0]->maxAccelerations(2); m[0].acc[0] = 2; t[0]->linearSplineInterpolation(); m[0].made = true; m[0].T = t[0]->duration(); m[0].mid = (*t[0])(0, m[0].T / 2); mc::trace("a generated trajectory"); }
  for (int k = 0; k < depth; ++k) {
    int i = t[1] ? mc::choose(2) : 0, o = 1 - i; M& a = m[i]; Tr& x = *t[i]; mc::step();
    switch (mc::choose(9)) {
      case 0: { W w(a.dim); V p; for (int j = 0; j < a.dim; ++j) p.push_back(w.angles()[j] = a.at.size() % 2 ? 1.0 + j : -0.5 * a.at.size()); mc::trace("append to %d", i); x.append(w); a.at.push_back(p); break; }
      case 1: { if (!h::checked) mc::skip(); W w(a.dim + 1); mc::trace("append a waypoint of another dimension to %d", i); int r = h::outcome([&] { x.append(w); }); MC_CHECK(r == ecl::InvalidInputError, "mismatch", "appending a waypoint of another dimension: %s", h::oname(r).c_str()); break; }
      case 2: { mc::trace("clear %d", i); x.clear(); a.at.clear(); a.made = false; break; }
      case 3: { int d = 1 + mc::choose(2); mc::trace("redimension %d to %d", i, d); x.redimension(d); a.at.clear(); a.made = false; a.dim = d; a.acc = V(d, 0.0); break; }
      case 4: { mc::trace("limit of %d", i); x.maxAccelerations(2); a.acc = V(a.dim, 2.0); break; }
      case 5: { mc::trace("interpolate %d", i); bool ok = a.at.size() >= 2 && a.acc[0] > 0; int r = h::outcome([&] { x.linearSplineInterpolation(); }); MC_CHECK(ok ? r == h::Ok : r == ecl::ConfigurationError, "outcome", "interpolating %zu waypoints with limit %g: %s", a.at.size(), a.acc[0], h::oname(r).c_str()); if (ok) { a.made = true; a.T = x.duration(); a.mid = x(a.dim - 1, a.T / 2); } break; }
      case 6: { mc::trace("copy %d", i); t[o].reset(new Tr(x)); m[o] = a; break; }
      case 7: { if (!t[1]) mc::skip(); mc::trace("assign %d to %d", o, i); x = *t[o]; a = m[o]; break; }
      case 8: { if (!t[1] || i == 0) mc::skip(); mc::trace("destroy 1"); t[1].reset(); break; }
    }
    for (int q = 0; q < 2; ++q) if (t[q]) { M& z = m[q]; Tr& y = *t[q]; MC_CHECK(y.size() == z.at.size() && (int)y.dimension() == z.dim && y.name() == z.name, "trajectory", "trajectory %d has %u waypoints of dimension %u instead of %zu and %d", q, y.size(), y.dimension(), z.at.size(), z.dim);
      for (size_t w = 0; w < z.at.size(); ++w) for (int j = 0; j < z.dim; ++j) MC_CHECK(y.waypoint(w).angles()[j] == z.at[w][j], "waypoints", "waypoint %zu of trajectory %d changed", w, q); if (!z.at.empty()) MC_CHECK(y.last().angles()[0] == z.at.back()[0], "last", "the last waypoint of trajectory %d is a different one", q); if (h::checked) MC_CHECK(h::outcome([&] { y.waypoint(z.at.size()); }) == ecl::OutOfRangeError, "range", "a waypoint that does not exist is returned");
      for (int j = 0; j < z.dim; ++j) MC_CHECK(y.maxAccelerations()[j] == z.acc[j], "limits", "the limits of trajectory %d changed", q); if (z.made) { MC_CHECK(y.duration() == z.T && y(z.dim - 1, z.T / 2) == z.mid && std::fabs(y(0, 0) - z.at[0][0]) < 1e-6, "splines", "the generated motion of trajectory %d changed", q); } }
  }
}
MC_SCENARIO(linear_one_joint, .shard(3).timeout(20)) { grid(false, 1); }
MC_SCENARIO(linear_two_joints, .shard(3).timeout(20)) { grid(false, 2); }
MC_SCENARIO(tension_one_joint, .shard(3).timeout(20)) { grid(true, 1); }
// Very small and very large limits are limits as well.
MC_SCENARIO(scales, .timeout(20)) {
  static const double as[] = {0.02, 0.08, 0.3, 3000}; static const double ds[] = {0, 40}; Case c; c.dim = 1 + mc::choose(2); int n = 2 + mc::choose(2); double step = mc::flip() ? 1 : 0.01; for (int i = 0; i < n; ++i) { V a; for (int j = 0; j < c.dim; ++j) a.push_back(step * (i % 2 ? 1 + j : -0.5 * i)); c.at.push_back(a); c.nom.push_back(0.1); } c.d = V(n, mc::pick(ds)); for (int j = 0; j < c.dim; ++j) c.acc.push_back(mc::pick(as)); run(c, false, 0);
}
MC_SCENARIO(unconfigured, .timeout(20)) {
  Case c; c.dim = 1 + mc::choose(2); bool tension = mc::flip(); int n = tension ? 5 : 2; for (int i = 0; i < n; ++i) { c.at.push_back(V(c.dim, i % 2)); c.d.push_back(0); c.nom.push_back(1); } int what = mc::choose(5); c.acc = V(c.dim, 2.0); if (what == 0) c.acc[mc::choose(c.dim)] = mc::flip() ? 0 : -1; if (what == 1) c.nom[mc::choose(n - 1)] = mc::flip() ? 0 : -1; if (what == 2) { c.at.pop_back(); c.nom.pop_back(); c.d.pop_back(); } if (what == 3) { c.oi = mc::choose(n - 1); c.oj = mc::choose(c.dim); c.on = mc::flip() ? 0 : -1; mc::trace("joint %d of waypoint %d has rate %g", c.oj, c.oi, c.on); }
  std::unique_ptr<Tr> t(build(c)); mc::trace("%s", str(c).c_str()); mc::step(); mc::validated(); int r = h::outcome([&] { if (tension) t->tensionSplineInterpolation(2); else t->linearSplineInterpolation(); }); MC_CHECK(what < 4 ? r == ecl::ConfigurationError : r == h::Ok, "outcome", "interpolating %s gives %s", str(c).c_str(), h::oname(r).c_str());
}
MC_SCENARIO(tension_two_joints, .shard(3).timeout(20)) { grid(true, 2); }

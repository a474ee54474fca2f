// @SOURCES: ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @FLAGS: -I/usr/include/eigen3
// @ASSUME: the programs run as a child process each, their entry points renamed; angles in steps of a sixteenth of a turn and odd ones near the borders, quaternions written with 17 digits; rotations about z of either sign of the quaternion
#include "util.hpp"
#include <cmath>
#include <sys/wait.h>
#include <unistd.h>
#define main yaw2quaternion_main
#include <ecl_core_apps/src/utils/yaw2quaternion.cpp>
#undef main
#define main quaternion2yaw_main
#include <ecl_core_apps/src/utils/quaternion2yaw.cpp>
#undef main
namespace {
struct Run { int status; std::string out; std::vector<double> after(const std::string& w) const { std::vector<double> v; size_t i = out.find(w); while (i != std::string::npos && ++i < out.size()) if (isdigit(out[i]) || (out[i] == '-' && isdigit(out[i + 1]))) { char* e; v.push_back(strtod(out.c_str() + i, &e)); i = e - out.c_str(); } return v; } };
Run run(int (*program)(int, char**), const std::vector<std::string>& args) {
  std::string all; for (auto& a : args) all += " " + a; mc::trace("%s", all.c_str()); mc::step(); mc::validated(); int p[2]; if (pipe(p)) mc::skip(); fflush(nullptr); pid_t c = fork();
  if (!c) { close(p[0]); dup2(p[1], 1); dup2(p[1], 2); std::vector<std::string> s{"program"}; s.insert(s.end(), args.begin(), args.end()); std::vector<char*> v; for (auto& a : s) v.push_back(&a[0]); v.push_back(nullptr); int r = 99; try { r = program((int)s.size(), v.data()); } catch (...) { r = 98; } std::cout.flush(); _exit(r); }
  close(p[1]); Run r; char b[512]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) r.out.append(b, n); close(p[0]); int st = 0; waitpid(c, &st, 0); r.status = WIFEXITED(st) ? WEXITSTATUS(st) : -1; return r;
}
std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
double angle() { static const double odd[] = {1e-3, -1e-3, 3.14, -3.14, 0.1, -2.9, 6.2, -6.2, 1.5707963267948966, 7}; int k = mc::choose(43); return k < 33 ? (k - 16) * M_PI / 8 : odd[k - 33]; }
// 0 if both are the same direction
double apart(double a, double b) { return std::fabs(std::remainder(a - b, 2 * M_PI)); }
}
MC_SCENARIO(to_quaternion) {
  double a = angle(); Run r = run(yaw2quaternion_main, {num(a)}); std::vector<double> q = r.after("uaternion"); MC_CHECK(r.status == 0 && q.size() == 4, "answer", "%g ends with %d: %s", a, r.status, r.out.c_str());
  for (const char* l : {"x: ", "y: ", "z: ", "w: "}) MC_CHECK(r.out.find(l) != std::string::npos, "answer", "component %s is missing in %s", l, r.out.c_str()); double sgn = q[3] * std::cos(a / 2) + q[2] * std::sin(a / 2) < 0 ? -1 : 1;
  MC_CHECK(std::fabs(q[0]) < 1e-5 && std::fabs(q[1]) < 1e-5 && std::fabs(sgn * q[2] - std::sin(a / 2)) < 1e-5 && std::fabs(sgn * q[3] - std::cos(a / 2)) < 1e-5, "quaternion", "%g becomes %s", a, r.out.c_str());
}
MC_SCENARIO(to_yaw) {
  double a = angle(); int neg = mc::choose(2); double z = std::sin(a / 2), w = std::cos(a / 2); if (neg) z = -z, w = -w; if (std::fabs(z) < 1e-12 && mc::flip()) z = 0; if (std::fabs(w) < 1e-12 && mc::flip()) w = 0; Run r = run(quaternion2yaw_main, {"0", "0", num(z), num(w)}); std::vector<double> v = r.after("->"); MC_CHECK(r.status == 0 && v.size() == 2, "answer", "0 0 %g %g ends with %d: %s", z, w, r.status, r.out.c_str());
  MC_CHECK(apart(v[0], a) < 1e-4, "yaw", "the yaw of 0 0 %g %g is %g instead of %g", z, w, v[0], a); MC_CHECK(std::fabs(v[1] - v[0] * 180 / M_PI) < 1e-2, "degrees", "%g radians are printed as %g degrees", v[0], v[1]);
}
MC_SCENARIO(not_a_yaw) {
  static const double vs[] = {0, 0.5, -0.5, 0.001}; double x = mc::pick(vs), y = mc::pick(vs), z = mc::pick(vs); if (x == 0 && y == 0) mc::skip(); double w = std::sqrt(1 - x * x - y * y - z * z); Run r = run(quaternion2yaw_main, {num(x), num(y), num(z), num(w)});
  MC_CHECK(r.status != 0 && r.out.find("->") == std::string::npos, "accepted", "%g %g %g %g, which turns about another axis, is answered (status %d): %s", x, y, z, w, r.status, r.out.c_str());
}
MC_SCENARIO(bad_lines) {
  static const char* const words[] = {"x", "1x", "", "0.5", "-0.5", "1e"}; bool yaw = mc::flip(); int want = yaw ? 1 : 4, n = mc::choose(want + 2); std::vector<std::string> a; bool good = n == want; int odd = mc::choose(7); for (int i = 0; i < n; ++i) { std::string w = yaw ? "0.25" : i < 2 ? "0" : i == 2 ? "0.6" : "0.8"; if (odd && i == n - 1) { w = words[odd - 1]; if (odd != 4 && odd != 5) good = false; } a.push_back(w); } if (n == 0 && odd) mc::skip(); if (good && odd) mc::skip();
  Run r = run(yaw ? yaw2quaternion_main : quaternion2yaw_main, a); MC_CHECK((r.status == 0) == good, "bad-line", "%zu arguments ending in '%s': status %d, %s", a.size(), a.empty() ? "" : a.back().c_str(), r.status, r.out.c_str()); if (!good) MC_CHECK(r.out.find("->") == std::string::npos && r.out.find("Quaternion: [") == std::string::npos, "bad-line", "answered nevertheless: %s", r.out.c_str());
}

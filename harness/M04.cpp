// @SOURCES: ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @WRAP: rand srand
// @ASSUME: the system generator's numbers come from a boundary-closed set; distributions are judged over a full grid of number pairs;; generators share the system's one sequence, so a seed determines the numbers until another generator is constructed
#include <ecl/time/random_number_generator.hpp>
#include "util.hpp"
#include <cmath>
#include <memory>
extern "C" int __real_rand();
extern "C" void __real_srand(unsigned);
namespace {
using namespace ecl;
std::vector<int>* g_script = nullptr; size_t g_at = 0; bool g_exhausted = false; int g_draws = 0; bool g_own = false; uint32_t g_state = 0; int g_seeded = 0;
// After a script ends an accepted pair follows for ever, so rejection loops terminate.
int next_scripted() { ++g_draws; if (g_at < g_script->size()) return (*g_script)[g_at++]; g_exhausted = true; return g_draws % 2 ? 1500000000 : 900000000; }
}
extern "C" int __wrap_rand() { if (g_script) return next_scripted(); if (g_own) { g_state = g_state * 1103515245u + 12345u; return (int)(g_state >> 1); } return __real_rand(); }
extern "C" void __wrap_srand(unsigned s) { ++g_seeded; if (g_own) g_state = s; else if (!g_script) __real_srand(s); }
namespace {
struct Script { Script(std::vector<int>* v) { g_script = v; g_at = 0; g_exhausted = false; g_draws = 0; } ~Script() { g_script = nullptr; } };
const std::vector<int>& numbers() { static std::vector<int> v = [] { std::vector<int> w; for (int x : h::edges<int>()) if (x >= 0) w.push_back(x); for (int x : {RAND_MAX / 2 + 100, RAND_MAX / 3, RAND_MAX / 3 * 2, RAND_MAX - 64, RAND_MAX - 128}) w.push_back(x); return w; }(); return v; }
const int kEdge[] = {0, 1, RAND_MAX / 2 - 64, RAND_MAX / 2, RAND_MAX / 2 + 1, RAND_MAX / 2 + 200, 1700000000, 400000000, RAND_MAX - 1, RAND_MAX};
template <class T> void uniforms() {
  int r = mc::pick(numbers()); std::vector<int> s(1, r); T u, v; static const double ranges[] = {0, 1, 2.5, 1e-3, 1e6, 0.1, 3}; T range = (T)ranges[mc::choose(7)];
  { Script x(&s); RandomNumberGenerator<T> g(1); u = g.uniform(); } { Script x(&s); RandomNumberGenerator<T> g(1); v = g.uniform(range); }
  long double want = (long double)r / RAND_MAX, eps = 4 * std::numeric_limits<T>::epsilon(); mc::state(mc::hash(std::to_string(r))); mc::validated();
  mc::trace("system number %d: uniform %.9g, in range %g: %.9g", r, (double)u, (double)range, (double)v);
  MC_CHECK(u >= 0 && u <= 1, "unit", "uniform() is %.17g for system number %d", (double)u, r);
  MC_CHECK(std::fabs(u - want) <= eps, "uniform", "uniform() is %.17g for system number %d of %d", (double)u, r, RAND_MAX);
  MC_CHECK(v >= -range && v <= range, "range", "uniform(%g) is %.17g for system number %d", (double)range, (double)v, r);
  MC_CHECK(std::fabs(v - (2 * want - 1) * range) <= 2 * eps * range, "range", "uniform(%g) is %.17g for system number %d of %d", (double)range, (double)v, r, RAND_MAX);
}
// The mean and the spread asked for place and scale the same standard number; all are finite.
template <class T> void gaussians() {
  std::vector<int> s; int n = mc::range(0, mc::thorough() ? 6 : 5); for (int i = 0; i < n; ++i) s.push_back(kEdge[mc::choose(10)]);
  T z[3], y[3]; static const double stds[] = {2, 0.5, 0, 1e3}, mus[] = {0, -7, 0.25}; int a = mc::choose(4), b = mc::choose(3); T std_ = (T)stds[a], mu = (T)mus[b];
  { Script x(&s); RandomNumberGenerator<T> g(1); for (int i = 0; i < 3; ++i) z[i] = g.gaussian(1); } { Script x(&s); RandomNumberGenerator<T> g(1); for (int i = 0; i < 3; ++i) y[i] = i == 1 ? g.gaussian(1, mu) : g.gaussian(std_, mu); }
  mc::trace("gaussian numbers %.9g %.9g %.9g with deviation %g and mean %g: %.9g %.9g %.9g", (double)z[0], (double)z[1], (double)z[2], (double)std_, (double)mu, (double)y[0], (double)y[1], (double)y[2]); mc::validated();
  for (int i = 0; i < 3; ++i) {
    MC_CHECK(std::isfinite(z[i]) && std::isfinite(y[i]), "finite", "gaussian number %d is %g / %g (system numbers %s)", i, (double)z[i], (double)y[i], h::list(s).c_str());
    long double want = (i == 1 ? z[i] : z[i] * (long double)std_) + mu; mc::state(mc::hash(std::to_string((double)z[i])));
    MC_CHECK(std::fabs(y[i] - want) <= 8 * std::numeric_limits<T>::epsilon() * (std::fabs(want) + std::fabs(mu) + 1), "scale", "gaussian number %d: standard %.9g becomes %.9g with deviation %g, mean %g", i, (double)z[i], (double)y[i], (double)std_, (double)mu);
  }
}
// Every pair of an even grid of system numbers: the numbers drawn have the moments of the normal distribution.
template <class T> void moments() {
  int n = mc::thorough() ? 1200 : 300, odd = mc::flip(); double sum[5] = {0, 0, 0, 0, 0}, cross = 0, in1 = 0, in2 = 0; long count = 0;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    std::vector<int> s(2); s[0] = (int)((i + 0.5) / n * RAND_MAX); s[1] = (int)((j + 0.5) / n * RAND_MAX); if (odd) std::swap(s[0], s[1]);
    T z[2]; bool more; { Script x(&s); RandomNumberGenerator<T> g(1); z[0] = g.gaussian(1); z[1] = g.gaussian(1); more = g_exhausted; } if (more) continue; // rejected pair: the next one decides
    for (int k = 0; k < 2; ++k) { double p = 1; for (int m = 0; m < 5; ++m) { sum[m] += p; p *= z[k]; } in1 += std::fabs(z[k]) <= 1; in2 += std::fabs(z[k]) <= 2; } cross += z[0] * z[1]; ++count;
  }
  double N = sum[0], m1 = sum[1] / N, m2 = sum[2] / N, m3 = sum[3] / N, m4 = sum[4] / N, c = cross / count; mc::validated(count);
  mc::trace("%ld pairs: mean %.4f variance %.4f third %.4f fourth %.3f within one %.4f two %.4f pairs' covariance %.4f", count, m1, m2, m3, m4, in1 / N, in2 / N, c);
  MC_CHECK(count > n * n / 2, "moments", "only %ld of %d pairs of system numbers give numbers", count, n * n);
  MC_CHECK(std::fabs(m1) < 0.01 && std::fabs(m2 - 1) < 0.02 && std::fabs(m3) < 0.05 && std::fabs(m4 - 3) < 0.15 && std::fabs(in1 / N - 0.6827) < 0.01 && std::fabs(in2 / N - 0.9545) < 0.01 && std::fabs(c) < 0.01, "moments", "not normally distributed: mean %.4f variance %.4f third %.4f fourth %.3f within one %.4f two %.4f covariance of pairs %.4f", m1, m2, m3, m4, in1 / N, in2 / N, c);
}
// What a seed gives does not depend on what was drawn before it, by this or another generator.
template <class T> T draw(RandomNumberGenerator<T>& g, int op) { switch (op) { case 0: return g.uniform(); case 1: return g.uniform(3); case 2: return g.gaussian(1); default: return g.gaussian(2, 5); } }
template <class T> void seeds() {
  static const unsigned seedv[] = {0, 1, 12345, UINT32_MAX}; unsigned seed = seedv[mc::choose(4)]; g_own = true; int len = mc::range(1, 4); std::vector<int> ops; for (int i = 0; i < len; ++i) ops.push_back(mc::choose(4));
  std::vector<T> first, second;
  { RandomNumberGenerator<T> x(99); RandomNumberGenerator<T> g(seed); for (int op : ops) first.push_back(draw(g, op)); }
  int before = mc::choose(5); RandomNumberGenerator<T>* other = before < 3 ? nullptr : before == 3 ? new RandomNumberGenerator<T>(7) : new RandomNumberGenerator<T>;
  if (before == 1 || before == 2) { RandomNumberGenerator<T> g(42); for (int i = 0; i < before; ++i) g.gaussian(1); } if (other) { other->gaussian(1); }
  { RandomNumberGenerator<T> g(seed); for (int op : ops) second.push_back(draw(g, op)); }
  delete other; g_own = false; std::string t; for (size_t i = 0; i < ops.size(); ++i) { char b[60]; snprintf(b, sizeof b, " %d:%.6g", ops[i], (double)first[i]); t += b; mc::state(mc::hash(std::to_string((double)first[i]))); }
  mc::trace("seed %u before %d:%s", seed, before, t.c_str()); mc::validated();
  for (size_t i = 0; i < ops.size(); ++i) MC_CHECK(first[i] == second[i], "seed", "number %d after seeding with %u is %.9g the first time and %.9g the second (case %d before)", (int)i, seed, (double)first[i], (double)second[i], before);
}
// Each construction seeds the system generator; drawing never does.
MC_SCENARIO(seeding) {
  g_own = true; std::unique_ptr<RandomNumberGenerator<double>> g; int n = mc::range(1, 5);
  for (int i = 0; i < n; ++i) { int op = g ? mc::choose(6) : mc::choose(2), base = g_seeded; if (op == 0) { g.reset(new RandomNumberGenerator<double>(5)); MC_CHECK(g_state == 5 && g_seeded > base, "seeding", "the seed given is not the seed used"); } else if (op == 1) { g.reset(new RandomNumberGenerator<double>); MC_CHECK(g_seeded > base, "seeding", "the default generator does not seed"); } else { double v = draw(*g, op - 2); MC_CHECK(std::isfinite(v) && g_seeded == base, "seeding", "drawing seeds the system generator"); } mc::trace("operation %d", op); }
  g_own = false;
}
MC_SCENARIO(uniform_float) { uniforms<float>(); }
MC_SCENARIO(uniform_double) { uniforms<double>(); }
MC_SCENARIO(gaussian_float) { gaussians<float>(); }
MC_SCENARIO(gaussian_double) { gaussians<double>(); }
MC_SCENARIO(moments_float) { moments<float>(); }
MC_SCENARIO(moments_double) { moments<double>(); }
MC_SCENARIO(seeds_float) { seeds<float>(); }
MC_SCENARIO(seeds_double) { seeds<double>(); }
}

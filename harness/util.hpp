// Helpers shared by the harnesses.
#ifndef VERIF_UTIL_HPP_
#define VERIF_UTIL_HPP_
#include <mc.hpp>
#include <ecl/exceptions.hpp>
#include <ecl/errors.hpp>
#include <string>
#include <vector>
#include <deque>
#include <functional>
#include <limits>
#include <unordered_set>
#include <sstream>
namespace h {
// Whether this build throws from debug checks (@BUILDS adds one that does not).
#ifdef NDEBUG
const bool checked = false;
#else
const bool checked = true;
#endif
enum Outcome { Ok = -1, OtherException = -2 };
// Runs f; Ok, the flag of an ecl::StandardException, or OtherException.
template <class F> int outcome(F f) {
  try { f(); return Ok; }
  catch (const ecl::StandardException& e) { return (int)e.flag(); }
  catch (const mc::Abort&) { throw; }
  catch (const std::exception&) { return OtherException; }
}
// True the first time this process sees h: costly checks that depend only on the hashed state run once
// per state. A replay runs in a fresh process and therefore performs all of them.
inline bool first(uint64_t h) { static std::unordered_set<uint64_t>* s = new std::unordered_set<uint64_t>; return mc::replaying() || s->insert(h).second; }
inline std::string oname(int o) { return o == Ok ? "ok" : o == OtherException ? "other exception" : ecl::Error((ecl::ErrorFlag)o).what(); }
// A heap-owning element type: wrong construction/destruction counts show up as leaks or bad frees.
struct Cell {
  int* p;
  Cell() : p(new int(0)) {}
  Cell(int v) : p(new int(v)) {}
  Cell(const Cell& o) : p(new int(*o.p)) {}
  Cell& operator=(const Cell& o) { if (this != &o) { int v = *o.p; *p = v; } return *this; }
  ~Cell() { delete p; p = nullptr; }
  operator int() const { return *p; }
};
// Values of an integer type closed around zero, every power of two and of ten, and the limits.
template <class T> const std::vector<T>& edges() {
  static std::vector<T>* v = nullptr; if (v) return *v; v = new std::vector<T>;
  typedef __int128 W; std::vector<W> w; W lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  auto add = [&](W x) { for (int d = -1; d <= 1; ++d) if (x + d >= lo && x + d <= hi) { bool dup = false; for (W y : w) dup |= y == x + d; if (!dup) w.push_back(x + d); } };
  add(0); add(lo); add(hi); for (W p = 2; p <= hi; p *= 2) { add(p); add(-p); } for (W p = 10; p <= hi; p *= 10) { add(p); add(-p); add(9 * p); add(-9 * p); }
  for (W x : w) v->push_back((T)x); return *v;
}
template <class C> std::string list(const C& c) { std::ostringstream s; s << "["; bool f = true; for (auto& x : c) { s << (f ? "" : " ") << (long)x; f = false; } s << "]"; return s.str(); }
}
#endif

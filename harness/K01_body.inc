#include <memory>
namespace {
using namespace ecl;
#define SC2(v, n, ...) MC_SCENARIO(v##_##n, ##__VA_ARGS__)
#define SC1(v, n, ...) SC2(v, n, ##__VA_ARGS__)
#define SC(n, ...) SC1(VARIANT, n, ##__VA_ARGS__)
template <class A> bool overflow_reported(A& a) {
#if CHECKED
  return a.bufferOverRun() || a.bufferUnderRun() || a.bufferOverFlow();
#else
  return false;
#endif
}
// Compares an array with the reference sequence; -1 entries are unspecified.
template <class A> void compare(A& a, const std::vector<int>& m, const char* what) {
  const A& c = a; size_t n = m.size();
  MC_CHECK(c.size() == n, "size", "%s: size %zu, expected %zu", what, (size_t)c.size(), n);
  MC_CHECK(!overflow_reported(a), "false-overrun", "%s: an untouched array reports an overrun", what);
  uint64_t hs = 5;
  for (size_t i = 0; i < n; ++i) {
    hs = mc::mix(hs, m[i]); if (m[i] < 0) continue;
    int v[4] = {(int)a[i], (int)c[i], (int)a.at(i), (int)c.at(i)};
    for (int k = 0; k < 4; ++k) MC_CHECK(v[k] == m[i], "content", "%s: element %zu is %d, expected %d (access %d)", what, i, v[k], m[i], k);
  }
  // out of range accesses: once per (size, contents, way the array got here)
  if (h::first(mc::mix(mc::mix(hs, mc::hash(what)), mc::hash(__PRETTY_FUNCTION__)))) for (size_t d = 0; d < 3; ++d) {
    size_t idx = d == 2 ? (size_t)-1 : n + d;
    int o = h::outcome([&] { (void)(int)a.at(idx); }), o2 = h::outcome([&] { (void)(int)c.at(idx); });
    MC_CHECK(o == OutOfRangeError && o2 == OutOfRangeError, "at-range", "%s: at(%zd) on %zu elements: %s / %s", what, (ssize_t)idx, n, h::oname(o).c_str(), h::oname(o2).c_str());
    if (!h::checked) continue;
    int o3 = h::outcome([&] { (void)(int)a[idx]; }), o4 = h::outcome([&] { (void)(int)c[idx]; });
    MC_CHECK(o3 == OutOfRangeError && o4 == OutOfRangeError, "index-range", "%s: [%zd] on %zu elements: %s / %s", what, (ssize_t)idx, n, h::oname(o3).c_str(), h::oname(o4).c_str());
  }
  if (n) {
    size_t i = 0; for (auto it = a.begin(); it != a.end(); ++it, ++i) { MC_CHECK(i < n, "iterate", "%s: iteration runs past the end", what); if (m[i] >= 0) MC_CHECK((int)*it == m[i], "iterate", "%s: iteration element %zu is %d, expected %d", what, i, (int)*it, m[i]); }
    MC_CHECK(i == n, "iterate", "%s: iteration saw %zu of %zu", what, i, n);
    i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) if (m[i] >= 0) MC_CHECK((int)*it == m[i], "iterate", "%s: const iteration element %zu is %d", what, i, (int)*it);
    MC_CHECK(i == n, "iterate", "%s: const iteration saw %zu of %zu", what, i, n);
    i = n; for (auto it = a.rbegin(); it != a.rend(); ++it) { MC_CHECK(i > 0, "iterate", "%s: reverse iteration runs past the start", what); --i; if (m[i] >= 0) MC_CHECK((int)*it == m[i], "iterate", "%s: reverse element %zu is %d, expected %d", what, i, (int)*it, m[i]); }
    MC_CHECK(i == 0, "iterate", "%s: reverse iteration left %zu", what, i);
    i = n; for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; if (m[i] >= 0) MC_CHECK((int)*it == m[i], "iterate", "%s: const reverse element %zu is %d", what, i, (int)*it); }
    MC_CHECK(i == 0, "iterate", "%s: const reverse iteration left %zu", what, i);
    if (m[0] >= 0) MC_CHECK((int)a.front() == m[0] && (int)c.front() == m[0], "front", "%s: front is %d, expected %d", what, (int)a.front(), m[0]);
    if (m[n - 1] >= 0) MC_CHECK((int)a.back() == m[n - 1] && (int)c.back() == m[n - 1], "back", "%s: back is %d, expected %d", what, (int)a.back(), m[n - 1]);
  }
  else if (!h::checked) MC_CHECK(a.begin() == a.end() && c.begin() == c.end() && a.rbegin() == a.rend() && c.rbegin() == c.rend(), "iterate", "%s: an empty array iterates", what);
  mc::state(mc::mix(hs, n));
}
// list initialisation with k values v, v+1, ...; returns outcome
template <class A, class T> int list_init(A& a, int k, int v) {
  return h::outcome([&] {
    switch (k) {
      case 1: a << T(v); break;
      case 2: a << T(v), T(v + 1); break;
      case 3: a << T(v), T(v + 1), T(v + 2); break;
      case 4: a << T(v), T(v + 1), T(v + 2), T(v + 3); break;
      case 5: a << T(v), T(v + 1), T(v + 2), T(v + 3), T(v + 4); break;
    }
  });
}
template <class A, class T> void do_list(A& a, std::vector<int>& m, int k, int& next) {
  if (!h::checked && k > (int)m.size()) mc::skip();
  int o = list_init<A, T>(a, k, next); mc::trace("<< %d values from %d: %s", k, next, h::oname(o).c_str());
  for (int i = 0; i < k && i < (int)m.size(); ++i) m[i] = next + i;
  next += k;
  if (k <= (int)m.size()) MC_CHECK(o == h::Ok, "list-refused", "initialising %zu elements with %d values: %s", m.size(), k, h::oname(o).c_str());
  else MC_CHECK(o == OutOfRangeError, "list-overflow", "initialising %zu elements with %d values: %s instead of an out of range error", m.size(), k, h::oname(o).c_str());
}
template <class T> void dynamic_history(int depth) {
  typedef Array<T> A; std::unique_ptr<A> a; std::vector<int> m; int next = 1;
  switch (mc::choose(4)) {
    case 0: a.reset(new A()); mc::trace("construct empty"); break;
    case 1: { int n = mc::range(1, 3); a.reset(new A((unsigned)n)); m.assign(n, -1); mc::trace("construct %d", n); break; }
    case 2: { int n = mc::range(1, 3); a.reset(new A(A::Constant(n, T(next)))); m.assign(n, next++); mc::trace("construct constant %d", n); break; }
    case 3: { int n = mc::range(1, 3); auto bp = A::Constant(n, T(next)); T junk(77); (void)junk; a.reset(new A(bp)); m.assign(n, next++); mc::trace("construct from stored blueprint %d", n); break; }
  }
  compare(*a, m, "after construction");
  for (int d = 0; d < depth; ++d) {
    switch (mc::choose(9)) {
      case 0: { if (m.empty()) mc::skip(); int i = mc::choose((int)m.size()); mc::trace("[%d] = %d", i, next); if (d & 1) (*a)[i] = T(next); else a->at(i) = T(next); m[i] = next++; break; }
      case 1: { if (m.empty()) mc::skip(); mc::trace("iterate and assign"); for (auto it = a->begin(); it != a->end(); ++it) *it = T(next); m.assign(m.size(), next++); break; }
      case 2: { if (m.empty()) mc::skip(); int k = mc::range(1, 5); if (k > (int)m.size() + 1) mc::skip(); do_list<A, T>(*a, m, k, next); break; }
      case 3: { int n = mc::range(1, 4); mc::trace("resize %d", n); a->resize(n); m.assign(n, -1); break; }
      case 4: mc::trace("clear"); a->clear(); m.clear(); break;
      case 5: { mc::trace("copy construct, disturb the original"); std::unique_ptr<A> b(new A(*a)); if (!m.empty()) { for (auto& x : *a) x = T(99); } a->resize(2); a.swap(b); break; }
      case 6: { int n = mc::range(0, 3); mc::trace("assign over an array of %d, disturb the original", n); std::unique_ptr<A> b(n ? new A(A::Constant(n, T(88))) : new A()); *b = *a; if (!m.empty()) for (auto& x : *a) x = T(99); a->clear(); a.swap(b); break; }
      case 7: { mc::trace("assign to itself"); A& alias = *a; *a = alias; break; }
      case 8: { mc::trace("assign a constant blueprint"); *a = A::Constant(2, T(next)); m.assign(2, next++); break; }
    }
    compare(*a, m, "after operation");
  }
}
template <class T, size_t N> void fixed_history(int depth) {
  typedef Array<T, N> A; std::unique_ptr<A> a; std::vector<int> m; int next = 1;
  switch (mc::choose(3)) {
    case 0: a.reset(new A()); m.assign(N, -1); mc::trace("construct"); break;
    case 1: a.reset(new A(A::Constant(T(next)))); m.assign(N, next++); mc::trace("construct constant"); break;
    case 2: { auto bp = A::Constant(T(next)); { volatile int junk[8] = {1, 2, 3, 4, 5, 6, 7, 8}; (void)junk; } a.reset(new A(bp)); m.assign(N, next++); mc::trace("construct from a stored blueprint"); break; }
  }
  compare(*a, m, "after construction");
  for (int d = 0; d < depth; ++d) {
    switch (mc::choose(6)) {
      case 0: { int i = mc::choose(N); mc::trace("[%d] = %d", i, next); if (d & 1) (*a)[i] = T(next); else a->at(i) = T(next); m[i] = next++; break; }
      case 1: { int k = mc::range(1, 5); do_list<A, T>(*a, m, k, next); break; }
      case 2: { mc::trace("copy construct, disturb the original"); std::unique_ptr<A> b(new A(*a)); for (auto& x : *a) x = T(99); a.swap(b); break; }
      case 3: { mc::trace("assign, disturb the original"); std::unique_ptr<A> b(new A(A::Constant(T(88)))); *b = *a; for (auto& x : *a) x = T(99); a.swap(b); break; }
      case 4: { mc::trace("assign to itself"); A& alias = *a; *a = alias; break; }
      case 5: { mc::trace("assign a constant blueprint"); *a = A::Constant(T(next)); m.assign(N, next++); break; }
    }
    compare(*a, m, "after operation");
  }
}
// Sizes beyond those of the histories: every dynamic size up to a few hundred, and some fixed ones.
template <class A> void fill_in(A& a, std::vector<int>& m, int base) { for (size_t i = 0; i < m.size(); ++i) { if (i & 1) a[i] = (base + i) % 100; else a.at(i) = (base + i) % 100; m[i] = (base + i) % 100; } }
template <class T> void dynamic_sizes(int limit) {
  typedef Array<T> A; int n = mc::range(1, limit), how = mc::choose(4); mc::step(); mc::validated(); mc::trace("size %d, %d", n, how); A a; if (how & 1) a.resize(n); else a = A::Constant(n, T(9)); std::vector<int> m(n, how & 1 ? -1 : 9); compare(a, m, "made"); fill_in(a, m, how); compare(a, m, "filled in");
  A b(a), c; if (how & 2) c.resize(n + 3); c = a; { A& alias = c; c = alias; } for (auto& x : a) x = T(99); compare(b, m, "copy"); compare(c, m, "assigned"); m.assign(n, 99); compare(a, m, "iterated");
  T v(1); { auto l = (a << v); for (int i = 1; i < n; ++i) { l, T((i + 1) % 100); } } for (int i = 0; i < n; ++i) m[i] = (i + 1) % 100; compare(a, m, "list initialised"); if (h::checked) { int o = h::outcome([&] { auto l = (a << v); for (int i = 1; i <= n; ++i) { l, T((i + 1) % 100); } }); MC_CHECK(o == OutOfRangeError, "list-overflow", "initialising %d elements with one more value: %s", n, h::oname(o).c_str()); compare(a, m, "list too long"); }
  int grown[] = {n + 1, n / 2 + 1, 2 * n, 1}; int k = grown[how]; a.resize(k); m.assign(k, -1); compare(a, m, "resized"); fill_in(a, m, 7); compare(a, m, "resized and filled in"); a.clear(); m.clear(); compare(a, m, "cleared");
}
template <class T, size_t N> void fixed_size() {
  typedef Array<T, N> A; bool made = mc::flip(); mc::step(); mc::validated(); mc::trace("fixed size %zu", N); A a; if (made) a = A::Constant(T(9)); std::vector<int> m(N, made ? 9 : -1); compare(a, m, "made"); fill_in(a, m, 3); compare(a, m, "filled in"); A b(a), c; c = a; for (auto& x : a) x = T(99); compare(b, m, "copy"); compare(c, m, "assigned"); m.assign(N, 99); compare(a, m, "iterated");
  { auto l = (a << T(1)); for (size_t i = 1; i < N; ++i) { l, T((i + 1) % 100); } } for (size_t i = 0; i < N; ++i) m[i] = (i + 1) % 100; compare(a, m, "list initialised"); if (h::checked) { int o = h::outcome([&] { auto l = (a << T(1)); for (size_t i = 1; i <= N; ++i) { l, T((i + 1) % 100); } }); MC_CHECK(o == OutOfRangeError, "list-overflow", "initialising %zu elements with one more value: %s", N, h::oname(o).c_str()); }
}
template <class T> void fixed_sizes() { switch (mc::choose(8)) { case 0: fixed_size<T, 1>(); break; case 1: fixed_size<T, 5>(); break; case 2: fixed_size<T, 8>(); break; case 3: fixed_size<T, 13>(); break; case 4: fixed_size<T, 31>(); break; case 5: fixed_size<T, 64>(); break; case 6: fixed_size<T, 130>(); break; case 7: fixed_size<T, 300>(); break; } }
// Blueprints used directly: made with or without a value, turned into an array or applied to one that has something else.
template <class T> void blueprint_use() {
  bool dyn = mc::flip(), zero = mc::flip(); int n = dyn ? mc::range(1, 4) : 3, how = mc::choose(3), was = dyn ? mc::range(0, 5) : 3; mc::step(); mc::validated(); mc::trace("%s blueprint of %d, %s", dyn ? "dynamic" : "fixed", n, zero ? "default value" : "value 6");
  std::vector<int> m(n, zero ? 0 : 6);
  if (dyn) { typedef Array<T> A; typedef blueprints::ConstantDynamicArray<T> B; B b(n, T(zero ? 0 : 6)); A a; if (was) { a.resize(was); for (auto& x : a) x = T(50); } if (how == 0) { b.apply(a); compare(a, m, "applied"); } else if (how == 1) { A c(b.instantiate()); compare(c, m, "instantiated"); } else { a = b; compare(a, m, "assigned"); } { A again(b); compare(again, m, "constructed again"); } }
  else { typedef Array<T, 3> A; typedef blueprints::ConstantArray<T, 3> B; B b = zero ? B() : B(T(6)); A a; for (auto& x : a) x = T(50); if (how == 0) { b.apply(a); compare(a, m, "applied"); } else if (how == 1) { A c(b.instantiate()); compare(c, m, "instantiated"); } else { a = b; compare(a, m, "assigned"); } { A again(b); compare(again, m, "constructed again"); } }
}
SC(blueprints) { if (mc::flip()) blueprint_use<int>(); else blueprint_use<char>(); }
SC(sizes_int) { dynamic_sizes<int>(300); }
SC(sizes_char) { dynamic_sizes<char>(80); }
SC(sizes_fixed_int) { fixed_sizes<int>(); }
SC(sizes_fixed_char) { fixed_sizes<char>(); }
#if !CHECKED
SC(sizes_double) { dynamic_sizes<double>(80); }
SC(sizes_cell) { dynamic_sizes<h::Cell>(40); }
SC(sizes_fixed_double) { fixed_sizes<double>(); }
SC(sizes_fixed_cell) { fixed_sizes<h::Cell>(); }
#endif
// (release builds only differ in the checks: one operation less)
SC(dynamic_int) { dynamic_history<int>(mc::tiered(CHECKED || !h::checked ? 3 : 4, h::checked ? 5 : 4)); }
SC(dynamic_char) { dynamic_history<char>(mc::tiered(3, 4)); }
SC(fixed_int) { int d = mc::tiered(h::checked ? 4 : 3, 5); switch (mc::choose(4)) { case 0: fixed_history<int, 1>(d); break; case 1: fixed_history<int, 2>(d); break; case 2: fixed_history<int, 3>(d); break; default: fixed_history<int, 4>(d); } }
SC(fixed_char) { int d = mc::tiered(3, 4); switch (mc::choose(2)) { case 0: fixed_history<char, 1>(d); break; default: fixed_history<char, 4>(d); } }
#if !CHECKED
SC(dynamic_cell) { dynamic_history<h::Cell>(mc::tiered(3, 5)); }
SC(fixed_cell) { int d = mc::tiered(h::checked ? 4 : 3, 5); switch (mc::choose(2)) { case 0: fixed_history<h::Cell, 1>(d); break; default: fixed_history<h::Cell, 3>(d); } }
// A constructor that throws while the storage is being replaced must leave a usable array behind.
int g_budget = 1 << 30;
struct Bomb : h::Cell { Bomb() { arm(); } Bomb(int v) : h::Cell(v) {} Bomb(const Bomb& o) : h::Cell(o) {} static void arm() { if (--g_budget < 0) throw StandardException(LOC, MemoryError); } };
SC(resize_failure) {
  int n = mc::range(0, 3), k = mc::range(1, 4), at = mc::range(0, 3), then = mc::choose(4);
  if (at >= k) mc::skip();
  g_budget = 1 << 30; std::vector<int> m(n, 0); 
  { Array<Bomb> a; if (n) { a.resize(n); for (int i = 0; i < n; ++i) { a[i] = Bomb(i + 1); m[i] = i + 1; } }
    g_budget = at; int o = h::outcome([&] { a.resize(k); }); g_budget = 1 << 30;
    mc::trace("resize %d -> %d fails at element %d: %s; then %d", n, k, at, h::oname(o).c_str(), then);
    MC_CHECK(o == MemoryError, "swallowed", "the failure was not passed on: %s", h::oname(o).c_str());
    switch (then) { case 0: break; case 1: a.clear(); break; case 2: a.resize(2); a[0] = Bomb(5); break; case 3: { for (size_t i = 0; i < a.size(); ++i) a[i] = Bomb(7); Array<Bomb> b(a); MC_CHECK(b.size() == a.size(), "size", "copy size"); } }
  }
}
#else
// every byte next to the elements, through a pointer past either end
template <class A> void smash(A& a, size_t bytes, const char* what) {
  int side = mc::choose(2), off = mc::choose(4), pat = mc::choose(3);
  char* base = (char*)&a[0]; char* p = side ? base + bytes + off : base - 1 - off; static const unsigned char pats[] = {0x00, 0xCD, 0x33}; char old = *p;
  mc::trace("%s: write 0x%02x at %s %d", what, pats[pat], side ? "end +" : "start -", off + 1);
  // volatile and unchecked: the write models a stray store by user code
  *(volatile char*)p = (char)pats[pat];
  bool over = a.bufferOverRun(), under = a.bufferUnderRun(), flow = a.bufferOverFlow();
  *(volatile char*)p = old;
  bool clean = !a.bufferOverRun() && !a.bufferUnderRun() && !a.bufferOverFlow();
  MC_CHECK(over == (side == 1), "overrun-query", "%s: overrun query says %d after a write %s", what, over, side ? "past the end" : "before the start");
  MC_CHECK(under == (side == 0), "underrun-query", "%s: underrun query says %d after a write %s", what, under, side ? "past the end" : "before the start");
  MC_CHECK(flow, "overflow-query", "%s: overflow query missed it", what);
  MC_CHECK(clean, "overflow-sticky", "%s: still reported after restoring", what);
}
SC(overrun_detection) {
  switch (mc::choose(5)) {
    case 0: { Array<int, 1> a; smash(a, 4, "fixed int 1"); break; }
    case 1: { Array<int, 3> a(Array<int, 3>::Constant(2)); smash(a, 12, "fixed int 3"); break; }
    case 2: { Array<char, 3> a; smash(a, 3, "fixed char 3"); break; }
    case 3: { int n = mc::range(1, 4); std::unique_ptr<Array<int>> a; switch (mc::choose(4)) { case 0: a.reset(new Array<int>((unsigned)n)); break; case 1: a.reset(new Array<int>()); a->resize(n); break; case 2: { Array<int> t((unsigned)n); for (auto& x : t) x = 1; a.reset(new Array<int>(t)); break; } case 3: a.reset(new Array<int>(Array<int>::Constant(n, 3))); break; } smash(*a, 4 * n, "dynamic int"); break; }
    case 4: { int n = mc::range(1, 4); Array<char> a((unsigned)n); smash(a, n, "dynamic char"); break; }
  }
}
#endif
}

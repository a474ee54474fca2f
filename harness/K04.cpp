// @SOURCES: ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @ASSUME: element types int and a heap-owning class;; capacities 1..4 in all histories, up to 300 in the sweep of sizes;; operation histories up to the stated depth
#include "util.hpp"
#include <iostream>
#include <ecl/containers/push_and_pop.hpp>
using namespace ecl;
template <class T> PushAndPop<T, DynamicStorage>* make(PushAndPop<T, DynamicStorage>*, int cap) { return new PushAndPop<T, DynamicStorage>(cap); }
template <class T, size_t N> PushAndPop<T, N>* make(PushAndPop<T, N>*, int) { return new PushAndPop<T, N>(); }
template <class Q> void compare(Q& q, const std::deque<int>& m, const char* what) {
  const Q& c = q;
  MC_CHECK(c.size() == m.size(), "size", "%s: size is %u, expected %zu", what, c.size(), m.size());
  for (size_t i = 0; i < m.size(); ++i) {
    int g = q[(int)i], k = c[(int)i];
    MC_CHECK(g == m[i], "order", "%s: entry %zu is %d, expected %d (contents %s)", what, i, g, m[i], h::list(m).c_str());
    MC_CHECK(k == m[i], "const-order", "%s: const entry %zu is %d, expected %d", what, i, k, m[i]);
  }
  mc::state(mc::mix(mc::hash_vec(std::vector<int>(m.begin(), m.end())), q.asize()));
}
// One history over any push-and-pop kind. cap: current capacity.
template <class Q, class T> struct Run {
  std::deque<int> m; int cap, next; Q* q;
  Run() : next(1), q(0) {}
  ~Run() { delete q; }
  void push() { mc::trace("push %d", next); q->push_back(T(next)); m.push_back(next++); if ((int)m.size() > cap) m.pop_front(); }
  void pop() {
    if (!h::checked && m.empty()) mc::skip();
    mc::trace("pop");
    int v = 0; int o = h::outcome([&] { v = q->pop_front(); });
    if (m.empty()) MC_CHECK(o == OutOfRangeError, "pop-empty", "popping an empty queue: %s instead of an out of range error", h::oname(o).c_str());
    else { MC_CHECK(o == h::Ok, "pop-refused", "popping a queue of %zu elements: %s", m.size(), h::oname(o).c_str());
      MC_CHECK(v == m.front(), "pop-order", "popped %d, expected the oldest element %d", v, m.front()); m.pop_front(); }
  }
  bool common(int c) {
    switch (c) {
      case 0: push(); return true;
      case 1: pop(); return true;
      case 2: mc::trace("fill %d", next); q->fill(T(next)); m.assign(m.size(), next++); return true;
      case 3: mc::trace("clear"); q->clear(); m.clear(); return true;
      case 4: { mc::trace("copy"); Q* c2 = new Q(*q); q->push_back(T(9000)); q->fill(T(9001)); delete q; q = c2; return true; }
      case 5: { mc::trace("take over by call operator / assignment");
        Q* c2 = make((Q*)0, cap); c2->push_back(T(8000)); if (mc::flip()) (*c2)(*q); else *c2 = *q; q->push_back(T(9000)); q->fill(T(9001)); delete q; q = c2; return true; }
    }
    return false;
  }
};
template <class T> void dynamic_history(int depth) {
  Run<PushAndPop<T>, T> r; r.cap = mc::range(1, 4);
  switch (mc::choose(3)) {
    case 0: r.q = new PushAndPop<T>(r.cap); break;
    case 1: r.q = new PushAndPop<T>(r.cap, T(-5)); break;
    case 2: r.q = new PushAndPop<T>(); r.q->resize(r.cap); break;
  }
  mc::trace("capacity %d", r.cap);
  compare(*r.q, r.m, "after construction");
  for (int d = 0; d < depth; ++d) {
    int c = mc::choose(7);
    if (!r.common(c)) { int s = mc::range(1, 4); mc::trace("resize %d", s); r.q->resize(s); r.m.clear(); r.cap = s; }
    MC_CHECK((int)r.q->asize() >= r.cap, "capacity", "allocated size %u below the capacity %d", r.q->asize(), r.cap);
    compare(*r.q, r.m, "after operation");
  }
}
template <class T, size_t N> void fixed_history(int depth) {
  struct R : Run<PushAndPop<T, N>, T> {} r; r.cap = N; r.q = mc::flip() ? new PushAndPop<T, N>() : new PushAndPop<T, N>(T(-5));
  mc::trace("fixed capacity %d", (int)N);
  compare(*r.q, r.m, "after construction");
  for (int d = 0; d < depth; ++d) {
    int c = mc::choose(6);
    r.common(c);
    compare(*r.q, r.m, "after operation");
  }
}
MC_SCENARIO(dynamic_int) { dynamic_history<int>(mc::tiered(4, 6)); }
MC_SCENARIO(dynamic_cell) { dynamic_history<h::Cell>(mc::tiered(4, 5)); }
MC_SCENARIO(fixed_int) { int d = mc::tiered(6, 8); switch (mc::choose(3)) { case 0: fixed_history<int, 1>(d); break; case 1: fixed_history<int, 2>(d); break; default: fixed_history<int, 3>(d); } }
MC_SCENARIO(fixed_cell) { int d = mc::tiered(5, 6); switch (mc::choose(2)) { case 0: fixed_history<h::Cell, 1>(d); break; default: fixed_history<h::Cell, 3>(d); } }
// pushes and pops only, deeper, so that every leader/follower offset of the wrap-around is reached
MC_SCENARIO(push_pop_deep) {
  int cap = mc::range(1, 4), depth = mc::tiered(14, 18);
  PushAndPop<int> d(cap); PushAndPop<int, 3> f; std::deque<int> m, mf; int next = 1;
  for (int i = 0; i < depth; ++i) {
    if (mc::flip()) { mc::trace("push %d", next); d.push_back(next); m.push_back(next); if ((int)m.size() > cap) m.pop_front(); f.push_back(next); mf.push_back(next); if (mf.size() > 3) mf.pop_front(); next++; }
    else if (m.empty() || mf.empty()) mc::skip();
    else { mc::trace("pop"); int a = d.pop_front(), b = f.pop_front(); MC_CHECK(a == m.front(), "pop-order", "popped %d, expected %d", a, m.front()); MC_CHECK(b == mf.front(), "pop-order", "fixed: popped %d, expected %d", b, mf.front()); m.pop_front(); mf.pop_front(); }
    compare(d, m, "dynamic"); compare(f, mf, "fixed");
  }
}
// Every capacity up to a few hundred: pushes past the end, partial drains, pushes again, a copy, and draining to the end.
template <class Q> void sweep(Q& q, int n) {
  typedef typename std::decay<decltype(q[0])>::type T; std::deque<int> m; int next = 0; static const int fr[] = {0, 1, 50, 99, 100, 101, 250}; int a = n * mc::pick(fr) / 100, d = mc::choose(3) * n / 2, b = n * (mc::choose(3)) / 2; bool fill = mc::flip(); mc::step(); mc::validated(); mc::trace("capacity %d: %d pushes, %d pops, %d pushes, fill %d", n, a, d, b, fill);
  auto push = [&] { q.push_back(T(next % 100)); m.push_back(next++ % 100); if ((int)m.size() > n) m.pop_front(); };
  for (int i = 0; i < a; ++i) push(); for (int i = 0; i < d && !m.empty(); ++i) { int v = q.pop_front(); MC_CHECK(v == m.front(), "pop-order", "popped %d, expected %d", v, m.front()); m.pop_front(); } for (int i = 0; i < b; ++i) push(); if (fill) { q.fill(T(42)); m.assign(m.size(), 42); }
  compare(q, m, "after a run"); Q c(q); q.clear(); q.push_back(T(1)); std::deque<int> one(1, 1); compare(q, one, "after clear"); compare(c, m, "copy");
  while (!m.empty()) { int v = c.pop_front(); MC_CHECK(v == m.front(), "pop-order", "popped %d, expected %d", v, m.front()); m.pop_front(); } if (h::checked) MC_CHECK(h::outcome([&] { c.pop_front(); }) == OutOfRangeError, "pop-empty", "popping a drained queue of capacity %d is accepted", n); compare(c, m, "drained");
}
MC_SCENARIO(sizes_int) { int n = mc::range(1, 300); if (mc::flip()) { PushAndPop<int> q(n); sweep(q, n); } else { PushAndPop<int> q(3, 9); q.push_back(8); q.resize(n); sweep(q, n); } }
MC_SCENARIO(sizes_char) { int n = mc::range(1, 60); PushAndPop<char> q(n); sweep(q, n); }
MC_SCENARIO(sizes_double) { int n = mc::range(1, 60); PushAndPop<double> q(n, 2.0); sweep(q, n); }
MC_SCENARIO(sizes_fixed) { switch (mc::choose(6)) { case 0: { PushAndPop<int, 7> q; sweep(q, 7); break; } case 1: { PushAndPop<int, 16> q(4); sweep(q, 16); break; } case 2: { PushAndPop<int, 127> q; sweep(q, 127); break; } case 3: { PushAndPop<int, 255> q(4); sweep(q, 255); break; } case 4: { PushAndPop<char, 64> q; sweep(q, 64); break; } case 5: { PushAndPop<double, 300> q; sweep(q, 300); break; } } }

// @SOURCES: ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @ASSUME: element types int and a heap-owning class;; capacities 1..4 in all histories, up to 300 in the sweep of sizes;; operations from push/fill/resize/copy up to the stated depth;; indices 0..2N-1
#include "util.hpp"
#include <ecl/containers/fifo.hpp>
using namespace ecl;
// Reference: the N most recent entries, oldest first; -1 = unspecified (never written since resize/construction).
template <class T> struct Run {
  FiFo<T>* f; std::deque<int> m; int next;
  Run() : f(0), next(1) {}
  ~Run() { delete f; }
  void check(const char* what) {
    const FiFo<T>& cf = *f;
    int n = (int)m.size();
    for (int i = 0; i < 2 * n; ++i) {
      int want = m[i % n];
      int got = (*f)[i], cgot = cf[i];
      if (want >= 0) {
        MC_CHECK(got == want, "order", "%s: entry %d is %d, expected %d (contents %s)", what, i, got, want, h::list(m).c_str());
        MC_CHECK(cgot == want, "const-order", "%s: const entry %d is %d, expected %d", what, i, cgot, want);
      }
    }
    uint64_t hs = 3; for (int x : m) hs = mc::mix(hs, x); mc::state(hs);
  }
  void run(int depth) {
    int n = mc::range(1, 4);
    if (mc::flip()) { f = new FiFo<T>(n, T(next)); m.assign(n, next); mc::trace("construct(%d, fill %d)", n, next); next++; }
    else { f = new FiFo<T>(n); m.assign(n, -1); mc::trace("construct(%d)", n); }
    if (m[0] >= 0) check("after construction");
    for (int d = 0; d < depth; ++d) {
      switch (mc::choose(5)) {
        case 0: mc::trace("push %d", next); f->push_back(T(next)); m.pop_front(); m.push_back(next); next++; break;
        case 1: mc::trace("fill %d", next); f->fill(T(next)); m.assign(m.size(), next); next++; break;
        case 2: {
          static const int sizes[] = {1, 2, 3, 4}; int s = sizes[mc::choose(4)]; if (s == (int)m.size()) mc::skip();
          mc::trace("resize %d", s); f->resize(s); m.assign(s, -1);
          break; }
        case 3: {
          mc::trace("copy, then disturb the original");
          FiFo<T>* g = new FiFo<T>(*f); f->fill(T(9000)); f->push_back(T(9001)); delete f; f = g; break; }
        case 4: {
          mc::trace("assign to a used buffer, then disturb the original");
          FiFo<T>* g = new FiFo<T>(3, T(8000)); g->push_back(T(8001)); *g = *f; f->fill(T(9000)); f->push_back(T(9001)); delete f; f = g; break; }
      }
      check("after operation");
    }
  }
};
MC_SCENARIO(int_histories) { Run<int> r; r.run(mc::tiered(5, 7)); }
MC_SCENARIO(cell_histories) { Run<h::Cell> r; r.run(mc::tiered(5, 7)); }
// long runs: every number of pushes up to 3N after every fill level, no other operation
MC_SCENARIO(wraparound) {
  int n = mc::range(1, 6), k = mc::range(0, 20);
  FiFo<int> f(n, -7); std::deque<int> m(n, -7);
  for (int i = 0; i < k; ++i) { f.push_back(100 + i); m.pop_front(); m.push_back(100 + i); }
  mc::trace("capacity %d, %d pushes", n, k);
  for (int i = 0; i < n; ++i) MC_CHECK(f[i] == m[i], "order", "entry %d is %d, expected %d", i, f[i], m[i]);
}
// a refused resize leaves the buffer usable
MC_SCENARIO(resize_zero) {
  if (!h::checked) mc::skip();
  int n = mc::range(1, 4), k = mc::range(0, 5);
  FiFo<int> f(n, 1); std::deque<int> m(n, 1);
  for (int i = 0; i < k; ++i) { f.push_back(10 + i); m.pop_front(); m.push_back(10 + i); }
  int o = h::outcome([&] { f.resize(0); }); mc::trace("resize 0 -> %s", h::oname(o).c_str());
  MC_CHECK(o == OutOfRangeError, "zero-accepted", "resizing to no entries was not refused as out of range: %s", h::oname(o).c_str());
  for (int i = 0; i < n; ++i) MC_CHECK(f[i] == m[i], "zero-damage", "entry %d is %d, expected %d after a refused resize", i, f[i], m[i]);
  f.push_back(99); m.pop_front(); m.push_back(99);
  for (int i = 0; i < n; ++i) MC_CHECK(f[i] == m[i], "zero-damage", "entry %d is %d, expected %d after a refused resize", i, f[i], m[i]);
}
// Every capacity up to a few hundred, with pushes around each multiple of it, a copy in the middle and a fill or a resize at the end.
template <class T> void sweep(int limit) {
  int n = mc::range(1, limit), k = mc::choose(6), pushes[] = {0, 1, n - 1, n, n + 1, 3 * n + 2}, end = mc::choose(3); mc::step(); mc::validated(); mc::trace("capacity %d, %d pushes, then %d", n, pushes[k], end);
  FiFo<T> f(n, T(3)); std::deque<int> m(n, 3); for (int i = 0; i < pushes[k]; ++i) { f.push_back(T(i % 100)); m.pop_front(); m.push_back(i % 100); }
  FiFo<T> g(f); FiFo<T> a(2, T(1)); a = f; f.push_back(T(77));
  for (int i = 0; i < 2 * n; ++i) { int x = g[i], y = a[i]; MC_CHECK(x == m[i % n] && y == m[i % n], "order", "entry %d of a copy is %d and of an assigned one %d, expected %d", i, x, y, m[i % n]); }
  m.pop_front(); m.push_back(77); if (end == 1) { f.fill(T(55)); m.assign(n, 55); } if (end == 2) { f.resize(n + 2); m.assign(n + 2, 0); for (int i = 0; i < n + 3; ++i) { f.push_back(T(i % 90)); m.pop_front(); m.push_back(i % 90); } }
  for (int i = 0; i < (int)m.size(); ++i) { int x = f[i]; MC_CHECK(x == m[i], "order", "entry %d is %d, expected %d", i, x, m[i]); }
}
MC_SCENARIO(sizes_int) { sweep<int>(300); }
MC_SCENARIO(sizes_char) { sweep<char>(70); }
MC_SCENARIO(sizes_double) { sweep<double>(70); }
MC_SCENARIO(sizes_cell) { sweep<h::Cell>(40); }

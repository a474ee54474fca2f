// @SOURCES: ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @ASSUME: ranges outside the underlying one are not asked for in release builds, which do not check them;; a dynamic array without storage is refused and not used as a range;; underlying ranges of 0 to 4 elements in all histories, up to 300 in the sweep of sizes;; window requests with start and length up to two past the range plus the largest unsigned values;; windows inside the container but outside the parent stencil may be accepted or refused;; the container is not resized under a stencil
#include "util.hpp"
#include <memory>
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
namespace {
using namespace ecl;
// Underlying ranges: storage, construction of a stencil by iterators or by index.
template <class C> struct Range { typedef Stencil<C> S; typedef C Store; C c; size_t n; bool array_api; int len() const { return (int)n; }
  int get(int i) { return (int)c[i]; } void put(int i, int v) { c[i] = (typename C::value_type)v; }
  S by_iter(long b, long e) { return S(c, c.begin() + b, c.begin() + e); } S by_index(unsigned b, unsigned k) { return S(c, b, k); } };
template <> struct Range<unsigned char*> { typedef Stencil<unsigned char*> S; unsigned char* c; size_t n; std::unique_ptr<unsigned char[]> hold; int len() const { return (int)n; }
  int get(int i) { return c[i]; } void put(int i, int v) { c[i] = (unsigned char)v; }
  S by_iter(long b, long e) { return S(c, n, c + b, c + e); } S by_index(unsigned b, unsigned k) { return S(c, n, b, k); } };
template <> struct Range<const unsigned char*> { typedef Stencil<const unsigned char*> S; unsigned char* c; size_t n; std::unique_ptr<unsigned char[]> hold; int len() const { return (int)n; }
  int get(int i) { return c[i]; } void put(int i, int v) { c[i] = (unsigned char)v; }
  S by_iter(long b, long e) { return S(c, n, c + b, c + e); } S by_index(unsigned b, unsigned k) { return S(c, n, b, k); } };
template <class S> int list_init(S& s, int k, int v) {
  typedef typename S::value_type T;
  return h::outcome([&] { switch (k) {
    case 1: s << T(v); break; case 2: s << T(v), T(v + 1); break; case 3: s << T(v), T(v + 1), T(v + 2); break;
    case 4: s << T(v), T(v + 1), T(v + 2), T(v + 3); break; case 5: s << T(v), T(v + 1), T(v + 2), T(v + 3), T(v + 4); break; } });
}
inline int list_init(Stencil<const unsigned char*>&, int, int) { mc::skip(); }
template <class S> void poke(S& s, int i, int v, int how) { typedef typename S::value_type T; switch (how) { case 0: s[i] = T(v); break; case 1: s.at(i) = T(v); break; case 2: *(s.begin() + i) = T(v); break; default: *(s.rbegin() + (s.size() - 1 - i)) = T(v); } }
inline void poke(Stencil<const unsigned char*>&, int, int, int) { mc::skip(); }

template <class C> void compare(Range<C>& r, typename Range<C>::S& s, const std::vector<int>& m, int b, int e, const char* what) {
  const typename Range<C>::S& c = s; int n = e - b; 
  for (int i = 0; i < r.len(); ++i) MC_CHECK(r.get(i) == m[i], "underlying", "%s: element %d of the underlying range is %d, expected %d", what, i, r.get(i), m[i]);
  MC_CHECK((int)c.size() == n, "size", "%s: window [%d,%d) reports size %d", what, b, e, (int)c.size());
  for (int i = 0; i < n; ++i) {
    int v[4]; int o = h::outcome([&] { v[0] = (int)s[i]; v[1] = (int)c[i]; v[2] = (int)s.at(i); v[3] = (int)c.at(i); });
    MC_CHECK(o == h::Ok, "access-refused", "%s: element %d of window [%d,%d): %s", what, i, b, e, h::oname(o).c_str());
    for (int k = 0; k < 4; ++k) MC_CHECK(v[k] == m[b + i], "content", "%s: element %d of window [%d,%d) is %d, expected %d (access %d)", what, i, b, e, v[k], m[b + i], k);
  }
  if (h::first(mc::mix(mc::mix(b, e), mc::mix(r.len(), mc::hash(__PRETTY_FUNCTION__)))))
    for (size_t i : {(size_t)n, (size_t)n + 1, (size_t)n + 4, (size_t)1000000, (size_t)-1}) {
      int o = h::outcome([&] { (void)(int)s.at(i); }), o2 = h::outcome([&] { (void)(int)c.at(i); });
      MC_CHECK(o == OutOfRangeError && o2 == OutOfRangeError, "at-range", "%s: at(%zd) of window [%d,%d) over %d elements: %s / %s", what, (ssize_t)i, b, e, r.len(), h::oname(o).c_str(), h::oname(o2).c_str());
    }
  int i = b; for (auto it = s.begin(); it != s.end(); ++it, ++i) MC_CHECK(i < e && (int)*it == m[i], "iterate", "%s: iteration of [%d,%d) at %d", what, b, e, i);
  MC_CHECK(i == e, "iterate", "%s: iteration of [%d,%d) stopped at %d", what, b, e, i);
  i = b; for (auto it = c.begin(); it != c.end(); ++it, ++i) MC_CHECK(i < e && (int)*it == m[i], "iterate", "%s: const iteration of [%d,%d) at %d", what, b, e, i);
  i = e; for (auto it = s.rbegin(); it != s.rend(); ++it) { --i; MC_CHECK(i >= b && (int)*it == m[i], "iterate", "%s: reverse iteration of [%d,%d) at %d", what, b, e, i); }
  MC_CHECK(i == b, "iterate", "%s: reverse iteration of [%d,%d) stopped at %d", what, b, e, i);
  i = e; for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; MC_CHECK(i >= b && (int)*it == m[i], "iterate", "%s: const reverse iteration of [%d,%d) at %d", what, b, e, i); }
  if (n) { MC_CHECK((int)s.front() == m[b] && (int)c.front() == m[b], "front", "%s: front", what); MC_CHECK((int)s.back() == m[e - 1] && (int)c.back() == m[e - 1], "back", "%s: back", what); }
  mc::state(mc::mix(mc::hash_vec(m), mc::mix(b, e)));
}
// Release builds do not check: what debug builds refuse is not asked of them.
void need(bool ok) { if (!h::checked && !ok) mc::skip(); }
unsigned wild(int len, int extra) { int k = mc::choose(len + extra + 2); return k <= len + extra ? (unsigned)k : 0xffffffffu; }
template <class C> void history(Range<C>& r, int depth, std::function<std::unique_ptr<Range<C>>()> other) {
  typedef typename Range<C>::S S; int len = r.len(); std::vector<int> m(len); int next = 1;
  for (int i = 0; i < len; ++i) { r.put(i, next); m[i] = next++; }
  std::unique_ptr<S> s; int b = 0, e = 0;
  // construction: an arbitrary window, by iterators or by index
  { int how = mc::choose(3), o; 
    if (how == 0) { b = mc::range(-1, len + 1); e = mc::range(-1, len + 1); bool ok = b >= 0 && b <= len && e >= b && e <= len; need(ok); mc::trace("stencil over %d elements by iterators [%d,%d)", len, b, e); o = h::outcome([&] { s.reset(new S(r.by_iter(b, e))); });
      MC_CHECK((o == h::Ok) == ok && (ok || o == OutOfRangeError), "construct", "window [%d,%d) over %d elements: %s", b, e, len, h::oname(o).c_str()); if (!ok) return; }
    else if (how == 1) { unsigned st = wild(len, 1), n = wild(len, 1); need((unsigned long)st + n <= (unsigned long)len); mc::trace("stencil over %d elements by index %u length %u", len, st, n); o = h::outcome([&] { s.reset(new S(r.by_index(st, n))); });
      bool ok = (unsigned long)st + n <= (unsigned long)len; MC_CHECK((o == h::Ok) == ok && (ok || o == OutOfRangeError), "construct", "window start %u length %u over %d elements: %s", st, n, len, h::oname(o).c_str()); if (!ok) return; b = st; e = st + n; }
    else { mc::trace("whole range then resettled"); s.reset(new S(r.by_iter(0, len))); e = len; } }
  compare(r, *s, m, b, e, "after construction");
  for (int d = 0; d < depth; ++d) {
    switch (mc::choose(7)) {
      case 0: { unsigned st = wild(len, 1), n = wild(len, 1); need((unsigned long)st + n <= (unsigned long)len); int o = h::outcome([&] { s->resettle(st, n); }); bool ok = (unsigned long)st + n <= (unsigned long)len; mc::trace("resettle %u, %u: %s", st, n, h::oname(o).c_str());
        MC_CHECK((o == h::Ok) == ok && (ok || o == OutOfRangeError), "resettle", "resettle(%u,%u) over %d elements: %s", st, n, len, h::oname(o).c_str()); if (ok) { b = st; e = st + n; } break; }
      case 1: { unsigned st = wild(e - b, 1), n = wild(e - b, 1); need((unsigned long)st + n <= (unsigned long)(e - b)); std::unique_ptr<S> t; int o = h::outcome([&] { t.reset(new S(s->stencil(st, n))); }); mc::trace("sub-stencil %u, %u: %s", st, n, h::oname(o).c_str());
        unsigned long end = (unsigned long)st + n; bool must = end <= (unsigned long)(e - b) && n > 0, cannot = b + end > (unsigned long)len;
        MC_CHECK(!must || o == h::Ok, "sub-refused", "sub-stencil (%u,%u) of [%d,%d): %s", st, n, b, e, h::oname(o).c_str());
        MC_CHECK(!cannot || o == OutOfRangeError, "sub-accepted", "sub-stencil (%u,%u) of [%d,%d) over %d elements: %s", st, n, b, e, len, h::oname(o).c_str());
        if (o == h::Ok) { compare(r, *t, m, b + st, b + end, "sub-stencil"); s.swap(t); e = b + end; b += st; } break; }
      case 2: { if (b == e) mc::skip(); int i = mc::choose(e - b), how = mc::choose(4); mc::trace("write element %d through the stencil (%d)", i, how); poke(*s, i, next, how); m[b + i] = next++; break; }
      case 3: { if (!len) mc::skip(); int i = mc::choose(len); mc::trace("write element %d of the container", i); r.put(i, next); m[i] = next++; break; }
      case 4: { int k = mc::range(1, 5); if (k > e - b + 2) mc::skip(); need(k <= e - b); int o = list_init(*s, k, next); mc::trace("<< %d values: %s", k, h::oname(o).c_str()); for (int i = 0; i < k && i < e - b; ++i) m[b + i] = next + i; next += k;
        if (k <= e - b) MC_CHECK(o == h::Ok, "list-refused", "%d values into [%d,%d): %s", k, b, e, h::oname(o).c_str()); else MC_CHECK(o == OutOfRangeError, "list-overflow", "%d values into [%d,%d): %s", k, b, e, h::oname(o).c_str()); break; }
      case 5: { if (!len) mc::skip(); int nb = mc::choose(len + 1), ne = mc::range(nb, len); mc::trace("assign from stencil [%d,%d) of the same range", nb, ne); S t(r.by_iter(nb, ne)); *s = t; b = nb; e = ne; break; }
      case 6: { if (!other) { mc::trace("copy construct, drop the original"); std::unique_ptr<S> t(new S(*s)); s.swap(t); break; }
        auto q = other(); int ql = q->len(); int nb = mc::choose(ql + 1), ne = mc::range(nb, ql); need(ne - nb <= e - b); for (int i = 0; i < ql; ++i) q->put(i, next + i); S t(q->by_iter(nb, ne)); int o = h::outcome([&] { *s = t; }); mc::trace("assign from stencil [%d,%d) of another range: %s", nb, ne, h::oname(o).c_str());
        if (ne - nb <= e - b) { MC_CHECK(o == h::Ok, "assign", "copying %d elements into a window of %d: %s", ne - nb, e - b, h::oname(o).c_str()); for (int i = 0; i < ne - nb; ++i) m[b + i] = next + nb + i; }
        else MC_CHECK(o == OutOfRangeError, "assign", "copying %d elements into a window of %d: %s", ne - nb, e - b, h::oname(o).c_str());
        for (int i = 0; i < ql; ++i) MC_CHECK(q->get(i) == next + i, "assign-source", "the copied range changed");
        next += ql; break; }
    }
    compare(r, *s, m, b, e, "after operation");
  }
}
template <class C> std::unique_ptr<Range<C>> make(int n);
template <> std::unique_ptr<Range<std::vector<int>>> make(int n) { std::unique_ptr<Range<std::vector<int>>> r(new Range<std::vector<int>>()); r->c.reserve(8); r->c.resize(n); r->n = n; return r; }
template <> std::unique_ptr<Range<std::string>> make(int n) { std::unique_ptr<Range<std::string>> r(new Range<std::string>()); r->c.reserve(8); r->c.resize(n); r->n = n; return r; }
template <> std::unique_ptr<Range<Array<int>>> make(int n) { std::unique_ptr<Range<Array<int>>> r(new Range<Array<int>>()); if (n) r->c.resize(n); r->n = n; return r; }
template <> std::unique_ptr<Range<Array<int, 1>>> make(int) { std::unique_ptr<Range<Array<int, 1>>> r(new Range<Array<int, 1>>()); r->n = 1; return r; }
template <> std::unique_ptr<Range<Array<int, 4>>> make(int) { std::unique_ptr<Range<Array<int, 4>>> r(new Range<Array<int, 4>>()); r->n = 4; return r; }
template <class P> std::unique_ptr<Range<P>> cmake(int n) { std::unique_ptr<Range<P>> r(new Range<P>()); r->hold.reset(new unsigned char[n + 1]); r->c = r->hold.get(); r->n = n; return r; }
template <class C> void run(int n, int depth) { auto r = make<C>(n); history<C>(*r, depth, [] { return make<C>(2); }); }
int D() { return mc::tiered(2, 3); }
// Larger ranges: a window near every border, written, list-initialised, narrowed, resettled and copied from.
template <class C> void sweep(Range<C>& r) {
  typedef typename Range<C>::S S; int len = r.len(); std::vector<int> m(len); for (int i = 0; i < len; ++i) { m[i] = i % 100; r.put(i, m[i]); } mc::step(); mc::validated();
  int sts[] = {0, 1, len / 2, len - 1, len}, st = mc::pick(sts), lens[] = {0, 1, (len - st) / 2, len - st - 1, len - st}, n = mc::pick(lens); if (n < 0 || n > len - st) mc::skip(); mc::trace("range of %d, window %d + %d", len, st, n);
  S s = mc::flip() ? r.by_index(st, n) : r.by_iter(st, st + n); compare(r, s, m, st, st + n, "made"); for (int i = 0; i < n; ++i) { s[i] = (i + 7) % 100; m[st + i] = (i + 7) % 100; } compare(r, s, m, st, st + n, "written");
  if (n) { typedef typename S::value_type T; { auto l = (s << T(1)); for (int i = 1; i < n; ++i) { l, T(i % 50); } } for (int i = 0; i < n; ++i) m[st + i] = i ? i % 50 : 1; compare(r, s, m, st, st + n, "list initialised"); if (h::checked) { int o = h::outcome([&] { auto l = (s << T(1)); for (int i = 1; i <= n; ++i) { l, T(i % 50); } }); MC_CHECK(o == OutOfRangeError, "list-overflow", "%d values into a window of %d: %s", n + 1, n, h::oname(o).c_str()); compare(r, s, m, st, st + n, "list too long"); }
    S t = s.stencil(n / 2, n - n / 2); compare(r, t, m, st + n / 2, st + n, "narrowed"); }
  S t(s); t.resettle(len - len / 3, len / 3); compare(r, t, m, len - len / 3, len, "resettled"); compare(r, s, m, st, st + n, "the other one"); if (!h::checked) return; int o = h::outcome([&] { t.resettle(len - len / 3, len / 3 + 1); }); MC_CHECK(o == OutOfRangeError, "resettle", "a window one past a range of %d: %s", len, h::oname(o).c_str());
}
int L() { static const int l[] = {1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}; return mc::pick(l); }
template <> std::unique_ptr<Range<Array<int, 300>>> make(int) { std::unique_ptr<Range<Array<int, 300>>> r(new Range<Array<int, 300>>()); r->n = 300; return r; }
MC_SCENARIO(sizes_array) { auto r = make<Array<int>>(L()); sweep(*r); }
MC_SCENARIO(sizes_fixed_array) { auto r = make<Array<int, 300>>(300); sweep(*r); }
MC_SCENARIO(sizes_vector) { auto r = make<std::vector<int>>(L()); sweep(*r); }
MC_SCENARIO(sizes_string) { auto r = make<std::string>(L()); sweep(*r); }
MC_SCENARIO(sizes_bytes) { auto r = cmake<unsigned char*>(L()); sweep(*r); }
MC_SCENARIO(array_fixed) { if (mc::flip()) run<Array<int, 1>>(1, D()); else run<Array<int, 4>>(4, D()); }
MC_SCENARIO(array_dynamic) { run<Array<int>>(mc::thorough() ? mc::range(1, 4) : 1 + 2 * mc::choose(2), D()); }
MC_SCENARIO(vector) { run<std::vector<int>>(mc::thorough() ? mc::range(0, 4) : mc::choose(3) * 3 / 2, D()); }
MC_SCENARIO(string) { run<std::string>(mc::range(0, 3), D()); }
MC_SCENARIO(bytes) { int n = mc::range(0, 3); auto r = cmake<unsigned char*>(n); history<unsigned char*>(*r, D(), nullptr); }
MC_SCENARIO(const_bytes) { int n = mc::range(0, 3); auto r = cmake<const unsigned char*>(n); history<const unsigned char*>(*r, D(), nullptr); }
// Windows requested from the arrays themselves.
template <class A> void window(A& a, int len) {
  for (int i = 0; i < len; ++i) a[i] = i + 1;
  unsigned st = wild(len, 1), n = wild(len, 1); need((unsigned long)st + n <= (unsigned long)len); mc::trace("stencil(%u,%u) of an array of %d", st, n, len); int got = -1, bad = 0; 
  int o = h::outcome([&] { auto s = a.stencil(st, n); got = (int)s.size(); for (int i = 0; i < got && i < 8; ++i) if ((int)s[i] != (int)st + i + 1) bad = 1; });
  unsigned long end = (unsigned long)st + n; bool ok = end <= (unsigned long)len;
  MC_CHECK(!ok || n == 0 || o == h::Ok, "window-refused", "stencil(%u,%u) of an array of %d: %s", st, n, len, h::oname(o).c_str());
  MC_CHECK(ok || o == OutOfRangeError, "window-accepted", "stencil(%u,%u) of an array of %d: %s", st, n, len, h::oname(o).c_str());
  if (o == h::Ok) MC_CHECK(got == (int)n && !bad, "window-content", "stencil(%u,%u) has %d elements%s", st, n, got, bad ? ", wrong ones" : "");
}
MC_SCENARIO(array_windows) { if (mc::flip()) { int n = mc::range(1, 4); Array<int> a(n); window(a, n); } else if (mc::flip()) { Array<int, 1> a; window(a, 1); } else { Array<int, 4> a; window(a, 4); } }
// Windows whose place or length is left to the defaults: from the start, and empty.
template <class S, class F> void defaults(F make, int len, const char* what) { int given = mc::choose(2); mc::trace("%s range of %d, %d of the window's arguments given", what, len, given); S s = make(given, given ? len / 2 : 0); mc::step(); mc::validated(); MC_CHECK(s.size() == 0 && s.begin() == s.end(), "defaults", "a window without a given length has %u elements", (unsigned)s.size()); if (h::checked) MC_CHECK(h::outcome([&] { (void)s[0]; }) == OutOfRangeError, "defaults", "an empty window has a first element"); s.resettle(0, len); MC_CHECK((int)s.size() == len, "defaults", "the window resettled to the whole range has %u elements", (unsigned)s.size()); }
MC_SCENARIO(default_windows) {
  int len = 1 + mc::choose(4); unsigned char b[8] = {1, 2, 3, 4, 5, 6, 7, 8}; const unsigned char* cb = b; Array<int> a(len); for (int i = 0; i < len; ++i) a[i] = i; std::vector<int> v(len);
  switch (mc::choose(4)) {
    case 0: defaults<Stencil<unsigned char*>>([&](int g, unsigned st) { return g ? Stencil<unsigned char*>(b, len, st) : Stencil<unsigned char*>(b, len); }, len, "bytes"); break;
    case 1: defaults<Stencil<const unsigned char*>>([&](int g, unsigned st) { return g ? Stencil<const unsigned char*>(cb, len, st) : Stencil<const unsigned char*>(cb, len); }, len, "const bytes"); break;
    case 2: defaults<Stencil<Array<int>>>([&](int g, unsigned st) { return g ? Stencil<Array<int>>(a, st) : Stencil<Array<int>>(a); }, len, "array"); break;
    default: defaults<Stencil<std::vector<int>>>([&](int g, unsigned st) { return g ? Stencil<std::vector<int>>(v, st) : Stencil<std::vector<int>>(v); }, len, "vector"); break; }
}
}

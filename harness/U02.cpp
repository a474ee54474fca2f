// @SOURCES: ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @ASSUME: universes of six single-bit flags, including the highest bit of an int; a compound test asks for a common flag;; the model of a set is a std::set of flags
#include "util.hpp"
#include <set>
#include <ecl/utilities/flags.hpp>
namespace {
using namespace ecl;
enum Small { None = 0, A = 1, B = 2, C = 4, D = 8, E = 0x10, F = 0x20, AB = 3 };
enum Wide { WNone = Bit0, W1 = Bit1, W2 = Bit2, W9 = Bit9, W16 = Bit16, W20 = 0x100000, W30 = 0x40000000 };
const Small small_bits[] = {A, B, C, D, E, F}; const Wide wide_bits[] = {W1, W2, W9, W16, W20, W30};
template <class T> struct Bitsof; template <> struct Bitsof<Small> { static const Small* get() { return small_bits; } }; template <> struct Bitsof<Wide> { static const Wide* get() { return wide_bits; } };
typedef std::set<int> Set;   // indices; a complemented set also holds all the bits outside the universe
template <class T> struct Val { Flags<T> f; Set s; bool outside = false; };
template <class T> void check(const Val<T>& v, const char* what) {
  const T* b = Bitsof<T>::get(); mc::validated(8); unsigned want = 0, all = 0; for (int i = 0; i < 6; ++i) { all |= b[i]; if (v.s.count(i)) want |= b[i]; } if (v.outside) want |= ~all;
  MC_CHECK((unsigned)(int)v.f == want, "value", "after %s the set is %x instead of %x", what, (unsigned)(int)v.f, want);
  for (int i = 0; i < 6; ++i) MC_CHECK(v.f.testFlag(b[i]) == (v.s.count(i) > 0), "membership", "after %s testing flag %x gives %d", what, (unsigned)b[i], v.f.testFlag(b[i]));
  MC_CHECK(v.f.testFlag((T)0) == (want == 0), "empty", "after %s testing for emptiness gives %d", what, v.f.testFlag((T)0)); MC_CHECK(bool(v.f) == (want != 0), "empty", "after %s the set converts to %d", what, bool(v.f));
}
template <class T> Val<T> any(int bits) { const T* b = Bitsof<T>::get(); Val<T> v; for (int i = 0; i < bits; ++i) if (mc::flip()) { v.f |= b[i]; v.s.insert(i); } return v; }
template <class T> Val<T> combine(const Val<T>& x, const Val<T>& y, int op) { Val<T> r; for (int i = 0; i < 6; ++i) { bool p = x.s.count(i), q = y.s.count(i); if (op == 0 ? p || q : op == 1 ? p && q : p != q) r.s.insert(i); } r.outside = op == 0 ? x.outside || y.outside : op == 1 ? x.outside && y.outside : x.outside != y.outside; return r; }
template <class T> void pairs() {
  const T* b = Bitsof<T>::get(); Val<T> x = any<T>(4), y = any<T>(4); if (mc::flip()) { x.f = ~x.f; Set n; for (int i = 0; i < 6; ++i) if (!x.s.count(i)) n.insert(i); x.s = n; x.outside = true; check(x, "complement"); } const Flags<T> xf = x.f, yf = y.f; mc::step(12);
  Val<T> u = combine(x, y, 0), i = combine(x, y, 1), d = combine(x, y, 2); u.f = xf | yf; check(u, "union"); u.f = yf | xf; check(u, "union"); i.f = xf & (int)yf; check(i, "intersection"); d.f = xf ^ yf; check(d, "difference"); d.f = yf ^ xf; check(d, "difference");
  u.f = xf; u.f |= yf; check(u, "|="); i.f = xf; i.f &= yf; check(i, "&="); d.f = xf; d.f ^= yf; check(d, "^="); MC_CHECK((xf == yf) == (x.s == y.s && x.outside == y.outside) && (xf != yf) != (xf == yf), "compare", "comparison of sets is wrong");
  for (int k = 0; k < 6; ++k) { Val<T> one; one.s.insert(k); one.f = Flags<T>(b[k]); check(one, "construction"); Val<T> r = combine(x, one, 0); r.f = xf | b[k]; check(r, "union with a flag"); r.f = b[k] | xf; check(r, "flag union"); r.f = xf; r.f |= b[k]; check(r, "|= flag"); r = combine(x, one, 1); r.f = xf & b[k]; check(r, "intersection with a flag"); r = combine(x, one, 2); r.f = xf ^ b[k]; check(r, "difference with a flag"); r.f = xf; r.f ^= b[k]; check(r, "^= flag"); r.f = xf; r.f = b[k]; r.s = one.s; r.outside = false; check(r, "assignment of a flag"); }
  Val<T> c = x; Flags<T> copy(c.f); c.f.clear(); c.s.clear(); c.outside = false; check(c, "clear"); Val<T> z = x; z.f = copy; check(z, "copy"); check(x, "operations on copies"); mc::state(mc::mix((int)xf, (int)yf));
}
MC_SCENARIO(pairs_small) { pairs<Small>(); }
MC_SCENARIO(pairs_wide) { pairs<Wide>(); }
template <class T> void history(int depth) {
  const T* b = Bitsof<T>::get(); Val<T> v[2]; int bits = 3;
  for (int d = 0; d < depth; ++d) { int w = mc::choose(2), op = mc::choose(5 + 3 * bits + 1); Val<T>& x = v[w]; const Val<T> y = v[1 - w]; const char* name = ""; mc::step();
    if (op < 3) { Val<T> r = combine(x, y, op); if (op == 0) x.f |= y.f; else if (op == 1) x.f &= y.f; else x.f ^= y.f; x.s = r.s; x.outside = r.outside; name = "op="; }
    else if (op == 3) { x.f.clear(); x.s.clear(); x.outside = false; name = "clear"; } else if (op == 4) { x.f = y.f; x.s = y.s; x.outside = y.outside; name = "assign"; }
    else if (op < 5 + bits) { x.f |= b[op - 5 + 3]; x.s.insert(op - 5 + 3); name = "|= flag"; } else if (op < 5 + 2 * bits) { int k = op - 5 - bits + 3; x.f ^= b[k]; if (!x.s.erase(k)) x.s.insert(k); name = "^= flag"; } else if (op < 5 + 3 * bits) { int k = op - 5 - 2 * bits + 3; x.f = b[k]; x.s.clear(); x.s.insert(k); x.outside = false; name = "= flag"; }
    else { x.f = ~x.f; Set n; for (int i = 0; i < 6; ++i) if (!x.s.count(i)) n.insert(i); x.s = n; x.outside = !x.outside; name = "complement"; }
    mc::trace("%s on %d", name, w); check(v[0], name); check(v[1], name); if (mc::prune(mc::mix(mc::mix((int)v[0].f, (int)v[1].f), depth - d))) return; }
}
MC_SCENARIO(history_small, .shard(2)) { history<Small>(mc::tiered(4, 6)); }
MC_SCENARIO(history_wide, .shard(2)) { history<Wide>(mc::tiered(3, 5)); }
MC_SCENARIO(compound) { Val<Small> x = any<Small>(3); bool common = x.s.count(0) || x.s.count(1); mc::validated(2); MC_CHECK(x.f.testFlag(AB) == common, "membership", "testing a compound flag gives %d", x.f.testFlag(AB)); Flags<Small> f(AB); MC_CHECK((int)f == 3 && (x.f & AB) == ((int)x.f & 3), "value", "compound flags"); }
}

// @SOURCES: ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @ASSUME: histories of up to 4 (thorough 6) calls, copies and assignments;; an argument bound to a reference parameter refers to the caller's object, which outlives the function object
#include "util.hpp"
#include <memory>
#include <ecl/utilities/function_objects.hpp>
#include <ecl/utilities/references.hpp>
#include <ecl/utilities/parameter.hpp>
#include <ecl/utilities/singleton.hpp>
#include <ecl/utilities/blueprints.hpp>
#include <ecl/utilities/void.hpp>
namespace {
using namespace ecl;
std::vector<long> calls; long rec(long f, long a = 0, long b = 0) { long v = f * 1000000 + a * 1000 + b; calls.push_back(v); return v; }
void expect(long v, long ret, bool has_ret = true) { mc::step(); mc::validated(2); MC_CHECK(calls.size() == 1 && calls[0] == v, "calls", "the call ran %zu functions, the first as %ld instead of %ld", calls.size(), calls.empty() ? -1 : calls[0], v); if (has_ret) MC_CHECK(ret == v, "result", "the result is %ld instead of %ld", ret, v); calls.clear(); }
long f0() { return rec(1); } void f0v() { rec(2); } long f0b() { return rec(3); }
long f1(int a) { return rec(4, a); } void f1v(int a) { rec(5, a); } long f1s(const std::string& s) { return rec(6, s.size()); } void f1r(int& a) { rec(7, a); a += 1; } std::string f1str(std::string s) { rec(8, s.size()); return s + "!"; }
struct M { long id; explicit M(long i) : id(i) {} long n() { return rec(20 + id); } void nv() { rec(30 + id); } long u(int a) { return rec(40 + id, a); } void uv(int a) { rec(50 + id, a); } long b(int a, short c) { return rec(60 + id, a, c); } void bv(int a, short c) { rec(70 + id, a, c); } virtual long v() { return rec(80 + id); } virtual ~M() {} };
struct D : M { D(long i) : M(i) {} long v() override { return rec(90 + id); } };
const int ints[] = {0, 1, 7, 999};
MC_SCENARIO(every_kind) {
  calls.clear(); int k = mc::choose(27), a = mc::pick(ints), c = mc::pick(ints), times = mc::range(1, 2); bool copy = mc::flip(); M m1(1), m2(2); D d(3); int la = a; mc::trace("kind %d arguments %d %d, %s", k, a, c, copy ? "copied" : "direct");
#define RUN(obj, call, v, ret) { auto o = obj; auto o2 = o; auto& x = copy ? o2 : o; for (int i = 0; i < times; ++i) { long r = -1; (void)r; call; expect(v, r, ret); } }
  switch (k) {
    case 0: RUN(NullaryFreeFunction<long>(f0), r = x(), 1000000, true) break; case 1: RUN(NullaryFreeFunction<>(f0v), x(), 2000000, false) break; case 2: RUN(generateFunctionObject(f0b), r = x(), 3000000, true) break; case 3: RUN(generateFunctionObject(f0v), x(), 2000000, false) break;
    case 4: RUN((UnaryFreeFunction<int, long>(f1)), r = x(a), 4000000 + a * 1000, true) break; case 5: RUN(UnaryFreeFunction<int>(f1v), x(a), 5000000 + a * 1000, false) break; case 6: RUN(generateFunctionObject(f1), r = x(c), 4000000 + c * 1000, true) break; case 7: RUN((BoundUnaryFreeFunction<int, long>(f1, a)), r = x(), 4000000 + a * 1000, true) break; case 8: RUN(BoundUnaryFreeFunction<int>(f1v, a), x(), 5000000 + a * 1000, false) break; case 9: RUN(generateFunctionObject(f1, a), r = x(), 4000000 + a * 1000, true) break; case 10: { const int ca = c; RUN(generateFunctionObject(f1v, ca), x(), 5000000 + c * 1000, false) break; }
    case 11: { std::string s(a % 50, 'q'); RUN(generateFunctionObject(f1s, s), r = x(), 6000000 + (a % 50) * 1000, true) break; }
    case 12: { BoundUnaryFreeFunction<int&, void> o(f1r, la); for (int i = 0; i < times; ++i) { o(); expect(7000000 + (a + i) * 1000, 0, false); } MC_CHECK(la == a + times, "argument", "the referenced argument is %d", la); break; }
    case 13: RUN((NullaryMemberFunction<M, long>(&M::n)), r = x(m1), 21000000, true) break; case 14: RUN(NullaryMemberFunction<M>(&M::nv), x(m2), 32000000, false) break; case 15: RUN(generateFunctionObject(&M::n), r = x(m2), 22000000, true) break;
    case 16: RUN((UnaryMemberFunction<M, int, long>(&M::u)), r = x(m1, a), 41000000 + a * 1000, true) break; case 17: RUN((UnaryMemberFunction<M, int>(&M::uv)), x(m2, a), 52000000 + a * 1000, false) break; case 18: RUN(generateFunctionObject(&M::u), r = x(m2, c), 42000000 + c * 1000, true) break;
    case 19: RUN((BoundNullaryMemberFunction<M, long>(&M::n, m2)), r = x(), 22000000, true) break; case 20: RUN(generateFunctionObject(&M::nv, m1), x(), 31000000, false) break; case 21: { M& base = d; RUN(generateFunctionObject(&M::v, base), r = x(), 93000000, true) break; }
    case 22: RUN((PartiallyBoundUnaryMemberFunction<M, int, long>(&M::u, m2)), r = x(a), 42000000 + a * 1000, true) break; case 23: RUN(generateFunctionObject(&M::uv, m1), x(c), 51000000 + c * 1000, false) break;
    case 24: RUN((BoundUnaryMemberFunction<M, int, long>(&M::u, m1, a)), r = x(), 41000000 + a * 1000, true) break; case 25: RUN(generateFunctionObject(&M::uv, m2, a), x(), 52000000 + a * 1000, false) break;
    default: { if (c > 7) mc::skip(); if (a & 1) RUN((PartiallyBoundBinaryMemberFunction<M, int, short, long>(&M::b, m1)), r = x(a, c), 61000000 + a * 1000 + c, true) else RUN((PartiallyBoundBinaryMemberFunction<M, int, short>(&M::bv, m2)), x(a, c), 72000000 + a * 1000 + c, false) break; }
  }
}
// Through the abstract interfaces, several bound objects alive at once.
MC_SCENARIO(interfaces) {
  calls.clear(); M m1(1), m2(2); int a = mc::pick(ints), b = mc::pick(ints); std::vector<std::unique_ptr<NullaryFunction<long>>> v; v.emplace_back(new NullaryFreeFunction<long>(f0)); v.emplace_back(new BoundUnaryFreeFunction<int, long>(f1, a)); v.emplace_back(new BoundUnaryFreeFunction<int, long>(f1, b)); v.emplace_back(new BoundNullaryMemberFunction<M, long>(&M::n, m1)); v.emplace_back(new BoundUnaryMemberFunction<M, int, long>(&M::u, m2, b)); v.emplace_back(new BoundUnaryMemberFunction<M, int, long>(&M::u, m1, a)); long want[] = {1000000, 4000000 + a * 1000L, 4000000 + b * 1000L, 21000000, 42000000 + b * 1000L, 41000000 + a * 1000L};
  for (int i = 0; i < 3; ++i) { int k = mc::choose(6); mc::trace("call %d", k); long r = (*v[k])(); expect(want[k], r); }
}
struct Counter { int n; int* calls; explicit Counter(int* c) : n(0), calls(c) {} typedef long result_type; void operator()() { ++n; ++*calls; } void operator()(int d) { n += d; ++*calls; } };
struct CounterR { long n; explicit CounterR() : n(0) {} typedef long result_type; long operator()() { return ++n; } long operator()(int d) { return n += d; } };
MC_SCENARIO(copies_and_references, .shard(2)) {
  int count = 0; Counter c(&count); CounterR cr; NullaryFunctionCopy<Counter> cp(c); NullaryFunctionReference<Counter> rf(ref(c)), rf2(ref(c)); UnaryFunctionCopy<Counter, int> ucp(c); UnaryFunctionReference<ReferenceWrapper<Counter>, int> urf(ref(c)); NullaryFunctionCopy<CounterR, long> rcp(cr); NullaryFunctionReference<CounterR, long> rrf(ref(cr)); UnaryFunctionCopy<CounterR, int, long> rucp(cr); UnaryFunctionReference<CounterR, int, long> rurf(ref(cr)); ReferenceWrapper<Counter> w = ref(c); ReferenceWrapper<const Counter> cw = cref(c);
  int orig = 0, total = 0; long orig_r = 0, cp_r = 0, ucp_r = 0; int n = mc::tiered(4, 5);
  for (int i = 0; i < n; ++i) { int k = mc::choose(11); mc::trace("call %d", k); long r = 0, want = 0; switch (k) { case 0: c(); ++orig; ++total; break; case 1: cp(); ++total; break; case 2: rf(); ++orig; ++total; break; case 3: { NullaryFunctionReference<Counter> rf3(rf2); rf3(); ++orig; ++total; break; } case 4: ucp(5); ++total; break; case 5: urf(7); orig += 7; ++total; break; case 6: w.reference()(2); orig += 2; ++total; break; case 7: r = rcp(); want = ++cp_r; break; case 8: r = rrf(); want = ++orig_r; break; case 9: r = rucp(3); want = ucp_r += 3; break; default: r = rurf(4); want = orig_r += 4; break; }
    mc::step(); mc::validated(4); MC_CHECK(r == want, "result", "the result is %ld instead of %ld", r, want); MC_CHECK(c.n == orig && count == total, "state", "the original counted %d of %d, %d calls of %d", c.n, orig, count, total); MC_CHECK(cr.n == orig_r, "state", "the original counted %ld of %ld", cr.n, orig_r); Counter& back = w; MC_CHECK(&back == &c && w.pointer() == &c && &w.reference() == &c && cw.pointer() == &c, "reference", "a reference wrapper refers to another object"); mc::state(mc::mix(orig, mc::mix(orig_r, cp_r * 100 + ucp_r))); }
}
struct Ampersand { int v; Ampersand* operator&() { return nullptr; } };
MC_SCENARIO(addresses) { Ampersand a; a.v = mc::pick(ints); mc::validated(2); MC_CHECK(addressOf(a) == std::addressof(a), "address", "addressOf is fooled by an overloaded operator"); ReferenceWrapper<Ampersand> r = ref(a); MC_CHECK(r.reference().v == a.v, "reference", "wrong object"); MC_CHECK(bool(is_reference_wrapper<ReferenceWrapper<int>>::value) && !bool(is_reference_wrapper<int>::value), "trait", "is_reference_wrapper is wrong"); }
template <class T> void parameter(const std::deque<T>& vals) { Parameter<T> p, q(vals[1]); T mp = T(), mq = vals[1]; int n = mc::tiered(3, 4); for (int i = 0; i < n; ++i) { int k = mc::choose(5); const T& v = vals[mc::choose((int)vals.size())]; switch (k) { case 0: p = v; mp = v; break; case 1: p(v); mp = v; break; case 2: q(v); mq = v; break; case 3: { p = q(); mp = mq; break; } default: { Parameter<T> c(p); c = vals[0]; break; } } const T& a = p; mc::step(); mc::validated(4); MC_CHECK(a == mp && p() == mp && q() == mq, "value", "a parameter does not return the last value assigned"); } }
MC_SCENARIO(parameter_int) { parameter<int>({0, 5, -7}); }
MC_SCENARIO(parameter_bool) { parameter<bool>({false, true}); }
MC_SCENARIO(parameter_string) { parameter<std::string>({"", "five", std::string(60, 'x')}); }
MC_SCENARIO(parameter_double) { parameter<double>({0, 2.5, -1e300}); }
struct SA : Singleton<SA> { int v = 0; static int made; SA() { ++made; } }; int SA::made = 0; struct SB { int v = 0; static int made; SB() { ++made; } }; int SB::made = 0;
MC_SCENARIO(singletons, .noleak()) { SA& a = SA::instance(); SB& b = Singleton<SB>::instance(); int n = mc::tiered(3, 5); a.v = b.v = 0; int ma = 0, mb = 0; for (int i = 0; i < n; ++i) { switch (mc::choose(3)) { case 0: SA::instance().v++; ++ma; break; case 1: Singleton<SB>::instance().v++; ++mb; break; default: Singleton<SA>::instance().v += 10; ma += 10; } mc::step(); mc::validated(3); MC_CHECK(&SA::instance() == &a && &Singleton<SB>::instance() == &b && a.v == ma && b.v == mb, "instance", "instance() is not always the same object"); MC_CHECK(SA::made == 1 && SB::made == 1, "instance", "%d and %d objects were made", SA::made, SB::made); } }
struct Target { int a = 0, b = 0; }; struct Print : BluePrint<Print> { typedef Target base_type; int a, b; Print(int x = 0, int y = 0) : a(x), b(y) {} Target instantiate() { Target t; apply(t); return t; } void apply(Target& t) const { t.a = a; t.b = b; } };
}
namespace ecl { template <> class BluePrintFactory<Target> { public: static Print make(int a, int b) { return Print(a, b); } virtual ~BluePrintFactory() {} }; }
namespace {
MC_SCENARIO(blueprints) { int a = mc::pick(ints), b = mc::pick(ints); Print p = BluePrintFactory<Target>::make(a, b); Target t = p.implementInstantiate<Target>(), u; u.a = 17; p.implementApply(u); mc::validated(2); mc::step(2); MC_CHECK(t.a == a && t.b == b && u.a == a && u.b == b, "blueprint", "a blueprint builds %d,%d and %d,%d instead of %d,%d", t.a, t.b, u.a, u.b, a, b); }
}

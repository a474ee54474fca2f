// @SOURCES: ecl_threads/src/lib/mutex_pos.cpp ecl_exceptions/src/lib/*.cpp
// @BUDGET: 150 2400
// @ASSUME: two signal and two slot handles, two topics, every history of up to 4 (thorough 5) operations out of 32 (connecting, relaying, disconnecting, copying, assigning, destroying and recreating) for data-carrying and for void signals, a second data type connected under the same names throughout;; SigSlot objects used directly with every history of 4 (thorough 6) operations including disconnecting from single and unknown topics;; callbacks that connect, disconnect, emit or destroy others while an emission is running, one operation per callback;; relays that feed back into themselves and slots destroyed inside their own callback are not judged;; the order in which slots are called is not judged
#include "util.hpp"
#include <ecl/sigslots.hpp>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <sys/wait.h>
#include <unistd.h>
using ecl::Signal; using ecl::Slot; using ecl::SigSlot; using ecl::Void;
namespace {
const char* T[] = {"alpha", "beta", "gamma"};
struct Call { int id, data; bool operator<(const Call& o) const { return id != o.id ? id < o.id : data < o.data; } bool operator==(const Call& o) const { return id == o.id && data == o.data; } };
std::vector<Call> calls; std::function<void(int)>* hook = nullptr;
// receivers that live on the heap, so that a call after their end is seen by the address sanitizer
struct Receiver { int id; int* alive; Receiver(int i) : id(i), alive(new int(1)) {} ~Receiver() { delete alive; } void data(int d) { calls.push_back({id + 0 * *alive, d}); if (hook) (*hook)(id); } void none() { calls.push_back({id + 0 * *alive, 0}); if (hook) (*hook)(id); } };
int freed[2]; void free0(int d) { calls.push_back({100, d}); } void free1(int d) { calls.push_back({101, d}); } void vfree0() { calls.push_back({100, 0}); } void vfree1() { calls.push_back({101, 0}); }
int stray = 0; void other_type(double) { ++stray; } void other_void() { ++stray; } void other_ref(const int&) { ++stray; }
template <class D> struct Api;
template <> struct Api<int> {
  static Slot<int>* slot(Receiver& r) { return new Slot<int>(&Receiver::data, r); } static Slot<int>* slot(Receiver& r, const char* t) { return new Slot<int>(&Receiver::data, r, t); } static void emit(Signal<int>& s, int d) { s.emit(d); } static int seen(int d) { return d; }
  static Slot<int>* free(int i) { return new Slot<int>(i ? &free1 : &free0); } static Slot<int>* free(int i, const char* t) { return new Slot<int>(i ? &free1 : &free0, t); }
  typedef Slot<double> Other; typedef Signal<double> OtherSignal; static Other* other() { return new Other(&other_type); }
};
template <> struct Api<Void> {
  static Slot<Void>* slot(Receiver& r) { return new Slot<Void>(&Receiver::none, r); } static Slot<Void>* slot(Receiver& r, const char* t) { return new Slot<Void>(&Receiver::none, r, t); } static void emit(Signal<Void>& s, int) { s.emit(); } static int seen(int) { return 0; }
  static Slot<Void>* free(int i) { return new Slot<Void>(i ? &vfree1 : &vfree0); } static Slot<Void>* free(int i, const char* t) { return new Slot<Void>(i ? &vfree1 : &vfree0, t); }
  typedef Slot<const int&> Other; typedef Signal<const int&> OtherSignal; static Other* other() { return new Other(&other_ref); }
};
// ---- the model: endpoints, what they publish and what they listen to ----
struct End { int id; std::set<int> pub, sub; };   // id < 0: a signal
typedef std::shared_ptr<End> EndP;
struct Model {
  std::vector<std::weak_ptr<End>> all; int next = 0;
  EndP make(bool signal) { EndP e(new End); e->id = signal ? -1 - next : next; ++next; all.push_back(e); return e; }
  void reach(const EndP& e, int data, std::vector<Call>& out, int depth = 0) const { for (int t : e->pub) for (auto& w : all) if (EndP x = w.lock()) if (x->sub.count(t)) { if (x->id >= 0) out.push_back({x->id, data}); else reach(x, data, out, depth + 1); } }
  bool cyclic() const { for (auto& w : all) if (EndP e = w.lock()) { std::set<const End*> seen; std::vector<EndP> todo{e}; while (!todo.empty()) { EndP x = todo.back(); todo.pop_back(); for (int t : x->pub) for (auto& v : all) if (EndP y = v.lock()) if (y->id < 0 && y->sub.count(t)) { if (y == e) return true; if (seen.insert(y.get()).second) todo.push_back(y); } } } return false; }
};
template <class D> struct World {
  Model m; EndP se[2], pe[2]; std::unique_ptr<Signal<D>> s[2]; std::unique_ptr<Slot<D>> p[2]; std::map<int, std::unique_ptr<Receiver>> rec; int stamp = 0;
  std::unique_ptr<typename Api<D>::Other> o; std::unique_ptr<typename Api<D>::OtherSignal> os;
  World() { calls.clear(); stray = 0; for (int i = 0; i < 2; ++i) { news(i, -1); newp(i, -1); } o.reset(Api<D>::other()); o->connect(T[0]); o->connect(T[1]); os.reset(new typename Api<D>::OtherSignal); os->connect(T[0]); os->connect(T[1]); }
  ~World() { for (int i = 0; i < 2; ++i) { s[i].reset(); p[i].reset(); } }
  void news(int i, int t) { s[i].reset(); se[i] = m.make(true); if (t < 0) s[i].reset(new Signal<D>); else { s[i].reset(new Signal<D>(T[t])); se[i]->pub.insert(t); } }
  void newp(int i, int t, bool freef = false) {
    p[i].reset(); EndP old = pe[i]; pe[i] = m.make(false); if (old && old.use_count() == 1) { rec.erase(old->id); } old.reset();
    if (freef) { pe[i]->id = 100 + i; } 
    if (freef) { p[i].reset(t < 0 ? Api<D>::free(i) : Api<D>::free(i, T[t])); } else { Receiver* r = new Receiver(pe[i]->id); rec[pe[i]->id].reset(r); p[i].reset(t < 0 ? Api<D>::slot(*r) : Api<D>::slot(*r, T[t])); }
    if (t >= 0) pe[i]->sub.insert(t);
  }
  void drop(EndP& e, const EndP& n) { EndP old = e; e = n; if (old != n && old.use_count() == 1) rec.erase(old->id); }
  bool op(int k) {   // 32 operations
    if (k < 4) { mc::trace("signal%d.connect(%s)", k / 2, T[k % 2]); s[k / 2]->connect(T[k % 2]); se[k / 2]->pub.insert(k % 2); }
    else if (k < 8) { k -= 4; mc::trace("slot%d.connect(%s)", k / 2, T[k % 2]); p[k / 2]->connect(T[k % 2]); pe[k / 2]->sub.insert(k % 2); }
    else if (k < 12) { k -= 8; se[k / 2]->sub.insert(k % 2); if (m.cyclic()) { se[k / 2]->sub.erase(k % 2); return false; } mc::trace("signal%d.connectAsSlot(%s)", k / 2, T[k % 2]); s[k / 2]->connectAsSlot(T[k % 2]); }
    else if (k < 14) { k -= 12; mc::trace("signal%d.disconnect()", k); s[k]->disconnect(); se[k]->pub.clear(); se[k]->sub.clear(); }
    else if (k < 16) { k -= 14; mc::trace("slot%d.disconnect()", k); p[k]->disconnect(); pe[k]->sub.clear(); }
    else if (k < 18) { k -= 16; mc::trace("signal%d destroyed and copied from signal%d", k, 1 - k); s[k].reset(); se[k] = se[1 - k]; s[k].reset(new Signal<D>(*s[1 - k])); }
    else if (k < 20) { k -= 18; mc::trace("slot%d destroyed and copied from slot%d", k, 1 - k); p[k].reset(); drop(pe[k], pe[1 - k]); p[k].reset(new Slot<D>(*p[1 - k])); }
    else if (k < 22) { k -= 20; mc::trace("signal%d = signal%d", k, 1 - k); *s[k] = *s[1 - k]; se[k] = se[1 - k]; }
    else if (k < 24) { k -= 22; mc::trace("slot%d = slot%d", k, 1 - k); *p[k] = *p[1 - k]; drop(pe[k], pe[1 - k]); }
    else if (k < 25) { mc::trace("signal0 = signal0, slot0 = slot0"); Signal<D>& a = *s[0]; *s[0] = a; Slot<D>& b = *p[0]; *p[0] = b; }
    else if (k < 27) { k -= 25; mc::trace("signal%d recreated", k); news(k, -1); }
    else if (k < 28) { mc::trace("signal0 recreated on %s", T[0]); news(0, 0); }
    else if (k < 30) { k -= 28; mc::trace("slot%d recreated", k); newp(k, -1); }
    else if (k < 31) { mc::trace("slot1 recreated on %s with a free function", T[1]); newp(1, 1, true); }
    else { mc::trace("slot0 recreated on %s", T[0]); newp(0, 0); }
    if (m.cyclic()) mc::skip();
    return true;
  }
  void verify() {
    for (int i = 0; i < 2; ++i) {
      std::vector<Call> want; ++stamp; m.reach(se[i], Api<D>::seen(stamp), want); calls.clear(); Api<D>::emit(*s[i], stamp); mc::validated();
      std::sort(want.begin(), want.end()); std::sort(calls.begin(), calls.end());
      MC_CHECK(want == calls, calls.size() < want.size() ? "slot-missed" : "wrong-calls", "signal%d.emit(%d) made %zu calls, expected %zu", i, stamp, calls.size(), want.size());
      MC_CHECK(stray == 0, "other-type-called", "an emission of one data type ran a slot of another type under the same topic name");
    }
  }
  uint64_t hash() const { uint64_t h = 3; for (int i = 0; i < 2; ++i) { for (auto& e : {se[i], pe[i]}) { for (int t : e->pub) h = mc::mix(h, t + 10); for (int t : e->sub) h = mc::mix(h, t + 20); } } return mc::mix(h, (se[0] == se[1]) * 2 + (pe[0] == pe[1])); }
};
template <class D> void histories() {
  int depth = mc::tiered(4, 5); World<D>* w = new World<D>; std::unique_ptr<World<D>> own(w);
  // (the quick exploration leaves out first operations that differ from others only in the names of topics and endpoints)
  static const int first[] = {0, 2, 4, 6, 8, 10, 12, 16, 18, 20, 22, 24, 25, 26, 27, 28, 29, 30, 31};
  for (int i = 0; i < depth; ++i) { if (!w->op(i || mc::thorough() ? mc::choose(32) : mc::pick(first))) mc::skip(); mc::step(); mc::state(w->hash()); }
  w->verify(); w->verify();
}
}
MC_SCENARIO(data_histories, .shard(3)) { histories<int>(); }
MC_SCENARIO(void_histories, .shard(3)) { histories<Void>(); }
// From every fully connected start, longer histories of endings: everything must be let go of cleanly in any order.
MC_SCENARIO(endings, .shard(2)) {
  World<int> w; int pat = mc::choose(16); for (int i = 0; i < 4; ++i) if (pat >> i & 1) { w.s[i / 2]->connect(T[i % 2]); w.se[i / 2]->pub.insert(i % 2); }
  int pat2 = mc::choose(16); for (int i = 0; i < 4; ++i) if (pat2 >> i & 1) { w.p[i / 2]->connect(T[i % 2]); w.pe[i / 2]->sub.insert(i % 2); }
  static const int ops[] = {12, 13, 14, 15, 16, 18, 20, 22, 25, 26, 28, 29, 31};
  for (int i = 0; i < mc::tiered(2, 3); ++i) { w.op(mc::pick(ops)); mc::step(); w.verify(); }
}
namespace { void make_sigslot(std::unique_ptr<SigSlot<int>>& p, Receiver& r) { p.reset(new SigSlot<int>(&Receiver::data, r)); } void make_sigslot(std::unique_ptr<SigSlot<Void>>& p, Receiver& r) { p.reset(new SigSlot<Void>(&Receiver::none, r)); } }
// SigSlot objects themselves, which also offer disconnecting from one topic.
namespace {
template <class S> void plain(std::function<void(S&, int)> emit) {
  struct Ep { std::unique_ptr<S> x; std::unique_ptr<Receiver> r; std::set<int> pub, sub; }; Ep e[2]; calls.clear();
  for (int i = 0; i < 2; ++i) { e[i].r.reset(new Receiver(i)); }
  for (int i = 0; i < 2; ++i) make_sigslot(e[i].x, *e[i].r);
  int depth = mc::tiered(4, 6); uint64_t h = 1;
  for (int n = 0; n < depth; ++n) {
    int i = mc::choose(2), k = mc::choose(9); S& x = *e[i].x;
    if (k < 2) { mc::trace("endpoint%d.connectSignal(%s)", i, T[k]); x.connectSignal(T[k]); e[i].pub.insert(k); }
    else if (k < 4) { k -= 2; mc::trace("endpoint%d.connectSlot(%s)", i, T[k]); x.connectSlot(T[k]); e[i].sub.insert(k); }
    else if (k < 7) { k -= 4; mc::trace("endpoint%d.disconnect(%s)", i, T[k]); x.disconnect(T[k]); e[i].pub.erase(k); e[i].sub.erase(k); }
    else if (k < 8) { mc::trace("endpoint%d.disconnect()", i); x.disconnect(); e[i].pub.clear(); e[i].sub.clear(); }
    else { mc::trace("endpoint%d recreated", i); e[i].x.reset(); e[i].r.reset(new Receiver(i)); make_sigslot(e[i].x, *e[i].r); e[i].pub.clear(); e[i].sub.clear(); }
    mc::step(); h = 1; for (auto& q : e) { for (int t : q.pub) h = mc::mix(h, t); h = mc::mix(h, 99); for (int t : q.sub) h = mc::mix(h, t); h = mc::mix(h, 77); } mc::state(h);
  }
  for (int i = 0; i < 2; ++i) {
    std::vector<Call> want; for (int t : e[i].pub) for (int j = 0; j < 2; ++j) if (e[j].sub.count(t)) want.push_back({j, 0}); calls.clear(); emit(*e[i].x, 0); std::sort(want.begin(), want.end()); std::sort(calls.begin(), calls.end()); mc::validated();
    MC_CHECK(want == calls, calls.size() < want.size() ? "slot-missed" : "wrong-calls", "endpoint%d.emit made %zu calls, expected %zu", i, calls.size(), want.size());
  }
}
}
MC_SCENARIO(sigslot_data, .shard(3)) { plain<SigSlot<int>>([](SigSlot<int>& s, int d) { s.emit(d); }); }
MC_SCENARIO(sigslot_void, .shard(3)) { plain<SigSlot<Void>>([](SigSlot<Void>& s, int) { s.emit(); }); }
// Callbacks that change the connections while an emission is under way: slots untouched by the change are called exactly
// once, nothing that is gone is called any more.
namespace {
template <class D> void reentrant() {
  calls.clear(); std::unique_ptr<Signal<D>> sig[2]; std::unique_ptr<Slot<D>> sl[3], extra; std::unique_ptr<Receiver> r[4]; for (int i = 0; i < 4; ++i) r[i].reset(new Receiver(i));
  int topics = mc::range(1, 2); sig[0].reset(new Signal<D>); sig[1].reset(new Signal<D>); for (int t = 0; t < topics; ++t) sig[0]->connect(T[t]); sig[1]->connect(T[2]);
  for (int i = 0; i < 3; ++i) { sl[i].reset(Api<D>::slot(*r[i])); for (int t = 0; t < topics; ++t) sl[i]->connect(T[t]); }
  int who = mc::choose(3), what = mc::choose(10), target = mc::choose(3); bool done = false; std::set<int> changed; size_t at = 0; bool gone = false;
  if (what == 1 && target == who) mc::skip();
  std::function<void(int)> f = [&](int id) {
    if (id != who || done) return; done = true; at = calls.size(); mc::trace("callback of slot%d: operation %d on %d", who, what, target);
    switch (what) {
      case 0: sl[target]->disconnect(); changed.insert(target); gone = true; break;
      case 1: sl[target].reset(); r[target].reset(); changed.insert(target); gone = true; break;
      case 2: extra.reset(Api<D>::slot(*r[3])); extra->connect(T[0]); changed.insert(3); break;
      case 3: sig[0]->disconnect(); for (int i = 0; i < 3; ++i) changed.insert(i); break;
      case 4: sig[0].reset(); for (int i = 0; i < 3; ++i) changed.insert(i); break;
      case 5: sl[target]->connect(T[2]); Api<D>::emit(*sig[1], 7); changed.insert(target); break;
      case 6: extra.reset(new Slot<D>(*sl[target])); break;
      case 7: sig[1]->connect(T[0]); break;
      case 8: sl[target]->disconnect(); sl[target]->connect(T[0]); if (topics == 2) sl[target]->connect(T[1]); changed.insert(target); break;
      case 9: sig[1].reset(new Signal<D>(*sig[0])); break;
    } };
  hook = &f; struct Off { ~Off() { hook = nullptr; } } off; mc::trace("emit over %d topics", topics); Api<D>::emit(*sig[0], 5); mc::step(); mc::validated();
  for (int i = 0; i < 3; ++i) { int n = 0; for (auto& c : calls) if (c.id == i && c.data != Api<D>::seen(7)) ++n; if (Api<D>::seen(5) == 0) { n = 0; for (auto& c : calls) if (c.id == i) ++n; }
    if (!changed.count(i)) MC_CHECK(n == topics, "reentrant-count", "slot%d was called %d times, expected %d", i, n, topics); else MC_CHECK(n <= topics + (what == 5) + (what == 8) * topics, "reentrant-count", "slot%d was called %d times", i, n); }
  if (gone) for (size_t i = at; i < calls.size(); ++i) MC_CHECK(calls[i].id != target, "called-after-end", "slot%d was called after it had been let go of", target);
  if (sig[0]) { hook = nullptr; calls.clear(); Api<D>::emit(*sig[0], 9); for (int i = 0; i < 3; ++i) { int want = (what == 3 || ((what == 0 || what == 1) && target == i)) ? 0 : topics, n = 0; for (auto& c : calls) if (c.id == i) ++n; MC_CHECK(n == want, "reentrant-later", "the next emission calls slot%d %d times, expected %d", i, n, want); } }
}
}
MC_SCENARIO(reentrant_data) { reentrant<int>(); }
MC_SCENARIO(reentrant_void) { reentrant<Void>(); }
// A callback that throws ends that emission but leaves the slot usable and destructible.
MC_SCENARIO(throwing_callback, .timeout(10)) {
  struct Thrower { bool on; int n; void f(int) { ++n; if (on) throw std::runtime_error("callback"); } } t{true, 0}; bool v = mc::flip(); (void)v;
  { Slot<int> s(&Thrower::f, t, "alpha"); Signal<int> g("alpha"); bool thrown = false; try { g.emit(1); } catch (const std::runtime_error&) { thrown = true; } mc::step(); MC_CHECK(thrown && t.n == 1, "throwing", "the exception did not reach the emitter"); t.on = false; g.emit(2); MC_CHECK(t.n == 2, "throwing", "the slot is not called after it threw once"); }
  mc::validated();
}
// Many endpoints on many topics: connected in a pattern, a third of them let go of again in a chosen way.
namespace { template <class D> void many() {
  static const int ns[] = {4, 8, 9, 17, 33, 65}, ks[] = {1, 2, 5, 9, 17}; int n = mc::pick(ns), k = mc::pick(ks), way = mc::choose(5), step = mc::range(1, 3); calls.clear(); mc::trace("%d slots, %d topics, spread %d, way %d", n, k, step, way); std::vector<std::string> topic; for (int t = 0; t < k; ++t) topic.push_back(std::string(t % 3 * 20, 'x') + "topic" + std::to_string(t));
  std::vector<std::unique_ptr<Receiver>> r; std::vector<std::unique_ptr<Slot<D>>> s; std::vector<std::set<int>> sub(n); std::vector<std::unique_ptr<Signal<D>>> g; std::vector<std::set<int>> pub(3); for (int i = 0; i < n; ++i) r.emplace_back(new Receiver(i)); for (int i = 0; i < 3; ++i) g.emplace_back(new Signal<D>);
  auto link = [&](int j) { for (int t = 0; t < k; t += j + 1) { g[j]->connect(topic[t]); pub[j].insert(t); } }; if (way & 1) for (int j = 0; j < 3; ++j) link(j);
  for (int i = 0; i < n; ++i) { s.emplace_back(Api<D>::slot(*r[i])); for (int t = i % k, c = 0; c < 3 && c < k; ++c, t = (t + step) % k) { s[i]->connect(topic[t]); sub[i].insert(t); } } if (!(way & 1)) for (int j = 2; j >= 0; --j) link(j);
  auto look = [&](const char* when) { for (int j = 0; j < 3; ++j) { std::vector<Call> want; for (int t : pub[j]) for (int i = 0; i < n; ++i) if (sub[i].count(t)) want.push_back({i, Api<D>::seen(j + 1)}); calls.clear(); Api<D>::emit(*g[j], j + 1); std::sort(want.begin(), want.end()); std::sort(calls.begin(), calls.end()); mc::step(); mc::validated(); MC_CHECK(want == calls, "wrong-calls", "%s: signal%d made %zu calls, expected %zu", when, j, calls.size(), want.size()); } };
  look("connected"); for (int i = 0; i < n; i += 3) { if (way == 0) { s[i]->disconnect(); sub[i].clear(); } else if (way == 1) { s[i].reset(); r[i].reset(); sub[i].clear(); } else if (way == 2) { s[i].reset(Api<D>::slot(*r[i])); sub[i].clear(); s[i]->connect(topic[0]); sub[i].insert(0); } else if (way == 3) { std::unique_ptr<Slot<D>> c(new Slot<D>(*s[i])); s[i].swap(c); } else { s[i]->disconnect(); sub[i].clear(); for (int t = 0; t < k; ++t) { s[i]->connect(topic[t]); sub[i].insert(t); } } }
  look("changed"); g[0]->disconnect(); pub[0].clear(); look("a signal gone"); g[0]->connect(topic[k - 1]); pub[0].insert(k - 1); look("connected again"); while (!s.empty()) { s.erase(s.begin() + s.size() / 2); int q = s.size() / 2; for (int i = q; i + 1 < n; ++i) {} if (s.empty()) break; if (s.size() == 1) { calls.clear(); Api<D>::emit(*g[1], 2); for (auto& c : calls) MC_CHECK(s[0] && c.id == 0, "called-after-end", "a destroyed slot was called"); } }
} }
MC_SCENARIO(many_data) { many<int>(); }
MC_SCENARIO(many_void) { many<Void>(); }
// Slots and signals with static storage that connect late are still destroyed in order at the end of the program.
namespace { void nothing(long) {} Slot<long>& static_slot() { static Slot<long> s(&nothing); return s; } Signal<long>& static_signal() { static Signal<long> s; return s; } }
MC_SCENARIO(static_endpoints, .fork_each()) {
  int order = mc::choose(3); fflush(nullptr); pid_t c = fork();
  if (!c) { freopen("/dev/null", "w", stderr); if (order == 0) { static_slot(); static_signal(); } else if (order == 1) { static_signal(); static_slot(); } else { Signal<long> early("x"); static_slot(); static_signal(); } static_slot().connect("late"); static_signal().connect("late"); static_signal().emit(1); exit(0); }
  int st; waitpid(c, &st, 0); mc::step(); mc::validated(); MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "static-teardown", "the program ends with status %x", st);
}

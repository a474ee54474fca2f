// @SOURCES: ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @EXTRA: lib/sched.cpp
// @SAN: -fsanitize=undefined -fno-sanitize-recover=all
// @INSTRUMENT: -fsanitize=thread
// @LDFLAGS: -ldl
// @ASSUME: threads run under a controlled scheduler with sequentially consistent memory: every call of the thread library and (in the memory scenarios) every memory access of the signals and slots is a point where another thread may be chosen, at most 3 preemptions between calls of the thread library and 1 or 2 (thorough 2 or 3) between memory accesses;; two threads of one or two operations, three threads of one, for data-carrying and void signals;; a handle is used by one thread at a time and a signal outlives the emissions made through it;; callbacks that destroy their own slot are not judged
#include "util.hpp"
#include "sched.hpp"
#include <ecl/sigslots.hpp>
#include <map>
#include <memory>
#include <string>
using ecl::Signal; using ecl::Slot; using ecl::Void;
namespace {
const int NOW = 1 << 30;
struct Span { int from, to = NOW; };
// One slot: when it was connected, and what it was called with. The span of a connection holds from the return of connect to the start of disconnect, the wide one from the start of connect to the return of disconnect.
struct Emission { int id, from, to = NOW, thread; };
struct End { std::string name; std::vector<Span> sure, maybe; std::map<int, int> calls; int running = 0; bool gone = false; };
struct World; World* world; struct Receiver; void called(Receiver*, int);
struct Receiver { int* alive; End* end; Receiver(End* e) : alive(new int(1)), end(e) {} ~Receiver() { *alive = 0; delete alive; } void data(int d) { called(this, d); } void none() { called(this, -1); } };
template <class D> struct Api;
template <> struct Api<int> { static Slot<int>* slot(Receiver& r) { return new Slot<int>(&Receiver::data, r); } static void emit(Signal<int>& s, int d) { s.emit(d); } };
template <> struct Api<Void> { static Slot<Void>* slot(Receiver& r) { return new Slot<Void>(&Receiver::none, r); } static void emit(Signal<Void>& s, int) { s.emit(); } };
struct World { int clk = 0; std::vector<Emission*> emissions; std::vector<End*> ends; int current[16]; std::function<void(End*)> hook; int tick() { return ++clk; } World() { for (int& c : current) c = -1; } ~World() { for (auto e : emissions) delete e; for (auto e : ends) delete e; }
  void judge() {
    for (auto s : ends) for (auto e : emissions) {
      int n = s->calls.count(e->id) ? s->calls[e->id] : 0; bool sure = false, possible = false; for (auto& c : s->sure) if (c.from < e->from && c.to > e->to) sure = true; for (auto& c : s->maybe) if (c.from < e->to && c.to > e->from) possible = true;
      if (sure && n != 1) mc::flag(n ? "twice" : "lost", "%s was connected throughout emission %d and was called %d times", s->name.c_str(), e->id, n); if (!possible && n) mc::flag("called-disconnected", "%s was not connected during emission %d but was called", s->name.c_str(), e->id); if (n > 1) mc::flag("twice", "%s was called %d times by emission %d", s->name.c_str(), n, e->id);
    }
  } };
void called(Receiver* r, int d) {
  int a = *r->alive; sched::Harness h; End* e = r->end; World& w = *world; int c = w.current[sched::self()]; mc::trace("  %s called%s", e->name.c_str(), d >= 0 ? (" with " + std::to_string(d)).c_str() : "");
  if (a != 1 || e->gone) mc::flag("called-destroyed", "%s is called after its destruction", e->name.c_str()); if (c < 0) mc::flag("stray", "%s is called by a thread that emits nothing", e->name.c_str()); else { if (d >= 0 && d != 100 + c) mc::flag("data", "emission %d carries %d, the slot gets %d", c, 100 + c, d); ++e->calls[c]; }
  ++e->running; sched::point(); if (w.hook) w.hook(e); sched::point(); --e->running; if (e->gone) mc::flag("called-destroyed", "%s has been destroyed while it was running", e->name.c_str());
}
template <class D> struct Net {
  World& w; Net(World& w) : w(w) {}
  struct P { Slot<D>* s; Receiver* r; End* e; };
  P make(const char* name) { End* e = new End; e->name = name; w.ends.push_back(e); P p; p.e = e; sched::sut([&] { p.r = new Receiver(e); p.s = Api<D>::slot(*p.r); }); return p; }
  void connect(P& p, const char* t) { mc::trace("%s connects", p.e->name.c_str()); if (p.e->maybe.empty() || p.e->maybe.back().to != NOW) p.e->maybe.push_back({w.tick()}); sched::sut([&] { p.s->connect(t); }); if (p.e->sure.empty() || p.e->sure.back().to != NOW) p.e->sure.push_back({w.tick()}); mc::step(); }
  void closing(P& p) { if (!p.e->sure.empty() && p.e->sure.back().to == NOW) p.e->sure.back().to = w.tick(); }
  void closed(P& p) { if (!p.e->maybe.empty() && p.e->maybe.back().to == NOW) p.e->maybe.back().to = w.tick(); }
  void disconnect(P& p) { mc::trace("%s disconnects", p.e->name.c_str()); closing(p); sched::sut([&] { p.s->disconnect(); }); closed(p); mc::step(); }
  void destroy(P& p) { if (!p.s) return; mc::trace("%s is destroyed", p.e->name.c_str()); closing(p); sched::sut([&] { delete p.s; }); p.s = nullptr; closed(p); p.e->gone = true; if (p.e->running) mc::flag("called-destroyed", "the destruction of %s returned while it was running", p.e->name.c_str()); sched::sut([&] { delete p.r; }); mc::trace("%s is gone", p.e->name.c_str()); mc::step(); }
  Signal<D>* signal() { return sched::sut([] { return new Signal<D>; }); }
  void drop(Signal<D>*& s) { sched::sut([&] { delete s; }); s = nullptr; }
  void emit(Signal<D>* s) { Emission* e = new Emission; e->id = (int)w.emissions.size(); e->thread = sched::self(); w.emissions.push_back(e); int old = w.current[sched::self()]; w.current[sched::self()] = e->id; mc::trace("emission %d", e->id); e->from = w.tick(); sched::sut([&] { Api<D>::emit(*s, 100 + e->id); }); e->to = w.tick(); w.current[sched::self()] = old; mc::trace("emission %d done", e->id); mc::step(); }
};
const char* const OP[] = {"emit through the first signal", "emit through the second signal", "destroy the slot", "disconnect the slot", "connect the slot", "reconnect the slot", "a slot comes and goes", "a signal comes, emits and goes", "the relay goes", "reconnect the relay"};
// Two signals and a permanent slot on a topic, a relay to a second topic with a permanent slot, and a slot that changes.
template <class D> void network(int threads, int ops, int kinds, int dev, bool memory, bool relay, int hook) {
  { Signal<D> warm; warm.connect("warm"); }
  std::vector<std::vector<int>> script; bool connected = mc::flip(); int mutator = -1;
  for (int t = 0; t < threads; ++t) { script.emplace_back(); for (int i = 0; i < ops; ++i) { int k = mc::choose(kinds); mc::trace("thread %d: %s", t + 1, OP[k]); script.back().push_back(k); bool m = (k >= 2 && k <= 5) || k >= 8; if (m && hook == 3) mc::skip(); if (m) { if (mutator >= 0 && mutator != t) mc::skip(); mutator = t; } } }
  bool emits = false; for (auto& s : script) for (int k : s) if (k < 2 || k == 7) emits = true; if (!emits) mc::skip();
  sched::Config c; c.deviations = dev; c.memory = memory; c.faults = sched::Spurious; World w; world = &w;
  sched::run(c, [&] {
    Net<D> n(w); Signal<D>*x = n.signal(), *y = n.signal(), *z = nullptr; auto perm = n.make("permanent slot"), q = n.make("slot"); typename Net<D>::P far; sched::sut([&] { x->connect("t"); y->connect("t"); }); n.connect(perm, "t"); if (connected) n.connect(q, "t");
    if (relay) { far = n.make("slot behind the relay"); n.connect(far, "u"); z = n.signal(); sched::sut([&] { z->connect("u"); z->connectAsSlot("t"); }); }
    auto op = [&](int k) { if (mc::failed()) return; switch (k) {
      case 0: n.emit(x); break; case 1: n.emit(y); break; case 2: n.destroy(q); break; case 3: if (q.s) n.disconnect(q); break; case 4: if (q.s) n.connect(q, "t"); break; case 5: if (q.s) { n.disconnect(q); n.connect(q, "t"); } break;
      case 6: { auto p = n.make("temporary slot"); n.connect(p, "t"); n.destroy(p); break; } case 7: { Signal<D>* s = n.signal(); sched::sut([&] { s->connect("t"); }); n.emit(s); n.drop(s); break; }
      case 8: if (z) { n.closing(far); n.drop(z); n.closed(far); } break; case 9: if (z) { n.closing(far); sched::sut([&] { z->disconnect(); }); n.closed(far); far.e->maybe.push_back({w.tick()}); sched::sut([&] { z->connect("u"); z->connectAsSlot("t"); }); far.e->sure.push_back({w.tick()}); } break; } };
    int depth = 0; if (hook) w.hook = [&](End* e) { if (e != perm.e || depth) return; ++depth; switch (hook) { case 1: op(6); break; case 2: op(7); break; case 3: op(5); break; } --depth; };
    for (auto& s : script) sched::spawn([&, s] { for (int k : s) op(k); });
    sched::join_all(); w.judge(); mc::validated();
    w.hook = nullptr; n.emit(x); w.judge(); n.destroy(q); n.destroy(perm); if (relay) { if (z) n.drop(z); n.destroy(far); } n.drop(x); n.drop(y);
  });
}
}
MC_SCENARIO(calls_data, .shard(5).nocut()) { bool deep = mc::flip(); network<int>(2, deep ? 1 : 2, 8, deep ? mc::tiered(3, 4) : mc::tiered(1, 2), false, false, 0); }
MC_SCENARIO(calls_void, .shard(5).nocut()) { bool deep = mc::flip(); network<Void>(2, deep ? 1 : 2, 8, deep ? mc::tiered(2, 4) : mc::tiered(1, 2), false, false, 0); }
MC_SCENARIO(relays_data, .shard(5).nocut()) { network<int>(2, mc::tiered(1, 2), 10, 2, false, true, 0); }
MC_SCENARIO(relays_void, .shard(5).nocut()) { network<Void>(2, mc::tiered(1, 2), 10, 2, false, true, 0); }
MC_SCENARIO(callbacks_data, .shard(5).nocut()) { network<int>(2, 1, 8, mc::tiered(2, 3), false, false, 1 + mc::choose(3)); }
MC_SCENARIO(callbacks_void, .shard(5).nocut()) { network<Void>(2, 1, 8, mc::tiered(2, 3), false, false, 1 + mc::choose(3)); }
MC_SCENARIO(three_threads, .shard(5).nocut()) { if (mc::flip()) network<int>(3, 1, 8, mc::tiered(1, 2), false, false, 0); else network<Void>(3, 1, 8, mc::tiered(1, 2), false, false, 0); }
MC_SCENARIO(memory_data, .shard(5).nocut()) { network<int>(2, 1, 8, mc::tiered(1, 2), true, false, 0); }
MC_SCENARIO(memory_void, .shard(5).nocut()) { network<Void>(2, 1, 8, mc::tiered(1, 2), true, false, 0); }

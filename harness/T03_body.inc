#define CAT_(a, b) a##_##b
#define CAT(a, b) CAT_(a, b)
#define SCENARIO(name, ...) MC_SCENARIO_(CAT(name, VARIANT), __VA_ARGS__)
#define MC_SCENARIO_(name, ...) MC_SCENARIO(name, __VA_ARGS__)
namespace VARIANT {
using namespace ecl;
// Every call and every run as an interval of a logical clock.
struct Call { int from, to = 1 << 30; bool accepted = false; };
struct Run { int from, to = 1 << 30; };
struct World { int clk = 0, active = 0, accepted = 0, failed = 0, length = 5; bool faults = false; std::vector<Call*> calls; std::vector<Run*> runs; int tick() { return ++clk; } ~World() { for (auto c : calls) delete c; for (auto r : runs) delete r; } };
World* world;
struct Worker : public Threadable {
  int* payload; Worker() : payload(new int(7)) {} ~Worker() { *payload = -1; delete payload; }
  void runnable() {
    int v = *payload; Run* r;
    { sched::Harness h; World& w = *world; if (v != 7) mc::flag("argument", "the body sees a different object"); if (w.active++) mc::flag("two-runs", "two background runs are active at the same time"); r = new Run{w.tick()}; w.runs.push_back(r); mc::trace("body begins"); sched::sleep(w.length); mc::trace("body ends"); --w.active; }
    v = *payload; { sched::Harness h; if (v != 7) mc::flag("argument", "the body sees a different object"); r->to = world->tick(); }
  }
};
int begun(World& w) { return (int)w.runs.size(); }
void start(World& w, Worker* o) {
  Call* c = new Call{w.tick()}; w.calls.push_back(c); int me = sched::self(); mc::trace("thread %d: start", me); bool threw = false, r = false; int f0 = sched::injected();
  try { r = sched::sut([&] { return o->start(w.faults ? RealTimePriority1 : DefaultPriority); }); } catch (const StandardException& e) { threw = true; } mc::step();
  c->to = w.tick(); c->accepted = r; mc::trace("thread %d: %s", me, threw ? "error" : r ? "accepted" : "refused"); if (r) ++w.accepted; bool fault = sched::injected() != f0; if (!r) ++w.failed;
  if (threw && !fault) mc::flag("refused", "start throws although nothing failed");
  if (!r && !fault) {   // somebody else has to be at it
    bool busy = false; for (auto x : w.calls) if (x != c && x->from < c->to && (x->accepted || x->to == 1 << 30 || (w.faults && x->to > c->from))) { if (x->to > c->from) busy = true; }
    for (auto x : w.runs) if (x->to > c->from) busy = true; if (sched::running()) busy = true; if (w.accepted > begun(w)) busy = true;
    static int dummy; (void)dummy; if (!busy && !w.faults) mc::flag("refused", "a start is refused although no run is active");
  }
}
void query(World& w, Worker* o) {
  int a = w.tick(); int accepted = w.accepted; bool quiet = sched::running() == 0, pending = false; for (auto c : w.calls) if (c->to == 1 << 30) pending = true; size_t calls = w.calls.size(); int ended = 0; for (auto r : w.runs) if (r->to < a) ++ended;
  bool s = sched::sut([&] { return o->isRunning(); }); mc::trace("thread %d: running: %s", sched::self(), s ? "yes" : "no"); mc::step();
  int e2 = 0; for (auto r : w.runs) if (r->to < (1 << 30)) ++e2;
  if (!s && accepted > e2) mc::flag("status", "a start has been accepted and the body has not returned, the object reports that nothing runs");
  if (s && quiet && !pending && calls == w.calls.size() && accepted == ended) mc::flag("status", "nothing runs and nobody starts, the object reports a run");
}
void op(World& w, Worker* o, int k) { switch (k) { case 0: start(w, o); break; case 1: query(w, o); break; case 2: sched::sleep(20); break; } }
void collide(int threads, int ops, int kinds, int dev, bool memory, int faults) {
  std::vector<std::vector<int>> script; static const char* const OP[] = {"start", "query", "wait"}; int len = mc::flip() ? 5 : 0;
  for (int t = 0; t < threads; ++t) { script.emplace_back(); std::string s; for (int i = 0; i < ops; ++i) { int k = mc::choose(kinds); script.back().push_back(k); s += std::string(" ") + OP[k]; } mc::trace("thread %d:%s", t + 1, s.c_str()); }
  sched::Config c; c.deviations = dev; c.memory = memory; c.faults = faults; bool poll = mc::flip();
  World w; world = &w; w.length = len; w.faults = faults != 0;
  sched::run(c, [&] {
    Worker* o = sched::sut([] { return new Worker; }); std::vector<int> ts;
    for (auto& s : script) ts.push_back(sched::spawn([&w, o, s] { for (int k : s) op(w, o, k); }));
    for (int t : ts) sched::join(t);
    if (poll) { int n = 0; while (sched::sut([&] { return o->isRunning(); })) { sched::sleep(3); if (++n > 20) { mc::flag("status", "the object reports a run for ever"); break; } } }   // the object may go as soon as it reports that nothing runs
    else { sched::join_all(); query(w, o); sched::set_faults(0); int b = begun(w), a = w.accepted; start(w, o); if (w.accepted == a && !mc::failed()) mc::flag("refused", "all runs have ended, a start is refused"); sched::join_all(); if (begun(w) != b + 1 && !mc::failed()) mc::flag("not-run", "the accepted start did not run the body"); query(w, o); }
    sched::sut([&] { delete o; }); sched::join_all(); mc::validated();
    if (begun(w) != w.accepted) mc::flag("not-run", "%d starts were accepted, the body ran %d times", w.accepted, begun(w));
  });
}
}
SCENARIO(two_starters, .shard(6).nocut()) { using namespace VARIANT; collide(2, 1, 2, mc::tiered(RELEASE ? 1 : 2, 3), true, 0); }
SCENARIO(two_operations, .shard(6).nocut()) { using namespace VARIANT; collide(2, mc::tiered(RELEASE ? 1 : 2, 2), 3, mc::tiered(1, 2), true, 0); }
SCENARIO(three_starters, .shard(6).nocut()) { using namespace VARIANT; collide(3, 1, 2, mc::tiered(1, 2), true, 0); }
SCENARIO(long_scripts, .shard(6).nocut()) { using namespace VARIANT; collide(2, mc::tiered(RELEASE ? 2 : 3, 3), 3, mc::tiered(1, 2), false, 0); }
SCENARIO(refused_calls, .shard(6).nocut()) { using namespace VARIANT; collide(2, mc::tiered(2, 3), 3, 2, false, sched::CreateFails | sched::PriorityFails); }
#undef SCENARIO

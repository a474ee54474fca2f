#define CAT_(a, b) a##_##b
#define CAT(a, b) CAT_(a, b)
#define SCENARIO(name, ...) MC_SCENARIO_(CAT(name, VARIANT), __VA_ARGS__)
#define MC_SCENARIO_(name, ...) MC_SCENARIO(name, __VA_ARGS__)
namespace VARIANT {
using namespace ecl;
// What the threads did to the mutex, as seen by the harness.
struct World {
  Mutex* m; int inside = 0, busy = 0, epoch = 0; int leaving = 0; bool bad = false;
  void enter(const char* how) { if (++inside != 1) mc::flag("two-holders", "%d threads hold the mutex after a %s", inside, how); mc::trace("%d holds (%s)", sched::self(), how); }
  void hold() { sched::point(); unsigned n = sched::sut([&] { return m->locks(); }); if (n < 1) mc::flag("lock-count", "the mutex is held but reports %u locks", n); sched::point(); }
  void leave() { if (inside != 1) mc::flag("two-holders", "%d threads hold the mutex", inside); --inside; ++leaving; ++epoch; mc::trace("%d unlocks", sched::self()); sched::sut([&] { m->unlock(); }); --leaving; --busy; ++epoch; }
  void lock() { ++busy; ++epoch; try { sched::sut([&] { m->lock(); }); } catch (const StandardException&) { mc::flag("refused", "lock() throws"); --busy; return; } enter("lock"); hold(); leave(); }
  void trylock() {   // succeeds iff free, never waits
    int others = busy; ++busy; int e0 = ++epoch; bool held = inside > 0; int64_t t0 = sched::now(); bool r; try { r = sched::sut([&] { return m->trylock(); }); } catch (const StandardException&) { mc::flag("refused", "trylock() throws"); --busy; return; }
    bool quiet = epoch == e0; if (sched::now() != t0) mc::flag("trylock-waits", "a non-blocking attempt waited");
    if (quiet && others == 0 && !r) mc::flag("free-refused", "a non-blocking attempt fails although the mutex is free"); if (quiet && held && r) mc::flag("two-holders", "a non-blocking attempt succeeds although the mutex is held");
    mc::trace("%d trylock %d", sched::self(), r); if (r) { enter("trylock"); hold(); leave(); } else { --busy; ++epoch; }
  }
  void timed(int64_t d) {
    int others = busy; ++busy; int e0 = ++epoch; int64_t t0 = sched::now(); bool r; try { r = sched::sut([&] { Duration x(d / 1000000000, d % 1000000000); return m->trylock(x); }); } catch (const StandardException& e) { mc::flag("refused", "a timed attempt throws: %s", e.what()); --busy; return; }
    bool quiet = epoch == e0; int64_t w = sched::now() - t0; mc::trace("%d timed %d after %ld", sched::self(), r, (long)w);
    if (quiet && others == 0 && (!r || w)) mc::flag("free-refused", "a timed attempt %s although the mutex is free", r ? "waits" : "fails");
    if (r && w > d) mc::flag("timed-late", "a timed attempt of %ld ns succeeds after %ld", (long)d, (long)w); if (!r && w < d) mc::flag("timed-early", "a timed attempt of %ld ns gives up after %ld", (long)d, (long)w); if (!r && w > d) mc::flag("timed-late", "a timed attempt of %ld ns gives up after %ld", (long)d, (long)w);
    if (r) { enter("timed"); hold(); leave(); } else { --busy; ++epoch; }
  }
  void op(int k) { if (mc::failed()) return; switch (k) { case 0: lock(); break; case 1: trylock(); break; case 2: timed(5); break; case 3: long_hold(); break; case 4: relock(); break; } }
  void long_hold() { ++busy; ++epoch; sched::sut([&] { m->lock(); }); enter("long lock"); sched::sleep(10); leave(); }
  void relock() {   // failed attempts of the holder itself leave the mutex as it was
    ++busy; ++epoch; sched::sut([&] { m->lock(); }); enter("lock"); bool r = true; try { r = sched::sut([&] { return m->trylock(); }); } catch (const StandardException&) { r = false; } if (r) mc::flag("two-holders", "trylock succeeds on a mutex the thread itself holds");
    if (!RELEASE) { bool threw = false; try { sched::sut([&] { m->lock(); }); } catch (const StandardException&) { threw = true; } if (!threw) mc::flag("deadlock-unreported", "locking twice is not reported"); } hold(); leave(); }
  void end() { unsigned n = sched::sut([&] { return m->locks(); }); if (n) mc::flag("lock-count", "every holder has unlocked, the mutex still reports %u locks", n); bool f = sched::sut([&] { return m->trylock(); }); if (!f) mc::flag("still-locked", "every holder has unlocked, the mutex is still locked"); else sched::sut([&] { m->unlock(); }); }
};
void interleave(const std::vector<std::vector<int>>& scripts, int dev, bool memory) {
  sched::Config c; c.deviations = dev; c.memory = memory;
  sched::run(c, [&] {
    World w; w.m = sched::sut([] { return new Mutex(); });
    for (auto& s : scripts) sched::spawn([&w, s] { for (int k : s) w.op(k); });
    sched::join_all(); w.end(); mc::validated(); sched::sut([&] { delete w.m; });
  });
}
const char* const NAME[] = {"lock", "trylock", "timed", "long", "relock"};
std::vector<int> script(int ops, int kinds) { std::vector<int> s; std::string t; for (int i = 0; i < ops; ++i) { s.push_back(mc::choose(kinds)); t += std::string(i ? "," : "") + NAME[s[i]]; } mc::trace("thread: %s", t.c_str()); return s; }
}
SCENARIO(two_threads, .shard(5).nocut()) { using namespace VARIANT; std::vector<std::vector<int>> s; int a = mc::tiered(2, 3); s.push_back(script(a, 5)); s.push_back(script(a, 5)); interleave(s, mc::tiered(2, 3), false); }
SCENARIO(two_threads_memory, .shard(5).nocut()) { using namespace VARIANT; std::vector<std::vector<int>> s; int a = mc::tiered(1, 2); s.push_back(script(a, 5)); s.push_back(script(a, 5)); interleave(s, mc::tiered(3, 3), true); }
SCENARIO(three_threads, .shard(5).nocut()) { using namespace VARIANT; std::vector<std::vector<int>> s; for (int i = 0; i < 3; ++i) s.push_back(script(i ? 1 : mc::tiered(1, 2), i ? 4 : 5)); interleave(s, mc::tiered(2, 3), false); }
// a timed attempt against a holder that releases before, at or after the deadline
SCENARIO(deadlines, .shard(3).nocut()) {
  using namespace VARIANT; static const int64_t D[] = {0, 1, 400000000, 999999999, 1000000000, 1000000001, 1600000000, 100000000000000000ll}; static const int64_t S[] = {0, 1, 400000000, 999999998, 999999999, 1000000000};
  int64_t d = mc::pick(D), s = mc::pick(S); int rel = mc::choose(5); int64_t r = rel == 0 ? -1 : rel == 1 ? (d > 1 ? d - 1 : 0) : rel == 2 ? d : rel == 3 ? d + 1 : d / 2; mc::trace("duration %ld, start at %ld, released %s", (long)d, (long)s, rel == 0 ? "before the attempt" : std::to_string(r).c_str());
  if (d > 10000000000ll && rel == 3) mc::skip(); bool ctor = mc::flip(); mc::step();
  sched::Config c; c.deviations = 1;
  sched::run(c, [&] {
    sched::sleep(s); World w; w.m = sched::sut([&] { return new Mutex(ctor); }); if (ctor) { w.busy = w.inside = 1; } bool got = false; int64_t waited = 0;
    if (!ctor) { sched::sut([&] { w.m->lock(); }); w.busy = w.inside = 1; }
    if (rel == 0) w.leave();
    int t = sched::spawn([&] { int64_t t0 = sched::now(); try { Duration x(d / 1000000000, d % 1000000000); got = sched::sut([&] { return w.m->trylock(x); }); } catch (const StandardException& e) { mc::flag("refused", "a timed attempt throws: %s", e.what()); } waited = sched::now() - t0; if (got) sched::sut([&] { w.m->unlock(); }); });
    if (rel) { sched::sleep(r); w.leave(); }
    sched::join(t); mc::validated(); w.busy = 0;
    if (rel == 0 || r < d) { if (!got) mc::flag("timed-refused", "released after %ld of %ld ns, the attempt failed after %ld", (long)r, (long)d, (long)waited); else if (waited != (rel == 0 ? 0 : r) && !mc::failed()) mc::flag("timed-late", "released after %ld ns, obtained after %ld", (long)r, (long)waited); }
    else if (r > d) { if (got) mc::flag("timed-late", "released after %ld ns, obtained by an attempt of %ld", (long)r, (long)d); else if (waited != d) mc::flag("timed-early", "an attempt of %ld ns gave up after %ld", (long)d, (long)waited); }
    else if (waited != d && rel) mc::flag("timed-early", "an attempt of %ld ns ended after %ld", (long)d, (long)waited);
    w.end(); sched::sut([&] { delete w.m; });
  });
}
#undef SCENARIO

#include <memory>
#define CAT_(a, b) a##_##b
#define CAT(a, b) CAT_(a, b)
#define SCENARIO(name, ...) MC_SCENARIO_(CAT(name, VARIANT), __VA_ARGS__)
#define MC_SCENARIO_(name, ...) MC_SCENARIO(name, __VA_ARGS__)
namespace VARIANT {
using namespace ecl;
Semaphore* opened(const char* name = "verif") { return sched::sut([&] { return new Semaphore(name); }); }
void closed(Semaphore*& s) { sched::sut([&] { delete s; }); s = nullptr; }
// What the users did, as seen by the harness.
struct World {
  int inside = 0, busy = 0, epoch = 0; bool faults = false;
  bool interrupted(int f0) { return sched::injected() != f0; }
  void enter(const char* how) { if (++inside != 1) mc::flag("two-holders", "%d users hold the semaphore after a %s", inside, how); mc::trace("%d holds (%s)", sched::self(), how); }
  void leave(Semaphore* s, bool again = false) { if (inside != 1) mc::flag("two-holders", "%d users hold the semaphore", inside); --inside; ++epoch; mc::trace("%d unlocks", sched::self()); sched::sut([&] { s->unlock(); }); --busy; ++epoch; }
  void hold(Semaphore* s, int64_t t = 0) { sched::point(); if (t) sched::sleep(t); leave(s); }
  void lock(Semaphore* s, int64_t t) { ++busy; ++epoch; try { sched::sut([&] { s->lock(); }); } catch (const StandardException& e) { mc::flag("refused", "lock() throws: %s", e.what()); --busy; return; } mc::step(); enter("lock"); hold(s, t); }
  void trylock(Semaphore* s) {
    int others = busy; ++busy; int e0 = ++epoch; bool held = inside > 0; int64_t t0 = sched::now(); int f0 = sched::injected(); bool r; try { r = sched::sut([&] { return s->trylock(); }); } catch (const StandardException&) { if (!interrupted(f0)) mc::flag("refused", "trylock() throws"); --busy; ++epoch; return; } mc::step();
    bool quiet = epoch == e0; if (sched::now() != t0) mc::flag("trylock-waits", "a non-blocking attempt waited");
    if (quiet && others == 0 && !r && !interrupted(f0)) mc::flag("free-refused", "a non-blocking attempt fails although the semaphore is free"); if (quiet && held && r) mc::flag("two-holders", "a non-blocking attempt succeeds although the semaphore is held");
    mc::trace("%d trylock %d", sched::self(), r); if (r) { enter("trylock"); hold(s); } else { --busy; ++epoch; }
  }
  void timed(Semaphore* s, int64_t d) {
    int others = busy; ++busy; int e0 = ++epoch; int64_t t0 = sched::now(); int f0 = sched::injected(); bool r, threw = false; try { r = sched::sut([&] { Duration x(d / 1000000000, d % 1000000000); return s->trylock(x); }); } catch (const StandardException& e) { r = false; threw = true; if (!interrupted(f0)) mc::flag("refused", "a timed attempt throws: %s", e.what()); } mc::step();
    bool quiet = epoch == e0, broken = interrupted(f0); int64_t w = sched::now() - t0; mc::trace("%d timed %s after %ld", sched::self(), threw ? "error" : r ? "1" : "0", (long)w);
    if (quiet && others == 0 && !broken && (!r || w)) mc::flag("free-refused", "a timed attempt %s although the semaphore is free", r ? "waits" : "fails");
    if (w > d) mc::flag("timed-late", "a timed attempt of %ld ns %s after %ld", (long)d, r ? "succeeds" : "gives up", (long)w); if (!r && w < d && !broken) mc::flag("timed-early", "a timed attempt of %ld ns gives up after %ld", (long)d, (long)w);
    if (r) { enter("timed"); hold(s); } else { --busy; ++epoch; }
  }
  void op(Semaphore* s, int k) { if (mc::failed()) return; switch (k) { case 0: lock(s, 0); break; case 1: trylock(s); break; case 2: timed(s, 5); break; case 3: lock(s, 10); break; } }
  // Everybody has unlocked: exactly one attempt succeeds.
  void end(Semaphore* a, Semaphore* b) { sched::set_faults(0); for (int again = 0; again < 2; ++again) { bool x = sched::sut([&] { return a->trylock(); }), y = sched::sut([&] { return b->trylock(); }); if (!x) mc::flag("still-locked", "every holder has unlocked, the semaphore is still locked"); if (x && y) mc::flag("two-holders", "two users obtain the semaphore one after the other"); sched::sut([&] { b->unlock(); }); } sched::sut([&] { a->unlock(); }); }
};
const char* const NAME[] = {"lock", "trylock", "timed", "long"};
std::vector<int> script(int ops, int kinds) { std::vector<int> s; std::string t; for (int i = 0; i < ops; ++i) { s.push_back(mc::choose(kinds)); t += std::string(i ? "," : "") + NAME[s[i]]; } mc::trace("user: %s", t.c_str()); return s; }
void interleave(const std::vector<std::vector<int>>& scripts, int dev, bool memory, int faults, bool shared) {
  sched::Config c; c.deviations = dev; c.memory = memory; c.faults = faults;
  sched::run(c, [&] {
    World w; w.faults = faults; std::vector<Semaphore*> s; for (size_t i = 0; i < scripts.size(); ++i) s.push_back(shared && i ? s[0] : opened());
    for (size_t i = 0; i < scripts.size(); ++i) { Semaphore* x = s[i]; auto sc = scripts[i]; sched::spawn([&w, x, sc] { for (int k : sc) w.op(x, k); }); }
    sched::join_all(); w.end(s[0], s[1]); mc::validated(); for (size_t i = 0; i < s.size(); ++i) if (!(shared && i)) closed(s[i]);
  });
}
}
SCENARIO(two_users, .shard(5).nocut()) { using namespace VARIANT; std::vector<std::vector<int>> s; int a = mc::tiered(2, 3); s.push_back(script(a, 4)); s.push_back(script(a, 4)); interleave(s, mc::tiered(3, 5), false, 0, mc::flip()); }
SCENARIO(two_users_memory, .shard(5).nocut()) { using namespace VARIANT; std::vector<std::vector<int>> s; int a = mc::tiered(1, 2); s.push_back(script(a, 4)); s.push_back(script(a, 4)); interleave(s, mc::tiered(3, 4), true, 0, mc::flip()); }
SCENARIO(three_users, .shard(5).nocut()) { using namespace VARIANT; std::vector<std::vector<int>> s; for (int i = 0; i < 3; ++i) s.push_back(script(i ? 1 : 2, 4)); interleave(s, mc::tiered(3, 4), false, 0, false); }
// interrupted waits and failing clocks
SCENARIO(refused_calls, .shard(5).nocut()) { using namespace VARIANT; std::vector<std::vector<int>> s; s.push_back(script(2, 4)); s.push_back(script(mc::tiered(1, 2), 4)); interleave(s, mc::tiered(3, 4), false, sched::WaitInterrupted | sched::TryInterrupted | sched::ClockFails, false); }
// a timed attempt against a holder that releases before, at or after the deadline, at every position of the clock
SCENARIO(deadlines, .shard(3).nocut()) {
  using namespace VARIANT; static const int64_t D[] = {0, 1, 2, 400000000, 500000000, 999999998, 999999999, 1000000000, 1000000001, 1600000000, 2999999999, 100000000000000000ll}; static const int64_t S[] = {0, 1, 2, 400000000, 499999999, 500000000, 500000001, 999999997, 999999998, 999999999, 1000000000};
  int64_t d = mc::pick(D), s = mc::pick(S); int rel = mc::choose(5); int64_t r = rel == 0 ? -1 : rel == 1 ? (d > 1 ? d - 1 : 0) : rel == 2 ? d : rel == 3 ? d + 1 : d / 2; mc::trace("duration %ld, start at %ld, released %s", (long)d, (long)s, rel == 0 ? "before the attempt" : std::to_string(r).c_str());
  if (d > 10000000000ll && rel == 3) mc::skip(); mc::step(); sched::Config c; c.deviations = 1;
  sched::run(c, [&] {
    sched::sleep(s); World w; Semaphore *a = opened(), *b = opened(); bool got = false; int64_t waited = 0;
    sched::sut([&] { a->lock(); }); w.busy = w.inside = 1; if (rel == 0) w.leave(a);
    int t = sched::spawn([&] { int64_t t0 = sched::now(); try { got = sched::sut([&] { Duration x(d / 1000000000, d % 1000000000); return b->trylock(x); }); } catch (const StandardException& e) { mc::flag("refused", "a timed attempt throws: %s", e.what()); } waited = sched::now() - t0; if (got) sched::sut([&] { b->unlock(); }); });
    if (rel) { sched::sleep(r); w.leave(a); }
    sched::join(t); mc::validated();
    if (rel == 0 || r < d) { if (!got) mc::flag("timed-refused", "released after %ld of %ld ns, the attempt failed after %ld", (long)r, (long)d, (long)waited); else if (waited != (rel == 0 ? 0 : r) && !mc::failed()) mc::flag("timed-late", "released after %ld ns, obtained after %ld", (long)r, (long)waited); }
    else if (r > d) { if (got) mc::flag("timed-late", "released after %ld ns, obtained by an attempt of %ld", (long)r, (long)d); else if (waited != d) mc::flag(waited < d ? "timed-early" : "timed-late", "an attempt of %ld ns gave up after %ld", (long)d, (long)waited); }
    else if (waited != d && rel) mc::flag("timed-early", "an attempt of %ld ns ended after %ld", (long)d, (long)waited);
    w.end(a, b); closed(a); closed(b);
  });
}
// One user after the other: every history against a binary semaphore, instances come and go with their users.
SCENARIO(lifecycle, .shard(6).nocut()) {
  using namespace VARIANT; sched::Config c; c.deviations = mc::flip() ? 1 : 0; c.faults = c.deviations ? sched::SemOpenFails | sched::WaitInterrupted | sched::TryInterrupted | sched::ClockFails : 0; int depth = mc::tiered(6, 7) - c.deviations; if (RELEASE && c.deviations) c.faults &= ~sched::SemOpenFails;
  struct Instance { int value = 1; int holder = -1; }; std::vector<int> ops; { bool open[3] = {false, false, false}; for (int i = 0; i < depth; ++i) { std::vector<int> ok; int fresh = -1; for (int k = 0; k < 3; ++k) { if (open[k]) for (int w = 1; w < 5; ++w) ok.push_back(5 * k + w); else if (k == 2 || fresh < 0) { ok.push_back(5 * k); fresh = k; } } int o = mc::pick(ok); ops.push_back(o); if (o % 5 < 2) open[o / 5] = o % 5 == 0; } }
  std::vector<std::unique_ptr<Instance>> all; Instance* current[2] = {nullptr, nullptr}; Instance* in[3] = {nullptr, nullptr, nullptr}; Semaphore* u[3] = {nullptr, nullptr, nullptr}; static const char* const N[] = {"alpha", "beta"}; int name[3] = {0, 0, 0}; bool holds[3] = {false, false, false}; int other = mc::choose(2);   // the third user may take another name
  auto closed_all = [&] { for (int k = 0; k < 3; ++k) if (u[k]) closed(u[k]); };
  sched::run(c, [&] {
    for (int o : ops) {
      if (mc::failed()) break; int k = o / 5, w = o % 5, f0 = sched::injected(); mc::step(); auto injected = [&] { return sched::injected() != f0; };
      auto obtained = [&](bool r, const char* how) {
        mc::trace("user %d %s: %d", k, how, r); if (r && in[k]->value == 0) mc::flag("two-holders", "user %d obtains a semaphore that is taken", k); if (!r && in[k]->value == 1 && !injected()) mc::flag("free-refused", "user %d is refused a free semaphore", k);
        if (r) { for (int x = 0; x < 3; ++x) if (u[x] && x != k && holds[x] && name[x] == name[k] && in[x] != in[k] && in[x]->value == 0) mc::flag("split-name", "users %d and %d hold the semaphore of one name: it was opened again after a user of it had gone", x, k); in[k]->value = 0; in[k]->holder = k; holds[k] = true; }
      };
      switch (w) {
        case 0: { name[k] = k == 2 ? other : 0; mc::trace("user %d opens %s", k, N[name[k]]); try { u[k] = opened(N[name[k]]); } catch (const StandardException& e) { if (!injected()) mc::flag("refused", "opening throws: %s", e.what()); mc::trace("error"); closed_all(); return; } if (injected()) mc::flag("failure-hidden", "opening failed but is not reported"); if (!current[name[k]]) { all.emplace_back(new Instance); current[name[k]] = all.back().get(); } in[k] = current[name[k]]; holds[k] = false; break; }
        case 1: mc::trace("user %d goes", k); closed(u[k]); current[name[k]] = nullptr; holds[k] = false; break;
        case 2: { bool r = false; try { r = sched::sut([&] { return u[k]->trylock(); }); } catch (const StandardException& e) { if (!injected()) mc::flag("refused", "trylock throws: %s", e.what()); } obtained(r, "trylock"); break; }
        case 3: { int64_t t0 = sched::now(); bool r = false; try { r = sched::sut([&] { Duration d(0, 7); return u[k]->trylock(d); }); } catch (const StandardException& e) { if (!injected()) mc::flag("refused", "a timed attempt throws: %s", e.what()); } int64_t t = sched::now() - t0; if (!injected() && t != (r ? 0 : 7)) mc::flag(t < 7 ? "timed-early" : "timed-late", "an attempt of 7 ns took %ld", (long)t); obtained(r, "timed"); break; }
        case 4: mc::trace("user %d unlocks", k); sched::sut([&] { u[k]->unlock(); }); in[k]->value = 1; for (int x = 0; x < 3; ++x) if (u[x] && in[x] == in[k]) holds[x] = false; break;
      }
      mc::validated();
    }
    closed_all();
  });
}
// Unlocking by somebody who does not hold the semaphore while the holder unlocks.
SCENARIO(over_unlock, .shard(3).nocut()) {
  using namespace VARIANT; int n[2] = {1 + mc::choose(2), 1 + mc::choose(2)}; bool held = mc::flip(); sched::Config c; c.deviations = 3; mc::trace("%s, one user unlocks %d times, the other %d times", held ? "held" : "free", n[0], n[1]);
  sched::run(c, [&] {
    Semaphore* s[2] = {opened(), opened()}; if (held) sched::sut([&] { s[0]->lock(); }); int at = 0; bool overlap = false;
    for (int i = 0; i < 2; ++i) sched::spawn([&, i] { for (int k = 0; k < n[i]; ++k) { if (at++) overlap = true; sched::sut([&] { s[i]->unlock(); }); mc::trace("user %d has unlocked", i); --at; } });
    sched::join_all(); int got = 0; for (int k = 0; k < 4; ++k) if (sched::sut([&] { return s[k % 2]->trylock(); })) ++got; mc::step(); mc::validated();
    if (got != 1) mc::flag(got > 1 && overlap && held ? "concurrent-unlock" : "two-holders", "after unlocking %d attempts succeed", got); closed(s[0]); closed(s[1]);
  });
}
#undef SCENARIO

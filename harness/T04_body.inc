#define CAT_(a, b) a##_##b
#define CAT(a, b) CAT_(a, b)
#define SCENARIO(name, ...) MC_SCENARIO_(CAT(name, VARIANT), __VA_ARGS__)
#define MC_SCENARIO_(name, ...) MC_SCENARIO(name, __VA_ARGS__)
namespace VARIANT {
const ecl::Priority L[] = {ecl::DefaultPriority, ecl::BackgroundPriority, ecl::LowPriority, ecl::NormalPriority, ecl::HighPriority, ecl::CriticalPriority, ecl::RealTimePriority1, ecl::RealTimePriority2, ecl::RealTimePriority3, ecl::RealTimePriority4};
const char* N[] = {"Default", "Background", "Low", "Normal", "High", "Critical", "RealTime1", "RealTime2", "RealTime3", "RealTime4"};
const int ranges[][2] = {{1, 99}, {1, 32}, {0, 127}};
struct Where { int policy, rt, nice; bool operator==(const Where& o) const { return policy == o.policy && rt == o.rt && (policy != SCHED_OTHER || nice == o.nice); } };
Where here() { return Where{k.policy, k.rt, k.nice}; }
// the state each level asks for, found by asking for it on a permissive system; checked against the documentation by `mapping`
Where target(int l) { kern::State s = k; kern::reset(s.lo, s.hi, false); ecl::set_priority(L[l]); Where w = here(); k = s; return w; }
bool realtime(int l) { return L[l] >= ecl::RealTimePriority1; }
void off() { k.on = false; }
struct Off { ~Off() { off(); } };
// ask for a level; true = reported as done
bool ask(int l) { mc::trace("set_priority(%s)", N[l]); mc::step(); bool r; try { r = ecl::set_priority(L[l]); } catch (const ecl::StandardException&) { r = false; } mc::trace("  reported %s", r ? "done" : "refused"); return r; }
int level(const std::string& diag) { int f = -1; for (int i = 1; i < 10; ++i) if (diag.find(std::string("Priority...................................") + N[i] + "\n") != std::string::npos) f = i; return f; }
}
// each level maps to the documented class, ordered
SCENARIO(mapping) {
  using namespace VARIANT; Off o; const int* r = mc::pick(ranges); kern::reset(r[0], r[1], false); Where prev{};
  for (int l = 1; l < 10; ++l) {
    kern::reset(r[0], r[1], false); k.nice = 5; MC_CHECK(ask(l), "refused", "%s is refused on a permissive system", N[l]); Where w = here(); mc::validated();
    if (realtime(l)) { MC_CHECK(w.policy == SCHED_RR || w.policy == SCHED_FIFO, "wrong-class", "%s leaves policy %d", N[l], w.policy); MC_CHECK(w.rt >= r[0] && w.rt <= r[1], "out-of-range", "%s is real-time priority %d", N[l], w.rt); if (l > 6) MC_CHECK(w.rt > prev.rt, "not-ordered", "%s (%d) is not above %s (%d)", N[l], w.rt, N[l - 1], prev.rt); }
    else { MC_CHECK(w.policy == SCHED_OTHER, "wrong-class", "%s leaves policy %d", N[l], w.policy); if (l > 1) MC_CHECK(w.nice < prev.nice, "not-ordered", "%s (nice %d) is not above %s (nice %d)", N[l], w.nice, N[l - 1], prev.nice); }
    if (L[l] == ecl::NormalPriority) MC_CHECK(w.nice == 0, "wrong-class", "normal priority is nice %d", w.nice);
    prev = w;
  }
}
// every history of levels, refusals at any call: what is reported is what the system has
SCENARIO(histories, .shard(3).nocut()) {
  using namespace VARIANT; Off o; const int* r = mc::pick(ranges); kern::reset(r[0], r[1], false);
  Where t[10]; for (int l = 1; l < 10; ++l) t[l] = target(l);
  int start = mc::choose(4); if (start == 1) { k.policy = SCHED_RR; k.rt = r[1]; } else if (start == 2) k.nice = 19; else if (start == 3) k.nice = -1;
  mc::set_deviations(mc::tiered(1, 2)); int n = mc::tiered(2, 3); int last = -1;
  for (int i = 0; i < n; ++i) {
    int l = mc::choose(10); Where before = here(); k.faults = true; k.failed = k.failed_setting = 0; bool r = ask(l); k.faults = false; Where now = here(); mc::validated(); mc::state(mc::mix(mc::mix(now.policy, now.rt), now.nice));
    if (!k.failed) MC_CHECK(r, "refused", "%s is refused although the system refused nothing", N[l]);
    if (k.failed_setting) MC_CHECK(!r, "failure-hidden", "%s was refused by the system (%s) but reported as done", N[l], k.last);
    if (r) { if (l == 0) { MC_CHECK(now == before, "default-changes", "default priority changes the scheduling"); } else { MC_CHECK(now == t[l], "wrong-class", "%s is reported as done but the system has policy %d, priority %d, nice %d", N[l], now.policy, now.rt, now.nice); last = l; } }
    else if (!(now == before)) last = -1;
    // reading it back
    k.faults = true; k.failed = 0; ecl::Priority p = ecl::UnknownPriority; bool thrown = false; mc::step(); try { p = ecl::get_priority(); } catch (const ecl::StandardException&) { thrown = true; } k.faults = false; mc::validated();
    mc::trace("get_priority: %d%s", (int)p, thrown ? " (threw)" : "");
    if (k.failed) MC_CHECK(thrown || p == ecl::UnknownPriority, "failure-hidden", "%s failed but a priority (%d) is reported", k.last, (int)p);
    else if (last > 0) MC_CHECK(!thrown && p == L[last], "readback", "after setting %s, priority %d is read back", N[last], (int)p);
    if (last > 0) { std::string d = ecl::print_priority_diagnostics(); MC_CHECK(level(d) == last, "diagnostics", "after setting %s the diagnostics name level %d", N[last], level(d)); MC_CHECK(d.find(realtime(last) ? "SCHED_RR" : "SCHED_OTHER") != std::string::npos, "diagnostics", "the diagnostics do not name the scheduler of %s", N[last]); }
  }
}
// a thread started with a priority runs its function at it
namespace VARIANT {
Where seen; int ran = 0; void body() { seen = here(); ++ran; }
struct Obj { void member() { body(); } typedef void result_type; void operator()() { body(); } };
}
SCENARIO(threads, .timeout(20)) {
  using namespace VARIANT; Off o; kern::reset(1, 99, false); Where t[10]; for (int l = 1; l < 10; ++l) t[l] = target(l);
  int l = mc::choose(10), how = mc::choose(8); k.nice = 3; Where before = here(); ran = 0; Obj obj; mc::trace("thread of kind %d at %s", how, N[l]);
  { ecl::Thread th[1]; 
    switch (how) {
      case 0: { ecl::Thread x(body, L[l]); x.join(); break; } case 1: { ecl::Thread x(&Obj::member, obj, L[l]); x.join(); break; } case 2: { ecl::Thread x(obj, L[l]); x.join(); break; } case 3: { ecl::Thread x(ecl::ref(obj), L[l]); x.join(); break; }
      case 4: th[0].start(body, L[l]); th[0].join(); break; case 5: th[0].start(&Obj::member, obj, L[l]); th[0].join(); break; case 6: th[0].start(obj, L[l]); th[0].join(); break; case 7: th[0].start(ecl::ref(obj), L[l]); th[0].join(); break;
    } }
  mc::step(); mc::validated(); MC_CHECK(ran == 1, "not-run", "the function ran %d times", ran); MC_CHECK(seen == (l ? t[l] : before), "thread-priority", "the function of a thread started at %s ran with policy %d, priority %d, nice %d", N[l], seen.policy, seen.rt, seen.nice);
}

#include <new>
#define CAT_(a, b) a##_##b
#define CAT(a, b) CAT_(a, b)
#define SCENARIO(name, ...) MC_SCENARIO_(CAT(name, VARIANT), __VA_ARGS__)
#define MC_SCENARIO_(name, ...) MC_SCENARIO(name, __VA_ARGS__)
namespace VARIANT {
using namespace ecl;
// One accepted start, as the function sees it.
struct Job { int begun = 0, ended = 0; bool past = false, must_not_end = false; bool cancelled = false; const void* object = nullptr; };
Job* job; int objects;   // objects: function objects alive
void count(int d) { sched::Harness h; objects += d; }
void body(const int* payload, int want) {
  { sched::Harness h; sched::point(); if (++job->begun != 1) mc::flag("ran-twice", "the function runs %d times", job->begun); mc::trace("function begins"); }
  int v = *payload; { sched::Harness h; if (v != want) mc::flag("argument", "the function gets %d instead of %d", v, want); sched::sleep(5); job->past = true; sched::point(); }
  v = *payload; { sched::Harness h; if (v != want) mc::flag("argument", "the function sees %d instead of %d after a while", v, want); if (job->must_not_end) mc::flag("cancel-ignored", "the function goes on after a cancellation point although cancelled"); ++job->ended; mc::trace("function ends"); }
}
struct Object { typedef void result_type; int* payload; explicit Object(int v) : payload(new int(v)) { count(1); } Object(const Object& o) : payload(new int(*o.payload)) { count(1); } ~Object() { *payload = -1; delete payload; count(-1); } Object& operator=(const Object& o) { *payload = *o.payload; return *this; } void operator()() { { sched::Harness h; job->object = this; } body(payload, 42); } };
struct Host { int v = 17; void run() { body(&v, 17); } void set(int x) { body(&x, 23); } };
int global_value = 9; void free_function() { body(&global_value, 9); } void with_argument(int x) { body(&x, 31); }
const char* const KIND[] = {"free function", "member function", "function object", "referenced object", "bound function", "bound member"};
struct World {
  Thread* t = nullptr; alignas(Thread) unsigned char* mem; Host* host; Object* ref; bool started = false, joined = false, cancelled = false; std::vector<Job*> jobs; int kinds; long stack = -1; Priority prio = DefaultPriority;
  enum Res { Ok, Refused };
  template <class F> Res guarded(F f) { try { Error e = f(); return e.flag() == NoError ? Ok : Refused; } catch (const StandardException&) { return Refused; } }
  Res start(int k) {
    return sched::sut([&] { return guarded([&]() -> Error { switch (k) {
      case 0: return t->start(free_function, prio, stack); case 1: return t->start(&Host::run, *host, prio, stack); case 2: { Object o(42); return t->start(o, prio, stack); } case 3: return t->start(ecl::ref(*ref), prio, stack);
      case 4: return t->start(generateFunctionObject(with_argument, 31), prio, stack); default: return t->start(generateFunctionObject(&Host::set, *host, 23), prio, stack); } }); });
  }
  Res make(int k) {
    return sched::sut([&] { return guarded([&]() -> Error { switch (k) {
      case 0: t = new Thread(free_function, prio, stack); break; case 1: t = new Thread(&Host::run, *host, prio, stack); break; case 2: { Object o(42); t = new Thread(o, prio, stack); break; } case 3: t = new Thread(ecl::ref(*ref), prio, stack); break;
      case 4: t = new Thread(generateFunctionObject(with_argument, 31), prio, stack); break; default: t = new Thread(generateFunctionObject(&Host::set, *host, 23), prio, stack); break; } return Error(NoError); }); });
  }
  bool running() { return sched::sut([&] { return t->isRunning(); }); }
  Job* cur() { return jobs.empty() ? nullptr : jobs.back(); }
};
void histories(int depth, int dev, bool memory, int faults, int kinds, bool ctor) {
  bool fault = faults && mc::flip(); int k = mc::choose(kinds); std::vector<int> ops; static const char* const OP[] = {"start", "join", "cancel", "wait", "destroy"};
  mc::trace("%s%s, %s", KIND[k], ctor ? " given to the constructor" : "", fault ? "calls may be refused" : "no refusals"); for (int i = 0; i < depth; ++i) { int o = mc::choose(5); ops.push_back(o); if (o == 4) break; }
  objects = 0; std::vector<Job*> all; sched::Config c; c.deviations = dev; c.memory = memory; c.faults = fault ? faults : 0;
  struct Free { std::vector<Job*>& v; ~Free() { for (auto j : v) delete j; } } fr{all};
  sched::run(c, [&] {
    World w; sched::sut([&] { w.host = new Host; w.ref = new Object(42); }); if (fault) { w.stack = 1 << 20; w.prio = RealTimePriority1; }
    auto begin = [&](bool constructing) {
      int made = sched::created(), inj = sched::injected(); Job* j = new Job; all.push_back(j); Job* before = job; bool was = w.started; if (!was) job = j; mc::trace(constructing ? "construct" : "start"); World::Res r = constructing ? w.make(k) : w.start(k); int created = sched::created() - made; mc::step();
      if (was) { if (r == World::Ok) mc::flag("started-twice", "starting a thread object twice is accepted"); if (created) mc::flag("started-twice", "a refused start creates a thread"); job = before; return; }
      if (created > 1) mc::flag("started-twice", "one start creates %d threads", created);
      bool refused = sched::injected() != inj; if (!created && !refused) mc::flag("refused", "the start is refused although nothing failed");
      if (!constructing || !RELEASE) { if (r == World::Ok && !created) mc::flag("failure-hidden", "creating the thread failed but the start is reported as done"); if (r == World::Refused && created) mc::flag("failure-hidden", "the start reports an error but the thread runs"); }
      if (created) { w.started = true; w.joined = w.cancelled = false; w.jobs.push_back(j); }
      else if (w.t && w.running()) mc::flag("running", "the thread could not be created, the object reports it as running");
    };
    if (ctor) { begin(true); if (!w.t) { sched::sut([&] { w.t = new Thread(); }); } } else sched::sut([&] { void* m = operator new(sizeof(Thread)); memset(m, 0xff, sizeof(Thread)); w.t = new (m) Thread(); });
    for (int o : ops) {
      if (mc::failed()) break; Job* j = w.cur();
      switch (o) {
        case 0: begin(false); break;
        case 1: mc::trace("join"); try { sched::sut([&] { w.t->join(); }); } catch (const StandardException& e) { if (w.started && !w.joined) mc::flag("refused", "join throws: %s", e.what()); }
          if (w.started && !w.joined) { w.joined = true; if (!(j->ended || w.cancelled)) mc::flag("join-early", "join returns although the function has not finished"); if (w.running()) mc::flag("running", "the thread has been joined, the object reports it as running"); if (k == 2 && objects != 1) mc::flag("object-kept", "%d copies of the function object are alive after the thread has been joined", objects - 1); } break;
        case 2: { mc::trace("cancel"); bool live = w.started && !w.joined; try { sched::sut([&] { w.t->cancel(); }); } catch (const StandardException& e) { if (live && !j->ended) mc::flag("refused", "cancel throws: %s", e.what()); } if (live) { w.cancelled = true; j->cancelled = true; if (!j->past) j->must_not_end = true; } break; }
        case 3: mc::trace("wait"); sched::sleep(20); if (w.started && !w.cancelled && !j->ended) mc::flag("not-run", "the function has not run"); break;
        case 4: break;
      }
      if (w.started && !mc::failed()) { int e0 = w.cur()->ended; bool r = w.running(); if (!r && !w.cur()->ended && !w.cur()->cancelled) mc::flag("running", "the function has not finished, the object does not report it as running"); (void)e0; }
      else if (!w.started && w.running()) mc::flag("running", "nothing has been started, the object reports a running thread");
      if (w.started && (o == 3 || o == 1) && !mc::failed() && w.running()) mc::flag("running", "the function has ended, the object reports it as running");
      mc::validated();
    }
    mc::trace("destroy"); sched::sut([&] { w.t->~Thread(); memset((void*)w.t, 0xdd, sizeof(Thread)); operator delete(w.t); });
    const void* original = w.ref; sched::join_all(); sched::sut([&] { delete w.host; delete w.ref; });
    for (Job* j : w.jobs) { if (j->begun > 1) mc::flag("ran-twice", "the function ran %d times", j->begun); if (!j->cancelled && j->ended != 1) mc::flag("not-run", "the function ended %d times", j->ended); if (j->cancelled && j->begun > 1) mc::flag("ran-twice", "cancelled, ran %d times", j->begun);
      if (j->begun && (k == 2 || k == 3) && (j->object == (const void*)original) != (k == 3)) mc::flag("wrong-object", k == 3 ? "the function runs on a copy of the referenced object" : "the function runs on the caller's object, not on a copy"); }
    if (objects && !mc::failed()) mc::flag("object-leak", "%d function objects are left", objects);
  });
}
// The stack size asked for reaches the system; one it refuses is reported.
void stacks() {
  static const long sizes[] = {-1, 16384, 20480, 32768, 65536, 131072, 1 << 20, 16 << 20, 1000, 0}; long want = mc::pick(sizes); int k = mc::choose(6); bool ctor = mc::flip(); mc::trace("stack of %ld for a %s%s", want, KIND[k], ctor ? " given to the constructor" : "");
  objects = 0; Job j; job = &j; size_t def = 0; { pthread_attr_t a; pthread_attr_init(&a); pthread_attr_getstacksize(&a, &def); pthread_attr_destroy(&a); }
  sched::Config c; c.deviations = 0; sched::run(c, [&] {
    World w; sched::sut([&] { w.host = new Host; w.ref = new Object(42); }); w.stack = want; World::Res r; if (ctor) r = w.make(k); else { sched::sut([&] { w.t = new Thread(); }); r = w.start(k); } mc::step(); mc::validated(); size_t got = sched::last_stack(); int n = sched::created();
    bool valid = want == -1 || want >= 16384; if (valid) { if (n != 1 || r != World::Ok) mc::flag("refused", "a stack of %ld bytes is refused", want); else if (got != (want == -1 ? def : (size_t)want)) mc::flag("stack-size", "the thread gets a stack of %zu bytes, asked for %ld", got, want); } else if (!RELEASE && (r == World::Ok || n)) mc::flag("stack-size", "a stack of %ld bytes is accepted", want);
    if (w.t) sched::sut([&] { if (n) w.t->join(); delete w.t; }); sched::join_all(); sched::sut([&] { delete w.host; delete w.ref; }); if (n && j.ended != 1) mc::flag("not-run", "the function ended %d times", j.ended);
  });
}
// A function that joins or cancels the thread it runs on: refused (it would wait for itself) or done, and the owner can still join.
struct Selfish { Thread* t; int what; bool threw = false, done = false; void run() { { sched::Harness h; sched::sleep(3); } try { if (what == 0) t->join(); else t->cancel(); } catch (const StandardException&) { sched::Harness h; threw = true; } { sched::Harness h; if (what == 1) mc::validated(); sched::sleep(10); done = true; } } };
void self_calls() {
  int what = mc::choose(2), owner = mc::choose(3); mc::trace("the function %s its own thread, the owner %s", what ? "cancels" : "joins", owner == 0 ? "joins" : owner == 1 ? "joins twice" : "just destroys");
  sched::Config c; c.deviations = mc::tiered(1, 2); sched::run(c, [&] {
    Selfish* s = sched::sut([&] { Selfish* p = new Selfish; p->t = new Thread(); p->what = what; return p; }); mc::step(); sched::sut([&] { s->t->start(&Selfish::run, *s); }); mc::validated();
    if (owner < 2) { try { sched::sut([&] { s->t->join(); }); } catch (const StandardException& e) { mc::flag("refused", "join throws: %s", e.what()); } if (!s->done && what == 0) mc::flag("join-early", "the owner's join returns although the function has not finished"); if (sched::sut([&] { return s->t->isRunning(); })) mc::flag("running", "joined, but reported as running"); if (what == 0 && !RELEASE && !s->threw) mc::flag("join-self", "joining oneself is not reported"); }
    if (owner == 1) { try { sched::sut([&] { s->t->join(); }); } catch (const StandardException&) {} }
    if (owner == 2) sched::sleep(40); sched::sut([&] { delete s->t; }); sched::join_all(); if (what == 1 && s->done) mc::flag("cancel-ignored", "the function goes on after a cancellation point although cancelled"); sched::sut([&] { delete s; });
  });
}
}
SCENARIO(histories, .shard(6).nocut()) { using namespace VARIANT; histories(mc::tiered(4, 6), mc::tiered(2, 3), false, sched::CreateFails | sched::StackSizeFails | sched::PriorityFails, 6, false); }
SCENARIO(constructed, .shard(6).nocut()) { using namespace VARIANT; histories(mc::tiered(3, 5), mc::tiered(2, 3), false, sched::CreateFails | sched::StackSizeFails | sched::PriorityFails, 6, true); }
SCENARIO(memory, .shard(6).nocut()) { using namespace VARIANT; histories(mc::tiered(3, 4), mc::tiered(1, 2), true, 0, 4, false); }
SCENARIO(stacks) { VARIANT::stacks(); }
SCENARIO(self_calls) { VARIANT::self_calls(); }
#undef SCENARIO

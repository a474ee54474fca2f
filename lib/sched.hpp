// Controlled scheduler: the threads of the code under test run as coroutines of one operating
// system thread; every call of the thread library (and, with memory points, every access of the
// instrumented code to memory outside its own stack) is a point where the explorer decides who
// runs next. Time is virtual. Switching away from a thread that could go on costs one deviation.
#ifndef VERIF_SCHED_HPP_
#define VERIF_SCHED_HPP_
#include "mc.hpp"
#include <functional>
#include <pthread.h>
namespace sched {
enum Fault { CreateFails = 1, SemOpenFails = 2, WaitInterrupted = 4, ClockFails = 8, Spurious = 16, MutexInitFails = 32, StackSizeFails = 64, TryInterrupted = 128, PriorityFails = 256 };
struct Config {
  int deviations = 2;      // preemptions + faults
  bool memory = false;     // memory accesses are scheduling points
  int faults = 0;          // calls that may be refused (each costs one deviation)
  bool normal_mutex_any_owner = false;
};
// Runs body as thread 0 and goes on until every thread has ended.
void run(const Config& c, const std::function<void()>& body);
int spawn(const std::function<void()>& f, const char* name = "");   // a thread of the harness
void join(int t);
void join_all();
bool finished(int t);
int self();                 // -1 outside a run
int64_t now();              // nanoseconds of virtual time since the start of the run
void sleep(int64_t ns);
void point();               // explicit scheduling point
void yield();               // lets the others go first, if there are any
void cancellation_point();
int created();              // threads created by the code under test so far (pthread_create)
size_t last_stack();         // stack size asked for in the attributes of the last pthread_create
int unjoined();             // finished threads that nobody joined or detached
int running();              // threads of the code under test that have not ended
int injected();             // faults injected so far
long live();                // arena blocks alive
bool is_alive(const void* p);          // not in a freed block or a dead stack frame
void block(const std::function<bool()>& pred, const char* why);     // waits in virtual time
void set_faults(int mask);
const char* owner_of(pthread_mutex_t* m);
bool mutex_locked(pthread_mutex_t* m);
struct Sut { Sut(); ~Sut(); };        // code under test from here
struct Harness { Harness(); ~Harness(); int saved; };   // called back by the code under test
template <class F> auto sut(F f) -> decltype(f()) { Sut s; return f(); }
template <class F> auto harness(F f) -> decltype(f()) { Harness s; return f(); }
}
#endif

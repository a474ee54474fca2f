#include "sched.hpp"
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <new>
#include <semaphore.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <typeinfo>
#include <sys/single_threaded.h>

extern "C" char __executable_start, __data_start;
namespace sched {
namespace {
struct CancelUnwind {}; struct ThreadExit {};
const size_t STACK = 256 * 1024; const int MAXT = 12; const int64_t NEVER = INT64_MAX;
struct Thread {
  int id = 0; void* sp = nullptr; char* stack = nullptr; enum { Ready, Blocked, Done } st = Ready; int depth = 0; int err = 0, internal = 0; const void* on = nullptr; char eh[16];
  std::function<void()> body; void* (*entry)(void*) = nullptr; void* arg = nullptr; void* result = nullptr; bool posix = false;
  bool detached = false, joined = false, cancel = false, cancelled = false; const std::function<bool()>* pred = nullptr; int64_t deadline = NEVER; std::string why; std::string name; long run_len = 0;
};
Thread T[MAXT]; int nT = 0, cur = -1; void* host_sp = nullptr; bool active = false, abandoned = false; int internal = 0; Config cfg; int64_t vnow = 0; long steps = 0; int n_created = 0, n_injected = 0;
char* stacks = nullptr;
struct In { In() { ++internal; } ~In() { --internal; } };

// ---------------------------------------------------------------- arena
const size_t ARENA = 64u << 20; char* arena = nullptr; unsigned char* shadow = nullptr; size_t bump = 0, floor_ = 0; long live_ = 0;
enum : unsigned char { Unused = 0, Live = 1, Freed = 2, Zone = 3 };
struct Head { size_t size; size_t magic; };
inline bool in_arena(const void* p) { return arena && (char*)p >= arena && (char*)p < arena + ARENA; }
void mark(char* p, size_t n, unsigned char v) { memset(shadow + (p - arena) / 8, v, (n + 7) / 8); }
void* arena_alloc(size_t n) {
  if (!arena) { arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); shadow = (unsigned char*)mmap(nullptr, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  size_t r = (n + 15) / 16 * 16; if (r == 0) r = 16; if (bump + r + 32 > ARENA) return malloc(n);
  char* p = arena + bump; Head* h = (Head*)p; h->size = n; h->magic = 0xa110c8ed; mark(p, 16, Zone); memset(p + 16, 0xbe, r); mark(p + 16, n ? n : 1, Live); mark(p + 16 + r, 16, Zone); bump += r + 32; ++live_; mc::account(1); return p + 16;
}
[[noreturn]] void give_up();
void arena_free(void* q) {
  char* p = (char*)q - 16; Head* h = (Head*)p;
  if (shadow[((char*)q - arena) / 8] != Live || ((char*)q - arena) % 16 || h->magic != 0xa110c8ed) { mc::flag(shadow[((char*)q - arena) / 8] == Freed ? "double-free" : "bad-free", "thread %d releases memory that is not allocated", cur); if (cur >= 0) give_up(); return; }
  size_t r = (h->size + 15) / 16 * 16; if (!r) r = 16; memset(q, 0xdd, r); mark((char*)q, r, Freed); --live_; mc::account(-1);
}
}  // namespace
}  // namespace sched

// ---------------------------------------------------------------- context switch
extern "C" void verif_switch(void** save, void* to);
asm(R"(
.text
.globl verif_switch
.type verif_switch,@function
verif_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size verif_switch,.-verif_switch
)");

namespace sched {
namespace {
Thread host;
void save(Thread& t) { t.err = errno; t.internal = internal; memcpy(t.eh, abi::__cxa_get_globals(), 16); }
void load(Thread& t) { errno = t.err; internal = t.internal; memcpy(abi::__cxa_get_globals(), t.eh, 16); }
void to(int n) {   // transfers control to thread n (or the host: -1)
  int old = cur; if (n == old) return; Thread& a = old < 0 ? host : T[old]; Thread& b = n < 0 ? host : T[n]; save(a); cur = n; void* target = n < 0 ? host_sp : b.sp;
  verif_switch(old < 0 ? &host_sp : &a.sp, target); Thread& me = cur < 0 ? host : T[cur]; load(me);
}
[[noreturn]] void give_up() { abandoned = true; mc::poison(); to(-1); abort(); }
bool enabled(int i) { Thread& t = T[i]; if (t.st == Thread::Done) return false; if (t.st == Thread::Ready) return true; return (t.pred && (*t.pred)()) || t.deadline <= vnow; }
const char* label(int i) { static char b[8][48]; static int k; char* r = b[k++ & 7]; if (T[i].name.empty()) snprintf(r, 48, "thread %d", i); else snprintf(r, 48, "thread %d (%.30s)", i, T[i].name.c_str()); return r; }
void check_limit() { if (++steps > 30000) { mc::flag("livelock", "no end after %ld steps", steps); give_up(); } }
// The current thread cannot go on (blocked or done): somebody else has to.
void leave(bool may_return) {
  for (;;) {
    int e[MAXT], n = 0; for (int i = 0; i < nT; ++i) if (enabled(i)) e[n++] = i;
    if (n) { int k = n > 1 ? mc::choose(n) : 0; if (e[k] != cur) { mc::trace("-> %s", label(e[k])); T[e[k]].run_len = 0; to(e[k]); } if (cur >= 0) return; }
    int64_t d = NEVER; for (int i = 0; i < nT; ++i) if (T[i].st == Thread::Blocked && T[i].deadline < d) d = T[i].deadline;
    if (d != NEVER) { vnow = d; continue; }
    bool all = true; std::string s; for (int i = 0; i < nT; ++i) if (T[i].st != Thread::Done) { all = false; s += std::string(s.empty() ? "" : ", ") + label(i) + " waits for " + T[i].why; }
    if (all) { to(-1); abort(); }
    mc::flag("deadlock", "nobody can go on: %s", s.c_str()); give_up();
  }
}
bool wait(const std::function<bool()>& pred, int64_t deadline, const char* fmt, ...) {  // true: pred holds, false: timed out
  In in; Thread& t = T[cur]; if (pred()) return true;
  char b[120]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); t.why = b;
  for (;;) { check_limit(); if (pred()) break; if (deadline <= vnow) { t.st = Thread::Ready; return false; } t.st = Thread::Blocked; t.pred = &pred; t.deadline = deadline; leave(true); t.st = Thread::Ready; t.pred = nullptr; t.deadline = NEVER; if (pred()) break; if (deadline <= vnow) return false; }
  return true;
}
bool refuse(int kind, const char* what, std::initializer_list<int> errs, int* e) {
  if (!(cfg.faults & kind) || mc::deviations_left() <= 0) return false; In in; int c = mc::choose_dev(1 + (int)errs.size()); if (!c) return false; *e = errs.begin()[c - 1]; ++n_injected; mc::trace("  %s refused (errno %d) in %s", what, *e, label(cur)); return true;
}
void thread_main();
int create(bool posix) {
  if (nT >= MAXT) { mc::flag("horizon", "too many threads"); give_up(); }
  Thread& t = T[nT]; t = Thread(); t.id = nT; t.posix = posix; t.stack = stacks + nT * (STACK + 4096) + 4096; memset(t.eh, 0, 16);
  uint64_t* s = (uint64_t*)(t.stack + STACK); *--s = 0; *--s = (uint64_t)&thread_main; for (int i = 0; i < 6; ++i) *--s = 0; --s; unsigned mx; unsigned short cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw)); ((unsigned*)s)[0] = mx; ((unsigned*)s)[1] = cw; t.sp = s; return nT++;
}
void thread_main() {
  load(T[cur]); Thread& t = T[cur]; internal = 0;
  try { if (t.posix) { t.depth = 1; t.result = t.entry(t.arg); } else t.body(); }
  catch (const CancelUnwind&) { t.result = PTHREAD_CANCELED; t.cancelled = true; }
  catch (const ThreadExit&) {}
  catch (const mc::Abort&) { internal = 0; give_up(); }
  catch (const std::exception& e) { ++internal; mc::flag("terminate", "an exception (%s) ends %s and with it the program", typeid(e).name(), label(cur)); give_up(); }
  catch (...) { ++internal; mc::flag("terminate", "an exception ends %s and with it the program", label(cur)); give_up(); }
  internal = 1; t.depth = 0; t.body = nullptr; t.pred = nullptr; t.st = Thread::Done; mc::trace("%s ends", label(cur)); leave(false); abort();
}
void do_point() {
  In in; check_limit(); mc::step();
  int e[MAXT], n = 0; for (int i = 0; i < nT; ++i) if (i != cur && enabled(i)) e[n++] = i;
  if (!n) return; int c;
  if (++T[cur].run_len > 4000) { T[cur].run_len = 0; c = 1; }   // fairness: a spinning thread gives way
  else c = mc::choose_dev(1 + n);
  if (c) { mc::trace("%s interrupted -> %s", label(cur), label(e[c - 1])); T[e[c - 1]].run_len = 0; to(e[c - 1]); }
}
inline void pt() { if (active && cur >= 0 && !internal) do_point(); }
Thread* thread_of(pthread_t h) { unsigned long i = (unsigned long)h - 0x7e570000ul; if (h < 0x7e570000ul || i >= (unsigned long)nT || !T[i].posix) return nullptr; return &T[i]; }
inline void use(const void* p, const char* what) { if (!is_alive(p)) { In in; mc::flag("use-after-free", "%s uses a %s that is gone", label(cur), what); give_up(); } }
}  // namespace

bool is_alive(const void* p) {
  if (in_arena(p)) return shadow[((char*)p - arena) / 8] == Live;
  char* c = (char*)p; if (stacks && c >= stacks && c < stacks + MAXT * (STACK + 4096)) { int i = (c - stacks) / (STACK + 4096); if (i >= nT || T[i].st == Thread::Done) return false; if (i != cur && c < (char*)T[i].sp) return false; }
  return true;
}
Sut::Sut() { if (cur >= 0) ++T[cur].depth; }
Sut::~Sut() { if (cur >= 0) --T[cur].depth; }
Harness::Harness() : saved(0) { if (cur >= 0) { saved = T[cur].depth; T[cur].depth = 0; } }
Harness::~Harness() { if (cur >= 0) T[cur].depth = saved; }

struct Mtx { int owner = -1; int count = 0; }; struct Cnd { std::vector<int> waiters; }; struct Sem { int value = 0; int refs = 0; bool named = false; std::string name; };
static std::map<const void*, Mtx>& mtx() { static auto* m = new std::map<const void*, Mtx>; return *m; }
static std::map<const void*, Cnd>& cnd() { static auto* m = new std::map<const void*, Cnd>; return *m; }
static std::map<const void*, Sem*>& sems() { static auto* m = new std::map<const void*, Sem*>; return *m; }
static std::map<std::string, Sem*>& named() { static auto* m = new std::map<std::string, Sem*>; return *m; }
static std::vector<Sem*>& allsems() { static auto* m = new std::vector<Sem*>; return *m; }

void run(const Config& c, const std::function<void()>& body) {
  if (!stacks) { stacks = (char*)mmap(nullptr, MAXT * (STACK + 4096), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (int i = 0; i < MAXT; ++i) mprotect(stacks + i * (STACK + 4096), 4096, PROT_NONE); arena_alloc(0); mc::account(-1); bump = 0; live_ = 0; mark(arena, 4096, Unused); }
  __libc_single_threaded = 0;   // reference counts have to be atomic
  cfg = c; nT = 0; vnow = 0; steps = 0; n_created = n_injected = 0; abandoned = false; mtx().clear(); cnd().clear(); sems().clear(); named().clear(); for (auto s : allsems()) delete s; allsems().clear();
  mc::set_deviations(c.deviations); floor_ = bump; long live0 = live_;
  int m = create(false); T[m].body = body; T[m].name = "main"; active = true; host.depth = 0; internal = 0; to(m); internal = 0; active = false; cur = -1;
  if (abandoned) throw mc::Abort();
  int left = 0; for (int i = 0; i < nT; ++i) if (T[i].posix && !T[i].joined && !T[i].detached) ++left; if (left) mc::fail("thread-leak", "%d thread(s) ended but were neither joined nor detached", left);
  for (auto s : allsems()) if (s->refs) mc::fail("semaphore-leak", "a semaphore was not closed");
  if (getenv("VERIF_BLOCKS") && live_ != live0) for (size_t o = floor_; o < bump;) { Head* h = (Head*)(arena + o); if (shadow[(o + 16) / 8] == Live) { char b[200]; int n = snprintf(b, sizeof b, "live block of %zu bytes: %p\n", h->size, *(void**)(arena + o + 16)); (void)!write(2, b, n); } size_t r = (h->size + 15) / 16 * 16; o += (r ? r : 16) + 32; }
  if (live_ == live0) { mark(arena + floor_, bump - floor_, Unused); bump = floor_; } 
  for (int i = 0; i < nT; ++i) T[i] = Thread();
}
int spawn(const std::function<void()>& f, const char* name) { In in; int t = create(false); T[t].body = f; T[t].name = name; mc::trace("%s starts %s", label(cur), label(t)); return t; }
void join(int t) { wait([t] { return T[t].st == Thread::Done; }, NEVER, "the end of thread %d", t); }
void join_all() { int me = cur; wait([me] { for (int i = 0; i < nT; ++i) if (i != me && T[i].st != Thread::Done) return false; return true; }, NEVER, "the end of all threads"); }
bool finished(int t) { return T[t].st == Thread::Done; }
int self() { return cur; }
int64_t now() { return vnow; }
void point() { pt(); }
void sleep(int64_t ns) { pt(); cancellation_point(); int me = cur; int64_t d = vnow + ns; wait([d, me] { return vnow >= d || T[me].cancel; }, d, "time to pass"); cancellation_point(); }
void yield() { if (!active || cur < 0 || internal) return; In in; check_limit(); int e[MAXT], n = 0; for (int i = 0; i < nT; ++i) if (i != cur && enabled(i)) e[n++] = i; if (!n) return; int k = mc::choose(n); mc::trace("%s yields -> %s", label(cur), label(e[k])); to(e[k]); }
void cancellation_point() { if (active && cur >= 0 && T[cur].cancel && !T[cur].cancelled) { T[cur].cancelled = true; mc::trace("%s is cancelled", label(cur)); throw CancelUnwind(); } }
size_t stack_asked; size_t last_stack() { return stack_asked; }
int created() { return n_created; }
int unjoined() { int n = 0; for (int i = 0; i < nT; ++i) if (T[i].posix && T[i].st == Thread::Done && !T[i].joined && !T[i].detached) ++n; return n; }
int running() { int n = 0; for (int i = 0; i < nT; ++i) if (T[i].posix && T[i].st != Thread::Done) ++n; return n; }
int injected() { return n_injected; }
long live() { return live_; }
void block(const std::function<bool()>& p, const char* why) { pt(); wait(p, NEVER, "%s", why); }
void set_faults(int m) { cfg.faults = m; }
bool mutex_locked(pthread_mutex_t* m) { In in; auto i = mtx().find(m); return i != mtx().end() && i->second.owner >= 0; }

// ---------------------------------------------------------------- memory accesses
static void access(const void* p, size_t n, bool w) {
  if (cur < 0 || internal || T[cur].depth <= 0) return;
  if (in_arena(p)) { for (size_t i = 0; i < n; i += 8) { unsigned char s = shadow[((char*)p - arena + i) / 8]; if (s != Live) { In in; mc::flag(s == Freed ? "use-after-free" : "heap-overflow", "%s %s memory that is %s", label(cur), w ? "writes" : "reads", s == Freed ? "released" : "not allocated"); give_up(); } } }
  else { char* c = (char*)p; if (c >= T[cur].stack && c < T[cur].stack + STACK) return; if (c >= &__executable_start && c < &__data_start) return;
    if (!is_alive(p)) { In in; mc::flag("use-after-return", "%s %s a local variable of a function that has returned", label(cur), w ? "writes" : "reads"); give_up(); } }
  if (cfg.memory) do_point();
}
}  // namespace sched

using namespace sched;
#define REAL(name) static decltype(&name) real = (decltype(&name))dlsym(RTLD_NEXT, #name)
#define OFF (!active || cur < 0 || internal)
void* operator new(size_t n) { if (cur >= 0 && active && !internal && T[cur].depth > 0) return arena_alloc(n); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void* p) noexcept { if (!p) return; if (in_arena(p)) { int i = internal; internal = 1; arena_free(p); internal = i; return; } free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

static int kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static int64_t at(clockid_t c, const timespec* t) { int64_t off = c == CLOCK_MONOTONIC ? 5000 : 1700000000; __int128 v = (__int128)(t->tv_sec - off) * 1000000000 + t->tv_nsec; return v > (__int128)NEVER - 1 ? NEVER - 1 : v < (__int128)INT64_MIN ? INT64_MIN : (int64_t)v; }
static bool bad_time(const timespec* t) { return t->tv_nsec < 0 || t->tv_nsec >= 1000000000; }
extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { REAL(pthread_mutex_init); int e; if (!OFF) { use(m, "mutex"); if (refuse(MutexInitFails, "pthread_mutex_init", {EAGAIN, ENOMEM, EPERM}, &e)) return e; In in; mtx().erase(m); } return real(m, a); }
int pthread_mutex_destroy(pthread_mutex_t* m) { REAL(pthread_mutex_destroy); if (OFF) return real(m); pt(); use(m, "mutex"); In in; auto i = mtx().find(m); if (i != mtx().end()) { if (i->second.owner >= 0) { return EBUSY; } mtx().erase(i); } for (int t = 0; t < nT; ++t) if (T[t].st == sched::Thread::Blocked && T[t].on == m) { mc::flag("use-after-free", "a mutex is destroyed while thread %d waits for it", t); give_up(); } return 0; }
static int lock_(pthread_mutex_t* m, int64_t deadline, const timespec* ts) {
  pt(); use(m, "mutex"); In in; int k = kind(m); Mtx* x = &mtx()[m];
  if (x->owner == cur) { if (k == PTHREAD_MUTEX_RECURSIVE) { ++x->count; return 0; } if (k == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
  if (x->owner >= 0 && ts && bad_time(ts)) return EINVAL;
  T[cur].on = m; bool ok = sched::wait([m] { auto i = mtx().find(m); return i == mtx().end() || i->second.owner < 0; }, deadline, "a mutex held by %s", x->owner >= 0 ? label(x->owner) : "-");
  T[cur].on = nullptr; if (!ok) return ETIMEDOUT; use(m, "mutex"); x = &mtx()[m]; x->owner = cur; x->count = 1; return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { REAL(pthread_mutex_lock); if (OFF) return real(m); return lock_(m, NEVER, nullptr); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { REAL(pthread_mutex_timedlock); if (OFF) return real(m, t); timespec c = *t; return lock_(m, at(CLOCK_REALTIME, &c), &c); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const timespec* t) { REAL(pthread_mutex_clocklock); if (OFF) return real(m, k, t); timespec c = *t; return lock_(m, at(k, &c), &c); }
int pthread_mutex_trylock(pthread_mutex_t* m) { REAL(pthread_mutex_trylock); if (OFF) return real(m); pt(); use(m, "mutex"); In in; Mtx& x = mtx()[m]; if (x.owner >= 0) { if (x.owner == cur && kind(m) == PTHREAD_MUTEX_RECURSIVE) { ++x.count; return 0; } return EBUSY; } x.owner = cur; x.count = 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { REAL(pthread_mutex_unlock); if (OFF) return real(m); pt(); use(m, "mutex"); In in; Mtx& x = mtx()[m]; int k = kind(m); if (x.owner != cur) { if (k != PTHREAD_MUTEX_NORMAL || x.owner < 0) { if (k == PTHREAD_MUTEX_NORMAL) { mc::flag("bad-unlock", "%s unlocks a mutex that is free", label(cur)); return 0; } return EPERM; } mc::flag("bad-unlock", "%s unlocks a mutex held by %s", label(cur), label(x.owner)); } if (--x.count == 0 || x.owner != cur) { x.owner = -1; x.count = 0; } return 0; }
// condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { REAL(pthread_cond_init); if (!OFF) { In in; cnd().erase(c); } return real(c, a); }
int pthread_cond_destroy(pthread_cond_t* c) { REAL(pthread_cond_destroy); if (OFF) return real(c); pt(); use(c, "condition variable"); In in; auto i = cnd().find(c); if (i != cnd().end()) { if (!i->second.waiters.empty()) { mc::flag("use-after-free", "a condition variable is destroyed while thread %d waits for it", i->second.waiters[0]); give_up(); } cnd().erase(i); } return 0; }
static int cwait_(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  pt(); use(c, "condition variable"); use(m, "mutex"); int r = 0; cancellation_point();
  { In in; Mtx& x = mtx()[m]; if (x.owner != cur) return EPERM; int n = x.count; x.owner = -1; x.count = 0; int me = cur; cnd()[c].waiters.push_back(me); (void)n;
    auto waiting = [c, me] { auto i = cnd().find(c); if (i == cnd().end()) return false; for (int w : i->second.waiters) if (w == me) return true; return false; };
    bool spurious = false; if ((cfg.faults & Spurious) && mc::deviations_left() > 0 && mc::choose_dev(2)) spurious = true;
    if (!spurious && !sched::wait([&] { return !waiting(); }, deadline, "a condition variable")) r = ETIMEDOUT;
    if (waiting()) { auto& w = cnd()[c].waiters; for (size_t i = 0; i < w.size(); ++i) if (w[i] == me) { w.erase(w.begin() + i); break; } }
    sched::wait([m] { auto i = mtx().find(m); return i == mtx().end() || i->second.owner < 0; }, NEVER, "a mutex"); use(m, "mutex"); mtx()[m].owner = cur; mtx()[m].count = 1; }
  return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { REAL(pthread_cond_wait); if (OFF) return real(c, m); return cwait_(c, m, NEVER); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { REAL(pthread_cond_timedwait); if (OFF) return real(c, m, t); if (bad_time(t)) return EINVAL; return cwait_(c, m, at(CLOCK_REALTIME, t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { REAL(pthread_cond_clockwait); if (OFF) return real(c, m, k, t); if (bad_time(t)) return EINVAL; return cwait_(c, m, at(k, t)); }
int pthread_cond_signal(pthread_cond_t* c) { REAL(pthread_cond_signal); if (OFF) return real(c); pt(); use(c, "condition variable"); In in; auto& w = cnd()[c].waiters; if (!w.empty()) { int k = w.size() > 1 ? mc::choose((int)w.size()) : 0; w.erase(w.begin() + k); } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { REAL(pthread_cond_broadcast); if (OFF) return real(c); pt(); use(c, "condition variable"); In in; cnd()[c].waiters.clear(); return 0; }
// threads
pthread_t pthread_self() { REAL(pthread_self); if (!active || cur < 0) return real(); return 0x7e570000ul + cur; }
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  REAL(pthread_create); if (OFF) return real(h, a, f, arg); pt(); int e; if (refuse(CreateFails, "pthread_create", {EAGAIN, EPERM, EINVAL}, &e)) { In in; memset(h, 0x5a, sizeof *h); return e; }
  { In in; int t = create(true); sched::stack_asked = 0; if (a) pthread_attr_getstacksize(a, &sched::stack_asked); T[t].entry = f; T[t].arg = arg; int d = PTHREAD_CREATE_JOINABLE; if (a) pthread_attr_getdetachstate(a, &d); T[t].detached = d == PTHREAD_CREATE_DETACHED; *h = 0x7e570000ul + t; ++n_created; mc::trace("%s creates %s", label(cur), label(t)); } pt(); return 0;
}
int pthread_join(pthread_t h, void** r) {
  REAL(pthread_join); if (OFF) return real(h, r); pt(); cancellation_point(); In in; auto* t = thread_of(h); if (!t || t->joined) { mc::flag("bad-handle", "%s joins %s", label(cur), t ? "a thread that has been joined already" : "what is not a thread"); return ESRCH; } if (t->detached) { mc::flag("bad-handle", "%s joins a detached thread", label(cur)); return EINVAL; } if (t->id == cur) return EDEADLK;
  int id = t->id; sched::wait([id] { return T[id].st == sched::Thread::Done; }, NEVER, "the end of thread %d", id); if (T[id].joined) { mc::flag("bad-handle", "two threads join thread %d", id); return EINVAL; } T[id].joined = true; if (r) *r = T[id].result; return 0;
}
int pthread_detach(pthread_t h) { REAL(pthread_detach); if (OFF) return real(h); pt(); In in; auto* t = thread_of(h); if (!t || t->joined || (t->detached && t->st == sched::Thread::Done)) { mc::flag("bad-handle", "%s detaches %s", label(cur), t ? "a thread that is gone" : "what is not a thread"); return ESRCH; } if (t->detached) return EINVAL; t->detached = true; return 0; }
int pthread_cancel(pthread_t h) { REAL(pthread_cancel); if (OFF) return real(h); pt(); In in; auto* t = thread_of(h); if (!t || t->joined || (t->detached && t->st == sched::Thread::Done)) { mc::flag("bad-handle", "%s cancels %s", label(cur), t ? "a thread that is gone" : "what is not a thread"); return ESRCH; } if (t->st != sched::Thread::Done) t->cancel = true; return 0; }
void pthread_testcancel() { REAL(pthread_testcancel); if (OFF) { real(); return; } cancellation_point(); }
void pthread_exit(void* r) { REAL(pthread_exit); if (OFF) real(r); T[cur].result = r; throw ThreadExit(); }
int pthread_attr_setstacksize(pthread_attr_t* a, size_t n) { REAL(pthread_attr_setstacksize); int e; if (!OFF && refuse(StackSizeFails, "pthread_attr_setstacksize", {EINVAL}, &e)) return e; return real(a, n); }
int sched_yield() { REAL(sched_yield); if (OFF) return real(); sched::yield(); return 0; }
// priorities
int pthread_setschedparam(pthread_t h, int p, const sched_param* s) { REAL(pthread_setschedparam); if (OFF) return real(h, p, s); int e; if (refuse(PriorityFails, "pthread_setschedparam", {EPERM}, &e)) return e; return 0; }
int sched_setscheduler(pid_t h, int p, const sched_param* s) { REAL(sched_setscheduler); if (OFF) return real(h, p, s); int e; if (refuse(PriorityFails, "sched_setscheduler", {EPERM}, &e)) { errno = e; return -1; } return 0; }
int setpriority(__priority_which_t w, id_t i, int p) { REAL(setpriority); if (OFF) return real(w, i, p); int e; if (refuse(PriorityFails, "setpriority", {EACCES}, &e)) { errno = e; return -1; } return 0; }
// time
int clock_gettime(clockid_t c, timespec* t) { REAL(clock_gettime); if (OFF) return real(c, t); int e; if (refuse(ClockFails, "clock_gettime", {EINVAL}, &e)) { errno = e; return -1; } int64_t off = c == CLOCK_MONOTONIC ? 5000 : 1700000000; t->tv_sec = off + vnow / 1000000000; t->tv_nsec = vnow % 1000000000; return 0; }
int gettimeofday(timeval* t, void* z) { REAL(gettimeofday); if (OFF) return real(t, z); t->tv_sec = 1700000000 + vnow / 1000000000; t->tv_usec = vnow % 1000000000 / 1000; return 0; }
int clock_nanosleep(clockid_t c, int f, const timespec* t, timespec* rem) { REAL(clock_nanosleep); if (OFF) return real(c, f, t, rem); if (bad_time(t)) return EINVAL; pt(); cancellation_point(); int me = cur; int64_t d = f & TIMER_ABSTIME ? at(c, t) : vnow + t->tv_sec * 1000000000LL + t->tv_nsec; sched::wait([d, me] { return vnow >= d || T[me].cancel; }, d, "time to pass"); cancellation_point(); return 0; }
int nanosleep(const timespec* t, timespec* rem) { REAL(nanosleep); if (OFF) return real(t, rem); int r = clock_nanosleep(CLOCK_MONOTONIC, 0, t, rem); if (r) { errno = r; return -1; } return 0; }
int usleep(useconds_t u) { REAL(usleep); if (OFF) return real(u); timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { timespec t = {(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
// semaphores
static Sem* sem_(sem_t* s) { use(s, "semaphore"); In in; auto i = sems().find(s); if (i == sems().end() || (i->second->named && i->second->refs == 0)) { mc::flag("bad-semaphore", "%s uses what is not an open semaphore", label(cur)); give_up(); } return i->second; }
sem_t* sem_open(const char* n, int f, ...) {
  REAL(sem_open); va_list a; va_start(a, f); mode_t mode = 0; unsigned v = 0; if (f & O_CREAT) { mode = va_arg(a, mode_t); v = va_arg(a, unsigned); } va_end(a); if (OFF) return real(n, f, mode, v);
  pt(); int e; if (refuse(SemOpenFails, "sem_open", {EACCES, EMFILE, ENFILE, ENOMEM, EINVAL, ENAMETOOLONG}, &e)) { errno = e; return SEM_FAILED; } In in; auto i = named().find(n); Sem* s;
  if (i != named().end()) { if ((f & O_CREAT) && (f & O_EXCL)) { errno = EEXIST; return SEM_FAILED; } s = i->second; } else { if (!(f & O_CREAT)) { errno = ENOENT; return SEM_FAILED; } s = new Sem; s->named = true; s->value = v; s->name = n; named()[n] = s; allsems().push_back(s); sems()[s] = s; } ++s->refs; return (sem_t*)s;
}
int sem_close(sem_t* p) { REAL(sem_close); if (OFF) return real(p); pt(); Sem* s = sem_(p); --s->refs; return 0; }
int sem_unlink(const char* n) { REAL(sem_unlink); if (OFF) return real(n); pt(); In in; if (!named().erase(n)) { errno = ENOENT; return -1; } return 0; }
int sem_init(sem_t* p, int sh, unsigned v) { REAL(sem_init); if (OFF) return real(p, sh, v); In in; Sem* s = new Sem; s->value = v; allsems().push_back(s); sems()[p] = s; return 0; }
int sem_destroy(sem_t* p) { REAL(sem_destroy); if (OFF) return real(p); sem_(p); In in; sems().erase(p); return 0; }
static int swait_(sem_t* p, int64_t deadline, const timespec* ts) {
  pt(); cancellation_point(); Sem* s = sem_(p); int e; bool blocks = s->value <= 0; if (blocks && ts && bad_time(ts)) { errno = EINVAL; return -1; } if (refuse(WaitInterrupted, "waiting for a semaphore", {EINTR}, &e)) { errno = e; return -1; }
  bool ok = sched::wait([s] { return s->value > 0; }, deadline, "a semaphore"); if (!ok) { errno = ETIMEDOUT; return -1; } --s->value; return 0; }
int sem_wait(sem_t* p) { REAL(sem_wait); if (OFF) return real(p); return swait_(p, NEVER, nullptr); }
int sem_timedwait(sem_t* p, const timespec* t) { REAL(sem_timedwait); if (OFF) return real(p, t); timespec c = *t; return swait_(p, at(CLOCK_REALTIME, &c), &c); }
int sem_clockwait(sem_t* p, clockid_t k, const timespec* t) { REAL(sem_clockwait); if (OFF) return real(p, k, t); timespec c = *t; return swait_(p, at(k, &c), &c); }
int sem_trywait(sem_t* p) { REAL(sem_trywait); if (OFF) return real(p); pt(); Sem* s = sem_(p); int e; if (refuse(TryInterrupted, "sem_trywait", {EINTR}, &e)) { errno = e; return -1; } if (s->value <= 0) { errno = EAGAIN; return -1; } --s->value; return 0; }
int sem_post(sem_t* p) { REAL(sem_post); if (OFF) return real(p); pt(); Sem* s = sem_(p); ++s->value; return 0; }
int sem_getvalue(sem_t* p, int* v) { REAL(sem_getvalue); if (OFF) return real(p, v); pt(); *v = sem_(p)->value; return 0; }

// instrumentation callbacks (what -fsanitize=thread calls)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); } void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); } void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
#define AT(n, t) \
  t __tsan_atomic##n##_load(const volatile t* p, int) { access((void*)p, n / 8, false); return *p; } \
  void __tsan_atomic##n##_store(volatile t* p, t v, int) { access((void*)p, n / 8, true); *p = v; } \
  t __tsan_atomic##n##_exchange(volatile t* p, t v, int) { access((void*)p, n / 8, true); t o = *p; *p = v; return o; } \
  t __tsan_atomic##n##_fetch_add(volatile t* p, t v, int) { access((void*)p, n / 8, true); t o = *p; *p = o + v; return o; } \
  t __tsan_atomic##n##_fetch_sub(volatile t* p, t v, int) { access((void*)p, n / 8, true); t o = *p; *p = o - v; return o; } \
  t __tsan_atomic##n##_fetch_and(volatile t* p, t v, int) { access((void*)p, n / 8, true); t o = *p; *p = o & v; return o; } \
  t __tsan_atomic##n##_fetch_or(volatile t* p, t v, int) { access((void*)p, n / 8, true); t o = *p; *p = o | v; return o; } \
  t __tsan_atomic##n##_fetch_xor(volatile t* p, t v, int) { access((void*)p, n / 8, true); t o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile t* p, t* c, t v, int, int) { access((void*)p, n / 8, true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile t* p, t* c, t v, int a, int b) { return __tsan_atomic##n##_compare_exchange_strong(p, c, v, a, b); } \
  t __tsan_atomic##n##_compare_exchange_val(volatile t* p, t c, t v, int, int) { access((void*)p, n / 8, true); t o = *p; if (o == c) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}

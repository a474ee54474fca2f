// @SOURCES: ecl_threads/src/lib/priority_pos.cpp ecl_threads/src/lib/thread_pos.cpp ecl_exceptions/src/lib/*.cpp
// @EXTRA: harness/T04_ndebug.cpp
// @WRAP: sched_get_priority_min sched_get_priority_max sched_setscheduler sched_getscheduler sched_setparam sched_getparam setpriority getpriority pthread_setschedparam pthread_getschedparam
// @ASSUME: the scheduler of the operating system is simulated (policy, real-time priority, nice value, clamping and range checks as Linux does), its calls are redirected at link time;; every history of 2 (thorough 3) levels, each read back, from every starting state, with at most one (thorough two) refused calls, each documented errno of each call, for real-time ranges 1..99, 1..32 and 0..127;; debug and release (NDEBUG) builds of the code;; UnknownPriority is not a level that can be asked for
#include "util.hpp"
#include <cerrno>
#include <sched.h>
#include <pthread.h>
#include <sys/resource.h>
#include "T04_env.hpp"
namespace kern {
State k;
void reset(int lo, int hi, bool faults) { k = State{true, SCHED_OTHER, 0, 0, lo, hi, faults, 0, 0, ""}; }
static bool refuse(const char* what, bool setting, std::initializer_list<int> errs) {
  if (!k.faults) return false; int c = mc::choose_dev(1 + (int)errs.size()); if (!c) return false;
  errno = errs.begin()[c - 1]; ++k.failed; if (setting) ++k.failed_setting; k.last = what; mc::trace("%s refused with errno %d", what, errno); return true;
}
static bool rtpol(int p) { return p == SCHED_RR || p == SCHED_FIFO; }
static int set(int policy, int prio) {
  if (rtpol(policy) ? prio < k.lo || prio > k.hi : (prio != 0 || (policy != SCHED_OTHER && policy != SCHED_BATCH))) { errno = EINVAL; return -1; }
  k.policy = policy; k.rt = prio; return 0;
}
}
using kern::k;
extern "C" {
int __real_sched_get_priority_min(int); int __real_sched_get_priority_max(int); int __real_sched_setscheduler(pid_t, int, const sched_param*); int __real_sched_getscheduler(pid_t); int __real_sched_setparam(pid_t, const sched_param*); int __real_sched_getparam(pid_t, sched_param*); int __real_setpriority(__priority_which_t, id_t, int); int __real_getpriority(__priority_which_t, id_t); int __real_pthread_setschedparam(pthread_t, int, const sched_param*); int __real_pthread_getschedparam(pthread_t, int*, sched_param*);
int __wrap_sched_get_priority_min(int p) { if (!k.on) return __real_sched_get_priority_min(p); if (kern::refuse("sched_get_priority_min", false, {EINVAL})) return -1; return kern::rtpol(p) ? k.lo : 0; }
int __wrap_sched_get_priority_max(int p) { if (!k.on) return __real_sched_get_priority_max(p); if (kern::refuse("sched_get_priority_max", false, {EINVAL})) return -1; return kern::rtpol(p) ? k.hi : 0; }
int __wrap_sched_setscheduler(pid_t q, int p, const sched_param* s) { if (!k.on) return __real_sched_setscheduler(q, p, s); if (kern::refuse("sched_setscheduler", true, {EPERM, EINVAL, ESRCH})) return -1; return kern::set(p, s->sched_priority); }
int __wrap_sched_setparam(pid_t q, const sched_param* s) { if (!k.on) return __real_sched_setparam(q, s); if (kern::refuse("sched_setparam", true, {EPERM, EINVAL, ESRCH})) return -1; return kern::set(k.policy, s->sched_priority); }
int __wrap_sched_getscheduler(pid_t q) { if (!k.on) return __real_sched_getscheduler(q); if (kern::refuse("sched_getscheduler", false, {EPERM, EINVAL, ESRCH})) return -1; return k.policy; }
int __wrap_sched_getparam(pid_t q, sched_param* s) { if (!k.on) return __real_sched_getparam(q, s); if (kern::refuse("sched_getparam", false, {EPERM, EINVAL, ESRCH})) return -1; s->sched_priority = k.rt; return 0; }
int __wrap_setpriority(__priority_which_t w, id_t i, int n) { if (!k.on) return __real_setpriority(w, i, n); if (kern::refuse("setpriority", true, {EACCES, EPERM, ESRCH})) return -1; k.nice = n < -20 ? -20 : n > 19 ? 19 : n; return 0; }
int __wrap_getpriority(__priority_which_t w, id_t i) { if (!k.on) return __real_getpriority(w, i); if (kern::refuse("getpriority", false, {ESRCH, EINVAL})) return -1; return k.nice; }
int __wrap_pthread_setschedparam(pthread_t t, int p, const sched_param* s) { if (!k.on) return __real_pthread_setschedparam(t, p, s); if (kern::refuse("pthread_setschedparam", true, {EPERM, EINVAL})) return errno; return kern::set(p, s->sched_priority) ? errno : 0; }
int __wrap_pthread_getschedparam(pthread_t t, int* p, sched_param* s) { if (!k.on) return __real_pthread_getschedparam(t, p, s); *p = k.policy; s->sched_priority = k.rt; return 0; }
}
#include <ecl/threads/priority.hpp>
#include <ecl/threads/thread.hpp>
#define VARIANT debug
#include "T04_body.inc"

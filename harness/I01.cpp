// @SOURCES: ecl_ipc/src/lib/semaphore_pos.cpp ecl_time/src/lib/timestamp_base.cpp ecl_time/src/lib/timestamp_pos.cpp ecl_exceptions/src/lib/*.cpp
// @EXTRA: harness/I01_ndebug.cpp lib/sched.cpp
// @SAN: -fsanitize=undefined -fno-sanitize-recover=all
// @INSTRUMENT: -fsanitize=thread
// @LDFLAGS: -ldl
// @ASSUME: users of a name run under a controlled scheduler: every call of the semaphore library and every memory access of the semaphore class is a point where another user may be chosen, at most 3 (thorough 5) preemptions and failed calls together;; time is virtual and passes only when all users wait;; the system semaphore itself is modelled after its specification (named instances, unlinking, interrupted waits, deadlines on the real time clock);; two users of 2 (thorough 3) operations, three users of 1 or 2;; only holders unlock, or anyone while nobody else is at it - what concurrent unlocking by non-holders does is a known finding;; debug and release (NDEBUG) builds
#include "util.hpp"
#include "sched.hpp"
#include <unistd.h>
#include <ecl/ipc/semaphore.hpp>
#define VARIANT debug
#define RELEASE 0
#include "I01_body.inc"

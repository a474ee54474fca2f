// @SOURCES: ecl_threads/src/lib/thread_pos.cpp ecl_threads/src/lib/priority_pos.cpp ecl_exceptions/src/lib/*.cpp
// @EXTRA: harness/T02_ndebug.cpp lib/sched.cpp
// @SAN: -fsanitize=undefined -fno-sanitize-recover=all
// @INSTRUMENT: -fsanitize=thread
// @FLAGS: -fno-lifetime-dse
// @LDFLAGS: -ldl
// @ASSUME: threads run under a controlled scheduler with sequentially consistent memory: every call of the thread library and (in the memory scenario) every memory access of the thread class and of the function object is a point where another thread may be chosen; at most 2 (thorough 3) preemptions and refused calls together;; the thread library itself is modelled after its specification (handles, joining, detaching, deferred cancellation);; one owner performs up to 4 (thorough 5) operations on one thread object;; debug and release (NDEBUG) builds
#include "util.hpp"
#include "sched.hpp"
#include <ecl/threads/thread.hpp>
#define VARIANT debug
#define RELEASE 0
#include "T02_body.inc"

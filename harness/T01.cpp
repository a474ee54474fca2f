// @SOURCES: ecl_threads/src/lib/mutex_pos.cpp ecl_time/src/lib/timestamp_base.cpp ecl_time/src/lib/timestamp_pos.cpp ecl_exceptions/src/lib/*.cpp
// @EXTRA: harness/T01_ndebug.cpp lib/sched.cpp
// @SAN: -fsanitize=undefined -fno-sanitize-recover=all
// @INSTRUMENT: -fsanitize=thread
// @LDFLAGS: -ldl
// @ASSUME: threads run under a controlled scheduler with sequentially consistent memory: every call of the thread library and every memory access of the mutex is a point where another thread may be chosen, switching away from a thread that could go on at most 2 (thorough 3) times;; time is virtual and passes only when all threads wait;; the system mutex (pthread) itself is modelled after its specification;; 2 threads of 2 operations, 3 threads of 1 or 2 operations;; debug and release (NDEBUG) builds
#include "util.hpp"
#include "sched.hpp"
#include <ecl/threads/mutex.hpp>
#define VARIANT debug
#define RELEASE 0
#include "T01_body.inc"

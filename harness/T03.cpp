// @SOURCES: ecl_threads/src/lib/thread_pos.cpp ecl_threads/src/lib/priority_pos.cpp ecl_exceptions/src/lib/*.cpp
// @EXTRA: harness/T03_ndebug.cpp lib/sched.cpp
// @SAN: -fsanitize=undefined -fno-sanitize-recover=all
// @INSTRUMENT: -fsanitize=thread
// @LDFLAGS: -ldl
// @ASSUME: threads run under a controlled scheduler with sequentially consistent memory: every call of the thread library and every memory access of the threadable class is a point where another thread may be chosen; at most 3 preemptions and refused calls together (2 with three starters);; two or three threads perform up to 3 (thorough 4) operations each on one object;; debug and release (NDEBUG) builds
#include "util.hpp"
#include "sched.hpp"
#include <ecl/threads/threadable.hpp>
#define VARIANT debug
#define RELEASE 0
#include "T03_body.inc"

// The same code as a release build, in a namespace of its own.
#define ecl eclrel
#define NDEBUG
#include "util.hpp"
#include "sched.hpp"
#include <ecl/threads/mutex.hpp>
#define VARIANT release
#define RELEASE 1
#include "T01_body.inc"
#include "ecl_threads/src/lib/mutex_pos.cpp"
#include "ecl_time/src/lib/timestamp_base.cpp"
#include "ecl_time/src/lib/timestamp_pos.cpp"
#include "ecl_exceptions/src/lib/standard_exception.cpp"

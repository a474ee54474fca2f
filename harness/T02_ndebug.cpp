// The same code as a release build, in a namespace of its own.
#define ecl eclrel
#define NDEBUG
#include "util.hpp"
#include "sched.hpp"
#include <sys/resource.h>
#include <ecl/threads/thread.hpp>
#define VARIANT release
#define RELEASE 1
#include "T02_body.inc"
#include "ecl_threads/src/lib/thread_pos.cpp"
#include "ecl_threads/src/lib/priority_pos.cpp"
#include "ecl_exceptions/src/lib/standard_exception.cpp"

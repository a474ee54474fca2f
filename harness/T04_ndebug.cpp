// The same code as a release build, in a namespace of its own.
#define ecl eclrel
#define NDEBUG
#include "util.hpp"
#include <cerrno>
#include <sched.h>
#include <sys/resource.h>
#include "T04_env.hpp"
using kern::k;
#include <ecl/threads/priority.hpp>
#include <ecl/threads/thread.hpp>
#define VARIANT release
#define RELEASE 1
#include "T04_body.inc"
#include "ecl_threads/src/lib/priority_pos.cpp"
#include "ecl_threads/src/lib/thread_pos.cpp"
#include "ecl_exceptions/src/lib/standard_exception.cpp"

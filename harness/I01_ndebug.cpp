// The same code as a release build, in a namespace of its own.
#define ecl eclrel
#define NDEBUG
#include "util.hpp"
#include "sched.hpp"
#include <unistd.h>
#include <ecl/ipc/semaphore.hpp>
#define VARIANT release
#define RELEASE 1
#include "I01_body.inc"
#include "ecl_ipc/src/lib/semaphore_pos.cpp"
#include "ecl_time/src/lib/timestamp_base.cpp"
#include "ecl_time/src/lib/timestamp_pos.cpp"
#include "ecl_exceptions/src/lib/standard_exception.cpp"

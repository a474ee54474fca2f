// Stand-in for ecl_lite's ecl_time_lite (time stamps read the monotonic clock there, realtime_epoch_time the real one). All clock access goes through clock_gettime and
// clock_nanosleep, which the harnesses interpose.
#ifndef ECL_TIME_LITE_FUNCTIONS_HPP_
#define ECL_TIME_LITE_FUNCTIONS_HPP_
#include <time.h>
#include <errno.h>
#include <ecl/errors/handlers.hpp>
#include "types.hpp"
namespace ecl {
class TimeError : public Error {
public:
  TimeError(const ErrorFlag& flag = UnknownError) : Error(flag) {}
};
inline TimeError time_lite_error(int result) {
  switch (result) {
    case 0: return TimeError(NoError);
    case EINTR: return TimeError(InterruptedError);
    case EINVAL: return TimeError(InvalidInputError);
    default: return TimeError(UnknownError);
  }
}
inline TimeError epoch_time(TimeStructure& time) {
  return time_lite_error(clock_gettime(CLOCK_MONOTONIC, &time) == 0 ? 0 : errno);
}
inline TimeError realtime_epoch_time(TimeStructure& time) {
  return time_lite_error(clock_gettime(CLOCK_REALTIME, &time) == 0 ? 0 : errno);
}
inline TimeError sleep_until(const TimeStructure& time) {
  return time_lite_error(clock_nanosleep(CLOCK_MONOTONIC, TIMER_ABSTIME, &time, NULL));
}
}
#endif

#ifndef ECL_TIME_LITE_CPU_TIME_HPP_
#define ECL_TIME_LITE_CPU_TIME_HPP_
#include "functions.hpp"
namespace ecl {
inline TimeError cpu_time(TimeStructure& time) {
  return time_lite_error(clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &time) == 0 ? 0 : errno);
}
}
#endif

#ifndef ECL_TIME_LITE_TYPES_HPP_
#define ECL_TIME_LITE_TYPES_HPP_
#include <time.h>
namespace ecl { typedef struct timespec TimeStructure; }
#endif

#ifndef ECL_TIME_LITE_CONFIG_HPP_
#define ECL_TIME_LITE_CONFIG_HPP_
#include <ecl/config/ecl.hpp>
#endif

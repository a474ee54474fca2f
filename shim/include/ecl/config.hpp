#ifndef ECL_CONFIG_HPP_
#define ECL_CONFIG_HPP_
#include "config/ecl.hpp"
#include "config/macros.hpp"
#include "config/portable_types.hpp"
#endif

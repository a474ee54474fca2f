#ifndef ECL_ERRORS_HPP_
#define ECL_ERRORS_HPP_
#include "errors/handlers.hpp"
#include "errors/macros.hpp"
#include "errors/compile_time_assert.hpp"
#endif

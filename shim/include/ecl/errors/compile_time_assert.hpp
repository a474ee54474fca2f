#ifndef ECL_ERRORS_COMPILE_TIME_ASSERT_HPP_
#define ECL_ERRORS_COMPILE_TIME_ASSERT_HPP_
#define ecl_compile_time_assert(expression) static_assert(expression, "ecl_compile_time_assert")
#endif

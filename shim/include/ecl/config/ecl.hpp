// Stand-in for ecl_lite's ecl_config (not installed here): platform macros only.
#ifndef ECL_CONFIG_ECL_HPP_
#define ECL_CONFIG_ECL_HPP_
#define ECL_IS_POSIX 1
#define ECL_HAS_POSIX_THREADS 1
#define ECL_HAS_POSIX_TIMERS 1
#define ECL_HAS_POSIX_SEMAPHORES 1
#define ECL_HAS_POSIX_SHARED_MEMORY 1
#define ECL_HAS_POSIX_PRIORITY_SCHEDULING 1
#define ECL_HAS_POSIX_TIMEOUTS 1
#define ECL_HAS_RT_TIMERS 1
#define ECL_SIZE_OF_CHAR 1
#define ECL_SIZE_OF_SHORT 2
#define ECL_SIZE_OF_INT 4
#define ECL_SIZE_OF_LONG 8
#define ECL_SIZE_OF_LONG_LONG 8
#define ECL_SIZE_OF_FLOAT 4
#define ECL_SIZE_OF_DOUBLE 8
#define ECL_SIZE_OF_LONG_DOUBLE 16
#define ECL_CHAR_IS_SIGNED 1
#define ECL_CXX11_FOUND 1
#define ECL_HELPER_IMPORT __attribute__ ((visibility("default")))
#define ECL_HELPER_EXPORT __attribute__ ((visibility("default")))
#define ECL_HELPER_LOCAL
#define ECL_HELPERS_LOCAL
#define ECL_PUBLIC
#define ECL_LOCAL
#define ECL_DONT_INLINE __attribute__((noinline))
#define ECL_FORCE_INLINE __attribute__((always_inline))
#define ECL_UNUSED __attribute__((unused))
#endif

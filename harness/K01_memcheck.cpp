// The buffer-overrun-checked array variant, in a namespace of its own.
#define ecl eclmc
#define ECL_MEM_CHECK_ARRAYS
#include "util.hpp"
#include <ecl/containers/array.hpp>
#define VARIANT checked
#define CHECKED 1
#include "K01_body.inc"
#include "ecl_exceptions/src/lib/standard_exception.cpp"

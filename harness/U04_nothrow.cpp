#define ECL_DISABLE_EXCEPTIONS
#include <ecl/config/macros.hpp>
#include <ecl/config/ecl.hpp>
#include <ecl/exceptions/macros.hpp>
namespace nothrow {
#include "U04_macros.inc"
#ifdef ECL_HAS_EXCEPTIONS
bool has = true;
#else
bool has = false;
#endif
}

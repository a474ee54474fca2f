// The same code as a release build, in a namespace of its own.
#define ecl eclrel
#define NDEBUG
#include "V05_env.hpp"
#include <ecl/exceptions.hpp>
#include <ecl/converters.hpp>
#define VARIANT release
#include "V05_body.inc"
#include "ecl_exceptions/src/lib/standard_exception.cpp"

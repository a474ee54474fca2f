// @SOURCES: ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @EXTRA: harness/K01_memcheck.cpp
// @ASSUME: element types int, char and (plain variant) a heap-owning class with throwing constructor;; sizes 0..4 in all histories, up to 300 in the sweep of sizes;; histories up to the stated depth;; misaligned storage of the checked variant for 8 byte types is not examined
#include "util.hpp"
#include <ecl/containers/array.hpp>
#define VARIANT plain
#define CHECKED 0
#include "K01_body.inc"

#include "sophus_shim.hpp"

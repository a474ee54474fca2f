#include "ecl.hpp"

#ifndef ECL_CONFIG_PORTABLE_TYPES_HPP_
#define ECL_CONFIG_PORTABLE_TYPES_HPP_
namespace ecl {
typedef signed char int8;
typedef unsigned char uint8;
typedef short int16;
typedef unsigned short uint16;
typedef int int32;
typedef unsigned int uint32;
typedef long int64;
typedef unsigned long uint64;
typedef float float32;
typedef double float64;
typedef unsigned char byte;
}
#endif

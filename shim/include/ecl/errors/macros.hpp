#ifndef ECL_ERRORS_MACROS_HPP_
#define ECL_ERRORS_MACROS_HPP_
#define LINE_NUM(x) LINE_STR(x)
#define LINE_STR(x) #x
#define LOC __FILE__ ":" LINE_NUM(__LINE__)
#endif

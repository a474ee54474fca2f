#ifndef V05_ENV_HPP_
#define V05_ENV_HPP_
#include <string>
#include <vector>
#include <memory>
#include <sstream>
#include <iostream>
struct Input { int kind; long long i; size_t n; std::string s; };
struct Done { bool thrown; int flag; std::string value; };
struct Subject { virtual Done run(const Input&) = 0; virtual ~Subject() {} };
extern bool starving;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#endif

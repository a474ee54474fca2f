// A simulated scheduler of the operating system behind the priority calls (wrapped at link time).
#ifndef T04_ENV_HPP_
#define T04_ENV_HPP_
namespace kern {
struct State { bool on; int policy, rt, nice; int lo, hi; bool faults; int failed, failed_setting; const char* last; };
extern State k;
void reset(int lo, int hi, bool faults);
}
#endif

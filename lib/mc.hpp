// Stateless model-checking explorer: exhaustive depth-first enumeration of the choice sequences of
// a deterministic scenario, sharded over worker processes, surviving crashes and hangs of the code
// under test. See DESIGN.md.
#ifndef VERIF_MC_HPP_
#define VERIF_MC_HPP_
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

namespace mc {

// ---- choices ------------------------------------------------------------------------------
int choose(int n);                       // nondeterministic value in [0,n): every value is explored
int choose_dev(int n);                   // as choose, but a non-zero value costs one deviation
int deviations_left();
void set_deviations(int k);              // deviation budget of this execution (call at its start)
template <class T> inline const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
template <class T, size_t N> inline const T& pick(const T (&v)[N]) { return v[choose((int)N)]; }
inline int range(int lo, int hi) { return lo + choose(hi - lo + 1); }   // inclusive
inline bool flip() { return choose(2) != 0; }

// ---- observation --------------------------------------------------------------------------
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // one step, human readable
void step(uint64_t n = 1);               // n transitions of the real code were taken
void validated(uint64_t n = 1);          // n further comparisons of an implementation trace with the oracle
void state(uint64_t h);                  // a state was visited
bool prune(uint64_t h);                  // as state; true if the execution may stop here because an equal state
                                         // (h must include the remaining depth) has been expanded already
void fail(const char* key, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void flag(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // does not unwind
bool failed();
void poison();                           // this process must not be reused after this execution
void skip() __attribute__((noreturn));   // abandon this execution (precondition not met)
#define MC_CHECK(cond, key, ...) do { if (!(cond)) ::mc::fail(key, __VA_ARGS__); } while (0)

bool thorough();
inline int tiered(int quick, int deep) { return thorough() ? deep : quick; }
bool replaying();                        // running in --replay or confirmation mode
const char* scratch_dir();               // private directory of this worker
long live_blocks();                      // heap blocks alive in this process
int worker_id();
void account(long blocks);               // for allocators the sanitizer does not see

struct Abort {};                         // thrown by fail/skip; harness code must let it pass

// ---- hashing ------------------------------------------------------------------------------
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }
template <class T> inline uint64_t hash_vec(const std::vector<T>& v, uint64_t h = 7) {
  h = mix(h, v.size()); for (size_t i = 0; i < v.size(); ++i) h = mix(h, (uint64_t)v[i]); return h;
}
std::string show(const std::string& bytes);   // printable form

// ---- scenarios ----------------------------------------------------------------------------
struct Options {
  int shard_depth_ = 3;
  bool leak_ = true;        // heap blocks alive after = before (checked twice before it counts)
  bool fork_each_ = false;  // every execution in its own process
  int timeout_ = 30;        // seconds without progress = hang
  bool thorough_only_ = false;
  bool cut_ = true;         // choose() may unwind to leave a subtree that belongs to another worker
  bool catch_all_ = true;   // an escaping std::exception is a violation
  Options& shard(int d) { shard_depth_ = d; return *this; }
  Options& noleak() { leak_ = false; return *this; }
  Options& fork_each() { fork_each_ = true; return *this; }
  Options& timeout(int s) { timeout_ = s; return *this; }
  Options& nocut() { cut_ = false; return *this; }
  Options& only_thorough() { thorough_only_ = true; return *this; }
};
struct Registrar { Registrar(const char* name, void (*body)(), const Options& o); };
#define MC_SCENARIO(name, ...) \
  static void mc_body_##name(); \
  static ::mc::Registrar mc_reg_##name(#name, mc_body_##name, ::mc::Options() __VA_ARGS__); \
  static void mc_body_##name()
void add_scenario(const std::string& name, void (*body)(), const Options& o = Options());

}  // namespace mc
#endif

// @SOURCES: ecl_ipc/src/lib/shared_memory_pos.cpp ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @WRAP: shm_open shm_unlink mmap mmap64 munmap ftruncate ftruncate64 close open open64 fstat unlink
// @ASSUME: the name space of shared memory is simulated (each segment is an anonymous kernel file, so mappings are really shared and sized);; the holders live in one process, their constructors and destructors run one after another;; every history of up to 5 (thorough 6) operations of three holders over two names (one operation less for an object of several pages) with at most one refused system call;; holders of one name agree on the type
#include "util.hpp"
#include <cerrno>
#include <cstring>
#include <cstdarg>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <ecl/ipc/shared_memory.hpp>
namespace shm {
struct Sim {
  bool on = false; int failed = 0; const char* last = "";
  std::map<std::string, int> names;   // name -> anonymous file
  std::set<int> segments, fds; std::map<char*, size_t> maps; int unlinks = 0;
} s;
bool refuse(const char* what, std::initializer_list<int> errs) { if (mc::deviations_left() <= 0) return false; int c = mc::choose_dev(1 + (int)errs.size()); if (!c) return false; errno = errs.begin()[c - 1]; ++s.failed; s.last = what; mc::trace("  %s fails with errno %d", what, errno); return true; }
}
using shm::s;
extern "C" {
int __real_shm_open(const char*, int, mode_t); int __real_shm_unlink(const char*); void* __real_mmap(void*, size_t, int, int, int, off_t); void* __real_mmap64(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t); int __real_ftruncate(int, off_t); int __real_ftruncate64(int, off_t); int __real_close(int);
int __wrap_shm_open(const char* n, int f, mode_t m) {
  if (!s.on) return __real_shm_open(n, f, m); if (n[0] != '/' || strchr(n + 1, '/')) mc::flag("bad-name", "shm_open of '%s'", n);
  if (shm::refuse("shm_open", {EACCES, EMFILE, ENFILE, ENOMEM, ENOSPC})) return -1;
  auto i = s.names.find(n); if (i != s.names.end() && (f & O_CREAT) && (f & O_EXCL)) { errno = EEXIST; return -1; }
  // another process may create or remove the name in between
  if (i != s.names.end() && !(f & O_CREAT) && mc::deviations_left() > 0 && mc::choose_dev(2)) { ++s.failed; s.last = "shm_open"; mc::trace("  the name vanished for a moment"); errno = ENOENT; return -1; }
  if (i == s.names.end()) { if (!(f & O_CREAT)) { errno = ENOENT; return -1; } int seg = memfd_create("segment", MFD_CLOEXEC); s.segments.insert(seg); i = s.names.emplace(n, seg).first; }
  if (f & O_TRUNC) __real_ftruncate(i->second, 0);
  int fd = dup(i->second); s.fds.insert(fd); return fd;
}
int __wrap_shm_unlink(const char* n) { if (!s.on) return __real_shm_unlink(n); ++s.unlinks; if (!s.names.erase(n)) { errno = ENOENT; return -1; } return 0; }
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) {
  if (!s.on || !s.fds.count(fd)) { if (s.on && fd >= 0) mc::flag("stale-descriptor", "mapping descriptor %d", fd); return __real_mmap(a, n, p, f, fd, o); }
  if (shm::refuse("mmap", {EACCES, EAGAIN, EINVAL, ENFILE, ENODEV, ENOMEM, EPERM})) return MAP_FAILED;
  void* r = __real_mmap(a, n, p, f, fd, o); if (r != MAP_FAILED) s.maps[(char*)r] = n; return r; }
void* __wrap_mmap64(void* a, size_t n, int p, int f, int fd, off_t o) { return __wrap_mmap(a, n, p, f, fd, o); }
int __wrap_munmap(void* a, size_t n) { if (!s.on) return __real_munmap(a, n); auto i = s.maps.find((char*)a); if (i == s.maps.end()) { mc::flag("bad-unmap", "unmapping what was not mapped"); errno = EINVAL; return -1; } if ((i->second + 4095) / 4096 != (n + 4095) / 4096) mc::flag("bad-unmap", "unmapping %zu of %zu bytes", n, i->second); s.maps.erase(i); return __real_munmap(a, n); }
int __wrap_ftruncate(int fd, off_t n) { if (!s.on) return __real_ftruncate(fd, n); if (!s.fds.count(fd)) { mc::flag("stale-descriptor", "resizing descriptor %d", fd); errno = EBADF; return -1; } if (shm::refuse("ftruncate", {EINTR, EINVAL, EFBIG, EIO, EPERM})) return -1; return __real_ftruncate(fd, n); }
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_close(int fd) { if (!s.on) return __real_close(fd); if (!s.fds.erase(fd)) { mc::flag("stale-descriptor", "closing descriptor %d", fd); errno = EBADF; return -1; } return __real_close(fd); }
int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...); int __real_fstat(int, struct stat*); int __real_unlink(const char*);
int __wrap_open(const char* n, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open(n, f, m); }
int __wrap_open64(const char* n, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open64(n, f, m); }
int __wrap_fstat(int fd, struct stat* b) { return __real_fstat(fd, b); }
int __wrap_unlink(const char* n) { return __real_unlink(n); }
}
using namespace ecl;
namespace {
struct Session { Session() { s = shm::Sim(); s.on = true; } ~Session() { s.on = false; for (auto& m : s.maps) __real_munmap(m.first, m.second); for (int f : s.fds) __real_close(f); for (int f : s.segments) __real_close(f); } };
struct Small { int first, second; Small() : first(7), second(-9) {} static const int last = 0; int& at(int i) { return i ? second : first; } };
struct Large { int v[2000]; Large() { for (int i = 0; i < 2000; ++i) v[i] = 7 + i; } int& at(int i) { return v[i ? 1999 : 0]; } };
template <class T> int initial(int i) { T t; return t.at(i); }
const char* const names[] = {"alpha", "beta"};
template <class T> void histories() {
  struct Model { int a, b; int id; }; struct Holder { std::unique_ptr<SharedMemory<T>> p; std::shared_ptr<Model> m; bool creator = false; int name = 0; } h[3]; std::shared_ptr<Model> world[2];
  Session session; mc::set_deviations(1); int depth = mc::tiered(5, 6) - (sizeof(T) > 100), value = 100;
  for (int i = 0; i < depth; ++i) {
    int w = mc::choose(3), op = mc::choose(4); Holder& x = h[w]; if (w && !h[w - 1].p && !h[w - 1].m && op == 0 && h[w - 1].name == 0) { bool used = false; for (int k = 0; k < w; ++k) used |= (bool)h[k].p; if (!used) mc::skip(); } // the first free holder stands for the others
    s.failed = 0; mc::step();
    switch (op) {
      case 0: { if (x.p) mc::skip(); int n = w == 0 ? 0 : mc::choose(2); bool exists = (bool)world[n]; mc::trace("holder %d opens %s", w, names[n]); bool threw = false; size_t maps = s.maps.size();
        try { x.p.reset(new SharedMemory<T>(names[n])); } catch (const StandardException&) { threw = true; }
        if (s.failed) { MC_CHECK(threw, "failure-hidden", "%s failed but the memory was opened", s.last); MC_CHECK(s.maps.size() == maps, "mapping-leak", "a mapping is left over by a constructor that failed"); MC_CHECK(s.names.count(std::string("/") + names[n]) == exists, "name", exists ? "a failing attempt to attach removed the name of the segment" : "a failing attempt to create left the name behind"); }
        else { MC_CHECK(!threw && x.p->data(), "refused", "opening failed although nothing did"); if (!exists) { world[n] = std::make_shared<Model>(Model{initial<T>(0), initial<T>(1), 0}); x.creator = true; } else x.creator = false; x.m = world[n]; x.name = n; MC_CHECK(s.maps.count((char*)x.p->data()), "mapping", "data() is not the mapping"); MC_CHECK(s.maps[(char*)x.p->data()] >= sizeof(T), "mapping", "%zu bytes are mapped, the object needs %zu", s.maps[(char*)x.p->data()], sizeof(T)); int fd = s.names.count(std::string("/") + names[n]) ? s.names[std::string("/") + names[n]] : -1; struct stat st; MC_CHECK(fd >= 0 && !fstat(fd, &st), "name", "the name does not exist after opening"); MC_CHECK(st.st_size >= (off_t)sizeof(T), "mapping", "the segment has %ld bytes, the object needs %zu", (long)st.st_size, sizeof(T)); }
        break; }
      case 1: { if (!x.p) mc::skip(); mc::trace("holder %d writes", w); x.m->a = x.p->data()->at(0) = ++value; x.m->b = x.p->data()->at(1) = -value; break; }
      case 2: { if (!x.p) mc::skip(); mc::trace("holder %d goes away", w); x.p.reset(); if (x.creator && world[x.name] == x.m) world[x.name].reset(); x.m.reset(); x.creator = false; break; }
      case 3: { if (!x.p || !x.creator || world[x.name] != x.m) mc::skip(); mc::trace("creator %d removes the name", w); x.p->unlink(); world[x.name].reset(); break; }
    }
    MC_CHECK(s.fds.empty(), "descriptor-leak", "%zu descriptors are left open", s.fds.size());
    size_t live = 0; for (auto& k : h) if (k.p) { ++live; MC_CHECK(k.p->data()->at(0) == k.m->a && k.p->data()->at(1) == k.m->b, "not-shared", "holder %d reads %d %d, the object is %d %d", (int)(&k - h), k.p->data()->at(0), k.p->data()->at(1), k.m->a, k.m->b); }
    MC_CHECK(s.maps.size() == live, "mapping-leak", "%zu mappings for %zu holders", s.maps.size(), live);
    for (int n = 0; n < 2; ++n) MC_CHECK(s.names.count(std::string("/") + names[n]) == (world[n] ? 1u : 0u), "name", "the name %s %s", names[n], world[n] ? "was removed although its creator is there" : "is left behind without its creator");
    MC_CHECK(s.names.size() <= 2, "name", "%zu names exist", s.names.size());
    uint64_t st = 0; for (auto& k : h) { st = mc::mix(st, k.p ? 1 + k.creator + 2 * k.name : 0); st = mc::mix(st, k.m && world[k.name] == k.m); for (auto& j : h) st = mc::mix(st, k.m && j.m == k.m); st = mc::mix(st, k.m && k.m->a > 99); } mc::state(st); mc::validated();
  }
  for (auto& k : h) if (k.p) { k.p.reset(); if (k.creator && world[k.name] == k.m) world[k.name].reset(); }
  for (int n = 0; n < 2; ++n) MC_CHECK(s.names.count(std::string("/") + names[n]) == 0, "name", "the name %s is left behind", names[n]); MC_CHECK(s.maps.empty(), "mapping-leak", "%zu mappings left", s.maps.size());
}
}
MC_SCENARIO(small_object, .shard(4).nocut()) { histories<Small>(); }
MC_SCENARIO(large_object, .shard(4).nocut()) { histories<Large>(); }

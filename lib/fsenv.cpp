#include "fsenv.hpp"
#include <mc.hpp>
#include <set>
#include <map>
#include <cstdarg>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
extern "C" {
int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...); int __real_openat(int, const char*, int, ...); int __real_creat(const char*, mode_t); int __real_close(int);
FILE* __real_fdopen(int, const char*); FILE* __real_fopen(const char*, const char*); FILE* __real_fopen64(const char*, const char*); int __real_fclose(FILE*);
}
namespace fsenv {
namespace {
bool on = false, inject = false; int mask = 0, nfaults = 0; std::string last;
std::set<int> fds; std::map<FILE*, int> files;
int raw_open(const char* p, int f, int m) { return (int)syscall(SYS_openat, AT_FDCWD, p, f, m); }
bool fault(int kind, const char* what, const int* errs, int n) {
  if (!inject || !(mask & kind) || mc::deviations_left() <= 0) return false;
  int k = mc::choose_dev(n + 1); if (k == 0) return false;
  ++nfaults; last = what; errno = errs[k - 1]; mc::trace("    fault: %s fails with %s", what, strerrorname_np(errno)); return true;
}
const int open_errs[] = {EACCES, ENOENT, EMFILE, EINTR, ENOSPC}, fdopen_errs[] = {ENOMEM}, close_errs[] = {EIO, EINTR};
int do_open(const char* p, int f, int m) {
  if (fault(Open, "open", open_errs, 5)) return -1;
  int fd = raw_open(p, f, m); if (fd >= 0) fds.insert(fd); return fd;
}
int do_close(int fd) {
  if (!fds.count(fd)) { mc::flag("double-close", "close() of descriptor %d which is not open", fd); errno = EBADF; return -1; }
  fds.erase(fd); bool f = fault(Close, "close", close_errs, 2); int e = errno; syscall(SYS_close, fd); errno = e; return f ? -1 : 0;
}
ssize_t cookie_write(void* c, const char* b, size_t n) {
  int fd = (int)(intptr_t)c; size_t limit = n; int err = 0;
  if (inject && (mask & Write) && mc::deviations_left() > 0) {
    int k = mc::choose_dev(n > 1 ? 4 : 3); // 1: nothing written, no space; 2: io error; 3: half of it, then no space
    if (k) { ++nfaults; last = "write"; limit = k == 3 ? n / 2 : 0; err = k == 2 ? EIO : ENOSPC; mc::trace("    fault: write of %zu bytes stops after %zu with %s", n, limit, strerrorname_np(err)); }
  }
  size_t done = 0; while (done < limit) { long r = syscall(SYS_write, fd, b + done, limit - done); if (r <= 0) break; done += r; }
  if (err) { errno = err; return done; } return done;
}
int cookie_close(void* c) { return do_close((int)(intptr_t)c); }
int cookie_seek(void* c, off64_t* o, int w) { long r = syscall(SYS_lseek, (int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
ssize_t cookie_read(void* c, char* b, size_t n) { return syscall(SYS_read, (int)(intptr_t)c, b, n); }
FILE* wrap_fd(int fd, const char* mode) { cookie_io_functions_t f = {cookie_read, cookie_write, cookie_seek, cookie_close}; FILE* r = fopencookie((void*)(intptr_t)fd, mode, f); if (r) files[r] = fd; return r; }
FILE* do_fdopen(int fd, const char* mode) {
  int fl = fds.count(fd) ? fcntl(fd, F_GETFL) : -1; if (fl < 0) { errno = EBADF; return nullptr; }
  int acc = fl & O_ACCMODE; bool plus = strchr(mode, '+'); if ((mode[0] != 'r' && mode[0] != 'w' && mode[0] != 'a') || (mode[0] == 'r' && acc == O_WRONLY) || (mode[0] != 'r' && acc == O_RDONLY) || (plus && acc != O_RDWR)) { errno = EINVAL; return nullptr; }
  if (fault(Fdopen, "fdopen", fdopen_errs, 1)) return nullptr;
  if (mode[0] == 'a' && !(fl & O_APPEND)) fcntl(fd, F_SETFL, fl | O_APPEND);
  return wrap_fd(fd, mode);
}
FILE* do_fopen(const char* p, const char* mode) {
  int f = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY; if (mode[0] == 'w') f |= O_CREAT | O_TRUNC; if (mode[0] == 'a') f |= O_CREAT | O_APPEND;
  int fd = do_open(p, f, 0666); if (fd < 0) return nullptr; return wrap_fd(fd, mode);
}
int do_fclose(FILE* f) { if (!files.count(f)) { mc::flag("double-close", "fclose() of a FILE which is not open"); errno = EBADF; return EOF; } files.erase(f); return __real_fclose(f); }
}
void begin(bool faults) { on = true; inject = faults; mask = 15; nfaults = 0; last.clear(); fds.clear(); files.clear(); }
void enable(int m) { mask = m; }
void end() { on = inject = false; for (int fd : fds) syscall(SYS_close, fd); fds.clear(); files.clear(); }
std::string path(const std::string& n) { return std::string(mc::scratch_dir()) + "/" + n; }
void remove(const std::string& p) { syscall(SYS_unlink, p.c_str()); }
void put(const std::string& p, const std::string& c) { int fd = raw_open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0 || syscall(SYS_write, fd, c.data(), c.size()) != (long)c.size()) mc::fail("harness", "cannot prepare %s", p.c_str()); syscall(SYS_close, fd); }
bool read(const std::string& p, std::string& c) { c.clear(); int fd = raw_open(p.c_str(), O_RDONLY, 0); if (fd < 0) return false; char b[65536]; long r; while ((r = syscall(SYS_read, fd, b, sizeof b)) > 0) c.append(b, r); syscall(SYS_close, fd); return true; }
int live_fds() { return (int)fds.size(); }
int live_files() { return (int)files.size(); }
int faults() { return nfaults; }
const char* last_fault() { return last.c_str(); }
void clear_faults() { nfaults = 0; }
}
using namespace fsenv;
extern "C" {
#define MODE int m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); }
int __wrap_open(const char* p, int f, ...) { MODE return on ? do_open(p, f, m) : raw_open(p, f, m); }
int __wrap_open64(const char* p, int f, ...) { MODE return on ? do_open(p, f, m) : raw_open(p, f, m); }
int __wrap_openat(int d, const char* p, int f, ...) { MODE return on && d == AT_FDCWD ? do_open(p, f, m) : __real_openat(d, p, f, m); }
int __wrap_creat(const char* p, mode_t m) { return on ? do_open(p, O_WRONLY | O_CREAT | O_TRUNC, m) : __real_creat(p, m); }
int __wrap_close(int fd) { return on ? do_close(fd) : __real_close(fd); }
FILE* __wrap_fdopen(int fd, const char* m) { return on ? do_fdopen(fd, m) : __real_fdopen(fd, m); }
FILE* __wrap_fopen(const char* p, const char* m) { return on ? do_fopen(p, m) : __real_fopen(p, m); }
FILE* __wrap_fopen64(const char* p, const char* m) { return on ? do_fopen(p, m) : __real_fopen64(p, m); }
int __wrap_fclose(FILE* f) { return on ? do_fclose(f) : __real_fclose(f); }
}

// A terminal behind the system calls: raw mode, VMIN/VTIME, O_NONBLOCK, locks, a virtual clock, refusals.
namespace tty {
struct Sim {
  bool on = false, faults = false, gone = false; int failed = 0; const char* last = ""; int next = 1000;
  struct File { bool nonblock; int flags; std::string path; int proc; }; struct Lock { int proc; std::string path; int type; long from, to; }; std::vector<Lock> locks; int proc = 0; bool carrier = true; std::map<int, File> open; std::set<int> closed; termios t; int sets = 0;
  long long now = 0; std::deque<std::pair<long long, int>> arrivals; std::string out, taken; long long gaps = 0;
  void reset() { *this = Sim(); on = true; memset(&t, 0, sizeof t); t.c_lflag = ICANON | ECHO | ISIG; t.c_iflag = ICRNL | IXON; t.c_oflag = OPOST | ONLCR; t.c_cflag = CS8 | CREAD | B9600; t.c_cc[VMIN] = 1; now = 5000000000LL + 999500000LL; }
  int waiting() const { int n = 0; for (auto& a : arrivals) if (a.first <= now) ++n; return n; }
  void flush() { while (!arrivals.empty() && arrivals.front().first <= now) arrivals.pop_front(); }
} s;
bool ours(int fd) {
  if (!s.on) return false; if (s.open.count(fd)) return true; if (s.closed.count(fd)) { mc::flag("stale-descriptor", "a call on descriptor %d which has been closed", fd); return true; }
  if (fd < -1 || fd > 2000) { mc::flag("stale-descriptor", "a call on descriptor %d which was never opened", fd); return true; } return fd == -1;
}
bool bad(int fd) { if (s.open.count(fd)) return false; errno = EBADF; return true; }
bool refuse(const char* what, std::initializer_list<int> errs) { if (!s.faults || mc::deviations_left() <= 0) return false; int c = mc::choose_dev(1 + (int)errs.size()); if (!c) return false; errno = errs.begin()[c - 1]; ++s.failed; s.last = what; mc::trace("  %s fails with errno %d", what, errno); return true; }
int do_open(const char* p, int flags) { if (refuse("open", {ENOENT, EACCES, EINTR, EMFILE, EIO})) return -1; if (s.gone) { errno = ENOENT; return -1; } if (!s.carrier && !(flags & O_NONBLOCK)) mc::flag("open-waits", "opening waits for the carrier of a modem that is switched off"); int fd = s.next++; s.open[fd] = Sim::File{(flags & O_NONBLOCK) != 0, flags, p, s.proc}; return fd; }
bool is_port(const char* p) { return s.on && !strncmp(p, "/sim/", 5); }
}
namespace tty_calls {
using tty::s; typedef tty::Sim::Lock Sim_Lock;
extern "C" {
int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...); int __real_close(int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_fcntl(int, int, ...); int __real_fcntl64(int, int, ...); int __real_ioctl(int, unsigned long, ...); int __real_access(const char*, int); int __real_tcsetattr(int, int, const termios*); int __real_tcgetattr(int, termios*); int __real_tcflush(int, int); int __real_clock_gettime(clockid_t, timespec*); int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*); int __real_nanosleep(const timespec*, timespec*); int __real_usleep(useconds_t); int __real_poll(pollfd*, nfds_t, int); int __real_select(int, fd_set*, fd_set*, fd_set*, timeval*);
int __wrap_open(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return tty::is_port(p) ? tty::do_open(p, f) : __real_open(p, f, m); }
int __wrap_open64(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return tty::is_port(p) ? tty::do_open(p, f) : __real_open64(p, f, m); }
int __wrap_close(int fd) { if (!tty::ours(fd)) return __real_close(fd); if (tty::bad(fd)) return -1; { auto f = s.open[fd]; for (size_t i = s.locks.size(); i--;) if (s.locks[i].proc == f.proc && s.locks[i].path == f.path) s.locks.erase(s.locks.begin() + i); } s.open.erase(fd); s.closed.insert(fd); return 0; }
static int simctl(int fd, int c, long arg) {
  if (tty::bad(fd)) return -1; auto& f = s.open[fd];
  if (c == F_SETFL) { if (tty::refuse("fcntl(F_SETFL)", {EPERM, EBADF})) return -1; f.nonblock = (arg & O_NONBLOCK) != 0; return 0; }
  if (c == F_GETFL) return (f.flags & O_ACCMODE) | (f.nonblock ? O_NONBLOCK : 0);
  if (c == F_SETLK || c == F_SETLKW) { if (tty::refuse("fcntl(F_SETLK)", {EACCES, EAGAIN, ENOLCK})) return -1; auto* l = (const struct flock*)arg; Sim_Lock k{f.proc, f.path, l->l_type, (long)l->l_start, l->l_len ? (long)(l->l_start + l->l_len) : LONG_MAX};
    for (size_t i = s.locks.size(); i--;) if (s.locks[i].proc == k.proc && s.locks[i].path == k.path && s.locks[i].from < k.to && k.from < s.locks[i].to) { if (k.from <= s.locks[i].from && s.locks[i].to <= k.to) s.locks.erase(s.locks.begin() + i); }
    if (l->l_type == F_UNLCK) return 0; for (auto& o : s.locks) if (o.proc != k.proc && o.path == k.path && o.from < k.to && k.from < o.to && (o.type == F_WRLCK || k.type == F_WRLCK)) { errno = EAGAIN; mc::trace("  the port is locked"); return -1; } s.locks.push_back(k); return 0; }
  return 0;
}
int __wrap_fcntl(int fd, int c, ...) { va_list a; va_start(a, c); long v = va_arg(a, long); va_end(a); return tty::ours(fd) ? simctl(fd, c, v) : __real_fcntl(fd, c, v); }
int __wrap_fcntl64(int fd, int c, ...) { va_list a; va_start(a, c); long v = va_arg(a, long); va_end(a); return tty::ours(fd) ? simctl(fd, c, v) : __real_fcntl64(fd, c, v); }
int __wrap_ioctl(int fd, unsigned long r, ...) { va_list a; va_start(a, r); void* v = va_arg(a, void*); va_end(a); if (!tty::ours(fd)) return __real_ioctl(fd, r, v); if (tty::bad(fd)) return -1; if (r == FIONREAD) { if (tty::refuse("ioctl", {EIO})) return -1; *(int*)v = s.waiting(); return 0; } return 0; }
int __wrap_access(const char* p, int m) { if (!tty::is_port(p)) return __real_access(p, m); if (s.gone) { errno = ENOENT; return -1; } return 0; }
int __wrap_tcsetattr(int fd, int how, const termios* t) { if (!tty::ours(fd)) return __real_tcsetattr(fd, how, t); if (tty::bad(fd)) return -1; if (tty::refuse("tcsetattr", {EIO, EINTR})) return -1; s.t = *t; ++s.sets; if (how == TCSAFLUSH) s.flush(); return 0; }
int __wrap_tcgetattr(int fd, termios* t) { if (!tty::ours(fd)) return __real_tcgetattr(fd, t); if (tty::bad(fd)) return -1; *t = s.t; return 0; }
int __wrap_tcflush(int fd, int q) { if (!tty::ours(fd)) return __real_tcflush(fd, q); if (tty::bad(fd)) return -1; if (q != TCOFLUSH) s.flush(); return 0; }
ssize_t __wrap_read(int fd, void* b, size_t n) {
  if (!tty::ours(fd)) return __real_read(fd, b, n); if (tty::bad(fd)) return -1; if (tty::refuse("read", {EINTR, EIO})) return -1;
  int vmin = s.t.c_cc[VMIN]; long long limit = s.now + s.t.c_cc[VTIME] * 100000000LL;
  if (s.open[fd].nonblock) { if (!s.waiting()) { errno = EAGAIN; return -1; } }
  else if (vmin == 0) { if (!s.waiting()) { if (!s.arrivals.empty() && s.arrivals.front().first < limit) s.now = s.arrivals.front().first; else s.now = limit; } }
  else { size_t need = (size_t)vmin < n ? vmin : n; if (s.arrivals.size() < need) { mc::flag("blocks-forever", "the read waits for bytes that never come (VMIN %d)", vmin); errno = EIO; return -1; } while ((size_t)s.waiting() < need) s.now = s.arrivals[s.waiting()].first; }
  size_t k = 0; while (k < n && s.waiting() > 0) { int c = s.arrivals.front().second; if (s.t.c_iflag & ISTRIP) c &= 0x7f; s.arrivals.pop_front(); ((unsigned char*)b)[k++] = c; s.taken += (char)c; } return k;
}
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (!tty::ours(fd)) return __real_write(fd, b, n); if (tty::bad(fd)) return -1; if (tty::refuse("write", {EINTR, EIO})) return -1; size_t k = n; if (s.faults && n > 1 && mc::deviations_left() > 0 && mc::choose_dev(2)) { k = n / 2; mc::trace("  write takes %zu of %zu bytes", k, n); } s.out.append((const char*)b, k); return k; }
static int simsleep(long long until) { if (until > s.now) s.now = until; return 0; }
int __wrap_clock_gettime(clockid_t c, timespec* t) { if (!s.on) return __real_clock_gettime(c, t); t->tv_sec = s.now / 1000000000; t->tv_nsec = s.now % 1000000000; return 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const timespec* t, timespec* r) { if (!s.on) return __real_clock_nanosleep(c, f, t, r); long long d = t->tv_sec * 1000000000LL + t->tv_nsec; return simsleep(f & TIMER_ABSTIME ? d : s.now + d); }
int __wrap_nanosleep(const timespec* t, timespec* r) { if (!s.on) return __real_nanosleep(t, r); return simsleep(s.now + t->tv_sec * 1000000000LL + t->tv_nsec); }
int __wrap_usleep(useconds_t u) { if (!s.on) return __real_usleep(u); return simsleep(s.now + u * 1000LL); }
int __wrap_poll(pollfd* p, nfds_t n, int ms) { if (!s.on || n != 1 || !tty::ours(p->fd)) return __real_poll(p, n, ms); if (tty::bad(p->fd)) { p->revents = POLLNVAL; return 1; } p->revents = 0; if (!s.waiting() && ms) { long long lim = ms < 0 ? (1LL << 60) : s.now + ms * 1000000LL; if (!s.arrivals.empty() && s.arrivals.front().first <= lim) s.now = s.arrivals.front().first; else { if (ms < 0) mc::flag("blocks-forever", "poll waits for ever"); s.now = ms < 0 ? s.now : lim; } } if (s.waiting()) { p->revents = POLLIN; return 1; } return 0; }
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* t) { if (!s.on) return __real_select(n, r, w, e, t); int fd = -1; for (int i = 0; i < n && i < FD_SETSIZE; ++i) if (r && FD_ISSET(i, r)) fd = i; pollfd p{fd, POLLIN, 0}; int ms = t ? (int)(t->tv_sec * 1000 + (t->tv_usec + 999) / 1000) : -1; int k = __wrap_poll(&p, 1, ms); if (r && !p.revents) FD_ZERO(r); return k; }
}
}

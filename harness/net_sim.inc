// A network behind the system calls: sockets, one peer that sends, closes or resets, partial transfers, refusals.
namespace net {
struct Sock { enum Kind { Fresh, Bound, Listening, Connected } kind = Fresh; int port = 0; bool reuse = false; };
struct Sim {
  bool on = false, faults = false; int failed = 0, partial = 0, last_errno = 0; const char* last = ""; int next = 1000; std::map<int, Sock> live; std::set<int> closed;
  std::deque<char> in; bool fin = false, rst = false; std::string out; int peer_port = 0; unsigned addr = 0; int conn = -1; std::set<int> timewait;
  void fresh() { in.clear(); fin = rst = false; out.clear(); }
} s;
bool ours(int fd) { if (!s.on) return false; if (s.live.count(fd)) return true; if (s.closed.count(fd)) { mc::flag("stale-descriptor", "a call on descriptor %d which has been closed", fd); return true; } if (fd < -1 || fd > 2000) { mc::flag("stale-descriptor", "a call on a descriptor that was never opened"); return true; } return fd == -1; }
bool bad(int fd) { if (s.live.count(fd)) return false; errno = EBADF; return true; }
bool refuse(const char* what, std::initializer_list<int> errs) { if (!s.faults || mc::deviations_left() <= 0) return false; int c = mc::choose_dev(1 + (int)errs.size()); if (!c) return false; errno = s.last_errno = errs.begin()[c - 1]; ++s.failed; s.last = what; mc::trace("  %s fails with errno %d", what, errno); return true; }
}
namespace net_calls {
using net::s; using net::Sock;
extern "C" {
int __real_socket(int, int, int); int __real_setsockopt(int, int, int, const void*, socklen_t); int __real_bind(int, const sockaddr*, socklen_t); int __real_listen(int, int); int __real_accept(int, sockaddr*, socklen_t*); int __real_accept4(int, sockaddr*, socklen_t*, int); int __real_connect(int, const sockaddr*, socklen_t); hostent* __real_gethostbyname(const char*); ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_recvfrom(int, void*, size_t, int, sockaddr*, socklen_t*); ssize_t __real_send(int, const void*, size_t, int); ssize_t __real_sendto(int, const void*, size_t, int, const sockaddr*, socklen_t); int __real_ioctl(int, unsigned long, ...); int __real_close(int); int __real_shutdown(int, int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
int __wrap_socket(int d, int t, int p) { if (!s.on) return __real_socket(d, t, p); if (net::refuse("socket", {EACCES, EMFILE, ENFILE, ENOBUFS, ENOMEM})) return -1; if (d != AF_INET || (t & 15) != SOCK_STREAM) mc::flag("wrong-socket", "not an internet stream socket"); int fd = s.next++; s.live[fd] = Sock(); return fd; }
int __wrap_setsockopt(int fd, int l, int o, const void* v, socklen_t n) { if (!net::ours(fd)) return __real_setsockopt(fd, l, o, v, n); if (net::bad(fd)) return -1; if (l == SOL_SOCKET && o == SO_REUSEADDR) s.live[fd].reuse = *(const int*)v; return 0; }
int __wrap_bind(int fd, const sockaddr* a, socklen_t n) { if (!net::ours(fd)) return __real_bind(fd, a, n); if (net::bad(fd)) return -1; if (net::refuse("bind", {EADDRINUSE, EACCES, EINVAL})) return -1; auto* i = (const sockaddr_in*)a; for (auto& x : s.live) if (x.first != fd && x.second.kind != Sock::Fresh && x.second.kind != Sock::Connected && x.second.port == ntohs(i->sin_port)) { errno = EADDRINUSE; mc::trace("  port still bound"); return -1; } if (s.timewait.count(ntohs(i->sin_port)) && !s.live[fd].reuse) { errno = EADDRINUSE; mc::trace("  port still waiting for late packets of an old connection"); return -1; } s.live[fd].kind = Sock::Bound; s.live[fd].port = ntohs(i->sin_port); s.addr = i->sin_addr.s_addr; return 0; }
int __wrap_listen(int fd, int n) { if (!net::ours(fd)) return __real_listen(fd, n); if (net::bad(fd)) return -1; if (net::refuse("listen", {EADDRINUSE, EOPNOTSUPP})) return -1; if (s.live[fd].kind == Sock::Bound) s.live[fd].kind = Sock::Listening; return 0; }
int __wrap_accept(int fd, sockaddr* a, socklen_t* n) { if (!net::ours(fd)) return __real_accept(fd, a, n); if (net::bad(fd)) return -1; if (net::refuse("accept", {ECONNABORTED, EINTR, EMFILE, ENOMEM, EPERM})) return -1; if (s.live[fd].kind != Sock::Listening) { errno = EINVAL; ++s.failed; return -1; } int c = s.next++; s.live[c].kind = Sock::Connected; s.live[c].port = s.live[fd].port; s.conn = c; s.fresh(); if (a) memset(a, 0, *n); return c; }
int __wrap_accept4(int fd, sockaddr* a, socklen_t* n, int f) { if (!net::ours(fd)) return __real_accept4(fd, a, n, f); return __wrap_accept(fd, a, n); }
int __wrap_connect(int fd, const sockaddr* a, socklen_t n) { if (!net::ours(fd)) return __real_connect(fd, a, n); if (net::bad(fd)) return -1; if (net::refuse("connect", {ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EINTR, EADDRINUSE})) return -1; auto* i = (const sockaddr_in*)a; s.peer_port = ntohs(i->sin_port); s.addr = i->sin_addr.s_addr; s.live[fd].kind = Sock::Connected; s.conn = fd; s.fresh(); return 0; }
hostent* __wrap_gethostbyname(const char* h) { if (!s.on) return __real_gethostbyname(h); if (s.faults && mc::deviations_left() > 0 && mc::choose_dev(2)) { h_errno = HOST_NOT_FOUND; ++s.failed; s.last = "gethostbyname"; mc::trace("  gethostbyname fails"); return nullptr; } static in_addr ad; static char* list[] = {(char*)&ad, nullptr}; static char* none[] = {nullptr}; static hostent e; ad.s_addr = htonl(0x0a000000 + (unsigned char)h[0]); e.h_name = (char*)h; e.h_aliases = none; e.h_addrtype = AF_INET; e.h_length = 4; e.h_addr_list = list; return &e; }
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) {
  if (!net::ours(fd)) return __real_recv(fd, b, n, f); if (net::bad(fd)) return -1; if (s.live[fd].kind != Sock::Connected) { errno = ENOTCONN; return -1; } if (fd != s.conn) mc::flag("stale-connection", "a transfer on a connection that has been replaced"); if (net::refuse("recv", {EINTR, ECONNRESET, ENOMEM})) return -1;
  if (s.rst) { errno = ECONNRESET; return -1; } if (n == 0) return 0; if (s.in.empty()) { if (s.fin) return 0; mc::flag("blocks-forever", "recv waits although the peer sends nothing"); errno = EAGAIN; return -1; }
  if ((f & MSG_WAITALL) && s.in.size() < n && !s.fin) mc::flag("blocks-forever", "recv waits for %zu bytes, %zu have come", n, s.in.size());
  size_t k = std::min(n, s.in.size()); if (s.faults && k > 1 && mc::deviations_left() > 0 && mc::choose_dev(2)) { k = 1; ++s.partial; mc::trace("  recv returns one byte"); } for (size_t i = 0; i < k; ++i) ((char*)b)[i] = s.in[i]; if (!(f & MSG_PEEK)) s.in.erase(s.in.begin(), s.in.begin() + k); return k;
}
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int f, sockaddr* a, socklen_t* l) { if (!net::ours(fd)) return __real_recvfrom(fd, b, n, f, a, l); return __wrap_recv(fd, b, n, f); }
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) {
  if (!net::ours(fd)) return __real_send(fd, b, n, f); if (net::bad(fd)) return -1; if (s.live[fd].kind != Sock::Connected) { errno = ENOTCONN; return -1; } if (fd != s.conn) mc::flag("stale-connection", "a transfer on a connection that has been replaced"); if (net::refuse("send", {EPIPE, EINTR, ECONNRESET, ENOBUFS})) { if (errno == EPIPE && !(f & MSG_NOSIGNAL)) mc::flag("signal", "send without MSG_NOSIGNAL on a broken connection kills the program"); return -1; }
  if (s.rst) { errno = EPIPE; if (!(f & MSG_NOSIGNAL)) mc::flag("signal", "send without MSG_NOSIGNAL on a broken connection kills the program"); return -1; } size_t k = n; if (s.faults && n > 1 && mc::deviations_left() > 0 && mc::choose_dev(2)) { k = n / 2; ++s.partial; mc::trace("  send takes %zu of %zu bytes", k, n); } s.out.append((const char*)b, k); return k;
}
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int f, const sockaddr* a, socklen_t l) { if (!net::ours(fd)) return __real_sendto(fd, b, n, f, a, l); return __wrap_send(fd, b, n, f); }
ssize_t __wrap_read(int fd, void* b, size_t n) { if (!net::ours(fd)) return __real_read(fd, b, n); return __wrap_recv(fd, b, n, 0); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (!net::ours(fd)) return __real_write(fd, b, n); return __wrap_send(fd, b, n, 0); }
int __wrap_ioctl(int fd, unsigned long r, ...) { va_list a; va_start(a, r); void* v = va_arg(a, void*); va_end(a); if (!net::ours(fd)) return __real_ioctl(fd, r, v); if (net::bad(fd)) return -1; if (r == FIONREAD) { if (net::refuse("ioctl", {EINVAL, ENOTTY})) return -1; *(int*)v = (int)s.in.size(); } return 0; }
int __wrap_close(int fd) { if (!net::ours(fd)) return __real_close(fd); if (fd == -1) { errno = EBADF; return -1; } if (net::bad(fd)) return -1; if (s.live[fd].kind == Sock::Connected && s.live[fd].port && !s.fin && !s.rst) s.timewait.insert(s.live[fd].port); s.live.erase(fd); s.closed.insert(fd); if (fd == s.conn) s.conn = -1; return 0; }
int __wrap_shutdown(int fd, int h) { if (!net::ours(fd)) return __real_shutdown(fd, h); if (net::bad(fd)) return -1; return 0; }
}
}

// @SOURCES: ecl_devices/src/lib/socket_client_pos.cpp ecl_devices/src/lib/socket_server_pos.cpp ecl_devices/src/lib/detail/*.cpp ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @FLAGS: -fno-lifetime-dse -include unistd.h
// @WRAP: socket setsockopt bind listen accept accept4 connect gethostbyname recv recvfrom send sendto ioctl close shutdown read write
// @ASSUME: the network is simulated behind the system calls (sockets, one peer that sends, closes or resets, partial transfers, name lookup); every history of up to 4 (thorough 5) operations of a closed, open or connected client or server, and one operation less with one refused call or partial transfer, each documented errno of each call;; a read that would wait for ever because the peer sends nothing is not made;; a reset by the peer may be reported as hung up or as a problem;; a client end and a server end exchanging data are judged separately against the same simulated peer
#include "util.hpp"
#include <cstdarg>
#include <ecl/devices/socket.hpp>
#include <cerrno>
#include <map>
#include <set>
#include <deque>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netdb.h>
#include "net_sim.inc"
using net::s; using net::Sock;
using namespace ecl;
namespace {
struct Session { Session() { s = net::Sim(); s.on = true; } ~Session() { s.on = false; } };
template <class T> struct Port { alignas(T) unsigned char mem[sizeof(T)]; T* p = nullptr; explicit Port(int junk) { memset(mem, junk, sizeof mem); } template <class... A> T* make(A... a) { return p = new (mem) T(a...); } ~Port() { if (p) p->~T(); } };
enum { Threw = -100 };
template <class F> long report(F f) { mc::step(); try { return f(); } catch (const StandardException& e) { mc::trace("  threw flag %d", (int)e.flag()); return Threw; } }
bool open_at(SocketClient& c, int k) { return c.open(k ? "b" : "a", k ? 81 : 80); } bool open_at(SocketServer& c, int k) { return c.open(k ? 81 : 80); }
void make(Port<SocketClient>& q, int k) { q.make(std::string(k ? "b" : "a"), k ? 81u : 80u); } void make(Port<SocketServer>& q, int k) { q.make(k ? 81u : 80u); }
void check_target(SocketClient&, int k) { MC_CHECK(s.peer_port == (k ? 81 : 80) && s.addr == htonl(0x0a000000 + (k ? 'b' : 'a')), "wrong-address", "connected to %08x port %d", ntohl(s.addr), s.peer_port); } void check_target(SocketServer&, int k) { bool f = false; for (auto& x : s.live) if (x.second.kind >= Sock::Bound && x.second.kind <= Sock::Listening) f = x.second.port == (k ? 81 : 80); MC_CHECK(f && s.addr == INADDR_ANY, "wrong-address", "not bound to the port asked for"); }
int accept_one(SocketServer& x) { return x.listen(); } int accept_one(SocketClient&) { return 0; }
template <class T> void histories(bool server) {
  Session session; { Port<T> q(mc::flip() ? 0xff : 1); T* p = q.make(); bool open = false, conn = false; bool calm = mc::flip(); mc::set_deviations(calm ? 0 : 1); s.faults = true; int depth = mc::tiered(3, 4) + calm; char c = 'a';
  // the first operations lead to a connection or stay before it
  int lead = mc::choose(server ? 3 : 2); if (lead == 0 && !calm) --depth; if (lead >= 1) { s.faults = false; open_at(*p, 0); open = true; if (!server) conn = true; if (lead == 2) { accept_one(*p); conn = true; } s.faults = true; mc::trace(conn ? "connected" : "opened"); }
  for (int i = 0; i < depth; ++i) {
    int op = mc::choose(server ? 15 : 14); s.failed = s.partial = 0; size_t in0 = s.in.size(), out0 = s.out.size(); int before = (int)s.live.size(); std::string avail(s.in.begin(), s.in.end()); long r = 0; char b[6]; memset(b, '#', 6); bool success = false;
    switch (op) {
      case 0: case 1: mc::trace("open(%d)", op); r = report([&] { return (long)open_at(*p, op); }); if (!s.failed) { MC_CHECK(r == 1, "refused", "open() reports %ld although nothing failed", r); check_target(*p, op); success = true; } else MC_CHECK(r == Threw || r == 0, "failure-hidden", "%s failed but open() reports success", s.last); open = r == 1; conn = open && !server; break;
      case 2: mc::trace("close"); p->close(); open = conn = false; break;
      case 3: if (!conn || s.fin || s.rst) mc::skip(); mc::trace("peer sends 2 bytes"); s.in.push_back(c++); s.in.push_back(c++); continue;
      case 4: if (!conn || s.fin || s.rst) mc::skip(); mc::trace("peer closes"); s.fin = true; continue;
      case 5: if (!conn || s.rst) mc::skip(); mc::trace("peer resets"); s.rst = true; s.in.clear(); continue;
      case 6: case 7: case 8: { bool peek = op == 8; unsigned long n = op == 6 ? 1 : op == 7 ? 3 : 2; if (conn && s.in.empty() && !s.fin && !s.rst) mc::skip(); mc::trace("%s %lu", peek ? "peek" : "read", n); r = report([&] { return op == 6 ? p->read(b[0]) : peek ? p->peek(b, n) : p->read(b, n); });
        for (size_t k = r > 0 ? r : 0; k < 6; ++k) MC_CHECK(b[k] == '#', "read-overrun", "byte %zu after the data was written", k);
        if (!conn) { MC_CHECK(r < 0, "not-connected", "reading without a connection reports %ld", r); if (!open) MC_CHECK(r == ConnectionDisconnected || r == Threw, "not-connected", "reading from a closed socket reports %ld", r); break; }
        if (s.failed || s.rst) { MC_CHECK(r == ConnectionProblem || r == Threw || (r == ConnectionHungUp && (s.rst || s.last_errno == ECONNRESET)), "failure-hidden", "reading failed but reports %ld", r); if (r == ConnectionHungUp) open = conn = false; break; }
        if (avail.empty()) { MC_CHECK(r == ConnectionHungUp || (peek && r == 0), "hang-up-missed", "the peer has closed but reading reports %ld", r); if (r == ConnectionHungUp) { open = conn = false; MC_CHECK(!p->open(), "status", "the socket is reported as open after the peer hung up"); } break; }
        MC_CHECK(r == (long)(s.partial ? 1 : std::min<size_t>(n, avail.size())) && avail.compare(0, r, std::string(b, r)) == 0, "bytes-changed", "%s waits, reading %lu reports %ld: %s", avail.c_str(), n, r, mc::show(std::string(b, r > 0 ? r : 0)).c_str()); MC_CHECK(s.in.size() == in0 - (peek ? 0 : r), "bytes-lost", "%zu bytes were waiting, %ld reported, %zu left", in0, r, s.in.size()); success = true; break; }
      case 9: mc::trace("remaining"); r = report([&] { return p->remaining(); }); if (!conn) MC_CHECK(r < 0, "not-connected", "remaining() without a connection reports %ld", r); else if (s.failed) MC_CHECK(r < 0, "failure-hidden", "%s failed but remaining() reports %ld", s.last, r); else { MC_CHECK(r == (long)in0, "remaining", "%zu bytes wait, remaining() reports %ld", in0, r); success = true; } break;
      case 10: case 11: { mc::trace("write %d", op == 10 ? 1 : 3); r = report([&] { return op == 10 ? p->write('q') : p->write("xyz", 3ul); }); std::string got = s.out.substr(out0), want = op == 10 ? "q" : "xyz";
        if (!conn) { MC_CHECK(r < 0, "not-connected", "writing without a connection reports %ld", r); break; } if (s.failed || s.rst) { MC_CHECK(r < 0, "failure-hidden", "writing failed but reports %ld", r); if (s.failed ? s.last_errno == EPIPE : s.rst) MC_CHECK(r == ConnectionHungUp, "hang-up-missed", "the peer is gone but writing reports %ld", r); if (r == ConnectionHungUp) { open = conn = false; MC_CHECK(!p->open(), "status", "the socket is reported as open after the peer hung up"); } break; }
        MC_CHECK(r == (long)got.size() && want.compare(0, r, got) == 0 && (s.partial || got == want), "write-count", "writing %s reports %ld, the peer got %s", want.c_str(), r, mc::show(got).c_str()); success = true; break; }
      case 12: { mc::trace("open()?"); bool o = p->open(); MC_CHECK(o == open, "status", "open() is %d", o); break; }
      case 13: { if (conn && s.in.empty() && !s.fin && !s.rst) mc::skip(); mc::trace("read 0"); s.faults = false; r = report([&] { return p->read(b, 0ul); }); s.faults = true; if (conn && !s.rst) { MC_CHECK(s.in.size() == in0, "bytes-lost", "a read of nothing took bytes"); if (in0) { MC_CHECK(r == 0 && p->open(), "empty-read-closes", "a read of no bytes with %zu waiting reports %ld", in0, r); } } if (r == ConnectionHungUp) open = conn = false; break; }
      case 14: { mc::trace("listen"); r = report([&] { return (long)accept_one(*p); }); if (!open) { MC_CHECK(r < 0, "not-connected", "listening on a closed socket reports %ld", r); break; } if (s.failed) { MC_CHECK(r < 0, "failure-hidden", "%s failed but listen() reports %ld", s.last, r); conn = false; } else { MC_CHECK(r >= 0, "refused", "listen() reports %ld", r); conn = true; success = true; } break; }
    }
    if (r < 0 && r != Threw && r != ConnectionHungUp && r != ConnectionDisconnected) MC_CHECK(p->error().flag() != NoError || !s.failed, "error-flag", "the error flag is clear after a failure");
    if (success) MC_CHECK(p->error().flag() == NoError, "error-flag", "the error flag is %d after an operation that did not fail", (int)p->error().flag());
    MC_CHECK(p->open() == open, "status", "open() is %d", p->open()); int limit = !open ? 0 : server ? (conn ? 2 : 1) : 1; if (op == 14 && s.failed) { conn = (int)s.live.size() == 2; if (conn) s.conn = s.live.rbegin()->first; limit = 2; } 
    MC_CHECK((int)s.live.size() <= limit, "descriptor-leak", "%zu descriptors are open (%d before), the socket is %s", s.live.size(), before, conn ? "connected" : open ? "open" : "closed"); MC_CHECK(!open || !s.live.empty(), "status", "the socket is reported as open without a descriptor");
    mc::validated(); mc::state(mc::mix(mc::mix(open * 2 + conn, s.in.size()), s.fin * 2 + s.rst));
  } s.faults = false; }
  MC_CHECK(s.live.empty(), "descriptor-leak", "%zu descriptors left open by the destructor", s.live.size());
}
template <class T> void constructing() {
  Session session; int k = mc::choose(2); { Port<T> q(mc::flip() ? 0xff : 1); mc::set_deviations(2); s.faults = true; mc::trace("constructor"); bool threw = false; mc::step(); try { make(q, k); } catch (const StandardException&) { threw = true; } s.faults = false; mc::validated();
  if (s.failed) { MC_CHECK(threw, "failure-hidden", "%s failed but the constructor succeeded", s.last); MC_CHECK(s.live.empty(), "descriptor-leak", "%zu descriptors left open by a constructor that threw", s.live.size()); }
  else { MC_CHECK(!threw && q.p->open(), "refused", "the constructor failed although nothing did"); check_target(*q.p, k); } }
  MC_CHECK(s.live.empty(), "descriptor-leak", "%zu descriptors left open", s.live.size());
}
}
// Transfers of every size around the usual limits, with less, as much and more waiting.
template <class T> void sizes() {
  static const size_t N[] = {1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 200000};
  size_t n = mc::pick(N); int op = mc::choose(3), rel = mc::choose(4); size_t have = rel == 0 ? (n + 1) / 2 : rel == 1 ? n : rel == 2 ? n + 1 : 3 * n;
  Session session; { Port<T> q(0xff); T* p = q.make(); open_at(*p, 0); accept_one(*p); mc::trace("%s %zu bytes, %zu waiting", op == 0 ? "read" : op == 1 ? "peek" : "write", n, have);
    for (size_t i = 0; i < have; ++i) s.in.push_back((char)(i * 7 + i / 251)); std::vector<char> b(n + 1, '#'); std::string was(s.in.begin(), s.in.end()), text;
    if (op == 2) { for (size_t i = 0; i < n; ++i) b[i] = (char)(i * 5 + i / 241); text.assign(b.data(), n); }
    long rem = report([&] { return p->remaining(); }), r = report([&] { return op == 0 ? p->read(b.data(), n) : op == 1 ? p->peek(b.data(), n) : p->write(b.data(), n); });
    MC_CHECK(rem == (long)have, "remaining", "%zu bytes wait, remaining() reports %ld", have, rem);
    if (op == 2) { MC_CHECK(r == (long)n && s.out == text, "bytes-changed", "writing %zu bytes reports %ld, %zu arrive", n, r, s.out.size()); MC_CHECK(s.in.size() == have, "bytes-lost", "writing took bytes from the input"); }
    else { size_t want = std::min(n, have); MC_CHECK(r == (long)want && was.compare(0, want, b.data(), want) == 0 && b[want] == '#', "bytes-changed", "%zu bytes asked for, %zu waiting, %ld reported", n, have, r); MC_CHECK(s.in.size() == have - (op == 0 ? want : 0), "bytes-lost", "%zu bytes waited, %ld reported by a %s, %zu left", have, r, op ? "peek" : "read", s.in.size()); MC_CHECK(s.out.empty(), "bytes-changed", "reading writes"); }
    mc::validated(); }
}
MC_SCENARIO(client_sizes, .nocut()) { sizes<SocketClient>(); }
MC_SCENARIO(server_sizes, .nocut()) { sizes<SocketServer>(); }
MC_SCENARIO(client_histories, .shard(4).nocut()) { histories<SocketClient>(false); }
MC_SCENARIO(server_histories, .shard(4).nocut()) { histories<SocketServer>(true); }
MC_SCENARIO(client_constructor, .nocut()) { constructing<SocketClient>(); }
MC_SCENARIO(server_constructor, .nocut()) { constructing<SocketServer>(); }

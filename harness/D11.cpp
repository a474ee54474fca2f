// @SOURCES: ecl_devices/src/lib/*.cpp ecl_devices/src/lib/detail/*.cpp ecl_time/src/lib/*.cpp ecl_threads/src/lib/mutex_pos.cpp ecl_exceptions/src/lib/*.cpp ecl_streams/src/lib/manipulators.cpp
// @BUILDS: release
// @FLAGS: -fno-lifetime-dse -include unistd.h
// @WRAP: open open64 close read write fcntl fcntl64 ioctl access tcsetattr tcgetattr tcflush clock_gettime clock_nanosleep nanosleep usleep poll select socket setsockopt bind listen accept accept4 connect gethostbyname recv recvfrom send sendto shutdown
// @ASSUME: the terminal and the network are simulated behind the system calls; one refused call or partial transfer per history of up to 3 (thorough 4) insertions and extractions;; files are real ones in a scratch directory
#include "util.hpp"
#include <cstdarg>
#include <cerrno>
#include <climits>
#include <map>
#include <memory>
#include <set>
#include <fcntl.h>
#include <unistd.h>
#include <termios.h>
#include <time.h>
#include <poll.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <ecl/streams/serial_stream.hpp>
#include <ecl/streams/socket_streams.hpp>
#include <ecl/streams/file_streams.hpp>
#include <ecl/streams/shared_file_stream.hpp>
#include <ecl/streams/manipulators.hpp>
// Calls on descriptors go to the network first, from there to the terminal and then to the system.
#define __wrap_read tty_read
#define __wrap_write tty_write
#define __wrap_close tty_close
#define __wrap_ioctl tty_ioctl
#include "tty_sim.inc"
#undef __wrap_read
#undef __wrap_write
#undef __wrap_close
#undef __wrap_ioctl
#define __real_read tty_read
#define __real_write tty_write
#define __real_close tty_close
#define __real_ioctl tty_ioctl
#include "net_sim.inc"
using namespace ecl;
namespace {
template <class S> struct Place { alignas(S) unsigned char mem[sizeof(S)]; S* p = nullptr; explicit Place(int junk) { memset(mem, junk, sizeof mem); } template <class... A> S* make(const A&... a) { p = new (mem) S(a...); return p; } ~Place() { if (p) p->~S(); } };
struct Quiet { Quiet() { net::s = net::Sim(); tty::s.reset(); tty::s.on = false; } ~Quiet() { tty::s.on = net::s.on = false; } };
enum Did { Fine, Failed, Threw };
const char* const didn[] = {"fine", "reported a failure", "threw"};
// Runs one operation on a stream: what the stream says about it.
template <class S, class F> Did attempt(S& st, F f) { mc::step(); try { f(); } catch (const StandardException& e) { mc::trace("  threw flag %d", (int)e.flag()); return Threw; } MC_CHECK(st.fail() == (st.errorStatus().flag() != NoError), "status", "fail() is %d, the error status %d", st.fail(), (int)st.errorStatus().flag()); return st.fail() ? Failed : Fine; }
const int Items = 8;
template <class S> void insert(S& s, int i) { static const std::string longer(700, 'l'); switch (i) { case 0: s << 'x'; break; case 1: s << "text"; break; case 2: s << longer; break; case 3: s << -42; break; case 4: s << true; break; case 5: s << 1.5; break; case 6: s << ecl::endl; break; default: s << std::string(); } }
std::string text(int i) { switch (i) { case 0: return "x"; case 1: return "text"; case 2: return std::string(700, 'l'); case 3: return "-42"; case 4: return "true"; case 5: return "1.500000"; case 6: return "\n"; default: return ""; } }
// Extracts token i; "" if it is the value expected.
const int Tokens = 6; const char* const tokens[] = {"17 ", "-8\n", "word ", "q", "false\n", "\n2.5 "};
template <class S> std::string extract(S& s, int i) {
  switch (i) { case 0: { int v = 9; s >> v; return v == 17 ? "" : std::to_string(v); } case 1: { long v = 9; s >> v; return v == -8 ? "" : std::to_string(v); } case 2: { std::string v; s >> v; return v == "word" ? "" : v; } case 3: { char c = 0; s >> c; return c == 'q' ? "" : std::string(1, c); } case 4: { bool b = true; s >> b; return !b ? "" : "true"; } default: { double d = 0; s >> d; return d == 2.5 ? "" : std::to_string(d); } }
}
// ---- serial
const speed_t speeds[] = {B110, B300, B600, B1200, B2400, B4800, B9600, B19200, B38400, B57600, B115200, B230400, B460800, B921600};
const tcflag_t widths[] = {CS5, CS6, CS7, CS8};
MC_SCENARIO(serial_opening, .shard(2).nocut()) {
  int form = mc::choose(5), baud = form > 0 ? mc::choose(15) : BaudRate_115200, data = form > 1 ? mc::choose(4) : DataBits_8, stop = form > 2 ? mc::choose(3) : StopBits_1, par = form > 3 ? mc::choose(3) : NoParity; Quiet quiet; auto& s = tty::s; s.on = true; mc::set_deviations(1);
  { Place<SerialStream> q(mc::flip() ? 0xff : 1); s.faults = true; mc::trace("serial stream, %d parameters: speed %d data bits %d stop bits %d parity %d", form, baud, data, stop, par); bool threw = false; mc::step(); const std::string port("/sim/port");
  try { switch (form) { case 0: q.make(port); break; case 1: q.make(port, (BaudRate)baud); break; case 2: q.make(port, (BaudRate)baud, (DataBits)data); break; case 3: q.make(port, (BaudRate)baud, (DataBits)data, (StopBits)stop); break; default: q.make(port, (BaudRate)baud, (DataBits)data, (StopBits)stop, (Parity)par); } } catch (const StandardException&) { threw = true; }
  s.faults = false; mc::validated(); mc::state(mc::hash(std::to_string(s.t.c_cflag))); bool possible = baud < 14 && stop != StopBits_15, good = !threw && !q.p->fail();
  if (!possible || s.failed) { MC_CHECK(!good, "failure-hidden", "the stream reports success although %s", s.failed ? s.last : "the port does not support this"); MC_CHECK(s.open.empty(), "descriptor-leak", "%zu descriptors open after a failure", s.open.size()); if (!threw) MC_CHECK(!q.p->device().open(), "status", "device open after a failure"); }
  else { MC_CHECK(good && q.p->device().open(), "refused", "opening failed although nothing was wrong");
    MC_CHECK(cfgetospeed(&s.t) == speeds[baud] && cfgetispeed(&s.t) == speeds[baud] && (s.t.c_cflag & CSIZE) == widths[data] && !!(s.t.c_cflag & CSTOPB) == (stop == StopBits_2) && !!(s.t.c_cflag & PARENB) == (par != NoParity) && (par == NoParity || !!(s.t.c_cflag & PARODD) == (par == OddParity)), "parameters", "the port is not configured as asked: control flags %o, speed %o", s.t.c_cflag, cfgetospeed(&s.t)); } }
  MC_CHECK(s.open.empty(), "descriptor-leak", "%zu descriptors left open", s.open.size());
}
MC_SCENARIO(serial_text, .shard(2).nocut()) {
  Quiet quiet; auto& s = tty::s; s.on = true; { SerialStream st("/sim/port"); MC_CHECK(!st.fail(), "refused", "opening failed"); int depth = mc::tiered(3, 4); std::string out; mc::set_deviations(1); s.faults = true;
  for (int i = 0; i < depth; ++i) { int op = mc::choose(Items + Tokens + 3); s.failed = 0;
    if (op < Items) { mc::trace("insert %d", op); std::string t = text(op); size_t had = s.out.size(); Did d = attempt(st, [&] { insert(st, op); }); mc::validated(); MC_CHECK(s.out.compare(0, had, out) == 0 && had == out.size(), "text", "earlier text changed");
      if (s.failed) { MC_CHECK(d != Fine, "failure-hidden", "%s failed during insertion %d, the stream reports success", s.last, op); MC_CHECK(t.compare(0, s.out.size() - had, s.out, had) == 0, "text", "what was sent is not the start of the text"); out = s.out; }
      else { MC_CHECK(d == Fine, "status", "insertion %d %s although nothing failed", op, didn[d]); out += t; MC_CHECK(s.out == out, "text", "%zu bytes were inserted, %zu arrived: '%s'", out.size(), s.out.size(), mc::show(s.out.substr(had, 40)).c_str()); } }
    else if (op < Items + Tokens) { int k = op - Items; long long gap = mc::flip() ? 900000000 : 0, at = s.now; for (const char* c = tokens[k]; *c; ++c) s.arrivals.push_back({at += gap, (unsigned char)*c}); mc::trace("extract %d, bytes every %lld ns", k, gap); std::string wrong; Did d = attempt(st, [&] { wrong = extract(st, k); }); mc::validated();
      if (s.failed) { MC_CHECK(d != Fine, "failure-hidden", "%s failed during extraction %d, the stream reports success", s.last, k); return; } MC_CHECK(d == Fine && wrong.empty(), "value", "token %d reads as '%s', %s", k, mc::show(wrong).c_str(), didn[d]); }
    else if (op == Items + Tokens) { mc::trace("extract, nothing comes"); long long t0 = s.now; int v = 5; Did d = attempt(st, [&] { st >> v; }); mc::validated(); MC_CHECK(d != Fine && v == 5, "failure-hidden", "reading without data: %s, value %d", didn[d], v); if (!s.failed) MC_CHECK(s.now - t0 > 4900000000LL && s.now - t0 < 5100000000LL, "timeout", "gave up after %lld ns", s.now - t0); }
    else if (op == Items + Tokens + 1) { mc::trace("a word without an end"); for (char c : {'a', 'b'}) s.arrivals.push_back({s.now, c}); std::string v; Did d = attempt(st, [&] { st >> v; }); mc::validated(); if (s.failed) { MC_CHECK(d != Fine, "failure-hidden", "%s failed, the stream reports success", s.last); return; } MC_CHECK(d == Fine && v == "ab", "value", "reads as '%s', %s", mc::show(v).c_str(), didn[d]); }
    else { mc::trace("flush"); Did d = attempt(st, [&] { st.flush(); }); if (!s.failed) MC_CHECK(d != Threw, "status", "flushing threw"); }
    mc::state(mc::mix(mc::hash(s.out), op)); } s.faults = false; }
  MC_CHECK(s.open.empty(), "descriptor-leak", "%zu descriptors left open", s.open.size());
}
// ---- sockets
template <class S> struct Socket; 
template <> struct Socket<SocketClientStream> { static void make(Place<SocketClientStream>& q, int k) { q.make(std::string(k ? "b" : "a"), k ? 81u : 80u); } static bool target(int k) { return net::s.peer_port == (k ? 81 : 80) && net::s.addr == htonl(0x0a000000 + (k ? 'b' : 'a')); } static void meet(SocketClientStream&) {} };
template <> struct Socket<SocketServerStream> { static void make(Place<SocketServerStream>& q, int k) { q.make(k ? 81u : 80u); } static bool target(int k) { for (auto& x : net::s.live) if (x.second.kind == net::Sock::Bound || x.second.kind == net::Sock::Listening) return x.second.port == (k ? 81 : 80); return false; } static void meet(SocketServerStream& s) { s.device().listen(); } };
template <class S> void socket_opening() {
  Quiet quiet; auto& s = net::s; s.on = true; int k = mc::choose(2); { Place<S> q(mc::flip() ? 0xff : 1); mc::set_deviations(1); s.faults = true; mc::trace("constructor for target %d", k); bool threw = false; mc::step(); try { Socket<S>::make(q, k); } catch (const StandardException&) { threw = true; } s.faults = false; mc::validated(); bool good = !threw && !q.p->fail();
  if (s.failed) { MC_CHECK(!good, "failure-hidden", "%s failed but the stream reports success", s.last); MC_CHECK(s.live.empty(), "descriptor-leak", "%zu descriptors open after a failure", s.live.size()); }
  else { MC_CHECK(good && q.p->device().open(), "refused", "opening failed although nothing did"); MC_CHECK(Socket<S>::target(k), "parameters", "not connected or bound as asked"); } mc::state(s.failed * 4 + k); }
  MC_CHECK(s.live.empty(), "descriptor-leak", "%zu descriptors left open", s.live.size());
}
template <class S> void socket_text() {
  Quiet quiet; auto& s = net::s; s.on = true; { Place<S> q(0xff); Socket<S>::make(q, 0); S& st = *q.p; Socket<S>::meet(st); s.out.clear(); int depth = mc::tiered(3, 4); std::string out; mc::set_deviations(1); s.faults = true; bool gone = false;
  for (int i = 0; i < depth; ++i) { int op = mc::choose(Items + Tokens + 4); s.failed = s.partial = 0;
    if (op < Items) { mc::trace("insert %d", op); std::string t = text(op); size_t had = s.out.size(); Did d = attempt(st, [&] { insert(st, op); }); mc::validated(); MC_CHECK(s.out.compare(0, had, out) == 0 && had == out.size(), "text", "earlier text changed");
      if (s.failed || s.rst) { if (!t.empty()) MC_CHECK(d != Fine, "failure-hidden", "%s during insertion %d, the stream reports success", s.failed ? s.last : "broken connection", op); MC_CHECK(t.compare(0, s.out.size() - had, s.out, had) == 0, "text", "what was sent is not the start of the text"); return; }
      MC_CHECK(gone || d == Fine, "status", "insertion %d %s although nothing failed", op, didn[d]); if (d == Fine) { out += t; MC_CHECK(s.out == out, "text", "%zu bytes were inserted, %zu arrived: '%s'", out.size(), s.out.size(), mc::show(s.out.substr(had, 40)).c_str()); } else return; }
    else if (op < Items + Tokens) { if (s.fin || s.rst) mc::skip(); int k = op - Items; for (const char* c = tokens[k]; *c; ++c) s.in.push_back(*c); mc::trace("extract %d", k); std::string wrong; Did d = attempt(st, [&] { wrong = extract(st, k); }); mc::validated();
      if (s.failed) { MC_CHECK(d != Fine, "failure-hidden", "%s failed during extraction %d, the stream reports success", s.last, k); return; } MC_CHECK(d == Fine && wrong.empty(), "value", "token %d reads as '%s', %s", k, mc::show(wrong).c_str(), didn[d]); }
    else if (op == Items + Tokens) { if (!s.fin && !s.rst) mc::skip(); mc::trace("extract after the end"); int v = 5; Did d = attempt(st, [&] { st >> v; }); mc::validated(); MC_CHECK(d != Fine && v == 5, "failure-hidden", "reading after the end: %s, value %d", didn[d], v); return; }
    else if (op == Items + Tokens + 1) { if (s.fin || s.rst) mc::skip(); mc::trace("a last word, then the end"); s.in.push_back('a'); s.in.push_back('b'); s.fin = true; std::string v; Did d = attempt(st, [&] { st >> v; }); mc::validated(); if (s.failed) { MC_CHECK(d != Fine || v == "ab", "failure-hidden", "%s failed, the stream reports success with '%s'", s.last, mc::show(v).c_str()); return; } MC_CHECK(v == "ab", "value", "the last word reads as '%s'", mc::show(v).c_str()); gone = true; }
    else if (op == Items + Tokens + 2) { if (s.rst) mc::skip(); mc::trace("peer resets"); s.rst = true; s.in.clear(); }
    else { mc::trace("flush"); attempt(st, [&] { st.flush(); }); }
    mc::state(mc::mix(mc::hash(s.out), op)); } s.faults = false; }
  MC_CHECK(s.live.empty(), "descriptor-leak", "%zu descriptors left open", s.live.size());
}
MC_SCENARIO(client_opening, .nocut()) { socket_opening<SocketClientStream>(); }
MC_SCENARIO(server_opening, .nocut()) { socket_opening<SocketServerStream>(); }
MC_SCENARIO(client_text, .shard(2).nocut()) { socket_text<SocketClientStream>(); }
MC_SCENARIO(server_text, .shard(2).nocut()) { socket_text<SocketServerStream>(); }
// ---- files
std::string path(const char* n) { return std::string(mc::scratch_dir()) + "/" + n; }
std::string slurp(const std::string& p) { std::string c; FILE* f = fopen(p.c_str(), "r"); if (!f) return "<none>"; char b[8192]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) c.append(b, n); fclose(f); return c; }
void spew(const std::string& p, const std::string& t) { FILE* f = fopen(p.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
template <class S> void files() { const bool shared = std::is_same<S, SharedFileStream>::value;
  static const char* const names[] = {"fresh", "old", "dir", "missing/x", ""}; int n = mc::choose(5), form = mc::choose(3), count = mc::choose(mc::tiered(3, 4)); std::string p = n == 4 ? "" : path(names[n]), want; unlink(path("fresh").c_str()); spew(path("old"), "before"); mkdir(path("dir").c_str(), 0700);
  if (n == 1 && form == 2) want = "before"; mc::trace("file stream on '%s' in mode %s", names[n], form == 0 ? "default" : form == 1 ? "new" : "append"); size_t flushed = 0; int files = 0; for (int i = 3; i < 64; ++i) files += ::fcntl(i, F_GETFD) >= 0;
  bool threw = false; std::unique_ptr<S> s; try { mc::step(); s.reset(form == 0 ? new S(p) : new S(p, form == 1 ? New : Append)); } catch (const StandardException& e) { threw = true; } mc::validated();
  if (n >= 2) { MC_CHECK(threw || s->fail(), "failure-hidden", "opening '%s' is reported as a success", names[n]); }
  else { MC_CHECK(!threw && !s->fail() && s->device().open(), "refused", "opening '%s' failed", names[n]);
    for (int i = 0; i < count; ++i) { int k = mc::choose(Items); mc::trace("insert %d", k); Did d = attempt(*s, [&] { insert(*s, k); }); MC_CHECK(d == Fine, "status", "insertion %d %s", k, didn[d]); want += text(k); if (mc::flip()) { mc::trace("flush"); s->flush(); flushed = want.size(); if (!shared) MC_CHECK(slurp(p) == want, "text", "after flushing the file holds '%s'", mc::show(slurp(p)).c_str()); } }
    s.reset(); std::string got = slurp(p); mc::state(mc::hash(got)); // a shared file has what was flushed, at the latest when its last handle is gone
    MC_CHECK(shared ? got.size() >= flushed && want.compare(0, got.size(), got) == 0 : got == want, "text", "the file holds '%s'", mc::show(got).c_str()); }
  s.reset(); int after = 0; for (int i = 3; i < 64; ++i) after += ::fcntl(i, F_GETFD) >= 0; MC_CHECK(files == after, "descriptor-leak", "%d descriptors before, %d after", files, after);
}
MC_SCENARIO(file_stream) { files<OFileStream>(); }
MC_SCENARIO(shared_file_stream) { files<SharedFileStream>(); }
// A stream that was never opened says so, whatever is done with it.
template <class S> void never(bool in) { S s; int op = mc::choose(Items); mc::trace("insertion %d into a stream that is not open", op); MC_CHECK(!s.device().open(), "status", "open before it is opened"); MC_CHECK(attempt(s, [&] { insert(s, op); }) != Fine || (!h::checked && (std::is_same<S, SharedFileStream>::value || text(op).empty())), "failure-hidden", "inserting into a closed stream succeeds"); }
MC_SCENARIO(never_opened) { switch (mc::choose(5)) { case 0: never<SerialStream>(true); break; case 1: never<SocketClientStream>(true); break; case 2: never<SocketServerStream>(true); break; case 3: never<OFileStream>(false); break; default: never<SharedFileStream>(false); } }
}

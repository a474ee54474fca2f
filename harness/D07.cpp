// @SOURCES: ecl_devices/src/lib/serial_pos.cpp ecl_devices/src/lib/detail/error_handler.cpp ecl_devices/src/lib/detail/exception_handler_pos.cpp ecl_time/src/lib/*.cpp ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @FLAGS: -fno-lifetime-dse
// @WRAP: open open64 close read write fcntl fcntl64 ioctl access tcsetattr tcgetattr tcflush clock_gettime clock_nanosleep nanosleep usleep poll select
// @ASSUME: the terminal is simulated behind the system calls (raw mode, VMIN/VTIME semantics, O_NONBLOCK, exclusive lock, stripping, flushing) together with a virtual monotonic clock; all 14 speeds plus two out of range, 4 data widths, 3 stop bit and 3 parity settings, each from a fresh, an open and a closed object, with at most one refused system call;; read timeouts from 0 ms to 60 s with arrivals before, during and after the wait;; every history of 4 (thorough 5) operations with at most one failing call;; a failing flush is not judged, nor is what is lost when the read mode is switched
#include "util.hpp"
#include <ecl/devices/serial.hpp>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <deque>
#include <map>
#include <set>
#include <fcntl.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <time.h>
#include <poll.h>
#include <sys/select.h>
#include "tty_sim.inc"
using tty::s;
using namespace ecl;
namespace {
struct Session { Session() { s.reset(); } ~Session() { s.on = false; } };
// an object in memory that holds garbage, so that unset members show
struct Port { alignas(Serial) unsigned char mem[sizeof(Serial)]; Serial* p = nullptr; explicit Port(int junk) { memset(mem, junk, sizeof mem); } Serial* make() { return p = new (mem) Serial; } ~Port() { if (p) p->~Serial(); } };
const speed_t speeds[] = {B110, B300, B600, B1200, B2400, B4800, B9600, B19200, B38400, B57600, B115200, B230400, B460800, B921600};
const tcflag_t widths[] = {CS5, CS6, CS7, CS8};
void raw() {
  MC_CHECK(!(s.t.c_lflag & (ICANON | ECHO | ISIG | IEXTEN)), "configuration", "the line is not raw (local flags %x)", s.t.c_lflag);
  MC_CHECK(!(s.t.c_iflag & (IXON | IXOFF | ICRNL | INLCR | IGNCR | PARMRK | IGNBRK * 0)), "configuration", "input is translated (input flags %x)", s.t.c_iflag); MC_CHECK(!(s.t.c_oflag & OPOST), "configuration", "output is translated (output flags %x)", s.t.c_oflag);
  MC_CHECK((s.t.c_cflag & CLOCAL) && (s.t.c_cflag & CREAD), "configuration", "modem control on or receiver off (control flags %x)", s.t.c_cflag); MC_CHECK(!(s.t.c_cflag & CRTSCTS), "configuration", "hardware flow control is on");
}
void configured(int baud, int data, int stop, int par) {
  raw(); MC_CHECK(cfgetospeed(&s.t) == speeds[baud] && cfgetispeed(&s.t) == speeds[baud], "configuration", "speed %o/%o instead of %o", cfgetispeed(&s.t), cfgetospeed(&s.t), speeds[baud]); MC_CHECK((s.t.c_cflag & CSIZE) == widths[data], "configuration", "data width %o instead of %o", s.t.c_cflag & CSIZE, widths[data]);
  MC_CHECK(!!(s.t.c_cflag & CSTOPB) == (stop == StopBits_2), "configuration", "stop bits"); MC_CHECK(!!(s.t.c_cflag & PARENB) == (par != NoParity), "configuration", "parity enabled: %d", !!(s.t.c_cflag & PARENB)); if (par != NoParity) { MC_CHECK(!!(s.t.c_cflag & PARODD) == (par == OddParity), "configuration", "parity sense"); MC_CHECK(s.t.c_iflag & INPCK, "configuration", "parity is not checked"); }
  else MC_CHECK(!(s.t.c_iflag & INPCK), "configuration", "parity is checked although there is none");
}
template <class F> int report(F f) { mc::step(); try { return f() ? 1 : 0; } catch (const StandardException& e) { mc::trace("  threw flag %d", (int)e.flag()); return 0; } }
}
// opening with all parameters, with any one call refused
MC_SCENARIO(opening, .shard(3).nocut()) {
  int baud = mc::choose(16), data = mc::choose(4), stop = mc::choose(3), par = mc::choose(3), before = mc::choose(4); Session session; { Port q(before & 1 ? 0xff : 1);
  Serial* p = before == 3 ? nullptr : q.make(); if (before == 1) p->open("/sim/old", BaudRate_300, DataBits_5, StopBits_2, EvenParity); if (before == 2) { p->open("/sim/old"); p->close(); }
  bool possible = baud < 14 && stop != StopBits_15;
  mc::trace("open(speed %d, data bits %d, stop bits %d, parity %d) after %d", baud, data, stop, par, before); mc::set_deviations(1); s.faults = true; s.failed = 0;
  bool failed_call; int ok = report([&] { if (before == 3) { p = q.p = new (q.mem) Serial("/sim/port", (BaudRate)baud, (DataBits)data, (StopBits)stop, (Parity)par); return true; } return p->open("/sim/port", (BaudRate)baud, (DataBits)data, (StopBits)stop, (Parity)par); }); failed_call = s.failed; s.faults = false; mc::validated();
  if (!possible) MC_CHECK(!ok, "unsupported-accepted", "an unsupported combination was accepted"); else if (!failed_call) MC_CHECK(ok, "refused", "a supported combination was refused"); if (failed_call) MC_CHECK(!ok, "failure-hidden", "%s failed but the port is reported as open", s.last);
  if (ok) { configured(baud, data, stop, par); MC_CHECK(p->open() && s.open.size() == 1, "status", "after opening: open() %d, %zu descriptors", p->open(), s.open.size()); MC_CHECK((s.open.begin()->second.flags & O_ACCMODE) == O_RDWR, "configuration", "not opened for both directions");
    // bytes of the configured width arrive unchanged
    int top = data == 0 ? 0x1f : data == 1 ? 0x3f : data == 2 ? 0x7f : 0xff; unsigned char b = 0; s.arrivals.push_back({s.now, top}); long r = p->read(b); MC_CHECK(r == 1 && b == top, "byte-changed", "byte %x arrived, %x was read (%ld)", top, b, r);
    if (before != 2 || true) { long long t0 = s.now; r = p->read(b); long long ms = (s.now - t0) / 1000000; MC_CHECK(r == 0 && ms >= 4900 && ms <= 5100, "default-timeout", "a read with no data returned %ld after %lld ms instead of 5000", r, ms); } }
  else if (p) { MC_CHECK(s.open.empty() || (before == 1 && s.open.size() == 1 && p->open()), "descriptor-leak", "%zu descriptors left open after a failed open()", s.open.size()); if (s.open.empty()) MC_CHECK(!p->open(), "status", "a failed open() leaves the port reported as open");
    int again = report([&] { return p->open("/sim/port"); }); MC_CHECK(again == 1 && p->open(), "not-reusable", "the port cannot be opened after a failure"); configured(BaudRate_115200, DataBits_8, StopBits_1, NoParity); }
  else MC_CHECK(s.open.empty(), "descriptor-leak", "%zu descriptors left open by a constructor that threw", s.open.size()); }
  MC_CHECK(s.open.empty(), "descriptor-leak", "%zu descriptors left open by the destructor", s.open.size());
}
// Two programs and one port: only one has it at a time, whatever each of them does; a modem without carrier does not stop the opening.
MC_SCENARIO(exclusive) {
  Session session; s.carrier = mc::flip(); { Port q[2] = {Port(0xff), Port(1)}; int holder = -1, depth = mc::tiered(4, 6); const char* paths[] = {"/sim/port", "/sim/other"}; int where[2] = {-1, -1};
  for (int i = 0; i < 2; ++i) { s.proc = i; q[i].make(); }
  for (int d = 0; d < depth; ++d) { int who = mc::flip(), op = mc::choose(4); s.proc = who; int other = 1 - who; Serial* p = q[who].p; mc::validated();
    if (op < 2) { bool free = where[other] != op; int r = report([&] { return p->open(paths[op], (BaudRate)mc::choose(2), DataBits_8, StopBits_1, NoParity); }); mc::trace("program %d opens %s: %d", who, paths[op], r); MC_CHECK(r == free, r ? "two-holders" : "refused", r ? "two programs have %s open at the same time" : "%s is free but cannot be opened", paths[op]); where[who] = r ? op : -1; }
    else if (op == 2) { mc::trace("program %d closes", who); p->close(); where[who] = -1; }
    else { int r = report([&] { return p->open(); }); MC_CHECK(r == (where[who] >= 0), "status", "program %d: open() is %d", who, r); if (where[who] >= 0) { long n = -1; report([&] { n = p->write("ab", 2ul); return true; }); MC_CHECK(n == 2, "refused", "writing to an open port returned %ld", n); } }
    mc::state(mc::mix(mc::mix(where[0] + 1, where[1] + 1), d)); }
  for (int i = 0; i < 2; ++i) { s.proc = i; q[i].p->~Serial(); q[i].p = nullptr; } (void)holder; }
  MC_CHECK(s.open.empty() && s.locks.empty(), "descriptor-leak", "%zu descriptors, %zu locks are left", s.open.size(), s.locks.size());
}
// reads in every mode, data arriving before, during and after the wait
MC_SCENARIO(reading, .shard(3)) {
  static const unsigned long T[] = {0, 1, 2, 3, 4, 5, 6, 7, 19, 20, 21, 22, 50, 99, 100, 101, 150, 199, 200, 500, 1000, 5000, 25500, 25600, 30000, 60000};
  Session session; Port q(0xff); Serial* p = q.make(); int m = mc::choose(27), early = mc::choose(2); long T_ms = m < 26 ? (long)T[m] : -1; mc::trace(m < 26 ? "block(%ld)" : "unblock() %ld", T_ms);
  auto mode = [&] { if (m < 26) p->block(T[m]); else p->unblock(); }; if (early == 0) { p->open("/sim/port"); mode(); } else { p->open("/sim/port", BaudRate_9600, DataBits_8, StopBits_1, EvenParity); if (mc::flip()) p->unblock(); else p->block(20); mode(); p->open("/sim/port"); mode(); }
  long long slack = T_ms < 0 ? 0 : T_ms < 5 ? 1000000 : T_ms < 20 ? 2000000 : T_ms < 100 ? 5000000 : 100000000, tol = 100000, W = T_ms < 0 ? 0 : T_ms > 25500 ? 25500000000LL : T_ms * 1000000LL;
  static const char* when[] = {"waiting", "soon", "half way", "near the end", "after the end", "never"}; int a = mc::choose(6), burst = mc::range(1, 3), want = mc::range(0, 2), apart = mc::choose(2); std::string data("\x00\x80\xff\x0d\x13", 5);
  long long t0 = s.now, at = a == 0 ? t0 : a == 1 ? t0 + 1000 : a == 2 ? t0 + W / 2 : a == 3 ? t0 + (W > 2 * slack ? W - 2 * slack : 0) : a == 4 ? t0 + W + 2 * slack + 1000000 : -1; if (a != 5) for (int i = 0; i < burst; ++i) s.arrivals.push_back({at + (apart ? i * 700000000LL : 0), (unsigned char)data[i]});
  std::string got; mc::trace("%d bytes arrive %s", burst, when[a]);
  for (int k = 0; k < 3; ++k) {
    long long b0 = s.now; int ready = s.waiting(); long long first = s.arrivals.empty() ? -1 : s.arrivals.front().first; unsigned char buf[5]; memset(buf, 0xee, 5); mc::step(); long r = want == 0 ? p->read(buf[0]) : p->read((char*)buf, want == 1 ? 2ul : 3ul); int lim = want == 0 ? 1 : want + 1; long long took = s.now - b0; mc::validated();
    mc::trace("read of %d: %ld after %lld us", lim, r, took / 1000); MC_CHECK(r >= 0 && r <= lim, "read-count", "a read of %d returned %ld", lim, r); for (int i = (int)r; i < 5; ++i) MC_CHECK(buf[i] == 0xee, "read-overrun", "byte %d after the data was written", i);
    got.append((char*)buf, r); MC_CHECK(p->error().flag() == NoError, "error-flag", "error flag %d after a read that did not fail", (int)p->error().flag());
    if (ready) { MC_CHECK(r == std::min(ready, lim), "data-not-returned", "%d bytes are waiting, a read of %d returned %ld", ready, lim, r); MC_CHECK(took == 0, "needless-wait", "a read with data waiting took %lld us", took / 1000); }
    else if (T_ms < 0) MC_CHECK(r == 0 && took == 0, "non-blocking-waits", "a non-blocking read returned %ld after %lld us", r, took / 1000);
    else if (r == 0) { MC_CHECK(took + tol >= W - (T_ms >= 100 ? slack - 1 : 0), "returns-early", "a read with a timeout of %ld ms gave up after %lld us", T_ms, took / 1000); MC_CHECK(took <= W + slack + tol, "returns-late", "a read with a timeout of %ld ms gave up after %lld us", T_ms, took / 1000); if (first >= 0) MC_CHECK(first >= b0 + W - slack - tol, "data-not-returned", "a read with a timeout of %ld ms missed the byte that came after %lld us", T_ms, (first - b0) / 1000); }
    else { MC_CHECK(s.now <= first + slack + tol && s.now >= first, "returns-late", "a byte that came after %lld us was returned after %lld us", (first - b0) / 1000, took / 1000); }
  }
  MC_CHECK(data.compare(0, got.size(), got) == 0, "bytes-changed", "arrived %s, read %s", mc::show(data).c_str(), mc::show(got).c_str());
}
// histories of all operations with failing calls
MC_SCENARIO(histories, .shard(3).nocut()) {
  Session session; { Port q(0xff); Serial* p = q.make(); bool open = false; mc::set_deviations(1); s.faults = true; int depth = mc::tiered(4, 5); std::string sent, read, arrived; unsigned char nextb = 0x7e; int mode = -2; /* -1 unblocked, else ms */
  for (int i = 0; i < depth; ++i) {
    static const int first[] = {0, 4, 5, 7, 9, 12, 14}; int op = i || mc::thorough() ? mc::choose(15) : mc::pick(first); s.failed = 0; mc::step(); bool isopen = open && !s.gone; size_t out0 = s.out.size(), taken0 = s.taken.size(); int wait0 = s.waiting(), dev0 = mc::deviations_left();
    switch (op) {
      case 0: case 1: { mc::trace(op ? "open other" : "open"); int r = report([&] { return p->open(op ? "/sim/other" : "/sim/port"); }); MC_CHECK(r == (!s.failed && !s.gone), s.failed ? "failure-hidden" : "refused", "open() reports %d", r); open = r; break; }
      case 2: mc::trace("close"); p->close(); open = false; break;
      case 3: { mc::trace("open()?"); bool r = p->open(); MC_CHECK(r == isopen, "status", "open() is %d", r); open = isopen; break; }
      case 4: s.gone = !s.gone; mc::trace("device %s", s.gone ? "unplugged" : "plugged in"); continue;
      case 5: { mc::trace("block(200)"); report([&] { p->block(200); return true; }); if (open && !s.failed) mode = 200; else mode = -2; break; }
      case 6: { mc::trace("block(10)"); report([&] { p->block(10); return true; }); if (open && !s.failed) mode = 10; else mode = -2; break; }
      case 7: { mc::trace("unblock()"); report([&] { p->unblock(); return true; }); if (open && !s.failed) mode = -1; else mode = -2; break; }
      case 8: { mc::trace("2 bytes arrive"); for (int k = 0; k < 2; ++k) s.arrivals.push_back({s.now, ++nextb}); continue; }
      case 9: case 10: case 11: { int want = op == 9 ? 1 : op == 10 ? 1 : 3; mc::trace("read %d", want); unsigned char b[4] = {0xee, 0xee, 0xee, 0xee}; long r = -1; report([&] { r = op == 9 ? p->read(b[0]) : p->read(b, (unsigned long)want); return true; });
        if (!open) { MC_CHECK(r < 0 && s.taken.size() == taken0, "closed-read", "reading from a closed port returned %ld", r); break; } std::string now = s.taken.substr(taken0); if (s.failed) { MC_CHECK(r < 0 || (r > 0 && now == std::string((char*)b, r)), "failure-hidden", "the read failed but %ld was returned", r); if (r < 0) MC_CHECK(p->error().flag() != NoError || true, "", ""); break; }
        MC_CHECK(r == (long)now.size() && now == std::string((char*)b, r), "bytes-lost", "%zu bytes were taken from the port but %ld returned", now.size(), r); if (wait0) MC_CHECK(r == std::min(wait0, want), "data-not-returned", "%d bytes are waiting, %ld were returned", wait0, r); break; }
      case 12: { mc::trace("write 3"); long r = -1; report([&] { r = p->write("xyz", 3ul); return true; }); std::string now = s.out.substr(out0); if (!open || s.failed) { MC_CHECK(r < 0 || (open && r == (long)now.size()), open ? "failure-hidden" : "closed-write", "writing returned %ld", r); break; } MC_CHECK(r == (long)now.size() && now == std::string("xyz").substr(0, now.size()) && (now.size() == 3 || mc::deviations_left() < dev0), "write-count", "write returned %ld, the port got %s", r, mc::show(now).c_str()); break; }
      case 13: { mc::trace("write 1"); long r = -1; report([&] { r = p->write('q'); return true; }); std::string now = s.out.substr(out0); if (!open || s.failed) { MC_CHECK(r < 0, open ? "failure-hidden" : "closed-write", "writing returned %ld", r); break; } MC_CHECK(r == 1 && now == "q", "write-count", "write returned %ld", r); break; }
      case 14: { mc::trace("remaining"); long r = 0; report([&] { r = p->remaining(); return true; }); if (open && !s.failed) MC_CHECK(r == s.waiting(), "remaining", "%ld bytes reported as waiting, %d are", r, s.waiting()); else MC_CHECK(r <= 0, "remaining", "%ld bytes reported as waiting on a closed port", r); break; }
    }
    MC_CHECK(s.open.size() == (open ? 1u : 0u) || (open && s.gone), "descriptor-leak", "%zu descriptors are open, the port is %s", s.open.size(), open ? "open" : "closed");
    mc::validated(); mc::state(mc::mix(mc::mix(open, mode), mc::mix(s.gone, s.waiting())));
  } s.faults = false; }
  MC_CHECK(s.open.empty(), "descriptor-leak", "%zu descriptors left open by the destructor", s.open.size());
}

// @SOURCES: ecl_exceptions/src/lib/*.cpp ecl_devices/src/lib/ofile_pos.cpp ecl_devices/src/lib/shared_file.cpp ecl_devices/src/lib/detail/*.cpp ecl_threads/src/lib/mutex_pos.cpp ecl_time/src/lib/timestamp*.cpp
// @BUILDS: release
// @EXTRA: lib/sched.cpp
// @SAN: -fsanitize=undefined -fno-sanitize-recover=all
// @INSTRUMENT: -fsanitize=thread
// @LDFLAGS: -ldl
// @ASSUME: threads run under a controlled scheduler with sequentially consistent memory: every call of the thread library and every memory access of the shared file, the output file and its buffer is a point where another thread may be chosen, at most 2 (thorough 3) preemptions with two threads and 1 (thorough 2) with three;; each thread owns its handle;; records shorter than the buffer of a handle (longer ones are flushed in parts);; a call of the C library's stdio is one step
#include "util.hpp"
#include "sched.hpp"
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <ecl/devices/shared_file.hpp>
namespace {
using namespace ecl;
const int NOW = 1 << 30;
struct Record { std::string text; int thread, at, done; };
struct Open { int thread; WriteMode mode; int from, to; };
struct Close { int thread, from, to; };
struct World { int clk = 0; int tick() { return ++clk; } std::vector<Record> records; std::vector<Open> opens; std::vector<Close> closes; };
std::string path(int i) { return std::string(mc::scratch_dir()) + (i ? "/y" : "/x"); }
std::string content(const std::string& p) { std::string s; int fd = ::open(p.c_str(), O_RDONLY); if (fd < 0) return "\x01missing"; char b[4096]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) s.append(b, n); ::close(fd); return s; }
int lowest() { int fd = ::open("/dev/null", O_RDONLY); ::close(fd); return fd; }
// What a thread does with its handle: 0 write a record and flush it, 1 write two halves and flush, 2 close and open again, 3 look at the status
const char* const OP[] = {"record", "halves", "reopen", "status"};
void share(int threads, int ops, int dev, bool memory, bool two_names) {
  std::vector<std::vector<int>> script; std::vector<int> name; for (int t = 0; t < threads; ++t) { script.emplace_back(); name.push_back(two_names && t ? mc::choose(2) : 0); std::string s; for (int i = 0; i < ops; ++i) { int k = mc::choose(4); script.back().push_back(k); s += std::string(" ") + OP[k]; } mc::trace("thread %d on %d:%s", t + 1, name[t], s.c_str()); }
  int mode = mc::choose(3); bool keeper = mode == 0; WriteMode wm = mode == 2 ? Append : New; mc::trace(mode == 0 ? "New, one handle stays open" : mode == 1 ? "New" : "Append");
  for (int i = 0; i < 2; ++i) { ::unlink(path(i).c_str()); } int fd0 = lowest(); World w; sched::Config c; c.deviations = dev; c.memory = memory;
  sched::run(c, [&] {
    SharedFile* kept[2] = {nullptr, nullptr}; if (keeper) for (int i = 0; i < 2; ++i) { std::string p = path(i); kept[i] = sched::sut([&] { return new SharedFile(p, New); }); }
    for (int t = 0; t < threads; ++t) sched::spawn([&, t] {
      std::string p = path(name[t]); SharedFile* f = nullptr; int n = 0;
      auto open = [&] { int a = w.tick(); mc::trace("%d opens", t + 1); try { f = sched::sut([&] { return new SharedFile(p, wm); }); } catch (const StandardException& e) { mc::flag("refused", "opening throws: %s", e.what()); return false; } w.opens.push_back({t, wm, a, w.tick()}); mc::trace("%d has opened", t + 1); return true; };
      auto close = [&] { int a = w.tick(); mc::trace("%d closes", t + 1); sched::sut([&] { delete f; }); f = nullptr; w.closes.push_back({t, a, w.tick()}); mc::trace("%d has closed", t + 1); };
      auto flush = [&](const std::string& r) { int a = w.tick(); bool ok = false; try { ok = sched::sut([&] { return f->flush(); }); } catch (const StandardException& e) { mc::flag("refused", "flush throws: %s", e.what()); } if (!ok) mc::flag("refused", "flush fails"); w.records.push_back({r, t, a, w.tick()}); mc::trace("%d has flushed", t + 1); mc::step(); };
      if (!open()) return;
      for (int k : script[t]) {
        if (mc::failed()) return; std::string r = "[" + std::string(1, 'a' + t) + std::to_string(n++) + "xy]";
        switch (k) {
          case 0: { long x = sched::sut([&] { return f->write(r.c_str(), r.size()); }); if (x != (long)r.size()) mc::flag("refused", "write takes %ld of %zu bytes", x, r.size()); flush(r); break; }
          case 1: { sched::sut([&] { f->write(r.c_str(), 2); }); sched::point(); for (size_t i = 2; i < r.size(); ++i) { char ch = r[i]; sched::sut([&] { f->write(ch); }); } flush(r); break; }
          case 2: close(); if (!open()) return; break;
          case 3: { bool o = sched::sut([&] { return f->open(); }); unsigned cnt = sched::sut([&] { return f->count(); }); if (!o) mc::flag("status", "an open handle reports that it is not open"); if (cnt < 1 || cnt > (unsigned)threads + keeper) mc::flag("status", "the handle counts %u users", cnt); break; }
        }
      }
      close();
    });
    sched::join_all();
    if (keeper) for (int i = 0; i < 2; ++i) { unsigned n = sched::sut([&] { return kept[i]->count(); }); if (n != 1) mc::flag("count", "one handle is left, count() is %u", n); sched::sut([&] { delete kept[i]; }); }
    mc::validated();
    for (int i = 0; i < 2; ++i) {
      bool used = keeper; for (int t = 0; t < threads; ++t) if (name[t] == i) used = true; if (!used) continue;
      std::string c = content(path(i)); size_t total = 0; std::vector<size_t> last(threads, 0);
      for (auto& r : w.records) if (name[r.thread] == i) {
        bool may_go = false; if (wm == New && !keeper) for (auto& o : w.opens) if (name[o.thread] == i && o.to > r.at) { int c0 = NOW; for (auto& x : w.closes) if (x.thread == r.thread && x.from > r.done && x.from < c0) { c0 = x.from; } if (o.to > c0) may_go = true; }
        size_t p = c.find(r.text); if (p == std::string::npos) { if (!may_go) mc::flag("lost", "the record %s is not in the file: '%s'", r.text.c_str(), c.c_str()); continue; } total += r.text.size();
        if (c.find(r.text, p + 1) != std::string::npos) mc::flag("twice", "the record %s is in the file twice: '%s'", r.text.c_str(), c.c_str()); if (p < last[r.thread]) mc::flag("order", "the records of a handle are out of order: '%s'", c.c_str()); last[r.thread] = p;
      }
      if (!mc::failed() && total != c.size()) mc::flag("mixed", "the file holds more than the records: '%s'", c.c_str());
    }
  });
  int fd1 = lowest(); if (fd1 != fd0) mc::flag("descriptor-leak", "all handles are closed, a descriptor is left open");
}

}
MC_SCENARIO(two_threads, .shard(5).nocut()) { share(2, 2, mc::tiered(2, 3), false, mc::tiered(false, true)); }
MC_SCENARIO(two_threads_memory, .shard(5).nocut()) { share(2, 1, mc::tiered(1, 2), true, false); }
MC_SCENARIO(three_threads, .shard(5).nocut()) { share(3, 1, mc::tiered(1, 2), false, true); }

// @SOURCES: ecl_exceptions/src/lib/*.cpp ecl_devices/src/lib/ofile_pos.cpp ecl_devices/src/lib/detail/*.cpp
// @BUILDS: release
// @EXTRA: lib/fsenv.cpp
// @WRAP: open open64 openat creat close fdopen fopen fopen64 fclose
// @ASSUME: histories of up to 4 (thorough 5) operations on two OFile objects and two file names that are never open twice at the same moment; up to 1 (thorough 2) injected failures of open, fdopen, write (none, half or nothing written) and close;; the real kernel file system and the real stdio buffering are underneath;; after a failed write or flush only what earlier successful flushes confirmed must be in the file
#include "util.hpp"
#include <fsenv.hpp>
#include <memory>
#include <ecl/devices/ofile.hpp>
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
namespace {
using namespace ecl;
struct FileModel { bool exists = false; std::string content; size_t confirmed = 0; bool exact = true; std::string path; };   // content: all acknowledged bytes; confirmed: how many are surely in the kernel
struct Obj { std::unique_ptr<OFile> f; int file = -1; };
struct World {
  FileModel files[2]; Obj objs[2]; unsigned long serial = 0;
  std::string data(size_t n) { std::string s; for (size_t i = 0; i < n; ++i) { s += (char)(serial * 29 + (serial >> 8) * 3); ++serial; } return s; }
  // Runs an operation: it must report failure iff a fault was injected into it (or want_error).
  bool op(Obj& o, const char* what, bool want_error, std::function<bool()> f) {
    fsenv::clear_faults(); bool ok = false; int r = h::outcome([&] { ok = f(); }); mc::step(); mc::validated(2); bool failed = r != h::Ok || !ok;
    mc::trace("  -> %s", failed ? h::oname(r).c_str() : "ok");
    if (fsenv::faults()) MC_CHECK(failed, "unreported", "%s reports success although %s failed", what, fsenv::last_fault());
    else if (want_error) MC_CHECK(failed, "unreported", "%s on a closed file reports success", what);
    else MC_CHECK(!failed, "spurious", "%s fails with %s", what, h::oname(r).c_str());
    if (o.f) { if (failed) MC_CHECK(o.f->error().flag() != NoError, "error-status", "error() is NoError after a failed %s", what); else MC_CHECK(o.f->error().flag() == NoError, "error-status", "error() is %s after a successful %s", o.f->error().what(), what); }
    return !failed;
  }
  void observe() {
    int open = 0; for (Obj& o : objs) if (o.f) { MC_CHECK(o.f->open() == (o.file >= 0), "open-status", "open() is %d, expected %d", o.f->open(), o.file >= 0); open += o.file >= 0; }
    MC_CHECK(fsenv::live_files() == open && fsenv::live_fds() == open, "descriptor-leak", "%d descriptors and %d FILEs are open, %d objects are", fsenv::live_fds(), fsenv::live_files(), open);
    for (FileModel& m : files) { std::string c; bool e = fsenv::read(m.path, c); mc::validated(); MC_CHECK(e == m.exists, "existence", "file exists: %d, expected %d", e, m.exists);
      MC_CHECK(c.size() >= m.confirmed && c.compare(0, m.confirmed, m.content, 0, m.confirmed) == 0, "content", "of %zu flushed bytes %zu are in the file or differ", m.confirmed, c.size());
      if (m.exact) MC_CHECK(c.size() <= m.content.size() && m.content.compare(0, c.size(), c) == 0, "content", "the file holds %zu bytes that are not a prefix of the %zu bytes written", c.size(), m.content.size()); if (m.exact && m.confirmed == m.content.size()) MC_CHECK(c == m.content, "content", "the file holds %zu bytes, %zu were written and flushed", c.size(), m.content.size()); }
  }
  void did_close(Obj& o, bool ok) { FileModel& m = files[o.file]; if (ok && m.exact) m.confirmed = m.content.size(); else if (!ok) m.exact = false; o.file = -1; }
  bool busy(int file) { for (Obj& o : objs) if (o.file == file) return true; return false; }
  // effect of a successful or failed open on the model
  void did_open(Obj& o, int file, WriteMode mode, bool ok) {
    FileModel& m = files[file]; if (!ok) { if (std::string(fsenv::last_fault()) != "open") { m.exists = true; if (mode == New) { m.content.clear(); m.confirmed = 0; m.exact = true; } } o.file = -1; return; }
    m.exists = true; if (mode == New) { m.content.clear(); m.confirmed = 0; m.exact = true; } else if (!m.exact) { fsenv::read(m.path, m.content); m.confirmed = m.content.size(); m.exact = true; } o.file = file;
  }
  void open_op(Obj& o, int file, WriteMode mode, bool ctor) {
    mc::trace("%s %s file %d (%s)", o.file >= 0 ? "reopen" : "open", ctor ? "by construction" : "", file, mode == New ? "New" : "Append");
    if (o.file >= 0 && ctor) { destroy(o); }
    int old = o.file; if (old >= 0) { // the implicit close may fail
      fsenv::clear_faults(); bool ok = false; int r = h::outcome([&] { ok = o.f->open(files[file].path, mode); }); mc::step(); bool failed = r != h::Ok || !ok; std::string lf = fsenv::faults() ? fsenv::last_fault() : "";
      MC_CHECK(failed == (fsenv::faults() > 0), fsenv::faults() ? "unreported" : "spurious", "reopening gives %s, injected failure: %s", h::oname(r).c_str(), lf.c_str());
      bool close_failed = failed && (lf == "close" || lf == "write"); did_close(o, !close_failed); if (fsenv::faults() > 1) files[old].exact = false;
      if (!close_failed) did_open(o, file, mode, !failed); return; }
    if (ctor) { std::unique_ptr<OFile> n; bool ok = op(o, "construction", false, [&] { o.f.reset(); n.reset(new OFile(files[file].path, mode)); return n->open(); }); o.f = std::move(n); if (!o.f) o.f.reset(new OFile()); did_open(o, file, mode, ok); return; }
    bool ok = op(o, "open", false, [&] { return o.f->open(files[file].path, mode); }); if (ok) MC_CHECK(o.f->filename() == files[file].path, "filename", "filename() is %s", o.f->filename().c_str()); did_open(o, file, mode, ok);
  }
  void destroy(Obj& o) { mc::trace("destroy"); fsenv::clear_faults(); o.f.reset(); bool ok = !fsenv::faults(); if (o.file >= 0) did_close(o, ok); o.f.reset(new OFile()); }
  void write_op(Obj& o, int how, size_t n) {
    std::string d = data(n); mc::trace("write %zu bytes (%d)", n, how); bool closed = o.file < 0; long r = -1;
    bool ok = op(o, "write", closed, [&] { if (how == 0) r = o.f->write(d[0]); else if (how == 1) r = o.f->write(d.data(), d.size()); else if (how == 2) { Array<char> a(n); for (size_t i = 0; i < n; ++i) a[i] = d[i]; r = o.f->write(a); } else { std::vector<unsigned char> u(d.begin(), d.end()); Stencil<unsigned char*> st(u.data(), u.size(), u.data(), u.data() + u.size()); r = o.f->write(st); } return r == (long)n; });
    if (closed) return; FileModel& m = files[o.file]; if (ok) { m.content += d; } else m.exact = false;
  }
  void flush_op(Obj& o) { mc::trace("flush"); bool ok = op(o, "flush", o.file < 0, [&] { return o.f->flush(); }); if (o.file < 0) return; FileModel& m = files[o.file]; if (ok && m.exact) m.confirmed = m.content.size(); if (!ok) m.exact = false; }
  void close_op(Obj& o) { mc::trace("close"); bool was = o.file >= 0; bool ok = op(o, "close", false, [&] { return o.f->close(); }); if (was) did_close(o, ok); }
  World() { static const size_t old[] = {0, 5}; for (int i = 0; i < 2; ++i) { FileModel& m = files[i]; m.path = fsenv::path(i ? "y" : "x"); fsenv::remove(m.path); objs[i].f.reset(new OFile()); }
    int pre = mc::choose(3); if (pre) { files[0].exists = true; files[0].content = std::string(pre == 1 ? 5 : 9000, 'o'); files[0].confirmed = files[0].content.size(); fsenv::put(files[0].path, files[0].content); } mc::trace("x: %s", pre == 0 ? "absent" : pre == 1 ? "5 bytes" : "9000 bytes"); (void)old; }
  uint64_t key() { uint64_t k = 3; for (FileModel& m : files) k = mc::mix(mc::mix(mc::mix(k, mc::hash(m.content)), m.confirmed), m.exists * 2 + m.exact); for (Obj& o : objs) k = mc::mix(k, o.file); return k; }
  void finish() { for (Obj& o : objs) { mc::trace("destroy"); fsenv::clear_faults(); o.f.reset(); if (o.file >= 0) { bool ok = !fsenv::faults(); did_close(o, ok); } } observe(); MC_CHECK(fsenv::live_fds() == 0 && fsenv::live_files() == 0, "descriptor-leak", "descriptors left open"); }
};
void history(int depth, bool faults) {
  fsenv::Session s(faults); World w; w.observe();
  for (int d = 0; d < depth && !mc::failed(); ++d) {
    Obj& o = w.objs[mc::choose(2)]; int k = mc::choose(14); mc::trace("object %d:", (int)(&o - w.objs));
    if (k < 8) { int file = k & 1; if (w.busy(file) && o.file != file) mc::skip(); w.open_op(o, file, k & 2 ? Append : New, k & 4); }
    else switch (k) { case 8: w.write_op(o, 0, 1); break; case 9: { static const int n[] = {3, 0, 5000, 8192, 20000}; w.write_op(o, 1, mc::pick(n)); break; } case 10: { static const int n[] = {4, 0, 5000}; int how = mc::range(2, 3), c = mc::pick(n); if (how == 3 && c == 0) mc::skip(); w.write_op(o, how, c); break; } case 11: w.flush_op(o); break; case 12: w.close_op(o); break; default: w.destroy(o); break; }
    w.observe(); mc::state(mc::mix(w.key(), d));
  }
  w.finish();
}
MC_SCENARIO(histories, .shard(4).nocut()) { mc::set_deviations(0); history(mc::tiered(3, 4), false); }
// One object open: every sequence of writes, flushes, closes and reopenings.
void one_object(int depth, bool faults) {
  fsenv::Session s(faults); World w; Obj& o = w.objs[0]; w.open_op(o, 0, mc::flip() ? New : Append, mc::flip()); w.observe();
  for (int d = 0; d < depth && !mc::failed(); ++d) {
    int k = mc::choose(9); if (k == 0) w.write_op(o, 0, 1); else if (k <= 3) { static const int n[] = {7, 5000, 20000}; w.write_op(o, 1, n[k - 1]); } else if (k == 4) w.write_op(o, 2, 300); else if (k == 5) w.flush_op(o); else if (k == 6) w.close_op(o); else w.open_op(o, 0, k == 7 ? New : Append, false);
    w.observe(); mc::state(mc::mix(w.key(), d + 100));
  }
  w.finish();
}
MC_SCENARIO(one_object_deep, .shard(4).nocut()) { mc::set_deviations(0); one_object(mc::tiered(4, 6), false); }
MC_SCENARIO(faults, .shard(4).nocut()) { mc::set_deviations(mc::tiered(1, 2)); one_object(mc::tiered(3, 4), true); }
MC_SCENARIO(faults_two_objects, .shard(4).nocut()) { mc::set_deviations(1); history(mc::tiered(2, 3), true); }
// Real refusals of the kernel.
MC_SCENARIO(real_errors, .nocut()) {
  fsenv::Session s(false); static const char* const bad[] = {"nodir/f", ".", "", "x/f"}; int i = mc::choose(4); fsenv::put(fsenv::path("x"), "o"); std::string p = i == 2 ? "" : fsenv::path(bad[i]); bool ctor = mc::flip(); WriteMode m = mc::flip() ? New : Append; mc::trace("open '%s'", bad[i]);
  int want = i == 0 || i == 2 ? NotFoundError : InvalidObjectError; { std::unique_ptr<OFile> f(new OFile()); int r; if (ctor) r = h::outcome([&] { OFile g(p, m); }); else r = h::outcome([&] { f->open(p, m); }); mc::validated(); MC_CHECK(r == want, "flag", "opening '%s' gives %s", bad[i], h::oname(r).c_str()); if (!ctor) MC_CHECK(!f->open() && f->error().flag() != NoError, "error-status", "error() is %s", f->error().what());
    f->open(fsenv::path("x"), New); f->write("ab", 2); f->close(); std::string c; fsenv::read(fsenv::path("x"), c); MC_CHECK(c == "ab", "content", "file usable after a failed open: '%s'", c.c_str()); } MC_CHECK(fsenv::live_fds() == 0, "descriptor-leak", "descriptors left open");
}
// Long sequences of equal writes: every split of a large amount of data.
MC_SCENARIO(splits, .nocut()) {
  fsenv::Session s(false); World w; Obj& o = w.objs[0]; w.open_op(o, 0, mc::flip() ? New : Append, false); static const int block[] = {1, 2, 3, 1000, 4095, 4096, 4097, 8191, 8193}; int n = mc::pick(block), total = 20000, every = mc::choose(3); int how = mc::choose(2); mc::trace("blocks of %d, flush mode %d", n, every);
  for (int done = 0, i = 0; done < total; done += n, ++i) { std::string d = w.data(n); if (how && n == 1) o.f->write(d[0]); else o.f->write(d.data(), n); w.files[0].content += d; if (every == 1 || (every == 2 && i % 7 == 3)) { o.f->flush(); w.files[0].confirmed = w.files[0].content.size(); if (n > 900) w.observe(); } }
  w.close_op(o); w.observe(); w.finish();
}
}

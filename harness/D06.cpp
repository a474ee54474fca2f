// @SOURCES: ecl_exceptions/src/lib/*.cpp ecl_devices/src/lib/ofile_pos.cpp ecl_devices/src/lib/shared_file.cpp ecl_devices/src/lib/detail/*.cpp ecl_threads/src/lib/mutex_pos.cpp ecl_time/src/lib/timestamp*.cpp
// @BUILDS: release
// @EXTRA: lib/fsenv.cpp
// @WRAP: open open64 openat creat close fdopen fopen fopen64 fclose
// @ASSUME: histories of up to 4 (thorough 5) operations on three handles and two names, one injected failure of open, fdopen, write or close;; data a handle never flushed may or may not be written when it is destroyed
#include "util.hpp"
#include <fsenv.hpp>
#include <memory>
#include <map>
#include <ecl/devices/shared_file.hpp>
namespace {
using namespace ecl;
struct Record { int tag; size_t from, to; };          // bytes [from,to) of the stream of a session
struct FileModel { std::string path; bool exists = false; std::string base; std::vector<Record> records; bool exact = true; int users = 0; std::vector<int> tags; };
struct Handle { std::unique_ptr<SharedFile> f; int file = -1, tag = 0; bool ever_over = false; };
struct World {
  FileModel files[2]; Handle hs[3]; int next_tag = 1; std::map<int, size_t> written, flushed; std::map<int, size_t> offset;   // offset: bytes of a session that belong to an earlier epoch
  static char byte(int tag, size_t k) { return (char)(tag << 5 | (k & 31)); }
  World() { for (int i = 0; i < 2; ++i) { files[i].path = fsenv::path(i ? "y" : "x"); fsenv::remove(files[i].path); } if (mc::flip()) { files[0].exists = true; files[0].base = "old"; fsenv::put(files[0].path, "old"); mc::trace("x holds 3 bytes"); } for (Handle& h : hs) h.f.reset(new SharedFile()); }
  void check_content(FileModel& m) {
    if (!m.exists || !m.exact) return; std::string c; MC_CHECK(fsenv::read(m.path, c), "existence", "the file does not exist"); mc::validated();
    MC_CHECK(c.compare(0, m.base.size(), m.base) == 0, "content", "the content before opening was changed"); std::map<int, std::vector<size_t>> pos;
    for (size_t i = m.base.size(); i < c.size(); ++i) { int tag = (unsigned char)c[i] >> 5; size_t k = pos[tag].size(); MC_CHECK(k < written[tag] && c[i] == byte(tag, k), "content", "byte %zu of the file is not byte %zu written by its handle", i, k); pos[tag].push_back(i); }
    size_t last = 0; for (Record& r : m.records) { auto& p = pos[r.tag]; MC_CHECK(p.size() >= r.to, "lost", "%zu bytes flushed by a handle, %zu are in the file", r.to, p.size()); for (size_t k = r.from + 1; k < r.to; ++k) MC_CHECK(p[k] == p[k - 1] + 1, "mixed", "a flushed record of %zu bytes is not contiguous", r.to - r.from); if (r.to > r.from) { MC_CHECK(p[r.from] >= last, "order", "records are not in the order of their flushes"); last = p[r.to - 1]; } }
  }
  void observe() {
    int n = 0; for (FileModel& m : files) n += m.users > 0;
    for (Handle& h : hs) { mc::validated(); MC_CHECK(h.f->open() == (h.file >= 0), "open-status", "open() is %d, expected %d", h.f->open(), h.file >= 0); if (h.file >= 0) MC_CHECK((int)h.f->count() == files[h.file].users, "count", "count() is %u, %d handles share the file", h.f->count(), files[h.file].users); }
    MC_CHECK(fsenv::live_fds() == n && fsenv::live_files() == n, "descriptor-leak", "%d descriptors are open for %d shared files", fsenv::live_fds(), n);
  }
  void leave(Handle& h) { if (h.file < 0) return; FileModel& m = files[h.file]; h.file = -1; if (--m.users == 0) { if (fsenv::faults()) m.exact = false; check_content(m); if (m.exact) { fsenv::read(m.path, m.base); m.records.clear(); } } }
  void join(Handle& h, int file, WriteMode mode) {
    FileModel& m = files[file]; if (m.users == 0) { m.exists = true; m.records.clear(); if (mode == New) { m.base.clear(); m.exact = true; } else fsenv::read(m.path, m.base), m.exact = true; } m.users++; h.file = file; h.tag = next_tag++; written[h.tag] = flushed[h.tag] = 0; }
  void open_op(Handle& h, int file, WriteMode mode, bool ctor) {
    mc::trace("handle %d: %s file %d (%s)", (int)(&h - hs), ctor ? "construct on" : "open", file, mode == New ? "New" : "Append"); fsenv::clear_faults(); int r; bool ok = false;
    bool reopen_same = h.file == file && files[file].users == 1; (void)reopen_same;
    if (ctor) { h.f.reset(); leave(h); fsenv::clear_faults(); r = h::outcome([&] { h.f.reset(new SharedFile(files[file].path, mode)); ok = true; }); if (!h.f) h.f.reset(new SharedFile()); }
    else { if (h.file >= 0) { FileModel& m = files[h.file]; if (m.users == 1) m.exact = m.exact && false; leave(h); } r = h::outcome([&] { ok = h.f->open(files[file].path, mode); }); }   // the content of a file left by reopening is no longer tracked
    mc::step(); std::string lf = fsenv::faults() ? fsenv::last_fault() : ""; bool open_fault = lf == "open" || lf == "fdopen"; bool failed = r != h::Ok || !ok; if (open_fault) MC_CHECK(failed, "unreported", "opening reports success although %s failed", lf.c_str()); else MC_CHECK(!failed, "spurious", "opening fails with %s", h::oname(r).c_str());
    if (!failed) { join(h, file, mode); MC_CHECK(h.f->error().flag() == NoError, "error-status", "error() is %s", h.f->error().what()); } else { h.file = -1; if (!ctor) MC_CHECK(h.f->error().flag() != NoError, "error-status", "error() is NoError after a failed open"); if (lf == "fdopen" && files[file].users == 0) { files[file].exists = true; if (mode == New) { files[file].base.clear(); files[file].exact = true; } } }
  }
  void write_op(Handle& h, size_t n, bool single) {
    mc::trace("handle %d: write %zu bytes%s", (int)(&h - hs), n, single ? " one by one" : ""); fsenv::clear_faults(); size_t w = written[h.tag]; std::string d; for (size_t i = 0; i < n; ++i) d += byte(h.tag, w + i); long r = 0; int o = h::outcome([&] { if (single) for (char c : d) r += h.f->write(c); else r = h.f->write(d.data(), d.size()); }); mc::step(); bool failed = o != h::Ok || r != (long)n;
    if (fsenv::faults()) { files[h.file].exact = false; } else MC_CHECK(!failed, "spurious", "writing %zu bytes gives %ld, %s", n, r, h::oname(o).c_str()); written[h.tag] += n;
  }
  void flush_op(Handle& h) {
    mc::trace("handle %d: flush", (int)(&h - hs)); fsenv::clear_faults(); bool ok = false; int o = h::outcome([&] { ok = h.f->flush(); }); mc::step(); FileModel& m = files[h.file]; bool failed = o != h::Ok || !ok;
    if (fsenv::faults()) { MC_CHECK(failed, "unreported", "flush reports success although %s failed", fsenv::last_fault()); m.exact = false; return; }
    if (!m.exact) return; MC_CHECK(!failed, "spurious", "flush fails with %s", h::oname(o).c_str()); size_t from = flushed[h.tag], to = written[h.tag]; if (to - from <= 4000) m.records.push_back(Record{h.tag, from, to}); else m.records.push_back(Record{h.tag, to, to}), need[h.tag] = to; flushed[h.tag] = to;
  }
  std::map<int, size_t> need;
  void destroy(Handle& h, bool again = true) { mc::trace("handle %d: destroy", (int)(&h - hs)); fsenv::clear_faults(); h.f.reset(); leave(h); if (again) h.f.reset(new SharedFile()); }
  void finish() { for (Handle& h : hs) destroy(h, false); MC_CHECK(fsenv::live_fds() == 0 && fsenv::live_files() == 0, "descriptor-leak", "descriptors left open"); }
  uint64_t key() { uint64_t k = 1; for (FileModel& m : files) k = mc::mix(mc::mix(k, m.users), mc::mix(m.records.size(), m.exact * 2 + m.exists)); for (Handle& h : hs) k = mc::mix(mc::mix(k, h.file), h.file >= 0 ? written[h.tag] * 7 + flushed[h.tag] : 0); return k; }
};
void history(int depth, bool faults, bool closed_use) {
  fsenv::Session s(faults); World w; w.observe();
  for (int d = 0; d < depth && !mc::failed(); ++d) {
    // handles that were never used are interchangeable: take the first of them
    int used = 0; for (; used < 3 && (w.hs[used].file >= 0 || w.hs[used].tag); ++used) {} Handle& h = w.hs[mc::choose(std::min(used + 1, 3))]; int k = mc::choose(h.file >= 0 ? 9 : 5);
    if (k < 4) { if (h.file >= 0 && !(k & 1) && k >= 2) mc::skip(); w.open_op(h, k & 1, k & 2 ? Append : New, mc::flip()); }
    else if (h.file < 0) { if (!closed_use) mc::skip(); mc::trace("handle %d (closed): flush", (int)(&h - w.hs)); int o = h::outcome([&] { h.f->write("abc", 3); if (!h.f->flush()) throw StandardException(LOC, OpenError); }); MC_CHECK(o != h::Ok, "closed", "flushing a closed handle succeeds"); }
    else if (k == 4) w.write_op(h, 3, false); else if (k == 5) w.write_op(h, 40, true); else if (k == 6) w.write_op(h, mc::flip() ? 5000 : 4096, false); else if (k == 7) w.flush_op(h); else w.destroy(h);
    w.observe(); mc::state(mc::mix(w.key(), d));
  }
  w.finish();
}
MC_SCENARIO(histories, .shard(5).nocut()) { mc::set_deviations(0); history(mc::tiered(3, 5), false, true); }
// Two or three handles open on one file: every sequence of writes, flushes, closes and openings.
void shared_one(int depth, bool faults) {
  fsenv::Session s(faults); World w; int n = mc::range(2, 3); WriteMode m = mc::flip() ? New : Append; for (int i = 0; i < n; ++i) w.open_op(w.hs[i], 0, m, false); w.observe();
  for (int d = 0; d < depth && !mc::failed(); ++d) { Handle& h = w.hs[mc::choose(n)]; int k = h.file >= 0 ? mc::choose(5) : 5; switch (k) { case 0: w.write_op(h, 5, false); break; case 1: w.flush_op(h); break; case 2: w.write_op(h, 4095, false); break; case 3: w.destroy(h); break; case 4: w.write_op(h, 1, true); break; default: if (w.next_tag > 7) mc::skip(); w.open_op(h, 0, Append, false); } w.observe(); mc::state(mc::mix(w.key(), d + 50)); }
  w.finish();
}
MC_SCENARIO(shared_one_file, .shard(5).nocut()) { mc::set_deviations(0); shared_one(mc::tiered(4, 5), false); }
MC_SCENARIO(faults, .shard(4).nocut().timeout(10)) { mc::set_deviations(1); shared_one(mc::tiered(3, 4), true); }
MC_SCENARIO(faults_histories, .shard(4).nocut().timeout(10)) { mc::set_deviations(mc::tiered(1, 2)); history(mc::tiered(2, 4), true, false); }
}

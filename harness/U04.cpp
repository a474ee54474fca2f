// @SOURCES: ecl_exceptions/src/lib/*.cpp ecl_devices/src/lib/detail/*.cpp ecl_ipc/src/lib/semaphore_pos.cpp ecl_ipc/src/lib/shared_memory_pos.cpp ecl_time/src/lib/timestamp_pos.cpp ecl_time/src/lib/timestamp_base.cpp
// @EXTRA: harness/U04_nothrow.cpp harness/U04_ndebug.cpp
// @ASSUME: every error flag, every error number from -1 to 140 and every translator that is declared in a header;; chains of up to three rethrows (four in the thorough tier) with empty, short and long locations and details;; macros in the three build configurations (debug, release, exceptions disabled)
// @LDFLAGS: -lrt
#include "util.hpp"
#include <cstring>
#include <cerrno>
#include <netdb.h>
#include <map>
#include <ecl/exceptions.hpp>
#include <ecl/devices/detail/error_handler.hpp>
#include <ecl/devices/detail/exception_handler_pos.hpp>
#include <ecl/devices/detail/socket_error_handler_pos.hpp>
#include <ecl/devices/detail/socket_exception_handler_pos.hpp>
#include <ecl/threads/thread_exceptions_pos.hpp>
#include <ecl/threads/mutex.hpp>
#include <ecl/threads/priority_pos.hpp>
#include <ecl/time/sleep.hpp>
#include <ecl/ipc/semaphore.hpp>
#include <ecl/ipc/shared_memory.hpp>
namespace nothrow { int run(int, bool, int&); extern bool has; }
namespace ndebug { int run(int, bool, int&); extern bool has; }
namespace debugged {
#include "U04_macros.inc"
}
namespace ecl { namespace time { StandardException throwTimeStampException(const char* loc); } namespace ipc { StandardException openSemaphoreException(const char*); StandardException tryLockSemaphoreException(const char*); } }
namespace {
using namespace ecl;
bool has(const std::string& s, const std::string& part) { return s.find(part) != std::string::npos; }
const char* const locs[] = {"here.cpp:12", "", "a rather long location name that does not fit in a small buffer.cpp:4711", "again.cpp:3"};
const char* const msgs[] = {"", "detail", "two\nlines of detail text that are longer than a short string buffer"};
int pos(const std::string& s, const std::string& p, size_t from) { size_t q = s.find(p, from); return q == std::string::npos ? -1 : (int)q; }
// the text holds every location, the newest one first, then the name of the flag, then the detail
void text(const char* what, const std::vector<std::string>& newest_first, ErrorFlag flag, const std::string& msg, const std::string& data, bool with_data) {
  std::string s(what); mc::validated(2); size_t at = 0; for (auto& l : newest_first) { int p = pos(s, l, at); MC_CHECK(p >= 0, "location", "location '%s' is not in the text '%s' (or out of order)", l.c_str(), what); at = p + l.size(); }
  int p = pos(s, Error(flag).what(), at); MC_CHECK(p >= 0, "flag-text", "flag %s is not in the text '%s'", Error(flag).what(), what); at = p + std::strlen(Error(flag).what()); if (!msg.empty()) { p = pos(s, msg, at); MC_CHECK(p >= 0, "detail-text", "the detail is not in the text '%s'", what); at = p + msg.size(); }
  for (auto& l : newest_first) if (!l.empty()) { int want = 0, got = 0; for (auto& o : newest_first) want += o == l; for (size_t q = 0; (q = s.find(l, q)) != std::string::npos; q += l.size()) ++got; MC_CHECK(got == want, "location", "location '%s' was added %d times, the text has it %d times: '%s'", l.c_str(), want, got, what); }
  if (with_data) MC_CHECK(pos(s, data, at) >= 0, "data-text", "the data %s is not in the text '%s'", data.c_str(), what);
}
template <class E, class First> void chain(First first, ErrorFlag flag, const std::string& msg, int depth, std::vector<std::string> l, std::function<void(const E&)> check) {
  // rethrow through real catch blocks, each adding its location
  std::function<void(int)> level = [&](int d) { if (d == 0) { throw first(); } try { level(d - 1); } catch (const E& e) { check(e); throw E(l[d].c_str(), e); } };
  (void)flag; (void)msg; bool caught = false; try { level(depth); } catch (const E& e) { caught = true; check(e); std::vector<std::string> newest(l.rbegin() + (l.size() - 1 - depth), l.rend()); std::string before = e.what(); text(e.what(), newest, e.flag(), msg, "", false); E copy(e); MC_CHECK(before == copy.what() && copy.flag() == e.flag(), "copy", "a copy of the exception differs"); }
  MC_CHECK(caught, "caught", "the exception did not arrive");
}
}
MC_SCENARIO(standard, .shard(1)) {
  int f = mc::choose(NumberOfErrorFlags); ErrorFlag flag = (ErrorFlag)f; int m = mc::choose(4); std::string msg = m == 3 ? "" : msgs[m]; int depth = mc::choose(mc::tiered(4, 5)); std::vector<std::string> l; for (int i = 0; i <= depth; ++i) l.push_back(locs[i == 0 ? mc::choose(3) : (i + (m & 1)) % 4]); mc::step(depth + 1); mc::trace("flag %d, detail %d, %d rethrows", f, m, depth);
  chain<StandardException>([&] { return m == 3 ? StandardException(l[0].c_str(), flag) : StandardException(l[0].c_str(), flag, msg); }, flag, msg, depth, l, [&](const StandardException& e) { mc::validated(2); MC_CHECK(e.flag() == flag, "flag", "the flag is %d instead of %d", e.flag(), flag); MC_CHECK(e.message() == msg, "detail", "the detail is '%s' instead of '%s'", e.message().c_str(), msg.c_str()); const std::exception& base = e; MC_CHECK(std::string(base.what()) == e.what(), "what", "what() differs through the base class"); });
}
namespace {
struct Payload { int a; std::string s; bool operator==(const Payload& o) const { return a == o.a && s == o.s; } }; std::ostream& operator<<(std::ostream& o, const Payload& p) { return o << "<" << p.a << "," << p.s << ">"; }
template <class T> void data(T value, const std::string& shown) {
  int f = mc::choose(NumberOfErrorFlags); ErrorFlag flag = (ErrorFlag)f; int m = mc::choose(4); std::string msg = m == 3 ? "" : msgs[m]; int depth = mc::choose(3); std::vector<std::string> l; for (int i = 0; i <= depth; ++i) l.push_back(locs[(i + m) % 4]); mc::step(depth + 1); const T orig = value; mc::trace("flag %d, detail %d, %d rethrows", f, m, depth);
  chain<DataException<T>>([&]() -> DataException<T> { if (m == 3) return DataException<T>(l[0].c_str(), flag, value); return DataException<T>(l[0].c_str(), flag, msg, orig); }, flag, msg, depth, l, [&](const DataException<T>& e) { mc::validated(3); MC_CHECK(e.flag() == flag, "flag", "the flag is %d instead of %d", e.flag(), flag); MC_CHECK(e.data() == orig, "data", "the data changed"); MC_CHECK(has(e.what(), shown), "data-text", "the data %s is not in '%s'", shown.c_str(), e.what()); if (!msg.empty()) MC_CHECK(has(e.what(), msg), "detail-text", "the detail is not in '%s'", e.what()); });
  // the exception holds its own copy of the data
  DataException<T> d(locs[0], flag, value); value = T(); MC_CHECK(d.data() == orig, "own-copy", "the exception's data follows the original variable");
}
}
MC_SCENARIO(data_int) { data<int>(-4711, "-4711"); }
MC_SCENARIO(data_string) { data<std::string>("some data that is longer than the small string optimisation", "some data that is longer than the small string optimisation"); }
MC_SCENARIO(data_object) { data<Payload>(Payload{7, "x"}, "<7,x>"); }
MC_SCENARIO(macros) {
  int what = mc::choose(6); bool c = mc::flip(); int ev; mc::step(3); mc::validated(3);
  ev = 0; int r = debugged::run(what, c, ev); int want = what == 0 ? (c ? 0 : 1) : c ? (what >= 4 ? 100 + what + 1 : what + 1) : 0; MC_CHECK(r == want, "debug", "macro %d with condition %d threw %d instead of %d", what, c, r, want); MC_CHECK(what == 0 || what >= 4 ? ev == 1 : ev == 0, "debug-evaluation", "macro %d evaluated its expression %d times", what, ev);
  ev = 0; r = ndebug::run(what, c, ev); want = what == 2 ? (c ? 3 : 0) : what == 4 ? (c ? 105 : 0) : 0; MC_CHECK(r == want, "release", "in a release build macro %d with condition %d threw %d instead of %d", what, c, r, want);
  ev = 0; r = nothrow::run(what, c, ev); MC_CHECK(r == 0, "disabled", "with exceptions disabled macro %d gives %d", what, r); if (what >= 4) MC_CHECK(ev == 1, "disabled", "with exceptions disabled a try block ran %d times", ev);
  MC_CHECK(!nothrow::has && !ndebug::has, "has", "ECL_HAS_EXCEPTIONS is defined without debug exceptions");
#ifndef ECL_HAS_EXCEPTIONS
  mc::fail("has", "ECL_HAS_EXCEPTIONS is not defined");
#endif
}
namespace {
typedef std::map<int, ErrorFlag> Table; enum Kind { File, Plain };
struct Translator { const char* name; std::function<StandardException(const char*)> make; std::function<Error()> flag; Table t; bool h; ErrorFlag other; };
const Table open_t = {{ENOENT, NotFoundError}, {EINVAL, InvalidArgError}, {EACCES, PermissionsError}, {EFBIG, OutOfResourcesError}, {EOVERFLOW, OutOfResourcesError}, {EINTR, InterruptedError}, {EISDIR, InvalidObjectError}, {ELOOP, SystemFailureError}, {EMFILE, OutOfResourcesError}, {ENFILE, OutOfResourcesError}, {ENAMETOOLONG, InvalidArgError}, {ENOMEM, MemoryError}, {ENOSPC, OutOfResourcesError}, {ENOTDIR, InvalidObjectError}, {EROFS, PermissionsError}, {ETXTBSY, UsageError}};
const Table write_t = {{EAGAIN, BlockingError}, {EBADF, InvalidObjectError}, {EINVAL, InvalidObjectError}, {EFAULT, OutOfRangeError}, {EFBIG, MemoryError}, {EINTR, InterruptedError}, {EIO, SystemFailureError}, {ENOSPC, OutOfResourcesError}, {EPIPE, PermissionsError}};
const Table read_t = {{EAGAIN, BlockingError}, {EBADF, PermissionsError}, {EINVAL, PermissionsError}, {EFAULT, OutOfRangeError}, {EINTR, InterruptedError}, {EIO, SystemFailureError}, {EISDIR, InvalidObjectError}};
const Table sync_t = {{EBADF, InvalidArgError}, {EIO, CloseError}, {EROFS, NotSupportedError}, {EINVAL, NotSupportedError}};
const Table close_t = {{EBADF, InvalidArgError}, {EIO, SystemFailureError}, {EINTR, InterruptedError}};
const Table socket_t = {{EACCES, OpenError}, {EAFNOSUPPORT, NotSupportedError}, {EINVAL, InvalidArgError}, {EMFILE, OutOfRangeError}, {ENFILE, OutOfResourcesError}, {ENOBUFS, MemoryError}, {ENOMEM, MemoryError}, {EPROTONOSUPPORT, NotSupportedError}};
const Table bind_t = {{EACCES, PermissionsError}, {EADDRINUSE, BusyError}, {EBADF, InvalidObjectError}, {EINVAL, BusyError}, {ENOTSOCK, InvalidObjectError}, {EADDRNOTAVAIL, InvalidObjectError}, {EFAULT, OutOfRangeError}, {ELOOP, SystemFailureError}, {ENAMETOOLONG, InvalidArgError}, {ENOENT, InvalidObjectError}, {ENOMEM, MemoryError}, {ENOTDIR, InvalidArgError}, {EROFS, PermissionsError}};
const Table accept_t = {{EWOULDBLOCK, BlockingError}, {EBADF, InvalidObjectError}, {ECONNABORTED, InterruptedError}, {EINTR, InterruptedError}, {EINVAL, UsageError}, {EMFILE, OutOfResourcesError}, {ENFILE, OutOfResourcesError}, {ENOTSOCK, InvalidObjectError}, {EOPNOTSUPP, InvalidObjectError}, {EFAULT, PermissionsError}, {ENOBUFS, MemoryError}, {ENOMEM, MemoryError}, {EPROTO, InvalidArgError}, {EPERM, PermissionsError}};
const Table receive_t = {{EAGAIN, InterruptedError}, {EBADF, InvalidObjectError}, {ECONNREFUSED, ConnectionError}, {EFAULT, SystemFailureError}, {EINTR, InterruptedError}, {EINVAL, InvalidArgError}, {ENOMEM, MemoryError}, {ENOTCONN, ConnectionError}, {ENOTSOCK, InvalidObjectError}};
const Table ioctl_t = {{EBADF, InvalidObjectError}, {EFAULT, OutOfRangeError}, {EINVAL, InvalidArgError}, {ENOTTY, InvalidObjectError}};
const Table send_t = {{EWOULDBLOCK, BlockingError}, {EACCES, PermissionsError}, {EBADF, InvalidObjectError}, {ECONNRESET, InterruptedError}, {EFAULT, SystemFailureError}, {EINTR, InterruptedError}, {EINVAL, InvalidArgError}, {EISCONN, ConnectionError}, {EMSGSIZE, WriteError}, {ENOBUFS, OutOfResourcesError}, {ENOMEM, MemoryError}, {ENOTCONN, ConnectionError}, {ENOTSOCK, InvalidObjectError}, {EOPNOTSUPP, NotSupportedError}, {EPIPE, InterruptedError}};
Table connect_t(bool exceptions) { Table t = {{EACCES, PermissionsError}, {EPERM, PermissionsError}, {EADDRINUSE, BusyError}, {EAFNOSUPPORT, NotSupportedError}, {EAGAIN, OutOfResourcesError}, {EALREADY, BlockingError}, {EBADF, InvalidObjectError}, {ECONNREFUSED, ConnectionRefusedError}, {EFAULT, OutOfRangeError}, {EINPROGRESS, BlockingError}, {EINTR, InterruptedError}, {EISCONN, ConnectionError}, {ENETUNREACH, ConfigurationError}, {ENOTSOCK, InvalidObjectError}, {ETIMEDOUT, TimeOutError}}; if (exceptions) { t[ENETUNREACH] = NotFoundError; t[EHOSTUNREACH] = NotFoundError; } return t; }
const std::vector<Translator>& translators() {
  static std::vector<Translator> v;
  if (v.empty()) {
    auto ex = [&](const char* n, std::function<StandardException(const char*)> f, Table t, bool h = false, ErrorFlag other = UnknownError) { v.push_back({n, f, nullptr, t, h, other}); };
    auto er = [&](const char* n, std::function<Error()> f, Table t, bool h = false) { v.push_back({n, nullptr, f, t, h, UnknownError}); };
    using namespace devices; const std::string file = "some file"; auto with = [&](StandardException (*f)(const char*, const std::string&)) { return [f, file](const char* l) { StandardException e = f(l, file); if (e.flag() != UnknownError && e.flag() != InvalidArgError) MC_CHECK(has(e.what(), file), "file-name", "the file name is not in '%s'", e.what()); return e; }; };
    ex("open_exception", with(open_exception), open_t); ex("close_exception", with(close_exception), close_t); ex("sync_exception", with(sync_exception), sync_t); ex("write_exception", write_exception, write_t); ex("read_exception", read_exception, read_t);
    er("open_error", open_error, open_t); er("close_error", close_error, close_t); er("sync_error", sync_error, sync_t); er("write_error", write_error, write_t); er("read_error", read_error, read_t);
    ex("socket_exception", socket_exception, socket_t); ex("bind_exception", bind_exception, bind_t); ex("accept_exception", accept_exception, accept_t); ex("receive_exception", receive_exception, receive_t); ex("ioctl_exception", ioctl_exception, ioctl_t); ex("send_exception", send_exception, send_t); ex("connection_exception", connection_exception, connect_t(true));
    er("socket_error", socket_error, socket_t); er("bind_error", bind_error, bind_t); er("accept_error", accept_error, accept_t); er("receive_error", receive_error, receive_t); er("ioctl_error", ioctl_error, ioctl_t); er("send_error", send_error, send_t); er("connection_error", connection_error, connect_t(false));
    ex("gethostbyname_exception", [](const char* l) { return gethostbyname_exception(l, "host"); }, {{HOST_NOT_FOUND, OpenError}, {TRY_AGAIN, OpenError}, {NO_ADDRESS, InvalidArgError}}, true); er("gethostbyname_error", gethostbyname_error, {{HOST_NOT_FOUND, ConnectionError}, {NO_ADDRESS, InvalidArgError}}, true);
    using namespace threads; auto arg = [](StandardException (*f)(const char*, int)) { return [f](const char* l) { int e = errno; errno = 0; return f(l, e); }; };
    er("handlePthreadCreateError", [] { int e = errno; errno = 0; return handlePthreadCreateError(e); }, {{EINVAL, InvalidInputError}, {EAGAIN, MemoryError}, {EPERM, PermissionsError}}); ex("pthread create", arg(throwPthreadCreateException), {{EINVAL, InvalidInputError}, {EAGAIN, MemoryError}, {EPERM, PermissionsError}});
    ex("pthread join", arg(throwPthreadJoinException), {{EDEADLK, UsageError}, {EINVAL, InvalidInputError}, {ESRCH, InvalidInputError}}); ex("pthread cancel", arg(throwPthreadCancelException), {{ESRCH, InvalidInputError}});
    ex("mutex attribute", arg(throwMutexAttrException), {{EINVAL, InvalidInputError}, {ENOMEM, MemoryError}}); ex("mutex init", arg(throwMutexInitException), {{EINVAL, InvalidInputError}, {EBUSY, InvalidInputError}, {EAGAIN, MemoryError}, {ENOMEM, MemoryError}, {EPERM, PermissionsError}}); ex("mutex destroy", arg(throwMutexDestroyException), {{EINVAL, DestructorError}, {EBUSY, DestructorError}});
    ex("mutex timed lock", arg(throwMutexTimedLockException), {{EDEADLK, UsageError}, {EINVAL, UsageError}, {EAGAIN, OutOfRangeError}}); ex("mutex lock", arg(throwMutexLockException), {{EDEADLK, UsageError}, {EBUSY, ConfigurationError}, {EINVAL, InvalidInputError}, {EAGAIN, OutOfRangeError}}, false, PosixError); ex("mutex unlock", arg(throwMutexUnLockException), {{EINVAL, InvalidInputError}, {EAGAIN, OutOfRangeError}, {EPERM, PermissionsError}});
    ex("priority", throwPriorityException, {{EINVAL, InvalidInputError}, {ESRCH, InvalidInputError}, {EPERM, PermissionsError}, {EACCES, PermissionsError}}); ex("sleep", ecl::time::throwSleepException, {{EINTR, InterruptedError}, {EINVAL, InvalidInputError}, {EFAULT, MemoryError}}); ex("time stamp", ecl::time::throwTimeStampException, {{EINVAL, NotSupportedError}, {EFAULT, OutOfRangeError}});
    ex("semaphore open", ipc::openSemaphoreException, {{EACCES, PermissionsError}, {EEXIST, PermissionsError}, {ENOENT, ConfigurationError}, {ENOMEM, MemoryError}, {EINVAL, InvalidArgError}, {EMFILE, OutOfResourcesError}, {ENFILE, OutOfResourcesError}, {ENAMETOOLONG, InvalidArgError}}); ex("semaphore lock", ipc::tryLockSemaphoreException, {{EINTR, InterruptedError}, {EINVAL, InvalidArgError}, {EAGAIN, BlockingError}});
    ex("shared memory open", ipc::openSharedSectionException, {{EACCES, PermissionsError}, {EMFILE, OutOfResourcesError}, {ENFILE, OutOfResourcesError}, {ENOENT, InvalidArgError}, {ENAMETOOLONG, InvalidArgError}, {EINVAL, InvalidArgError}, {ENOSYS, NotSupportedError}}); ex("memory map", ipc::memoryMapException, {{EACCES, PermissionsError}, {EAGAIN, MemoryError}, {EBADF, InvalidArgError}, {EINVAL, InvalidArgError}, {ENFILE, OutOfResourcesError}, {ENODEV, NotSupportedError}, {ENOMEM, MemoryError}, {EPERM, PermissionsError}});
    ex("posix", PosixErrorHandler<int>::GenerateStandardException, {}, false, PosixError);
  }
  return v;
}
}
MC_SCENARIO(error_numbers) {
  const std::vector<Translator>& v = translators(); const Translator& t = v[mc::choose((int)v.size())]; int e = mc::range(-1, 140); mc::step(); mc::validated(2); mc::trace("%s with error number %d (%s)", t.name, e, strerror(e));
  auto it = t.t.find(e); ErrorFlag want = it == t.t.end() ? t.other : it->second; errno = t.h ? 0 : e; h_errno = t.h ? e : 0; ErrorFlag got; const char* loc = "the caller's location";
  if (t.make) { StandardException x = t.make(loc); got = x.flag(); if (got != want) mc::fail("flag", "%s translates error number %d into %s instead of %s", t.name, e, Error(got).what(), Error(want).what()); text(x.what(), {loc}, want, x.message(), "", false); if (!strcmp(t.name, "posix")) MC_CHECK(has(x.what(), strerror(e)), "strerror", "the system's text is not in '%s'", x.what()); }
  else { Error x = t.flag(); got = x.flag(); if (got != want) mc::fail("flag", "%s translates error number %d into %s instead of %s", t.name, e, Error(got).what(), Error(want).what()); }
}
// Long chains, long locations and long details.
MC_SCENARIO(long_texts) {
  static const int ll[] = {0, 15, 16, 63, 64, 255, 256, 1000}, ds[] = {0, 1, 9, 40}; int n = mc::pick(ll), depth = mc::pick(ds), k = mc::pick(ll); std::vector<std::string> l; for (int i = 0; i <= depth; ++i) l.push_back("<" + std::to_string(i) + std::string(n, 'L') + ">"); std::string msg = k ? std::string(k, 'm') + "." : ""; mc::step(depth + 1); mc::trace("locations of %d, %d rethrows, detail of %d", n, depth, k);
  if (mc::flip()) chain<StandardException>([&] { return StandardException(l[0].c_str(), WriteError, msg); }, WriteError, msg, depth, l, [&](const StandardException& e) { mc::validated(2); MC_CHECK(e.flag() == WriteError && e.message() == msg, "detail", "the flag or the detail changed"); });
  else { std::string d(k, 'd'); chain<DataException<std::string>>([&] { return DataException<std::string>(l[0].c_str(), WriteError, msg, d); }, WriteError, msg, depth, l, [&](const DataException<std::string>& e) { mc::validated(2); MC_CHECK(e.flag() == WriteError && e.data() == d && has(e.what(), d) && has(e.what(), msg), "data", "the flag, the data or the detail changed"); }); }
}

// @SOURCES: ecl_filesystem/src/lib/*.cpp ecl_exceptions/src/lib/*.cpp
// @BUILDS: release
// @WRAP: realpath
// @ASSUME: a tree of directories, files, relative, absolute, dangling and looping links in a scratch directory; every path of up to 4 (thorough 5) components over it, absolute or relative, with doubled and trailing separators;; every documented error of the system call;; after a failure the output may be left alone or emptied
#include "util.hpp"
#include <ecl/filesystem/realpath.hpp>
#include <map>
#include <cerrno>
#include <unistd.h>
#include <sys/stat.h>
#include <fcntl.h>
extern "C" char* __real_realpath(const char*, char*);
namespace { int inject = 0, calls = 0; bool scribble = false; }
extern "C" char* __wrap_realpath(const char* p, char* b) { ++calls; if (!inject) return __real_realpath(p, b); if (b && scribble) strcpy(b, "/part/of/a/path"); errno = inject; return nullptr; }
namespace {
typedef std::vector<std::string> Comps;
struct Tree {   // the plain model of the tree below its root
  std::map<std::string, std::string> e; // path relative to the root -> "d", "f", or the target of a link
  std::string root; Comps base;
  static Comps split(const std::string& p) { Comps c; std::string s; for (char ch : p + "/") if (ch == '/') { c.push_back(s); s.clear(); } else s += ch; return c; }
  Tree() {
    char b[4096]; root = std::string(mc::scratch_dir()) + "/tree"; mkdir(root.c_str(), 0700); if (!__real_realpath(root.c_str(), b)) abort(); root = b; base = split(root); e = {{"d", "d"}, {"d/e", "d"}, {"d/f", "f"}, {"f", "f"}, {"d/up", ">.."}, {"ln", ">d"}, {"abs", ">" + root + "/d/e"}, {"lf", ">ln/./f"}, {"loop", ">d/back"}, {"d/back", ">../loop"}, {"dang", ">nothing/here"}, {"d/e/w x", "d"}};
    for (auto& x : e) { std::string p = root + "/" + x.first; if (x.second == "d") mkdir(p.c_str(), 0700); } for (auto& x : e) { std::string p = root + "/" + x.first; if (x.second == "f") { int fd = ::open(p.c_str(), O_CREAT | O_WRONLY, 0600); if (fd >= 0) ::close(fd); } else if (x.second[0] == '>') (void)!symlink(x.second.c_str() + 1, p.c_str()); }
  }
  static std::string join(const Comps& c) { std::string s; for (auto& x : c) if (!x.empty()) s += "/" + x; return s.empty() ? "/" : s; }
  // 0 or an errno; canonical components in at
  char kind(const Comps& at, std::string* target = nullptr) const {
    std::string p = join(at); if (p == root || p == "/") return 'd'; if (root.compare(0, p.size() + 1, p + "/") == 0) return 'd'; if (p.compare(0, root.size() + 1, root + "/")) return 0; auto i = e.find(p.substr(root.size() + 1)); if (i == e.end()) return 0; if (i->second[0] == '>') { if (target) *target = i->second.substr(1); return 'l'; } return i->second[0];
  }
  int walk(const std::string& path, Comps& at, int& links) const {
    if (path.empty()) return ENOENT; if (path[0] == '/') at.clear(); Comps c = split(path);
    for (size_t i = 0; i < c.size(); ++i) {
      if (i == 0 && c[i].empty()) continue; if (kind(at) != 'd') return ENOTDIR; if (c[i].empty() || c[i] == ".") continue; if (c[i] == "..") { if (!at.empty()) at.pop_back(); continue; } if (c[i].size() > 255) return ENAMETOOLONG;
      at.push_back(c[i]); std::string t; char k = kind(at, &t); if (!k) return ENOENT; if (k == 'l') { if (++links > 40) return ELOOP; at.pop_back(); int r = walk(t, at, links); if (r) return r; }
    }
    return 0;
  }
};
Tree& tree() { static Tree* t = new Tree; return *t; }
ecl::ErrorFlag documented(int e) { switch (e) { case 0: return ecl::NoError; case EACCES: return ecl::PermissionsError; case EINVAL: case ENAMETOOLONG: return ecl::InvalidArgError; case EIO: return ecl::ReadError; case ELOOP: case ENOTDIR: return ecl::InvalidObjectError; case ENOENT: return ecl::NotFoundError; default: return ecl::UnknownError; } }
void clean(std::string& s) { while (s.size() > 1 && s.back() == '/') s.pop_back(); }
struct Cwd { int fd; Cwd(const std::string& d) { fd = ::open(".", O_RDONLY); (void)!chdir(d.c_str()); } ~Cwd() { (void)!fchdir(fd); ::close(fd); } };
}
MC_SCENARIO(paths, .shard(2)) {
  Tree& t = tree(); static const std::string comps[] = {"d", "..", "ln", "f", ".", "", "up", "e", "abs", "lf", "loop", "dang", "none", "back", "w x", std::string(256, 'n'), "tree"}; int n = mc::choose(mc::tiered(5, 6)), start = mc::choose(4); const char* dirs[] = {"", "/d", "/d/e", ""}; std::string cwd = t.root + dirs[start], p; if (start == 3) p = t.root + "/";
  for (int i = 0; i < n; ++i) p += (i ? "/" : "") + comps[mc::choose(i < 2 || mc::thorough() ? 17 : 13)]; if (start == 3 && n == 0) p = mc::flip() ? "/" : p; Comps at = Tree::split(cwd), keep; int links = 0, err = t.walk(p, at, links); keep = at; std::string want = Tree::join(at), out = "before"; mc::trace("in %s: %s%s", dirs[start], start == 3 ? "(root)" : "", p.size() > 200 ? "(long)" : p.c_str() + (start == 3 && p.size() > t.root.size() ? t.root.size() : 0));
  inject = 0; calls = 0; ecl::ErrorFlag f; { Cwd c(cwd); f = ecl::realpath(p, out).flag(); } mc::step(); mc::validated(2); std::string shown = p.size() > 200 ? "(a path with a long component)" : p; MC_CHECK(f == documented(err), "outcome", "resolving '%s' in %s gives '%s' instead of '%s'", shown.c_str(), cwd.c_str(), ecl::Error(f).what(), ecl::Error(documented(err)).what());
  if (!err) MC_CHECK(out == want, "path", "resolving '%s' in %s gives '%s' instead of '%s'", shown.c_str(), cwd.c_str(), mc::show(out).c_str(), want.c_str()); else MC_CHECK(out == "before" || out.empty(), "garbage", "a failure to resolve '%s' leaves '%s' in the result", shown.c_str(), mc::show(out.substr(0, 80)).c_str());
}
MC_SCENARIO(long_paths) {   // up to the longest path there can be
  Tree& t = tree(); std::string deep = t.root + "/d"; int over = mc::range(-3, 3); std::string p = t.root + "/d"; while (p.size() < 4095 + over - 2 - 1) p += "/."; while ((int)p.size() < 4095 + over) p += "/"; bool ok = p.size() < 4096; std::string out = "before"; inject = 0; ecl::ErrorFlag f = ecl::realpath(p, out).flag(); mc::step(); mc::validated(); mc::trace("%zu characters", p.size());
  MC_CHECK(f == ecl::NoError || (!ok && f == ecl::InvalidArgError), "outcome", "a path of %zu characters: %s", p.size(), ecl::Error(f).what()); MC_CHECK(f == ecl::NoError ? out == deep : out == "before" || out.empty(), "path", "a path of %zu characters resolves to '%s'", p.size(), mc::show(out.substr(0, 100)).c_str());
}
MC_SCENARIO(failures) {
  static const int errs[] = {EACCES, EINVAL, EIO, ELOOP, ENAMETOOLONG, ENOENT, ENOTDIR, ENOMEM}; inject = mc::pick(errs); scribble = mc::flip(); int e = inject; static const char* ps[] = {"", ".", "/", "a/b"}; std::string p = mc::pick(ps), out = mc::flip() ? "before" : ""; std::string old = out; mc::trace("'%s' fails with %s", p.c_str(), strerrorname_np(e)); ecl::ErrorFlag f = ecl::realpath(p, out).flag(); inject = 0; mc::step(); mc::validated(2);
  if (e == ENOMEM) MC_CHECK(f != ecl::NoError, "outcome", "a failure is reported as success"); else MC_CHECK(f == documented(e), "outcome", "%s is reported as '%s'", strerrorname_np(e), ecl::Error(f).what()); MC_CHECK(out == old || out.empty(), "garbage", "a failure leaves '%s' in the result", mc::show(out.substr(0, 80)).c_str());
}

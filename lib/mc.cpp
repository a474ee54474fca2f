#include "mc.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <dirent.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>

extern "C" {
const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:"
         "handle_abort=0:print_legend=0:quarantine_size_mb=16:malloc_context_size=8:symbolize=1:alloc_dealloc_mismatch=1:max_allocation_size_mb=4096:detect_odr_violation=0";
}
const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=78:print_stacktrace=0"; }
const char* __tsan_default_options() { return "report_bugs=0"; }
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
}

namespace mc {
namespace {

double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void nap(long us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000}; syscall(SYS_nanosleep, &t, nullptr); }

const int MAXC = 20000, MAXTRACE = 1 << 16, MAXVIO = 24, MAXSTATEBUF = 8192, MAXSAMPLE = 6;
struct Ch { int16_t v, n; int8_t dev; };
struct Violation {
  int scenario; int len; char key[160]; char msg[2048]; char trace[16384]; Ch ch[MAXC];
  int kind;  // 0 fail, 1 crash, 2 hang
  int confirmed;  // 0 unknown 1 yes -1 no
};
struct Sample { int scenario; int len; Ch ch[512]; uint64_t th; char trace[4096]; };
struct Slot {
  std::atomic<uint64_t> progress;
  std::atomic<int> running;     // inside an execution
  std::atomic<int> scenario, len;
  Ch ch[MAXC];
  char trace[MAXTRACE]; std::atomic<int> tlen; uint64_t thash;
  char key[160], msg[2048]; std::atomic<int> failed; std::atomic<int> skipped; std::atomic<int> poisoned; std::atomic<int> diverged;
  std::atomic<int> finished;    // fork_each child finished normally
  int nstate; uint64_t st[MAXSTATEBUF];
  // results
  uint64_t exec[256], trans[256], valid[256], skips[256]; int complete[256];
  std::atomic<int> nvio; Violation vio[MAXVIO];
  int nsample; Sample sample[MAXSAMPLE];
  std::atomic<int> done;
  uint64_t nknown[256];
};
struct Global { std::atomic<int> stop; std::atomic<int> budget_out; };

struct Scen { std::string name; void (*body)(); Options o; };
std::vector<Scen>& scens() { static std::vector<Scen> s; return s; }

// ---- per process state
Global* g = nullptr; Slot* slots = nullptr; Slot* my = nullptr;
int W = 8, me = 0; bool tier_thorough = false, in_replay = false; int cur = 0;
std::vector<std::string> known;
char scratch[512] = ".";
// current execution
int pos = 0, plen = 0, prefix_len = 0, exec_owned = -1, dev_left = 1 << 30; Ch* C = nullptr;
std::unordered_set<uint64_t>* seen = nullptr; std::unordered_set<uint64_t>* seen_trace = nullptr; bool states_capped = false;
bool child_mode = false;
std::atomic<long> g_live{0};
void on_malloc(const volatile void*, size_t) { g_live.fetch_add(1, std::memory_order_relaxed); }
void on_free(const volatile void* p) { if (p) g_live.fetch_sub(1, std::memory_order_relaxed); }

void copy(char* d, size_t n, const char* s) { snprintf(d, n, "%s", s); }

int known_index(const char* scen, const char* key) {
  for (size_t i = 0; i < known.size(); ++i) if (known[i] == key || known[i] == std::string(scen) + ":" + key) return (int)i;
  return -1;
}
}  // namespace

Registrar::Registrar(const char* name, void (*body)(), const Options& o) { scens().push_back({name, body, o}); }
void add_scenario(const std::string& name, void (*body)(), const Options& o) { scens().push_back({name, body, o}); }

bool thorough() { return tier_thorough; }
bool replaying() { return in_replay; }
const char* scratch_dir() { return scratch; }
long live_blocks() { return g_live.load(); }
void account(long d) { g_live.fetch_add(d, std::memory_order_relaxed); }
int worker_id() { return me; }
static bool owned_prefix(int d);
bool failed() { return my->failed.load() != 0; }
void poison() { my->poisoned = 1; }
int deviations_left() { return dev_left; }
void set_deviations(int k) { dev_left = k; }

static int choose_impl(int n, int8_t dev) {
  my->progress.fetch_add(1, std::memory_order_relaxed);
  if (n <= 1) return 0;
  const Options& so = scens()[cur].o;
  if (pos == so.shard_depth_ && exec_owned < 0 && !in_replay) {
    exec_owned = owned_prefix(pos);
    if (!exec_owned && so.cut_ && !my->failed) { my->skipped = 1; throw Abort(); }
  }
  my->trans[cur]++;
  int p = pos++;
  if (p >= MAXC) { fprintf(stderr, "mc: execution too long\n"); flag("horizon", "more than %d choices in one execution", MAXC); throw Abort(); }
  if (p < plen) {
    if (C[p].n != n) {   // divergence: the same prefix led somewhere else
      my->diverged = 1;
      flag("divergence", "replaying the same choices led to a different choice point (%d alternatives instead of %d) at depth %d: behaviour depends on something outside the history", n, C[p].n, p);
      C[p].n = (int16_t)n; if (C[p].v >= n) C[p].v = 0; plen = p + 1;
    }
  } else {
    C[p].v = 0; C[p].n = (int16_t)n; C[p].dev = dev; plen = p + 1;
  }
  my->len = pos;
  return C[p].v;
}
int choose(int n) { return choose_impl(n, 0); }
int choose_dev(int n) {
  if (dev_left <= 0) { my->progress.fetch_add(1, std::memory_order_relaxed); return 0; }
  int v = choose_impl(n, 1);
  if (v) --dev_left;
  return v;
}

static void vtrace(const char* fmt, va_list ap) {
  char buf[4096]; int k = vsnprintf(buf, sizeof buf, fmt, ap); if (k < 0) return; if (k >= (int)sizeof buf) k = sizeof buf - 1;
  my->thash = hash_bytes(buf, k, my->thash * 31 + 1);
  int t = my->tlen;
  if (t + k + 2 < MAXTRACE) { memcpy(my->trace + t, buf, k); my->trace[t + k] = '\n'; my->trace[t + k + 1] = 0; my->tlen = t + k + 1; }
}
void trace(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vtrace(fmt, ap); va_end(ap); }
void step(uint64_t n) { my->trans[cur] += n; my->progress.fetch_add(1, std::memory_order_relaxed); }
void validated(uint64_t n) { my->valid[cur] += n; }
static bool add_state(uint64_t h) {
  h = mix(h, (uint64_t)cur + 1);
  if (child_mode) { if (my->nstate < MAXSTATEBUF) my->st[my->nstate++] = h; return true; }
  if (!seen) return true;
  if (seen->size() > 3000000) { states_capped = true; return !seen->count(h); }
  long l = g_live.load(); bool r = seen->insert(h).second; g_live.store(l); return r;
}
void state(uint64_t h) { add_state(h); }
bool prune(uint64_t h) {
  if (in_replay) return false;
  const Options& so = scens()[cur].o;
  if (pos < so.shard_depth_) { add_state(h); return false; }
  if (exec_owned < 0) exec_owned = owned_prefix(so.shard_depth_);
  if (!exec_owned) return true;
  if (pos < prefix_len) return false;
  return !add_state(mix(h, 0xabcdef));
}

void flag(const char* key, const char* fmt, ...) {
  if (my->failed) return;
  copy(my->key, sizeof my->key, key);
  va_list ap; va_start(ap, fmt); vsnprintf(my->msg, sizeof my->msg, fmt, ap); va_end(ap);
  my->failed = 1;
}
void fail(const char* key, const char* fmt, ...) {
  if (!my->failed) {
    copy(my->key, sizeof my->key, key);
    va_list ap; va_start(ap, fmt); vsnprintf(my->msg, sizeof my->msg, fmt, ap); va_end(ap);
    my->failed = 1;
  }
  throw Abort();
}
void skip() { my->skipped = 1; throw Abort(); }

std::string show(const std::string& b) {
  std::string r = "\""; char t[8];
  for (size_t i = 0; i < b.size() && i < 300; ++i) {
    unsigned char c = b[i];
    if (c == '\n') r += "\\n"; else if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { snprintf(t, sizeof t, "\\x%02x", c); r += t; } else r += c;
  }
  if (b.size() > 300) { char u[32]; snprintf(u, sizeof u, "...(%zu)", b.size()); r += u; }
  return r + "\"";
}

static bool owned_prefix(int d) {
  if (W == 1) return true;
  uint64_t h = 1234567; for (int i = 0; i < d; ++i) h = mix(h, my->ch[i].v * 131 + my->ch[i].n);
  return (int)(mix(h, cur) % W) == me;
}

namespace {

void run_body_raw(const Scen& s) {
  try { s.body(); }
  catch (const Abort&) {}
  catch (const std::exception& e) { if (s.o.catch_all_) flag("unexpected-exception", "exception escaped: %s: %s", typeid(e).name(), e.what()); }
  catch (...) { if (s.o.catch_all_) flag("unexpected-exception", "unknown exception escaped"); }
}

void reset_exec() {
  pos = 0; prefix_len = plen; exec_owned = -1; dev_left = 1 << 30; my->tlen = 0; my->trace[0] = 0; my->thash = 14695981039346656037ull;
  my->failed = 0; my->skipped = 0; my->nstate = 0; my->len = 0; my->diverged = 0; my->finished = 0;
}

// Kind of a dead child from its wait status and stderr.
std::string crash_kind(int status, const std::string& err, std::string& detail) {
  size_t p;
  if ((p = err.find("AddressSanitizer: ")) != std::string::npos) {
    size_t e = err.find_first_of(" \n", p + 18); std::string k = err.substr(p + 18, e - p - 18);
    size_t f = err.find("#0 ", p), le; detail = "AddressSanitizer " + k;
    for (int i = 0; i < 6 && f != std::string::npos; ++i) {
      le = err.find('\n', f); detail += " | " + err.substr(f, le - f); 
      f = err.find("#" + std::to_string(i + 1) + " ", le == std::string::npos ? f : le);
    }
    return "asan-" + k;
  }
  if ((p = err.find("runtime error: ")) != std::string::npos) {
    size_t b = err.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; size_t e = err.find('\n', p);
    detail = err.substr(b, e - b); return "ubsan";
  }
  detail = err.substr(0, 1500); char t[64];
  if (WIFSIGNALED(status)) { snprintf(t, sizeof t, "signal-%d", WTERMSIG(status)); return t; }
  snprintf(t, sizeof t, "exit-%d", WIFEXITED(status) ? WEXITSTATUS(status) : -1); return t;
}

std::string read_file(const std::string& f) { std::ifstream i(f.c_str()); std::stringstream s; s << i.rdbuf(); return s.str(); }
std::string base_scratch;

void redirect_std(int w) {
  int fd = open((base_scratch + "/stderr." + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
  int nul = open("/dev/null", O_RDWR); if (nul >= 0) { dup2(nul, 1); dup2(nul, 0); close(nul); }
}

void rmtree(const std::string& d) {   // removes the files and subdirectories of a scratch directory
  DIR* dir = opendir(d.c_str()); if (!dir) return;
  while (dirent* e = readdir(dir)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string p = d + "/" + n; struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmtree(p); else unlink(p.c_str());
  }
  closedir(dir); rmdir(d.c_str());
}

void make_scratch(int w) {
  snprintf(scratch, sizeof scratch, "%s/w%d", base_scratch.c_str(), w);
  rmtree(scratch); mkdir(scratch, 0700);
}

// One execution of scenario cur in this process (or a child of it); choices in my->ch.
void execute(const Scen& s) {
  C = my->ch;
  if (s.o.fork_each_ && !in_replay) {
    reset_exec();
    int cplen = plen; my->running = 1;
    std::string ef = base_scratch + "/stderr.f" + std::to_string(me);
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); }
      child_mode = true; run_body_raw(s); my->finished = 1; _exit(0);
    }
    int st = 0; double t0 = wall(); uint64_t lastp = my->progress; bool hung = false;
    int spins = 0;
    while (waitpid(p, &st, WNOHANG) == 0) {
      if (++spins < 200) sched_yield(); else nap(spins < 2000 ? 100 : 2000);
      if (my->progress != lastp) { lastp = my->progress; t0 = wall(); }
      if (wall() - t0 > s.o.timeout_) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
      if (g->stop) { kill(p, SIGKILL); waitpid(p, &st, 0); my->running = 0; return; }
    }
    my->running = 0; pos = my->len; plen = std::max(pos, 0); (void)cplen;
    for (int i = 0; i < my->nstate; ++i) if (seen->size() < 3000000) seen->insert(my->st[i]);
    if (!my->finished && !my->failed) {
      std::string detail, kind = hung ? "hang" : crash_kind(st, read_file(ef), detail);
      flag(kind.c_str(), "%s", hung ? "no progress" : detail.c_str());
    }
    my->exec[cur]++;
    return;
  }
  for (int attempt = 0; attempt < 2; ++attempt) {
    reset_exec();
    long before = g_live.load();
    my->running = 1; run_body_raw(s); my->running = 0;
    long after = g_live.load();
    my->exec[cur]++;
    if (!s.o.leak_ || my->failed || my->skipped || after <= before) break;
    if (attempt == 1) flag("leak", "%ld heap block(s) still allocated at the end of the history", after - before);
  }
  plen = pos;
}

bool advance() {  // next choice sequence in depth-first order
  Ch* c = my->ch;
  while (plen > 0 && c[plen - 1].v + 1 >= c[plen - 1].n) --plen;
  if (plen == 0) return false;
  c[plen - 1].v++; return true;
}

bool owned(const Scen& s, int len, int* cut) {
  int d = std::min(len, s.o.shard_depth_);
  *cut = d; return owned_prefix(d);
}

void record_violation(int kind, const char* key, const char* msg) {
  int ki = known_index(scens()[cur].name.c_str(), key);
  if (ki >= 0) { my->nknown[ki]++; return; }
  int n = my->nvio;
  for (int i = 0; i < n; ++i) if (!strcmp(my->vio[i].key, key) && my->vio[i].scenario == cur) return;
  if (n >= MAXVIO) return;
  Violation& v = my->vio[n];
  v.scenario = cur; v.kind = kind; v.confirmed = 0; v.len = std::min((int)my->len, MAXC); copy(v.key, sizeof v.key, key); copy(v.msg, sizeof v.msg, msg);
  memcpy(v.ch, my->ch, sizeof(Ch) * v.len); copy(v.trace, sizeof v.trace, my->trace);
  my->nvio = n + 1;
}

void worker(int w, int start_scen, bool resume) {
  me = w; my = &slots[w]; prctl(PR_SET_PDEATHSIG, SIGKILL);
  redirect_std(w); make_scratch(w);
  seen = new std::unordered_set<uint64_t>(); seen_trace = new std::unordered_set<uint64_t>();
  for (cur = start_scen; cur < (int)scens().size(); ++cur) {
    const Scen& s = scens()[cur]; my->scenario = cur;
    if (s.o.thorough_only_ && !tier_thorough) { my->complete[cur] = 2; continue; }
    bool more = true;
    if (resume && cur == start_scen) { plen = my->len; more = advance(); resume = false; } else { plen = 0; }
    while (more) {
      if (g->stop) goto out;
      execute(s);
      if (g->stop && !my->failed) goto out;
      { int cut = 0;
        bool mine = owned(s, plen, &cut);
        if (!mine) { my->exec[cur]--; plen = cut; more = advance(); if (my->poisoned) { my->len = plen; goto poison; } 
          continue; } }
      if (my->skipped) my->skips[cur]++;
      if (my->failed) { int k = 0; if (!strncmp(my->key, "asan", 4) || !strncmp(my->key, "signal", 6) || !strncmp(my->key, "ubsan", 5)) k = 1; record_violation(k, my->key, my->msg); }
      else { if (!my->skipped) my->valid[cur]++;
        uint64_t th = mix(my->thash, cur); if (seen_trace->size() < 3000000) seen_trace->insert(th);
        int nth = 0; uint64_t e = my->exec[cur]; if (e == 2 || e == 97) nth = 1;
        if (nth && my->nsample < MAXSAMPLE && plen <= 512 && w < 3) {
          Sample& sm = my->sample[my->nsample]; sm.scenario = cur; sm.len = plen; memcpy(sm.ch, my->ch, sizeof(Ch) * plen); sm.th = my->thash; copy(sm.trace, sizeof sm.trace, my->trace); my->nsample++; } }
      if (my->poisoned) { my->len = plen; goto poison; }
      more = advance();
    }
    my->complete[cur] = 1;
  }
out:
  { std::string f = base_scratch + "/states." + std::to_string(w) + "." + std::to_string(getpid());
    FILE* o = fopen(f.c_str(), "wb"); 
    if (o) { uint64_t n = seen->size(); fwrite(&n, 8, 1, o); for (uint64_t x : *seen) fwrite(&x, 8, 1, o);
      n = seen_trace->size(); fwrite(&n, 8, 1, o); for (uint64_t x : *seen_trace) fwrite(&x, 8, 1, o); fclose(o); } }
  my->done = 1; _exit(0);
poison:
  { std::string f = base_scratch + "/states." + std::to_string(w) + "." + std::to_string(getpid());
    FILE* o = fopen(f.c_str(), "wb"); 
    if (o) { uint64_t n = seen->size(); fwrite(&n, 8, 1, o); for (uint64_t x : *seen) fwrite(&x, 8, 1, o);
      n = seen_trace->size(); fwrite(&n, 8, 1, o); for (uint64_t x : *seen_trace) fwrite(&x, 8, 1, o); fclose(o); } }
  my->poisoned = 2; _exit(99);
}

// Replays one choice sequence in a fresh process. Result: failure key, or "" if it passes.
std::string replay_once(int scen, const Ch* ch, int len, int timeout, std::string* msg, std::string* tr, uint64_t* th) {
  Slot* s = &slots[W];  // spare slot
  memset((void*)s, 0, sizeof(int) * 4); s->failed = 0; s->poisoned = 0; s->finished = 0; s->progress = 0;
  memcpy(s->ch, ch, sizeof(Ch) * len);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    me = W; my = s; in_replay = true; cur = scen; plen = len; redirect_std(W); make_scratch(W);
    execute(scens()[scen]); s->finished = 1; _exit(0);
  }
  int st = 0; double t0 = wall(); uint64_t lp = 0; bool hung = false;
  while (waitpid(p, &st, WNOHANG) == 0) {
    nap(2000); if (s->progress != lp) { lp = s->progress; t0 = wall(); }
    if (wall() - t0 > timeout) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; }
    if (hung) break;
  }
  s->trace[std::min((int)s->tlen, MAXTRACE - 1)] = 0;
  if (tr) *tr = s->trace;
  if (th) *th = s->thash;
  if (s->failed) { if (msg) *msg = s->msg; return s->key; }
  if (hung) { if (msg) *msg = "no progress"; return "hang"; }
  if (!s->finished) { std::string d, k = crash_kind(st, read_file(base_scratch + "/stderr." + std::to_string(W)), d); if (msg) *msg = d; return k; }
  return "";
}

// Reruns worker w's exploration of a scenario from its beginning until this violation reappears.
bool replay_history(int w, const Violation& v, int limit_s) {
  Slot* s = &slots[W]; memset((void*)s, 0, sizeof(Slot));
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    redirect_std(W); base_scratch += ""; 
    me = w; my = s; make_scratch(W); seen = new std::unordered_set<uint64_t>();
    cur = v.scenario; const Scen& sc = scens()[cur]; plen = 0; bool more = true;
    while (more) {
      execute(sc);
      if (my->failed && !strcmp(my->key, v.key)) _exit(42);
      int cut = 0; if (!owned(sc, plen, &cut)) plen = cut;
      more = advance();
    }
    _exit(0);
  }
  int st = 0; double t0 = wall();
  while (waitpid(p, &st, WNOHANG) == 0) { nap(5000); if (wall() - t0 > limit_s) { kill(p, SIGKILL); waitpid(p, &st, 0); return v.kind == 2; } }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  return v.kind == 1;
}

std::string jesc(const std::string& s) {
  std::string r; char t[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { snprintf(t, sizeof t, "\\u%04x", c); r += t; } else r += c; }
  return r;
}
std::string choices_str(const Ch* c, int n) { std::string r; char t[32]; for (int i = 0; i < n; ++i) { snprintf(t, sizeof t, "%s%d/%d", i ? " " : "", c[i].v, c[i].n); r += t; } return r; }

}  // namespace

static int real_main(int argc, char** argv) {
  std::string result = "result.json", knownf, replayf, only; double budget = 600; base_scratch = "scratch";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier_thorough = nx() == "thorough"; else if (a == "--workers") W = atoi(nx().c_str());
    else if (a == "--result") result = nx(); else if (a == "--known") knownf = nx(); else if (a == "--budget") budget = atof(nx().c_str());
    else if (a == "--scratch") base_scratch = nx(); else if (a == "--replay") replayf = nx(); else if (a == "--only") only = nx();
    else if (a == "--list") { for (auto& s : scens()) printf("%s\n", s.name.c_str()); return 0; }
  }
  mkdir(base_scratch.c_str(), 0700);
  if (base_scratch[0] != '/') { char b[512]; if (getcwd(b, sizeof b)) base_scratch = std::string(b) + "/" + base_scratch; }
  if (!knownf.empty()) { std::ifstream f(knownf.c_str()); std::string l; while (std::getline(f, l)) if (!l.empty()) known.push_back(l); }
  if (!only.empty()) { std::vector<Scen> n; for (auto& s : scens()) if (s.name.find(only) != std::string::npos) n.push_back(s); scens() = n; }
  if (scens().empty() || scens().size() > 255) { fprintf(stderr, "bad scenario count %zu\n", scens().size()); return 3; }
  if (&__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  void* m = mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g = new (m) Global();
  size_t sz = sizeof(Slot) * (W + 1);
  m = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { perror("mmap"); return 3; }
  slots = (Slot*)m;

  if (!replayf.empty()) {
    std::ifstream f(replayf.c_str()); std::string l, sc, chs; 
    while (std::getline(f, l)) { if (l.compare(0, 10, "scenario: ") == 0) sc = l.substr(10); if (l.compare(0, 9, "choices: ") == 0) chs = l.substr(9); }
    int si = -1; for (size_t i = 0; i < scens().size(); ++i) if (scens()[i].name == sc) si = (int)i;
    if (si < 0) { fprintf(stderr, "no scenario %s\n", sc.c_str()); return 3; }
    std::vector<Ch> cs; std::stringstream ss(chs); int v, n; char c; while (ss >> v >> c >> n) { Ch x; x.v = v; x.n = n; x.dev = 0; cs.push_back(x); }
    cs.resize(cs.size() + 1); std::string msg, tr; uint64_t th;
    std::string k = replay_once(si, cs.data(), (int)cs.size() - 1, scens()[si].o.timeout_, &msg, &tr, &th);
    printf("%s", tr.c_str()); if (k.empty()) { printf("PASS\n"); return 0; } printf("FAIL %s: %s\n", k.c_str(), msg.c_str()); return 1;
  }

  double t0 = wall(); std::vector<pid_t> pid(W); std::vector<uint64_t> lastp(W, 0); std::vector<double> lastt(W, t0); std::vector<int> seenvio(W, 0), restarts(W, 0);
  for (int w = 0; w < W; ++w) { slots[w].scenario = 0; pid_t p = fork(); if (p == 0) worker(w, 0, false); pid[w] = p; }
  int alive = W; std::vector<const Violation*> confirmed; std::vector<std::string> warnings; std::set<std::string> conf_keys, tried_keys;
  std::vector<int> crash_seen_scen(256, 0);
  auto confirm = [&](int w, Violation& v) {
    std::string id = scens()[v.scenario].name + ":" + v.key;
    if (tried_keys.count(id) >= 1 && !conf_keys.count(id)) { }
    if (conf_keys.count(id)) { v.confirmed = 1; return; }
    std::string msg, tr; 
    for (int a = 0; a < 3 && v.confirmed != 1; ++a) {
      std::string k = replay_once(v.scenario, v.ch, v.len, scens()[v.scenario].o.timeout_ + 20, &msg, &tr, nullptr);
      if (!k.empty()) { v.confirmed = 1; copy(v.msg, sizeof v.msg, msg.c_str()); if (k == v.key || v.kind) copy(v.trace, sizeof v.trace, tr.c_str());
        if (v.kind) copy(v.key, sizeof v.key, k.c_str()); }
    }
    if (v.confirmed != 1 && replay_history(w, v, 120)) { v.confirmed = 1; std::string mm = std::string(v.msg) + " [reproduced by replaying the whole exploration of this scenario: depends on process history]"; copy(v.msg, sizeof v.msg, mm.c_str()); }
    if (v.confirmed == 1) {
      int ki = known_index(scens()[v.scenario].name.c_str(), v.key);
      if (ki >= 0) { slots[w].nknown[ki]++; return; }
      confirmed.push_back(&v); conf_keys.insert(id); g->stop = 1; 
    } else { v.confirmed = -1; warnings.push_back("unconfirmed: " + id + ": " + v.msg); }
    tried_keys.insert(id);
  };
  while (alive > 0) {
    nap(5000);
    if (wall() - t0 > budget && !g->stop) { g->budget_out = 1; g->stop = 1; }
    for (int w = 0; w < W; ++w) {
      if (!pid[w]) continue;
      Slot& s = slots[w];
      while (seenvio[w] < s.nvio) { if (confirmed.empty()) confirm(w, s.vio[seenvio[w]]); seenvio[w]++; }
      int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
      bool dead = r == pid[w], hung = false;
      if (!dead) {
        if (s.progress != lastp[w]) { lastp[w] = s.progress; lastt[w] = wall(); }
        const Scen& sc = scens()[std::min((int)s.scenario, (int)scens().size() - 1)];
        double lim = sc.o.timeout_ + (sc.o.fork_each_ ? 30 : 0);
        if (wall() - lastt[w] > lim || (g->stop && wall() - lastt[w] > 5 && s.running)) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); dead = true; hung = wall() - lastt[w] > lim; if (!hung) { pid[w] = 0; alive--; continue; } }
      }
      if (!dead) continue;
      if (s.done) { pid[w] = 0; alive--; continue; }
      bool restart = true;
      if (s.poisoned == 2) { s.poisoned = 0; }
      else {
        // crash or hang while executing a history
        if (s.running) {
          my = &s; me = w; cur = s.scenario; C = s.ch; std::string detail, kind = hung ? "hang" : crash_kind(st, read_file(base_scratch + "/stderr." + std::to_string(w)), detail);
          s.len = std::min((int)s.len, MAXC);
          if (s.failed) { kind = s.key; detail = s.msg; }
          record_violation(hung ? 2 : 1, kind.c_str(), hung ? "no progress" : detail.c_str()); s.running = 0; s.failed = 0;
          crash_seen_scen[cur]++;
        } else { warnings.push_back("worker died outside an execution: " + std::to_string(st) + " " + read_file(base_scratch + "/stderr." + std::to_string(w)).substr(0, 500)); if (restarts[w] > 3) restart = false; }
      }
      if (g->stop || ++restarts[w] > 200000 || !restart) { while (seenvio[w] < s.nvio) { if (confirmed.empty()) confirm(w, s.vio[seenvio[w]]); seenvio[w]++; } pid[w] = 0; alive--; continue; }
      pid_t p = fork(); if (p == 0) { plen = 0; worker(w, s.scenario, true); } pid[w] = p; lastt[w] = wall(); lastp[w] = s.progress;
    }
  }
  // merge
  std::unordered_set<uint64_t> all, alltr;
  { DIR* d = opendir(base_scratch.c_str());
    while (dirent* e = readdir(d)) { if (strncmp(e->d_name, "states.", 7)) continue; std::string f = base_scratch + "/" + e->d_name; FILE* i = fopen(f.c_str(), "rb"); if (!i) continue;
      for (int k = 0; k < 2; ++k) { uint64_t n = 0, x; if (fread(&n, 8, 1, i) != 1) n = 0; for (uint64_t j = 0; j < n; ++j) if (fread(&x, 8, 1, i) == 1) (k ? alltr : all).insert(x); }
      fclose(i); unlink(f.c_str()); }
    closedir(d); }
  uint64_t EX = 0, TR = 0, VA = 0; bool complete = true; std::ostringstream js, sj;
  for (size_t i = 0; i < scens().size(); ++i) {
    uint64_t ex = 0, tr = 0, va = 0, sk = 0; int comp = 1; for (int w = 0; w < W; ++w) { ex += slots[w].exec[i]; tr += slots[w].trans[i]; va += slots[w].valid[i]; sk += slots[w].skips[i]; if (!slots[w].complete[i]) comp = 0; else if (slots[w].complete[i] == 2) comp = 2; }
    EX += ex; TR += tr; VA += va; if (!comp) complete = false;
    sj << (i ? ",\n  " : "  ") << "{\"name\":\"" << jesc(scens()[i].name) << "\",\"executions\":" << ex << ",\"transitions\":" << tr << ",\"validated\":" << va << ",\"skipped\":" << sk << ",\"complete\":" << (comp == 1 ? "true" : comp == 2 ? "\"thorough only\"" : "false") << "}";
  }
  std::ostringstream smp; int nsmp = 0, same = 0; 
  if (confirmed.empty()) for (int w = 0; w < W && nsmp < 6; ++w) for (int i = 0; i < slots[w].nsample && nsmp < 6; ++i) {
    Sample& s = slots[w].sample[i]; uint64_t th = 0; std::string k = replay_once(s.scenario, s.ch, s.len, 60, nullptr, nullptr, &th); bool ok = k.empty() && th == s.th; same += ok;
    smp << (nsmp++ ? ",\n  " : "  ") << "{\"scenario\":\"" << jesc(scens()[s.scenario].name) << "\",\"choices\":\"" << choices_str(s.ch, s.len) << "\",\"replayed_identically\":" << (ok ? "true" : "false") << ",\"trace\":\"" << jesc(std::string(s.trace).substr(0, 1500)) << "\"}";
    if (!ok) warnings.push_back("sample of " + scens()[s.scenario].name + " did not replay identically (" + k + ")");
  }
  js << "{\"executions\":" << EX << ",\"transitions\":" << TR << ",\"validated\":" << VA << ",\"states\":" << all.size() << ",\"distinct_traces\":" << alltr.size()
     << ",\"complete\":" << (complete && confirmed.empty() ? "true" : "false") << ",\"budget_out\":" << (g->budget_out ? "true" : "false") << ",\"wall\":" << wall() - t0 << ",\n\"scenarios\":[\n" << sj.str() << "],\n\"samples\":[\n" << smp.str() << "],\n\"known\":[";
  bool first = true; for (size_t i = 0; i < known.size(); ++i) { uint64_t n = 0; for (int w = 0; w < W; ++w) n += slots[w].nknown[i]; if (n) { js << (first ? "" : ",") << "{\"key\":\"" << jesc(known[i]) << "\",\"hits\":" << n << "}"; first = false; } }
  js << "],\n\"warnings\":["; for (size_t i = 0; i < warnings.size(); ++i) js << (i ? "," : "") << "\"" << jesc(warnings[i]) << "\"";
  js << "],\n\"violations\":["; for (size_t i = 0; i < confirmed.size(); ++i) { const Violation& v = *confirmed[i]; js << (i ? ",\n" : "\n") << "{\"scenario\":\"" << jesc(scens()[v.scenario].name) << "\",\"key\":\"" << jesc(v.key) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"choices\":\"" << choices_str(v.ch, v.len) << "\",\"trace\":\"" << jesc(v.trace) << "\"}"; }
  js << "]}\n"; std::ofstream o(result.c_str()); o << js.str(); o.close();
  rmtree(base_scratch);
  return confirmed.empty() ? 0 : 1;
}
}  // namespace mc

#ifdef MC_NO_MAIN
#else
int main(int argc, char** argv) { return mc::real_main(argc, argv); }
#endif

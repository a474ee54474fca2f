// A reference parser for declared command lines and the glue that runs the library's parser on the same declaration.
#ifndef VERIF_CMDLINE_HPP_
#define VERIF_CMDLINE_HPP_
#include "util.hpp"
#include <ecl/command_line.hpp>
#include <memory>
#include <map>
#include <set>
#include <cstdlib>
namespace cl {
enum Kind { Switch, MultiSwitch, IntValue, StrValue, CharValue, DblValue, IntMulti, StrMulti, IntPos, StrPos, StrPosMulti, IntPosMulti };
inline bool is_pos(Kind k) { return k >= IntPos; }
inline bool is_switch(Kind k) { return k <= MultiSwitch; }
inline bool is_multi(Kind k) { return k == IntMulti || k == StrMulti || k == StrPosMulti || k == IntPosMulti; }
struct Decl { Kind kind; const char* flag; const char* name; bool required; bool constrained; const char* text; };
typedef std::vector<Decl> Decls;
struct Config { Decls d; std::vector<int> group; };   // group: indices of mutually exclusive arguments
struct Value { bool set; std::string v; };
struct Result { bool ok; std::vector<std::string> blame; std::vector<Value> values; };   // blame: any of these words must occur in the error; empty: not judged
// What the stream extraction of a whole token must give; "" = refused.
inline std::string parse_as(Kind k, const std::string& t, bool constrained) {
  switch (k) {
    case StrValue: case StrMulti: case StrPos: case StrPosMulti: return "=" + t;
    case CharValue: return t.size() == 1 ? "=" + t : "";
    case DblValue: { char* e; if (t.empty() || t.find_first_of(" xXnN*") != std::string::npos) return ""; double d = strtod(t.c_str(), &e); if (*e) return ""; char b[40]; snprintf(b, 40, "=%g", d); return b; }
    default: { char* e; if (t.empty() || t.find(' ') != std::string::npos) return ""; long v = strtol(t.c_str(), &e, 10); if (*e || v > 2147483647l || v < -2147483648l) return ""; if (constrained && v != 1 && v != 5) return ""; return "=" + std::to_string(v); }
  }
}
inline const char* default_of(Kind k) { switch (k) { case IntValue: case IntPos: return "=7"; case StrValue: case StrPos: return "=dflt"; case CharValue: return "=d"; case DblValue: return "=0.5"; case MultiSwitch: return "=0"; case Switch: return "=0"; default: return ""; } }
inline Result reference(const Config& c, const std::vector<std::string>& tok, char delim) {
  const Decls& d = c.d; size_t n = d.size(); Result r; r.ok = true; r.values.resize(n);
  std::vector<int> count(n, 0); std::vector<std::string> val(n); for (size_t i = 0; i < n; ++i) val[i] = default_of(d[i].kind);
  bool stop = false; size_t in_group = 0; std::string chosen;
  auto fail = [&](std::vector<std::string> b) { r.ok = false; r.blame = b; };
  auto touch = [&](size_t a) -> bool {   // a is being given once more
    for (int g : c.group) if ((int)a == g) { for (int o : c.group) if (o != (int)a && count[o]) { fail({d[a].name, d[o].name}); return false; } }
    if (count[a] && (d[a].kind == Switch || (!is_switch(d[a].kind) && !is_multi(d[a].kind)))) { fail({d[a].name}); return false; }
    ++count[a]; return true; };
  auto give = [&](size_t a, const std::string& t) -> bool { std::string v = parse_as(d[a].kind, t, d[a].constrained); if (v.empty()) { fail({d[a].name}); return false; } if (!touch(a)) return false; val[a] = is_multi(d[a].kind) ? val[a] + v : v; return true; };
  auto toggle = [&](size_t a) -> bool { if (!touch(a)) return false; val[a] = d[a].kind == MultiSwitch ? "=" + std::to_string(count[a]) : "=1"; return true; };
  auto excluded = [&](size_t a) { bool in = false, other = false; for (int g : c.group) { in |= g == (int)a; other |= g != (int)a && count[g]; } return in && other; };
  auto label = [&](const std::string& s) -> int { for (size_t a = 0; a < n; ++a) if (!is_pos(d[a].kind) && ((*d[a].flag && s == std::string("-") + d[a].flag) || s == std::string("--") + d[a].name)) return (int)a; return -1; };
  for (size_t i = 0; i < tok.size(); ++i) {
    const std::string& t = tok[i];
    if (!stop) {
      if (t == "--" || t == "--ignore_rest") { stop = true; continue; }
      int a = label(t);
      if (a >= 0 && is_switch(d[a].kind)) { if (!toggle(a)) return r; continue; }
      size_t cut = t.find(delim); std::string head = t, attached; bool has = false;
      if (cut != std::string::npos && cut > 1) { head = t.substr(0, cut); attached = t.substr(cut + 1); has = true; }
      a = label(head);
      if (a >= 0 && !is_switch(d[a].kind)) {
        if (count[a] && !is_multi(d[a].kind)) { fail({d[a].name}); return r; }
        if (attached.empty()) { if (delim != ' ' || i + 1 >= tok.size()) { fail({d[a].name}); return r; } attached = tok[++i]; }
        if (!give(a, attached)) return r; continue;
      }
      (void)has;
      if (t.size() > 1 && t[0] == '-' && t[1] != '-' && cut == std::string::npos) {   // combined switches
        std::vector<int> hit; bool any = false, all = true; for (size_t k = 1; k < t.size(); ++k) { int f = -1; for (size_t s = 0; s < n; ++s) if (is_switch(d[s].kind) && *d[s].flag == t[k] && t[k]) f = (int)s; hit.push_back(f); any |= f >= 0; all &= f >= 0; }
        if (any) { if (!all) { fail({}); return r; } for (int f : hit) if (!toggle(f)) { r.blame.clear(); return r; } continue; }
      }
    }
    bool taken = false;
    for (size_t a = 0; a < n && !taken; ++a) if (is_pos(d[a].kind) && (is_multi(d[a].kind) || !count[a]) && !excluded(a)) { if (!give(a, t)) return r; taken = true; }
    if (!taken && !stop) { fail({t}); return r; }
  }
  bool missing = false; for (size_t a = 0; a < n; ++a) { bool g = false; for (int o : c.group) g |= o == (int)a; if (!g && d[a].required && !count[a]) missing = true; }
  if (!c.group.empty()) { size_t k = 0; for (int o : c.group) k += count[o] ? 1 : 0; if (k != 1) missing = true; }
  if (missing) { fail({}); return r; }
  for (size_t a = 0; a < n; ++a) { r.values[a].set = count[a] > 0; r.values[a].v = val[a]; }
  return r;
}
// ---- the library ----
struct Failed { std::string what; }; struct Asked { std::string what; };
struct Out : public ecl::StdOutput {
  void failure(ecl::CmdLineInterface&, ecl::ArgException& e) { throw Failed{e.argId() + " " + e.error()}; }
  void usage(ecl::CmdLineInterface&) { throw Asked{"usage"}; }
  void version(ecl::CmdLineInterface&) { throw Asked{"version"}; }
};
inline ecl::ValuesConstraint<int>* constraint() { static std::vector<int> ok{1, 5}; static ecl::ValuesConstraint<int>* c = new ecl::ValuesConstraint<int>(ok); return c; }
inline std::unique_ptr<ecl::Arg> make(const Decl& d) {
  typedef std::unique_ptr<ecl::Arg> P; std::string f = d.flag, n = d.name, t = d.text;
  switch (d.kind) {
    case Switch: return P(new ecl::SwitchArg(f, n, t, false));
    case MultiSwitch: return P(new ecl::MultiSwitchArg(f, n, t, 0));
    case IntValue: return d.constrained ? P(new ecl::ValueArg<int>(f, n, t, d.required, 7, constraint())) : P(new ecl::ValueArg<int>(f, n, t, d.required, 7, "int"));
    case StrValue: return P(new ecl::ValueArg<std::string>(f, n, t, d.required, "dflt", "string"));
    case CharValue: return P(new ecl::ValueArg<char>(f, n, t, d.required, 'd', "char"));
    case DblValue: return P(new ecl::ValueArg<double>(f, n, t, d.required, 0.5, "real"));
    case IntMulti: return d.constrained ? P(new ecl::MultiArg<int>(f, n, t, d.required, constraint())) : P(new ecl::MultiArg<int>(f, n, t, d.required, "int"));
    case StrMulti: return P(new ecl::MultiArg<std::string>(f, n, t, d.required, "string"));
    case IntPos: return d.constrained ? P(new ecl::UnlabeledValueArg<int>(n, t, d.required, 7, constraint())) : P(new ecl::UnlabeledValueArg<int>(n, t, d.required, 7, "int"));
    case StrPos: return P(new ecl::UnlabeledValueArg<std::string>(n, t, d.required, "dflt", "string"));
    case StrPosMulti: return P(new ecl::UnlabeledMultiArg<std::string>(n, t, d.required, "string"));
    case IntPosMulti: return P(new ecl::UnlabeledMultiArg<int>(n, t, d.required, "int"));
  }
  return P();
}
template <class V> std::string joined(const V& v) { std::ostringstream s; for (auto& x : v) s << "=" << x; return s.str(); }
inline std::string value_of(ecl::Arg* a, Kind k) {
  std::ostringstream s; s << "=";
  switch (k) {
    case Switch: s << (static_cast<ecl::SwitchArg*>(a)->getValue() ? 1 : 0); break;
    case MultiSwitch: s << static_cast<ecl::MultiSwitchArg*>(a)->getValue(); break;
    case IntValue: case IntPos: s << static_cast<ecl::ValueArg<int>*>(a)->getValue(); break;
    case StrValue: case StrPos: s << static_cast<ecl::ValueArg<std::string>*>(a)->getValue(); break;
    case CharValue: s << static_cast<ecl::ValueArg<char>*>(a)->getValue(); break;
    case DblValue: s << static_cast<ecl::ValueArg<double>*>(a)->getValue(); break;
    case IntMulti: case IntPosMulti: return joined(static_cast<ecl::MultiArg<int>*>(a)->getValue());
    case StrMulti: case StrPosMulti: return joined(static_cast<ecl::MultiArg<std::string>*>(a)->getValue());
  }
  return s.str();
}
inline std::string show(const std::vector<std::string>& t) { std::string s; for (auto& x : t) s += " '" + x + "'"; return s; }
inline void parse(ecl::CmdLine& cmd, const std::vector<std::string>& tok) { std::vector<std::string> own(tok); own.insert(own.begin(), "prog"); std::vector<char*> av; for (auto& s : own) av.push_back(&s[0]); av.push_back(nullptr); cmd.parse((int)own.size(), av.data()); }
// order: registration order of the declarations; returns a hash of the outcome
inline void check(const Config& c, const std::vector<int>& order, const std::vector<std::string>& tok, char delim, bool handed_to_ctor = false) {
  Result want = reference(c, tok, delim);
  bool ok = true; std::string err; std::vector<Value> got(c.d.size());
  try {
    Out out; ecl::CmdLine cmd("message", delim, "1.0", false); cmd.setOutput(&out);
    std::vector<std::unique_ptr<ecl::Arg>> args; for (auto& d : c.d) args.push_back(make(d));
    bool grouped = false;
    for (int i : order) {
      bool in = false; for (int g : c.group) in |= g == i;
      if (!in) cmd.add(*args[i]);
      else if (!grouped) { grouped = true; std::vector<ecl::Arg*> g; for (int k : c.group) g.push_back(args[k].get()); if (g.size() == 2) cmd.xorAdd(*g[0], *g[1]); else cmd.xorAdd(g); }
    }
    try { parse(cmd, tok); } catch (const Failed& f) { ok = false; err = f.what; }
    for (size_t i = 0; i < args.size(); ++i) { got[i].set = args[i]->isSet(); got[i].v = value_of(args[i].get(), c.d[i].kind); }
  } catch (const ecl::ArgException& e) { mc::fail("declaration-refused", "a consistent declaration was refused: %s %s", e.argId().c_str(), e.error().c_str()); }
  mc::step(); mc::validated();
  mc::trace("parse%s (delimiter '%c') -> %s%s", show(tok).c_str(), delim, ok ? "ok" : "refused: ", err.c_str());
  MC_CHECK(ok == want.ok, ok ? "bad-line-accepted" : "good-line-refused", "%s:%s with delimiter '%c' %s", ok ? "accepted" : "refused", show(tok).c_str(), delim, err.c_str());
  if (!ok) { bool named = want.blame.empty(); for (auto& b : want.blame) named |= err.find(b) != std::string::npos; MC_CHECK(named, "error-names-nothing", "the error for%s does not name %s: %s", show(tok).c_str(), want.blame[0].c_str(), err.c_str()); return; }
  for (size_t i = 0; i < got.size(); ++i) {
    MC_CHECK(got[i].v == want.values[i].v, "wrong-value", "after%s argument %s holds %s, expected %s", show(tok).c_str(), c.d[i].name, got[i].v.c_str(), want.values[i].v.c_str());
    MC_CHECK(got[i].set == want.values[i].set, "wrong-set-status", "after%s argument %s claims to be %sset", show(tok).c_str(), c.d[i].name, got[i].set ? "" : "not ");
  }
}
// all registration orders that keep positionals in their declared order
inline std::vector<std::vector<int>> orders(const Config& c) {
  std::vector<std::vector<int>> r; std::vector<int> p; for (size_t i = 0; i < c.d.size(); ++i) p.push_back((int)i); std::sort(p.begin(), p.end());
  do { int last = -1; bool ok = true; for (int i : p) if (is_pos(c.d[i].kind)) { ok &= i > last; last = i; } if (ok) r.push_back(p); } while (std::next_permutation(p.begin(), p.end()));
  return r;
}
}
#endif

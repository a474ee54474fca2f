// @BUDGET: 120 2400
// @BUILDS: release
// @ASSUME: declaration sequences of up to 3 (thorough 4 over a smaller set) arguments over every kind, flag and name of a small set; descriptions are distinct;; a positional argument declared after a positional multi argument is not judged;; groups of two and three over all kinds, every command line of up to 3 (thorough 4) tokens
#include "cmdline.hpp"
using namespace cl;
namespace {
const char* KN[] = {"switch", "multi-switch", "int value", "string value", "char value", "real value", "int multi", "string multi", "int positional", "string positional", "string positional multi", "int positional multi"};
bool well_formed(const Decl& d) {
  std::string f = d.flag, n = d.name; if (is_pos(d.kind)) f = "";
  if (f.size() > 1) return false; if (n.find('-') != std::string::npos || n.find(' ') != std::string::npos) return false; if (f == "-" || f == " ") return false; return true;
}
// declares one argument; false if refused with a specification error
std::vector<std::unique_ptr<ecl::Arg>>* keep;
bool declare(ecl::CmdLine& cmd, const Decl& d, bool ctor) {
  try {
    if (!ctor) { keep->push_back(make(d)); cmd.add(*keep->back()); return true; }
    std::string f = d.flag, n = d.name, t = d.text; ecl::Arg* a = nullptr;
    switch (d.kind) {
      case Switch: a = new ecl::SwitchArg(f, n, t, cmd, false); break;
      case MultiSwitch: a = new ecl::MultiSwitchArg(f, n, t, cmd, 0); break;
      case IntValue: a = d.constrained ? new ecl::ValueArg<int>(f, n, t, d.required, 7, constraint(), cmd) : new ecl::ValueArg<int>(f, n, t, d.required, 7, "int", cmd); break;
      case StrValue: a = new ecl::ValueArg<std::string>(f, n, t, d.required, "dflt", "string", cmd); break;
      case CharValue: a = new ecl::ValueArg<char>(f, n, t, d.required, 'd', "char", cmd); break;
      case DblValue: a = new ecl::ValueArg<double>(f, n, t, d.required, 0.5, "real", cmd); break;
      case IntMulti: a = d.constrained ? new ecl::MultiArg<int>(f, n, t, d.required, constraint(), cmd) : new ecl::MultiArg<int>(f, n, t, d.required, "int", cmd); break;
      case StrMulti: a = new ecl::MultiArg<std::string>(f, n, t, d.required, "string", cmd); break;
      case IntPos: a = d.constrained ? new ecl::UnlabeledValueArg<int>(n, t, d.required, 7, constraint(), cmd) : new ecl::UnlabeledValueArg<int>(n, t, d.required, 7, "int", cmd); break;
      case StrPos: a = new ecl::UnlabeledValueArg<std::string>(n, t, d.required, "dflt", "string", cmd); break;
      case StrPosMulti: a = new ecl::UnlabeledMultiArg<std::string>(n, t, d.required, "string", cmd); break;
      case IntPosMulti: a = new ecl::UnlabeledMultiArg<int>(n, t, d.required, "int", cmd); break;
    }
    keep->push_back(std::unique_ptr<ecl::Arg>(a)); return true;
  } catch (const ecl::SpecificationException& e) { mc::trace("  refused: %s %s", e.argId().c_str(), e.error().c_str()); return false; }
}
void declarations(const std::vector<Decl>& space, int maxn, bool help) {
  int n = mc::range(1, maxn); bool ctor = mc::flip(); std::vector<std::unique_ptr<ecl::Arg>> args; keep = &args;
  Out out; ecl::CmdLine cmd("message", ' ', "1.0", help); cmd.setOutput(&out);
  std::vector<Decl> have; if (help) { have.push_back({Switch, "h", "help", false, false, "x"}); have.push_back({Switch, "", "version", false, false, "x"}); } have.push_back({Switch, "-", "ignore_rest", false, false, "x"});
  static const char* texts[] = {"first", "second", "third", "fourth"};
  for (int i = 0; i < n; ++i) {
    Decl d = mc::pick(space); d.text = texts[i];
    bool ok = well_formed(d);
    for (auto& o : have) { if (std::string(o.name) == d.name) ok = false; if (!is_pos(d.kind) && !is_pos(o.kind) && *d.flag && std::string(o.flag) == d.flag) ok = false; if (is_pos(d.kind) && is_pos(o.kind)) { if (is_multi(o.kind)) mc::skip(); if (!o.required) ok = false; } }
    mc::trace("declare %s flag '%s' name '%s'%s", KN[d.kind], is_pos(d.kind) ? "" : d.flag, d.name, d.required ? " (required)" : "");
    size_t before = cmd.getArgList().size(); bool got = declare(cmd, d, ctor); mc::step(); mc::validated();
    MC_CHECK(got == ok, got ? "bad-declaration-accepted" : "good-declaration-refused", "%s with flag '%s' and name '%s' was %s", KN[d.kind], d.flag, d.name, got ? "accepted" : "refused");
    MC_CHECK(cmd.getArgList().size() == before + (got ? 1 : 0), "argument-list", "%zu registered arguments after the declaration, %zu before", cmd.getArgList().size(), before);
    if (got) have.push_back(d);
  }
}
}
// one argument: every kind x flag x name
MC_SCENARIO(single, .shard(3)) {
  static std::vector<Decl>* s = nullptr; if (!s) { s = new std::vector<Decl>; for (int k = 0; k <= IntPosMulti; ++k) for (const char* f : {"", "a", "h", "ab", "-", "--", " ", "*", "1", "  ", "-a"}) { if (is_pos((Kind)k) && *f) continue; for (const char* n : {"one", "help", "version", "ignore_rest", "o-ne", "-one", "one-", "--one", "o ne", " one", "one ", "-", "o_n", "x", "one--"}) for (bool r : {false, true}) { if (is_switch((Kind)k) && r) continue; s->push_back({(Kind)k, f, n, r, false, ""}); } } }
  declarations(*s, 1, mc::flip());
}
MC_SCENARIO(sequences, .shard(4)) {
  static std::vector<Decl>* s = nullptr; if (!s) { s = new std::vector<Decl>; for (Kind k : {Switch, IntValue, StrMulti, IntPos, StrPos, StrPosMulti}) for (const char* f : {"", "a", "h"}) { if (is_pos(k) && *f) continue; for (const char* n : {"one", "two", "three", "version"}) for (bool r : {false, true}) { if (k == Switch && r) continue; if (!is_pos(k) && r && k != IntValue) continue; s->push_back({k, f, n, r, false, ""}); } } }
  declarations(*s, 3, mc::thorough() && mc::flip());
}
MC_SCENARIO(long_sequences, .shard(4).only_thorough()) {
  static const std::vector<Decl> s{{Switch, "a", "one", false, false, ""}, {IntValue, "a", "two", true, false, ""}, {MultiSwitch, "b", "two", false, false, ""}, {StrPos, "", "one", true, false, ""}, {StrPos, "", "three", true, false, ""}, {IntPos, "", "four", false, false, ""}, {IntPos, "", "five", true, false, ""}, {StrPosMulti, "", "six", false, false, ""}, {IntMulti, "c", "seven", true, false, ""}, {CharValue, "", "eight", false, false, ""}};
  declarations(s, 4, false);
}
namespace {
struct Case { Config c; std::vector<std::string> tok; };
const std::vector<Case>& groups() {
  static std::vector<Case>* v = new std::vector<Case>{
    {{{{Switch, "a", "alpha", false, false, "A"}, {Switch, "b", "beta", false, false, "B"}, {Switch, "c", "gamma", false, false, "C"}}, {0, 1}}, {"-a", "-b", "-c", "--alpha", "--beta", "-ac", "-ca", "-cb", "-ab", "-abc", "--"}},
    {{{{Switch, "a", "alpha", false, false, "A"}, {IntValue, "n", "num", false, false, "N"}, {StrValue, "s", "str", true, false, "S"}}, {0, 1}}, {"-a", "--alpha", "-n", "--num", "-n=5", "5", "-s", "w", "-s=a", "--"}},
    {{{{StrMulti, "m", "many", false, false, "M"}, {StrMulti, "k", "keys", false, false, "K"}, {StrValue, "c", "one", true, false, "1"}, {StrValue, "d", "two", true, false, "2"}}, {0, 1}}, {"-m=1", "-k=1", "-c=x", "-d=x", "-m=2", "--keys=2", "-m"}},
    {{{{MultiSwitch, "v", "verb", false, false, "V"}, {Switch, "a", "alpha", false, false, "A"}, {Switch, "b", "beta", false, false, "B"}}, {0, 1}}, {"-v", "--verb", "-vv", "-a", "-va", "-bv", "-vb", "-vbv", "-b", "-ba", "-av"}},
    {{{{Switch, "a", "alpha", false, false, "A"}, {IntValue, "n", "num", true, false, "N"}, {IntMulti, "m", "many", false, false, "M"}, {StrValue, "c", "one", true, false, "1"}}, {0, 1, 2}}, {"-a", "-n=5", "-m=5", "-m=6", "-c=x", "--alpha", "-n=6", "-aa"}},
    {{{{IntPos, "", "pos", true, false, "P"}, {Switch, "a", "alpha", false, false, "A"}, {Switch, "b", "beta", false, false, "B"}}, {0, 1}}, {"5", "7", "-a", "--alpha", "-b", "-ba", "--", "x"}},
    {{{{MultiSwitch, "v", "verb", false, false, "V"}, {MultiSwitch, "w", "warn", false, false, "W"}, {IntValue, "n", "num", true, false, "N"}, {IntValue, "m", "mum", true, false, "M"}}, {0, 1}}, {"-v", "-w", "-vw", "-wv", "-ww", "-n=1", "-m=2", "--verb", "--warn"}},
  };
  return *v;
}
}
MC_SCENARIO(groups_enforced, .shard(4)) {
  const Case& k = mc::pick(groups()); static std::map<const Case*, std::vector<std::vector<int>>>* ord = new std::map<const Case*, std::vector<std::vector<int>>>; auto& o = (*ord)[&k]; if (o.empty()) o = orders(k.c);
  const std::vector<int>& order = mc::pick(o); char delim = k.tok[0].size() > 3 ? '=' : mc::flip() ? '=' : ' ';
  int len = mc::range(0, mc::tiered(3, 5)); std::vector<std::string> t; for (int i = 0; i < len; ++i) t.push_back(mc::pick(k.tok));
  check(k.c, order, t, delim);
}

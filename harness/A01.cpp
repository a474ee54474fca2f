// @BUDGET: 120 2400
// @BUILDS: release
// @ASSUME: eight declaration sets over all argument kinds (int, real, char, string), every registration order, delimiters ' ' and '=', every command line of up to 3 (thorough 4) tokens over 12-16 token alphabets per set;; a value may have leading but not trailing blanks, unsigned targets are not judged;; a positional argument takes any token no registered label or switch letter accounts for, including ones starting with a dash;; usage text: descriptions of every length up to 170 with several word lengths
#include "cmdline.hpp"
#include <iostream>
#include <ecl/command_line/docbook_output.hpp>
#include <unistd.h>
#include <sys/wait.h>
using namespace cl;
namespace {
struct Case { Config c; std::vector<std::string> tok; };
const std::vector<Case>& cases() {
  static std::vector<Case>* v = new std::vector<Case>{
    {{{{Switch, "a", "alpha", false, false, "A"}, {Switch, "b", "beta", false, false, "B"}, {IntValue, "n", "num", false, false, "N"}}, {}}, {"-a", "--alpha", "-b", "-ab", "-ba", "-aa", "-az", "-n", "--num", "-n=5", "--num=-12", "5", "-3", "5x", "", "-"}},
    {{{{StrValue, "s", "str", true, false, "S"}, {Switch, "a", "alpha", false, false, "A"}, {IntMulti, "m", "many", false, false, "M"}}, {}}, {"-s", "--str", "-s=aba", "--str=a=b", "-a", "-m", "--many", "-m=4", "6", "99999999999", "a*b", "-s x", "-=3", "--str="}},
    {{{{MultiSwitch, "v", "verb", false, false, "V"}, {Switch, "a", "alpha", false, false, "A"}, {StrPos, "", "pos", false, false, "P"}}, {}}, {"-v", "--verb", "-vv", "-va", "-vav", "-a", "--alpha", "--", "word", "a*b", "-z", "-zv", "", "-", "--other"}},
    {{{{IntPos, "", "first", true, false, "P"}, {StrPos, "", "second", false, false, "Q"}, {Switch, "a", "alpha", false, false, "A"}}, {}}, {"1", "-2", "x", "", "-a", "-aa", "--", "--ignore_rest", "--alpha", "2*3", "1 2", "-"}},
    {{{{IntMulti, "m", "many", true, true, "M"}, {IntValue, "n", "num", false, true, "N"}, {StrPosMulti, "", "rest", false, false, "R"}}, {}}, {"-m", "--many", "-m=5", "-n", "--num", "-n=1", "1", "5", "2", "w", "--", "-n 5", "--num=2"}},
    {{{{Switch, "a", "alpha", false, false, "A"}, {CharValue, "c", "chr", false, false, "C"}, {DblValue, "d", "dbl", false, false, "D"}}, {}}, {"-a", "-c", "--chr", "-c=a", "-c=ab", "-d", "--dbl", "-d=.5", "1e3", "x", "-1.25", "1.5.2", "-ad", "-ca"}},
    {{{{Switch, "", "plain", false, false, "A"}, {Switch, "b", "beta", false, false, "B"}, {MultiSwitch, "", "more", false, false, "M"}, {IntPosMulti, "", "ints", true, false, "I"}}, {}}, {"--plain", "--more", "-b", "-bb", "-", "--", "1", "-7", "z", "--plai", "--plain "}},
    {{{{StrMulti, "s", "set", true, false, "S"}, {StrPos, "", "one", true, false, "1"}, {StrPos, "", "two", true, false, "2"}, {StrPos, "", "three", false, false, "3"}}, {}}, {"-s", "--set", "-s=q", "w", "x y", "--", "-s v", "-q", "=", "--set=", "*"}},
  };
  return *v;
}
}
MC_SCENARIO(lines, .shard(4)) {
  const Case& k = mc::pick(cases()); static std::map<const Case*, std::vector<std::vector<int>>>* ord = new std::map<const Case*, std::vector<std::vector<int>>>; auto& o = (*ord)[&k]; if (o.empty()) o = orders(k.c);
  const std::vector<int>& order = mc::pick(o); char delim = mc::flip() ? '=' : ' ';
  int len = mc::range(0, mc::tiered(3, 4)); std::vector<std::string> t; for (int i = 0; i < len; ++i) t.push_back(mc::pick(k.tok)); 
  check(k.c, order, t, delim);
}
// A command line declared and parsed after, or alive together with, another one is judged as if it were alone.
MC_SCENARIO(sequences, .shard(3)) {
  int first = mc::choose((int)cases().size()), second = mc::choose((int)cases().size()); const Case &a = cases()[first], &b = cases()[second]; char da = mc::flip() ? '=' : ' ', db = mc::flip() ? '=' : ' ';
  static const std::vector<std::vector<std::string>> lines1{{"--"}, {"--", "x"}, {"-a"}, {"1"}, {}}, lines2{{}, {"-n", "5"}, {"-n=5"}, {"-s=a", "-a"}, {"-s", "a", "-a"}, {"-v", "-a"}, {"1", "--alpha"}, {"-m=5"}, {"-m", "5", "w"}, {"-c=a"}, {"-c", "a"}, {"--", "3"}, {"--", "-a"}, {"-s=q", "w", "v"}};
  const std::vector<std::string>& l1 = mc::pick(lines1); bool together = mc::flip(); const std::vector<std::string>& l2 = mc::pick(lines2);
  std::vector<int> o1, o2; for (size_t i = 0; i < a.c.d.size(); ++i) o1.push_back((int)i); for (size_t i = 0; i < b.c.d.size(); ++i) o2.push_back((int)i);
  if (!together) { check(a.c, o1, l1, da); check(b.c, o2, l2, db); check(a.c, o1, l1, da); }
  else {   // both declared before either is parsed
    Out out; ecl::CmdLine outer("outer", da, "1.0", false); outer.setOutput(&out); std::vector<std::unique_ptr<ecl::Arg>> args;
    try { for (auto& d : a.c.d) { args.push_back(make(d)); outer.add(*args.back()); } } catch (const ecl::ArgException& e) { mc::fail("declaration-refused", "a consistent declaration was refused: %s %s", e.argId().c_str(), e.error().c_str()); }
    check(b.c, o2, l2, db);
    Result want = reference(a.c, l1, da); bool ok = true; try { parse(outer, l1); } catch (const Failed&) { ok = false; }
    mc::step(); mc::validated(); MC_CHECK(ok == want.ok, "depends-on-another-line", "%s %s after another command line was declared and parsed", show(l1).c_str(), ok ? "accepted" : "refused");
    if (ok) for (size_t i = 0; i < args.size(); ++i) MC_CHECK(value_of(args[i].get(), a.c.d[i].kind) == want.values[i].v && args[i]->isSet() == want.values[i].set, "depends-on-another-line", "argument %s after %s", a.c.d[i].name, show(l1).c_str());
  }
}
// Help and version requests, in every position and inside combined switches.
MC_SCENARIO(help) {
  static const std::vector<std::string> tok{"-h", "--help", "--version", "-ah", "-ha", "-a", "x", "--"};
  int len = mc::range(0, 3); std::vector<std::string> t; for (int i = 0; i < len; ++i) t.push_back(mc::pick(tok));
  std::string want = "parsed"; bool a = false; for (auto& s : t) { if (s == "-h" || s == "--help" || s == "-ah" || s == "-ha") { bool dup = a && s[1] != 'h' && s != "--help"; if (dup) { want = "?"; break; } want = (a && s == "-ha") ? "?" : "usage"; break; } if (s == "--version") { want = "version"; break; } if (s == "-a") { if (a) { want = "failed"; break; } a = true; } if (s == "x") { want = "failed"; break; } if (s == "--") break; }
  if (want == "?") mc::skip();
  std::string got = "parsed"; Out out; ecl::CmdLine cmd("message", ' ', "1.0"); cmd.setOutput(&out); ecl::SwitchArg sw("a", "alpha", "A", cmd);
  try { parse(cmd, t); } catch (const Failed&) { got = "failed"; } catch (const Asked& q) { got = q.what; }
  mc::step(); mc::validated(); MC_CHECK(got == want, "help", "%s: %s, expected %s", show(t).c_str(), got.c_str(), want.c_str());
}
// With the standard output handler the process ends with the documented status and the right stream is written.
MC_SCENARIO(exit_status, .fork_each()) {
  int which = mc::choose(4); static const std::vector<std::vector<std::string>> l{{"-h"}, {"--version"}, {"-x"}, {"-a"}}; static int expect[] = {0, 0, 1, -1};
  std::string f = std::string(mc::scratch_dir()) + "/out"; int p[2]; if (pipe(p)) mc::skip(); fflush(nullptr);
  pid_t c = fork();
  if (!c) { close(p[0]); dup2(p[1], 1); dup2(p[1], 2); { ecl::CmdLine cmd("the message", ' ', "4.2"); ecl::SwitchArg sw("a", "alpha", "describes alpha", cmd); parse(cmd, l[which]); } _exit(77); }
  close(p[1]); std::string text; char b[512]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) text.append(b, n); close(p[0]); int st = 0; waitpid(c, &st, 0);
  mc::step(); mc::validated(); MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == (expect[which] < 0 ? 77 : expect[which]), "exit-status", "%s ended with %d", show(l[which]).c_str(), st);
  const char* must[] = {"describes alpha", "4.2", "PARSE ERROR", ""}; MC_CHECK(text.find(must[which]) != std::string::npos, "help-text", "%s printed %s", show(l[which]).c_str(), mc::show(text).c_str());
  if (which == 0) MC_CHECK(text.find("the message") != std::string::npos && text.find("--alpha") != std::string::npos && text.find("--help") != std::string::npos, "help-text", "usage printed %s", mc::show(text).c_str());
}
// The usage text carries every word of every description whatever its length, and lines keep to the page width.
MC_SCENARIO(usage_text, .shard(2)) {
  int words = mc::choose(5), len = mc::range(0, 170); static const int wl[] = {1, 3, 7, 40, 200}; bool grouped = mc::flip(), lines = mc::flip(); int pl = mc::pick((const int[]){1, 30, 60});
  std::string text; for (int i = 0; i < len; ++i) text += (i % (wl[words] + 1) == wl[words]) ? (lines ? '\n' : ' ') : (char)('a' + i % 26); 
  struct Plain : public ecl::StdOutput {} out; std::ostringstream cap; std::streambuf* old = std::cout.rdbuf(cap.rdbuf());
  std::string err;
  { ecl::CmdLine cmd("msg " + text, ' ', "1.0", false); cmd.setOutput(&out); ecl::SwitchArg a("a", "alpha", text, false); ecl::ValueArg<int> n("n", "num", "N" + text, true, 3, "int"); ecl::MultiArg<std::string> m("", "many", "M" + text, false, "string"); ecl::UnlabeledValueArg<int> p("posn", "P" + text, true, 1, "ptype");
    std::vector<ecl::Arg*> g{&a, &m}; if (grouped) cmd.xorAdd(g); else { cmd.add(a); cmd.add(m); } cmd.add(n); cmd.add(p); cmd.getProgramName() = std::string(pl, 'p'); out.usage(cmd); }
  std::cout.rdbuf(old);
  auto squeeze = [](const std::string& s) { std::string r; for (char c : s) if (c != ' ' && c != '\n') r += c; return r; };
  std::string s = squeeze(cap.str()); mc::step(); mc::validated();
  for (const std::string& w : {"--alpha", "--num", "--many", "<ptype>", "-n<int>", "M" , "N", "P"}) { std::string q = w.size() == 1 ? squeeze(w + text) : w; MC_CHECK(s.find(q) != std::string::npos, "usage-incomplete", "usage text lacks %s", q.c_str()); }
  MC_CHECK(s.find(squeeze("msg " + text)) != std::string::npos, "usage-incomplete", "the message is missing");
  auto times = [&](const std::string& w) { int k = 0; for (size_t i = s.find(w); i != std::string::npos; i = s.find(w, i + 1)) ++k; return k; }; // each of them in the synopsis and in the description, the long names at least in the latter
  MC_CHECK(times("-n<int>") >= 2 && times("-a") - times("--alpha") >= 2 && times("--many<string>") >= 2 && times("<ptype>") >= 2 && times("--num<int>") >= 1, "usage-incomplete", "a flag, name or type is missing from the synopsis or the description: %s", s.c_str());
  if (wl[words] <= 7) { std::istringstream is(cap.str()); std::string line; while (std::getline(is, line)) MC_CHECK(line.size() <= 80, "usage-width", "line of %zu characters", line.size()); }
}

// Every way of constructing an argument (registering itself or added later; constrained or not; with a visitor or not; any default) declares the same argument.
struct Counting : public ecl::Visitor { int n; Counting() : n(0) {} virtual void visit() { ++n; } };
template <class T> ecl::Arg* kinds(int kind, bool self, bool constrained, bool req, T def, ecl::Constraint<T>* k, ecl::CmdLine& cmd, ecl::Visitor* v) {
  switch (kind) {
    case 0: if (self) return constrained ? new ecl::ValueArg<T>("n", "num", "N", req, def, k, cmd, v) : new ecl::ValueArg<T>("n", "num", "N", req, def, "type", cmd, v); return constrained ? new ecl::ValueArg<T>("n", "num", "N", req, def, k, v) : new ecl::ValueArg<T>("n", "num", "N", req, def, "type", v);
    case 1: if (self) return constrained ? new ecl::MultiArg<T>("n", "num", "N", req, k, cmd, v) : new ecl::MultiArg<T>("n", "num", "N", req, "type", cmd, v); return constrained ? new ecl::MultiArg<T>("n", "num", "N", req, k, v) : new ecl::MultiArg<T>("n", "num", "N", req, "type", v);
    case 2: if (self) return constrained ? new ecl::UnlabeledValueArg<T>("num", "N", req, def, k, cmd, false, v) : new ecl::UnlabeledValueArg<T>("num", "N", req, def, "type", cmd, false, v); return constrained ? new ecl::UnlabeledValueArg<T>("num", "N", req, def, k, false, v) : new ecl::UnlabeledValueArg<T>("num", "N", req, def, "type", false, v);
    default: if (self) return constrained ? new ecl::UnlabeledMultiArg<T>("num", "N", req, k, cmd, false, v) : new ecl::UnlabeledMultiArg<T>("num", "N", req, "type", cmd, false, v); return constrained ? new ecl::UnlabeledMultiArg<T>("num", "N", req, k, false, v) : new ecl::UnlabeledMultiArg<T>("num", "N", req, "type", false, v);
  }
}
MC_SCENARIO(constructors) {
  int kind = mc::choose(6); bool self = mc::flip(), constrained = kind < 4 && mc::flip(), req = kind < 4 && mc::flip(), visited = mc::flip(); int def = mc::choose(kind == 4 ? 2 : 3); static const std::vector<std::string> tok{"-n", "--num", "-n=5", "5", "1", "3", "--", "-na", "-a"}; char delim = mc::flip() ? '=' : ' '; int len = mc::range(0, mc::tiered(2, 3)); std::vector<std::string> t; for (int i = 0; i < len; ++i) t.push_back(mc::pick(tok));
  static const Kind kk[] = {IntValue, IntMulti, IntPos, IntPosMulti, Switch, MultiSwitch}; Config c{{{kk[kind], kind == 2 || kind == 3 ? "" : "n", "num", req, constrained, "N"}, {Switch, "a", "alpha", false, false, "A"}}, {}}; Result want = reference(c, t, delim);
  Counting v; Out out; std::string got, err; bool ok = true, set = false, dup = false; int sw = 0; bool multi = false, reqd = false; std::string sid, lid;
  try { ecl::CmdLine cmd("message", delim, "1.0", false); cmd.setOutput(&out); std::unique_ptr<ecl::Arg> a; ecl::Visitor* vp = visited ? &v : nullptr; std::vector<int> allow{1, 5}; ecl::ValuesConstraint<int> vc(allow);
    if (kind < 4) a.reset(kinds<int>(kind, self, constrained, req, def, &vc, cmd, vp)); else if (kind == 4) a.reset(self ? new ecl::SwitchArg("n", "num", "N", cmd, def == 1, vp) : new ecl::SwitchArg("n", "num", "N", def == 1, vp)); else a.reset(self ? (def || visited ? new ecl::MultiSwitchArg("n", "num", "N", cmd, def, vp) : new ecl::MultiSwitchArg("n", "num", "N", cmd)) : (def || visited ? new ecl::MultiSwitchArg("n", "num", "N", def, vp) : new ecl::MultiSwitchArg("n", "num", "N")));
    if (!self) cmd.add(a.get()); ecl::SwitchArg other("a", "alpha", "A", cmd); multi = a->acceptsMultipleValues(); reqd = a->isRequired(); sid = a->shortID(); lid = a->longID();
    MC_CHECK(a->getName() == "num" && a->getFlag() == c.d[0].flag && a->getDescription().find("N") != std::string::npos && !a->isSet() && a->isValueRequired() == (kind < 4), "constructed", "the argument does not know its own declaration");
    try { parse(cmd, t); } catch (const Failed& f) { ok = false; err = f.what; } got = value_of(a.get(), kk[kind]); set = a->isSet(); sw = other.getValue();
  } catch (const ecl::ArgException& e) { mc::fail("declaration-refused", "a consistent declaration was refused: %s %s", e.argId().c_str(), e.error().c_str()); }
  (void)dup; mc::step(); mc::validated(); std::string w = want.ok ? want.values[0].v : ""; if (want.ok && kind == 4 && def == 1) w = w == "=1" ? "=0" : "=1"; if (want.ok && kind == 5) w = "=" + std::to_string(atoi(w.c_str() + 1) + def); if (want.ok && (kind == 0 || kind == 2) && !want.values[0].set) w = "=" + std::to_string(def);
  MC_CHECK(multi == (kind == 1 || kind == 3) && reqd == (req && kind < 4), "constructed", "required or repeatable status wrong"); MC_CHECK((kind >= 4) || (sid.find(constrained ? "<1|5>" : "<type>") != std::string::npos && lid.find(constrained ? "<1|5>" : "<type>") != std::string::npos), "constructed", "the value is described as %s and %s", sid.c_str(), lid.c_str());
  MC_CHECK(ok == want.ok, ok ? "bad-line-accepted" : "good-line-refused", "%s with delimiter '%c' %s", show(t).c_str(), delim, err.c_str()); if (!ok) return;
  MC_CHECK(got == w && set == want.values[0].set && sw == (want.values[1].set ? 1 : 0), "wrong-value", "after %s the argument holds %s (%sset), expected %s", show(t).c_str(), got.c_str(), set ? "" : "not ", w.c_str());
  if (kind != 2 && kind != 3) MC_CHECK((v.n > 0) == (visited && set), "visitor", "the visitor was called %d times", v.n);
}
// The DocBook writer: every argument once in the synopsis (inside its group) and once in the description, special characters escaped, alternatives of a group told apart.
MC_SCENARIO(docbook) {
  int groups = mc::choose(4), size1 = mc::range(2, 3); bool req = mc::flip(), multi = mc::flip(), constrained = mc::flip(); int special = mc::choose(4); static const char* sp[] = {"", "<x>", "a<b", ">>y<<"}; std::string sx = sp[special], esc; for (char c : sx) esc += c == '<' ? "&lt;" : c == '>' ? "&gt;" : std::string(1, c);
  std::ostringstream cap, capv; std::string progname = "prog"; ecl::DocBookOutput out;
  { ecl::CmdLine cmd("the message", ' ', "7.25", false); cmd.setOutput(&out); std::vector<int> ok{1, 2, 30}; ecl::ValuesConstraint<int> vc(ok);
    ecl::SwitchArg a("a", "alpha", "first" + sx, false), b("b", "beta", "second" + sx, false), c("c", "gamma", "third" + sx, false), d("d", "delta", "fourth" + sx, false), e("e", "epsilon", "fifth" + sx, false);
    std::unique_ptr<ecl::Arg> n; if (multi) { if (constrained) n.reset(new ecl::MultiArg<int>("n", "num", "sixth" + sx, req, &vc)); else n.reset(new ecl::MultiArg<int>("n", "num", "sixth" + sx, req, "number")); } else if (constrained) n.reset(new ecl::ValueArg<int>("n", "num", "sixth" + sx, req, 1, &vc)); else n.reset(new ecl::ValueArg<int>("n", "num", "sixth" + sx, req, 1, "number"));
    ecl::UnlabeledValueArg<int> p("pos", "seventh" + sx, false, 1, "place"); 
    std::vector<ecl::Arg*> g1{&a, &b}, g2{&d, &e}; if (size1 == 3) g1.push_back(&c); else cmd.add(c); if (groups & 1) cmd.xorAdd(g1); else { cmd.add(a); cmd.add(b); if (size1 == 3) cmd.add(c); } if (groups & 2) cmd.xorAdd(g2); else { cmd.add(d); cmd.add(e); } cmd.add(n.get()); cmd.add(p); cmd.getProgramName() = progname;
    std::streambuf* old = std::cout.rdbuf(cap.rdbuf()); out.usage(cmd); std::cout.rdbuf(capv.rdbuf()); out.version(cmd); std::cout.rdbuf(old); }
  mc::step(); mc::validated(); std::string s = cap.str(); auto count = [](const std::string& t, const std::string& w) { int k = 0; for (size_t i = t.find(w); i != std::string::npos; i = t.find(w, i + w.size())) ++k; return k; };
  MC_CHECK(capv.str().find("7.25") != std::string::npos, "docbook-version", "the version is not printed");
  size_t syn = s.find("<cmdsynopsis>"), end = s.find("</cmdsynopsis>"), opt = s.find("<title>Options</title>"), ver = s.find("<title>Version</title>"); MC_CHECK(syn != std::string::npos && end != std::string::npos && opt != std::string::npos && ver != std::string::npos && syn < end && end < opt && opt < ver, "docbook-sections", "a section is missing"); std::string brief = s.substr(syn, end - syn), longer = s.substr(opt, ver - opt);
  MC_CHECK(s.substr(end, opt - end).find("the message") != std::string::npos && s.substr(ver).find("7.25") != std::string::npos && brief.find(progname) != std::string::npos, "docbook-sections", "the message, program name or version is missing");
  std::string value = constrained ? "1|2|30" : "number"; bool inGroup[3] = {false, false, false}; (void)inGroup;
  struct W { const char *flag, *name, *desc; }; static const W ws[] = {{"-a", "--alpha", "first"}, {"-b", "--beta", "second"}, {"-c", "--gamma", "third"}, {"-d", "--delta", "fourth"}, {"-e", "--epsilon", "fifth"}, {"-n", "--num", "sixth"}};
  for (const W& w : ws) { MC_CHECK(count(brief, std::string(">") + w.flag) == 1, "docbook-argument", "the synopsis names %s %d times: %s", w.flag, count(brief, std::string(">") + w.flag), brief.c_str()); MC_CHECK(count(longer, w.name) == 1 && count(longer, w.desc + esc + "\n") == 1, "docbook-argument", "the description of %s is missing or doubled: %s", w.name, longer.c_str()); }
  MC_CHECK(count(longer, "seventh" + esc + "\n") == 1 && count(brief, "&lt;place&gt;") == 1 && count(longer, "&lt;place&gt;") == 1 && count(brief, "&lt;" + value + "&gt;") == 1 && count(longer, "&lt;" + value + "&gt;") >= 1, "docbook-argument", "the positional argument or the value type is wrong: %s", s.c_str());
  for (const char* tag : {"book", "refentry", "refmeta", "refentrytitle", "refnamediv", "refname", "cmdsynopsis", "command", "refsect1", "title", "para", "itemizedlist", "simplelist", "member", "group", "arg", "listitem"}) { std::string t = tag; MC_CHECK(count(s, "<" + t + ">") + count(s, "<" + t + " ") == count(s, "</" + t + ">"), "docbook-balance", "<%s> is not balanced", tag); }
  { size_t l = s.find('<'); bool inTag = false; (void)l; for (char c : s) { if (c == '<') { MC_CHECK(!inTag, "docbook-escape", "an unescaped < in the text"); inTag = true; } else if (c == '>') { MC_CHECK(inTag, "docbook-escape", "an unescaped > in the text"); inTag = false; } } }
  int want = ((groups & 1) ? size1 - 1 : 0) + ((groups & 2) ? 1 : 0); MC_CHECK(count(longer, ">OR<") == want, "docbook-or", "%d alternatives are told apart, expected %d", count(longer, ">OR<"), want); MC_CHECK(count(brief, "<group") == (groups & 1) + (groups >> 1), "docbook-group", "the synopsis has %d groups", count(brief, "<group"));
  size_t pn = brief.find(">-n"); MC_CHECK(pn != std::string::npos, "docbook-argument", "no -n"); std::string tag = brief.substr(brief.rfind("<arg", pn)); MC_CHECK((tag.find("choice='req'") < tag.find("</arg>")) == req && (tag.find("repeat='repeat'") < tag.find("</arg>")) == multi, "docbook-kind", "-n is described as %s", tag.substr(0, tag.find("</arg>")).c_str());
}
// A value may contain dashes: a negative number in scientific notation, a word with dashes.
MC_SCENARIO(dashed_values) {
  static const char* const nums[] = {"-1e-3", "-2.5e-10", "-7", "1e-3", "-1-", "--", "-e-"}; static const char* const words[] = {"-x-y", "x-y", "-xy", "-", "-x-"}; bool number = mc::flip(), labeled = mc::flip(), before = mc::flip(), after = mc::flip(); std::string t = number ? nums[mc::choose(3 + 1)] : words[mc::choose(5)];
  Out out; mc::step(); mc::validated(); mc::trace("%s", t.c_str()); std::string err; bool ok = true; ecl::CmdLine cmd("message", ' ', "1.0", false); cmd.setOutput(&out); ecl::SwitchArg a("a", "alpha", "A", cmd), b("b", "beta", "B", cmd); std::unique_ptr<ecl::ValueArg<double>> n; std::unique_ptr<ecl::ValueArg<std::string>> w;
  if (number) n.reset(labeled ? new ecl::ValueArg<double>("n", "num", "N", true, 99, "number", cmd) : new ecl::UnlabeledValueArg<double>("num", "N", true, 99, "number", cmd)); else w.reset(labeled ? new ecl::ValueArg<std::string>("n", "num", "N", true, "none", "word", cmd) : new ecl::UnlabeledValueArg<std::string>("num", "N", true, "none", "word", cmd));
  std::vector<std::string> l; if (before) l.push_back("-a"); if (labeled) l.push_back("-n"); l.push_back(t); if (after) l.push_back("-b"); try { parse(cmd, l); } catch (const Failed& f) { ok = false; err = f.what; }
  MC_CHECK(ok, "good-line-refused", "%s is refused: %s", show(l).c_str(), err.c_str()); MC_CHECK(a.getValue() == before && b.getValue() == after, "wrong-value", "%s sets the switches to %d %d", show(l).c_str(), a.getValue(), b.getValue());
  if (number) MC_CHECK(n->getValue() == strtod(t.c_str(), nullptr), "wrong-value", "%s reads as %g", show(l).c_str(), n->getValue()); else MC_CHECK(w->getValue() == t, "wrong-value", "%s reads as %s", show(l).c_str(), w->getValue().c_str());
}

// C18 The command line survives and faithfully executes every command.
// MC: {"cli": true, "libs": ["-Wl,--as-needed", "-lreadline"]}
#include "session.hpp"
#include <regex>
using namespace u;
static mc::Check K;
int onex_cli_main(int, char**);

// ---- the terminal, owned by the driver -----------------------------------------------------------
struct Terminal { std::vector<std::string> script; std::vector<bool> eof; size_t next = 0; std::vector<std::string> said; std::stringbuf* out = nullptr; mc::Ctx* c = nullptr; int past = 0; std::string history; };
static Terminal T;
extern "C" char* readline(const char*) {
  T.said.push_back(T.out->str()); T.out->str("");
  if (T.next >= T.script.size()) { if (++T.past > 50) throw mc::Fail{"the program does not end at a repeated end of input"}; return nullptr; }
  size_t i = T.next++; if (T.eof[i]) return nullptr; return strdup(T.script[i].c_str());
}
extern "C" void add_history(const char* s) { T.history += s; T.history += "\n"; }
static const char* EOFLINE = "\x01" "EOF";
// Runs the program on a script.  Result: what it said after each line (index 0: the welcome), the exit status.
static int run(mc::Ctx& c, const std::vector<std::string>& lines, std::vector<std::string>& said) {
  std::stringbuf sb; T = Terminal(); T.out = &sb; T.c = &c; for (auto& l : lines) { T.eof.push_back(l == EOFLINE); T.script.push_back(l); }
  std::cout.copyfmt(std::ios(nullptr)); std::cout.clear(); std::cout.rdbuf(&sb); char name[] = "onex"; char* av[] = {name, nullptr};
  struct Restore { ~Restore() { std::cout.rdbuf(&env::nullBuf()); std::cout.copyfmt(std::ios(nullptr)); T.out = nullptr; } } restore;
  int rc; try { rc = onex_cli_main(1, av); } catch (const mc::Fail&) { throw; } catch (const std::exception& e) { c.fail("an exception leaves the program: %s", e.what()); }
  said = T.said; said.push_back(sb.str()); c.op((int)lines.size()); return rc;
}
static bool error(const std::string& s) { std::istringstream is(s); std::string l; while (std::getline(is, l)) if (l.compare(0, 6, "Error!") == 0) return true; return false; }
static std::vector<std::string> tokens(const std::string& l) { std::istringstream is(l); std::vector<std::string> v; std::string w; while (std::getline(is, w, ' ')) if (!w.empty()) v.push_back(w); return v; }
static std::string oneLine(const std::string& s) { std::string o = s; for (char& ch : o) if (ch == '\n') ch = '|'; return o.substr(0, 500); }

// ---- what a line has to do, executed on the library ------------------------------------------------
struct Answer { bool err = false, quiet = false, any = false; std::vector<std::pair<std::string, std::string>> figures; double dist = -1; int timed = -1; std::string savedCli, savedRef; };
static int integer(const std::string& s) { long long v; if (!ref::isInt(s, v) || v > 2147483647LL || v < -2147483648LL) throw OnexException("not an integer"); return (int)v; }
static Answer expect(mc::Ctx& c, OnexAPI& a, const std::string& line, bool& timer) {
  Answer e; std::vector<std::string> t = tokens(line); if (t.empty() || t[0].compare(0, 2, "//") == 0) { e.quiet = true; return e; }
  size_t n = t.size() - 1; const std::string& k = t[0]; auto need = [&](size_t lo, size_t hi) { if (n < lo || n > hi) throw OnexException("arguments"); };
  std::string twin = c.file("twin");
  auto infoFigures = [&](const dataset_info_t& i) { e.figures = {{"Name:", i.name}, {"ID:", fmt("%d", i.id)}, {"Item count:", fmt("%d", i.itemCount)}, {"Item length:", fmt("%d", i.itemLength)}}; };
  try {
    if (k == "help") { need(0, 1); static const std::set<std::string> H{"help", "exit", "quit", "load", "save", "unload", "list", "timer", "group", "saveGroup", "loadGroup", "normalize", "paa", "match"}; if (n == 1 && !H.count(t[1])) throw OnexException("no such help"); if (n == 1 && t[1] != "help") e.figures = {}; }
    else if (k == "load") { need(1, 4); int r = n > 1 ? integer(t[2]) : 0, s = n > 2 ? integer(t[3]) : 0; infoFigures(a.loadDataset(t[1], r, s, n > 3 ? t[4] : " ")); }
    else if (k == "save") { need(2, 3); int i = integer(t[1]); a.saveDataset(i, t[2] == c.dir + "/o" ? twin : t[2], n == 3 ? t[3][0] : ' '); if (t[2] == c.dir + "/o") { e.savedCli = t[2]; e.savedRef = twin; } }
    else if (k == "unload") { need(1, 1); a.unloadDataset(integer(t[1])); }
    else if (k == "list") { need(1, 1); if (t[1] == "dataset") e.figures = {{"There are", fmt("%d", a.getDatasetCount())}}; else if (t[1] != "distance") throw OnexException("object"); }
    else if (k == "timer") { need(0, 1); if (n == 1) { if (t[1] == "on") timer = true; else if (t[1] == "off") timer = false; else throw OnexException("timer"); } e.figures = {{"Timer is", timer ? "ON" : "OFF"}}; }
    else if (k == "group") { need(2, 2); int i = integer(t[1]); double v; if (!ref::isNum(t[2], v) || std::isinf(v)) throw OnexException("threshold"); e.figures = {{"Number of Groups:", fmt("%d", a.groupDataset(i, v))}}; e.timed = timer; }
    else if (k == "saveGroup") { need(2, 3); int i = integer(t[1]); bool z = n == 3 ? integer(t[3]) : 0; a.saveGroup(i, t[2] == c.dir + "/o" ? twin : t[2], z); if (t[2] == c.dir + "/o") { e.savedCli = t[2]; e.savedRef = twin; } }
    else if (k == "loadGroup") { need(2, 2); int i = integer(t[1]); int g = a.loadGroup(i, t[2]); e.figures = {{"", fmt("%d groups loaded", g)}}; }
    else if (k == "normalize") { need(1, 1); a.normalizeDataset(integer(t[1])); }
    else if (k == "paa") { need(2, 2); int i = integer(t[1]), b = integer(t[2]); infoFigures(a.PAA(i, b)); }
    else if (k == "match") { need(3, 5); if (n == 4) throw OnexException("start without end"); int x = integer(t[1]), y = integer(t[2]), z = integer(t[3]), s = n == 5 ? integer(t[4]) : -1, f = n == 5 ? integer(t[5]) : -1; candidate_time_series_t m = a.getBestMatch(x, y, z, s, f); e.figures = {{"timeseries", fmt("%d", m.data.getIndex())}, {"starting at", fmt("%d", m.data.getStart())}, {"with length", fmt("%d", m.data.getLength())}}; e.dist = m.dist; e.timed = timer; }
    else throw OnexException("unknown command");
  } catch (const OnexException&) { e = Answer(); e.err = true; }
  return e;
}
static void judge(mc::Ctx& c, const Answer& e, const std::string& line, const std::string& out) {
  c.checked(); bool isErr = error(out); std::string show = oneLine(out);
  if (e.err != isErr) c.fail("'%s' %s:\n  %s", line.c_str(), isErr ? "was answered with an error although the operation succeeds" : "has to be answered with a line starting with 'Error!'", show.c_str());
  if (e.quiet && out.find_first_not_of(" \n") != std::string::npos) c.fail("a comment or blank line was answered: %s", show.c_str());
  for (auto& f : e.figures) {
    size_t p = out.find(f.first); bool ok = p != std::string::npos; if (ok) { p += f.first.size(); while (p < out.size() && out[p] == ' ') p++; if (f.first.empty()) ok = out.find(f.second) != std::string::npos && (out.find(f.second) == 0 || !isdigit((unsigned char)out[out.find(f.second) - 1])); else ok = out.compare(p, f.second.size(), f.second) == 0 && (p + f.second.size() == out.size() || !isalnum((unsigned char)out[p + f.second.size()])); }
    if (!ok) c.fail("'%s' should report %s %s:\n  %s", line.c_str(), f.first.c_str(), f.second.c_str(), show.c_str());
  }
  if (e.timed >= 0 && (out.find("Command executed in ") != std::string::npos) != (e.timed == 1)) c.fail("'%s' with the timer %s:\n  %s", line.c_str(), e.timed ? "on" : "off", show.c_str());
  if (e.dist >= 0) { size_t p = out.find("Distance = "); double d = p == std::string::npos ? -1 : strtod(out.c_str() + p + 11, nullptr); if (!(std::fabs(d - e.dist) <= 1e-3 * e.dist + 1e-12)) c.fail("'%s' should report distance %g:\n  %s", line.c_str(), e.dist, show.c_str()); }
  if (!e.savedCli.empty()) { if (get(e.savedCli) != get(e.savedRef)) c.fail("'%s' stored other content than the library operation:\n%s", line.c_str(), diff(get(e.savedRef), get(e.savedCli)).c_str()); unlink(e.savedCli.c_str()); }
  mc::Hash h; h.u(e.err); h.s(line.substr(0, line.find(' '))); for (auto& f : e.figures) h.s(f.second); c.observe(h);
}
// the lines that make the program show its whole state, and the comparison with the library session
static std::vector<std::string> probes(mc::Ctx& c, OnexAPI& a) { std::vector<std::string> v{"list dataset"}; for (auto& i : a.getAllDatasetInfo()) { v.push_back(fmt("save %d %s/p%d", i.id, c.dir.c_str(), i.id)); if (i.isGrouped) v.push_back(fmt("saveGroup %d %s/q%d", i.id, c.dir.c_str(), i.id)); } return v; }
static void judgeState(mc::Ctx& c, OnexAPI& a, const std::vector<std::string>& said, size_t at) {
  vector<dataset_info_t> l = a.getAllDatasetInfo(); const std::string& out = said[at]; std::istringstream is(out); std::string line; std::vector<std::string> rows; bool head = false;
  while (std::getline(is, line)) { if (line.find("There are ") == 0) { head = true; if (atoi(line.c_str() + 10) != (int)l.size()) c.fail("the list counts %s, %zu datasets are expected", line.c_str(), l.size()); } else if (line.find_first_not_of(' ') != std::string::npos) rows.push_back(line); }
  if (!head || rows.size() != l.size()) c.fail("the dataset list shows %zu datasets, %zu are expected: %s", rows.size(), l.size(), oneLine(out).c_str());
  size_t k = at; std::string f = c.file("s");
  for (size_t i = 0; i < l.size(); i++) {
    std::istringstream r(rows[i]); int id = -1; std::string name; r >> id >> name; bool nm = rows[i].find("Normalized") != std::string::npos, gr = rows[i].find("Grouped") != std::string::npos;
    if (id != l[i].id || name != l[i].name || nm != l[i].isNormalized || gr != l[i].isGrouped) c.fail("the list shows '%s', expected id %d %s normalised %d grouped %d", rows[i].c_str(), l[i].id, l[i].name.c_str(), l[i].isNormalized, l[i].isGrouped);
    k++; if (error(said[k])) c.fail("saving dataset %d failed: %s", id, oneLine(said[k]).c_str()); a.saveDataset(id, f, ' '); if (get(f) != get(fmt("%s/p%d", c.dir.c_str(), id))) c.fail("dataset %d holds other values than after the same library operations", id);
    if (l[i].isGrouped) { k++; if (error(said[k])) c.fail("saving groups of %d failed: %s", id, oneLine(said[k]).c_str()); a.saveGroup(id, f, false); if (get(f) != get(fmt("%s/q%d", c.dir.c_str(), id))) c.fail("dataset %d holds other groups than after the same library operations", id); }
  }
  c.checked();
}
// lines before and after: the program keeps its datasets between runs, so it is emptied at the end
static const std::vector<std::string>& files(mc::Ctx& c) {
  static std::vector<std::string> F; if (!F.empty()) return F; std::string d = c.dir; auto keep = [&](const char* n, const std::string& x) { put(d + "/" + n, x); F.push_back(d + "/" + n); };
  keep("a.txt", "0 1 3 1\n2 2 0 3\n"); keep("b.csv", "9,5,1,4\n9,1,2.5,3\n"); keep("ragged", "1 2\n3\n"); F.push_back(d + "/missing"); { GroupableTimeSeriesSet s; s.loadData(F[0], 0, 0, " "); s.groupAllLengths("euclidean", 2); s.saveGroups(d + "/ga", false); } F.push_back(d + "/ga"); keep("gbad", "1 2 2 4\n"); F.push_back(d + "/o"); return F;
}
static void session(mc::Ctx& c, const std::vector<std::string>& lines, const char* quit) {
  OnexAPI pre, b; bool tm = true; std::vector<std::string> part{"timer on"}, said; for (auto& l : lines) part.push_back(l);
  for (auto& l : lines) expect(c, pre, l, tm);                       // decides what can be probed
  size_t ta = part.size(); part.push_back("timer"); size_t pa = part.size(); for (auto& p : probes(c, pre)) part.push_back(p);
  for (auto& i : pre.getAllDatasetInfo()) part.push_back(fmt("unload %d", i.id));
  part.push_back("list dataset"); size_t la = part.size() - 1; part.push_back(quit);
  unlink((c.dir + "/o").c_str()); int rc = run(c, part, said); if (rc != 0) c.fail("the program ended with status %d", rc);
  if (said.size() != part.size() + 1) c.fail("the program ended after %zu of %zu lines", said.size() - 1, part.size());
  tm = true; for (size_t i = 0; i < lines.size(); i++) { Answer e = expect(c, b, lines[i], tm); if (i + 1 != lines.size()) e.savedCli.clear(); judge(c, e, lines[i], said[i + 2]); }
  const std::string& ts = said[ta + 1]; if (ts.find(tm ? "Timer is ON" : "Timer is OFF") == std::string::npos) c.fail("the timer should be %s after these lines: %s", tm ? "on" : "off", oneLine(ts).c_str());
  judgeState(c, b, said, pa + 1); if (said[la + 1].find("There are 0 ") == std::string::npos) c.fail("not everything could be unloaded: %s", oneLine(said[la + 1]).c_str());
}
int init = [] {
  K.property = "C18"; K.before = u::reset;
  K.rule = "the real main loop is run on every script of the bounds (commands x argument counts x argument kinds from several states; histories; end-of-input dialogues); each answer is compared with the same operation on OnexAPI, and the resulting state (list, stored data, stored groups) with the library session's";
  K.assumptions = {"arguments contain no spaces (the command line has no quoting)", "tokens such as '1x' or '1.5' where an integer is due are not judged", "reported distances are compared to 3 significant digits"};
  K.add("every command with every number of arguments of every kind, from several states", 3, [](mc::Ctx& c) {
    const std::vector<std::string>& F = files(c); std::string a = F[0], b = F[1]; static const std::vector<const char*> CMD{"load", "save", "unload", "list", "timer", "group", "saveGroup", "loadGroup", "normalize", "paa", "match"};
    std::vector<std::vector<std::string>> pre{{}, {"load " + a, "load " + b + " 0 1 ,"}, {"load " + a, "load " + a, "group 0 2", "normalize 1"}}; int st = c.choose((int)pre.size()), ci = c.choose((int)CMD.size()); std::string k = CMD[ci];
    std::vector<std::string> num{"0", "1", "7", "-1", "x", "99999999999"}, two{"0", "2", "x"}; std::vector<std::vector<std::string>> args;
    if (k == "load") args = {{F[0], F[1], F[2], F[3], c.dir}, {"0", "1", "x", "-3"}, {"0", "1", "9", "-1", "y"}, {",", "x", ", "}, {"extra"}};
    else if (k == "save") args = {num, {F[6], c.dir, c.dir + "/none/x"}, {",", ";", "x"}, {"extra"}};
    else if (k == "saveGroup") args = {num, {F[6], c.dir}, {"0", "1", "x"}, {"extra"}};
    else if (k == "loadGroup") args = {num, {F[4], F[5], F[3]}, {"extra"}};
    else if (k == "list") args = {{"dataset", "distance", "datasets", "0"}, {"extra"}};
    else if (k == "timer") args = {{"on", "off", "ON", "1"}, {"extra"}};
    else if (k == "group") args = {num, {"0.5", "0", "2", "-1", "x", "1e999", "0.1", "1e-300", "2.3000000000000003"}, {"extra"}};
    else if (k == "paa") args = {num, {"1", "2", "9", "0", "-1", "x"}, {"extra"}};
    else if (k == "match") args = {two, two, {"0", "1", "5", "x"}, {"0", "1", "-1", "x"}, {"2", "4", "9", "-1", "x"}, {"extra"}};
    else args = {num, {"extra"}};
    int n = c.choose((int)args.size() + 1); std::string line = k; for (int i = 0; i < n; i++) { const auto& s = args[i]; line += " " + s[c.choose((int)s.size())]; }
    std::vector<std::string> lines = pre[st]; lines.push_back(line); c.note("after %zu lines: %s", lines.size() - 1, line.c_str()); session(c, lines, "quit");
  });
  K.add("integers of every magnitude where integers are due", 2, [](mc::Ctx& c) {
    static std::string wide, tall; if (wide.empty()) { Tab t(2, 300), u(300, 3); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = i * 7 % 13; for (size_t i = 0; i < u.v.size(); i++) u.v[i] = i * 5 % 17; put(wide = c.dir + "/wide", ref::text(t)); put(tall = c.dir + "/tall", ref::text(u)); }
    const std::vector<std::string>& F = files(c); static const std::vector<const char*> FORM{"paa 0 %d", "load W %d", "load W 0 %d", "load T %d 1", "match 1 1 %d", "match 1 1 %d 0 2", "match 1 1 0 %d 3", "match 1 1 0 0 %d", "match 1 1 0 1 %d", "match %d 1 0", "match 1 %d 0", "group %d 1", "normalize %d", "unload %d", "save %d O", "saveGroup %d O", "saveGroup 1 O %d", "loadGroup %d G", "group 1 %d", "paa %d 2", "paa 1 %d"};
    std::vector<int> V{3, 4, 7, 8, 9, 10, 15, 16, 17, 31, 32, 63, 64, 99, 100, 101, 127, 128, 129, 149, 150, 199, 200, 254, 255, 256, 257, 298, 299, 300, 301, 511, 512, 1000, 1024, 4096, 10000, 32767, 32768, 65535, 65536, 65537, 1000000, 16777216, 16777217, 1000000000, 2147483647}; for (size_t i = 0, k = V.size(); i < k; i++) V.push_back(-V[i]); for (int i : {0, 1, 2, -1, -2, -2147483647 - 1}) V.push_back(i);
    std::string form = c.pick(FORM); int v = c.pick(V); std::string line; for (size_t i = 0; i < form.size(); i++) { if (form.compare(i, 2, "%d") == 0) { line += std::to_string(v); i++; } else if (form[i] == 'W') line += wide; else if (form[i] == 'T') line += tall; else if (form[i] == 'O') line += F[6]; else if (form[i] == 'G') line += F[4]; else line += form[i]; }
    c.note("%s", line.c_str()); session(c, {"load " + wide, "load " + tall, "group 1 1", line}, "quit");
  });
  K.add("every start and end of a match, every series", 2, [](mc::Ctx& c) {
    const std::vector<std::string>& F = files(c); int s = c.range(-2, 6), e = c.range(-2, 6), y = c.range(-1, 3), x = c.range(-1, 3); double st = c.pick(std::vector<double>{0.5, 2}); std::string line = fmt("match %d %d %d %d %d", x, x == 1 ? 0 : 1, y, s, e); c.note("%s", line.c_str()); session(c, {"load " + F[0], "load " + F[1] + " 0 0 ,", fmt("group 0 %g", st), fmt("group 1 %g", st), line}, "exit");
  });
  K.add("many datasets: operations on every place of the list", 2, [](mc::Ctx& c) {
    const std::vector<std::string>& F = files(c); int n = c.pick(std::vector<int>{2, 9, 10, 11, 99, 100, 101, 127, 128, 129, 255, 256, 257, 260}); std::vector<int> at; for (int i : {0, 1, 8, 9, 10, 98, 99, 100, 126, 127, 128, 129, 253, 254, 255, 256, 257, n - 1, n}) if (i <= n) at.push_back(i); int k = c.pick(at); int w = c.choose(5); c.note("%d datasets, number %d, operation %d", n, k, w); std::vector<std::string> l; for (int i = 0; i < n; i++) l.push_back("load " + F[i % 3 ? 0 : 1] + (i % 3 ? "" : " 0 0 ,"));
    if (w == 0) l.push_back(fmt("group %d 2", k)); else if (w == 1) { l.push_back(fmt("unload %d", k)); l.push_back("load " + F[1] + " 1 1 ,"); } else if (w == 2) l.push_back(fmt("paa %d 2", k)); else if (w == 3) { l.push_back(fmt("group %d 2", k)); l.push_back(fmt("match %d %d 0", k, n - 1)); } else { l.push_back(fmt("normalize %d", k)); l.push_back(fmt("group 0 %d", 1)); l.push_back(fmt("match 0 %d 1", k)); } session(c, l, "quit");
  });
  K.add("histories of commands", 2, [](mc::Ctx& c) {
    const std::vector<std::string>& F = files(c); std::vector<std::string> L{"load " + F[0], "load " + F[1] + " 0 0 ,", "group 0 2", "group 1 0.5", "normalize 0", "paa 0 2", "unload 0", "unload 1", "loadGroup 0 " + F[4], "match 0 1 0", "match 1 0 1 0 3", "list dataset", "load " + F[2], "bogus", "// comment", "", "timer off", "loadGroup 0 " + F[5], "match 0 0 0", "saveGroup 0 " + F[6], "save 1 " + F[6] + " ,"};
    int depth = c.thorough ? 5 : 4; std::vector<std::string> h; for (int i = 0; i < depth; i++) { h.push_back(L[c.choose((int)L.size())]); c.note("%s", h.back().c_str()); } session(c, h, "exit");
  });
  K.add("unknown commands, comments, blanks and spacing", 1, [](mc::Ctx& c) {
    const std::vector<std::string>& F = files(c); std::vector<std::string> L{"", " ", "      ", "//", "// quit", "//quit", "  // load x", "///", "quitx", "xquit", "QUIT", "Load " + F[0], "loads " + F[0], "0", "-", "help", "help load", "help match", "help paa", "help help", "help quit", "help exit", "help bogus", "help load x", "/ load", "list", "  list   dataset  ", "   load   " + F[0] + "   ", "list dataset dataset", std::string(3000, 'x'), "load " + std::string(3000, 'y'), "\x80\xff", "group", "save", "match", std::string("list ") + std::string(2000, ' ') + "dataset", "%s%n%d", "load %s%n"};
    int i = c.choose((int)L.size()), j = c.choose((int)L.size()); bool pre = c.flip(); std::vector<std::string> v; if (pre) v.push_back("load " + F[0]); v.push_back(L[i]); v.push_back(L[j]); c.note("'%s' '%s'", L[i].substr(0, 60).c_str(), L[j].substr(0, 60).c_str()); session(c, v, "quit");
  });
  K.add("end-of-input dialogues", 2, [](mc::Ctx& c) {
    static const std::vector<std::string> A{EOFLINE, "y", "n", "", "Y", "yes", "list dataset", "quit", "exit", "// x"}; int depth = c.thorough ? 6 : 5; std::vector<std::string> v; for (int i = 0; i < depth; i++) { v.push_back(A[c.choose((int)A.size())]); c.note("'%s'", v.back() == EOFLINE ? "end of input" : v.back().c_str()); }
    // model: number of lines consumed until the program ends
    bool asking = false, over = false; size_t used = 0; std::vector<int> kind; for (; used < v.size() && !over; used++) { const std::string& l = v[used]; if (asking) { if (l == EOFLINE || l == "y" || l == "") over = true; else if (l == "n") asking = false; kind.push_back(0); } else if (l == EOFLINE) { asking = true; kind.push_back(0); } else if (l == "quit" || l == "exit") { over = true; kind.push_back(0); } else kind.push_back(l == "" || l[0] == '/' ? 1 : l == "list dataset" ? 2 : 3); }
    std::vector<std::string> said; int rc = run(c, v, said); c.checked(); if (rc != 0) c.fail("the program ended with status %d", rc); size_t took = T.next;
    if (over && took != used) c.fail("the program ended after %zu lines, expected after %zu", took, used); if (!over && took != v.size()) c.fail("the program ended after %zu of %zu lines without quit, exit or a confirmed end of input", took, v.size());
    if (!over) { size_t want = v.size() + (asking ? 1 : 2); if (said.size() != want + 1) c.fail("at the end of input the program asked %zu more times", said.size() - 1 - v.size()); }
    for (size_t i = 0; i < kind.size() && i + 1 < said.size(); i++) { const std::string& s = said[i + 1]; bool blank = s.find_first_not_of(" \n") == std::string::npos; if (kind[i] == 1 && !blank) c.fail("line %zu does nothing but was answered: %s", i, oneLine(s).c_str()); if (kind[i] == 2 && s.find("There are 0 ") == std::string::npos) c.fail("line %zu was not executed: %s", i, oneLine(s).c_str()); if (kind[i] == 3 && !error(s)) c.fail("line %zu has to be an error: %s", i, oneLine(s).c_str()); }
    mc::Hash h; h.u(used); h.u(over); h.u(said.size()); c.observe(h);
  });
  K.add("the timer is what the last valid timer command made it, through every kind of line", 2, [](mc::Ctx& c) {
    const std::vector<std::string>& F = files(c); std::vector<std::string> L{"timer on", "timer off", "timer", "timer x", "timer ON", "timer off on", "timer on extra", "timer 1", "match 0 0 0", "group 0 2", "group 0 x", "bogus", "match 9 0 0", "", "// timer off", "help timer", "load " + F[2]};
    int depth = c.thorough ? 5 : 4; std::vector<std::string> h{"load " + F[0], "group 0 2"}; for (int i = 0; i < depth; i++) { h.push_back(L[c.choose((int)L.size())]); c.note("%s", h.back().c_str()); } session(c, h, "exit");
  });
  K.add("arguments of every length", 2, [](mc::Ctx& c) {
    const std::vector<std::string>& F = files(c); static const std::vector<int> L = ladder(1800); int n = c.pick(L), w = c.choose(6); std::string dots; for (int i = 0; i < n; i++) dots += i % 2 ? "/." : "/"; std::string deep = c.dir + dots + "/", zeros(n, '0'); std::vector<std::string> v{"load " + F[0], "group 0 2"}; 
    v.push_back(w == 0 ? "load " + deep + "a.txt" : w == 1 ? "save 0 " + c.dir + "/o" + " " + std::string(n, ',') : w == 2 ? "load " + F[1] + " 0 0 " + std::string(n, ';') + "," : w == 3 ? "group 0 " + zeros + "1.5" : w == 4 ? "paa " + zeros + "0 " + zeros + "2" : "loadGroup 0 " + deep + "ga"); c.note("%d characters, kind %d", n, w); session(c, v, "quit");
  });
  K.add("separator lists of every make, on tables with blanks and other separators inside", 3, [](mc::Ctx& c) {
    static const std::vector<std::string> S{",", ";", ",;", ";,", ",;|", "|", "\t", ",\t", "", ",,", "x,", ":;,|"}; static const std::vector<std::string> D{",", " ,", ";", " ", ",;", "\t", ", ", "|", ";|;"}; int i = c.choose((int)S.size()), x = c.choose((int)D.size()), y = c.choose((int)D.size()), k = c.choose(3); std::string f = fileWith(c, "1" + D[x] + "2" + D[y] + "3\n4" + D[x] + "5" + D[y] + "6\n"); c.note("separators '%s', between values '%s' and '%s'", S[i].c_str(), D[x].c_str(), D[y].c_str()); session(c, {"load " + f + (k == 0 ? " 0 0 " : k == 1 ? " 1 0 " : " 0 1 ") + S[i]}, "quit");
  });
  K.add("matches between datasets at every distance in the list", 2, [](mc::Ctx& c) {
    const std::vector<std::string>& F = files(c); int n = c.range(1, c.thorough ? 7 : 5), x = c.choose(n), y = c.choose(n), s = c.range(-1, 2), e = c.pick(std::vector<int>{-1, 3, 4}), z = c.choose(2); std::vector<std::string> v; for (int i = 0; i < n; i++) v.push_back("load " + F[i % 3 == 1 ? 1 : 0] + (i % 3 == 1 ? " 0 0 ," : "")); v.push_back(fmt("group %d 0", x)); v.push_back(fmt("match %d %d %d %d %d", x, y, z, s, e)); v.push_back(fmt("match %d %d %d", x, y, 1 - z)); c.note("%d datasets, %s", n, v[n + 1].c_str()); session(c, v, "quit");
  });
  K.add("files whose table cannot be loaded: answered with an error, and the program continues", 2, [](mc::Ctx& c) {
    const std::vector<std::string>& F = files(c); static const std::vector<std::pair<int, int>> P{{2, 3}, {300, 400}, {65536, 65536}, {65537, 65536}, {131072, 32768}, {70000, 62000}}; auto p = c.pick(P); int w = c.choose(4); std::string t; for (int i = 0; i < p.first; i++) t += i ? " 7" : "7"; for (int i = 1; i < p.second; i++) t += w % 2 ? "\n1" : "\n"; t += "\n"; std::string f = fileWith(c, t); c.note("%d values, then %d lines", p.first, p.second - 1);
    session(c, {"load " + F[0], "load " + f, "list dataset", "load " + f + (w < 2 ? " 1" : " 0 1"), "load " + F[1] + " 0 0 ,"}, "quit");
  });
  return 0;
}();
MC_MAIN(K)

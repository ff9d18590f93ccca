// C03 Loading a text table yields exactly its numbers or is refused.
#include "onex_util.hpp"
using namespace u;
static mc::Check K;

// independent loader: what the documentation of loadData says
static bool oracle(const std::string& text, int N, long long S, const std::string& sep, Tab& out) {
  if (S < 0) return false;
  std::vector<std::string> lines; size_t p = 0;
  while (p < text.size()) { size_t e = text.find('\n', p); if (e == std::string::npos) { lines.push_back(text.substr(p)); break; } lines.push_back(text.substr(p, e - p)); p = e + 1; }
  size_t rows = N <= 0 ? lines.size() : std::min<size_t>(N, lines.size());
  if (rows == 0) return false;
  std::vector<std::vector<double>> R; size_t cols = 0;
  for (size_t i = 0; i < rows; i++) {
    std::vector<std::string> tok; std::string cur;
    for (char ch : lines[i]) if (sep.find(ch) != std::string::npos) { if (!cur.empty()) tok.push_back(cur); cur.clear(); } else cur += ch;
    if (!cur.empty()) tok.push_back(cur);
    if (i == 0) cols = tok.size(); else if (tok.size() != cols) return false;
    std::vector<double> v;
    for (size_t k = 0; k < tok.size(); k++) if ((long long)k >= S) {
      const char* b = tok[k].c_str(); char* e; errno = 0; double d = strtod(b, &e);
      if (e == b || (errno == ERANGE && (d == 0 || std::fabs(d) > 1))) return false;  // subnormal numbers are numbers
      v.push_back(d);
    }
    R.push_back(v);
  }
  if ((long long)cols <= S) return false;
  out = Tab((int)rows, (int)(cols - S));
  for (int i = 0; i < out.r; i++) for (int j = 0; j < out.c; j++) out.at(i, j) = R[i][j];
  return true;
}
static std::string show(const std::string& s) { std::string o; for (char ch : s) if (ch == '\n') o += "\\n"; else if (ch == '\r') o += "\\r"; else if (ch == '\t') o += "\\t"; else o += ch; return o; }

static void loadAndCompare(mc::Ctx& c, const std::string& text, const std::string& path, int N, int S, const std::string& sep) {
  Tab want; bool ok = oracle(text, N, S, sep, want);
  GroupableTimeSeriesSet s; c.op(); bool loaded = false;
  try { s.loadData(path, N, S, sep); loaded = true; } catch (const OnexException&) {}
  if (loaded && !ok) c.fail("accepted (as %dx%d): rows %d, start column %d, separators '%s', text '%s'", s.getItemCount(), s.getItemLength(), N, S, sep.c_str(), show(text).substr(0, 300).c_str());
  if (!loaded && ok) c.fail("refused: rows %d, start column %d, separators '%s', text '%s'", N, S, sep.c_str(), show(text).substr(0, 300).c_str());
  if (ok) {
    if (s.getItemCount() != want.r || s.getItemLength() != want.c) c.fail("loaded %dx%d instead of %dx%d: rows %d, start column %d, text '%s'", s.getItemCount(), s.getItemLength(), want.r, want.c, N, S, show(text).substr(0, 300).c_str());
    Tab now = values(s);
    for (size_t i = 0; i < now.v.size(); i++) if (!sameBits(now.v[i], want.v[i])) c.fail("value %zu of row %zu is %.17g instead of %.17g: rows %d, start column %d, text '%s'", i % now.c, i / now.c, now.v[i], want.v[i], N, S, show(text).substr(0, 300).c_str());
    if (s.getFilePath() != path) c.fail("path not reported"); if (!s.isLoaded() || s.isNormalized() || s.isGrouped()) c.fail("flags after loading");
    c.observe(hashOf(now));
  } else {
    if (s.isLoaded() || s.getItemCount() != 0 || s.getItemLength() != 0) c.fail("a refused load left a dataset of %dx%d behind", s.getItemCount(), s.getItemLength());
    c.observe(hashOf(std::string("refused")));
  }
  c.checked();
}
int init = [] {
  K.property = "C03"; K.before = u::reset;
  K.rule = "every text over the listed pieces is written to a file and loaded with every listed row limit, start column and separator set; outcome and values are compared with an independent reader of the documented format";
  K.assumptions = {"numbers are decimal (no inf or nan literals)", "lines end in \\n"};
  static const std::vector<int> NS{-1, 0, 1, 2, 3, 100}, SS{-2147483647 - 1, -3, -1, 0, 1, 2, 3, 2147483647};
  K.add("every text of up to 6 pieces (tokens, separators, line ends)", 3, [](mc::Ctx& c) {
    static const std::vector<std::string> P{"", "1", " ", "\n", "x", ",", "-2.5e1", "7z"};
    std::string t; int len = c.thorough ? 7 : 6;
    for (int i = 0; i < len; i++) { int k = c.choose((int)P.size()); if (k == 0) break; t += P[k]; }
    c.note("text '%s'", show(t).c_str());
    std::string f = c.file("t.txt"); put(f, t);
    static const std::vector<std::string> SEP{" ", ",", ", "};
    for (int N : {-1, 0, 1, 2, 5}) for (int S : {-1, 0, 1, 2}) for (auto& sep : SEP) loadAndCompare(c, t, f, N, S, sep);
  });
  K.add("every small text over harder pieces", 3, [](mc::Ctx& c) {
    static const std::vector<std::string> P{"", "+3", "\t", "\r\n", "1e999", ";", ".5", "-", "\n\n", "1e-5x", "-1e999", "00012", "e5", "\n", " "};
    std::string t; int len = c.thorough ? 5 : 4;
    for (int i = 0; i < len; i++) { int k = c.choose((int)P.size()); if (k == 0) break; t += P[k]; }
    c.note("text '%s'", show(t).c_str());
    std::string f = c.file("t.txt"); put(f, t);
    static const std::vector<std::string> SEP{"\t ", ";", " ;\t", ""};
    for (int N : {0, 1, 2}) for (int S : {0, 1, -2}) for (auto& sep : SEP) loadAndCompare(c, t, f, N, S, sep);
  });
  K.add("every shape with every row limit and start column, one odd token at every place", 4, [](mc::Ctx& c) {
    int R = c.range(1, 4), C = c.range(1, 5); int at = c.choose(R * C + 1); int odd = c.choose(6);
    static const std::vector<std::string> O{"x", "", "1 1", "1e400", "12abc", "\n", "4.9e-324", "-2.2250738585072009e-308", "1e-400"};
    bool last = c.flip(); int sp = c.choose(3);
    std::string sep = sp == 0 ? "," : sp == 1 ? ",," : " ,;"; std::string t;
    for (int i = 0; i < R; i++) { for (int j = 0; j < C; j++) { if (j) t += sep; if (i * C + j == at) t += O[odd]; else { char b[32]; snprintf(b, 32, "%d.%d", i * 7 + 1, j * 3 + 2); t += b; } } if (i + 1 < R || last) t += "\n"; }
    if (at == R * C && odd) { if (odd == 1) t += "\n"; else if (odd == 2) t += " \n"; else t = "\n" + t; }
    c.note("text '%s'", show(t).c_str());
    std::string f = c.file("t.txt"); put(f, t);
    for (int N : NS) for (int S : SS) loadAndCompare(c, t, f, N, S, ",; ");
  });
  K.add("large tables: every row limit and start column, also beyond a stream buffer", 2, [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> SH{{1, 2000}, {2000, 1}, {67, 130}, {130, 67}, {33, 33}, {300, 9}, {9, 300}, {5, 1}, {1, 5}};
    std::pair<int, int> s = c.pick(SH); int mode = c.choose(3);
    std::string t; char b[64];
    for (int i = 0; i < s.first; i++) for (int j = 0; j < s.second; j++) { snprintf(b, 64, mode == 0 ? "%.0f" : mode == 1 ? "%.17g" : "%.3e", mode == 0 ? (double)(i * s.second + j) : (i * 31 + j * 17) / 7.0 - 40); t += b; t += j + 1 < s.second ? " " : (i + 1 == s.first && mode == 1 ? "" : "\n"); }
    std::string f = c.file("t.txt"); put(f, t);
    std::vector<int> n{0, 1, s.first / 2, s.first - 1, s.first, s.first + 1}, st{0, 1, s.second / 2, s.second - 1, s.second, s.second + 1};
    int N = c.pick(n), S = c.pick(st);
    c.note("%dx%d rows %d start %d", s.first, s.second, N, S);
    loadAndCompare(c, t, f, N, S, " ");
  });
  K.add("tables of every size of the ladder, row limits and start columns around their ends", 2, [](mc::Ctx& c) {
    static const std::vector<int> L = ladder(c.thorough ? 140000 : 70000); int n = c.pick(L), shape = c.choose(4); int r = shape < 2 ? n : 1 + (shape == 3), w = shape < 2 ? 1 + shape : n;
    std::string t; for (int i = 0; i < r; i++) { for (int j = 0; j < w; j++) { t += std::to_string((i * 7 + j) % 100003); t += j + 1 < w ? " " : "\n"; } }
    std::string f = c.file("t.txt"); put(f, t); c.note("table %dx%d", r, w);
    auto around = [](int n) { return std::vector<int>{0, 1, n / 2, n - 1, n, n + 1}; };
    if (n > 2000) { for (int N : {0, r - 1, r + 1}) for (int S : {0, w - 1}) loadAndCompare(c, t, f, N, S, " "); return; }
    for (int N : around(r)) for (int S : around(w)) loadAndCompare(c, t, f, N, S, " ");
  });
  K.add("numbers written with every number of characters, in every style", 2, [](mc::Ctx& c) {
    int n = c.range(1, c.thorough ? 1200 : 330), style = c.choose(8); std::string d; for (int i = 0; i < n; i++) d += (char)('0' + (i * 7 + 1) % 10); std::string z(n, '0');
    std::string tok = style == 0 ? d : style == 1 ? "0." + d : style == 2 ? z + "12.5" : style == 3 ? "-3." + z + "1" : style == 4 ? "1" + z + "e-" + std::to_string(n) : style == 5 ? "0." + z + "5e" + std::to_string(n) : style == 6 ? d + "." + d : "7e" + z + "2";
    std::string t = "1 " + tok + " 2\n3 4 " + tok + "\n"; c.note("style %d of %d characters", style, n); std::string f = c.file("t.txt"); put(f, t); loadAndCompare(c, t, f, 0, 0, " "); loadAndCompare(c, t, f, 1, 1, " ");
  });
  K.add("every number of separator characters, runs of every length of them", 2, [](mc::Ctx& c) {
    static const std::string ALL = " ,;|:\t/&!#*=~<>()_%$@^?[]{}\"'`"; int k = c.range(1, (int)ALL.size()), used = c.choose(k); std::string sep = ALL.substr(0, k); if (c.flip()) std::reverse(sep.begin(), sep.end());
    for (int run : {1, 2, 7, 100, 5000}) { std::string R(run, sep[used]); if (k > 1) R[run - 1] = sep[(used + 1) % k]; std::string t = "1" + R + "2\n" + R + "3" + R + "4" + R + "\n5" + R + "6"; std::string f = c.file("t.txt"); put(f, t); c.note("%d separators, runs of %d", k, run); loadAndCompare(c, t, f, 0, 0, sep); loadAndCompare(c, t, f, 2, 1, sep); if (used + 1 < k) loadAndCompare(c, t, f, 0, 0, sep.substr(used + 1)); }
  });
  K.add("every decimal exponent at both ends of the range of a double", 2, [](mc::Ctx& c) {
    int e = c.choose(70), sg = c.choose(2), e10 = e < 40 ? -330 + e : 280 + (e - 40); for (auto mant : {"1", "2.2250738585072014", "2.2250738585072009", "4.9406564584124654", "1.7976931348623157", "1.7976931348623159", "9.9999999999999999", "0"}) { std::string tok = std::string(sg ? "-" : "") + mant + "e" + std::to_string(e10); c.note("%s", tok.c_str()); std::string p = c.file("t.txt"); put(p, "1 " + tok + " 2\n"); loadAndCompare(c, "1 " + tok + " 2\n", p, 0, 0, " "); }
  });
  K.add("one bad token or short row at every position of a larger table", 2, [](mc::Ctx& c) {
    int R = 12, C = 11; int at = c.choose(R * C), kind = c.choose(3), N = c.pick(std::vector<int>{0, 5, 12}), S = c.pick(std::vector<int>{0, 1, 6, 10});
    std::string t; for (int i = 0; i < R; i++) { for (int j = 0; j < C; j++) { if (i * C + j == at) t += kind == 0 ? "bad" : kind == 1 ? "" : "5 5"; else t += std::to_string(i * C + j); t += " "; } t += "\n"; }
    c.note("kind %d at %d, rows %d, start %d", kind, at, N, S);
    std::string f = c.file("t.txt"); put(f, t); loadAndCompare(c, t, f, N, S, " ");
  });
  K.add("every sequence of loads into one set, good and refused", 2, [](mc::Ctx& c) {
    GroupableTimeSeriesSet s; Tab cur; bool have = false; std::string path;
    std::vector<std::pair<std::string, std::string>> F{{fileWith(c, "1 2 3\n4 5 6\n"), "1 2 3\n4 5 6\n"}, {fileWith(c, "9\n"), "9\n"}, {fileWith(c, "1 2\n3\n"), "1 2\n3\n"}, {fileWith(c, "1 2\n3 x\n"), "1 2\n3 x\n"}, {fileWith(c, ""), ""}, {c.file("missing"), ""}, {c.dir, ""}, {fileWith(c, "1 1e999\n"), "1 1e999\n"}};
    for (int k = 0; k < (c.thorough ? 4 : 3); k++) {
      int w = c.choose((int)F.size() + 1); if (w == (int)F.size()) { c.note("normalise"); c.op(); bool r = refused([&] { s.normalize(); }); if (r == s.isLoaded()) c.fail("normalise"); double a, b; if (have) cur = ref::normalize(cur, a, b); continue; }
      int S = c.choose(3) - 1; c.note("load %d start %d", w, S); c.op();
      Tab want; bool ok = oracle(F[w].second, 0, S, " ", want);
      bool r = refused([&] { s.loadData(F[w].first, 0, S, " "); });
      if (r == ok) c.fail("load of '%s' start %d was %s", show(F[w].second).c_str(), S, r ? "refused" : "accepted");
      if (ok) { cur = want; have = true; path = F[w].first; if (s.isNormalized()) c.fail("a freshly loaded dataset is called normalised"); if (!(values(s) == cur) || s.getFilePath() != path) c.fail("content after reload: %s", ref::str(values(s)).c_str()); }
      else if (s.isLoaded()) { // keeping the previous dataset intact would be as good as having none
        if (!have || !(values(s) == cur)) c.fail("a refused load left %s", ref::str(values(s)).c_str());
      } else { have = false; if (s.getItemCount() != 0 || s.getItemLength() != 0) c.fail("refused load left dimensions"); }
      c.checked(); c.observe(have ? hashOf(cur) : 1);
    }
  });
  K.add("the session keeps no dataset for a refused load", 2, [](mc::Ctx& c) {
    OnexAPI api; int n = 0; std::string good = "1 2 3\n4 5 6\n";
    std::vector<std::string> T{good, "1 2\n3\n", "a b\n", "", "\n", "1 1e999", "1 2 3"};
    for (int k = 0; k < 3; k++) {
      int w = c.choose((int)T.size() + 2), S = c.choose(4) - 1, N = c.choose(3); Tab want;
      std::string f = w < (int)T.size() ? fileWith(c, T[w]) : w == (int)T.size() ? c.file("nothing-here") : c.dir;
      bool ok = w < (int)T.size() && oracle(T[w], N, S, " ", want); dataset_info_t i; c.op();
      bool r = refused([&] { i = api.loadDataset(f, N, S, " "); });
      c.note("load %d start %d rows %d: %s", w, S, N, r ? "refused" : "accepted");
      if (r == ok) c.fail("text %d start %d rows %d was %s", w, S, N, r ? "refused" : "accepted");
      if (ok) { if (i.id != n || i.itemCount != want.r || i.itemLength != want.c || i.name != f || i.isGrouped || i.isNormalized) c.fail("info of the loaded dataset: id %d %dx%d", i.id, i.itemCount, i.itemLength); n++; }
      if (api.getDatasetCount() != n || (int)api.getAllDatasetInfo().size() != n) c.fail("%d datasets after %d successful loads", api.getDatasetCount(), n);
      c.checked(); c.observe(n * 100 + w);
    }
  });
  K.add("one file under several names, in every order: the last name is the one reported", 2, [](mc::Ctx& c) {
    put(c.dir + "/pt.txt", "1 2 3\n4 5 6\n"); put(c.dir + "/pu.txt", "7 8\n"); mkdir((c.dir + "/sub").c_str(), 0777); char was[4096]; if (!getcwd(was, sizeof was) || chdir(c.dir.c_str())) { dprintf(2, "HARNESS-ERROR: chdir\n"); _exit(98); } struct Back { const char* d; ~Back() { if (chdir(d)) {} } } back{was};
    std::string deep; for (int i = 0; i < 60; i++) deep += "./"; std::vector<std::string> P{"pt.txt", "./pt.txt", c.dir + "/pt.txt", "sub/../pt.txt", "././pt.txt", ".//pt.txt", deep + "pt.txt", "pu.txt", "./pu.txt"}; GroupableTimeSeriesSet s; TimeSeriesSet p;
    int depth = c.thorough ? 4 : 3, between = c.choose(3); for (int k = 0; k < depth; k++) { int w = c.choose((int)P.size()); c.note("load %s", P[w].c_str()); c.op(2); s.loadData(P[w], 0, 0, " "); p.loadData(P[w], 0, 0, " "); Tab want = w < 7 ? Tab(2, 3) : Tab(1, 2); for (size_t i = 0; i < want.v.size(); i++) want.v[i] = w < 7 ? i + 1.0 : i + 7.0; if (s.getFilePath() != P[w] || p.getFilePath() != P[w]) c.fail("the path reported after loading %s is %s", P[w].c_str(), s.getFilePath().c_str()); if (!(values(s) == want) || !(values(p) == want)) c.fail("content after loading %s", P[w].c_str()); if (between == 1) s.groupAllLengths("euclidean", 1); if (between == 2) { s.clearData(); } c.checked(); mc::Hash h; h.u(w); h.u(between); c.observe(h); }
  });
  K.add("a wide first row before very many lines: more cells than can be counted are refused, not miscounted", 1, [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> P{{65536, 65536}, {65536, 65537}, {65537, 65536}, {131072, 32768}, {32768, 131072}, {131072, 131072}, {70000, 62000}, {100000, 42950}};
    auto p = c.pick(P); std::string row; row.reserve(p.first * 2 + 2); for (int i = 0; i < p.first; i++) { if (i) row += ' '; row += '7'; } std::string rest; int w = c.choose(3); for (int i = 1; i < p.second; i++) rest += w == 0 ? "\n" : w == 1 ? "1\n" : "1 2\n"; std::string t = row + "\n" + rest; c.note("%d values, then %d lines of %d", p.first, p.second - 1, w); std::string f = c.file("wide.txt"); put(f, t);
    for (int S : {0, 1}) for (int N : {0, p.second, p.second + 5}) { GroupableTimeSeriesSet s; c.op(); if (!refused([&] { s.loadData(f, N, S, " "); })) c.fail("a ragged file was accepted as %dx%d", s.getItemCount(), s.getItemLength()); if (s.isLoaded() || s.getItemCount() || s.getItemLength()) c.fail("a refused load leaves a dataset behind"); s.loadData(f, 1, S, " "); if (s.getItemCount() != 1 || s.getItemLength() != p.first - S || s.getTimeSeries(0)[p.first - S - 1] != 7) c.fail("the first row alone is %dx%d", s.getItemCount(), s.getItemLength()); c.checked(2); }
    OnexAPI a; if (!refused([&] { a.loadDataset(f, 0, 0, " "); }) || a.getDatasetCount() != 0) c.fail("the session keeps a dataset of a refused load"); c.observe(p.first * 7 + p.second + w); unlink(f.c_str());
  });
  return 0;
}();
MC_MAIN(K)

// C21 Results do not depend on clock, heap contents or earlier sessions.
#include "session.hpp"
#include <alloca.h>
#include <memory>
using namespace u;
static mc::Check K;

// ---- memory handed out by operator new has the contents the driver chooses -------------------------
static const int FILLS = 9; static int fillMode = 0; static unsigned fillCounter = 0;
static void pattern(void* p, size_t n) {
  unsigned char* b = (unsigned char*)p; static const unsigned char C[] = {0x00, 0xff, 0x7f, 0x01, 0x41};
  if (fillMode < 5) memset(b, C[fillMode], n);
  else for (size_t i = 0; i < n; i++) {
    if (fillMode == 5) b[i] = (unsigned char)(++fillCounter * 37);
    else if (fillMode == 6) { static const double one = 1.0; b[i] = ((const unsigned char*)&one)[i % 8]; }
    else if (fillMode == 7) { static const double inf = std::numeric_limits<double>::infinity(); b[i] = ((const unsigned char*)&inf)[i % 8]; }
    else { static const int small[2] = {1, 2}; b[i] = ((const unsigned char*)small)[i % 8]; } }
}
static void* give(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); pattern(p, n); return p; }
void* operator new(size_t n) { return give(n); }
void* operator new[](size_t n) { return give(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
__attribute__((noinline)) static void dirtyStack() { void* p = alloca(40000); pattern(p, 40000); asm volatile("" : : "r"(p) : "memory"); }

// ---- a fixed use of the library, told as text --------------------------------------------------------
struct Scenario { Tab t; double st; const char* dist; double ratio; };
static std::string tell(mc::Ctx& c, const Scenario& z) {
  std::string o, p = c.file("r.txt"), q = c.file("q.txt"); dirtyStack();
  auto attempt = [&](const char* what, const std::function<std::string()>& f) { try { o += what + f() + "\n"; } catch (const OnexException& e) { o += std::string(what) + "refused: " + e.what() + "\n"; } c.op(); };
  GroupableTimeSeriesSet s; OnexAPI a; std::string in = tabFile(c, z.t);
  attempt("load ", [&] { s.loadData(in, 0, 0, " "); dataset_info_t i = a.loadDataset(in, 0, 0, " "); return fmt("%d %dx%d", i.id, i.itemCount, i.itemLength); });
  auto matches = [&](const GroupableTimeSeriesSet& s) { for (int n = 1; n <= z.t.c + 1; n++) { Seq v(n); for (int k = 0; k < n; k++) v[k] = k % 2 ? 1 : 0.25 * n; TimeSeries Q = view(v); attempt("match ", [&] { candidate_time_series_t m = s.getBestMatch(Q); return fmt("%d %d %d %.17g", m.data.getIndex(), m.data.getStart(), m.data.getLength(), (double)m.dist); }); } if (z.t.r && z.t.c >= 2) { Seq v = z.t.row(z.t.r - 1); TimeSeries Q = view(v); attempt("match ", [&] { candidate_time_series_t m = s.getBestMatch(Q); return fmt("%d %d %d %.17g", m.data.getIndex(), m.data.getStart(), m.data.getLength(), (double)m.dist); }); } };
  matches(s);
  attempt("group ", [&] { int n = s.groupAllLengths(z.dist, z.st); return fmt("%d", n); }); dirtyStack();
  attempt("save ", [&] { s.saveGroups(p, false); return get(p); }); attempt("sizes ", [&] { s.saveGroups(q, true); return get(q); }); matches(s);
  GroupableTimeSeriesSet l; l.loadData(in, 0, 0, " "); attempt("load groups ", [&] { return fmt("%d", l.loadGroups(p)); }); attempt("save ", [&] { l.saveGroups(q, false); return get(q); }); matches(l);
  attempt("session ", [&] { return fmt("%d", a.groupDataset(0, z.st)); }); attempt("session match ", [&] { candidate_time_series_t m = a.getBestMatch(0, 0, 0); return fmt("%d %d %d %.17g", m.data.getIndex(), m.data.getStart(), m.data.getLength(), (double)m.dist); });
  attempt("bad ", [&] { s.groupAllLengths("none", 1); return std::string(); }); attempt("bad ", [&] { s.loadGroups(in); return std::string(); }); attempt("bad ", [&] { a.PAA(0, 0); return std::string(); });
  attempt("normalise ", [&] { auto m = s.normalize(); return fmt("%.17g %.17g", (double)m.first, (double)m.second); }); attempt("save ", [&] { s.saveData(q, ' '); return get(q); }); attempt("average ", [&] { s.PAA(2); s.saveData(q, ','); return get(q); }); attempt("regroup ", [&] { int n = s.groupAllLengths(z.dist, z.st / 3); s.saveGroups(q, false); return fmt("%d ", n) + get(q); }); matches(s);
  return o;
}
static std::string under(mc::Ctx& c, const Scenario& z, int fill) { double r = z.ratio; setWarpingBandRatio(r); fillMode = fill; std::string o; try { o = tell(c, z); } catch (...) { fillMode = 0; throw; } fillMode = 0; return o; }
static void same(mc::Ctx& c, const std::string& want, const std::string& got, const char* what) { c.checked(); if (want != got) c.fail("%s changes results:\n%s", what, diff(want, got).c_str()); }
static std::vector<Scenario> listed() {
  std::vector<Scenario> v; const double inf = ref::Inf, nan = std::nan(""); auto add = [&](int r, int n, std::vector<double> x, double st, const char* d, double ratio) { Tab t(r, n); t.v = x; v.push_back({t, st, d, ratio}); };
  add(2, 3, {0, 1, 3, 1, 1, 2}, 0.8, "euclidean", 0.1); add(2, 3, {0, 1, 3, 1, 1, 2}, 3, "euclidean_dtw", 0.5); add(1, 5, {1, 5, 2, 2, 8}, 0, "euclidean", 0.3); add(3, 2, {1, 2, 1, 2, 5, 5}, 1, "euclidean", 1); add(4, 1, {1, 2, 3, 4}, 1, "euclidean", 0.1);
  add(2, 3, {1e200, -1e200, 1e200, -1e200, 1e200, 3}, 1, "euclidean", 0.5); add(1, 4, {inf, 1, inf, 2}, 1, "euclidean", 0.5); add(1, 4, {nan, 1, 2, nan}, 1, "euclidean_dtw", 0.5); add(2, 2, {inf, inf, -inf, inf}, -1, "euclidean_dtw", 1); add(2, 4, {2, 2, 2, 2, 2, 2, 2, 2}, 0, "euclidean", 0); add(6, 3, {0, 1, 2, 1, 2, 0, 2, 0, 1, 0, 2, 1, 1, 0, 2, 2, 1, 0}, 1.1, "euclidean", 0.34); add(1, 9, {3, 1, 4, 1, 5, 9, 2, 6, 5}, 4, "euclidean_dtw", 0.2);
  return v;
}
// other uses of the library in the same process
static const int EARLIER = 14;
static void earlier(mc::Ctx& c, int k, std::vector<std::unique_ptr<OnexAPI>>& keep) {
  Tab t(3, 7); for (int i = 0; i < 21; i++) t.v[i] = i * 11 % 13; Tab z(2, 3); z.v = {9, 8, 7, 1, 2, 3}; auto quiet = [&](const std::function<void()>& f) { try { f(); } catch (const OnexException&) {} };
  std::unique_ptr<OnexAPI> a(new OnexAPI()); GroupableTimeSeriesSet s; std::string g = c.file("e");
  switch (k) {
  case 0: break; case 1: a->loadDataset(tabFile(c, t), 0, 0, " "); a->groupDataset(0, 1); a->getBestMatch(0, 0, 1); break; case 2: a->loadDataset(tabFile(c, t), 0, 0, " "); a->groupDataset(0, 4); keep.push_back(std::move(a)); break;
  case 3: quiet([&] { a->loadDataset(c.file("missing"), 0, 0, " "); }); quiet([&] { a->groupDataset(3, 1); }); break; case 4: load(c, s, z); s.groupAllLengths("euclidean_dtw", 1); s.saveGroups(g, false); s.reset(); s.loadGroups(g); { Seq q{1, 2}; TimeSeries Q = view(q); quiet([&] { s.getBestMatch(Q); }); } break;
  case 5: load(c, s, z); quiet([&] { s.groupAllLengths("x", 1); }); s.PAA(2); s.normalize(); s.clearData(); break; case 6: a->setWarpingBandRatio(0.9); a->loadDataset(tabFile(c, z), 0, 0, " "); a->groupDataset(0, 0); quiet([&] { a->getBestMatch(0, 0, 0); }); break; case 7: quiet([&] { a->setWarpingBandRatio(-1); }); quiet([&] { a->setWarpingBandRatio(std::nan("")); }); break;
  case 8: env::now() += 5e5; load(c, s, t); s.groupAllLengths("euclidean", 2); break; case 9: env::now() -= 5e8; load(c, s, t); s.groupAllLengths("euclidean", 2); break; case 10: { TimeSeries x(5), y(x); x += y; x.getKeoghLower(2); y = x; for (int i = 0; i < 5; i++) warpedDistance(x, y, INF), cascadeDistance(x, y, 0.1); break; } case 12: for (int i = 0; i < 3; i++) { a->loadDataset(tabFile(c, i % 2 ? t : z), 0, 0, " "); a->groupDataset(i, 1 + i); } a->normalizeDataset(1); a->PAA(2, 2); quiet([&] { a->getBestMatch(0, 1, 0); }); a->unloadDataset(1); break;
  case 13: for (int i = 0; i < 2; i++) a->loadDataset(tabFile(c, t), 0, 0, " "); a->unloadAllDataset(); a->loadDataset(tabFile(c, z), 0, 0, " "); a->saveDataset(0, g, ','); quiet([&] { a->saveDataset(0, c.file("no") + "/x", ','); }); quiet([&] { a->saveGroup(0, g, false); }); break;
  default: for (int i = 0; i < 5; i++) a->loadDataset(tabFile(c, i % 2 ? t : z), 0, 0, " "); a->unloadDataset(2); keep.push_back(std::move(a)); }
}
int init = [] {
  K.property = "C21"; K.before = [](mc::Ctx& c) { fillMode = 0; u::reset(c); };
  K.rule = "a fixed use of the library (load, group, save, load groups, match, errors, normalise, average, regroup) is told as text; the text has to be the same for every contents of allocated memory, for every answer of the clock at every consultation, and after every listed earlier use of the library";
  K.assumptions = {"memory contents cover operator new and the stack (patterns: constant bytes, a counter, the numbers 1.0, infinity, small integers)", "the clock answers with one of five jumps at each consultation (three from the sixth or seventh on, one after nine)"};
  K.add("all tables up to 5 cells, every heap and stack content", 3, [](mc::Ctx& c) {
    int cells = c.thorough ? 6 : 5; int r = c.range(1, cells), n = c.range(1, cells / r); Tab t = chooseTab(c, r, n, {0, 1, 3}); Scenario z{t, c.pick(std::vector<double>{0, 1.1}), c.flip() ? "euclidean" : "euclidean_dtw", 0.34}; c.note("table %s", ref::str(t).c_str()); std::string w = under(c, z, 0); for (int f = 1; f < FILLS; f++) same(c, w, under(c, z, f), "the contents of allocated memory"); c.observe(hashOf(w));
  });
  K.add("tables with very large, infinite and undefined values, every heap and stack content", 3, [](mc::Ctx& c) {
    int r = c.range(1, 3), n = c.range(1, r == 1 ? (c.thorough ? 4 : 3) : r == 2 ? 2 : 1); Tab t = chooseTab(c, r, n, {0, 1e200, -1e200, ref::Inf, std::nan(""), 1e-200}); Scenario z{t, c.pick(std::vector<double>{1, -1}), c.flip() ? "euclidean" : "euclidean_dtw", 0.6}; c.note("table %s", ref::str(t).c_str()); std::string w = under(c, z, 0); for (int f = 1; f < FILLS; f++) same(c, w, under(c, z, f), "the contents of allocated memory"); c.observe(hashOf(w));
  });
  K.add("every answer of the clock at every consultation while grouping", 3, [](mc::Ctx& c) {
    auto L = listed(); Scenario z = L[c.choose((int)L.size())]; int j0 = c.choose(5), j1 = c.choose(5); env::now() += 20000; { GroupableTimeSeriesSet s; load(c, s, Tab(1, 2, 1)); s.groupAllLengths("euclidean", 1); } auto use = [&](bool chosen) {
      std::string o, p = c.file("k.txt"); GroupableTimeSeriesSet s; load(c, s, z.t); setWarpingBandRatio(z.ratio); int k = 0; static const double J[] = {0, 11, -100, 1000, 1}; double now = env::now();
      if (chosen) env::onClock() = [&] { int n = k < (c.thorough ? 6 : 5) ? 5 : k < (c.thorough ? 9 : 7) ? 3 : 1; k++; now += J[k == 1 ? j0 : k == 2 ? j1 : n == 1 ? 1 : c.choose(n)]; return now; };
      int g = s.groupAllLengths(z.dist, z.st); env::onClock() = nullptr; env::now() = now; s.saveGroups(p, false); o = fmt("%d ", g) + get(p); Seq q = z.t.row(0); TimeSeries Q = view(q); o += matchText([&] { return s.getBestMatch(Q); }); c.op(3); return o; };
    std::string w = use(false), g = use(true); same(c, w, g, "the clock"); c.observe(hashOf(w)); c.note("table %s", ref::str(z.t).c_str());
  });
  K.add("tables of every shape while progress is being logged", 2, [](mc::Ctx& c) {
    int r = c.range(1, 12), n = c.range(1, 12); double st = c.pick(std::vector<double>{0, 2}); Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = i * 7 % 5; auto use = [&](double jump) { double now = env::now(); env::onClock() = [&now, jump] { return now += jump; }; GroupableTimeSeriesSet s; load(c, s, t); int g = s.groupAllLengths("euclidean", st); env::onClock() = nullptr; env::now() = now; std::string p = c.file("k.txt"); s.saveGroups(p, false); c.op(); return fmt("%d ", g) + get(p); }; std::string w = use(0); for (double j : {1000.0, 11.0, 3.0, -50.0}) same(c, w, use(j), "the clock"); c.observe(hashOf(w)); c.note("%dx%d", r, n);
  });
  K.add("larger tables while progress is being logged", 2, [](mc::Ctx& c) {
    bool wide = c.flip(); int k = c.pick(ref::ladder(c.thorough ? 1300 : wide ? 72 : 520, 13)); int r = wide ? c.pick(std::vector<int>{1, 3, 11}) : k, n = wide ? k : c.pick(std::vector<int>{2, 3, 5}); double st = c.pick(std::vector<double>{0.2, 2}); c.note("%dx%d", r, n); Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (i * i + i * 7) % 5 + (i % 3) * 0.01;
    auto use = [&](double jump, int fill) { double now = env::now(); int k = 0; env::onClock() = [&now, jump, &k] { return now += k++ < 3 && jump < 0 ? 1000 : jump; }; fillMode = fill; GroupableTimeSeriesSet s; load(c, s, t); int g = s.groupAllLengths("euclidean", st); fillMode = 0; env::onClock() = nullptr; env::now() = now; std::string p = c.file("k.txt"); s.saveGroups(p, false); c.op(); return fmt("%d ", g) + get(p); };
    std::string w = use(0, 0); for (double j : {1000.0, 10.5, -50.0}) same(c, w, use(j, 5), "the clock"); c.observe(hashOf(w));
  });
  K.add("every listed use after every two earlier uses of the library", 2, [](mc::Ctx& c) {
    auto L = listed(); int i = c.choose((int)L.size()), x = c.choose(EARLIER), y = c.choose(EARLIER), f = c.choose(2); Scenario z = L[i]; std::string w = under(c, z, 0); static std::map<int, std::string> first; if (!first.count(i)) first[i] = w; same(c, first[i], w, "the history of the process"); std::vector<std::unique_ptr<OnexAPI>> keep; c.note("use %d after %d and %d", i, x, y); fillMode = f ? 5 : 0; double t0 = env::now(); earlier(c, x, keep); earlier(c, y, keep); env::now() = t0; fillMode = 0; same(c, w, under(c, z, f ? 1 : 0), "an earlier use of the library"); keep.clear(); same(c, w, under(c, z, f ? 5 : 0), "an earlier session's end"); c.observe(hashOf(w));
  });
  K.add("every listed use after every two earlier uses that leave the band ratio alone, the ratio being set once", 2, [](mc::Ctx& c) {
    auto L = listed(); int i = c.choose((int)L.size()), x = c.choose(EARLIER - 1), y = c.choose(EARLIER - 1); if (x >= 6) x++; if (y >= 6) y++; Scenario z = L[i]; double r = 0.25 + 0.05 * (i % 4); setWarpingBandRatio(r); auto use = [&] { std::string o = tell(c, z); for (int n : {1, 4, 10, 33, 100}) o += fmt(" %d", calculateWarpingBandSize(n)); return o; }; c.note("use %d after %d and %d", i, x, y);
    std::string w = use(); std::vector<std::unique_ptr<OnexAPI>> keep; double t0 = env::now(); earlier(c, x, keep); earlier(c, y, keep); env::now() = t0; same(c, w, use(), "an earlier use of the library"); keep.clear(); same(c, w, use(), "an earlier session's end"); c.observe(hashOf(w));
  });
  K.add("a file that changed since an earlier session read it", 3, [](mc::Ctx& c) {
    static const std::vector<std::string> T{"1 2 3\n", "1 2 3\n4 5 6\n", "9 8 7\n1 2 3\n4 5 6\n7 7 7\n", "1 2\n3 4\n5 6\n", "1 2 3 4 5\n5 4 3 2 1\n", "5\n6\n", "", "1 2 3\n4 5\n", "1 x 3\n", "0 0 0\n0 0 0\n", "1 2 3\n4 5 7\n", "1,2,3\n4,5,6\n", "1 2 3\n\n4 5 6\n", "-"};
    int i = c.choose((int)T.size()), j = c.choose((int)T.size()), r = c.pick(std::vector<int>{0, 1, 2, 3, 100}), col = c.pick(std::vector<int>{0, 1, 2}); const char* sep = c.flip() ? " " : ","; int how = c.choose(3); c.note("contents %d, then %d, rows %d, columns skipped %d", i, j, r, col);
    auto place = [&](const std::string& p, int k) { if (T[k] == "-") unlink(p.c_str()); else put(p, T[k]); };
    auto use = [&](const std::string& p) { std::string o; try { if (how) { OnexAPI a; dataset_info_t d = a.loadDataset(p, r, col, sep); o = fmt("%dx%d ", d.itemCount, d.itemLength); std::string q = c.file("sv"); a.saveDataset(0, q, ' '); o += get(q); if (d.itemLength > 1) { o += fmt(" %d ", a.groupDataset(0, 1)); a.saveGroup(0, q, false); o += get(q); } } else { GroupableTimeSeriesSet s; s.loadData(p, r, col, sep); o = ref::str(values(s)); } } catch (const OnexException& e) { std::string w = e.what(); size_t k; while ((k = w.find(p)) != std::string::npos) w.replace(k, p.size(), "FILE"); o += "refused: " + w; } c.op(); return o; };
    static int n = 0; std::string p = c.file(fmt("x%d", n++ % 2).c_str()), f = c.file("fresh"); place(f, j); std::string w = use(f); place(p, i); OnexAPI kept; if (how == 2) { try { kept.loadDataset(p, 100, 0, sep); } catch (const OnexException&) {} } use(p); if (how == 2) use(p); place(p, j); same(c, w, use(p), "what the file held before"); same(c, w, use(p), "having loaded the file before"); c.observe(hashOf(w));
  });
  K.add("a group file that changed since it was loaded", 3, [](mc::Ctx& c) {
    Tab t(2, 4); t.v = {0, 1, 3, 1, 2, 2, 0, 3}; static std::vector<std::string> G; std::string p = c.file("grp"), f = c.file("fresh"); if (G.empty()) { GroupableTimeSeriesSet s; load(c, s, t); for (double st : {0.0, 1.0, 2.5, 100.0}) { s.groupAllLengths("euclidean", st); s.saveGroups(p, false); G.push_back(get(p)); } s.groupAllLengths("euclidean_dtw", 1); s.saveGroups(p, false); G.push_back(get(p)); s.saveGroups(p, true); G.push_back(get(p)); G.push_back(G[1].substr(0, G[1].size() / 2)); G.push_back(""); }
    int i = c.choose((int)G.size()), j = c.choose((int)G.size()); bool same1 = c.flip(); c.note("groups %d, then %d", i, j); auto use = [&](const std::string& x, GroupableTimeSeriesSet& s) { std::string o; try { o = fmt("%d ", s.loadGroups(x)); std::string q = c.file("sv"); s.saveGroups(q, false); o += get(q); Seq v{1, 2, 0.5}; TimeSeries Q = view(v); o += matchText([&] { return s.getBestMatch(Q); }); } catch (const OnexException& e) { o = "refused: " + std::string(e.what()); size_t k; while ((k = o.find(x)) != std::string::npos) o.replace(k, x.size(), "FILE"); } c.op(); return o; };
    put(f, G[j]); std::string w; { GroupableTimeSeriesSet s; load(c, s, t); w = use(f, s); } put(p, G[i]); GroupableTimeSeriesSet a, b; load(c, a, t); load(c, b, t); use(p, a); put(p, G[j]); same(c, w, use(p, same1 ? a : b), "what the group file held before"); c.observe(hashOf(w));
  });
  K.add("new sequences of every length of the ladder hold zeros, whatever memory they are given", 2, [](mc::Ctx& c) {
    static const std::vector<int> L = ref::ladder(c.thorough ? 70000 : 5100, 0); int n = c.pick(L), f = c.choose(FILLS); c.note("length %d, memory %d", n, f); fillMode = f; std::string bad; { const TimeSeries t(n); TimeSeries u(n); const TimeSeries v(u); for (int i = 0; i < n && bad.empty(); i++) if (t[i] != 0 || v[i] != 0) bad = fmt("value %d of a new sequence of %d is %g", i, n, (double)t[i]); if (t.getIndex() != 0 || t.getStart() != 0 || t.getEnd() != n || t.getLength() != n) bad = "coordinates"; if (n > 0) for (int w : {0, 1, n}) { const data_t *l = t.getKeoghLower(w), *h = t.getKeoghUpper(w); for (int i = 0; i < n; i++) if (l[i] != 0 || h[i] != 0) bad = fmt("envelope of zeros, half-width %d", w); }
      candidate_time_series_t e; if (e.dist != 0 || e.data.getLength() != 0) bad = "a new answer is not empty"; } fillMode = 0; c.op(3); c.checked(); if (!bad.empty()) c.fail("%s", bad.c_str()); mc::Hash h; h.u(n); h.u(f); c.observe(h);
  });
  K.add("every step of the clock from a microsecond to years, at every consultation", 2, [](mc::Ctx& c) {
    static const std::vector<double> J{1e-6, 0.5, 10, 59, 60, 61, 599, 600, 601, 3599, 3600, 3601, 5000, 7200, 86399, 86400, 90000, 604800, 2678400, 1e7, 3.2e7, 1e8, 1e9, -0.5, -10, -60, -3600, -86400, -1e7, -1e9}; double st = c.pick(std::vector<double>{0.3, 1, 2.5}), jump = c.pick(J); int every = c.choose(4), shape = c.choose(5); static const std::vector<std::pair<int, int>> SH{{2, 9}, {1, 16}, {6, 4}, {40, 3}, {3, 7}}; Tab t(SH[shape].first, SH[shape].second); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (double)(i * i % 11) * 0.5; bool api = c.flip(); c.note("%dx%d threshold %g, %g seconds, mode %d", t.r, t.c, st, jump, every);
    auto use = [&](double j) { double now = env::now(), t0 = now; int k = 0; env::onClock() = [&] { int n = k++; if (every == 0 || (every == 1 && n == 1) || (every == 2 && n % 2) || (every == 3 && n >= 2)) if (std::fabs(now + j - t0) < 3.1e9) now += j; return now; }; std::string o, p = c.file("k.txt"); if (api) { OnexAPI a; a.loadDataset(tabFile(c, t), 0, 0, " "); o = fmt("%d ", a.groupDataset(0, st)); o += fmt("%d ", a.groupDataset(0, st)); a.saveGroup(0, p, false); o += get(p); o += matchText([&] { return a.getBestMatch(0, 0, 0); }); } else { GroupableTimeSeriesSet s; load(c, s, t); o = fmt("%d ", s.groupAllLengths("euclidean_dtw", st)); s.saveGroups(p, false); o += get(p); Seq q = t.row(0); TimeSeries Q = view(q); o += matchText([&] { return s.getBestMatch(Q); }); } env::onClock() = nullptr; env::now() = t0; c.op(2); return o; };
    std::string w = use(0); same(c, w, use(jump), "the clock"); same(c, w, use(0), "the clock before"); c.observe(hashOf(w));
  });
  return 0;
}();
MC_MAIN(K)

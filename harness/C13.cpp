// C13 Saved groups can be loaded back without loss.
#include "session.hpp"
using namespace u;
static mc::Check K;
static const std::vector<double> ST{0, 0.3, 1, 2.0 / 3, 1e9, 1234567.125, -1, 1e-7};
static const std::vector<const char*> DIST{"euclidean", "euclidean_dtw"};

// Every answer must be the same distance, and a legitimate answer
static void sameAnswers(mc::Ctx& c, const GroupableTimeSeriesSet& a, const GroupableTimeSeriesSet& b, const ref::Groups& g, const Tab& t, double ratio) {
  std::vector<Seq> Q; for (int i = 0; i < t.r; i++) { Q.push_back(t.row(i)); if (t.c >= 3) { Q.push_back(t.sub(i, 1, t.c)); Seq q = t.sub(i, 0, 2); q[0] += 0.4; Q.push_back(q); } } Q.push_back(Seq(3, 0.7)); Q.push_back(Seq(t.c + 1, 1.1));
  for (auto& q0 : Q) { Seq q = q0; TimeSeries X = view(q); double da = -1, db = -1; bool ra = refused([&] { da = a.getBestMatch(X).dist; }), rb = refused([&] { db = b.getBestMatch(X).dist; }); c.op(2); c.checked();
    if (ra != rb || (!ra && !ref::close(da, db, 1e-12))) c.fail("query %s: %.17g before saving, %.17g after loading", ref::str(q).c_str(), ra ? -1 : da, rb ? -1 : db);
    matchAndCheck(c, g, t, q, ratio, [&] { return b.getBestMatch(X); }); }
}
static void roundTrip(mc::Ctx& c, const GroupableTimeSeriesSet& s, GroupableTimeSeriesSet& into, const Tab& t, double st, const char* dist, double ratio, int reported) {
  std::string p = c.file("a.txt"), q = c.file("b.txt"); s.saveGroups(p, false); std::string A = get(p); ref::GroupFile ga = parseOrFail(c, A, t.r, t.c);
  if (ga.st != st && !(std::isnan(ga.st) && std::isnan(st))) c.fail("saved threshold %.17g, grouped with %.17g", ga.st, st); if (ga.distance != dist) c.fail("saved distance %s", ga.distance.c_str());
  int n; try { n = into.loadGroups(p); } catch (const OnexException& e) { c.fail("the saved groups were refused: %s\n%s", e.what(), A.substr(0, 600).c_str()); } c.op(2);
  if (n != reported || ref::total(ga.groups) != reported) c.fail("%d groups made, %d in the file, %d loaded", reported, ref::total(ga.groups), n);
  if (!into.isGrouped()) c.fail("not grouped after loading");
  into.saveGroups(q, false); ref::GroupFile gb = parseOrFail(c, get(q), t.r, t.c);
  if (gb.st != ga.st || gb.distance != ga.distance || gb.from != ga.from || gb.to != ga.to) c.fail("saving again: threshold %.17g, distance %s, range %d %d", gb.st, gb.distance.c_str(), gb.from, gb.to);
  if (ref::canon(ga.groups) != ref::canon(gb.groups)) c.fail("groups differ after loading\n  saved  %s\n  loaded %s", ref::canon(ga.groups).substr(0, 900).c_str(), ref::canon(gb.groups).substr(0, 900).c_str());
  for (auto& k : ga.groups) for (auto& G : k.second) { bool rep = false; for (auto& m : G.members) { Seq v = t.sub(m.first, m.second, m.second + k.first); bool eq = true; for (int i = 0; i < k.first; i++) if (!sameBits(v[i], G.rep[i])) eq = false; rep |= eq; } if (!rep) c.fail("representative %s of length %d is not bit-for-bit a member", ref::str(G.rep).c_str(), k.first); }
  if (!(values(into) == t)) c.fail("loading groups changed the data");
  sameAnswers(c, s, into, ga.groups, t, ratio); c.checked(); c.observe(hashOf(ref::canon(ga.groups)));
}
int init = [] {
  K.property = "C13"; K.before = u::reset;
  K.rule = "every listed dataset, threshold and grouping distance: groups are saved, loaded into another set with the same data (fresh or grouped differently), saved again and compared; all queries of a fixed family are answered by both";
  K.assumptions = {"finite values"};
  K.add("all tables up to 6 cells over {0,1,3}, all thresholds and distances, into fresh and grouped copies", 4, [](mc::Ctx& c) {
    int cells = c.thorough ? 8 : 6; int r = c.range(1, cells), n = c.range(1, cells / r); Tab t = chooseTab(c, r, n, {0, 1, 3}); GroupableTimeSeriesSet s, o; load(c, s, t); load(c, o, t); c.note("table %s", ref::str(t).c_str());
    bool pre = c.flip(); if (pre) o.groupAllLengths("euclidean", 5); setWarpingBandRatio(0.34);
    for (double st : ST) for (auto d : DIST) { int k = s.groupAllLengths(d, st); roundTrip(c, s, o, t, st, d, 0.34, k); }
  });
  K.add("values and thresholds that need 17 digits", 3, [](mc::Ctx& c) {
    static const std::vector<double> V{0.1, 1.0 / 3, 1 + 2.220446049250313e-16, 1e-300, 3e-310, 123456789.12345678, -2.0 / 3}; int r = c.range(1, 2), n = c.range(1, r == 1 ? 4 : 2); Tab t = chooseTab(c, r, n, V); GroupableTimeSeriesSet s, o; load(c, s, t); load(c, o, t); c.note("table %s", ref::str(t).c_str());
    if (c.flip() && r * n > 1 && !(t.v[0] == t.v[1])) { s.normalize(); o.normalize(); t = values(s); }
    for (double st : {0.1, 2.0 / 3, 1.0000000000000002, 1e300, 1e-300, 4.35}) { int k = s.groupAllLengths("euclidean", st); roundTrip(c, s, o, t, st, "euclidean", 0.1, k); }
  });
  K.add("larger shapes", 2, [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> S{{1, 1}, {5, 1}, {1, 2}, {1, 60}, {3, 30}, {12, 12}, {60, 4}, {100, 2}, {25, 8}}; std::pair<int, int> rc = c.pick(S); int kind = c.choose(3); double st = c.pick(std::vector<double>{0, 0.5, 3}); auto d = c.pick(DIST); Tab t(rc.first, rc.second); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = kind == 0 ? std::sin(i * 0.7) : kind == 1 ? (double)(i % 3) : (i * 11 % 7) / 3.0;
    if (d == DIST[1] && t.v.size() > 100 && !c.thorough) d = DIST[0]; c.note("%dx%d kind %d threshold %g %s", t.r, t.c, kind, st, d); GroupableTimeSeriesSet s, o; load(c, s, t); load(c, o, t); int k = s.groupAllLengths(d, st); roundTrip(c, s, o, t, st, d, 0.1, k);
  });
  K.add("chains: group, save, load elsewhere, save, load back, any interleaving", 3, [](mc::Ctx& c) {
    Tab t(2, 4); for (int i = 0; i < 8; i++) t.v[i] = (i * 5 % 7) / 3.0; OnexAPI a; for (int i = 0; i < 2; i++) a.loadDataset(tabFile(c, t), 0, 0, " ");
    std::map<int, std::string> held, file; std::map<int, double> hst, fst; static const std::vector<double> S{0.4, 1.5};   // model: canonical groups
    for (int f = 0; f < 2; f++) unlink(c.file(f ? "f1" : "f0").c_str());
    for (int k = 0; k < (c.thorough ? 5 : 4); k++) {
      int op = c.choose(12), i = op & 1; c.op();
      if (op < 4) { double st = S[op / 2]; c.note("group %d with %g", i, st); int n = a.groupDataset(i, st); ref::GroupFile g = groupsOf(c, a, i); if (n != ref::total(g.groups)) c.fail("number of groups"); held[i] = ref::canon(g.groups); hst[i] = st; if (g.st != st) c.fail("threshold"); }
      else if (op < 8) { int f = op >= 6; std::string p = c.file(f ? "f1" : "f0"); c.note("save %d to %d", i, f); bool r = refused([&] { a.saveGroup(i, p, false); }); if (r == (held.count(i) > 0)) c.fail("save %s", r ? "refused" : "accepted"); if (!r) { file[f] = held[i]; fst[f] = hst[i]; } }
      else { int f = op >= 10; std::string p = c.file(f ? "f1" : "f0"); c.note("load %d from %d", i, f); int n = -1; bool r = refused([&] { n = a.loadGroup(i, p); }); if (r == (file.count(f) > 0)) c.fail("load %s", r ? "refused" : "accepted"); if (!r) { held[i] = file[f]; hst[i] = fst[f]; } }
      for (int j = 0; j < 2; j++) { if (a.getDatasetInfo(j).isGrouped != (held.count(j) > 0)) c.fail("dataset %d grouped flag", j); if (held.count(j)) { ref::GroupFile g = groupsOf(c, a, j); if (ref::canon(g.groups) != held[j] || g.st != hst[j]) c.fail("dataset %d holds other groups (threshold %g, expected %g)", j, g.st, hst[j]); c.observe(hashOf(held[j])); matchAndCheck(c, g.groups, t, t.row(1), 0.1, [&] { return a.getBestMatch(j, 1 - j, 1); }); } }
    }
  });
  K.add("sizes of the ladder", 2, [](mc::Ctx& c) {
    bool tall = c.flip(); int k = c.pick(ladder(c.thorough ? (tall ? 2100 : 72) : tall ? 520 : 48, 3)); int r = tall ? k : c.range(1, 2), n = tall ? c.range(1, 3) : k, kind = c.choose(2); double st = c.pick(std::vector<double>{0, 2}); Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = kind ? (double)(i * i * 31 % 1009) / 3 : (double)(i % 5); c.note("%dx%d kind %d threshold %g", r, n, kind, st); GroupableTimeSeriesSet s, o; load(c, s, t); load(c, o, t); int g = s.groupAllLengths("euclidean", st); std::string p = c.file("a.txt"), q = c.file("b.txt"); s.saveGroups(p, false); ref::GroupFile A = parseOrFail(c, get(p), r, n); int m = -1; try { m = o.loadGroups(p); } catch (const OnexException& e) { c.fail("the saved groups were refused: %s", e.what()); } c.op(4); c.checked();
    if (m != g || ref::total(A.groups) != g) c.fail("%d groups made, %d in the file, %d loaded", g, ref::total(A.groups), m); o.saveGroups(q, false); ref::GroupFile B = parseOrFail(c, get(q), r, n); if (ref::canon(A.groups) != ref::canon(B.groups) || A.st != B.st || A.st != st || A.distance != B.distance) c.fail("groups differ after loading"); if (!(values(o) == t)) c.fail("loading groups changed the data");
    for (int i : {0, r - 1}) for (double d : {0.0, 0.3}) { Seq x = t.row(i); x[0] += d; TimeSeries X = view(x); matchAndCheck(c, B.groups, t, x, 0.1, [&] { return o.getBestMatch(X); }); } c.observe(hashOf(ref::canon(A.groups)));
  });
  K.add("very many groups or members of one length", 1, [](mc::Ctx& c) {
    int R = c.pick(std::vector<int>{2000, 9999, 10001, 32767, 32769, 65535, 65537}), kind = c.choose(2); if (R > 40000 && kind && !c.thorough) R = 40001; Tab t(R, 2); for (int i = 0; i < R; i++) { t.at(i, 0) = kind ? i : 1; t.at(i, 1) = kind ? -i : 2; } std::string f = fmt("1 0.5 %d 2\n2 3\neuclidean\n%d\n", R, kind ? R : 1); if (kind) for (int i = 0; i < R; i++) f += fmt("%d %d\n1 %d 0\n", i, -i, i); else { f += fmt("1 2\n%d", R); for (int i = 0; i < R; i++) f += fmt(" %d 0", i); f += "\n"; } std::string p = c.file("a.txt"), q = c.file("b.txt"); put(p, f); c.note("%d series in %s", R, kind ? "groups of one" : "one group");
    GroupableTimeSeriesSet s; std::string in = c.file("in"); put(in, ref::text(t)); s.loadData(in, 0, 0, " "); int n = -1; try { n = s.loadGroups(p); } catch (const OnexException& e) { c.fail("the groups were refused: %s", e.what()); } if (n != (kind ? R : 1)) c.fail("%d groups loaded", n); s.saveGroups(q, false); ref::GroupFile g = parseOrFail(c, get(q), R, 2), w; ref::parseGroupFile(f, w); c.op(3); c.checked(); if (ref::canon(g.groups) != ref::canon(w.groups)) c.fail("the groups saved are not the groups loaded"); for (int i : {0, R / 2, R - 1}) { Seq x{t.at(i, 0) + 0.1, t.at(i, 1)}; TimeSeries X = view(x); candidate_time_series_t m = s.getBestMatch(X); Seq y = values(m.data); if (y != t.row(i)) c.fail("query near series %d is answered with series %d", i, m.data.getIndex()); if (kind && m.data.getIndex() != i) c.fail("series %d instead of %d", m.data.getIndex(), i); } c.observe(R * 2 + kind);
  });
  K.add("zeros of both signs, subnormal numbers and integers that look alike", 3, [](mc::Ctx& c) {
    static const std::vector<double> V{-0.0, 0.0, 1, -4.9406564584124654e-324, -1, 1e15, 1e16}; int r = c.range(1, 2), n = c.range(1, r == 1 ? 4 : 2); Tab t = chooseTab(c, r, n, V); GroupableTimeSeriesSet s, o; load(c, s, t); load(c, o, t); c.note("table %s", ref::str(t).c_str()); for (double st : {0.0, 0.5, 1e17}) { int k = s.groupAllLengths("euclidean", st); roundTrip(c, s, o, t, st, "euclidean", 0.1, k); std::string p = c.file("a.txt"), q = c.file("b.txt"); GroupableTimeSeriesSet again; load(c, again, t); s.saveGroups(p, false); again.loadGroups(p); again.saveGroups(q, false); ref::GroupFile A = parseOrFail(c, get(p), t.r, t.c), B = parseOrFail(c, get(q), t.r, t.c); for (auto& l : A.groups) for (size_t i = 0; i < l.second.size(); i++) for (int j = 0; j < l.first; j++) if (!sameBits(l.second[i].rep[j], B.groups[l.first][i].rep[j])) c.fail("representative value %.17g became %.17g", l.second[i].rep[j], B.groups[l.first][i].rep[j]); }
  });
  return 0;
}();
MC_MAIN(K)

// C06 Groups partition all subsequences of every length.
#include "group_check.hpp"
using namespace u;
static mc::Check K;
static const std::vector<double> ST{0, 0.5, 1, 2, 1e9, -1, 0.1};
static const std::vector<const char*> DIST{"euclidean", "euclidean_dtw"};

// partition seen through the group objects of one length
static void viaObjects(mc::Ctx& c, const TimeSeriesSet& s, int len, const LocalLengthGroupSpace& sp, int reported) {
  std::set<ref::Coord> seen; int n = sp.getNumberOfGroups();
  if (n != reported) c.fail("length %d: %d groups reported, %d present", len, reported, n);
  for (int g = 0; g < n; g++) {
    const Group* gr = sp.getGroup(g); std::vector<TimeSeries> m = gr->getMembers();
    if (m.empty()) c.fail("length %d: group %d is empty", len, g);
    if ((int)m.size() != gr->getCount()) c.fail("length %d: group %d counts %d members and has %zu", len, g, gr->getCount(), m.size());
    if (gr->getMemberLength() != len || gr->getCentroid().getLength() != len) c.fail("length %d: group %d has another length", len, g);
    for (auto& t : m) {
      if (t.getLength() != len || t.getIndex() < 0 || t.getIndex() >= s.getItemCount() || t.getStart() < 0 || t.getEnd() > s.getItemLength()) c.fail("length %d: member (%d,%d) outside the dataset", len, t.getIndex(), t.getStart());
      if (!seen.insert(ref::Coord(t.getIndex(), t.getStart())).second) c.fail("length %d: (%d,%d) is in two groups", len, t.getIndex(), t.getStart());
    }
  }
  size_t want = (size_t)s.getItemCount() * (s.getItemLength() - len + 1);
  if (seen.size() != want) c.fail("length %d: %zu of %zu subsequences are in a group", len, seen.size(), want);
  if (!refused([&] { sp.getGroup(n); }) || !refused([&] { sp.getGroup(-1); })) c.fail("group index outside the range accepted");
}
static void viaFiles(mc::Ctx& c, const GroupableTimeSeriesSet& s, int reported) {
  ref::GroupFile g = groupsOf(c, s);                                  // fails unless it is a partition
  if (ref::total(g.groups) != reported) c.fail("%d groups reported, %d present", reported, ref::total(g.groups));
  std::string p = c.file("z.txt"); s.saveGroups(p, true); ref::GroupFile z;
  if (!ref::parseGroupFile(get(p), z, true)) c.fail("size-only file: %s", z.error.c_str());
  for (auto& k : g.groups) { auto& zs = z.sizes[k.first]; if (zs.size() != k.second.size()) c.fail("size-only file has another number of groups of length %d", k.first); for (size_t i = 0; i < zs.size(); i++) if (zs[i] != (int)k.second[i].members.size()) c.fail("group %zu of length %d has size %d, %zu members", i, k.first, zs[i], k.second[i].members.size()); }
  c.checked(); c.observe(hashOf(ref::canon(g.groups)));
}
static Tab shaped(int r, int n, int kind, int at) {
  Tab t(r, n); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) t.at(i, j) = kind == 0 ? 1 : kind == 1 ? j % 3 : kind == 2 ? (i * 5 + j * 3) % 7 : j * 0.25 + i;
  if (at >= 0) t.v[at] += 10; return t;
}
int init = [] {
  K.property = "C06"; K.hangLimit = 150; K.before = u::reset;
  K.rule = "every listed dataset is grouped with every threshold and grouping distance (also twice); the members read from the saved group file by an independent reader and from the group objects must partition all subsequences of every length";
  K.assumptions = {"finite values"};
  K.add("all tables up to 7 cells over {0,1,3}, every threshold and distance", 4, [](mc::Ctx& c) {
    int cells = c.thorough ? 9 : 7; int r = c.range(1, cells), n = c.range(1, cells / r); Tab t = chooseTab(c, r, n, {0, 1, 3});
    GroupableTimeSeriesSet s; load(c, s, t);
    c.note("table %s", ref::str(t).c_str());
    for (double st : ST) for (auto d : DIST) { int k = s.groupAllLengths(d, st); c.op(); viaFiles(c, s, k); }     // each regroups
  });
  K.add("group objects of one length, all tables up to 6 cells", 4, [](mc::Ctx& c) {
    int cells = c.thorough ? 8 : 6; int r = c.range(1, cells), n = c.range(1, cells / r); Tab t = chooseTab(c, r, n, {0, 1, 3}); 
    GroupableTimeSeriesSet s; load(c, s, t); c.note("table %s", ref::str(t).c_str());
    double ratio = c.pick(std::vector<double>{0.1, 1}); setWarpingBandRatio(ratio);
    for (int len = 1; len <= n; len++) for (double st : ST) for (auto d : DIST) { LocalLengthGroupSpace sp(s, len); int k = sp.generateGroups(getDistance(d), st); c.op(); viaObjects(c, s, len, sp, k); c.checked(); }
    c.observe(hashOf(t));
  });
  K.add("larger shapes, an outlier at every position", 3, [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> S{{1, 2}, {2, 1}, {1, 1}, {1, 33}, {2, 17}, {4, 9}, {9, 4}, {17, 3}, {40, 2}, {5, 6}, {6, 5}};
    std::pair<int, int> rc = c.pick(S); int kind = c.choose(4); int at = c.choose(rc.first * rc.second + 1) - 1; Tab t = shaped(rc.first, rc.second, kind, at);
    double st = c.pick(std::vector<double>{0, 0.4, 3}); auto d = c.pick(DIST);
    c.note("%dx%d kind %d outlier %d threshold %g %s", rc.first, rc.second, kind, at, st, d);
    GroupableTimeSeriesSet s; load(c, s, t); int k = s.groupAllLengths(d, st); c.op(); viaFiles(c, s, k);
  });
  K.add("big datasets", 2, [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> S{{1, 90}, {30, 20}, {120, 4}, {3, 60}};
    std::pair<int, int> rc = c.pick(S); int kind = c.choose(4); Tab t = shaped(rc.first, rc.second, kind, -1); double st = c.pick(std::vector<double>{0, 1, 4});
    c.note("%dx%d kind %d threshold %g", rc.first, rc.second, kind, st);
    GroupableTimeSeriesSet s; load(c, s, t); int k = s.groupAllLengths("euclidean", st); c.op(); viaFiles(c, s, k);
  });
  K.add("every length up to 70 and thresholds of every magnitude", 2, [](mc::Ctx& c) {
    static const std::vector<double> M{0, 1e-300, 1e-12, 1e-3, 0.4, 3, 50, 1000, 2e6, 1e12, 1e100, 1e300, -1e-3, -1e300}; int n = c.range(1, c.thorough ? 130 : 70); double st = c.pick(M); int r = c.range(1, n > 40 ? 2 : 3), kind = c.choose(4); bool w = n <= 30 && c.flip(); Tab t = shaped(r, n, kind, -1);
    c.note("%dx%d kind %d threshold %g%s", r, n, kind, st, w ? " warped" : ""); GroupableTimeSeriesSet s; load(c, s, t); int k = s.groupAllLengths(DIST[w], st); c.op(); viaFiles(c, s, k);
  });
  K.add("every number of series of the ladder", 2, [](mc::Ctx& c) {
    static const std::vector<int> L = ladder(c.thorough ? 20000 : 3100); int r = c.pick(L), n = c.range(2, 4), kind = c.choose(3); Tab t(r, n); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) t.at(i, j) = kind == 0 ? i * 2 : kind == 1 ? i % 7 + j : 1; if (kind == 0 && r > 1100) return;
    c.note("%dx%d kind %d", r, n, kind); GroupableTimeSeriesSet s; load(c, s, t); int k = s.groupAllLengths("euclidean", 0.5); c.op(); viaFiles(c, s, k);
  });
  K.add("every sequence of groupings, resets and reloads through set and session", 2, [](mc::Ctx& c) {
    int w = c.choose(2); Tab t(2, 5); for (int i = 0; i < 10; i++) t.v[i] = (i * 3) % 4; Tab t2(3, 4); for (int i = 0; i < 12; i++) t2.v[i] = (i * 5) % 3;
    if (w) {
      OnexAPI a; a.loadDataset(tabFile(c, t), 0, 0, " "); a.loadDataset(tabFile(c, t2), 0, 0, " ");
      for (int k = 0; k < 4; k++) { int i = c.choose(2); double st = c.pick(ST); c.note("group %d with %g", i, st); int n = a.groupDataset(i, st); c.op(); ref::GroupFile g = groupsOf(c, a, i); if (ref::total(g.groups) != n || g.st != st) c.fail("%d groups reported, %d present, threshold %g", n, ref::total(g.groups), g.st); if (!a.getDatasetInfo(i).isGrouped) c.fail("not grouped"); c.checked(); c.observe(hashOf(ref::canon(g.groups))); }
      return;
    }
    GroupableTimeSeriesSet s; load(c, s, t);
    for (int k = 0; k < 4; k++) {
      int op = c.choose(8); c.op();
      if (op == 0) { s.reset(); c.note("reset"); if (s.isGrouped()) c.fail("grouped after reset"); }
      else if (op == 1) { load(c, s, t2); c.note("reload"); }
      else { double st = ST[op - 2]; c.note("group %g", st); int n = s.groupAllLengths(DIST[k % 2], st); if (!s.isGrouped()) c.fail("not grouped"); viaFiles(c, s, n); }
    }
  });
  K.add("very big datasets: member counts, group counts and coordinates beyond 15 and 16 bits", 1, [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> S{{33000, 2}, {66000, 2}, {2, 260}, {9000, 5}, {33000, 2}, {1, 370}, {32900, 2}};
    int k = c.choose((int)S.size()); int r = S[k].first, n = S[k].second; Tab t(r, n); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) t.at(i, j) = k == 6 ? i : k == 5 ? j * 1.5 : k == 4 ? (i % 40000) / 300 : (i * 7 + j) % 3 * 0.5; double st = k >= 5 ? 0 : k == 4 ? 0.5 : 1e6;
    c.note("%dx%d threshold %g", r, n, st); GroupableTimeSeriesSet s; load(c, s, t); int g = s.groupAllLengths("euclidean", st); c.op(); viaFiles(c, s, g);
  });
  K.add("grouping nothing is refused", 1, [](mc::Ctx& c) {
    GroupableTimeSeriesSet s; int h = c.choose(2); if (h) { load(c, s, Tab(2, 2, 1)); s.clearData(); } c.op();
    if (!refused([&] { s.groupAllLengths("euclidean", 1); }) || s.isGrouped()) c.fail("grouping without data"); c.observe(h);
  });
  K.add("every number of series and of points of the ladder, threshold 0 included", 2, [](mc::Ctx& c) {
    bool tall = c.flip(); static const std::vector<int> A = ladder(c.thorough ? 20000 : 5100), B = ladder(c.thorough ? 200 : 110); int k = c.pick(tall ? A : B), m = tall ? c.range(1, 3) : c.range(1, 2); int kind = c.choose(3); double st = c.pick(std::vector<double>{0, 1e-9, 2}); Tab t(tall ? k : m, tall ? m : k); for (int i = 0; i < t.r; i++) for (int j = 0; j < t.c; j++) t.at(i, j) = kind == 0 ? 1 : kind == 1 ? (i + j) % 2 : i % 3 + (j % 5 == 0 ? 4 : 0);
    c.note("%dx%d kind %d threshold %g", t.r, t.c, kind, st); GroupableTimeSeriesSet s; load(c, s, t); int n = s.groupAllLengths("euclidean", st); c.op(); viaFiles(c, s, n);
  });
  K.add("partitions of values that are not finite", 3, [](mc::Ctx& c) {
    int r = c.range(1, 3), n = c.range(1, r == 1 ? 4 : r == 2 ? 3 : 2); Tab t = r * n < 6 ? chooseTab(c, r, n, {0, 1e200, -1e200, ref::Inf, std::nan("")}) : chooseTab(c, r, n, {0, 1e200, ref::Inf, std::nan("")}); double st = c.pick(std::vector<double>{0, 1, -1, 1e300}); bool w = c.flip(); c.note("table %s threshold %g%s", ref::str(t).c_str(), st, w ? " warped" : ""); GroupableTimeSeriesSet s; load(c, s, t); int k = s.groupAllLengths(DIST[w], st); c.op(); viaFiles(c, s, k);
  });
  K.add("infinite and very large thresholds, every number of points", 2, [](mc::Ctx& c) {
    int n = c.range(1, c.thorough ? 40 : 24), r = c.range(1, 3), kind = c.choose(4); double st = c.pick(std::vector<double>{ref::Inf, -ref::Inf, 1.7976931348623157e308, 1e300, -1e300}); bool w = c.flip(); if (w && n > 14) return; Tab t = shaped(r, n, kind, n > 2 ? n / 2 : -1); c.note("%dx%d kind %d threshold %g %s", r, n, kind, st, DIST[w]); GroupableTimeSeriesSet s; load(c, s, t); int k = s.groupAllLengths(DIST[w], st); c.op(); ref::Groups g; { ref::Groups all; int total = 0; for (int len = 2; len <= n; len++) { LocalLengthGroupSpace L(s, len); int j = L.generateGroups(getDistance(DIST[w]), st); viaObjects(c, s, len, L, j); total += j; } if (total != k) c.fail("%d groups reported, %d groups of all lengths", k, total); } if (st > 0 && k != std::max(0, n - 1)) c.fail("everything is within the threshold %g of everything, but there are %d groups of %d lengths", st, k, n - 1);
    OnexAPI a; a.loadDataset(tabFile(c, t), 0, 0, " "); if (!w) { int j = a.groupDataset(0, st); if (j != k) c.fail("the session reports %d groups, the set %d", j, k); } c.checked(); c.observe(k * 100 + n);
  });
  return 0;
}();
MC_MAIN(K)

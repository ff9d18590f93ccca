// C11 A match is the best member of the group with the nearest representative.
#include "group_check.hpp"
using namespace u;
static mc::Check K;

// every query over the alphabet with lengths lo..hi against the set's current groups
static void allQueries(mc::Ctx& c, GroupableTimeSeriesSet& s, const ref::Groups& g, const Tab& t, double ratio, int lo, int hi, const std::vector<double>& A) {
  for (int n = lo; n <= hi; n++) {
    std::vector<int> ix(n, 0);
    while (true) {
      Seq q(n); for (int i = 0; i < n; i++) q[i] = A[ix[i]];
      TimeSeries Q = view(q);
      matchAndCheck(c, g, t, q, ratio, [&] { return s.getBestMatch(Q); });
      int k = n - 1; while (k >= 0 && ++ix[k] == (int)A.size()) ix[k--] = 0; if (k < 0) break;
    }
  }
}
int init = [] {
  K.property = "C11"; K.before = u::reset;
  K.rule = "every listed dataset, threshold, band ratio and query: the group partition is read from the saved group file by an independent reader; the match must be a true subsequence at its true warped distance, nearest in a group whose representative is nearest over all admissible lengths, or be refused exactly when nothing is admissible";
  K.assumptions = {"finite values", "ties within a relative 1e-9 may be answered with any of the tied groups or members"};
  K.add("all tables up to 5 cells over {0,1,3}, all queries of length 1..4 over {0,1,3}", 4, [](mc::Ctx& c) {
    int cells = c.thorough ? 6 : 5; int r = c.range(1, cells), n = c.range(1, cells / r); Tab t = chooseTab(c, r, n, {0, 1, 3}); double ratio = c.pick(std::vector<double>{0.1, 0.34, 0.5, 1}); setWarpingBandRatio(ratio);
    c.note("table %s band ratio %g", ref::str(t).c_str(), ratio); GroupableTimeSeriesSet s; load(c, s, t);
    for (double st : {0.0, 1.0, 3.3, 9.0}) { s.groupAllLengths("euclidean", st); ref::GroupFile g = groupsOf(c, s); allQueries(c, s, g.groups, t, ratio, 1, 4, {0, 1, 3}); }
  });
  K.add("one series of length 6..7 over {0,2}, all queries of length 1..8 over {0,2}", 4, [](mc::Ctx& c) {
    int n = c.range(6, c.thorough ? 8 : 7); Tab t = chooseTab(c, 1, n, {0, 2}); double ratio = c.pick(std::vector<double>{0.2, 0.4}); double st = c.pick(std::vector<double>{0.5, 2.1}); setWarpingBandRatio(ratio);
    c.note("table %s band ratio %g threshold %g", ref::str(t).c_str(), ratio, st); GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", st); ref::GroupFile g = groupsOf(c, s); allQueries(c, s, g.groups, t, ratio, 1, c.thorough ? 8 : 7, {0, 2});
  });
  K.add("groups by warped distance", 4, [](mc::Ctx& c) {
    int r = c.range(1, 2), n = c.range(2, 4 - (r == 2 && !c.thorough)); Tab t = chooseTab(c, r, n, {0, 1, 4}); double ratio = c.pick(std::vector<double>{0.34, 0.5, 1}); setWarpingBandRatio(ratio);
    c.note("table %s band ratio %g", ref::str(t).c_str(), ratio); GroupableTimeSeriesSet s; load(c, s, t);
    for (double st : {0.0, 0.6, 2.0}) { s.groupAllLengths("euclidean_dtw", st); ref::GroupFile g = groupsOf(c, s); allQueries(c, s, g.groups, t, ratio, 1, 5, {0, 1, 4}); }
  });
  K.add("all tables up to 4 cells and queries of length 2..3 at scales from 1e-100 to 1e100", 4, [](mc::Ctx& c) {
    double x = c.pick(scales()); int cells = c.thorough ? 5 : 4; int r = c.range(1, cells), n = c.range(1, cells / r); Tab t = chooseTab(c, r, n, {0, 1, 3}); for (auto& v : t.v) v *= x; ref::unit() = x; setWarpingBandRatio(0.5);
    c.note("table %s", ref::str(t).c_str()); GroupableTimeSeriesSet s; load(c, s, t); for (double st : {0.0, 1.0, 3.3, 9.0}) { s.groupAllLengths("euclidean", st * x); ref::GroupFile g = groupsOf(c, s); allQueries(c, s, g.groups, t, 0.5, 2, 3, {0, 1 * x, 3 * x, 4.5 * x}); }
  });
  K.add("session: every query range of every series of the same and of another dataset", 3, [](mc::Ctx& c) {
    int v = c.choose(6); Tab t(2 + v % 2, 4 + v % 3), o(2, 3 + 2 * v); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (int)(i * (v + 2)) % 5; for (size_t i = 0; i < o.v.size(); i++) o.v[i] = (int)(i * 3 + v) % 6 * 0.75;
    double ratio = c.pick(std::vector<double>{0, 0.1, 0.3, 0.6, 1}), st = c.pick(std::vector<double>{0, 1, 2.5}); OnexAPI a; a.loadDataset(tabFile(c, t), 0, 0, " "); a.loadDataset(tabFile(c, o), 0, 0, " "); a.setWarpingBandRatio(ratio);
    int db = c.choose(2), q = c.choose(2); a.groupDataset(db, st); const Tab &D = db ? o : t, &Q = q ? o : t; ref::GroupFile g = groupsOf(c, a, db); c.note("data %d threshold %g ratio %g, %d queried from %d", v, st, ratio, db, q);
    for (int i = 0; i < Q.r; i++) for (int b = 0; b < Q.c; b++) for (int e = b + 1; e <= Q.c; e++) { matchAndCheck(c, g.groups, D, Q.sub(i, b, e), ratio, [&] { return a.getBestMatch(db, q, i, b, e); }); }
    matchAndCheck(c, g.groups, D, Q.row(0), ratio, [&] { return a.getBestMatch(db, q, 0); });
    if (!refused([&] { a.getBestMatch(1 - db, q, 0); })) c.fail("an ungrouped dataset answered");
    for (int i : {-1, Q.r}) if (!refused([&] { a.getBestMatch(db, q, i, 0, 2); })) c.fail("query series %d accepted", i);
    if (!refused([&] { a.getBestMatch(db, q, 0, 0, Q.c + 1); }) || !refused([&] { a.getBestMatch(db, q, 0, 2, 1); }) || !refused([&] { a.getBestMatch(db, q, 0, -1, 2); })) c.fail("query range outside the series accepted");
  });
  K.add("larger datasets, queries cut from or disturbed at every position", 3, [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> S{{3, 16}, {1, 30}, {6, 9}, {15, 5}, {2, 22}}; std::pair<int, int> rc = c.pick(S); double st = c.pick(std::vector<double>{0.3, 1, 2}); double ratio = c.pick(std::vector<double>{0.1, 0.25});
    Tab t(rc.first, rc.second); for (int i = 0; i < t.r; i++) for (int j = 0; j < t.c; j++) t.at(i, j) = std::sin(j * (0.5 + 0.1 * i)) * 2 + 0.3 * i; int n = c.pick(std::vector<int>{2, 5, t.c / 2, t.c, t.c + 2, t.c + 9}); int kind = c.choose(3); setWarpingBandRatio(ratio);
    GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", st); ref::GroupFile g = groupsOf(c, s); c.note("%dx%d threshold %g ratio %g queries of length %d kind %d", t.r, t.c, st, ratio, n, kind);
    for (int p = 0; p < n; p += (n > 12 ? 3 : 1)) { Seq q(n); for (int j = 0; j < n; j++) q[j] = kind == 0 ? t.v[(p * 7 + j) % t.v.size()] : kind == 1 ? std::cos(j * 0.4 + p) * 2 : 0.5; q[p] += kind == 2 ? 3 : 0.4; TimeSeries Q = view(q); matchAndCheck(c, g.groups, t, q, ratio, [&] { return s.getBestMatch(Q); }); }
  });
  K.add("many series: the nearest of many groups and of many members", 2, [](mc::Ctx& c) {
    int R = c.pick(std::vector<int>{5, 33, 80}); double st = c.pick(std::vector<double>{0, 6, 1000}); Tab t(R, 3); for (int i = 0; i < R; i++) for (int j = 0; j < 3; j++) t.at(i, j) = ((i * 29) % R) * 2 + j * 0.1; setWarpingBandRatio(0.5); c.note("%d series threshold %g", R, st);
    GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", st); ref::GroupFile g = groupsOf(c, s);
    for (int p = -1; p <= 2 * R; p++) { for (double o : {0.0, 0.3, 0.9}) { Seq q{p + o, p + o, p + o + 0.2}; TimeSeries Q = view(q); matchAndCheck(c, g.groups, t, q, 0.5, [&] { return s.getBestMatch(Q); }); } }
  });
  K.add("ungrouped, reset, one-point series and queries", 1, [](mc::Ctx& c) {
    int h = c.choose(5), n = c.range(1, 3); Tab t(2, h == 4 ? 1 : 3, 1); t.v[1] = 2; GroupableTimeSeriesSet s; if (h) load(c, s, t); if (h >= 2) s.groupAllLengths("euclidean", 1); if (h == 3) s.reset(); Seq q(n, 1.5); TimeSeries Q = view(q); c.op(); c.note("history %d query length %d", h, n);
    bool r = refused([&] { s.getBestMatch(Q); }); bool want = !(h == 2 && n >= 2 && (n == 2 || n == 3)); if (r != want) c.fail("query of length %d after history %d was %s", n, h, r ? "refused" : "answered"); c.observe(h * 10 + n);
  });
  K.add("sizes of the ladder: many series, many members, many groups", 2, [](mc::Ctx& c) {
    int R = c.pick(ladder(c.thorough ? 1100 : 520)), N = c.pick(std::vector<int>{2, 3}), kind = c.choose(3); double st = c.pick(std::vector<double>{0, 3, 1e6}); Tab t(R, N); for (int i = 0; i < R; i++) for (int j = 0; j < N; j++) t.at(i, j) = kind == 0 ? (double)((i * 37LL) % R) * 2 + j * 0.1 : kind == 1 ? (double)(i % 7) + j : (double)i * i * 0.01 - j; setWarpingBandRatio(0.5); c.note("%d series of %d, kind %d, threshold %g", R, N, kind, st); GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", st); ref::GroupFile g = groupsOf(c, s);
    for (int i : {0, 1, R / 3, R / 2, R - 2, R - 1}) if (i >= 0 && i < R) for (double o : {0.0, 0.4}) for (int n = 2; n <= 3; n++) { Seq q(n); for (int j = 0; j < n; j++) q[j] = t.at(i, std::min(j, N - 1)) + o * (j + 1); TimeSeries Q = view(q); matchAndCheck(c, g.groups, t, q, 0.5, [&] { return s.getBestMatch(Q); }); }
  });
  K.add("long series: every query length on a grid, the answer first, last or in between", 2, [](mc::Ctx& c) {
    int n = c.pick(c.thorough ? std::vector<int>{40, 64, 65, 96, 110} : std::vector<int>{40, 64, 65}), r = c.range(1, 2); double st = c.pick(std::vector<double>{0.5, 2}), ratio = c.pick(std::vector<double>{0.05, 0.15}); int kind = c.choose(2); Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = kind ? std::sin(i * 0.41) * 2 : (double)(i * i % 17) * 0.3; setWarpingBandRatio(ratio); c.note("%dx%d threshold %g ratio %g kind %d", r, n, st, ratio, kind); GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", st); ref::GroupFile g = groupsOf(c, s);
    for (int m : {2, 3, 8, 17, n / 2, n - 1, n, n + 2}) for (int at : {0, (n - m) / 2, n - m}) { if (at < 0) at = 0; Seq q(m); for (int j = 0; j < m; j++) q[j] = t.at(r - 1, std::min(at + j, n - 1)); for (double o : {0.0, 0.35}) { q[m / 2] += o; TimeSeries Q = view(q); matchAndCheck(c, g.groups, t, q, ratio, [&] { return s.getBestMatch(Q); }); } }
  });
  K.add("session: every query range of a dataset against itself, groups of many members", 3, [](mc::Ctx& c) {
    int v = c.choose(8), r = 1 + v % 3, n = 3 + v; Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = v % 2 ? (double)(i * i * 5 % 23) * 0.5 : (double)(i % n) - (double)(i / n) * 0.5; double ratio = c.pick(std::vector<double>{0.1, 0.4, 1}), st = c.pick(std::vector<double>{3, 7, 25, 100, 1e9}); OnexAPI a; a.loadDataset(tabFile(c, t), 0, 0, " "); a.setWarpingBandRatio(ratio); a.groupDataset(0, st); ref::GroupFile g = groupsOf(c, a, 0); int i = c.choose(r), b = c.choose(n - 1); c.note("data %d threshold %g ratio %g series %d from %d", v, st, ratio, i, b);
    for (int e = b + 1; e <= n; e++) matchAndCheck(c, g.groups, t, t.sub(i, b, e), ratio, [&] { return a.getBestMatch(0, 0, i, b, e); });
    GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", st); for (int e = b + 2; e <= n; e++) { TimeSeries q = s.getTimeSeries(i, b, e); matchAndCheck(c, g.groups, t, t.sub(i, b, e), ratio, [&] { return s.getBestMatch(q); }); }
  });
  return 0;
}();
MC_MAIN(K)

// C07 Groups respect the similarity threshold around their representatives.
#include "group_check.hpp"
using namespace u;
static mc::Check K;
// thresholds hit exactly representable distances or lie well away from every reachable distance
static const std::vector<double> ST{0, 0.25, 1, 2, 3.3, 4, 6, 1e9, -1, 0.7};

static void verify(mc::Ctx& c, const Tab& t, double st, bool warped, double ratio, const ref::Groups& got) {
  auto dist = [&](const Seq& a, const Seq& b) { return warped ? ref::dtw(a, b, ratio) : ref::ed(a, b); };
  // the statement, directly
  for (auto& k : got) {
    for (size_t g = 0; g < k.second.size(); g++) {
      const ref::Group& G = k.second[g]; bool rep = false;
      for (auto& m : G.members) {
        Seq v = t.sub(m.first, m.second, m.second + k.first); if (v == G.rep) rep = true;
        double d = dist(v, G.rep);
        if (d > st / 2 && !(v == G.rep) && !ref::close(d, st / 2, 1e-10)) c.fail("length %d: member (%d,%d) is %.12g from its representative, threshold/2 is %g; table %s", k.first, m.first, m.second, d, st / 2, ref::str(t).c_str());
      }
      if (!rep) c.fail("length %d: the representative %s of group %zu is no member; table %s", k.first, ref::str(G.rep).c_str(), g, ref::str(t).c_str());
      for (size_t h = 0; h < g; h++) { double d = dist(k.second[h].rep, G.rep); if (d <= st / 2 && !ref::close(d, st / 2, 1e-10)) c.fail("length %d: representatives of groups %zu and %zu are only %.12g apart, threshold/2 is %g; table %s", k.first, h, g, d, st / 2, ref::str(t).c_str()); }
    }
  }
  // the documented processing, exactly
  ref::Groups want = ref::group(t, st, warped, ratio);
  std::string a = ref::canon(got), b = ref::canon(want);
  if (a != b) c.fail("threshold %g, %s, band ratio %g, table %s\n  groups    %s\n  expected  %s", st, warped ? "warped" : "euclidean", ratio, ref::str(t).c_str(), a.substr(0, 700).c_str(), b.substr(0, 700).c_str());
  c.checked(); c.observe(hashOf(a));
}
int init = [] {
  K.property = "C07"; K.hangLimit = 150; K.before = u::reset;
  K.rule = "every listed dataset is grouped with every threshold; the saved groups are compared with the stated conditions and with a reference grouping (start-major order, nearest representative, oldest on ties)";
  K.assumptions = {"thresholds that are reached exactly are reached in exact arithmetic (small integer values)", "finite values"};
  K.add("all tables up to 7 cells over {0,1,3}, every threshold, Euclidean", 4, [](mc::Ctx& c) {
    int cells = c.thorough ? 9 : 7; int r = c.range(1, cells), n = c.range(1, cells / r); Tab t = chooseTab(c, r, n, {0, 1, 3});
    GroupableTimeSeriesSet s; load(c, s, t); c.note("table %s", ref::str(t).c_str());
    for (double st : ST) { s.groupAllLengths("euclidean", st); c.op(); verify(c, t, st, false, 0.1, groupsOf(c, s).groups); }
  });
  K.add("all tables up to 6 cells over {0,1,4}, every threshold and band ratio, warped", 4, [](mc::Ctx& c) {
    int cells = c.thorough ? 8 : 6; int r = c.range(1, cells), n = c.range(1, cells / r); Tab t = chooseTab(c, r, n, {0, 1, 4});
    double ratio = c.pick(std::vector<double>{0.1, 0.34, 0.5, 1}); setWarpingBandRatio(ratio);
    GroupableTimeSeriesSet s; load(c, s, t); c.note("table %s ratio %g", ref::str(t).c_str(), ratio);
    for (double st : {0.0, 0.3, 1.0, 1.7, 2.0, -1.0}) { s.groupAllLengths("euclidean_dtw", st); c.op(); verify(c, t, st, true, ratio, groupsOf(c, s).groups); }
  });
  K.add("session: all 2-series tables over {0,2,3} grouped through the session", 4, [](mc::Ctx& c) {
    int n = c.range(2, c.thorough ? 5 : 4); Tab t = chooseTab(c, 2, n, {0, 2, 3}); OnexAPI a; a.loadDataset(tabFile(c, t), 0, 0, " "); c.note("table %s", ref::str(t).c_str());
    for (double st : {0.0, 2.0, 1.3, 4.0}) { int k = a.groupDataset(0, st); c.op(); ref::GroupFile g = groupsOf(c, a, 0); if (k != ref::total(g.groups)) c.fail("reported number"); verify(c, t, st, false, 0.1, g.groups); }
  });
  K.add("larger shapes with a perturbation at every position", 3, [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> S{{1, 24}, {2, 13}, {3, 9}, {4, 7}, {7, 5}, {12, 3}, {30, 2}, {20, 4}};
    std::pair<int, int> rc = c.pick(S); int kind = c.choose(3), at = c.choose(rc.first * rc.second), up = c.choose(2); Tab t(rc.first, rc.second);
    for (int i = 0; i < t.r; i++) for (int j = 0; j < t.c; j++) t.at(i, j) = kind == 0 ? 0 : kind == 1 ? (j * 3 + i) % 4 : (i * 7 + j * 5) % 9;
    t.v[at] += up ? 5 : -1; double st = c.pick(std::vector<double>{0, 2, 1.1, 4, 7}); bool w = c.flip(); double ratio = w ? 0.3 : 0.1; setWarpingBandRatio(ratio);
    c.note("%dx%d kind %d position %d threshold %g %s", t.r, t.c, kind, at, st, w ? "warped" : "euclidean");
    GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths(w ? "euclidean_dtw" : "euclidean", st); c.op(); verify(c, t, st, w, ratio, groupsOf(c, s).groups);
  });
  K.add("many groups: the nearest and the oldest of many representatives", 2, [](mc::Ctx& c) {
    // pairs (i, i): representatives at many levels; a probe series between any two of them
    int n = c.pick(std::vector<int>{5, 20, 70}); int p = c.choose(2 * n); int q = c.choose(4); Tab t(n + 1, 2);
    for (int i = 0; i < n; i++) { int lvl = (i * 7) % n; t.at(i, 0) = t.at(i, 1) = 4 * lvl; } t.at(n, 0) = t.at(n, 1) = 2 * p + 0.5 * q;
    double st = c.pick(std::vector<double>{0, 1, 2, 3, 4, 4.2}); c.note("%d levels, probe %g, threshold %g", n, t.at(n, 0), st);
    GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", st); c.op(); verify(c, t, st, false, 0.1, groupsOf(c, s).groups);
  });
  K.add("longer series: every length up to 64", 2, [](mc::Ctx& c) {
    int n = c.range(8, c.thorough ? 96 : 64), kind = c.choose(4), r = n > 30 ? 1 : 1 + c.choose(2); double st = c.pick(std::vector<double>{0.3, 1.3, 3.1, 6.7}); Tab t(r, n); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) t.at(i, j) = kind == 0 ? (j * 3 + i) % 5 : kind == 1 ? (j < n / 2 ? 0 : 4 + i) : kind == 2 ? j * 0.25 - i : 3 * std::sin(j * 0.7 + i);
    bool w = n <= 16 && c.flip(); setWarpingBandRatio(0.2); c.note("%dx%d kind %d threshold %g %s", r, n, kind, st, w ? "warped" : "euclidean"); GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths(w ? "euclidean_dtw" : "euclidean", st); c.op(); verify(c, t, st, w, 0.2, groupsOf(c, s).groups);
  });
  K.add("every series its own group, or all in a few: more series than 15 bits count", 1, [](mc::Ctx& c) {
    int kind = c.choose(2), n = 32900; if (c.thorough && !kind) n = 66000; Tab t(n, 2); for (int i = 0; i < n; i++) t.at(i, 0) = t.at(i, 1) = kind ? i % 5 * 4 : i * 4; c.note("%d series, kind %d", n, kind); GroupableTimeSeriesSet s; load(c, s, t); int k = s.groupAllLengths("euclidean", 1); c.op(); int want = kind ? 5 : n; if (k != want) c.fail("%d groups instead of %d", k, want);
    ref::GroupFile g = groupsOf(c, s); auto& G = g.groups.at(2); for (int i = 0; i < want; i++) { if (!(G[i].rep == t.row(i))) c.fail("representative of group %d", i); for (auto& m : G[i].members) if (!(t.row(m.first) == G[i].rep)) c.fail("series %d is in group %d", m.first, i); } c.checked(); c.observe(k);
  });
  K.add("all tables up to 5 cells at scales from 1e-100 to 1e100", 4, [](mc::Ctx& c) {
    double s = c.pick(scales()); int cells = c.thorough ? 6 : 5; int r = c.range(1, cells), n = c.range(1, cells / r); Tab t = chooseTab(c, r, n, {0, 1, 3}); for (auto& x : t.v) x *= s; ref::unit() = s; GroupableTimeSeriesSet S; load(c, S, t); c.note("table %s", ref::str(t).c_str());
    for (double st : {0.0, 0.7, 1.7, 3.3}) for (int w = 0; w < 2; w++) { setWarpingBandRatio(0.5); S.groupAllLengths(w ? "euclidean_dtw" : "euclidean", st * s); c.op(); verify(c, t, st * s, w, 0.5, groupsOf(c, S).groups); }
  });
  K.add("dense values: every threshold step on irregular data", 2, [](mc::Ctx& c) {
    int seed = c.choose(c.thorough ? 400 : 60), k = c.choose(25); int r = 2 + seed % 4, n = 4 + seed % 5; Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = std::fmod(std::sin((double)(i + 1) * (seed + 3)) * 1e4, 1.0);
    double st = 0.0371 * k; bool w = c.flip(); setWarpingBandRatio(0.2); c.note("dataset %d threshold %g %s", seed, st, w ? "warped" : "euclidean");
    GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths(w ? "euclidean_dtw" : "euclidean", st); c.op(); verify(c, t, st, w, 0.2, groupsOf(c, s).groups);
  });
  K.add("number of groups of the ladder, probes at the oldest, a middle and the youngest representative", 2, [](mc::Ctx& c) {
    int n = c.pick(ladder(c.thorough ? 5100 : 1300, 2)); double st = c.pick(std::vector<double>{0, 1, 3.3}); int kind = c.choose(3); std::vector<int> at{0, 1, n / 3, n / 2, n - 2, n - 1}; Tab t(n + (int)at.size() * 2, 2 + (kind == 2)); auto level = [&](int i) { return kind == 1 ? 4.0 * ((i * 7919LL) % n) : 4.0 * i; };
    for (int i = 0; i < n; i++) for (int j = 0; j < t.c; j++) t.at(i, j) = level(i); for (size_t k = 0; k < at.size(); k++) for (int j = 0; j < t.c; j++) { t.at(n + 2 * k, j) = level(std::max(0, at[k])); t.at(n + 2 * k + 1, j) = level(std::max(0, at[k])) + (j ? 0.75 : 0.5); }
    c.note("%d levels, threshold %g, kind %d", n, st, kind); GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", st); c.op(); verify(c, t, st, false, 0.1, groupsOf(c, s).groups);
  });
  return 0;
}();
MC_MAIN(K)

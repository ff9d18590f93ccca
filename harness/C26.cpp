// C26 Subsequence addressing is exact and checked.
#include "onex_util.hpp"
#include <climits>
using namespace u;
static mc::Check K;
static const std::vector<double> RATIO{0.1, 0.5};
static std::vector<int> around(int n) { std::vector<int> v; for (int k = -3; k <= n + 3; k++) v.push_back(k); for (int k : {INT_MIN, INT_MIN + 1, -100, INT_MAX - 1, INT_MAX}) v.push_back(k); return v; }
static Tab filled(int r, int n) { Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (double)((i * 37 + 11) % 101) / 4; return t; }
static bool valid(const Tab& t, int i, int s, int e, bool whole) { return i >= 0 && i < t.r && ((whole && s < 0 && e < 0) || (s >= 0 && s < e && e <= t.c)); }
// one request on a set against the table
static void ask(mc::Ctx& c, const TimeSeriesSet& S, const Tab& t, int i, int s, int e) {
  c.op(); c.checked(); bool ok = valid(t, i, s, e, true);
  try {
    TimeSeries x = S.getTimeSeries(i, s, e); const TimeSeries& y = x; if (!ok) c.fail("%dx%d: series %d, %d..%d was accepted", t.r, t.c, i, s, e); if (s < 0) { s = 0; e = t.c; }
    if (y.getIndex() != i || y.getStart() != s || y.getEnd() != e || y.getLength() != e - s) c.fail("%dx%d: series %d, %d..%d has coordinates %d, %d..%d, length %d", t.r, t.c, i, s, e, y.getIndex(), y.getStart(), y.getEnd(), y.getLength());
    for (int k = 0; k < e - s; k++) if (y[k] != t.at(i, s + k)) c.fail("%dx%d: series %d, %d..%d shows %g at %d, the table holds %g", t.r, t.c, i, s, e, (double)y[k], k, t.at(i, s + k));
    for (int k : {-1, e - s, e - s + 1, INT_MIN, INT_MAX}) if (!refused([&] { volatile data_t q = y[k]; (void)q; })) c.fail("value %d of a sequence of %d was accepted", k, e - s);
  } catch (const OnexException& x) { if (ok) c.fail("%dx%d: series %d, %d..%d was refused (%s)", t.r, t.c, i, s, e, x.what()); }
  mc::Hash h; h.u(t.r); h.u(t.c); h.u(i); h.u(s); h.u(e); c.observe(h);
}
static void askAll(mc::Ctx& c, const TimeSeriesSet& S, const Tab& t, const std::vector<int>& I) { for (int i : I) for (int s : around(t.c)) for (int e : around(t.c)) ask(c, S, t, i, s, e); for (int i : I) { bool r = refused([&] { TimeSeries x = S.getTimeSeries(i); if (x.getLength() != t.c) c.fail("whole series has length %d", x.getLength()); }); if (r != !(i >= 0 && i < t.r)) c.fail("whole series %d of %d %s", i, t.r, r ? "refused" : "accepted"); } }
int init = [] {
  K.property = "C26"; K.before = u::reset;
  K.rule = "every series number, start and end (or length) from three below zero to three beyond the bounds and the extreme integers, on every shape in the bounds and in every condition of the set: accepted exactly when addressable, and then showing exactly the table's values and coordinates";
  K.add("every request on every shape", 3, [](mc::Ctx& c) {
    int R = c.thorough ? 7 : 5, C = c.thorough ? 12 : 8; int r = c.range(1, R), n = c.range(1, C); Tab t = filled(r, n); static thread_local std::map<std::pair<int, int>, int> seen; std::vector<int> I = around(r); int i = c.choose((int)I.size()); c.note("%dx%d series %d", r, n, I[i]); TimeSeriesSet S; load(c, S, t); askAll(c, S, t, {I[i]});
  });
  K.add("every request in every condition of the set: not loaded, reloaded, averaged, normalised, cleared", 2, [](mc::Ctx& c) {
    int depth = c.thorough ? 4 : 3; GroupableTimeSeriesSet S; Tab t(0, 0); std::vector<int> h;
    for (int d = 0; d < depth; d++) { int k = c.choose(7); h.push_back(k); }
    static const std::vector<std::pair<int, int>> SH{{3, 6}, {1, 4}, {6, 2}};
    for (int k : h) { c.op();
      if (k < 3) { t = filled(SH[k].first, SH[k].second); load(c, S, t); c.note("load %dx%d", t.r, t.c); }
      else if (k == 3) { c.note("average by 2"); bool r = refused([&] { S.PAA(2); }); if (!r && t.v.size()) t = ref::paa(t, 2); }
      else if (k == 4) { c.note("normalise"); double a, b; bool r = refused([&] { S.normalize(); }); if (!r) { t = ref::normalize(t, a, b); for (int i = 0; i < t.r; i++) for (int j = 0; j < t.c; j++) { const TimeSeries x = S.getTimeSeries(i); if (!ref::close(x[j], t.at(i, j))) c.fail("normalised values"); t.at(i, j) = x[j]; } } }
      else if (k == 5) { c.note("clear"); S.clearData(); t = Tab(0, 0); }
      else { c.note("group"); refused([&] { S.groupAllLengths("euclidean", 1); }); }
    }
    if (t.r) for (int i = 0; i < t.r; i++) for (int j = 0; j < t.c; j++) { const TimeSeries x = S.getTimeSeries(i); if (!ref::close(x[j], t.at(i, j))) c.fail("values"); t.at(i, j) = x[j]; }
    askAll(c, S, t, around(t.r)); TimeSeries o(2); for (int i : {-1, 0, 1}) for (int s : {-1, 0, 1}) for (int l : {-1, 0, 2}) { bool ok = valid(t, i, s, s + l, false); if (refused([&] { S.distanceBetween(i, s, l, o, "euclidean"); }) == ok) c.fail("distance to series %d, from %d, length %d, of %dx%d", i, s, l, t.r, t.c); }
  });
  K.add("distances to a position and length, every combination and distance name", 3, [](mc::Ctx& c) {
    int r = c.range(1, c.thorough ? 5 : 3), n = c.range(1, c.thorough ? 9 : 6); int k = c.choose(2); double ratio = c.pick(RATIO); setWarpingBandRatio(ratio); Tab t = filled(r, n); TimeSeriesSet S; load(c, S, t); c.note("%dx%d ratio %g", r, n, ratio); static const char* N[] = {"euclidean", "euclidean_dtw"};
    for (int i : around(r)) for (int s : around(n)) for (int l : around(n)) for (int q : {1, 2, n}) {
      if (l > 0 && s >= 0 && i >= 0 && k == 0 && l != q && l <= n && i < r && s + (long long)l <= n) { Seq v(q, 1.5); TimeSeries o = view(v); c.op(); if (!refused([&] { S.distanceBetween(i, s, l, o, N[0]); })) c.fail("Euclidean distance of lengths %d and %d was answered", l, q); continue; }
      Seq v(q); for (int z = 0; z < q; z++) v[z] = z * 2.5 + 1; TimeSeries o = view(v); bool ok = i >= 0 && i < r && s >= 0 && l >= 1 && (long long)s + l <= n; double d = -1; c.op(); c.checked(); bool no = refused([&] { d = S.distanceBetween(i, s, l, o, N[k]); }); if (no == ok) c.fail("%dx%d: distance to series %d from %d, length %d, was %s", r, n, i, s, l, no ? "refused" : "answered"); if (ok) { Seq w = t.sub(i, s, s + l); double x = k ? ref::dtw(w, v, ratio) : ref::ed(w, v); if (!ref::close(d, x)) c.fail("%dx%d: distance to series %d from %d, length %d: %.12g, should be %.12g", r, n, i, s, l, d, x); }
      mc::Hash h; h.u(i); h.u(s); h.u(l); h.u(q * 100 + r * 10 + n); h.u(k); c.observe(h);
    }
  });
  K.add("distance names", 1, [](mc::Ctx& c) {
    static const std::vector<std::string> N{"", " ", "euclidean", "euclidean_dtw", "Euclidean", "EUCLIDEAN", "euclidean ", "euclideann", "euclidean2", "euclidean-dtw", "xeuclidean", "xeuclidean_dtw", " euclidean", "euclidea", "euclidean_", "euclidean_dt", "euclidean_dtw ", "euclidean_dtww", "dtw", "manhattan", "none", "0", std::string("euclidean\0x", 11), std::string("euclidean\0", 10), "chebyshev", "euclidean_dtw2", "warped", "pairwise", "cascade", "kim", "keogh"};
    const std::string& s = c.pick(N); c.note("name '%s'", s.c_str()); bool ok = s == "euclidean" || s == "euclidean_dtw"; Tab t = filled(2, 3); GroupableTimeSeriesSet S; load(c, S, t); Seq v{1, 2}; TimeSeries o = view(v); c.op(3); c.checked(3);
    if (refused([&] { S.distanceBetween(0, 0, 2, o, s); }) == ok) c.fail("distanceBetween with distance '%s' was %s", s.c_str(), ok ? "refused" : "answered"); if (refused([&] { getDistance(s); }) == ok) c.fail("getDistance '%s'", s.c_str()); if (refused([&] { S.groupAllLengths(s, 1); }) == ok) c.fail("grouping with distance '%s' was %s", s.c_str(), ok ? "refused" : "accepted"); if (S.isGrouped() != ok) c.fail("grouped flag"); c.observe(hashOf(s));
  });
  K.add("query addressing in a session: every dataset number, series, start and end", 2, [](mc::Ctx& c) {
    static const std::vector<int> X{-1, 0, 1, 2, 3, INT_MIN, INT_MAX}; int x = c.pick(X), y = c.pick(X); OnexAPI a; Tab t = filled(2, 5), u = filled(3, 4); a.loadDataset(tabFile(c, t), 0, 0, " "); a.loadDataset(tabFile(c, u), 0, 0, " "); a.loadDataset(tabFile(c, t), 0, 0, " "); a.groupDataset(0, 1); a.groupDataset(1, 0); a.groupDataset(2, 1); bool un = c.flip(); if (un) a.unloadDataset(2); setWarpingBandRatio(1); c.note("match in %d, query of %d%s", x, y, un ? ", 2 unloaded" : "");
    for (int i : around(3)) for (int s : around(5)) for (int e : around(5)) { c.op(); c.checked(); auto live = [&](int k) { return k >= 0 && k < (un ? 2 : 3); }; bool ok = live(x) && live(y); if (ok) { const Tab& q = y == 1 ? u : t; ok = valid(q, i, s, e, true); if (ok && s >= 0 && e - s == 1) { refused([&] { a.getBestMatch(x, y, i, s, e); }); continue; } }
      double d = -1; bool no = refused([&] { d = a.getBestMatch(x, y, i, s, e).dist; }); if (no == ok) c.fail("match in %d, query of %d, series %d, %d..%d was %s", x, y, i, s, e, no ? "refused" : "answered");
      mc::Hash h; h.u(x); h.u(y); h.u(i); h.u(s); h.u(e); c.observe(h);
      if (ok && x == 1) { const Tab& q = y == 1 ? u : t; Seq v = s < 0 ? q.row(i) : q.sub(i, s, e); double b = ref::Inf; for (int L = 2; L <= u.c; L++) if (ref::admissible((int)v.size(), L, 1)) for (int k = 0; k < u.r; k++) for (int p = 0; p + L <= u.c; p++) b = std::min(b, ref::dtw(v, u.sub(k, p, p + L), 1)); if (!ref::close(b, d)) c.fail("query of series %d, %d..%d is answered at %.12g, the nearest is at %.12g: the query used is another one", i, s, e, d, b); } }
  });
  K.add("sizes of the ladder: requests around every place of the ladder", 2, [](mc::Ctx& c) {
    bool tall = c.flip(); int k = c.pick(ladder(c.thorough ? 70000 : 5100)); int r = tall ? k : c.range(1, 2), n = tall ? c.range(1, 2) : k; Tab t = filled(r, n); std::string p = c.file("in"); put(p, ref::text(t)); TimeSeriesSet S; S.loadData(p, 0, 0, " "); c.note("%dx%d", r, n); if (S.getItemCount() != r || S.getItemLength() != n) c.fail("%dx%d", S.getItemCount(), S.getItemLength());
    std::vector<int> I{-1, 0, 1, r / 2, r - 2, r - 1, r, r + 1, r + 256, r + 65536, INT_MAX, INT_MIN}, P{-1, 0, 1, n / 3, n - 2, n - 1, n, n + 1, n + 256, 65536 + n, 127, 128, 255, 256, 32767, 32768, INT_MAX, INT_MIN}; for (int i : I) for (int s : P) for (int e : P) ask(c, S, t, i, s, e);
    Seq v{1, 2}; TimeSeries o = view(v); if (n >= 2) for (int s : {0, n / 2, n - 2}) for (int i : {0, r - 1}) if (s + 2 <= n) { double d = S.distanceBetween(i, s, 2, o, "euclidean"); if (!ref::close(d, ref::ed(t.sub(i, s, s + 2), v))) c.fail("distance to series %d from %d", i, s); } if (!refused([&] { S.distanceBetween(0, n - 1, 2, o, "euclidean"); }) || !refused([&] { S.distanceBetween(r, 0, 2, o, "euclidean"); })) c.fail("distance beyond the table");
  });
  return 0;
}();
MC_MAIN(K)

// C22 Queries are read-only and repeatable.
#include "session.hpp"
#include <array>
using namespace u;
static mc::Check K;
static const std::vector<double> R{0.1, 0.5, 0, 1, 0.3};
static const std::vector<Tab>& data() { static std::vector<Tab> T; if (T.empty()) { for (auto rc : std::vector<std::pair<int, int>>{{2, 8}, {3, 5}, {1, 10}}) { Tab t(rc.first, rc.second); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (double)((i * i * 3 + i * 5 + rc.first) % 17) / 2; T.push_back(t); } } return T; }
static void build(mc::Ctx& c, OnexAPI& a, int variant) { for (auto& t : data()) a.loadDataset(tabFile(c, t), 0, 0, " "); if (variant == 1) a.normalizeDataset(1); a.groupDataset(0, variant == 1 ? 0 : 2); a.groupDataset(1, variant == 1 ? 0.2 : 3); if (variant == 2) { std::string p = c.file("b"); a.saveGroup(1, p, false); a.loadGroup(1, p); } }
// queries of a session
static const int Q = 16;
static std::string ask(mc::Ctx& c, OnexAPI& a, int k) {
  c.op(); std::string p = c.file("q");
  auto m = [&](int x, int y, int i, int s = -1, int e = -1) { return matchText([&] { return a.getBestMatch(x, y, i, s, e); }); };
  switch (k) {
  case 0: return m(0, 0, 0); case 1: return m(0, 1, 2); case 2: return m(1, 0, 1, 2, 6); case 3: return m(1, 1, 0, 0, 3); case 4: return m(0, 2, 0); case 5: return m(0, 2, 0, 3, 5); case 6: return m(1, 2, 0, 0, 7); case 7: return m(0, 1, 0, 1, 5);
  case 8: return m(2, 0, 0); case 9: return m(0, 0, 9); case 10: return m(1, 1, 0, 2, 3); case 11: { std::string o; for (auto& i : a.getAllDatasetInfo()) o += fmt("%d %s %dx%d %d%d;", i.id, i.name.c_str(), i.itemCount, i.itemLength, i.isGrouped, i.isNormalized); return o + fmt("%d", a.getDatasetCount()); }
  case 12: a.saveDataset(0, p, ','); return get(p); case 13: a.saveGroup(1, p, false); return get(p); case 14: a.saveGroup(0, p, true); return get(p); default: return m(7, 0, 0) + m(0, 1, 1, 0, 2); }
}
// a set with sequence objects that live on, so that what they remember could go stale
struct Objects { GroupableTimeSeriesSet s; Seq v[4]; std::vector<TimeSeries> q; void build(mc::Ctx& c, bool warped) { Tab t = data()[0]; load(c, s, t); setWarpingBandRatio(0.3); s.groupAllLengths(warped ? "euclidean_dtw" : "euclidean", 2); v[0] = {1, 7, 2, 4, 0}; v[1] = {3, 3, 8}; v[2] = {0, 1, 2, 3, 4, 5, 6, 7}; v[3] = {5, 0, 5, 0, 5, 1, 5}; for (int i = 0; i < 4; i++) q.push_back(view(v[i])); q.push_back(s.getTimeSeries(1)); q.push_back(s.getTimeSeries(0, 2, 7)); } };
static const int D = 22;
static std::string ask(mc::Ctx& c, Objects& o, int k) {
  c.op(); auto num = [](const std::function<double()>& f) { try { return fmt("%.17g", f()); } catch (const OnexException&) { return std::string("refused"); } };
  if (k < 6) return matchText([&] { return o.s.getBestMatch(o.q[k]); });
  switch (k) {
  case 6: return num([&] { return warpedDistance(o.q[0], o.q[5], INF); }); case 7: return num([&] { return cascadeDistance(o.q[0], o.q[5], INF); }); case 8: return num([&] { return cascadeDistance(o.q[2], o.q[4], INF); }); case 9: return num([&] { return cascadeDistance(o.q[4], o.q[2], INF); }); case 10: return num([&] { return warpedDistance(o.q[3], o.q[2], 0.2); });
  case 11: return num([&] { return keoghLowerBound(o.q[2], o.q[4], INF); }); case 12: return num([&] { return crossKeoghLowerBound(o.q[4], o.q[2], INF); }); case 13: return num([&] { return pairwiseDistance(o.q[2], o.q[4], INF); }); case 14: return num([&] { return pairwiseDistance(o.q[0], o.q[1], INF); });
  case 15: return num([&] { return o.s.distanceBetween(1, 0, 8, o.q[2], "euclidean_dtw"); }); case 16: return num([&] { return o.s.distanceBetween(0, 1, 3, o.q[1], "euclidean"); }); case 17: return num([&] { return o.s.distanceBetween(0, 6, 3, o.q[1], "euclidean"); }); case 18: return num([&] { return cascadeDistance(o.q[0], o.q[0], INF); }); case 19: return ref::str(values(o.s.getTimeSeries(1, 2, 5))); case 20: return num([&] { return cascadeDistance(o.q[1], o.q[5], 0.05); }); default: return num([&] { return warpedDistance(o.q[1], o.q[1], INF); }); }
}
int init = [] {
  K.property = "C22"; K.before = u::reset;
  K.rule = "every sequence of queries and band ratio changes of the depth; every answer has to equal that of a freshly built session (or fresh objects) under the current ratio, and everything the session shows stays the same";
  K.assumptions = {"finite values"};
  K.add("sequences of queries and ratio changes on a session", 3, [](mc::Ctx& c) {
    static std::map<std::array<int, 3>, std::string> fresh; static std::map<std::array<int, 2>, std::string> shown; int variant = c.choose(3); int depth = c.thorough ? 4 : 3; std::vector<int> h; for (int i = 0; i < depth; i++) { h.push_back(c.choose(Q + (int)R.size())); if (h[i] < Q) c.note("query %d", h[i]); else c.note("band ratio %g", R[h[i] - Q]); }
    int r = 0; OnexAPI a; setWarpingBandRatio(R[0]); build(c, a, variant);
    for (int k : h) {
      if (k >= Q) { r = k - Q; a.setWarpingBandRatio(R[r]); c.op(); continue; }
      std::string got = ask(c, a, k); std::array<int, 3> key{{variant, r, k}}; if (!fresh.count(key)) { OnexAPI b; build(c, b, variant); fresh[key] = ask(c, b, k); } c.checked(); if (got != fresh[key]) c.fail("query %d answers %s, a fresh session answers %s", k, got.substr(0, 300).c_str(), fresh[key].substr(0, 300).c_str()); mc::Hash H; H.s(got); c.observe(H);
    }
    std::array<int, 2> key{{variant, r}}; if (!shown.count(key)) { OnexAPI b; build(c, b, variant); shown[key] = snapshot(c, b); } std::string now = snapshot(c, a); c.checked(); if (now != shown[key]) c.fail("the queries changed the session:\n%s", diff(shown[key], now).c_str());
  });
  K.add("sequences of queries on objects that live on, under changing ratios", 3, [](mc::Ctx& c) {
    static std::map<std::array<int, 3>, std::string> fresh; int warped = c.choose(2); int depth = c.thorough ? 4 : 3; std::vector<int> h; for (int i = 0; i < depth; i++) { h.push_back(c.choose(D + (int)R.size())); if (h[i] < D) c.note("query %d", h[i]); else c.note("band ratio %g", R[h[i] - D]); }
    Objects o; o.build(c, warped); int r = 0; setWarpingBandRatio(R[0]); bool any = false;
    for (int k : h) {
      if (k >= D) { r = k - D; setWarpingBandRatio(R[r]); continue; }
      any = true; std::string got = ask(c, o, k); std::array<int, 3> key{{warped, r, k}}; if (!fresh.count(key)) { Objects n; n.build(c, warped); setWarpingBandRatio(R[r]); fresh[key] = ask(c, n, k); } c.checked(); if (got != fresh[key]) c.fail("query %d answers %s, fresh objects give %s", k, got.c_str(), fresh[key].c_str()); mc::Hash H; H.s(got); c.observe(H);
    }
    if (any) { Tab t = data()[0]; if (!(values(o.s) == t)) c.fail("queries changed the dataset"); static const Seq want[4] = {{1, 7, 2, 4, 0}, {3, 3, 8}, {0, 1, 2, 3, 4, 5, 6, 7}, {5, 0, 5, 0, 5, 1, 5}}; for (int i = 0; i < 4; i++) if (o.v[i] != want[i]) c.fail("a query changed the query sequence"); }
  });
  K.add("every sequence of distance calls over lengths 1..7 against the reference: no call depends on an earlier one", 3, [](mc::Ctx& c) {
    static const std::vector<Seq> S{{2}, {0, 4}, {3, 1, 2}, {1, 5, 0, 2}, {4, 4, 1, 0, 2}, {0, 1, 2, 3, 9, 5, 6}}; static std::vector<Seq> buf; buf = S; int n = (int)S.size(), depth = c.thorough ? 4 : 3; double ratio = c.pick(std::vector<double>{0.3, 0, 1}); setWarpingBandRatio(ratio); c.note("band ratio %g", ratio);
    Tab t(2, 7); for (int j = 0; j < 14; j++) t.v[j] = j * 5 % 7; GroupableTimeSeriesSet s; load(c, s, t); mc::Hash h;
    for (int k = 0; k < depth; k++) {
      int i = c.choose(n), j = c.choose(n), how = c.choose(k + 1 == depth ? 3 : 2); TimeSeries A = view(buf[i]), B = view(buf[j]); c.op(); c.checked(); double got, want;
      if (how == 0) { got = warpedDistance(A, B, INF); want = ref::dtw(S[i], S[j], ratio); } else if (how == 1) { int l = (int)S[i].size(); got = s.distanceBetween(1, 7 - l, l, B, "euclidean_dtw"); want = ref::dtw(t.sub(1, 7 - l, 7), S[j], ratio); } else { got = cascadeDistance(A, B, INF); want = ref::dtw(S[i], S[j], ratio); }
      if (!ref::close(got, want)) c.fail("call %d (kind %d) of lengths %zu and %zu after others gives %.12g, the distance is %.12g", k, how, S[i].size(), S[j].size(), got, want); h.d(got);
    }
    c.observe(h);
  });
  K.add("the answers themselves, under every ratio and in every order of two", 2, [](mc::Ctx& c) {
    int i = c.choose(3), j = c.choose(3), a = c.choose((int)R.size()), b = c.choose((int)R.size()); Tab t = data()[i]; GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", 1.5); ref::GroupFile g = groupsOf(c, s); c.note("dataset %d, queries of %d, ratios %g %g", i, j, R[a], R[b]); const Tab& u = data()[j];
    for (double ratio : {R[a], R[b], R[a]}) { setWarpingBandRatio(ratio); for (int k = 0; k < u.r; k++) for (int n = 2; n <= u.c; n += 2) { Seq q = u.sub(k, 0, n); q[0] += 0.3; TimeSeries Qy = view(q); matchAndCheck(c, g.groups, t, q, ratio, [&] { return s.getBestMatch(Qy); }); } } ref::GroupFile g2 = groupsOf(c, s); if (ref::canon(g.groups) != ref::canon(g2.groups)) c.fail("queries changed the groups");
  });
  K.add("sizes of the ladder: answers of long-lived sets and sequences do not change by being asked", 2, [](mc::Ctx& c) {
    bool tall = c.flip(); int k = c.pick(ladder(c.thorough ? (tall ? 520 : 72) : tall ? 300 : 40, 3)); int r = tall ? k : 2, n = tall ? 4 : k; Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (double)(i * i % 53) * 0.25; GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", 2); ref::GroupFile g = groupsOf(c, s); c.note("%dx%d", r, n); std::vector<Seq> q{t.row(0), t.row(r - 1), t.sub(r / 2, 0, n / 2 + 1), t.sub(0, n / 3, n)}; for (auto& x : q) x[0] += 0.2; std::vector<TimeSeries> Q; for (auto& x : q) Q.push_back(view(x)); std::map<std::pair<int, int>, std::string> first; static const double RA[] = {0.1, 0.3, 0.1, 0.05, 0.3};
    for (int pass = 0; pass < 5; pass++) { setWarpingBandRatio(RA[pass]); for (int i = 0; i < 4; i++) { int j = pass % 2 ? 3 - i : i; c.op(); c.checked(); std::string a = matchText([&] { return s.getBestMatch(Q[j]); }); for (int z = 0; z < 4; z++) { double d = cascadeDistance(Q[j], Q[z], INF), w = ref::dtw(q[j], q[z], RA[pass]); if (!ref::close(d, w)) c.fail("distance %.12g, should be %.12g, in pass %d", d, w, pass); } std::pair<int, int> key{(int)(RA[pass] * 100), j}; if (!first.count(key)) first[key] = a; else if (first[key] != a) c.fail("query %d answers %s, earlier %s", j, a.c_str(), first[key].c_str()); matchAndCheck(c, g.groups, t, q[j], RA[pass], [&] { return s.getBestMatch(Q[j]); }); } }
    ref::GroupFile g2 = groupsOf(c, s); if (ref::canon(g.groups) != ref::canon(g2.groups) || !(values(s) == t)) c.fail("queries changed the set");
  });
  K.add("exact and near queries for every pair of members of larger groups, asked again", 2, [](mc::Ctx& c) {
    int r = c.range(2, 8), n = c.range(2, c.thorough ? 5 : 4), i = c.choose(r), j = c.choose(r), kind = c.choose(3); double st = c.pick(std::vector<double>{3, 6, 100}); Tab t(r, n); for (int a = 0; a < r; a++) for (int b = 0; b < n; b++) t.at(a, b) = kind == 0 ? a : kind == 1 ? (a * 3 + b) % 5 : a * 0.5 + b; bool file = c.flip(); OnexAPI a; a.loadDataset(tabFile(c, t), 0, 0, " "); a.groupDataset(0, st); std::string p = c.file("g"); a.saveGroup(0, p, false); if (file) a.loadGroup(0, p); std::string before = get(p); ref::GroupFile g = groupsOf(c, a, 0); c.note("%dx%d kind %d threshold %g, series %d and %d", r, n, kind, st, i, j);
    std::vector<std::string> first; for (int pass = 0; pass < 3; pass++) { size_t at = 0; auto q = [&](int k, int s, int e) { matchAndCheck(c, g.groups, t, t.sub(k, s, e), 0.1, [&] { return a.getBestMatch(0, 0, k, s, e); }); std::string x = matchText([&] { return a.getBestMatch(0, 0, k, s, e); }); if (pass == 0) first.push_back(x); else if (first[at] != x) c.fail("query series %d %d..%d answers %s, before %s", k, s, e, x.c_str(), first[at].c_str()); at++; }; q(0, 0, n); q(i, 0, n); q(j, 0, n); q(i, 0, n); q(j, n - 2, n); q(i, n - 2, n); q(r - 1, 0, n); q(0, 0, n); }
    a.saveGroup(0, p, false); ref::GroupFile g2 = groupsOf(c, a, 0); if (get(p) != before && !file) c.fail("asking changed the groups:\n%s", diff(before, get(p)).c_str()); if (ref::canon(g.groups) != ref::canon(g2.groups)) c.fail("asking changed the groups"); c.checked();
  });
  return 0;
}();
MC_MAIN(K)

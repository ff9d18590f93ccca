// C25 The single-precision build gives the same guarantees.
// MC: {"single": true}
#include "session.hpp"
#include "lib/trillionDTW.h"
using namespace u;
using ref::Tab; using ref::Seq;
static mc::Check K;
static_assert(sizeof(data_t) == 4, "single precision");
static const double T = 2e-5;
static bool close5(double a, double b) { return ref::close(a, b, T); }
static Tab f32(Tab t) { for (double& x : t.v) x = (float)x; return t; }
static void approx(mc::Ctx& c, const Tab& got, const Tab& want, const char* what) { c.checked(); if (got.r != want.r || got.c != want.c) c.fail("%s: %dx%d, expected %dx%d", what, got.r, got.c, want.r, want.c); for (size_t i = 0; i < got.v.size(); i++) if (!close5(got.v[i], want.v[i])) c.fail("%s: value %zu is %.9g, expected %.9g", what, i, got.v[i], want.v[i]); }
// is any decision of the grouping so close that rounding may turn it?
static bool decided(const Tab& t, double st, bool warped, double ratio) {
  for (int len = 2; len <= t.c; len++) { std::vector<Seq> v; for (int i = 0; i < t.r; i++) for (int s = 0; s + len <= t.c; s++) v.push_back(t.sub(i, s, s + len)); for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) { double d = warped ? ref::dtw(v[i], v[j], ratio) : ref::ed(v[i], v[j]); if (d != st / 2 && std::fabs(d - st / 2) < 1e-4) return false; } } return true;
}
static ref::Groups floats(ref::Groups g) { for (auto& k : g) for (auto& x : k.second) for (double& v : x.rep) v = (float)v; return g; }
// statement of the groups for any data: members within the threshold of a representative that is a member
static void sound(mc::Ctx& c, const Tab& t, double st, bool warped, double ratio, const ref::Groups& g) {
  for (auto& k : g) for (auto& G : k.second) { bool rep = false; for (auto& m : G.members) { Seq v = t.sub(m.first, m.second, m.second + k.first); rep |= v == G.rep; double d = warped ? ref::dtw(v, G.rep, ratio) : ref::ed(v, G.rep); if (d > st / 2 + 1e-4 && !(v == G.rep)) c.fail("member at %.9g from its representative, threshold %g", d, st); } if (!rep) c.fail("representative %s of length %d is no member", ref::str(G.rep).c_str(), k.first); } c.checked();
}
// everything a user does with one dataset
static void tour(mc::Ctx& c, OnexAPI& a, int i, Tab t, double st, double ratio, bool exact) {
  std::string p = c.file("d"), q = c.file("g"), r = c.file("h"); Tab now(t.r, t.c); GroupableTimeSeriesSet s; load(c, s, t); c.op(); now = values(s); if (!(now == t)) c.fail("loaded %s, the file has %s", ref::str(now).c_str(), ref::str(t).c_str());
  a.saveDataset(i, p, ' '); { TimeSeriesSet b; b.loadData(p, 0, 0, " "); if (!(values(b) == t)) c.fail("saved and loaded: %s, was %s", ref::str(values(b)).c_str(), ref::str(t).c_str()); } c.op(2);
  for (int w = 0; w < 2; w++) {
    int n = s.groupAllLengths(w ? "euclidean_dtw" : "euclidean", st); s.saveGroups(q, false); ref::GroupFile g = parseOrFail(c, get(q), t.r, t.c); ref::Groups G = floats(g.groups); if (ref::total(G) != n) c.fail("number of groups"); if ((float)g.st != (float)st) c.fail("threshold %.9g saved as %.9g", st, g.st); sound(c, t, st, w, ratio, G); c.op(2);
    if (exact && decided(t, st, w, ratio)) { ref::Groups want = ref::group(t, st, w, ratio); if (ref::canon(G) != ref::canon(want)) c.fail("threshold %g, %s: groups\n  %s\nin double precision\n  %s\ntable %s", st, w ? "warped" : "euclidean", ref::canon(G).substr(0, 800).c_str(), ref::canon(want).substr(0, 800).c_str(), ref::str(t).c_str()); }
    std::vector<Seq> Q; for (int k = 0; k < t.r; k++) { Q.push_back(t.row(k)); if (t.c > 2) Q.push_back(t.sub(k, 1, t.c)); } Q.push_back(Seq(3, 0.625)); Q.push_back(Seq{0, 4}); Q.push_back(Seq(t.c + 1, 1.125));
    GroupableTimeSeriesSet o; load(c, o, t); int m = o.loadGroups(q); if (m != n) c.fail("%d groups loaded, %d saved", m, n); o.saveGroups(r, false); ref::GroupFile g2 = parseOrFail(c, get(r), t.r, t.c); if (ref::canon(g2.groups) != ref::canon(g.groups) || g2.st != g.st) c.fail("groups changed by saving and loading"); c.op(2);
    for (auto& x : Q) { if (x.size() < 2) continue; TimeSeries X = view(x); matchAndCheck(c, G, t, x, ratio, [&] { return s.getBestMatch(X); }); matchAndCheck(c, G, t, x, ratio, [&] { return o.getBestMatch(X); }); }
    c.observe(hashOf(ref::canon(G)));
  }
}
int init = [] {
  K.property = "C25"; K.before = [](mc::Ctx& c) { u::reset(c); ref::tolerance() = T; };
  K.rule = "the library built with SINGLE_PRECISION is driven through every listed dataset, threshold and history and compared with the double-precision reference model; groups of exactly representable values must be identical unless a decision is closer than 1e-4 to its threshold";
  K.assumptions = {"finite values of moderate magnitude", "values up to a relative 2e-5"};
  K.add("all tables up to 6 cells over {0,1,3}: load, save, group, reload, match", 4, [](mc::Ctx& c) {
    int cells = c.thorough ? 7 : 6; int r = c.range(1, cells), n = c.range(1, cells / r); Tab t = chooseTab(c, r, n, {0, 1, 3}); double ratio = 0.34, st = c.pick(std::vector<double>{0, 0.7, 2, 1e9}); setWarpingBandRatio(ratio); c.note("table %s threshold %g", ref::str(t).c_str(), st); OnexAPI a; a.loadDataset(tabFile(c, t), 0, 0, " "); tour(c, a, 0, t, st, ratio, true);
  });
  K.add("values single precision cannot hold, negative and large ones", 3, [](mc::Ctx& c) {
    static const std::vector<double> V{0.1, -1.0 / 3, 100000.1, 0.5, -7, 3e-5}; int r = c.range(1, 2), n = c.range(1, r == 1 ? 4 : 2); Tab t = chooseTab(c, r, n, V); c.note("table %s", ref::str(t).c_str()); GroupableTimeSeriesSet s; load(c, s, t); approx(c, values(s), t, "loaded"); Tab e = f32(t); if (!(values(s) == e)) c.fail("loaded values are not the nearest of single precision: %s", ref::str(values(s)).c_str()); OnexAPI a; a.loadDataset(tabFile(c, t), 0, 0, " "); tour(c, a, 0, e, 0.5, 0.1, false);
  });
  K.add("normalise and average every shape", 2, [](mc::Ctx& c) {
    int r = c.range(1, c.thorough ? 9 : 6), n = c.range(1, c.thorough ? 13 : 9); Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (double)((int)(i * 29 + 5) % 31 - 11) / 4; int at = c.choose(r * n), lo = c.choose(3); t.v[at] = 50; t.v[(at + 1 + lo * 7) % (r * n)] -= 40; c.note("%dx%d extreme at %d", r, n, at);
    for (int order = 0; order < 2; order++) for (int k : {1, 2, 3, n, n + 2}) { OnexAPI a; a.loadDataset(tabFile(c, t), 0, 0, " "); TimeSeriesSet s; load(c, s, t); Tab m = t; c.op(2); for (int z = 0; z < 2; z++) if ((z == 0) == (order == 0)) { double x, y; m = ref::normalize(m, x, y); auto p = s.normalize(); if (!close5(p.first, x) || !close5(p.second, y)) c.fail("extremes %.9g %.9g, should be %.9g %.9g", (double)p.first, (double)p.second, x, y); a.normalizeDataset(0); } else { m = ref::paa(m, k); s.PAA(k); a.PAA(0, k); } approx(c, values(s), m, "normalised and averaged"); std::string f = c.file("o"); a.saveDataset(0, f, ' '); TimeSeriesSet b; b.loadData(f, 0, 0, " "); if (!(values(b) == values(s))) c.fail("session and set differ"); for (double v : values(s).v) if (order == 1 && (v < 0 || v > 1)) c.fail("normalised value %.9g", v); dataset_info_t d = a.getDatasetInfo(0); if (d.itemLength != m.c || d.itemCount != m.r || !d.isNormalized) c.fail("information"); c.observe(hashOf(values(s))); }
  });
  K.add("distances, bounds and cutoffs: all pairs of lengths 1..4 over {0,1,3}", 6, [](mc::Ctx& c) {
    int L = c.thorough ? 5 : 4, m = c.range(1, L), n = c.range(1, L); Seq a = chooseSeq(c, m, {0, 1, 3}), b = chooseSeq(c, n, {0, 1, 3}); TimeSeries A = view(a), B = view(b); c.note("%s %s", ref::str(a).c_str(), ref::str(b).c_str());
    for (double r : {0.0, 0.34, 0.5, 1.0}) { setWarpingBandRatio(r); double d = ref::dtw(a, b, r); std::vector<double> cut{ref::Inf, 0.05, 1e6}; if (!std::isinf(d)) for (double f : {0.5, 0.999, 1.001, 2.0}) cut.push_back(d * f);
      for (double x : cut) { double v[] = {warpedDistance(A, B, x), cascadeDistance(A, B, x), cascadeDistance(B, A, x)}; c.op(3); c.checked(); for (double g : v) if (!(close5(g, d) || (std::isinf(g) && d >= x * (1 - 1e-5)))) c.fail("warped distance of %s and %s, ratio %g, cutoff %g: %.9g, should be %.9g", ref::str(a).c_str(), ref::str(b).c_str(), r, x, g, d); if (m == n) { double e = ref::ed(a, b), g = pairwiseDistance(A, B, x); if (!(close5(g, e) || (std::isinf(g) && e >= x * (1 - 1e-5)))) c.fail("distance of %s and %s, cutoff %g: %.9g, should be %.9g", ref::str(a).c_str(), ref::str(b).c_str(), x, g, e); } }
      if (!std::isinf(d)) { double k = keoghLowerBound(A, B, INF), x = crossKeoghLowerBound(A, B, INF); c.op(2); if (k > d * (1 + 1e-5) + 1e-6 || x > d * (1 + 1e-5) + 1e-6) c.fail("lower bounds %.9g %.9g above the distance %.9g of %s and %s", k, x, d, ref::str(a).c_str(), ref::str(b).c_str()); }
      mc::Hash h; h.d(d); h.u(m); h.u(n); c.observe(h); }
  });
  K.add("sequence objects: copies, assignments, accumulation, envelopes", 3, [](mc::Ctx& c) {
    data_t arr[6] = {1, 5, 2, 8, 0, 3}; std::vector<Seq> m{{1, 5, 2, 8}, {0, 0, 0}, {2, 8, 0, 3}}; TimeSeries t[3] = {TimeSeries(4), TimeSeries(3), TimeSeries(arr, 0, 2, 6)}; for (int i = 0; i < 4; i++) t[0][i] = arr[i]; bool view2 = true;
    for (int k = 0; k < (c.thorough ? 4 : 3); k++) { int o = c.choose(5), i = c.choose(3), j = c.choose(3); c.op(); if (o == 0) { if (i != j && (i == 2 || j == 2) && view2) { if (j == 2) continue; view2 = false; } TimeSeries& r = t[j]; t[i] = r; m[i] = m[j]; } else if (o == 1) { if (view2 && (i == 2 && false)) continue; bool r = refused([&] { t[i] += t[j]; }); if (r == (m[i].size() == m[j].size())) c.fail("accumulate"); if (!r) { Seq b = m[j]; for (size_t z = 0; z < b.size(); z++) m[i][z] += b[z]; } } else if (o == 2) { t[i][1] = j + 0.5; m[i][1] = j + 0.5; } else if (o == 3) { t[i] = TimeSeries(j + 1); m[i] = Seq(j + 1, 0); if (m[i].size() < 2) { t[i] = TimeSeries(2); m[i] = Seq(2, 0); } if (i == 2) view2 = false; } else { Seq lo = ref::envelope(m[i], j, false), up = ref::envelope(m[i], j, true); const data_t* l = t[i].getKeoghLower(j); for (size_t z = 0; z < lo.size(); z++) if (l[z] != (data_t)lo[z]) c.fail("lower envelope"); const data_t* x = t[i].getKeoghUpper(j); for (size_t z = 0; z < lo.size(); z++) if (x[z] != (data_t)up[z]) c.fail("upper envelope"); }
      for (int z = 0; z < 3; z++) if (values(t[z]) != m[z]) c.fail("sequence %d holds %s, should be %s", z, ref::str(values(t[z])).c_str(), ref::str(m[z]).c_str()); c.checked(); mc::Hash h; for (auto& s : m) for (double v : s) h.d(v); c.observe(h); }
  });
  K.add("histories of a session", 3, [](mc::Ctx& c) {
    static std::vector<Tab> D; if (D.empty()) for (auto rc : std::vector<std::pair<int, int>>{{2, 6}, {3, 5}}) { Tab t(rc.first, rc.second); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (double)(i * i * 7 % 19) / 4; D.push_back(t); }
    OnexAPI a; std::map<int, Tab> m; std::map<int, bool> grouped; int depth = c.thorough ? 5 : 4; setWarpingBandRatio(0.3); a.setWarpingBandRatio(0.3); std::string p = c.file("g");
    for (int k = 0; k < depth; k++) { int o = c.choose(8), i = o & 1; c.op(); bool has = m.count(i);
      switch (o / 2) { case 0: { int id = a.loadDataset(tabFile(c, D[i]), 0, 0, " ").id; c.note("load %d: %d", i, id); int w = 0; while (m.count(w)) w++; if (id != w) c.fail("identifier %d", id); m[w] = D[i]; grouped[w] = false; break; }
      case 1: { c.note("normalise %d", i); bool r = refused([&] { a.normalizeDataset(i); }); if (r == has) c.fail("normalise"); if (has) { double x, y; m[i] = ref::normalize(m[i], x, y); grouped[i] = false; } break; }
      case 2: { c.note("average %d", i); bool r = refused([&] { a.PAA(i, 2); }); if (r == has) c.fail("average"); if (has) { m[i] = ref::paa(m[i], 2); grouped[i] = false; } break; }
      default: { c.note("group %d", i); bool r = refused([&] { a.groupDataset(i, 0.77); a.saveGroup(i, p, false); a.loadGroup(i, p); }); if (r == has) c.fail("group"); if (has) grouped[i] = true; } }
      for (auto& e : m) { std::string f = c.file("s"); a.saveDataset(e.first, f, ' '); TimeSeriesSet b; b.loadData(f, 0, 0, " "); Tab v = values(b); approx(c, v, e.second, "dataset"); dataset_info_t d = a.getDatasetInfo(e.first); if (d.isGrouped != grouped[e.first]) c.fail("dataset %d: grouped %d", e.first, d.isGrouped); if (d.isGrouped) { ref::GroupFile g = groupsOf(c, a, e.first); ref::Groups G = floats(g.groups); for (auto& q : m) { a.saveDataset(q.first, f, ' '); TimeSeriesSet x; x.loadData(f, 0, 0, " "); Seq s = values(x).row(1); matchAndCheck(c, G, v, s, 0.3, [&] { return a.getBestMatch(e.first, q.first, 1); }); } } c.observe(hashOf(v)); } }
  });
  K.add("subsequence search", 2, [](mc::Ctx& c) {
    int m = c.range(6, 9), place = c.range(0, 12), r = c.range(0, 3); Seq q, d; for (int i = 0; i < m; i++) q.push_back((i * i * 3 + m) % 7); for (int i = 0; i < 30; i++) d.push_back((i * i * 5 + i * 3) % 11 + (i % 3)); for (int i = 0; i < m; i++) d[place + i] = q[i] * 2 + 1; c.note("length %d place %d half-width %d", m, place, r);
    std::string x = c.file("x"), y = c.file("y"), t; for (double v : d) t += std::to_string((int)v) + " "; put(x, t); t = ""; for (double v : q) t += std::to_string((int)v) + "\n"; put(y, t); std::stringbuf sb; std::streambuf* old = std::cout.rdbuf(&sb); std::string of = c.file("report"); int save = dup(1), fd = ::open(of.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666); fflush(stdout); dup2(fd, 1); ::close(fd); calculate(x.c_str(), y.c_str(), m, r); c.op(); fflush(stdout); dup2(save, 1); ::close(save); std::cout.rdbuf(old); std::string rep = sb.str() + get(of); c.checked();
    size_t l = rep.find("Location :"), k = rep.find("Distance :"), n = rep.find("Data Scanned :"); if (l == std::string::npos || k == std::string::npos || n == std::string::npos) c.fail("report %s", rep.c_str()); if (atoi(rep.c_str() + l + 10) != place || atof(rep.c_str() + k + 10) > 0.02 || atoi(rep.c_str() + n + 14) != 30) c.fail("match planted at %d:\n%s", place, rep.c_str()); mc::Hash h; h.u(place * 100 + m * 10 + r); c.observe(h);
  });
  K.add("owning sequences: every pair of copies, assignments, moves and accumulations at every length", 2, [](mc::Ctx& c) {
    int n = c.range(0, 12), m = c.range(0, 12); int o1 = c.choose(5), o2 = c.choose(5); c.note("lengths %d and %d, operations %d %d", n, m, o1, o2); c.op(4);
    auto mk = [](int k, int seed) { TimeSeries t(k); for (int i = 0; i < k; i++) t[i] = (data_t)((i * 5 + seed) % 9 * 0.25); return t; };
    auto vals = [](int k, int seed) { Seq t; for (int i = 0; i < k; i++) t.push_back((i * 5 + seed) % 9 * 0.25); return t; };
    TimeSeries a = mk(n, 1), b = mk(m, 2); Seq va = vals(n, 1), vb = vals(m, 2);
    for (int o : {o1, o2}) { switch (o) { case 0: a = b; va = vb; break; case 1: { TimeSeries k(a); for (int i = 0; i < k.getLength(); i++) k[i] = -1; b = k; vb = Seq(va.size(), -1); break; } case 2: b = std::move(a); vb = va; a = mk(3, 3); va = vals(3, 3); break; case 3: { bool fits = va.size() == vb.size(); bool r = refused([&] { a += b; }); if (r == fits) c.fail("accumulation %s", r ? "refused" : "accepted"); if (fits) for (size_t i = 0; i < va.size(); i++) va[i] += vb[i]; break; } default: { TimeSeries k(b), l(k); k = l; a = l; va = vb; } } }
    for (int w = 0; w < 2; w++) { const TimeSeries& t = w ? b : a; const Seq& v = w ? vb : va; if (t.getLength() != (int)v.size()) c.fail("length %d, expected %zu", t.getLength(), v.size()); for (size_t i = 0; i < v.size(); i++) if (t[(int)i] != v[i]) c.fail("value %zu is %g, expected %g", i, (double)t[(int)i], v[i]);
      for (int k : {0, 1, 3}) if (!v.empty()) { Seq lo = ref::envelope(v, k, false), up = ref::envelope(v, k, true); const data_t* L = t.getKeoghLower(k); for (size_t i = 0; i < v.size(); i++) if (L[i] != lo[i]) c.fail("lower envelope"); const data_t* U = t.getKeoghUpper(k); for (size_t i = 0; i < v.size(); i++) if (U[i] != up[i]) c.fail("upper envelope"); } c.checked(); }
    mc::Hash h; h.u(hashOf(va)); h.u(hashOf(vb)); c.observe(h);
  });
  K.add("sizes of the ladder: load, save, normalise, average, group, reload, match", 2, [](mc::Ctx& c) {
    bool tall = c.flip(); int k = c.pick(ladder(c.thorough ? (tall ? 520 : 64) : tall ? 260 : 34, 2)); int r = tall ? k : 2, n = tall ? 2 : k; double st = c.pick(std::vector<double>{0, 2.5}), ratio = 0.2; setWarpingBandRatio(ratio); Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (double)(i * i % 29) / 4; c.note("%dx%d threshold %g", r, n, st); OnexAPI a; a.loadDataset(tabFile(c, t), 0, 0, " "); tour(c, a, 0, t, st, ratio, false);
    double x, y; for (int b : {2, 7, n}) { TimeSeriesSet s; load(c, s, t); s.PAA(b); approx(c, values(s), ref::paa(t, b), "averaged"); s.normalize(); approx(c, values(s), ref::normalize(ref::paa(t, b), x, y), "averaged and normalised"); }
  });
  K.add("distances and envelopes at lengths of the ladder", 2, [](mc::Ctx& c) {
    int m = c.pick(ladder(c.thorough ? 520 : 300)), d = c.pick(std::vector<int>{0, 1, -3}), n = std::max(1, m + d); Seq a(m), b(n); for (int i = 0; i < m; i++) a[i] = (i * 7 % 11) * 0.25; for (int i = 0; i < n; i++) b[i] = (i * 5 % 13) * 0.25; TimeSeries A = view(a), B = view(b); c.note("lengths %d %d", m, n); for (double r : {0.0, 0.05, 0.2}) { setWarpingBandRatio(r); double w = ref::dtw(a, b, r), g[] = {warpedDistance(A, B, INF), warpedDistance(B, A, INF), cascadeDistance(A, B, INF)}; c.op(3); c.checked(3); for (double v : g) if (!close5(v, w)) c.fail("warped distance at lengths %d and %d, ratio %g: %.9g, should be %.9g", m, n, r, v, w); }
    if (m == n) { double e = pairwiseDistance(A, B, INF); if (!close5(e, ref::ed(a, b))) c.fail("distance at length %d: %.9g, should be %.9g", m, e, ref::ed(a, b)); } for (int w : {0, 1, m / 3, m}) { Seq lo = ref::envelope(a, w, false), up = ref::envelope(a, w, true); const data_t* l = A.getKeoghLower(w); for (int z = 0; z < m; z++) if (l[z] != lo[z]) c.fail("lower envelope"); const data_t* u = A.getKeoghUpper(w); for (int z = 0; z < m; z++) if (u[z] != up[z]) c.fail("upper envelope"); } mc::Hash h; h.u(m); h.u(n); c.observe(h);
  });
  K.add("thresholds that need every digit of single precision, saved and loaded", 2, [](mc::Ctx& c) {
    int k = c.choose(18), e = c.range(-8, 12); float st = std::ldexp(1.f + (k < 9 ? (1 << k) : 8388608 - (1 << (k - 9))) / 8388608.f, e * 2); if (c.flip()) st = (float)(st * 0.3); Tab t(2, 3); t.v = {0, 1, 3, 1, 1, 2}; c.note("threshold %.9g", (double)st); GroupableTimeSeriesSet s, o; load(c, s, t); load(c, o, t); std::string p = c.file("g"), q = c.file("h"); int n = s.groupAllLengths("euclidean", st); s.saveGroups(p, false); ref::GroupFile g = parseOrFail(c, get(p), 2, 3); c.op(3); c.checked(); if ((float)g.st != st) c.fail("threshold %.9g saved as %.12g", (double)st, g.st);
    if (o.loadGroups(p) != n) c.fail("groups loaded"); o.saveGroups(q, false); ref::GroupFile g2 = parseOrFail(c, get(q), 2, 3); if (g2.st != g.st || ref::canon(g2.groups) != ref::canon(g.groups)) c.fail("group file changed by loading and saving:\n%s", u::diff(get(p), get(q)).c_str()); s.saveGroups(q, true); std::istringstream is(get(q)); int v; double x; is >> v >> x; if ((float)x != st) c.fail("threshold %.9g saved as %.12g", (double)st, x); c.observe(hashOf(ref::canon(g.groups)) + k * 64 + e);
  });
  K.add("values that need every digit of single precision, saved and loaded", 2, [](mc::Ctx& c) {
    int k = c.choose(18), e = c.range(-30, 30); float v = std::ldexp(1.f + (k < 9 ? (1 << k) : 8388608 - (1 << (k - 9))) / 8388608.f, e * 4); Tab t(1, 4); t.v = {v, -v, (float)(v * 0.3), (float)(v / 7)}; c.note("value %.9g", (double)v); TimeSeriesSet s, o; load(c, s, t); if (!(values(s) == t)) c.fail("loaded %s, the file has %s", ref::str(values(s)).c_str(), ref::str(t).c_str()); std::string p = c.file("d"); s.saveData(p, ','); o.loadData(p, 0, 0, ","); c.op(3); c.checked(); if (!(values(o) == t)) c.fail("saved and loaded: %s, was %s", ref::str(values(o)).c_str(), ref::str(t).c_str()); c.observe(k * 100 + e);
  });
  return 0;
}();
MC_MAIN(K)

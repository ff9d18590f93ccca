// C12 Zero-threshold matching is globally exact over all admissible lengths.
#include "group_check.hpp"
using namespace u;
static mc::Check K;
static double global(const Tab& t, const Seq& q, double ratio) { double b = ref::Inf; for (int L = 2; L <= t.c; L++) if (ref::admissible((int)q.size(), L, ratio)) for (int i = 0; i < t.r; i++) for (int s = 0; s + L <= t.c; s++) b = std::min(b, ref::dtw(q, t.sub(i, s, s + L), ratio)); return b; }
static void ask(mc::Ctx& c, GroupableTimeSeriesSet& s, const Tab& t, const Seq& q0, double ratio) {
  Seq q = q0; TimeSeries Q = view(q); double want = global(t, q, ratio); c.op(); c.checked();
  try { candidate_time_series_t m = s.getBestMatch(Q); if (std::isinf(want)) c.fail("query %s without admissible subsequence was answered", ref::str(q).c_str());
    if (!ref::close(m.dist, want)) c.fail("query %s, band ratio %g: answered at distance %.12g, the nearest subsequence is at %.12g; table %s", ref::str(q).c_str(), ratio, (double)m.dist, want, ref::str(t).c_str());
    int i = m.data.getIndex(), b = m.data.getStart(), e = m.data.getEnd(); if (i < 0 || i >= t.r || b < 0 || e > t.c || e - b < 2) c.fail("answer outside the dataset"); double d = ref::dtw(q, t.sub(i, b, e), ratio); if (!ref::close(d, want)) c.fail("query %s: the subsequence named is at %.12g, not %.12g", ref::str(q).c_str(), d, want);
    mc::Hash h; h.d(want); h.u(i * 100 + b); h.u(e); c.observe(h);
  } catch (const OnexException& x) { if (!std::isinf(want)) c.fail("query %s was refused (%s), nearest subsequence at %.12g; band ratio %g", ref::str(q).c_str(), x.what(), want, ratio); c.observe(1); }
}
int init = [] {
  K.property = "C12"; K.before = u::reset;
  K.rule = "every query length, series length and band ratio in the bounds: the lengths visited are compared with the admissible set; every listed dataset grouped with threshold 0 and every query: the answer is compared with an exhaustive scan of all admissible subsequences";
  K.assumptions = {"finite values"};
  K.add("lengths visited for every query length, series length and band ratio", 2, [](mc::Ctx& c) {
    int k = c.choose(46); double ratio = k <= 40 ? k / 40.0 : std::vector<double>{0.1, 0.333, 0.01, 1.5, 100}[k - 41]; int total = c.range(0, c.thorough ? 130 : 70); setWarpingBandRatio(ratio);
    for (int q = 2; q <= total + 40; q++) {
      vector<int> o = generateTraverseOrder(q, total); c.op(); c.checked(); std::set<int> s(o.begin(), o.end()); if (s.size() != o.size()) c.fail("query length %d, series length %d, ratio %g: a length is visited twice", q, total, ratio);
      for (int L = 2; L <= std::max(total, q) + 3; L++) { bool in = s.count(L), want = L <= total && ref::admissible(q, L, ratio); if (in != want) c.fail("query length %d, series length %d, ratio %g: length %d is %s", q, total, ratio, L, in ? "visited" : "not visited"); s.erase(L); }
      if (!s.empty()) c.fail("query length %d, series length %d: length %d is visited", q, total, *s.begin());
      mc::Hash h; h.u(q); h.u(total); h.u(o.size()); c.observe(h);
    }
    c.note("series length %d ratio %g", total, ratio);
  });
  K.add("all tables up to 5 cells over {0,1,3}, all queries of length 2..4 over {0,1,3,4}", 4, [](mc::Ctx& c) {
    int cells = c.thorough ? 6 : 5; int r = c.range(1, cells), n = c.range(1, cells / r); Tab t = chooseTab(c, r, n, {0, 1, 3}); double ratio = c.pick(std::vector<double>{0.1, 0.34, 0.5, 1}); setWarpingBandRatio(ratio); c.note("table %s ratio %g", ref::str(t).c_str(), ratio);
    GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", 0); static const std::vector<double> A{0, 1, 3, 4};
    for (int m = 2; m <= 4; m++) { std::vector<int> ix(m, 0); while (true) { Seq q(m); for (int i = 0; i < m; i++) q[i] = A[ix[i]]; ask(c, s, t, q, ratio); int k = m - 1; while (k >= 0 && ++ix[k] == 4) ix[k--] = 0; if (k < 0) break; } }
  });
  K.add("all tables up to 4 cells and queries of length 2..3 at scales from 1e-100 to 1e100", 4, [](mc::Ctx& c) {
    double x = c.pick(scales()); int cells = c.thorough ? 5 : 4; int r = c.range(1, cells), n = c.range(1, cells / r); Tab t = chooseTab(c, r, n, {0, 1, 3}); for (auto& v : t.v) v *= x; ref::unit() = x; double ratio = c.pick(std::vector<double>{0.1, 0.5}); setWarpingBandRatio(ratio); c.note("table %s ratio %g", ref::str(t).c_str(), ratio);
    GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", 0); const std::vector<double> A{0, x, 3 * x, 4.5 * x};
    for (int m = 2; m <= 3; m++) { std::vector<int> ix(m, 0); while (true) { Seq q(m); for (int i = 0; i < m; i++) q[i] = A[ix[i]]; ask(c, s, t, q, ratio); int k = m - 1; while (k >= 0 && ++ix[k] == 4) ix[k--] = 0; if (k < 0) break; } }
  });
  K.add("all series of length 6..8 over {0,2} and queries of length 2..9 over {0,2}", 4, [](mc::Ctx& c) {
    int n = c.range(6, c.thorough ? 9 : 8); Tab t = chooseTab(c, 1, n, {0, 2}); double ratio = c.pick(std::vector<double>{0.15, 0.3, 0.5}); setWarpingBandRatio(ratio); c.note("table %s ratio %g", ref::str(t).c_str(), ratio);
    GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", 0); for (int m = 2; m <= (c.thorough ? 9 : 7); m++) for (int b = 0; b < (1 << m); b++) { Seq q(m); for (int i = 0; i < m; i++) q[i] = b >> i & 1 ? 2 : 0; ask(c, s, t, q, ratio); }
  });
  K.add("every subsequence of larger datasets is found at distance 0", 2, [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> S{{1, 40}, {4, 12}, {12, 5}, {2, 25}, {50, 3}}; std::pair<int, int> rc = c.pick(S); int kind = c.choose(3); double ratio = c.pick(std::vector<double>{0, 0.1, 0.4}); Tab t(rc.first, rc.second); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = kind == 0 ? std::sin(i * 1.3) : kind == 1 ? (double)(i % 5) : (i * i) % 17 * 0.3; bool warped = c.flip(); setWarpingBandRatio(ratio); c.note("%dx%d kind %d ratio %g %s", t.r, t.c, kind, ratio, warped ? "warped" : "euclidean");
    GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths(warped ? "euclidean_dtw" : "euclidean", 0);
    for (int i = 0; i < t.r; i++) for (int L = 2; L <= t.c; L += (t.c > 20 ? 3 : 1)) for (int b = 0; b + L <= t.c; b += (t.c > 20 ? 4 : 1)) { Seq q = t.sub(i, b, b + L); TimeSeries Q = view(q); candidate_time_series_t m = s.getBestMatch(Q); c.op(); c.checked(); if (m.dist != 0) c.fail("series %d from %d, length %d, occurs in the dataset but is matched at %.12g", i, b, L, (double)m.dist); Seq v = values(m.data); if (!ref::close(ref::dtw(q, v, ratio), 0)) c.fail("answer is not at distance 0"); mc::Hash h; h.u(i); h.u(b); h.u(L); c.observe(h); }
  });
  K.add("disturbed queries on larger datasets against a full scan", 2, [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> S{{1, 20}, {3, 9}, {6, 5}, {14, 3}}; std::pair<int, int> rc = c.pick(S); double ratio = c.pick(std::vector<double>{0.1, 0.3}); int n = c.pick(std::vector<int>{2, 4, 7, 9, 13, 21, 22, 30}); Tab t(rc.first, rc.second); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = std::sin(i * 0.9) * 3; setWarpingBandRatio(ratio); c.note("%dx%d ratio %g queries of length %d", t.r, t.c, ratio, n);
    OnexAPI a; a.setWarpingBandRatio(ratio); GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", 0); for (int p = 0; p < n; p++) for (double d : {0.7, -4.0}) { Seq q(n); for (int j = 0; j < n; j++) q[j] = std::sin((j + p * 2) * 0.9 + 0.1) * 3; q[p] += d; ask(c, s, t, q, ratio); }
  });
  K.add("lengths visited at sizes of the ladder", 2, [](mc::Ctx& c) {
    double ratio = c.pick(std::vector<double>{0, 0.003, 0.01, 0.05, 0.1, 0.17, 0.5, 0.9, 1, 3}); std::vector<int> L = ladder(c.thorough ? 11000 : 3100); int total = c.pick(L); setWarpingBandRatio(ratio); c.note("series length %d ratio %g", total, ratio);
    for (int q : L) { if (q < 2) continue; vector<int> o = generateTraverseOrder(q, total); c.op(); c.checked(); std::vector<char> in(std::max(total, q) + 5, 0); for (int x : o) { if (x < 2 || x > total) c.fail("query length %d, series length %d, ratio %g: length %d is visited", q, total, ratio, x); if (in[x]) c.fail("query length %d, series length %d: length %d is visited twice", q, total, x); in[x] = 1; } for (int x = 2; x <= total; x++) if ((bool)in[x] != ref::admissible(q, x, ratio)) c.fail("query length %d, series length %d, ratio %g: length %d is %svisited", q, total, ratio, x, in[x] ? "" : "not "); mc::Hash h; h.u(q); h.u(total); h.u(o.size()); c.observe(h); }
  });
  K.add("sizes of the ladder: disturbed queries against a full scan", 2, [](mc::Ctx& c) {
    bool tall = c.flip(); int k = c.pick(ladder(c.thorough ? (tall ? 1100 : 100) : tall ? 300 : 50, 3)); int r = tall ? k : c.range(1, 2), n = tall ? c.range(2, 4) : k; double ratio = c.pick(std::vector<double>{0.1, 0.4}); Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (double)(i * i * 31 % 1009) * 0.05; setWarpingBandRatio(ratio); c.note("%dx%d ratio %g", r, n, ratio); GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", 0);
    for (int i : {0, r / 2, r - 1}) for (int m : {2, n / 2, n, n + 1}) if (m >= 2) for (int at : {0, n - m}) { if (at < 0) at = 0; Seq q(m); for (int j = 0; j < m; j++) q[j] = t.at(i, std::min(at + j, n - 1)) + (j % 2 ? 0.02 : -0.01); ask(c, s, t, q, ratio); }
  });
  K.add("the nearest subsequence has any admissible length: the query stretched to it, elsewhere only noise", 3, [](mc::Ctx& c) {
    int m = c.range(2, c.thorough ? 40 : 24); std::vector<double> R{0.1, 0.5, 1}; double ratio = c.pick(R); int L = c.range(2, c.thorough ? 48 : 30), at = c.choose(3); if (!ref::admissible(m, L, ratio)) { c.observe(0); return; } setWarpingBandRatio(ratio);
    Seq q(m), x(L); for (int i = 0; i < m; i++) q[i] = (i * 7 % 10) + (i == 0 ? 0.5 : 0); for (int i = 0; i < L; i++) x[i] = q[(int)((long long)i * m / L)]; if (L < m) for (int i = 0; i < m; i++) q[i] = x[(int)((long long)i * L / m)];
    int pad = std::max(6, 32 - L); Tab t(1, L + pad); int p = at == 0 ? 0 : at == 1 ? pad / 2 : pad; for (int i = 0; i < t.c; i++) t.v[i] = i >= p && i < p + L ? x[i - p] : 200 + i * 37 % 91 * (i % 2 ? -9 : 5); c.note("query of %d, nearest subsequence of %d at %d, ratio %g", m, L, p, ratio); GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", 0); ask(c, s, t, q, ratio);
  });
  return 0;
}();
MC_MAIN(K)

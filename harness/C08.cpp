// C08 Distances are exact: Euclidean and banded time warping.
#include "onex_util.hpp"
using namespace u;
static mc::Check K;
static const std::vector<double> RATIO{0, 0.1, 0.25, 0.34, 0.5, 0.67, 0.75, 1, 1.5};

// a sequence embedded as a view in an array full of strange values, or owned
struct Emb {
  Seq buf; TimeSeries ts; Emb(const Seq& s, int pad, double fill) : buf(make(s, pad, fill)), ts(buf.data(), 3, pad, pad + (int)s.size()) {}
  static Seq make(const Seq& s, int pad, double fill) { Seq b(s.size() + 2 * pad + 1, fill); std::copy(s.begin(), s.end(), b.begin() + pad); return b; }
};
static TimeSeries owned(const Seq& s) { TimeSeries t((int)s.size()); for (size_t i = 0; i < s.size(); i++) t[(int)i] = s[i]; return t; }
static void warped(mc::Ctx& c, const Seq& a, const Seq& b, double ratio, double want, const TimeSeries& A, const TimeSeries& B) {
  dist_t f = getDistance("euclidean_dtw");
  double x = f(A, B, INF), y = f(B, A, INF), z = warpedDistance(A, B, INF), k = cascadeDistance(A, B, INF); c.op(4);
  if (!ref::close(x, want) || !ref::close(y, want) || !ref::close(z, want) || !ref::close(k, want)) c.fail("warped distance of %s and %s at band ratio %g is %.12g; got %.12g, swapped %.12g, warpedDistance %.12g, cascaded %.12g", ref::str(a).c_str(), ref::str(b).c_str(), ratio, want, x, y, z, k);
  c.checked();
}
static void euclid(mc::Ctx& c, const Seq& a, const Seq& b, const TimeSeries& A, const TimeSeries& B) {
  dist_t f = getDistance("euclidean");
  if (a.size() != b.size()) { c.op(); if (!refused([&] { f(A, B, INF); }) || !refused([&] { pairwiseDistance(B, A, INF); }) || !refused([&] { pairwiseDistance(A, B, 0); })) c.fail("Euclidean distance of lengths %zu and %zu was not refused", a.size(), b.size()); return; }
  double w = ref::ed(a, b), x = f(A, B, INF), y = pairwiseDistance(B, A, INF); c.op(2);
  if (!ref::close(x, w) || !ref::close(y, w)) c.fail("Euclidean distance of %s and %s is %.12g; got %.12g, swapped %.12g", ref::str(a).c_str(), ref::str(b).c_str(), w, x, y);
  c.checked();
}
static void all(mc::Ctx& c, const Seq& a, const Seq& b, bool byPaths) {
  Emb A(a, 2, 1e3), B(b, 3, -1e3); TimeSeries oa = owned(a), ob = owned(b);
  euclid(c, a, b, A.ts, B.ts); mc::Hash h;
  for (double r : RATIO) {
    setWarpingBandRatio(r); double want = ref::dtw(a, b, r);
    if (byPaths) { unsigned long long n = 0; double p = ref::dtwByPaths(a, b, r, n); if (!ref::close(p, want)) { dprintf(2, "HARNESS-ERROR: reference distances disagree\n"); _exit(98); } }
    warped(c, a, b, r, want, A.ts, B.ts); warped(c, a, b, r, want, oa, ob); h.d(want);
  }
  c.observe(h);
  if (a == b) { if (pairwiseDistance(A.ts, B.ts, INF) != 0 || warpedDistance(A.ts, B.ts, INF) != 0) c.fail("identical sequences %s are not at distance 0", ref::str(a).c_str()); }
}
int init = [] {
  K.property = "C08"; K.before = u::reset;
  K.rule = "every pair of listed sequences and band ratio: the distances are compared with the minimum over all explicitly enumerated warping paths (short sequences) or with a full-matrix reference (long ones), in both argument orders, on views with foreign surroundings and on owned sequences";
  K.assumptions = {"finite values whose squared differences do not overflow"};
  K.add("all pairs of lengths 1..4 over {0,1,3}, all band ratios, against enumerated paths", 6, [](mc::Ctx& c) {
    int L = c.thorough ? 5 : 4; int m = c.range(1, L), n = c.range(1, L); Seq a = chooseSeq(c, m, {0, 1, 3}), b = chooseSeq(c, n, {0, 1, 3});
    c.note("%s %s", ref::str(a).c_str(), ref::str(b).c_str()); all(c, a, b, true);
  });
  K.add("all pairs of lengths 1..6 over {0,2}, all band ratios, against enumerated paths", 6, [](mc::Ctx& c) {
    int L = c.thorough ? 8 : 6; int m = c.range(1, L), n = c.range(1, L); Seq a = chooseSeq(c, m, {0, 2}), b = chooseSeq(c, n, {0, 2});
    c.note("%s %s", ref::str(a).c_str(), ref::str(b).c_str()); all(c, a, b, c.thorough ? m + n <= 12 : true);
  });
  K.add("all length pairs to 40, peaks at every pair of positions on a grid", 3, [](mc::Ctx& c) {
    static const std::vector<int> L{1, 2, 3, 5, 7, 10, 11, 16, 20, 21, 31, 40}; int m = c.pick(L), n = c.pick(L); int p = c.choose(m), q = c.choose(n); int kind = c.choose(2);
    Seq a(m), b(n); for (int i = 0; i < m; i++) a[i] = kind ? (i * 3) % 5 : 0; for (int j = 0; j < n; j++) b[j] = kind ? (j * 3) % 5 : 0; a[p] += 4; b[q] += 3.5;
    double r = c.pick(std::vector<double>{0, 0.1, 0.5, 1}); setWarpingBandRatio(r); c.note("lengths %d %d peaks %d %d ratio %g", m, n, p, q, r);
    Emb A(a, 1, 1e3), B(b, 4, -1e3); double w = ref::dtw(a, b, r); warped(c, a, b, r, w, A.ts, B.ts); euclid(c, a, b, A.ts, B.ts); mc::Hash h; h.d(w); c.observe(h);
  });
  K.add("every length to 140 against every nearby length, every band ratio on a grid", 2, [](mc::Ctx& c) {
    int m = c.range(1, 140), d = c.range(0, 20); int n = std::max(1, m - d); Seq a(m), b(n); for (int i = 0; i < m; i++) a[i] = std::sin(i * 0.7); for (int j = 0; j < n; j++) b[j] = std::cos(j * 0.9) + 0.2;
    mc::Hash h; for (double r : {0.0, 0.05, 0.1, 0.13, 0.5}) { setWarpingBandRatio(r); double w = ref::dtw(a, b, r); TimeSeries A(a.data(), m), B(b.data(), n); warped(c, a, b, r, w, A, B); h.d(w); }
    TimeSeries A(a.data(), m), B(b.data(), n); euclid(c, a, b, A, B); c.note("lengths %d %d", m, n); c.observe(h);
  });
  K.add("half-width of the band for every length to 400 and every ratio on a grid", 1, [](mc::Ctx& c) {
    int k = c.choose(61); double r = k <= 50 ? k / 50.0 : std::vector<double>{0.001, 0.999999, 1.0000001, 2, 1e3, 1e12, 1e300, std::numeric_limits<double>::infinity(), 1e-300, 0.3}[k - 51]; setWarpingBandRatio(r);
    for (int L = 1; L <= 400; L++) { int w = calculateWarpingBandSize(L); double x = std::floor(L * r); int want = x > L - 1 ? L - 1 : (int)x; c.op(); c.checked(); if (w != want) c.fail("half-width for length %d, ratio %g is %d, not %d", L, r, want, w); c.observe((uint64_t)L * 1000 + w); }
    c.note("ratio %g", r);
  });
  K.add("magnitudes", 2, [](mc::Ctx& c) {
    static const std::vector<double> A{0, 1e-150, -1e-150, 1e150, -1e150, 1e-3, 1e8}; int m = c.range(1, 3), n = c.range(1, 3); Seq a = chooseSeq(c, m, A), b = chooseSeq(c, n, A); c.note("%s %s", ref::str(a).c_str(), ref::str(b).c_str());
    if (m == 3 && n == 3 && !c.thorough && (a[0] != 0 || b[1] != 0)) return;
    TimeSeries X(a.data(), m), Y(b.data(), n); for (double r : {0.0, 0.5, 1.0}) { setWarpingBandRatio(r); warped(c, a, b, r, ref::dtw(a, b, r), X, Y); } euclid(c, a, b, X, Y); c.observe(hashOf(a));
  });
  K.add("all pairs of lengths 1..3 at scales from 1e-300 to 1e150, relative to the scale", 4, [](mc::Ctx& c) {
    double s = c.pick(scales()); int m = c.range(1, 3), n = c.range(1, 3); Seq a = chooseSeq(c, m, {0, 1, 3}), b = chooseSeq(c, n, {0, 1, 3}); for (auto& x : a) x *= s; for (auto& x : b) x *= s; ref::unit() = s;
    c.note("%s %s", ref::str(a).c_str(), ref::str(b).c_str()); TimeSeries X = view(a), Y = view(b); mc::Hash h; for (double r : {0.0, 0.34, 0.67, 1.0}) { setWarpingBandRatio(r); double w = ref::dtw(a, b, r); warped(c, a, b, r, w, X, Y); h.d(w); } euclid(c, a, b, X, Y); c.observe(h);
  });
  K.add("small differences on a large offset", 3, [](mc::Ctx& c) {
    double o = c.pick(std::vector<double>{1, 1e3, 1e6}), s = c.pick(std::vector<double>{1e-13, 1e-9, 1e-6}); int m = c.range(1, 3), n = c.range(1, 3); Seq a = chooseSeq(c, m, {0, 1, 3}), b = chooseSeq(c, n, {0, 1, 3}); for (auto& x : a) x = o + x * s; for (auto& x : b) x = o + x * s; ref::unit() = s;
    c.note("%s %s", ref::str(a).c_str(), ref::str(b).c_str()); TimeSeries X = view(a), Y = view(b); for (double r : {0.0, 0.34, 1.0}) { setWarpingBandRatio(r); warped(c, a, b, r, ref::dtw(a, b, r), X, Y); } euclid(c, a, b, X, Y); c.observe(hashOf(a));
  });
  K.add("refused ratios and names leave the ratio in force", 1, [](mc::Ctx& c) {
    double good = c.pick(RATIO); double bad = c.pick(std::vector<double>{-0.1, -1e-300, -1, -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}); bool api = c.flip(); OnexAPI x; c.op();
    if (api) x.setWarpingBandRatio(good); else setWarpingBandRatio(good);
    if (!refused([&] { if (api) x.setWarpingBandRatio(bad); else setWarpingBandRatio(bad); })) c.fail("band ratio %g was accepted", bad);
    Seq a{0, 1, 3, 0, 2, 2}, b{1, 3, 3, 0, 0}; TimeSeries A(a.data(), 6), B(b.data(), 5); warped(c, a, b, good, ref::dtw(a, b, good), A, B);
    for (const char* n : {"", "Euclidean", "euclidean ", "dtw", "euclideann", "euclidea", "euclidean_", "xeuclidean_dtw", "euclidean_dtw2"}) if (!refused([&] { getDistance(n); })) c.fail("distance name '%s' accepted", n);
    c.observe(hashOf(Seq{good, bad == bad ? bad : 7}));
  });
  K.add("lengths of the ladder: pairs of equal, nearby and very different lengths", 2, [](mc::Ctx& c) {
    int m = c.pick(ladder(c.thorough ? 1100 : 520)), d = c.choose(5), kind = c.choose(4); int n = d == 0 ? m : d == 1 ? m + 1 : d == 2 ? std::max(1, m - m / 16) : d == 3 ? m + m / 8 : std::max(1, m / 3); Seq a(m), b(n); auto at = [&](int i, int s) { return kind == 0 ? (double)((i * 7 + s * 3) % 11) : kind == 1 ? std::sin(i * 0.37 + s) : kind == 2 ? (double)(i % 64 == s ? 5 : 0) : (double)(i / 40 + s) * 0.75; };
    for (int i = 0; i < m; i++) a[i] = at(i, 0); for (int i = 0; i < n; i++) b[i] = at(i, 1); c.note("lengths %d and %d, kind %d", m, n, kind); mc::Hash h; Emb A(a, 1, 1e3), B(b, 2, -1e3); for (double r : {0.0, 0.02, 0.1, 0.25}) { setWarpingBandRatio(r); double w = ref::dtw(a, b, r); warped(c, a, b, r, w, A.ts, B.ts); h.d(w); } euclid(c, a, b, A.ts, B.ts); c.observe(h);
  });
  K.add("Euclidean distance at every length to 1200 and of the ladder to 70000", 1, [](mc::Ctx& c) {
    int k = c.choose(1200 + (int)ladder(70000, 1201).size()); int n = k < 1200 ? k + 1 : ladder(70000, 1201)[k - 1200]; int kind = c.choose(3); Seq a(n), b(n); for (int i = 0; i < n; i++) { a[i] = kind == 0 ? i % 13 : kind == 1 ? std::sin(i * 0.1) : (i == n - 1); b[i] = kind == 0 ? (i * 5) % 7 : kind == 1 ? std::cos(i * 0.11) : 0; } c.note("length %d kind %d", n, kind); TimeSeries A = view(a), B = view(b); euclid(c, a, b, A, B); double z = pairwiseDistance(A, A, INF); if (z != 0) c.fail("distance of a sequence of %d to itself is %g", n, z); c.observe(n * 3 + kind);
  });
  return 0;
}();
MC_MAIN(K)

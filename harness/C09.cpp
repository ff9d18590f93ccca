// C09 Early abandoning never changes a distance that matters.
#include "onex_util.hpp"
using namespace u;
static mc::Check K;
static const std::vector<double> RATIO{0, 0.1, 0.34, 0.5, 1};

static void judge(mc::Ctx& c, const char* what, double got, double d, double cut, const Seq& a, const Seq& b, double r) {
  bool below = d < cut && !ref::close(d, cut, 1e-10);
  bool ok = ref::close(got, d) || (!below && std::isinf(got) && got > 0); c.checked();
  if (!ok) c.fail("%s of %s and %s with cutoff %.12g, band ratio %g: got %.12g, the distance is %.12g", what, ref::str(a).c_str(), ref::str(b).c_str(), cut, r, got, d);
}
static std::vector<double> cutoffs(double d, double e) {
  std::vector<double> v{0, 1e-9, 0.05, 0.3, 1, 1e6, ref::Inf};
  for (double x : {d, e}) if (!std::isinf(x)) for (double f : {0.25, 0.5, 0.9, 0.999999, 1.0, 1.000001, 1.1, 1.5, 2.0, 3.0}) v.push_back(x * f);
  return v;
}
static void all(mc::Ctx& c, const Seq& a, const Seq& b, const TimeSeries& A, const TimeSeries& B, double r) {
  double d = ref::dtw(a, b, r), e = a.size() == b.size() ? ref::ed(a, b) : d;
  for (double cut : cutoffs(d, e)) {
    judge(c, "warped distance", warpedDistance(A, B, cut), d, cut, a, b, r); judge(c, "warped distance (swapped)", warpedDistance(B, A, cut), d, cut, a, b, r);
    judge(c, "cascaded distance", cascadeDistance(A, B, cut), d, cut, a, b, r); judge(c, "cascaded distance (swapped)", cascadeDistance(B, A, cut), d, cut, a, b, r); c.op(4);
    if (a.size() == b.size()) { judge(c, "Euclidean distance", pairwiseDistance(A, B, cut), e, cut, a, b, r); judge(c, "Euclidean distance (swapped)", pairwiseDistance(B, A, cut), e, cut, a, b, r); c.op(2); }
  }
  mc::Hash h; h.d(d); h.d(e); c.observe(h);
}
int init = [] {
  K.property = "C09"; K.before = u::reset;
  K.rule = "every listed pair of sequences, band ratio and cutoff (below, at and above the exact distance): each distance function must return the reference distance, or infinity when the cutoff is not above it";
  K.assumptions = {"finite values", "cutoffs within a relative 1e-10 of the distance may go either way"};
  K.add("all pairs of lengths 1..4 over {0,1,3}, 5 band ratios, 27 cutoffs", 6, [](mc::Ctx& c) {
    int L = c.thorough ? 5 : 4; int m = c.range(1, L), n = c.range(1, L); Seq a = chooseSeq(c, m, {0, 1, 3}), b = chooseSeq(c, n, {0, 1, 3}); TimeSeries A = view(a), B = view(b); c.note("%s %s", ref::str(a).c_str(), ref::str(b).c_str());
    for (double r : RATIO) { setWarpingBandRatio(r); all(c, a, b, A, B, r); }
  });
  K.add("all pairs of lengths 5..7 over {0,1}", 6, [](mc::Ctx& c) {
    int hi = c.thorough ? 8 : 7; int m = c.range(5, hi), n = c.range(m - 1, std::min(hi, m + 1)); Seq a = chooseSeq(c, m, {0, 1}), b = chooseSeq(c, n, {0, 1}); TimeSeries A = view(a), B = view(b); c.note("%s %s", ref::str(a).c_str(), ref::str(b).c_str());
    for (double r : {0.2, 0.5}) { setWarpingBandRatio(r); all(c, a, b, A, B, r); }
  });
  K.add("longer pairs, a disturbance at every position", 3, [](mc::Ctx& c) {
    static const std::vector<int> L{6, 9, 12, 20, 33, 64, 100}; int m = c.pick(L); int d = c.range(-2, 2); int n = m + d; int p = c.choose(m), k = c.choose(3); Seq a(m), b(n);
    for (int i = 0; i < m; i++) a[i] = k == 0 ? 0 : k == 1 ? std::sin(i * 0.5) : i % 4; for (int i = 0; i < n; i++) b[i] = k == 0 ? 0 : k == 1 ? std::sin(i * 0.5 + 0.3) : (i + 1) % 4; a[p] += 2.5;
    c.note("lengths %d %d disturbance %d kind %d", m, n, p, k); TimeSeries A = view(a), B = view(b); for (double r : {0.1, 0.3}) { setWarpingBandRatio(r); all(c, a, b, A, B, r); }
  });
  K.add("all pairs of lengths 1..3 at scales from 1e-100 to 1e100", 4, [](mc::Ctx& c) {
    double s = c.pick(scales()); int m = c.range(1, 3), n = c.range(1, 3); Seq a = chooseSeq(c, m, {0, 1, 3}), b = chooseSeq(c, n, {0, 1, 3}); for (auto& x : a) x *= s; for (auto& x : b) x *= s; ref::unit() = s; TimeSeries A = view(a), B = view(b); c.note("%s %s", ref::str(a).c_str(), ref::str(b).c_str());
    for (double r : {0.34, 1.0}) { setWarpingBandRatio(r); all(c, a, b, A, B, r); }
  });
  K.add("the same objects under every sequence of band ratios, partners and cutoffs", 3, [](mc::Ctx& c) {
    static const std::vector<Seq> S{{0, 1, 3, 1, 0}, {1, 1, 0, 3, 0}, {0, 3, 0, 0}, {2, 0, 1, 1, 0, 3}, {0, 0, 0, 3, 3}, {5, 1, 0, 5, 1, 0, 2}};
    static std::vector<Seq> buf; buf = S; std::vector<TimeSeries> T; for (auto& s : buf) T.push_back(TimeSeries(s.data(), (int)s.size())); mc::Hash h;
    for (int k = 0; k < (c.thorough ? 4 : 3); k++) {
      double r = c.pick(c.thorough ? std::vector<double>{0.2, 0.5, 1, 0} : std::vector<double>{0.2, 0.5, 1}); int i = c.choose(3), j = c.range(1, 5); int f = c.choose(3); setWarpingBandRatio(r);
      double d = ref::dtw(S[i], S[j], r), cut = f == 0 ? ref::Inf : f == 1 ? d * 1.01 : d * 0.5; if (std::isnan(cut)) cut = 1; c.note("ratio %g pair %d %d cutoff %g", r, i, j, cut); c.op(2);
      judge(c, "cascaded distance", cascadeDistance(T[i], T[j], cut), d, cut, S[i], S[j], r); judge(c, "warped distance", warpedDistance(T[j], T[i], cut), d, cut, S[i], S[j], r); h.d(d);
    }
    c.observe(h);
  });
  K.add("lengths of the ladder, a disturbance at the beginning, middle or end", 2, [](mc::Ctx& c) {
    int m = c.pick(ladder(c.thorough ? 700 : 300, 5)), d = c.pick(std::vector<int>{0, 1, -1, 3}), p = c.pick(std::vector<int>{0, 1, m / 2, m - 2, m - 1}), kind = c.choose(2); int n = std::max(1, m + d); Seq a(m), b(n); for (int i = 0; i < m; i++) a[i] = kind ? std::sin(i * 0.3) : 0; for (int i = 0; i < n; i++) b[i] = kind ? std::sin(i * 0.3 + 0.2) : 0; a[p] += 2.5; c.note("lengths %d %d disturbance at %d kind %d", m, n, p, kind); TimeSeries A = view(a), B = view(b); for (double r : {0.03, 0.1}) { setWarpingBandRatio(r); all(c, a, b, A, B, r); }
  });
  return 0;
}();
MC_MAIN(K)

// C10 Lower bounds never exceed the warped distance; envelopes are exact.
#include "onex_util.hpp"
#include "lib/trillionDTW.h"
using namespace u;
static mc::Check K;
static const std::vector<double> RATIO{0, 0.1, 0.25, 0.5, 0.75, 1};

static void envelopes(mc::Ctx& c, const Seq& a, const TimeSeries& A, int w) {
  const data_t* up = A.getKeoghUpper(w); const data_t* lo = A.getKeoghLower(w); c.op(2);
  Seq U(up, up + a.size()), D(lo, lo + a.size()), wu = ref::envelope(a, w, true), wl = ref::envelope(a, w, false);
  if (U != wu) c.fail("upper envelope of %s for half-width %d is %s, got %s", ref::str(a).c_str(), w, ref::str(wu).c_str(), ref::str(U).c_str());
  if (D != wl) c.fail("lower envelope of %s for half-width %d is %s, got %s", ref::str(a).c_str(), w, ref::str(wl).c_str(), ref::str(D).c_str());
  c.checked(2); c.observe(hashOf(U) ^ (hashOf(D) << 1));
}
static void bounds(mc::Ctx& c, const Seq& a, const Seq& b, const TimeSeries& A, const TimeSeries& B, double r) {
  double d = ref::dtw(a, b, r); std::vector<double> cuts{ref::Inf, 0, 0.2, 1};
  if (!std::isinf(d)) for (double f : {0.3, 0.9, 1.0, 1.0000001, 1.2}) cuts.push_back(d * f);
  for (double cut : cuts) for (int k = 0; k < 4; k++) {
    double lb = k == 0 ? keoghLowerBound(A, B, cut) : k == 1 ? keoghLowerBound(B, A, cut) : k == 2 ? crossKeoghLowerBound(A, B, cut) : crossKeoghLowerBound(B, A, cut); c.op(); c.checked();
    bool ok = lb <= d || ref::close(lb, d) || (d > cut || ref::close(d, cut, 1e-10));
    if (!ok || std::isnan(lb)) c.fail("bound %d of %s and %s with cutoff %.12g, band ratio %g is %.12g, above the distance %.12g", k, ref::str(a).c_str(), ref::str(b).c_str(), cut, r, lb, d);
    if (lb > cut && d <= cut && !ref::close(lb, cut) && !ref::close(d, cut)) c.fail("bound %d would discard a pair at distance %.12g with cutoff %.12g", k, d, cut);
  }
}
int init = [] {
  K.property = "C10"; K.before = u::reset;
  K.rule = "every listed sequence and half-width: envelopes compared with the extremes of the window by definition; every listed pair, band ratio and cutoff: bounds compared with the reference warped distance";
  K.assumptions = {"finite values"};
  K.add("all sequences of length 1..7 over {0,1,3}, every two half-widths asked in turn, view and array", 4, [](mc::Ctx& c) {
    int n = c.range(1, c.thorough ? 8 : 7); Seq a = chooseSeq(c, n, {0, 1, 3}); Seq buf(n + 5, 1e6); std::copy(a.begin(), a.end(), buf.begin() + 2); buf[1] = -1e6; c.note("%s", ref::str(a).c_str());
    for (int w = 0; w <= n + 3; w++) { TimeSeries A(buf.data(), 0, 2, 2 + n); envelopes(c, a, A, w); for (int x = 0; x <= n; x++) { envelopes(c, a, A, x); envelopes(c, a, A, w); } TimeSeries copy(A); envelopes(c, a, copy, w); }
    for (int w = 0; w < n; w++) { Seq l(n), u(n); lower_upper_lemire(a.data(), n, w, l.data(), u.data()); c.op(); if (u != ref::envelope(a, w, true) || l != ref::envelope(a, w, false)) c.fail("lower_upper_lemire of %s, half-width %d", ref::str(a).c_str(), w); }
  });
  K.add("all sequences of length 8..11 over {0,1}, every half-width", 4, [](mc::Ctx& c) {
    int n = c.range(8, c.thorough ? 13 : 11); Seq a = chooseSeq(c, n, {0, 1}); c.note("%s", ref::str(a).c_str()); TimeSeries A = view(a); for (int w = 0; w <= n + 1; w++) envelopes(c, a, A, w);
  });
  K.add("all orders of 7 distinct values, every half-width", 2, [](mc::Ctx& c) {
    int n = c.thorough ? 8 : 7; Seq a; std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(i); while (!left.empty()) { int k = c.choose((int)left.size()); a.push_back(left[k] * 1.5 - 4); left.erase(left.begin() + k); }
    c.note("%s", ref::str(a).c_str()); TimeSeries A = view(a); for (int w = 0; w <= n; w++) envelopes(c, a, A, w);
  });
  K.add("long sequences, a peak or dip at every position, every half-width on a grid", 2, [](mc::Ctx& c) {
    int n = c.pick(std::vector<int>{12, 31, 64, 65, 130, 200}); int p = c.choose(n), k = c.choose(4); Seq a(n); for (int i = 0; i < n; i++) a[i] = k == 0 ? 0 : k == 1 ? i : k == 2 ? -i : (i * 37) % 23; a[p] += (p % 2 ? 50.5 : -50.5); c.note("length %d position %d kind %d", n, p, k);
    TimeSeries A = view(a); for (int w : {0, 1, 2, 5, 6, 20, n / 2, n - 2, n - 1, n, n + 1, 3 * n}) if (w >= 0) envelopes(c, a, A, w);
  });
  K.add("bounds: all pairs of lengths 1..4 over {0,1,3}, 6 band ratios", 6, [](mc::Ctx& c) {
    int L = c.thorough ? 5 : 4; int m = c.range(1, L), n = c.range(1, L); Seq a = chooseSeq(c, m, {0, 1, 3}), b = chooseSeq(c, n, {0, 1, 3}); TimeSeries A = view(a), B = view(b); c.note("%s %s", ref::str(a).c_str(), ref::str(b).c_str());
    for (double r : RATIO) { setWarpingBandRatio(r); bounds(c, a, b, A, B, r); } c.observe(hashOf(a) ^ hashOf(b) * 3);
  });
  K.add("bounds: all pairs of lengths 5..7 over {0,1}, 3 band ratios", 6, [](mc::Ctx& c) {
    int hi = c.thorough ? 8 : 7; int m = c.range(5, hi), n = c.range(std::max(5, m - 2), hi); Seq a = chooseSeq(c, m, {0, 1}), b = chooseSeq(c, n, {0, 1}); TimeSeries A = view(a), B = view(b); c.note("%s %s", ref::str(a).c_str(), ref::str(b).c_str());
    for (double r : {0.15, 0.3, 0.6}) { setWarpingBandRatio(r); bounds(c, a, b, A, B, r); } c.observe(hashOf(a) ^ hashOf(b) * 3);
  });
  K.add("bounds and envelopes: all pairs of lengths 2..3 at scales from 1e-100 to 1e100", 4, [](mc::Ctx& c) {
    double s = c.pick(scales()); int m = c.range(2, 3), n = c.range(2, 3); Seq a = chooseSeq(c, m, {0, -1, 3}), b = chooseSeq(c, n, {0, -1, 3}); for (auto& x : a) x *= s; for (auto& x : b) x *= s; ref::unit() = s; TimeSeries A = view(a), B = view(b); c.note("%s %s", ref::str(a).c_str(), ref::str(b).c_str());
    for (double r : {0.34, 1.0}) { setWarpingBandRatio(r); bounds(c, a, b, A, B, r); } for (int w = 0; w < 3; w++) envelopes(c, a, A, w);
  });
  K.add("bounds: long pairs, a disturbance at every position", 2, [](mc::Ctx& c) {
    int m = c.pick(std::vector<int>{10, 24, 50, 100}), d = c.range(-4, 4), n = m + d; int p = c.choose(m); Seq a(m), b(n); for (int i = 0; i < m; i++) a[i] = std::sin(i * 0.6); for (int i = 0; i < n; i++) b[i] = std::sin(i * 0.6 + 0.8); a[p] += 3; TimeSeries A = view(a), B = view(b); c.note("lengths %d %d position %d", m, n, p);
    for (double r : {0.05, 0.1, 0.2, 0.5}) { setWarpingBandRatio(r); bounds(c, a, b, A, B, r); } c.observe(hashOf(a) + n);
  });
  K.add("envelopes at lengths of the ladder, half-widths of the ladder", 2, [](mc::Ctx& c) {
    std::vector<int> L = ladder(c.thorough ? 3000 : 1100); int n = c.pick(L), kind = c.choose(4); Seq a(n); for (int i = 0; i < n; i++) a[i] = kind == 0 ? i : kind == 1 ? -i : kind == 2 ? (i * 37) % 23 : (i % 50 == 7 ? 9 : i % 50 == 31 ? -9 : 0); c.note("length %d kind %d", n, kind); TimeSeries A = view(a);
    auto fast = [&](int w, bool up) { Seq o(n); std::vector<int> q; size_t head = 0; int in = 0; for (int i = 0; i < n; i++) { while (in < n && in <= (long long)i + w) { while (q.size() > head && (up ? a[q.back()] <= a[in] : a[q.back()] >= a[in])) q.pop_back(); q.push_back(in++); } while (q[head] < i - w) head++; o[i] = a[q[head]]; } return o; };
    for (int w : L) { if (w > n + 40 && w < 1000) continue; const data_t* up = A.getKeoghUpper(w - 1); Seq U(up, up + n); const data_t* lo = A.getKeoghLower(w - 1); Seq D(lo, lo + n); c.op(2); c.checked(2); if (U != fast(w - 1, true)) c.fail("upper envelope of length %d, half-width %d", n, w - 1); if (D != fast(w - 1, false)) c.fail("lower envelope of length %d, half-width %d", n, w - 1); if (n <= 130 && w % 5 == 0) envelopes(c, a, A, w); }
    c.observe(n * 4 + kind);
  });
  K.add("bounds at lengths of the ladder", 2, [](mc::Ctx& c) {
    int m = c.pick(ladder(c.thorough ? 700 : 300, 5)), d = c.pick(std::vector<int>{0, 1, -2, 6}), kind = c.choose(3); int n = std::max(2, m + d); Seq a(m), b(n); for (int i = 0; i < m; i++) a[i] = kind == 0 ? std::sin(i * 0.6) : kind == 1 ? (i * 7) % 5 : i * 0.1; for (int i = 0; i < n; i++) b[i] = kind == 0 ? std::sin(i * 0.6 + 0.8) : kind == 1 ? (i * 3) % 5 : i * 0.1 + 2; TimeSeries A = view(a), B = view(b); c.note("lengths %d %d kind %d", m, n, kind); for (double r : {0.02, 0.1, 0.3}) { setWarpingBandRatio(r); bounds(c, a, b, A, B, r); } c.observe(hashOf(a) + n);
  });
  return 0;
}();
MC_MAIN(K)

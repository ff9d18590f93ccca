// C23 Candidates are ordered by distance, then position.
#include "onex_util.hpp"
#include <array>
using namespace u;
static mc::Check K;
struct Cand { double d; int i, s, n; };
// equal up to rounding is one rank; ranks are far apart
static std::vector<Cand> grid(const std::vector<double>& D, const std::vector<int>& I, const std::vector<int>& S, const std::vector<int>& N) { std::vector<Cand> g; for (double d : D) for (int i : I) for (int s : S) for (int n : N) g.push_back({d, i, s, n}); return g; }
static long long rank(double d) { return std::isinf(d) ? 1LL << 60 : std::llround(d * 1e5); }
static int cmp(const Cand& a, const Cand& b) { std::array<long long, 4> x{{rank(a.d), a.i, a.s, a.n}}, y{{rank(b.d), b.i, b.s, b.n}}; return x < y ? -1 : y < x ? 1 : 0; }
static data_t dummy[8];
static candidate_time_series_t make(const Cand& k) { return candidate_time_series_t(TimeSeries(dummy, k.i, k.s, k.s + k.n), k.d); }
static std::string str(const Cand& k) { char b[100]; snprintf(b, 100, "(%.17g, series %d, start %d, length %d)", k.d, k.i, k.s, k.n); return b; }
static bool same(const candidate_time_series_t& m, const Cand& k) { return m.data.getIndex() == k.i && m.data.getStart() == k.s && m.data.getLength() == k.n && rank(m.dist) == rank(k.d); }
static const double U = 2.220446049250313e-16;
static std::vector<Cand> fine() { return grid({0, 1e-14, 0.3, 0.3 * (1 + U), 0.9, 1.1, 1.9, ref::Inf}, {0, 1}, {0, 1}, {2, 3}); }
static std::vector<Cand> wide() { return grid({0, 0.00001, 0.5, 0.99999, 1.00001, 2, 2.00001, 3.5, 7, 1000.5, 20000, ref::Inf}, {0, 1, 7, 100000}, {0, 3, 50000}, {2, 9}); }
int init = [] {
  K.property = "C23"; K.before = u::reset;
  K.rule = "every pair and every triple of candidates on a grid of distances (equal, equal up to rounding, closer than one, far, infinite), series, starts and lengths is compared and held against the lexicographic order; every ordering of every small set is sorted; every pair of group candidates";
  K.assumptions = {"distances are not NaN; two distances are either equal up to 1e-13 or at least 1e-5 apart"};
  K.add("all pairs on the wide grid", 1, [](mc::Ctx& c) {
    static const std::vector<Cand> G = wide(); const Cand& a = c.pick(G); candidate_time_series_t A = make(a); c.note("%s", str(a).c_str());
    for (auto& b : G) { candidate_time_series_t B = make(b); c.op(); c.checked(); bool l = A < B, want = cmp(a, b) < 0; if (l != want) c.fail("%s is %sbefore %s", str(a).c_str(), l ? "" : "not ", str(b).c_str()); mc::Hash h; h.d(a.d); h.d(b.d); h.u(a.i); h.u(b.i); h.u(a.s * 31 + b.s); h.u(a.n * 31 + b.n); c.observe(h); }
  });
  K.add("all triples on the fine grid: a strict order without ties between different candidates", 2, [](mc::Ctx& c) {
    static const std::vector<Cand> G = fine(); const Cand &a = c.pick(G), &b = c.pick(G); candidate_time_series_t A = make(a), B = make(b); c.note("%s %s", str(a).c_str(), str(b).c_str());
    bool ab = A < B, ba = B < A; if (ab && ba) c.fail("%s and %s are each before the other", str(a).c_str(), str(b).c_str()); if (ab != (cmp(a, b) < 0) || ba != (cmp(b, a) < 0)) c.fail("%s and %s: %d %d", str(a).c_str(), str(b).c_str(), ab, ba);
    for (auto& k : G) { candidate_time_series_t C = make(k); c.op(); c.checked(); if (ab && B < C && !(A < C)) c.fail("not transitive: %s %s %s", str(a).c_str(), str(b).c_str(), str(k).c_str()); if (!ab && !ba && ((A < C) != (B < C) || (C < A) != (C < B))) c.fail("equivalence not transitive"); mc::Hash h; h.u((&a - &G[0]) * 4096 + (&b - &G[0]) * 64 + (&k - &G[0])); c.observe(h); }
  });
  K.add("every arrangement of every set of candidates sorts to the one ranking", 4, [](mc::Ctx& c) {
    static const std::vector<Cand> G = grid({0.3, 0.9, 1.2, ref::Inf}, {0, 2}, {0, 1}, {2}); int n = c.thorough ? 5 : 4; std::vector<int> pick; for (int k = 0; k < n; k++) pick.push_back(c.choose((int)G.size()));
    std::vector<candidate_time_series_t> v; std::vector<Cand> w; for (int k : pick) { v.push_back(make(G[k])); w.push_back(G[k]); c.note("%s", str(G[k]).c_str()); } std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end(), [](const Cand& a, const Cand& b) { return cmp(a, b) < 0; }); c.op(); c.checked();
    mc::Hash h; for (int k = 0; k < n; k++) { if (!same(v[k], w[k])) c.fail("position %d of the ranking holds (%g, series %d, start %d, length %d), expected %s", k, (double)v[k].dist, v[k].data.getIndex(), v[k].data.getStart(), v[k].data.getLength(), str(w[k]).c_str()); h.d(w[k].d); h.u(w[k].i * 8 + w[k].s); } c.observe(h);
    candidate_time_series_t m = *std::min_element(v.rbegin(), v.rend()); if (!same(m, w[0])) c.fail("smallest candidate"); candidate_time_series_t x = v[0]; x = v[n - 1]; if (!same(x, w[n - 1])) c.fail("assigned candidate");
  });
  K.add("longer rankings from every rotation, reversal and stride", 2, [](mc::Ctx& c) {
    static const std::vector<Cand> G = wide(); int stride = c.pick(std::vector<int>{1, 5, 7, 11, 131}), rot = c.choose((int)G.size()); bool rev = c.flip(); size_t n = G.size(); std::vector<Cand> w; for (size_t k = 0; k < n; k++) w.push_back(G[(rot + k * stride) % n]); if (rev) std::reverse(w.begin(), w.end());
    std::vector<candidate_time_series_t> v; for (auto& k : w) v.push_back(make(k)); std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end(), [](const Cand& a, const Cand& b) { return cmp(a, b) < 0; }); c.op(); c.checked(); for (size_t k = 0; k < n; k++) if (!same(v[k], w[k])) c.fail("stride %d, from %d: position %zu of the ranking is %s in the reference, (%g, series %d, start %d, length %d) here", stride, rot, k, str(w[k]).c_str(), (double)v[k].dist, v[k].data.getIndex(), v[k].data.getStart(), v[k].data.getLength()); mc::Hash h; h.u(stride * 1000 + rot * 2 + rev); c.observe(h);
  });
  K.add("all pairs and triples of group candidates: distance alone", 2, [](mc::Ctx& c) {
    static const std::vector<double> D{0, 1e-9, 0.3, 0.3 * (1 + U), 0.9, 1.1, 1.9, 1e9, ref::Inf}; static const std::vector<std::array<int, 3>> P{{{2, 0, 1}}, {{3, 1, 9}}, {{2, 5, 1}}, {{9, 0, 70}}}; double a = c.pick(D), b = c.pick(D); c.note("%.17g %.17g", a, b); for (auto& p : P) for (auto& q : P) { group_index_t A(p[0], p[1], p[2], a), B(q[0], q[1], q[2], b); c.op(); c.checked(); if ((A < B) != (a < b)) c.fail("group at %.17g %s group at %.17g", a, A < B ? "before" : "not before", b); if (A.length != p[0] || A.index != p[1] || A.members != p[2] || A.dist != (data_t)a) c.fail("members of a group candidate"); mc::Hash h; h.d(a); h.d(b); h.u(p[0] * 100 + q[0] + p[1] * 10000 + q[1] * 100000); c.observe(h); }
  });
  K.add("positions of every magnitude: all pairs", 2, [](mc::Ctx& c) {
    static const std::vector<Cand> G = [] { std::vector<Cand> g; std::vector<int> L{0, 1, 2, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 1000000, 16777216, 16777217, 2000000000}; for (double d : {0.25, 1.25}) for (int i : L) for (int s : L) for (int n : {2, 3, 260}) if ((long long)s + n < 2147483647LL) g.push_back({d, i, s, n}); return g; }(); const Cand& a = c.pick(G); candidate_time_series_t A = make(a); int half = c.choose(2); c.note("%s", str(a).c_str()); mc::Hash h;
    for (size_t k = half; k < G.size(); k += 2) { candidate_time_series_t B = make(G[k]); c.op(); c.checked(); bool l = A < B, want = cmp(a, G[k]) < 0; if (l != want) c.fail("%s is %sbefore %s", str(a).c_str(), l ? "" : "not ", str(G[k]).c_str()); h.u(l); } h.u(&a - &G[0]); c.observe(h);
  });
  K.add("distances of every magnitude: all pairs, ties broken by position", 2, [](mc::Ctx& c) {
    static const std::vector<double> D = [] { std::vector<double> v{0, ref::Inf}; for (int e = -16; e <= 40; e++) for (double m : {1.0, 1.25, 1.5, 1.99}) v.push_back(std::ldexp(m, e)); return v; }(); double x = c.pick(D), y = c.pick(D); c.note("%.17g %.17g", x, y); for (int i : {0, 1}) for (int s : {0, 4}) for (int n : {2, 5}) { candidate_time_series_t A = make({x, 0, 4, 2}), B = make({y, i, s, n}); c.op(); c.checked(); std::array<double, 4> p{{x, 0, 4, 2}}, q{{y, (double)i, (double)s, (double)n}}; if ((A < B) != (p < q) || (B < A) != (q < p)) c.fail("(%.17g, 0, 4, 2) and (%.17g, %d, %d, %d): %d %d", x, y, i, s, n, A < B, B < A); } mc::Hash h; h.d(x); h.d(y); c.observe(h);
  });
  return 0;
}();
MC_MAIN(K)

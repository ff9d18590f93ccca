// C24 The bundled subsequence search finds the true nearest neighbour.
#include "onex_util.hpp"
#include "lib/trillionDTW.h"
#include <malloc.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static long blocks = 0; static void gained(const volatile void*, size_t) { blocks++; } static void lost(const volatile void* p) { if (p) blocks--; }
static const int hooked = __sanitizer_install_malloc_and_free_hooks(gained, lost);
using ref::Seq;
static mc::Check K;
static Seq znorm(const Seq& a) { double s = 0, q = 0; for (double x : a) s += x; s /= a.size(); for (double x : a) q += (x - s) * (x - s); q = std::sqrt(q / a.size()); Seq o; for (double x : a) o.push_back((x - s) / q); return o; }
static bool constant(const Seq& a) { for (double x : a) if (x != a[0]) return false; return true; }
static std::string text(const Seq& a, int perLine) { std::string o; char b[40]; for (size_t i = 0; i < a.size(); i++) { snprintf(b, 40, "%.17g", a[i]); o += b; o += (i + 1) % perLine ? ' ' : '\n'; } return o; }
struct Answer { long long loc = -1, scanned = -1; double dist = -1; bool parsed = false; std::string text; };
// runs the search; its report is read from whatever it writes to standard output
static Answer search(mc::Ctx& c, const std::string& data, const std::string& query, int m, int r) {
  static std::streambuf* own = new std::stringbuf; std::stringbuf sb; std::streambuf* old = std::cout.rdbuf(&sb); std::cout.precision(17); std::cout.clear(); (void)own;
  std::string of = c.file("report"); int save = dup(1), fd = open(of.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666); fflush(stdout); dup2(fd, 1); close(fd);
  calculate(data.c_str(), query.c_str(), m, r); c.op();
  fflush(stdout); std::cout.flush(); dup2(save, 1); close(save); std::cout.rdbuf(old);
  Answer a; a.text = sb.str() + "\n" + u::get(of); int got = 0; std::istringstream is(a.text); std::string l;
  while (std::getline(is, l)) { size_t k = l.find(':'); if (k == std::string::npos) continue; const char* v = l.c_str() + k + 1; if (l.compare(0, 8, "Location") == 0) { a.loc = atoll(v); got |= 1; } else if (l.compare(0, 8, "Distance") == 0) { a.dist = atof(v); got |= 2; } else if (l.compare(0, 12, "Data Scanned") == 0) { a.scanned = atoll(v); got |= 4; } }
  a.parsed = got == 7; return a;
}
static double at(const Seq& d, const Seq& zq, size_t p, int r) { Seq w(d.begin() + p, d.begin() + p + zq.size()); return std::sqrt(ref::dtwSq(znorm(w), zq, r)); }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-5 * std::max(1.0, std::fabs(b)); }
static void judge(mc::Ctx& c, const Seq& d, const Seq& q, int r, const Answer& a) {
  c.checked(); if (!a.parsed) c.fail("no location, distance and number of points in the report:\n%s", a.text.c_str());
  Seq zq = znorm(q); double best = ref::Inf; size_t n = d.size(), m = q.size(); for (size_t p = 0; p + m <= n; p++) best = std::min(best, at(d, zq, p, r));
  if (!near(a.dist, best)) c.fail("data %s, query %s, half-width %d: reported distance %.12g, the nearest window is at %.12g", ref::str(d).substr(0, 700).c_str(), ref::str(q).c_str(), r, a.dist, best);
  if (a.loc < 0 || a.loc + (long long)m > (long long)n) c.fail("location %lld of %zu points", a.loc, n);
  double there = at(d, zq, a.loc, r); if (!near(there, a.dist)) c.fail("data %s, query %s, half-width %d: distance %.12g reported at location %lld, where it is %.12g", ref::str(d).substr(0, 700).c_str(), ref::str(q).c_str(), r, a.dist, a.loc, there);
  if (a.scanned != (long long)n) c.fail("%lld points scanned of %zu", a.scanned, n);
  mc::Hash h; h.d(best); h.u(a.loc); h.u(n); c.observe(h);
}
static void run(mc::Ctx& c, const Seq& d, const Seq& q, int r, int perLine = 1000) {
  std::string p = c.file("data"), x = c.file("query"); u::put(p, text(d, perLine)); u::put(x, text(q, perLine == 1 ? 1000 : 1)); judge(c, d, q, r, search(c, p, x, (int)q.size(), r));
}
static double noise(long long i) { unsigned long long z = (unsigned long long)i * 0x9E3779B97F4A7C15ull + 77; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 32; return (double)(z % 2001) / 100 - 10; }
static Seq noises(long long from, int n) { Seq s; for (int i = 0; i < n; i++) s.push_back(noise(from + i)); return s; }
int init = [] {
  K.property = "C24"; K.before = [](mc::Ctx& c) { u::reset(c); };
  K.rule = "every data file and query in the bounds is searched and the report compared with a scan of all windows by the definition of the z-normalised banded warped distance; the bounds, envelopes and the abandoning distance are called directly for every pair of sequences, half-width and cutoff";
  K.assumptions = {"at least 2 points per query, no constant window or query", "reported to 1e-5"};
  K.add("all data files of 6..9 points over {0,1,3} and a family of queries of 6 points", 6, [](mc::Ctx& c) {
    int n = c.range(6, c.thorough ? 9 : 8); Seq d = u::chooseSeq(c, n, n >= 8 ? std::vector<double>{0, 2} : std::vector<double>{0, 1, 3}); for (int p = 0; p + 6 <= n; p++) if (constant(Seq(d.begin() + p, d.begin() + p + 6))) { c.observe(0); return; } c.note("data %s", ref::str(d).c_str());
    static const std::vector<Seq> Q{{0, 1, 3, 1, 0, 0}, {3, 0, 0, 0, 0, 3}, {0, 1, 0, 1, 0, 1}, {1, 2, 3, 4, 5, 6}, {5, 5, 5, 0, 5, 5}}; for (auto& q : Q) for (int r : {0, 1, 2, 5}) run(c, d, q, r, 1 + n % 3);
  });
  K.add("all queries of 6 points over {0,1,3} on fixed data, every half-width", 6, [](mc::Ctx& c) {
    Seq q = u::chooseSeq(c, 6, {0, 1, 3}); if (constant(q)) { c.observe(0); return; } c.note("query %s", ref::str(q).c_str()); static const std::vector<Seq> D{{0, 1, 3, 1, 0, 0, 5, 4, 1, 1, 0, 3, 3, 2}, {9, 1, 1, 1, 1, 1, 9, 2}, noises(0, 30)}; for (auto& d : D) for (int r = 0; r < 6; r++) run(c, d, q, r);
  });
  K.add("short queries: all queries of 2..5 points over {0,1,3}, every half-width up to beyond the length", 6, [](mc::Ctx& c) {
    int m = c.range(2, 5); Seq q = u::chooseSeq(c, m, m == 5 && !c.thorough ? std::vector<double>{0, 1, 3} : std::vector<double>{0, 1, 3}); if (constant(q)) { c.observe(0); return; } c.note("query %s", ref::str(q).c_str());
    static const std::vector<Seq> D{{0, 1, 3, 1, 0, 5, 2, 4, 1, 7, 0, 3, 2}, {9, 1, 2, 1, 2, 1, 9, 2}, noises(0, 30), noises(500, 12)}; for (auto& d : D) for (int r : {0, 1, 2, 3, 4, 5, 9, 60}) run(c, d, q, r);
  });
  K.add("short data: all files of 2..6 points over {0,1,3}, queries of 2..5 points", 6, [](mc::Ctx& c) {
    int n = c.range(2, c.thorough ? 7 : 6); Seq d = u::chooseSeq(c, n, {0, 1, 3}); int m = c.range(2, std::min(n, 5)); for (int p = 0; p + m <= n; p++) if (constant(Seq(d.begin() + p, d.begin() + p + m))) { c.observe(0); return; } c.note("data %s query length %d", ref::str(d).c_str(), m);
    static const std::vector<Seq> Q{{0, 1, 3, 1, 0}, {3, 0, 0, 0, 3}, {0, 2, 1, 4, 2}, {5, 4, 2, 1, 0}}; for (auto& q : Q) { Seq s(q.begin(), q.begin() + m); for (int r : {0, 1, m - 1, m, m + 20}) run(c, d, s, r, 1 + n % 3); }
  });
  K.add("half-widths of the query's length and beyond", 2, [](mc::Ctx& c) {
    int m = c.pick(std::vector<int>{6, 7, 9, 16, 40}), r = c.pick(std::vector<int>{0, 1, 2, 5, 100, 100000, 2000000}); r = r < 6 ? m - 1 + r : r; int n = m + c.pick(std::vector<int>{0, 1, 30}); c.note("query of %d, half-width %d, %d points", m, r, n); Seq q = noises(41 * m, m), d = noises(99 * m, n); int p = (n - m) / 2; for (int i = 0; i < m; i++) d[p + i] = q[(i + 1) % m] * 2; run(c, d, q, r, 5);
  });
  K.add("longer queries: every length, half-width and place of the planted match", 3, [](mc::Ctx& c) {
    int m = c.pick(std::vector<int>{7, 8, 11, 16, 25, 40}); int r = c.pick(std::vector<int>{0, 1, 2, 3, 6, -2, -1}); if (r < 0) r = m + r / 2 - (r == -2 ? 1 : 1); r = std::min(r, m - 1); if (r < 0) r = 0; int place = c.range(0, 12); int kind = c.choose(3); c.note("length %d half-width %d place %d kind %d", m, r, place, kind);
    int n = m + 24; Seq d = noises(kind * 1000, n), q = noises(5000 + m, m); for (int i = 0; i < m; i++) d[place * 2 + i] = q[i] * 3 + 100 + (kind == 0 ? 0 : (i % 5) * 0.3); if (kind == 2) for (auto& x : d) x += 1000; run(c, d, q, r, 7);
  });
  K.add("queries of every size of the ladder, several half-widths, in data of several sizes", 2, [](mc::Ctx& c) {
    int m = c.pick(ref::ladder(c.thorough ? 2100 : 520, 6)); int extra = c.pick(std::vector<int>{0, 1, 60}); int r = c.pick(std::vector<int>{0, 1, 4, 17}); r = std::min(r, m - 1); int scale = c.choose(3); double f = scale == 0 ? 1 : scale == 1 ? 1e-4 : 1e4; c.note("query of %d points, %d more in the data, half-width %d, factor %g", m, extra, r, f);
    Seq d = noises(m * 31, m + extra), q = noises(800000 + m, m); for (int i = 0; i < m; i++) { int p = extra / 2 + i; d[p] = (q[(i + (r ? 1 : 0)) % m] * 2 + 3 + (i % 7) * 0.2); } for (auto& x : d) x *= f; for (auto& x : q) x /= f; run(c, d, q, r, 1 + m % 11);
  });
  K.add("data of every size of the ladder, match first, last or in the middle", 2, [](mc::Ctx& c) {
    int n = c.pick(ref::ladder(c.thorough ? 40000 : 5100, 9)), m = c.pick(std::vector<int>{6, 9}), place = c.choose(3), r = c.choose(2) * 2, per = c.pick(std::vector<int>{1, 9, 1000000}); c.note("%d points, query of %d, place %d, half-width %d, %d to a line", n, m, place, r, per); Seq d = noises(n, n), q = noises(600000 + n, m); int p = place == 0 ? 0 : place == 1 ? n - m : (n - m) / 2; for (int i = 0; i < m; i++) d[p + i] = -q[i] + 0.01 * i; for (int i = 0; i < m; i++) q[i] = -q[i]; run(c, d, q, r, per);
  });
  K.add("data beyond one internal chunk: every place of the match around the boundary and every remainder", 2, [](mc::Ctx& c) {
    const long long E = 100000; int m = c.pick(std::vector<int>{8, 20}); int variant = c.choose(c.thorough ? 120 : 48); int rem, off; if (variant % 2 == 0) { rem = 3 * m; off = -m - 4 + (variant / 2) * (m + 8 + m) / (c.thorough ? 60 : 24); } else { rem = variant / 2 - 4; off = rem - m; } long long n = E + rem, p = E + off; if (p + m > n) p = n - m; int r = 2; c.note("%lld points, match at %lld, length %d", n, p, m);
    Seq q = noises(900000 + m, m), d = noises(0, (int)n); for (int i = 0; i < m; i++) d[p + i] = q[i] * 2 - 7; std::string x = c.file("data"), y = c.file("query"); u::put(x, text(d, 10)); u::put(y, text(q, 1)); Answer a = search(c, x, y, m, r); c.checked();
    if (!a.parsed) c.fail("no report"); if (a.loc != p || a.dist > 1e-4) c.fail("%lld points: the match at %lld was missed, answer %lld at %.9g", n, p, a.loc, a.dist); if (a.scanned != n) c.fail("%lld points scanned of %lld", a.scanned, n); mc::Hash h; h.u(n); h.u(p); h.u(m); c.observe(h);
  });
  K.add("two matches on both sides of the boundary, the better one first or second", 2, [](mc::Ctx& c) {
    const long long E = 100000; int m = 10; bool first = c.flip(); int gap = c.range(0, c.thorough ? 24 : 11); long long n = 2 * E + 500, p = E - 2 * m + gap, p2 = c.flip() ? p + m + 3 : 2 * E - m + gap; c.note("matches at %lld and %lld", p, p2); Seq q = noises(31, m), d = noises(7000000, (int)n); for (int i = 0; i < m; i++) { d[p + i] = q[i] * 2 + (first ? 0 : 0.05 * (i % 3)); d[p2 + i] = q[i] + (first ? 0.05 * (i % 3) : 0); }
    std::string x = c.file("data"), y = c.file("query"); u::put(x, text(d, 10)); u::put(y, text(q, 1)); Answer a = search(c, x, y, m, 1); c.checked(); long long want = first ? p : p2; if (!a.parsed || a.loc != want || a.dist > 1e-4) c.fail("exact match at %lld, answer %lld at %.9g", want, a.loc, a.dist); if (a.scanned != n) c.fail("%lld points scanned of %lld", a.scanned, n); mc::Hash h; h.u(p); h.u(p2); h.u(first); c.observe(h);
  });
  K.add("warped distance with cumulative bounds and cutoffs: all pairs of length 1..4 over {0,1,3}", 6, [](mc::Ctx& c) {
    int m = c.range(1, c.thorough ? 5 : 4); Seq a = u::chooseSeq(c, m, {0, 1, 3}), b = u::chooseSeq(c, m, {0, 1, 3}); c.note("%s %s", ref::str(a).c_str(), ref::str(b).c_str()); std::vector<data_t> A(a.begin(), a.end()), B(b.begin(), b.end());
    for (int r = 0; r < m; r++) { double d = ref::dtwSq(a, b, r); Seq up = ref::envelope(b, r, true), lo = ref::envelope(b, r, false); std::vector<data_t> zero(m, 0), cb(m + 1, 0); for (int i = m - 1; i >= 0; i--) { double e = a[i] > up[i] ? a[i] - up[i] : a[i] < lo[i] ? lo[i] - a[i] : 0; cb[i] = cb[i + 1] + e * e; }
      for (auto* k : {&zero, &cb}) for (double cut : {0.0, 0.5, d * 0.5, d * 0.99, d, d * 1.01, d + 1, 1e20}) { long had = blocks; double g = dtw(A.data(), B.data(), k->data(), m, r, cut); c.op(); c.checked(); if (blocks != had) c.fail("%s and %s, half-width %d, cutoff %g: the distance keeps %ld blocks of memory", ref::str(a).c_str(), ref::str(b).c_str(), r, cut, blocks - had); if (!(near(g, d) || (g >= cut * (1 - 1e-9) && d >= cut * (1 - 1e-9)))) c.fail("%s and %s, half-width %d, cutoff %g: %.12g, the distance is %.12g", ref::str(a).c_str(), ref::str(b).c_str(), r, cut, g, d); }
      mc::Hash h; h.d(d); h.u(r); h.u(m); c.observe(h); }
  });
  K.add("bounds and envelopes: all pairs of length 6 over {0,2} and disturbed longer ones, every half-width and rotation", 6, [](mc::Ctx& c) {
    int m; Seq a, b; if (c.flip()) { m = c.range(2, c.thorough ? 7 : 6); a = u::chooseSeq(c, m, {0, 2}); b = u::chooseSeq(c, m, {0, 2}); } else { m = c.range(6, 12); a = noises(m * 100, m); b = a; int p = c.choose(m), k = c.choose(4); for (int i = 0; i < m; i++) b[i] = k == 0 ? a[(i + 1) % m] : k == 1 ? a[i] * 0.9 : noise(i * 7 + k); b[p] += 6; c.choose(2); } if (constant(a) || constant(b)) { c.observe(0); return; } c.note("%s %s", ref::str(a).c_str(), ref::str(b).c_str());
    double mean = 0, sd = 0; for (double x : a) mean += x; mean /= m; for (double x : a) sd += (x - mean) * (x - mean); sd = std::sqrt(sd / m); Seq za = znorm(a), zb = znorm(b); std::vector<data_t> Z(za.begin(), za.end()), Q(zb.begin(), zb.end()), raw(a.begin(), a.end());
    for (int j = 0; j < m; j += (m > 7 ? 4 : 2)) { std::vector<data_t> t(2 * m); for (int i = 0; i < 2 * m; i++) t[i] = raw[(i - j + m) % m];
      for (int r = 0; r < m; r++) {
        double d = ref::dtwSq(za, zb, r); std::vector<data_t> lo(m), up(m), dl(m), du(m); long had = blocks; lower_upper_lemire(Q.data(), m, r, lo.data(), up.data()); if (blocks != had) c.fail("the envelope keeps %ld blocks of memory", blocks - had); lower_upper_lemire(raw.data(), m, r, dl.data(), du.data()); Seq el = ref::envelope(zb, r, false), eu = ref::envelope(zb, r, true), fl = ref::envelope(a, r, false), fu = ref::envelope(a, r, true); c.op(5); c.checked(5);
        for (int i = 0; i < m; i++) if (lo[i] != el[i] || up[i] != eu[i] || dl[i] != fl[i] || du[i] != fu[i]) c.fail("envelope of %s, half-width %d, at %d: %.9g..%.9g", ref::str(zb).c_str(), r, i, (double)lo[i], (double)up[i]);
        for (bool backwards : {false, true}) { std::vector<int> order(m); std::vector<data_t> uo(m), lo2(m), qo(m), cb(m, -1), cb2(m, -1); for (int i = 0; i < m; i++) { order[i] = backwards ? m - 1 - i : i; uo[i] = up[order[i]]; lo2[i] = lo[order[i]]; qo[i] = Q[order[i]]; }
          for (double cut : {1e20, d, d * 0.5}) { double k1 = lb_keogh_cumulative(order.data(), t.data(), uo.data(), lo2.data(), cb.data(), j, m, mean, sd, cut), k2 = lb_keogh_data_cumulative(order.data(), Z.data(), qo.data(), cb2.data(), dl.data(), du.data(), m, mean, sd, cut), k0 = lb_kim_hierarchy(t.data(), Q.data(), j, m, mean, sd, cut); static const char* N[] = {"first/last points", "query envelope", "data envelope"}; double v[] = {k0, k1, k2}; for (int i = 0; i < 3; i++) { if (!(v[i] <= d + 1e-7 * (1 + d)) || v[i] < 0) c.fail("bound by %s of %s and %s, half-width %d, cutoff %g, is %.12g, the warped distance is %.12g", N[i], ref::str(a).c_str(), ref::str(b).c_str(), r, cut, v[i], d); }
            if (cut == 1e20) { double s1 = 0, s2 = 0, w1 = 0, w2 = 0; for (int i = 0; i < m; i++) { s1 += cb[i]; s2 += cb2[i]; double e = za[i] > eu[i] ? za[i] - eu[i] : za[i] < el[i] ? el[i] - za[i] : 0; w1 += e * e; double hi = (fu[i] - mean) / sd, l = (fl[i] - mean) / sd; e = zb[i] > hi ? zb[i] - hi : zb[i] < l ? l - zb[i] : 0; w2 += e * e; } if (!near(s1, k1) || !near(s2, k2) || !near(k1, w1) || !near(k2, w2)) c.fail("contributions do not add up to the bound: %g %g, %g %g, by definition %g %g", s1, k1, s2, k2, w1, w2); } } }
        mc::Hash h; h.d(d); h.u(r); h.u(j); c.observe(h);
      } }
  });
  K.add("repeated searches keep no memory", 1, [](mc::Ctx& c) {
    int m = c.range(6, 9), times = c.range(2, 5); Seq d = noises(3, 40), q = noises(77, m); for (int k = 0; k < 3; k++) run(c, d, q, 1); size_t before = __sanitizer_get_current_allocated_bytes(); for (int k = 0; k < times; k++) run(c, d, q, k % 3); size_t after = __sanitizer_get_current_allocated_bytes(); c.note("%d searches", times); if (after > before + 200 * times) c.fail("%zu bytes kept after %d searches", after - before, times); c.observe(m * 10 + times);
  });
  K.add("a spike at every place of queries up to 70 points, displaced in the data, after worse windows", 2, [](mc::Ctx& c) {
    int m = c.pick(c.thorough ? ref::ladder(300, 6) : std::vector<int>{6, 9, 16, 31, 32, 33, 34, 40, 41, 48, 63, 64, 65, 66, 70}), r = c.pick(std::vector<int>{1, 3, 6}); r = std::min(r, m - 1); int step = c.thorough || m < 20 ? 1 : m < 45 ? 2 : 3, s = std::min(m - 1, c.choose((m + step - 1) / step) * step); int kind = c.choose(2); c.note("%d points, half-width %d, spike at %d", m, r, s);
    for (int dir : {-1, 1}) for (int k : {1, r}) { int to = s + dir * k; if (to < 0 || to >= m) continue; Seq q(m), d; for (int i = 0; i < m; i++) q[i] = kind ? i % 3 : 0.3 * noise(i); q[s] = 50; Seq g = q; g[s] = q[to]; g[to] = 50; if (kind) for (int i = 0; i < m; i++) d.push_back(i * i % 17); else for (int i = 0; i < m; i++) d.push_back(noise(i + 5000)); for (double x : g) d.push_back(x * 2 + 1); for (int i = 0; i < 9; i++) d.push_back(noise(i + 90)); run(c, d, q, r, 9); }
  });
  return 0;
}();
MC_MAIN(K)

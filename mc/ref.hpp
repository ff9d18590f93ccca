// Reference model: plain, slow, obviously right.  Independent of the code under test.
#ifndef MC_REF_HPP
#define MC_REF_HPP
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace ref {
typedef std::vector<double> Seq;
// magnitudes of the data, powers of two so that scaled integers stay exact
inline const std::vector<double>& scales() { static const std::vector<double> v{std::ldexp(1, -465), std::ldexp(1, -332), std::ldexp(1, -43), std::ldexp(1, -30), std::ldexp(1, 30), std::ldexp(1, 332), std::ldexp(1, 490)}; return v; }
// sizes up to a limit: every small one, then both sides of every round binary and decimal number
inline std::vector<int> ladder(int limit, int from = 1) {
  std::set<int> s; for (int i = 1; i <= 40; i++) s.insert(i);
  for (int p = 64; p > 0 && p <= limit; p *= 2) for (int d = -1; d <= 1; d++) s.insert(p + d);
  for (int p = 100; p <= limit; p *= 10) for (int k : {1, 2, 5}) if (p * k <= limit) { s.insert(p * k); s.insert(p * k + 1); }
  for (int i : {48, 50, 72, 80, 81, 96, 150, 300, 1500, 3000}) s.insert(i);
  std::vector<int> v; for (int i : s) if (i >= from && i <= limit) v.push_back(i); return v;
}
typedef std::pair<int, int> Coord;                       // (series, start)
const double Inf = std::numeric_limits<double>::infinity();

struct Tab {
  int r = 0, c = 0; std::vector<double> v;
  Tab() {}
  Tab(int r, int c, double x = 0) : r(r), c(c), v((size_t)r * c, x) {}
  double& at(int i, int j) { return v[(size_t)i * c + j]; }
  double at(int i, int j) const { return v[(size_t)i * c + j]; }
  Seq sub(int i, int s, int e) const { return Seq(v.begin() + (size_t)i * c + s, v.begin() + (size_t)i * c + e); }
  Seq row(int i) const { return sub(i, 0, c); }
  bool operator==(const Tab& o) const { return r == o.r && c == o.c && v == o.v; }
};

inline std::string str(const Seq& s) { std::string o = "["; char b[40]; for (size_t i = 0; i < s.size(); i++) { snprintf(b, 40, "%s%.17g", i ? " " : "", s[i]); o += b; } return o + "]"; }
inline std::string str(const Tab& t) { std::string o; for (int i = 0; i < t.r; i++) o += str(t.row(i)) + (i + 1 < t.r ? " " : ""); return o; }
inline std::string text(const Tab& t, const char* sep = " ") {
  std::string o; char b[40];
  for (int i = 0; i < t.r; i++) { for (int j = 0; j < t.c; j++) { snprintf(b, 40, "%.17g", t.at(i, j)); if (j) o += sep; o += b; } o += "\n"; }
  return o;
}

inline Tab normalize(const Tab& t, double& mn, double& mx) {
  mn = Inf; mx = -Inf;
  for (double x : t.v) { mn = std::min(mn, x); mx = std::max(mx, x); }
  Tab o = t; for (double& x : o.v) x = mx == mn ? 0.0 : (x - mn) / (mx - mn);
  return o;
}
inline Tab paa(const Tab& t, int n) {
  int L = (int)(((long long)t.c + n - 1) / n); Tab o(t.r, L);
  for (int i = 0; i < t.r; i++) for (int b = 0; b < L; b++) {
    double s = 0; int k = 0; for (long long j = (long long)b * n; j < std::min<long long>((long long)(b + 1) * n, t.c); j++) { s += t.at(i, (int)j); k++; }
    o.at(i, b) = s / k;
  }
  return o;
}
inline double& tolerance() { static double t = 1e-9; return t; }     // relative; the single-precision drivers widen it
inline double& unit() { static double u = 1; return u; }                  // magnitude below which differences are relative to this, not to the values
inline bool close(double a, double b, double tol = tolerance()) {
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b) || std::isnan(a) || std::isnan(b)) return false;
  return std::fabs(a - b) <= tol * std::max(unit(), std::max(std::fabs(a), std::fabs(b)));
}
inline double ed(const Seq& a, const Seq& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s / a.size()); }
inline int band(int len, double ratio) { double w = std::floor(len * ratio); return w > len - 1 ? len - 1 : (int)w; }
// squared cost of the cheapest warping path within the band, by dynamic programming
inline double dtwSq(const Seq& a, const Seq& b, int w) {
  int m = a.size(), n = b.size(); std::vector<double> D((size_t)m * n, Inf);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    if (std::abs(i - j) > w) continue;
    double best = (i == 0 && j == 0) ? 0 : Inf;
    if (i > 0) best = std::min(best, D[(size_t)(i - 1) * n + j]);
    if (j > 0) best = std::min(best, D[(size_t)i * n + j - 1]);
    if (i > 0 && j > 0) best = std::min(best, D[(size_t)(i - 1) * n + j - 1]);
    D[(size_t)i * n + j] = best + (a[i] - b[j]) * (a[i] - b[j]);
  }
  return D[(size_t)m * n - 1];
}
inline double dtw(const Seq& a, const Seq& b, double ratio) {
  int L = std::max(a.size(), b.size()); return std::sqrt(dtwSq(a, b, band(L, ratio))) / (2 * L);
}
// the same by enumerating every warping path explicitly (definition, not algorithm)
inline void paths(const Seq& a, const Seq& b, int w, int i, int j, double cost, double& best, unsigned long long& count) {
  if (std::abs(i - j) > w) return;
  cost += (a[i] - b[j]) * (a[i] - b[j]);
  int m = a.size(), n = b.size();
  if (i == m - 1 && j == n - 1) { count++; best = std::min(best, cost); return; }
  if (i + 1 < m) paths(a, b, w, i + 1, j, cost, best, count);
  if (j + 1 < n) paths(a, b, w, i, j + 1, cost, best, count);
  if (i + 1 < m && j + 1 < n) paths(a, b, w, i + 1, j + 1, cost, best, count);
}
inline double dtwByPaths(const Seq& a, const Seq& b, double ratio, unsigned long long& count) {
  int L = std::max(a.size(), b.size()); double best = Inf; paths(a, b, band(L, ratio), 0, 0, 0, best, count); return std::sqrt(best) / (2 * L);
}
inline Seq envelope(const Seq& a, int w, bool upper) {
  Seq o(a.size());
  for (int i = 0; i < (int)a.size(); i++) { double x = a[i]; for (int j = 0; j < (int)a.size(); j++) if (std::abs(i - j) <= w) x = upper ? std::max(x, a[j]) : std::min(x, a[j]); o[i] = x; }
  return o;
}

struct Group { Seq rep; std::vector<Coord> members; };
typedef std::map<int, std::vector<Group>> Groups;         // by length
inline int total(const Groups& g) { int n = 0; for (auto& k : g) n += (int)k.second.size(); return n; }

// the documented processing: by start, then series; join the nearest representative within ST/2 or found a group
inline Groups group(const Tab& t, double st, bool warped, double ratio) {
  Groups all;
  for (int len = 2; len <= t.c; len++) {
    std::vector<Group>& G = all[len];
    for (int s = 0; s + len <= t.c; s++) for (int i = 0; i < t.r; i++) {
      Seq q = t.sub(i, s, s + len); double best = Inf; int bi = -1;
      for (size_t g = 0; g < G.size(); g++) { double d = warped ? dtw(G[g].rep, q, ratio) : ed(G[g].rep, q); if (d < best) { best = d; bi = (int)g; } }
      if (bi < 0 || best > st / 2) { bi = (int)G.size(); G.push_back(Group{q, {}}); }
      G[bi].members.push_back(Coord(i, s));
    }
  }
  return all;
}

// ---- independent reader of group files (format of src/README.md) ----
struct GroupFile {
  int version = 0, items = 0, length = 0, from = 0, to = 0; double st = 0; std::string distance; Groups groups;
  std::map<int, std::vector<int>> sizes;      // size-only variant
  std::string error;
};
inline bool isInt(const std::string& s, long long& v) { if (s.empty()) return false; char* e; errno = 0; v = strtoll(s.c_str(), &e, 10); return *e == 0 && errno == 0; }
inline bool isNum(const std::string& s, double& v) { if (s.empty()) return false; char* e; v = strtod(s.c_str(), &e); return *e == 0; }
// Returns true when the text is a complete group file for a dataset of the given dimensions describing a
// partition of all subsequences of each length 2..length; fills o.error otherwise.
inline bool parseGroupFile(const std::string& textIn, GroupFile& o, bool sizesOnly = false) {
  std::istringstream is(textIn); std::string w; long long x; double d;
  auto err = [&](const std::string& m) { o.error = m; return false; };
  auto I = [&](int& v) { if (!(is >> w) || !isInt(w, x) || x < -2000000000LL || x > 2000000000LL) return false; v = (int)x; return true; };
  auto N = [&](double& v) { if (!(is >> w) || !isNum(w, d)) return false; v = d; return true; };
  if (!I(o.version) || !N(o.st) || !I(o.items) || !I(o.length)) return err("header");
  if (!I(o.from) || !I(o.to) || !(is >> o.distance)) return err("range or distance");
  if (o.from != 2) return err("range does not start at 2");
  if (o.to != o.length + 1 && o.to != o.length) return err("range does not end at the series length");
  if (o.distance != "euclidean" && o.distance != "euclidean_dtw") return err("unknown distance");
  if (o.items < 0 || o.length < 0) return err("dimensions");
  for (int len = 2; len <= o.length; len++) {
    int ng; if (!I(ng) || ng < 0) return err("number of groups of length " + std::to_string(len));
    std::set<Coord> seen; size_t expect = (size_t)o.items * (o.length - len + 1);
    if ((size_t)ng > expect) return err("more groups than subsequences of length " + std::to_string(len));
    std::vector<Group>& G = o.groups[len];
    if (sizesOnly) {
      size_t sum = 0;
      for (int g = 0; g < ng; g++) { int n; if (!I(n) || n <= 0) return err("group size"); o.sizes[len].push_back(n); sum += n; }
      if (sum != expect) return err("group sizes of length " + std::to_string(len) + " do not add up");
      continue;
    }
    for (int g = 0; g < ng; g++) {
      Group gr; for (int k = 0; k < len; k++) { double v; if (!N(v)) return err("representative"); gr.rep.push_back(v); }
      int n; if (!I(n) || n <= 0) return err("member count");
      for (int k = 0; k < n; k++) {
        int i, s; if (!I(i) || !I(s)) return err("member of a group of length " + std::to_string(len));
        if (i < 0 || i >= o.items || s < 0 || s + len > o.length) return err("member outside the dataset");
        if (!seen.insert(Coord(i, s)).second) return err("member listed twice");
        gr.members.push_back(Coord(i, s));
      }
      G.push_back(gr);
    }
    if (seen.size() != expect) return err("not every subsequence of length " + std::to_string(len) + " is in a group");
  }
  return true;
}
// canonical description of a grouping: order of groups kept, order of members dropped
inline std::string canon(const Groups& g) {
  std::string o; char b[64];
  for (auto& k : g) { snprintf(b, 64, "L%d:", k.first); o += b;
    for (auto& gr : k.second) { o += "{"; for (double x : gr.rep) { snprintf(b, 64, "%.17g ", x); o += b; } o += "|"; auto m = gr.members; std::sort(m.begin(), m.end()); for (auto& c : m) { snprintf(b, 64, "%d,%d ", c.first, c.second); o += b; } o += "}"; } }
  return o;
}
// smallest distance over everything a query may match, and whether anything is admissible
inline bool admissible(int qlen, int len, double ratio) { return std::abs(qlen - len) <= band(std::max(qlen, len), ratio); }
}
#endif

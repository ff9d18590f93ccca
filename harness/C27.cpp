// C27 The group file describes the groups as documented.
#include "group_check.hpp"
using namespace u;
static mc::Check K;
static const std::vector<double> ST{0, 0.5, 1, 2.5, 1e9};
static const std::vector<const char*> DIST{"euclidean", "euclidean_dtw"};
// what the objects themselves say about one length
static ref::Groups objects(mc::Ctx& c, const LocalLengthGroupSpace& L, int len) {
  ref::Groups g; auto& v = g[len];
  for (int i = 0; i < L.getNumberOfGroups(); i++) { const Group* G = L.getGroup(i); ref::Group r; r.rep = values(G->getCentroid()); for (auto& m : G->getMembers()) { if (m.getLength() != len || m.getEnd() != m.getStart() + len) c.fail("member of length %d in a group of length %d", m.getLength(), len); r.members.push_back(ref::Coord(m.getIndex(), m.getStart())); } if (G->getCount() != (int)r.members.size()) c.fail("group counts %d members and lists %zu", G->getCount(), r.members.size()); if (G->getMemberLength() != len) c.fail("member length"); v.push_back(r); }
  for (int i : {-1, L.getNumberOfGroups(), 1 << 30}) if (!refused([&] { L.getGroup(i); })) c.fail("group %d of %d was given", i, L.getNumberOfGroups());
  return g;
}
static std::vector<std::string> tokens(const std::string& s) { std::istringstream is(s); std::vector<std::string> v; std::string w; while (is >> w) v.push_back(w); return v; }
// both variants of a set's file against the groups expected (reps, members in any order, order of groups)
static void files(mc::Ctx& c, const Tab& t, double st, const char* dist, const ref::Groups& want, const std::function<void(const std::string&, bool)>& save) {
  std::string p = c.file("full.txt"), q = c.file("size.txt"); save(p, false); save(q, true); c.op(2); std::string F = get(p), S = get(q); ref::GroupFile g = parseOrFail(c, F, t.r, t.c), z;
  if (!ref::parseGroupFile(S, z, true)) c.fail("size-only file: %s\n%s", z.error.c_str(), S.c_str());
  for (auto* f : {&g, &z}) { if (f->version != 1) c.fail("version %d", f->version); if (f->st != st) c.fail("threshold %.17g, should be %.17g", f->st, st); if (f->distance != dist) c.fail("distance '%s'", f->distance.c_str()); if (f->items != t.r || f->length != t.c) c.fail("dimensions %dx%d, should be %dx%d", f->items, f->length, t.r, t.c); }
  if (g.from != z.from || g.to != z.to) c.fail("ranges differ between the variants");
  if (ref::canon(g.groups) != ref::canon(want)) c.fail("the file describes\n  %s\nthe groups are\n  %s", ref::canon(g.groups).substr(0, 1500).c_str(), ref::canon(want).substr(0, 1500).c_str());
  std::istringstream a(F), b(S); std::string la, lb; for (int k = 0; k < 3; k++) { std::getline(a, la); std::getline(b, lb); if (la != lb) c.fail("header line %d differs: '%s' and '%s'", k, la.c_str(), lb.c_str()); size_t n = tokens(la).size(); if (n != (k == 0 ? 4u : k == 1 ? 2u : 1u)) c.fail("header line %d is '%s'", k, la.c_str()); }
  // lines: one per number of groups, two per group; in the size-only file one per number and one with the sizes
  for (int len = 2; len <= t.c; len++) {
    const auto& G = want.at(len); std::getline(a, la); std::getline(b, lb); auto ta = tokens(la), tb = tokens(lb); if (ta.size() != 1 || ta[0] != std::to_string(G.size()) || tb != ta) c.fail("length %d: number of groups is '%s' and '%s', should be %zu", len, la.c_str(), lb.c_str(), G.size());
    for (auto& x : G) { std::getline(a, la); if (tokens(la).size() != (size_t)len) c.fail("length %d: representative line '%s'", len, la.c_str()); std::getline(a, la); ta = tokens(la); if (ta.size() != 1 + 2 * x.members.size() || ta[0] != std::to_string(x.members.size())) c.fail("length %d: member line '%s'", len, la.c_str()); }
    std::getline(b, lb); tb = tokens(lb); if (tb.size() != G.size()) c.fail("length %d: sizes '%s'", len, lb.c_str()); for (size_t i = 0; i < G.size(); i++) if (tb[i] != std::to_string(G[i].members.size())) c.fail("length %d: sizes '%s', group %zu has %zu members", len, lb.c_str(), i, G[i].members.size());
  }
  std::string rest, r2; while (std::getline(a, la)) rest += la; while (std::getline(b, lb)) r2 += lb; if (!tokens(rest).empty() || !tokens(r2).empty()) c.fail("text after the groups: '%s' '%s'", rest.c_str(), r2.c_str());
  c.checked(); c.observe(hashOf(F));
}
static ref::Groups built(const TimeSeriesSet&, mc::Ctx& c, const TimeSeriesSet& set, const char* dist, double st) {
  ref::Groups all; for (int len = 2; len <= set.getItemLength(); len++) { LocalLengthGroupSpace L(set, len); int n = L.generateGroups(getDistance(dist), st); if (n != L.getNumberOfGroups()) c.fail("number of groups"); ref::Groups o = objects(c, L, len); all[len] = o[len]; } return all;
}
int init = [] {
  K.property = "C27"; K.before = u::reset;
  K.rule = "every listed dataset, threshold and distance: the groups are built as objects, their centroids and members are read through the public accessors, and both file variants are read by an independent reader, token by token and line by line, and compared with them";
  K.assumptions = {"finite values", "the order of the members of a group is free; the second number of the range line may be the series length or one more"};
  K.add("all tables up to 6 cells over {0,1,3}, all thresholds and distances", 4, [](mc::Ctx& c) {
    int cells = c.thorough ? 8 : 6; int r = c.range(1, cells), n = c.range(1, cells / r); Tab t = chooseTab(c, r, n, {0, 1, 3}); c.note("table %s", ref::str(t).c_str()); setWarpingBandRatio(0.34); GroupableTimeSeriesSet s; load(c, s, t);
    for (double st : ST) for (auto d : DIST) { int k = s.groupAllLengths(d, st); ref::Groups want = built(s, c, s, d, st); if (ref::total(want) != k) c.fail("%d groups reported, %d objects", k, ref::total(want)); files(c, t, st, d, want, [&](const std::string& p, bool z) { s.saveGroups(p, z); }); }
  });
  K.add("values and thresholds of many digits, signs and magnitudes", 3, [](mc::Ctx& c) {
    static const std::vector<double> V{0.1, 1.0 / 3, -1e-300, 7e-320, 1e300, 123456789.123456789, -5, 0, 6.02e23}; int n = c.range(2, c.thorough ? 4 : 3); Tab t = chooseTab(c, 1, n, V); c.note("table %s", ref::str(t).c_str()); GroupableTimeSeriesSet s; load(c, s, t); t = values(s);
    bool big = false; for (double x : t.v) big |= std::fabs(x) > 1e100; for (double st : {0.1, 2.0 / 3, 1e-9, 4.35e10}) { s.groupAllLengths("euclidean", st); files(c, t, st, "euclidean", built(s, c, s, "euclidean", st), [&](const std::string& p, bool z) { s.saveGroups(p, z); }); } (void)big;
  });
  K.add("larger shapes", 2, [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> S{{1, 1}, {4, 1}, {1, 2}, {1, 40}, {3, 20}, {10, 10}, {40, 4}, {120, 2}, {20, 6}}; auto rc = c.pick(S); int kind = c.choose(3); double st = c.pick(std::vector<double>{0, 0.5, 3}); auto d = c.pick(DIST); Tab t(rc.first, rc.second); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = kind == 0 ? std::sin(i * 0.7) : kind == 1 ? (double)(i % 3) : (i * 11 % 7) / 3.0; c.note("%dx%d kind %d threshold %g %s", t.r, t.c, kind, st, d); GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths(d, st); files(c, t, st, d, built(s, c, s, d, st), [&](const std::string& p, bool z) { s.saveGroups(p, z); });
  });
  K.add("groups that were loaded from a file, of the own or another making", 3, [](mc::Ctx& c) {
    // every way to put the subsequences of a 1x4 or 2x3 dataset into groups by position, with representatives that are members or not
    int shape = c.choose(2); Tab t = shape ? Tab(2, 3) : Tab(1, 4); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (double)((i * 3 + 1) % 5); GroupableTimeSeriesSet s; load(c, s, t); ref::Groups g;
    for (int len = 2; len <= t.c; len++) { auto& G = g[len]; std::vector<ref::Coord> all; for (int i = 0; i < t.r; i++) for (int p = 0; p + len <= t.c; p++) all.push_back(ref::Coord(i, p)); for (auto& co : all) { int k = c.choose((int)G.size() + 1); if (k == (int)G.size()) G.push_back(ref::Group{}); G[k].members.push_back(co); } for (auto& x : G) { auto m = x.members[0]; x.rep = t.sub(m.first, m.second, m.second + len); } }
    bool foreign = c.flip(); if (foreign) for (auto& k : g) for (auto& x : k.second) x.rep[0] += 1.0 / 3; auto d = c.pick(DIST);
    std::string f = "1 0.75 " + std::to_string(t.r) + " " + std::to_string(t.c) + "\n2 " + std::to_string(t.c + 1) + "\n" + d + "\n"; char b[40]; int total = 0; for (auto& k : g) { f += std::to_string(k.second.size()) + "\n"; for (auto& x : k.second) { total++; for (double v : x.rep) { snprintf(b, 40, "%.17g ", v); f += b; } f += "\n" + std::to_string(x.members.size()) + " "; for (auto& m : x.members) f += std::to_string(m.first) + " " + std::to_string(m.second) + " "; f += "\n"; } }
    std::string p = c.file("in.txt"); put(p, f); int n = -1; try { n = s.loadGroups(p); } catch (const OnexException& e) { c.fail("groups refused: %s\n%s", e.what(), f.c_str()); } if (n != total) c.fail("%d groups loaded, the file has %d", n, total); c.note("%s", f.c_str()); files(c, t, 0.75, d, g, [&](const std::string& q, bool z) { s.saveGroups(q, z); });
    { std::ifstream in(p); for (int k = 0; k < 7; k++) { std::string w; in >> w; } for (int len = 2; len <= t.c; len++) { LocalLengthGroupSpace L(s, len); L.loadGroups(in); ref::Groups o = objects(c, L, len), w; w[len] = g[len]; if (ref::canon(o) != ref::canon(w)) c.fail("length %d: objects\n %s\nfile\n %s", len, ref::canon(o).c_str(), ref::canon(w).c_str()); } }
  });
  K.add("sessions: group, regroup, save in any order, files replaced by shorter ones", 3, [](mc::Ctx& c) {
    Tab t(2, 4); for (int i = 0; i < 8; i++) t.v[i] = (i * 5 % 7) / 3.0; OnexAPI a; GroupableTimeSeriesSet s; load(c, s, t); for (int i = 0; i < 2; i++) a.loadDataset(tabFile(c, t), 0, 0, " "); std::map<int, std::pair<double, const char*>> held; std::string P = c.file("out"); put(P, std::string(9000, '7') + "\n");
    for (int k = 0; k < (c.thorough ? 5 : 4); k++) {
      int op = c.choose(10), i = op & 1; if (op < 6) { double st = op < 2 ? 0.3 : op < 4 ? 1.5 : 2.5; const char* d = DIST[0]; c.note("group %d with %g", i, st); a.groupDataset(i, st); held[i] = {st, d}; c.op(); continue; }
      bool z = op >= 8; c.note("save %d%s", i, z ? ", sizes" : ""); bool r = refused([&] { a.saveGroup(i, P, z); }); c.op(); if (r == (held.count(i) > 0)) c.fail("saving %d was %s", i, r ? "refused" : "accepted"); if (r) continue;
      ref::Groups want = built(s, c, s, held[i].second, held[i].first); files(c, t, held[i].first, held[i].second, want, [&](const std::string& q, bool y) { a.saveGroup(i, P, y); std::string x = get(P); put(q, x); });
    }
  });
  K.add("sizes of the ladder", 2, [](mc::Ctx& c) {
    bool tall = c.flip(); int k = c.pick(ladder(c.thorough ? (tall ? 2100 : 72) : tall ? 520 : 44, 2)); int r = tall ? k : c.range(1, 2), n = tall ? c.range(2, 3) : k, kind = c.choose(2); double st = c.pick(std::vector<double>{0, 2, 1e6}); Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = kind ? (double)(i * i * 31 % 1009) / 3 : (double)(i % 5); c.note("%dx%d kind %d threshold %g", r, n, kind, st); GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", st); files(c, t, st, "euclidean", built(s, c, s, "euclidean", st), [&](const std::string& p, bool z) { s.saveGroups(p, z); });
  });
  K.add("long series: representatives of every length of the ladder, few groups and many", 2, [](mc::Ctx& c) {
    int n = c.pick(ladder(c.thorough ? 300 : 161, 41)), kind = c.choose(3); double st = c.pick(std::vector<double>{0, 5}); if (n > 200 && st == 0) return; Tab t(1, n); for (int i = 0; i < n; i++) t.v[i] = kind == 0 ? i : kind == 1 ? (double)(i * i * 31 % 1009) / 3 : (double)(i % 5); c.note("1x%d kind %d threshold %g", n, kind, st); GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", st); files(c, t, st, "euclidean", built(s, c, s, "euclidean", st), [&](const std::string& p, bool z) { s.saveGroups(p, z); });
  });
  return 0;
}();
MC_MAIN(K)

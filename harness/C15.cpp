// C15 A refused operation changes nothing.
#include "session.hpp"
using namespace u;
static mc::Check K;
static Tab tabA() { Tab t(2, 4); t.v = {0, 1, 3, 1, 2, 2, 0, 3}; return t; }
static Tab tabB() { Tab t(1, 5); t.v = {5, 1, 4, 1, 2.5}; return t; }
static Tab tabC() { Tab t(3, 1); t.v = {7, 8, 9}; return t; }
struct Files { std::string good[2], ragged, text, big, empty, short1, trunc, sizes, version, dist, dim, late, trail, member; };
// files used by the operations; the group files describe tabA grouped with 0.8 and 2
static const Files& files(mc::Ctx& c) {
  static Files f; static bool made = false; if (made) return f; made = true;
  std::string d = c.dir; GroupableTimeSeriesSet s; load(c, s, tabA());
  auto keep = [&](const char* n, const std::string& x) { std::string p = d + "/" + n; put(p, x); return p; };
  for (int k = 0; k < 2; k++) { s.groupAllLengths("euclidean", k ? 2 : 0.8); s.saveGroups(d + "/t", false); f.good[k] = keep(k ? "good1" : "good0", get(d + "/t")); }
  std::string g = get(f.good[0]);
  f.ragged = keep("ragged", "1 2 3\n4 5 6\n7 8\n"); f.text = keep("text", "1 2\n3 4\n5 x\n"); f.big = keep("big", "1 2\n1e999 4\n"); f.empty = keep("empty", ""); f.short1 = keep("short", "1\n2\n");
  f.trunc = keep("trunc", g.substr(0, g.size() - 12)); f.version = keep("version", "2" + g.substr(1)); f.trail = keep("trail", g + "\n0\n");
  s.saveGroups(d + "/t", true); f.sizes = keep("sizes", get(d + "/t"));
  std::string h = g; size_t p = h.find("euclidean"); h.replace(p, 9, "cityblock"); f.dist = keep("dist", h);
  h = g; p = h.find("2 4\n"); h.replace(p, 4, "2 3\n"); f.dim = keep("dim", h);
  h = g; p = h.rfind("1 0 "); if (p != std::string::npos) h.replace(p, 3, "1 9"); f.late = keep("late", h);
  h = g; p = h.rfind("1 0 "); if (p != std::string::npos) h.replace(p, 3, "0 0"); f.member = keep("member", h);
  return f;
}
static const int GOOD = 14;
static void good(mc::Ctx& c, OnexAPI& a, int k) {
  const Files& f = files(c); c.op();
  try {
    switch (k) {
    case 0: a.loadDataset(tabFile(c, tabA()), 0, 0, " "); break; case 1: a.loadDataset(tabFile(c, tabB()), 0, 0, " "); break; case 2: a.groupDataset(0, 0.8); break; case 3: a.groupDataset(1, 2); break;
    case 4: a.normalizeDataset(0); break; case 5: a.PAA(0, 2); break; case 6: a.loadGroup(0, f.good[1]); break; case 7: a.unloadDataset(0); break; case 8: a.setWarpingBandRatio(0.5); break; case 9: a.groupDataset(0, 0); break;
    case 10: a.unloadAllDataset(); break; case 11: a.unloadDataset(1); break; case 12: a.PAA(1, 3); break; default: a.loadDataset(tabFile(c, tabC()), 0, 0, " ");
    }
  } catch (const OnexException&) {}
}
static const char* GN[GOOD] = {"load A", "load B", "group 0 by 0.8", "group 1 by 2", "normalise 0", "average 0 by 2", "load groups of 0", "unload 0", "band ratio 0.5", "group 0 by 0", "unload all", "unload 1", "average 1 by 3", "load C"};
// Operations that may be refused; must(i) tells when the state leaves no other answer
static const int BAD = 76;
static bool bad(mc::Ctx& c, OnexAPI& a, int k, bool& must) {
  const Files& f = files(c); must = true; c.op(); const double NaN = std::nan("");
  vector<dataset_info_t> l = a.getAllDatasetInfo(); auto has = [&](int i) { for (auto& x : l) if (x.id == i) return true; return false; };
  auto info = [&](int i) { for (auto& x : l) if (x.id == i) return x; return dataset_info_t(); };
  std::string dir = c.dir, nodir = c.dir + "/none/x";
  return refused([&] {
    switch (k) {
    case 0: a.loadDataset(dir + "/missing", 0, 0, " "); break; case 1: a.loadDataset(f.ragged, 0, 0, " "); break; case 2: a.loadDataset(f.text, 0, 0, " "); break; case 3: a.loadDataset(f.big, 0, 0, " "); break; case 4: a.loadDataset(f.empty, 0, 0, " "); break;
    case 5: a.loadDataset(f.short1, 0, 1, " "); break; case 6: a.loadDataset(f.short1, 0, -1, " "); break; case 7: a.loadDataset(dir, 0, 0, " "); break; case 8: a.loadDataset(f.short1, 1, 7, " "); break; case 9: a.loadDataset(f.good[0], 0, 0, " "); break;
    case 10: a.saveDataset(9, dir + "/o", ' '); break; case 11: a.saveDataset(-1, dir + "/o", ' '); break; case 12: a.saveDataset(0, dir, ' '); break; case 13: a.saveDataset(0, nodir, ' '); break; case 14: a.saveDataset(0, "/dev/full", ' '); break;
    case 15: a.unloadDataset(9); break; case 16: a.unloadDataset(-1); break; case 17: a.unloadDataset(l.empty() ? 0 : l.back().id + 1); break; case 18: a.getDatasetInfo(9); break;
    case 19: a.normalizeDataset(9); break; case 20: a.normalizeDataset(-5); break; case 21: a.groupDataset(9, 1); break; case 22: a.groupDataset(-1, 1); break;
    case 23: a.PAA(0, 0); break; case 24: a.PAA(0, -1); break; case 25: a.PAA(9, 2); break; case 26: a.PAA(1, -2147483647 - 1); break;
    case 27: must = !has(0) || !info(0).isGrouped; a.saveGroup(0, dir + "/o", false); break; case 28: a.saveGroup(9, dir + "/o", true); break; case 29: a.saveGroup(0, dir, false); break; case 30: a.saveGroup(0, nodir, true); break; case 31: a.saveGroup(0, "/dev/full", false); break;
    case 32: a.loadGroup(9, f.good[0]); break; case 33: a.loadGroup(0, dir + "/missing"); break; case 34: a.loadGroup(0, f.trunc); break; case 35: a.loadGroup(0, f.sizes); break; case 36: a.loadGroup(0, f.version); break; case 37: a.loadGroup(0, f.dist); break; case 38: a.loadGroup(0, f.dim); break; case 39: a.loadGroup(0, f.late); break; case 40: a.loadGroup(0, f.member); break; case 41: a.loadGroup(0, f.trail); break;
    case 42: must = !has(1) || info(1).itemCount != 2 || info(1).itemLength != 4; if (!must) throw OnexException("skipped"); a.loadGroup(1, f.good[0]); break;
    case 43: a.getBestMatch(9, 0, 0); break; case 44: a.getBestMatch(0, 9, 0); break; case 45: a.getBestMatch(0, 0, 50); break; case 46: a.getBestMatch(0, 0, -1); break; case 47: a.getBestMatch(0, 0, 0, 2, 2); break; case 48: a.getBestMatch(0, 0, 0, 0, 99); break; case 49: a.getBestMatch(0, 0, 0, 0, 1); break;
    case 50: a.setWarpingBandRatio(-0.1); break; case 51: a.setWarpingBandRatio(NaN); break; case 52: a.setWarpingBandRatio(-1.0 / 0.0); break; case 53: a.setWarpingBandRatio(-1e-300); break;
    case 54: a.loadDataset("", 0, 0, " "); break; case 55: a.loadDataset("/dev/null", 0, 0, " "); break; case 56: a.saveDataset(0, "", ' '); break; case 57: a.saveGroup(0, "", false); break; case 58: a.saveGroup(0, "", true); break; case 59: a.loadGroup(0, ""); break; case 60: a.loadGroup(9, ""); break; case 61: a.loadGroup(0, dir); break; case 62: a.loadGroup(0, nodir); break; case 63: a.loadGroup(0, f.empty); break; case 64: a.loadGroup(0, "/dev/null"); break; case 65: a.loadGroup(0, f.ragged); break; case 66: a.loadGroup(0, f.text); break; case 67: a.loadGroup(0, f.short1); break;
    case 68: a.saveDataset(0, dir + "/", ' '); break; case 69: a.saveGroup(0, dir + "/", true); break; case 70: a.getBestMatch(0, -1, 0); break; case 71: a.getBestMatch(0, 0, 2147483647); break; case 72: a.getBestMatch(0, 0, 0, -1, 2); break; case 73: a.getBestMatch(0, 0, 0, 2147483647, -2147483647 - 1); break; case 74: a.PAA(0, -2147483647 - 1); break; default: a.unloadDataset(2147483647);
    }
  });
}
static void refuse(mc::Ctx& c, OnexAPI& a, int k, const std::string& before) {
  bool must; bool r = bad(c, a, k, must); c.checked();
  if (must && !r) c.fail("operation %d should be refused and was accepted", k);
  if (!r) return;
  std::string after = snapshot(c, a); if (after != before) c.fail("the refused operation %d changed the session:\n%s", k, diff(before, after).c_str());
}
// operations on a set itself
static bool badSet(mc::Ctx& c, GroupableTimeSeriesSet& s, int k, const Tab& t) {
  const Files& f = files(c); c.op(); std::string dir = c.dir; TimeSeries o(2);
  return refused([&] {
    switch (k) {
    case 0: s.groupAllLengths("nope", 1); break; case 1: s.groupAllLengths("", 1); break; case 2: s.groupAllLengths("Euclidean", 1); break; case 3: s.PAA(0); break; case 4: s.PAA(-3); break; case 5: s.loadGroups(f.trunc); break; case 6: s.loadGroups(f.dist); break; case 7: s.loadGroups(dir + "/missing"); break; case 8: s.loadGroups(f.sizes); break; case 9: s.loadGroups(f.late); break;
    case 10: s.getTimeSeries(t.r, 0, 1); break; case 11: s.getTimeSeries(0, 1, 1); break; case 12: s.getTimeSeries(-1); break; case 13: s.distanceBetween(0, 0, 2, o, "nope"); break; case 14: s.distanceBetween(0, -1, -1, o, "euclidean"); break; case 15: s.distanceBetween(0, 0, t.c + 1, o, "euclidean"); break;
    case 16: s.saveData(dir, ' '); break; case 17: s.saveData("/dev/full", ' '); break; case 18: s.saveGroups(dir, false); break; case 19: s.loadGroups(""); break; case 20: s.saveGroups("", false); break; case 21: s.saveGroups("", true); break; case 22: s.saveData("", ' '); break; case 23: s.loadGroups("/dev/null"); break; case 24: s.groupAllLengths("euclidean_", 1); break; case 25: s.groupAllLengths("euclidean ", 0); break; case 26: s.loadGroups(dir); break; default: { TimeSeries q(1); s.getBestMatch(q); } }
  });
}
int init = [] {
  K.property = "C15"; K.before = u::reset;
  K.rule = "after every history of the depth, operations that must be refused are tried; everything the session shows (list, data, groups, answers) is compared before and after, and every further operation with a session that was not asked the refused one";
  K.assumptions = {"memory allocation succeeds"};
  K.add("every history, then every refused operation, then every operation", 2, [](mc::Ctx& c) {
    files(c); int depth = c.thorough ? 5 : 4; std::vector<int> h; for (int i = 0; i < depth; i++) { int k = c.choose(GOOD + 1); if (k == GOOD) break; h.push_back(k); c.note("%s", GN[k]); }
    OnexAPI a; for (int k : h) good(c, a, k); std::string before = snapshot(c, a); c.observe(hashOf(before));
    for (int k = 0; k < BAD; k++) refuse(c, a, k, before);
  });
  K.add("every history, one refused operation, every continuation, against the same history without it", 3, [](mc::Ctx& c) {
    files(c); int depth = c.thorough ? 4 : 3; std::vector<int> h; for (int i = 0; i < depth; i++) { int k = c.choose(GOOD); h.push_back(k); c.note("%s", GN[k]); } int n = c.choose(GOOD); c.note("then %s", GN[n]);
    std::string want; { OnexAPI b; for (int k : h) good(c, b, k); good(c, b, n); want = snapshot(c, b); } c.observe(hashOf(want));
    for (int k = 0; k < BAD; k += 1) { u::reset(c); OnexAPI a; for (int x : h) good(c, a, x); bool must; if (!bad(c, a, k, must)) { if (must) c.fail("operation %d should be refused and was accepted", k); continue; } good(c, a, n); std::string got = snapshot(c, a); c.checked(); if (got != want) c.fail("after the refused operation %d the session goes on differently:\n%s", k, diff(want, got).c_str()); }
  });
  K.add("refused operations on a set, with and without data and groups", 1, [](mc::Ctx& c) {
    files(c); int st = c.choose(7); Tab t = tabA(); GroupableTimeSeriesSet s; int k = c.choose(28), j = c.choose(28); if (st) load(c, s, t); if (st == 2) s.groupAllLengths("euclidean", 0.8); if (st == 3) s.groupAllLengths("euclidean_dtw", 2); if (st == 4) s.loadGroups(files(c).good[1]); if (st == 5) { s.normalize(); s.groupAllLengths("euclidean", 0.2); } if (st == 6) { s.groupAllLengths("euclidean", 1); s.clearData(); }
    c.note("state %d, refused %d then %d", st, k, j); Seq q{1, 2, 3}; std::string before = snapshot(c, s, q);
    for (int x : {k, j}) { if (!badSet(c, s, x, t) && !(x == 17 && (st == 0 || st == 6))) c.fail("operation %d was accepted", x); std::string after = snapshot(c, s, q); c.checked(); if (after != before) c.fail("the refused operation %d changed the set:\n%s", x, diff(before, after).c_str()); } c.observe(hashOf(before));
  });
  return 0;
}();
MC_MAIN(K)

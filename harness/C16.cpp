// C16 Groups never outlive the data they describe.
#include "session.hpp"
using namespace u;
static mc::Check K;
// a grouping made by the library: representative is a member, members within ST/2, representatives farther apart
static void validGrouping(mc::Ctx& c, const ref::GroupFile& g, const Tab& t, double ratio) {
  bool w = g.distance == "euclidean_dtw"; auto D = [&](const Seq& a, const Seq& b) { return w ? ref::dtw(a, b, ratio) : ref::ed(a, b); };
  for (auto& k : g.groups) for (size_t i = 0; i < k.second.size(); i++) {
    const ref::Group& G = k.second[i]; bool rep = false;
    for (auto& m : G.members) { Seq v = t.sub(m.first, m.second, m.second + k.first); bool eq = true; for (int j = 0; j < k.first; j++) eq &= ref::close(v[j], G.rep[j], 1e-9); rep |= eq; double d = D(G.rep, v); if (d > g.st / 2 && !ref::close(d, g.st / 2)) c.fail("the dataset is reported grouped, but member (%d,%d) of length %d is at %g from its representative, threshold %g; values %s", m.first, m.second, k.first, d, g.st, ref::str(t).c_str()); }
    if (!rep) c.fail("the dataset is reported grouped, but representative %s is none of its members; values %s", ref::str(G.rep).c_str(), ref::str(t).c_str());
    for (size_t j = 0; j < i; j++) { double d = D(G.rep, k.second[j].rep); if (d <= g.st / 2 && !ref::close(d, g.st / 2)) c.fail("the dataset is reported grouped, but two representatives of length %d are at %g, threshold %g", k.first, d, g.st); }
  }
}
static bool same(const Tab& a, const Tab& b) { if (a.r != b.r || a.c != b.c) return false; for (size_t i = 0; i < a.v.size(); i++) if (!ref::close(a.v[i], b.v[i], 1e-9)) return false; return true; }
enum From { NONE, BUILT, LOADED };
struct Model { Tab t; From from = NONE; std::string canon; bool exact = true; };
static const Tab& tab(int k) { static Tab T[4]; static bool m = false; if (!m) { m = true; T[0] = Tab(2, 4); T[0].v = {0, 1, 3, 1, 2, 2, 0, 3}; T[1] = Tab(2, 4); T[1].v = {9, 9, 4, 0.5, 7, -2, 0, 6}; T[2] = Tab(1, 5); T[2].v = {1, 5, 2, 2, 8}; T[3] = Tab(2, 2); T[3].v = {3, 1, 4, 1}; } return T[k]; }
static std::vector<Seq> queries(const Tab& t) { std::vector<Seq> q; if (t.r) { q.push_back(t.row(0)); Seq x = t.row(t.r - 1); for (double& v : x) v += 0.25; q.push_back(x); if (t.c > 2) q.push_back(t.sub(0, 1, t.c)); } q.push_back(Seq{0.2, 0.9}); q.push_back(Seq{3, 1, 2}); return q; }
// judges the state of one dataset after an operation; the operations' effect on values is already in m.t
static void judge(mc::Ctx& c, Model& m, bool grouped, const Tab& now, const std::function<ref::GroupFile()>& groups, const std::function<candidate_time_series_t(const Seq&)>& match, bool changed) {
  if (!same(now, m.t)) c.fail("the dataset holds %s, its history gives %s", ref::str(now).c_str(), ref::str(m.t).c_str());
  m.t = now; c.checked();
  if (changed && m.from == LOADED) m.from = BUILT;      // groups that survive a change have to be a valid grouping of the new values
  if (!grouped) { m.from = NONE; for (auto& q : queries(now)) if (!refused([&] { match(q); })) c.fail("a dataset that is not grouped answers a match"); return; }
  ref::GroupFile g = groups(); if (m.from == BUILT) validGrouping(c, g, now, 0.3);
  if (m.from == LOADED && ref::canon(g.groups) != m.canon) c.fail("the groups are not those loaded");
  c.observe(hashOf(ref::canon(g.groups)));
  for (auto& q : queries(now)) matchAndCheck(c, g.groups, now, q, 0.3, [&] { return match(q); }, m.from == BUILT);
}
int init = [] {
  K.property = "C16"; K.before = u::reset;
  K.rule = "every history of the depth over loading, reloading, clearing, normalising, averaging, grouping, saving and loading groups; after every operation a dataset reported as grouped must hold a valid grouping of its current values (or the groups just loaded) and answer queries from its current values, any other must refuse";
  K.assumptions = {"groups saved for other values of the same dimensions may be loaded (the format does not carry the values); they are then only required to be the file's partition"};
  K.add("histories of one dataset", 3, [](mc::Ctx& c) {
    setWarpingBandRatio(0.3); GroupableTimeSeriesSet s; Model m; m.t = Tab(0, 0); std::string F = c.file("grp"); unlink(F.c_str()); std::string held; ref::GroupFile hf; int depth = c.thorough ? 6 : 5; std::string other = c.file("other");
    for (int d = 0; d < depth; d++) {
      int op = c.choose(d == 0 ? 3 : 14); c.op(); bool has = m.t.r > 0, changed = false;
      switch (op) {
      case 0: case 1: case 2: c.note("load table %d", op); load(c, s, tab(op)); m.t = tab(op); changed = true; break;
      case 3: c.note("normalise"); { bool r = refused([&] { s.normalize(); }); if (r == has) c.fail("normalise"); if (has) { double a, b; m.t = ref::normalize(m.t, a, b); changed = true; } } break;
      case 4: case 5: { int n = op - 3 + (op == 4); c.note("average by %d", n); bool r = refused([&] { s.PAA(n); }); if (r == has) c.fail("average"); if (has) { m.t = ref::paa(m.t, n); changed = true; } } break;
      case 6: case 7: case 8: { c.note("group %d", op - 6); static const double ST[] = {0.5, 3, 0}; bool r = refused([&] { s.groupAllLengths(op == 7 ? "euclidean_dtw" : "euclidean", ST[op - 6]); }); if (r == has) c.fail("group"); if (has) { m.from = BUILT; if (!s.isGrouped()) c.fail("not grouped after grouping"); } } break;
      case 9: c.note("clear"); s.clearData(); m.t = Tab(0, 0); changed = true; break;
      case 10: c.note("drop groups"); s.reset(); m.from = NONE; if (s.isGrouped()) c.fail("grouped after reset"); break;
      case 11: { c.note("save groups"); bool g = s.isGrouped(), r = refused([&] { s.saveGroups(F, false); }); if (r == g) c.fail("save groups"); if (!r) { hf = parseOrFail(c, get(F), m.t.r, m.t.c); held = ref::canon(hf.groups); } } break;
      case 12: { c.note("load groups"); bool r = refused([&] { s.loadGroups(F); }), ok = has && !held.empty() && hf.items == m.t.r && hf.length == m.t.c; if (r == ok) c.fail("load groups %s", r ? "refused" : "accepted"); if (!r) { m.from = LOADED; m.canon = held; } } break;
      default: c.note("failing load"); if (!refused([&] { s.loadData(c.file("missing"), 0, 0, " "); })) c.fail("missing file accepted"); m.t = Tab(0, 0); changed = true; break;
      }
      if (s.getItemCount() == 0) m.t = Tab(0, s.getItemLength() > 0 ? s.getItemLength() : 0);
      judge(c, m, s.isGrouped(), values(s), [&] { return groupsOf(c, s); }, [&](const Seq& q0) { Seq q = q0; TimeSeries Q = view(q); return s.getBestMatch(Q); }, changed);
    }
  });
  K.add("histories of a session with two datasets", 3, [](mc::Ctx& c) {
    OnexAPI a; a.setWarpingBandRatio(0.3); std::map<int, Model> M; std::string F = c.file("grp"); unlink(F.c_str()); std::string held; ref::GroupFile hf; int depth = c.thorough ? 6 : 5;
    for (int d = 0; d < depth; d++) {
      int op = c.choose(d == 0 ? 2 : 14), i = op & 1; c.op(); bool changed = false, has = M.count(i) > 0; int ch = -1;
      switch (op) {
      case 0: case 1: { c.note("load table %d", op); int id = a.loadDataset(tabFile(c, tab(op)), 0, 0, " ").id; M[id] = Model(); M[id].t = tab(op); ch = id; break; }
      case 2: case 3: { c.note("normalise %d", i); bool r = refused([&] { a.normalizeDataset(i); }); if (r == has) c.fail("normalise"); if (has) { double x, y; M[i].t = ref::normalize(M[i].t, x, y); ch = i; } break; }
      case 4: case 5: { c.note("average %d by 2", i); bool r = refused([&] { a.PAA(i, 2); }); if (r == has) c.fail("average"); if (has) { M[i].t = ref::paa(M[i].t, 2); ch = i; } break; }
      case 6: case 7: { c.note("group %d", i); bool r = refused([&] { a.groupDataset(i, i ? 2 : 0.6); }); if (r == has) c.fail("group"); if (has) M[i].from = BUILT; break; }
      case 8: case 9: { c.note("unload %d", i); bool r = refused([&] { a.unloadDataset(i); }); if (r == has) c.fail("unload"); M.erase(i); break; }
      case 10: case 11: { c.note("save groups of %d", i); bool g = has && a.getDatasetInfo(i).isGrouped, r = refused([&] { a.saveGroup(i, F, false); }); if (r == g) c.fail("save groups"); if (!r) { hf = parseOrFail(c, get(F), M[i].t.r, M[i].t.c); held = ref::canon(hf.groups); } break; }
      default: { c.note("load groups into %d", i); bool r = refused([&] { a.loadGroup(i, F); }), ok = has && !held.empty() && hf.items == M[i].t.r && hf.length == M[i].t.c; if (r == ok) c.fail("load groups %s", r ? "refused" : "accepted"); if (!r) { M[i].from = LOADED; M[i].canon = held; } }
      }
      (void)changed;
      for (auto& e : M) {
        int k = e.first; std::string p = c.file("v"); a.saveDataset(k, p, ' '); GroupableTimeSeriesSet v; v.loadData(p, 0, 0, " "); Tab now = values(v);
        judge(c, e.second, a.getDatasetInfo(k).isGrouped, now, [&] { return groupsOf(c, a, k); }, [&](const Seq& q) {
          GroupableTimeSeriesSet* none = nullptr; (void)none; int id = a.loadDataset(fileWith(c, ref::text([&] { Tab t(1, q.size()); t.v = q; return t; }())), 0, 0, " ").id;
          struct Drop { OnexAPI& a; int i; ~Drop() { a.unloadDataset(i); } } drop{a, id}; return a.getBestMatch(k, id, 0); }, ch == k);
      }
    }
  });
  K.add("sizes of the ladder: groups are dropped or renewed by every change of the data", 2, [](mc::Ctx& c) {
    setWarpingBandRatio(0.3); bool tall = c.flip(); int k = c.pick(ladder(c.thorough ? (tall ? 520 : 50) : tall ? 260 : 36, 2)); int r = tall ? k : 2, n = tall ? 3 : k; int op = c.choose(6), from = c.choose(2); Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (double)(i * i % 29) + (i % 3) * 0.125; std::string F = c.file("grp"); GroupableTimeSeriesSet s; load(c, s, t); s.groupAllLengths("euclidean", 5); Model m; m.t = t; m.from = BUILT; if (from) { s.saveGroups(F, false); s.loadGroups(F); } c.note("%dx%d operation %d", r, n, op); c.op(2);
    double a, b; switch (op) { case 0: s.normalize(); m.t = ref::normalize(t, a, b); break; case 1: s.PAA(1); break; case 2: s.PAA(2); m.t = ref::paa(t, 2); break; case 3: load(c, s, tab(1)); m.t = tab(1); break; case 4: s.PAA(n + 7); m.t = ref::paa(t, n + 7); break; default: s.groupAllLengths("euclidean", 0.5); }
    judge(c, m, s.isGrouped(), values(s), [&] { return groupsOf(c, s); }, [&](const Seq& q0) { Seq q = q0; TimeSeries Q = view(q); return s.getBestMatch(Q); }, true); if (op == 5 && !s.isGrouped()) c.fail("not grouped after grouping");
  });
  K.add("sizes of the ladder: every two operations on a grouped dataset", 3, [](mc::Ctx& c) {
    setWarpingBandRatio(0.3); bool tall = c.flip(); int k = c.pick(ladder(c.thorough ? (tall ? 130 : 40) : tall ? 34 : 16, 2)); int r = tall ? k : c.range(1, 2), n = tall ? 4 : k; int o1 = c.choose(7), o2 = c.choose(7); bool kind = c.flip(); Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = kind ? (double)(i * i % 29) + (i % 3) * 0.125 : (double)(i % 4) / 4; std::string F = c.file("grp"); unlink(F.c_str()); OnexAPI a; a.setWarpingBandRatio(0.3); a.loadDataset(tabFile(c, t), 0, 0, " "); Model m; m.t = t; int pre = c.choose(4); double px, py; if (pre & 1) { a.normalizeDataset(0); m.t = ref::normalize(m.t, px, py); } if (pre & 2) a.PAA(0, 1); a.groupDataset(0, pre & 1 ? 0.3 : 1); m.from = BUILT; c.note("%dx%d%s%s operations %d, %d", r, n, pre & 1 ? ", normalised," : "", pre & 2 ? ", averaged by 1," : "", o1, o2); c.op(2);
    for (int d = 0; d < 2; d++) { double x, y; bool changed = false; switch (d ? o2 : o1) { case 0: a.normalizeDataset(0); m.t = ref::normalize(m.t, x, y); changed = true; break; case 1: a.PAA(0, 2); m.t = ref::paa(m.t, 2); changed = true; break; case 2: a.PAA(0, 1); changed = true; break; case 3: a.groupDataset(0, 0.5); m.from = BUILT; break; case 4: { GroupableTimeSeriesSet o; load(c, o, m.t); if (m.t.c < 2) break; o.groupAllLengths("euclidean_dtw", 2); o.saveGroups(F, false); a.loadGroup(0, F); m.from = BUILT; break; } case 5: if (!refused([&] { a.loadGroup(0, c.file("missing")); })) c.fail("missing groups loaded"); break; default: a.loadDataset(tabFile(c, t), 0, 0, " "); a.groupDataset(1, 2); a.normalizeDataset(1); a.unloadDataset(1); } c.op();
      std::string p = c.file("v"); a.saveDataset(0, p, ' '); GroupableTimeSeriesSet v; v.loadData(p, 0, 0, " "); judge(c, m, a.getDatasetInfo(0).isGrouped, values(v), [&] { return groupsOf(c, a, 0); }, [&](const Seq& q) { int id = a.loadDataset(fileWith(c, ref::text([&] { Tab z(1, q.size()); z.v = q; return z; }())), 0, 0, " ").id; struct Drop { OnexAPI& a; int i; ~Drop() { a.unloadDataset(i); } } drop{a, id}; return a.getBestMatch(0, id, 0); }, changed); }
  });
  return 0;
}();
MC_MAIN(K)

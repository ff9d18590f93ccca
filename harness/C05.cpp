// C05 The dataset list behaves like a table of lowest-free identifiers.
#include "onex_util.hpp"
using namespace u;
static mc::Check K;
struct Rec { std::string name; Tab t; bool grouped = false, norm = false; };
typedef std::map<int, Rec> Model;

static void agree(mc::Ctx& c, OnexAPI& api, const Model& m, int probe) {
  if (api.getDatasetCount() != (int)m.size()) c.fail("count is %d, %zu datasets are loaded", api.getDatasetCount(), m.size());
  vector<dataset_info_t> l = api.getAllDatasetInfo();
  if (l.size() != m.size()) c.fail("list has %zu entries, %zu datasets are loaded", l.size(), m.size());
  size_t k = 0; mc::Hash h;
  for (auto& e : m) {
    for (int src = 0; src < 2; src++) {
      dataset_info_t i = src ? api.getDatasetInfo(e.first) : l[k];
      if (i.id != e.first || i.name != e.second.name || i.itemCount != e.second.t.r || i.itemLength != e.second.t.c || i.isGrouped != e.second.grouped || i.isNormalized != e.second.norm)
        c.fail("%s of dataset %d: id %d %s %dx%d grouped=%d normalised=%d; expected %s %dx%d grouped=%d normalised=%d", src ? "info" : "listing", e.first, i.id, i.name.c_str(), i.itemCount, i.itemLength, i.isGrouped, i.isNormalized, e.second.name.c_str(), e.second.t.r, e.second.t.c, e.second.grouped, e.second.norm);
    }
    h.u(e.first); h.s(e.second.name); h.u(e.second.grouped * 2 + e.second.norm); k++;
  }
  for (int i = -2; i < probe; i++) if (!m.count(i) && !refused([&] { api.getDatasetInfo(i); })) c.fail("info of the unused identifier %d was given", i);
  c.checked(); c.observe(h);
}
static int lowest(const Model& m) { int i = 0; while (m.count(i)) i++; return i; }
static void contents(mc::Ctx& c, OnexAPI& api, const Model& m) {
  for (auto& e : m) {
    std::string p = c.file("c.txt"); api.saveDataset(e.first, p, ' '); GroupableTimeSeriesSet s; s.loadData(p, 0, 0, " "); Tab n = values(s);
    if (n.r != e.second.t.r || n.c != e.second.t.c) c.fail("dataset %d has other dimensions than its history", e.first);
    for (size_t i = 0; i < n.v.size(); i++) if (!ref::close(n.v[i], e.second.t.v[i], 1e-5)) c.fail("dataset %d holds %.17g instead of %.17g", e.first, n.v[i], e.second.t.v[i]);
  }
}
int init = [] {
  K.property = "C05"; K.before = u::reset;
  K.rule = "every sequence of session operations up to the depth is executed on the real OnexAPI and on a table model with lowest-free identifiers; count, info, listing and refusals are compared after every operation, contents at the end";
  static const std::vector<Tab> T = [] { std::vector<Tab> v; for (int k = 0; k < 3; k++) { Tab t(k + 1, 4 - k); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (double)((i * 3 + k) % 5) + 10 * k; v.push_back(t); } return v; }();
  K.add("every operation sequence", 2, [](mc::Ctx& c) {
    OnexAPI api; Model m; int depth = c.thorough ? 6 : 5;
    for (int d = 0; d < depth; d++) {
      int op = c.choose(15); c.op();
      if (op == 0) { c.note("end"); break; }
      else if (op <= 2) { const Tab& t = T[op - 1]; std::string f = tabFile(c, t); int want = lowest(m); c.note("load %dx%d, expecting id %d", t.r, t.c, want); dataset_info_t i = api.loadDataset(f, 0, 0, " "); if (i.id != want) c.fail("identifier %d given, lowest free is %d", i.id, want); if (i.name != f || i.itemCount != t.r || i.itemLength != t.c || i.isGrouped || i.isNormalized) c.fail("info returned by load"); Rec r; r.name = f; r.t = t; m[want] = r; }
      else if (op == 3) { c.note("failing load"); if (!refused([&] { api.loadDataset(c.file("none"), 0, 0, " "); })) c.fail("missing file accepted"); }
      else if (op <= 7) { int i = op - 4 - (op == 7 ? 4 : 0); c.note("unload %d", i); bool r = refused([&] { api.unloadDataset(i); }); if (r == (m.count(i) > 0)) c.fail("unload %d %s", i, r ? "refused" : "accepted"); m.erase(i); }
      else if (op == 8) { c.note("unload all"); api.unloadAllDataset(); m.clear(); }
      else if (op <= 11) { int i = op - 9; c.note("normalise %d", i); std::pair<data_t, data_t> g; bool r = refused([&] { g = api.normalizeDataset(i); }); if (r == (m.count(i) > 0)) c.fail("normalise %d %s", i, r ? "refused" : "accepted"); if (!r) { double a, b; m[i].t = ref::normalize(m[i].t, a, b); m[i].norm = true; m[i].grouped = api.getDatasetInfo(i).isGrouped && m[i].grouped; } }
      else if (op <= 13) { int i = op - 12; c.note("group %d", i); bool r = refused([&] { api.groupDataset(i, 0.5); }); if (r == (m.count(i) > 0)) c.fail("group %d %s", i, r ? "refused" : "accepted"); if (!r) m[i].grouped = true; }
      else { c.note("average 1 by 2"); bool r = refused([&] { api.PAA(1, 2); }); if (r == (m.count(1) > 0)) c.fail("PAA 1 %s", r ? "refused" : "accepted"); if (!r) { m[1].t = ref::paa(m[1].t, 2); m[1].grouped = api.getDatasetInfo(1).isGrouped && m[1].grouped; } }
      agree(c, api, m, 4);
    }
    contents(c, api, m);
  });
  K.add("every set of holes among up to 9 datasets, refilled", 2, [](mc::Ctx& c) {
    int n = c.range(1, c.thorough ? 11 : 9); int mask = c.choose(1 << n); int order = c.choose(3); OnexAPI api; Model m;
    for (int i = 0; i < n; i++) { const Tab& t = T[i % 3]; std::string f = tabFile(c, t); dataset_info_t d = api.loadDataset(f, 0, 0, " "); if (d.id != i) c.fail("id"); Rec r; r.name = f; r.t = t; m[i] = r; } c.op(n);
    for (int k = 0; k < n; k++) { int i = order == 0 ? k : order == 1 ? n - 1 - k : (k * 2 < n ? k * 2 : (k * 2 - n) | 1); if (i >= n) continue; if (mask >> i & 1) { if (m.count(i)) { api.unloadDataset(i); m.erase(i); c.op(); } agree(c, api, m, n + 1); } }
    c.note("%d datasets, holes %x, order %d", n, mask, order);
    for (int k = 0; k < n + 1; k++) { int w = lowest(m); const Tab& t = T[(k + 1) % 3]; std::string f = tabFile(c, t); dataset_info_t d = api.loadDataset(f, 0, 0, " "); c.op(); if (d.id != w) c.fail("identifier %d given, lowest free is %d", d.id, w); Rec r; r.name = f; r.t = t; m[w] = r; if (k < 3) agree(c, api, m, n + 3); }
    agree(c, api, m, 2 * n + 3); contents(c, api, m);
  });
  K.add("many datasets: every identifier given back and given again", 2, [](mc::Ctx& c) {
    int n = c.pick(std::vector<int>{10, 16, 17, 33, 65, 100, 129, 257, 300}), hole = c.choose(n), second = c.pick(std::vector<int>{-1, 0, n / 2, n - 1}); OnexAPI api; Model m;
    for (int i = 0; i < n; i++) { const Tab& t = T[i % 3]; std::string f = tabFile(c, t); dataset_info_t d = api.loadDataset(f, 0, 0, " "); if (d.id != i) c.fail("identifier %d given, lowest free is %d", d.id, i); Rec r; r.name = f; r.t = t; m[i] = r; } c.op(n);
    c.note("%d datasets, unload %d and %d", n, hole, second); api.unloadDataset(hole); m.erase(hole); if (second >= 0 && second != hole) { api.unloadDataset(second); m.erase(second); } agree(c, api, m, n + 1);
    for (int k = 0; k < 3; k++) { int w = lowest(m); const Tab& t = T[(k + 1) % 3]; std::string f = tabFile(c, t); dataset_info_t d = api.loadDataset(f, 0, 0, " "); c.op(); if (d.id != w) c.fail("identifier %d given, lowest free is %d", d.id, w); Rec r; r.name = f; r.t = t; m[w] = r; }
    double a, b; api.normalizeDataset(hole); m[hole].t = ref::normalize(m[hole].t, a, b); m[hole].norm = true; api.PAA(n - 1, 2); m[n - 1].t = ref::paa(m[n - 1].t, 2); api.groupDataset(n / 2, 0.5); m[n / 2].grouped = true; agree(c, api, m, n + 5); if (hole % 16 == 0) contents(c, api, m);
    if (hole % 8 == 0) { api.unloadAllDataset(); m.clear(); agree(c, api, m, n + 2); const Tab& t = T[0]; std::string f = tabFile(c, t); dataset_info_t d = api.loadDataset(f, 0, 0, " "); if (d.id != 0) c.fail("identifier %d given after unloading all", d.id); Rec r; r.name = f; r.t = t; m[0] = r; agree(c, api, m, 2); }
  });
  K.add("every use of every identifier: only that dataset is affected, unused ones are refused", 2, [](mc::Ctx& c) {
    OnexAPI api; Model m; int n = c.range(0, 4); int hole = c.choose(5);
    for (int i = 0; i < n; i++) { const Tab& t = T[(i + 1) % 3]; std::string f = tabFile(c, t); api.loadDataset(f, 0, 0, " "); Rec r; r.name = f; r.t = t; m[i] = r; }
    bool pre = c.flip(); if (pre) for (auto& e : m) { api.groupDataset(e.first, 1); e.second.grouped = true; }
    if (m.count(hole)) { api.unloadDataset(hole); m.erase(hole); }
    std::string gf = c.file("gg.txt"), sf = c.file("ss.txt");
    static const std::vector<int> ID{-2147483647 - 1, -1, 0, 1, 2, 3, 4, 5, 2147483647};
    int id = c.pick(ID), what = c.choose(8), other = c.choose(3); bool known = m.count(id) > 0, ok = known; c.op();
    c.note("%d datasets, hole %d, operation %d on %d", n, hole, what, id);
    bool r = refused([&] {
      if (what == 0) api.normalizeDataset(id); else if (what == 1) api.groupDataset(id, 0.3); else if (what == 2) api.PAA(id, 2); else if (what == 3) api.saveDataset(id, sf, ' ');
      else if (what == 4) api.saveGroup(id, gf, true); else if (what == 5) api.unloadDataset(id); else if (what == 6) api.getBestMatch(id, other, 0); else api.getBestMatch(other, id, 0); });
    if (what == 4) ok = known && pre; 
    if (what == 6 || what == 7) { int a = what == 6 ? id : other, b = what == 6 ? other : id; ok = m.count(a) && m.count(b) && pre; if (ok) { bool any = false; int q = m[b].t.c; if (q >= 2) for (int L = 2; L <= m[a].t.c; L++) any |= ref::admissible(q, L, 0.1); ok = any; } }
    if (r == ok) c.fail("operation %d on identifier %d was %s", what, id, r ? "refused" : "accepted");
    if (!r) { double a, b; if (what == 0) { m[id].t = ref::normalize(m[id].t, a, b); m[id].norm = true; m[id].grouped = m[id].grouped && api.getDatasetInfo(id).isGrouped; } if (what == 1) m[id].grouped = true; if (what == 2) { m[id].t = ref::paa(m[id].t, 2); m[id].grouped = m[id].grouped && api.getDatasetInfo(id).isGrouped; } if (what == 5) m.erase(id); }
    agree(c, api, m, 7); contents(c, api, m);
  });
  K.add("names of every length of the ladder", 2, [](mc::Ctx& c) {
    static const std::vector<int> L = ladder(1900); int n = c.pick(L), w = c.choose(3); Tab t(2, 3); for (int i = 0; i < 6; i++) t.v[i] = i * 2 % 5; put(c.dir + "/n", ref::text(t)); std::string p = c.dir; for (int i = 0; i < n; i++) p += i % 2 ? "/." : "/"; p += "/n"; c.note("a path of %zu characters", p.size());
    OnexAPI a; Model m; for (int k = 0; k < 2; k++) { dataset_info_t i = a.loadDataset(k ? p : c.dir + "/n", 0, 0, " "); c.op(); if (i.name != (k ? p : c.dir + "/n")) c.fail("the name given for a path of %zu characters is %s", p.size(), i.name.c_str()); Rec r; r.name = i.name; r.t = t; m[k] = r; } if (w == 1) { dataset_info_t i = a.PAA(1, 2); if (i.name != p) c.fail("the name after averaging is %s", i.name.c_str()); m[1].t = ref::paa(t, 2); } if (w == 2) { double x, y; a.normalizeDataset(1); m[1].t = ref::normalize(t, x, y); m[1].norm = true; } agree(c, a, m, 3);
  });
  K.add("several datasets of one file in every state: an operation on one leaves the others alone", 3, [](mc::Ctx& c) {
    int n = c.range(1, c.thorough ? 6 : 5), share = c.choose(2); OnexAPI a; Model m; Tab t(2, 3); t.v = {0, 2, 5, 1, 1, 3}; Tab o(1, 4); o.v = {9, 8, 7, 1}; std::string f = tabFile(c, t), g = tabFile(c, o); std::vector<int> state; 
    for (int i = 0; i < n; i++) { bool same = !share || i % 2; a.loadDataset(same ? f : g, 0, 0, " "); Rec r; r.name = same ? f : g; r.t = same ? t : o; m[i] = r; }
    // at most two datasets in other than the loaded state
    int p = c.choose(n), sp = c.choose(4), q = c.choose(n), sq = p == q ? 0 : c.choose(4); auto prep = [&](int i, int s) { if (s & 1) { double x, y; a.normalizeDataset(i); m[i].t = ref::normalize(m[i].t, x, y); m[i].norm = true; } if (s & 2) { a.groupDataset(i, 0.2); m[i].grouped = true; } }; prep(p, sp); prep(q, sq); agree(c, a, m, n + 2);
    std::map<int, std::string> groups; auto held = [&](int i) { std::string x = c.file("hg"); a.saveGroup(i, x, false); return get(x); }; for (auto& e : m) if (e.second.grouped) groups[e.first] = held(e.first);
    int w = c.choose(8), at = c.choose(n); c.note("%d datasets, %d in state %d, %d in state %d, operation %d on %d", n, p, sp, q, sq, w, at); c.op();
    if (w < 2) { bool same = w == 0; dataset_info_t d = a.loadDataset(same ? f : g, 0, 0, " "); if (d.id != n) c.fail("identifier %d", d.id); Rec r; r.name = same ? f : g; r.t = same ? t : o; m[n] = r; } else if (w == 2) { a.unloadDataset(at); m.erase(at); a.loadDataset(f, 0, 0, " "); Rec r; r.name = f; r.t = t; m[at] = r; groups.erase(at); }
    else if (w == 3) { a.normalizeDataset(at); if (!m[at].norm) { double x, y; m[at].t = ref::normalize(m[at].t, x, y); m[at].norm = true; } m[at].grouped = m[at].grouped && a.getDatasetInfo(at).isGrouped; groups.erase(at); } else if (w == 4) { a.PAA(at, 2); m[at].t = ref::paa(m[at].t, 2); m[at].grouped = m[at].grouped && a.getDatasetInfo(at).isGrouped; groups.erase(at); } else if (w == 5) { a.groupDataset(at, 1); m[at].grouped = true; groups.erase(at); } else if (w == 6) { refused([&] { a.loadDataset(c.file("missing"), 0, 0, " "); }); refused([&] { a.unloadDataset(n); }); } else { refused([&] { a.getBestMatch(at, p, 0); }); std::string x = c.file("sv"); a.saveDataset(at, x, ','); }
    agree(c, a, m, n + 3); contents(c, a, m); for (auto& e : groups) if (held(e.first) != e.second) c.fail("the groups of dataset %d changed", e.first);
  });
  return 0;
}();
MC_MAIN(K)

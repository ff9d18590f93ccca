// Oracles about groups and matches, stated on an independently parsed group file.
#ifndef MC_GROUP_CHECK_HPP
#define MC_GROUP_CHECK_HPP
#include "onex_util.hpp"

namespace u {
// the groups a set (or session dataset) holds, as told by its saved file
inline ref::GroupFile parseOrFail(mc::Ctx& c, const std::string& text, int items, int length) {
  ref::GroupFile g;
  if (!ref::parseGroupFile(text, g)) c.fail("saved groups are not a partition or not as documented: %s\n%s", g.error.c_str(), text.substr(0, 1500).c_str());
  if (g.items != items || g.length != length) c.fail("saved groups name dimensions %dx%d instead of %dx%d", g.items, g.length, items, length);
  if (g.version != 1) c.fail("saved groups have version %d", g.version);
  return g;
}
inline ref::GroupFile groupsOf(mc::Ctx& c, const GroupableTimeSeriesSet& s, const char* name = "g.txt") {
  std::string p = c.file(name); s.saveGroups(p, false); c.op();
  return parseOrFail(c, get(p), s.getItemCount(), s.getItemLength());
}
inline ref::GroupFile groupsOf(mc::Ctx& c, OnexAPI& a, int i, const char* name = "g.txt") {
  std::string p = c.file(name); a.saveGroup(i, p, false); c.op();
  dataset_info_t d = a.getDatasetInfo(i);
  return parseOrFail(c, get(p), d.itemCount, d.itemLength);
}
// What a best match must be, given the current groups and values.
struct Expect { double repDist = ref::Inf; std::vector<std::pair<int, int>> nearest; };   // nearest: (length, group) within rounding of the nearest representative
inline Expect expectMatch(const ref::Groups& g, const Seq& q, double ratio) {
  Expect e; std::vector<std::pair<double, std::pair<int, int>>> all;
  for (auto& k : g) {
    if (!ref::admissible((int)q.size(), k.first, ratio)) continue;
    for (size_t i = 0; i < k.second.size(); i++) all.push_back({ref::dtw(k.second[i].rep, q, ratio), {k.first, (int)i}});
  }
  for (auto& a : all) e.repDist = std::min(e.repDist, a.first);
  for (auto& a : all) if (ref::close(a.first, e.repDist)) e.nearest.push_back(a.second);
  return e;
}
// repsAreMembers: representatives are known to be members (true unless groups of other data were loaded)
inline void checkMatch(mc::Ctx& c, const ref::Groups& g, const Tab& t, const Seq& q, double ratio, const candidate_time_series_t& m, bool repsAreMembers = true) {
  int i = m.data.getIndex(), s = m.data.getStart(), e = m.data.getEnd(), len = m.data.getLength();
  if (i < 0 || i >= t.r || s < 0 || e > t.c || e - s != len || len < 2) c.fail("match (%d,%d..%d) is no subsequence of the dataset", i, s, e);
  Seq got = values(m.data), want = t.sub(i, s, e);
  if (got != want) c.fail("match (%d,%d..%d) shows values %s, the dataset holds %s", i, s, e, ref::str(got).c_str(), ref::str(want).c_str());
  double d = ref::dtw(q, want, ratio);
  if (!ref::close(d, m.dist)) c.fail("match (%d,%d..%d) reported at distance %.12g, its warped distance is %.12g; query %s", i, s, e, (double)m.dist, d, ref::str(q).c_str());
  Expect x = expectMatch(g, q, ratio);
  const ref::Group* in = nullptr; bool near = false;
  auto it = g.find(len);
  if (it != g.end()) for (size_t k = 0; k < it->second.size(); k++) for (auto& co : it->second[k].members) if (co == ref::Coord(i, s)) {
    in = &it->second[k]; for (auto& n : x.nearest) if (n.first == len && n.second == (int)k) near = true;
  }
  if (!in) c.fail("match (%d,%d..%d) is in no group", i, s, e);
  if (!near) c.fail("match (%d,%d..%d) comes from a group whose representative is at %.12g while the nearest representative is at %.12g; query %s, table %s", i, s, e, ref::dtw(in->rep, q, ratio), x.repDist, ref::str(q).c_str(), ref::str(t).c_str());
  for (auto& co : in->members) { double o = ref::dtw(q, t.sub(co.first, co.second, co.second + len), ratio); if (o < d && !ref::close(o, d)) c.fail("member (%d,%d) of the same group is nearer (%.12g) than the match (%d,%d) at %.12g; query %s, table %s", co.first, co.second, o, i, s, d, ref::str(q).c_str(), ref::str(t).c_str()); }
  if (repsAreMembers && d > x.repDist && !ref::close(d, x.repDist)) c.fail("match at %.12g is farther than the nearest representative at %.12g", d, x.repDist);
  c.checked();
}
// Runs a match and checks it or its refusal.  f returns the candidate or throws.
template <class F> inline void matchAndCheck(mc::Ctx& c, const ref::Groups& g, const Tab& t, const Seq& q, double ratio, F f, bool repsAreMembers = true) {
  bool any = false;
  if (q.size() >= 2) for (auto& k : g) if (!k.second.empty() && ref::admissible((int)q.size(), k.first, ratio)) any = true;
  c.op();
  try {
    candidate_time_series_t m = f();
    if (!any) c.fail("a query of length %zu with nothing admissible (band ratio %g, series length %d) was answered", q.size(), ratio, t.c);
    checkMatch(c, g, t, q, ratio, m, repsAreMembers);
    mc::Hash h; h.u(m.data.getIndex()); h.u(m.data.getStart()); h.u(m.data.getLength()); h.d(m.dist); c.observe(h);
  } catch (const OnexException& e) {
    if (any) c.fail("a query of length %zu was refused (%s) although something is admissible; band ratio %g, series length %d", q.size(), e.what(), ratio, t.c);
    c.observe(hashOf(std::string("refused")));
  }
}
}
#endif

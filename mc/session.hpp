// Sessions: what an OnexAPI session or a set shows to its user, as one string.
#ifndef MC_SESSION_HPP
#define MC_SESSION_HPP
#include "group_check.hpp"

namespace u {
inline std::string fmt(const char* f, ...) { char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
inline std::string matchText(const std::function<candidate_time_series_t()>& f) {
  try { candidate_time_series_t m = f(); return fmt("%d %d %d %.17g;", m.data.getIndex(), m.data.getStart(), m.data.getLength(), (double)m.dist); }
  catch (const OnexException& e) { return std::string("refused;"); }
}
// everything the public interface tells about a session
inline std::string snapshot(mc::Ctx& c, OnexAPI& a, bool matches = true, bool names = true) {
  std::string o = fmt("%d datasets\n", a.getDatasetCount()), p = c.file("snap.txt");
  vector<dataset_info_t> l = a.getAllDatasetInfo();
  for (auto& i : l) {
    o += fmt("#%d %s %dx%d g%d n%d\n", i.id, names ? i.name.c_str() : "", i.itemCount, i.itemLength, i.isGrouped, i.isNormalized);
    a.saveDataset(i.id, p, ' '); o += get(p);
    if (i.isGrouped) { a.saveGroup(i.id, p, false); o += "groups\n" + get(p); a.saveGroup(i.id, p, true); o += get(p); }
    if (matches) for (auto& q : l) { for (int k = 0; k < std::min(q.itemCount, 2); k++) o += matchText([&] { return a.getBestMatch(i.id, q.id, k); }); o += matchText([&] { return a.getBestMatch(i.id, q.id, 0, 0, 2); }); }
    o += "\n";
  }
  return o;
}
inline std::string snapshot(mc::Ctx& c, GroupableTimeSeriesSet& s, const Seq& q0) {
  std::string p = c.file("snap.txt"); std::string o = fmt("%s %dx%d g%d n%d l%d\n", s.getFilePath().c_str(), s.getItemCount(), s.getItemLength(), s.isGrouped(), s.isNormalized(), s.isLoaded());
  s.saveData(p, ' '); o += get(p);
  if (s.isGrouped()) { s.saveGroups(p, false); o += get(p); }
  Seq q = q0; TimeSeries Q = view(q); o += matchText([&] { return s.getBestMatch(Q); });
  return o;
}
// first difference of two descriptions, for messages
inline std::string diff(const std::string& a, const std::string& b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t s = i > 60 ? i - 60 : 0; return "..." + a.substr(s, 160) + "...\n  versus\n..." + b.substr(s, 160) + "...";
}
}
#endif

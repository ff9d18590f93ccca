// Glue between drivers and the library's public API.
#ifndef MC_ONEX_UTIL_HPP
#define MC_ONEX_UTIL_HPP
#include "explorer.hpp"
#include "env.hpp"
#include "ref.hpp"
#include "OnexAPI.hpp"
#include "GlobalGroupSpace.hpp"
#include "LocalLengthGroupSpace.hpp"
#include "Exception.hpp"
#include "distance/Distance.hpp"
#include <unordered_map>

namespace u {
using namespace onex;
using ref::Tab; using ref::Seq; using ref::scales; using ref::ladder;

inline void put(const std::string& path, const std::string& s) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (fd < 0) { dprintf(2, "HARNESS-ERROR: cannot write %s\n", path.c_str()); _exit(98); }
  size_t off = 0; while (off < s.size()) { ssize_t n = syscall(SYS_write, fd, s.data() + off, s.size() - off); if (n <= 0) { dprintf(2, "HARNESS-ERROR: short write %s\n", path.c_str()); _exit(98); } off += n; }
  close(fd);
}
inline std::string get(const std::string& path) { return mc::Runner::slurp(path, 100000000); }

// a file with this content (written once per process)
inline std::string fileWith(mc::Ctx& c, const std::string& content) {
  static std::unordered_map<std::string, std::string> known; static int n = 0;
  auto it = known.find(content); if (it != known.end()) return it->second;
  if (known.size() > 2000) known.clear();
  std::string p = c.dir + "/in" + std::to_string(n++ % 2500);
  // forget any older content of this name
  for (auto i = known.begin(); i != known.end();) if (i->second == p) i = known.erase(i); else ++i;
  put(p, content); known[content] = p; return p;
}
inline std::string tabFile(mc::Ctx& c, const Tab& t) { return fileWith(c, ref::text(t)); }
template <class SET> inline void load(mc::Ctx& c, SET& s, const Tab& t) { s.loadData(tabFile(c, t), 0, 0, " "); }

// values as seen through the public accessor
template <class SET> inline Tab values(const SET& s) {
  Tab t(s.getItemCount(), s.getItemLength() > 0 ? s.getItemLength() : 0);
  for (int i = 0; i < t.r; i++) { TimeSeries ts = s.getTimeSeries(i); for (int j = 0; j < t.c; j++) t.at(i, j) = ((const TimeSeries&)ts)[j]; }
  return t;
}
inline Seq values(const TimeSeries& ts) { Seq s; for (int j = 0; j < ts.getLength(); j++) s.push_back(ts[j]); return s; }

// runs f and tells whether it was refused with the library's exception
template <class F> inline bool refused(F f) { try { f(); } catch (const OnexException&) { return true; } return false; }

// ratio alphabet
inline void reset(mc::Ctx&) {
  env::now() += 1000; env::onClock() = nullptr;
  std::cout.rdbuf(&env::nullBuf());
  std::cout.clear();
  setWarpingBandRatio(0.1); ref::unit() = 1;
}
// fills a table from choices, one alphabet index per cell
inline Tab chooseTab(mc::Ctx& c, int r, int cols, const std::vector<double>& alphabet) {
  Tab t(r, cols); for (auto& x : t.v) x = alphabet[c.choose((int)alphabet.size())]; return t;
}
inline Seq chooseSeq(mc::Ctx& c, int n, const std::vector<double>& alphabet) { Seq s(n); for (auto& x : s) x = alphabet[c.choose((int)alphabet.size())]; return s; }
#ifdef SINGLE_PRECISION
inline TimeSeries view(const Seq& s) { TimeSeries t((int)s.size()); for (size_t i = 0; i < s.size(); i++) t[(int)i] = (data_t)s[i]; return t; }
#else
inline TimeSeries view(Seq& s) { return TimeSeries(s.data(), (int)s.size()); }
#endif
inline bool sameBits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
inline uint64_t hashOf(const Tab& t) { mc::Hash h; h.u(t.r); h.u(t.c); for (double x : t.v) h.d(x); return h.h; }
inline uint64_t hashOf(const Seq& s) { mc::Hash h; for (double x : s) h.d(x); return h.h; }
inline uint64_t hashOf(const std::string& s) { mc::Hash h; h.s(s); return h.h; }
}
#endif

// C14 Unsuitable group files are refused and harm nothing.
#include "group_check.hpp"
using namespace u;
static mc::Check K;
struct Base { Tab t; double st; const char* d; };
static std::vector<Base> bases(bool thorough) {
  std::vector<Base> b; auto add = [&](int r, int n, std::vector<double> v, double st, const char* d) { Tab t(r, n); t.v = v; b.push_back({t, st, d}); };
  add(1, 2, {1, 2}, 0.5, "euclidean"); add(1, 3, {0, 1, 0.25}, 1.5, "euclidean"); add(2, 2, {1, 2, 1, 2}, 0, "euclidean"); add(2, 3, {1, 2, 3, 1, 1, 1}, 1.25, "euclidean_dtw"); add(3, 1, {1, 2, 3}, 1, "euclidean");
  add(1, 12, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, 3, "euclidean"); add(12, 2, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, 1, "euclidean"); if (thorough) add(3, 4, {1, 0, 2, 1, 1, 1, 1, 1, 0, 2, 0, 2}, 2, "euclidean_dtw");
  return b;
}
static std::string originalFile(mc::Ctx& c, const Base& b, GroupableTimeSeriesSet& s, bool sizes = false) { load(c, s, b.t); s.groupAllLengths(b.d, b.st); std::string p = c.file("o.txt"); s.saveGroups(p, sizes); return get(p); }
// loads the (possibly damaged) text into a set with groups; checks acceptance and state
static void attempt(mc::Ctx& c, const Tab& t, const std::string& text, bool pre, bool mustRefuse = false) {
  GroupableTimeSeriesSet s; load(c, s, t); std::string before; if (pre) { s.groupAllLengths("euclidean", 0.9); std::string p = c.file("p.txt"); s.saveGroups(p, false); before = get(p); }
  std::string f = c.file("x.txt"); put(f, text); int n = -1; bool r = refused([&] { n = s.loadGroups(f); }); c.op(); c.checked();
  if (!(values(s) == t)) c.fail("the data changed");
  if (r) {
    if (s.isGrouped() != pre) c.fail("a refused group file left the dataset %s", s.isGrouped() ? "grouped" : "ungrouped");
    if (pre) { std::string p = c.file("p.txt"); s.saveGroups(p, false); if (get(p) != before) c.fail("a refused group file changed the groups"); ref::GroupFile g = groupsOf(c, s); Seq q = t.row(0); TimeSeries Q = view(q); matchAndCheck(c, g.groups, t, q, 0.1, [&] { return s.getBestMatch(Q); }); }
    c.observe(1); return;
  }
  ref::GroupFile want; if (!ref::parseGroupFile(text, want)) c.fail("an unsuitable group file was accepted (%s):\n%s", want.error.c_str(), text.substr(0, 1200).c_str());
  if (want.version != 1 || want.items != t.r || want.length != t.c) c.fail("a group file of version %d for %dx%d was accepted", want.version, want.items, want.length);
  std::string rest; if (mustRefuse) c.fail("an unsuitable group file was accepted:\n%s", text.substr(0, 1200).c_str());
  ref::GroupFile got = groupsOf(c, s); if (ref::canon(got.groups) != ref::canon(want.groups) || got.distance != want.distance || !(got.st == want.st || (got.st != got.st && want.st != want.st))) c.fail("the groups are not those of the file\n file   %s\n groups %s", ref::canon(want.groups).substr(0, 600).c_str(), ref::canon(got.groups).substr(0, 600).c_str());
  if (n != ref::total(want.groups)) c.fail("%d groups reported, the file has %d", n, ref::total(want.groups));
  bool fin = true; for (auto& k : want.groups) for (auto& g : k.second) for (double x : g.rep) fin &= std::isfinite(x) && std::fabs(x) < 1e100;
  if (fin) { Seq q = t.row(0); TimeSeries Q = view(q); matchAndCheck(c, want.groups, t, q, 0.1, [&] { return s.getBestMatch(Q); }, false); }
  c.observe(hashOf(ref::canon(want.groups)));
}
static std::vector<std::pair<size_t, size_t>> tokens(const std::string& t) { std::vector<std::pair<size_t, size_t>> v; size_t i = 0; while (i < t.size()) { if (isspace((unsigned char)t[i])) { i++; continue; } size_t b = i; while (i < t.size() && !isspace((unsigned char)t[i])) i++; v.push_back({b, i}); } return v; }
static std::string write(const ref::GroupFile& g, int len, int at, int count) {   // with a group of the given count and no members before group 'at' of length 'len' (at < 0: none)
  std::string o; char b[64]; auto num = [&](double x) { snprintf(b, 64, "%.17g ", x); o += b; }; auto in = [&](int x) { snprintf(b, 64, "%d ", x); o += b; };
  in(g.version); num(g.st); in(g.items); in(g.length); o += "\n"; in(g.from); in(g.to); o += "\n" + g.distance + "\n";
  for (auto& k : g.groups) {
    bool here = at >= 0 && k.first == len; in((int)k.second.size() + here); o += "\n";
    for (size_t i = 0; i <= k.second.size(); i++) {
      if (here && (int)i == at) { for (int j = 0; j < len; j++) num(0.25 * j); o += "\n"; in(count); o += "\n"; }
      if (i < k.second.size()) { for (double x : k.second[i].rep) num(x); o += "\n"; in((int)k.second[i].members.size()); for (auto& m : k.second[i].members) { in(m.first); in(m.second); } o += "\n"; }
    }
  }
  return o;
}
static Base chooseBase(mc::Ctx& c) { auto b = bases(c.thorough); return b[c.choose((int)b.size())]; }
int init = [] {
  K.property = "C14"; K.before = u::reset;
  K.rule = "every truncation, single-token replacement, deletion, duplication, swap and line edit of saved group files is loaded into an ungrouped or differently grouped copy; refusal must leave everything as it was; an accepted file must be a complete partition by an independent reader and be exactly what the dataset then holds";
  K.assumptions = {"files do not change while being read"};
  K.add("every truncation point", 3, [](mc::Ctx& c) { Base b = chooseBase(c); bool pre = c.flip(); GroupableTimeSeriesSet s; std::string t = originalFile(c, b, s); int n = c.choose((int)t.size() + 1); c.note("%zu bytes cut to %d", t.size(), n); attempt(c, b.t, t.substr(0, n), pre); });
  K.add("every replacement of one token", 3, [](mc::Ctx& c) {
    Base b = chooseBase(c); bool pre = c.flip(); GroupableTimeSeriesSet s; std::string t = originalFile(c, b, s); auto k = tokens(t); int i = c.choose((int)k.size());
    static const std::vector<std::string> R{"0", "1", "2", "3", "-1", "13", "1000000", "2147483647", "-2147483648", "99999999999", "x", "1.5", "0.5", ".5", "1e3", "nan", "", "1x", "euclidean", "euclidean_dtw", "euclideann", "euclidea", "euclidean_", "euclidean_dt", "euclidean_dtw2", "Euclidean", "xeuclidean", "warped", "-0", "007", "4294967296", "0x1", "+1", "\x01"};
    const std::string& w = c.pick(R); c.note("token %d '%s' becomes '%s'", i, t.substr(k[i].first, k[i].second - k[i].first).c_str(), w.c_str()); attempt(c, b.t, t.substr(0, k[i].first) + w + t.substr(k[i].second), pre);
  });
  K.add("every token one more or one less", 3, [](mc::Ctx& c) {
    Base b = chooseBase(c); bool pre = c.flip(); GroupableTimeSeriesSet s; std::string t = originalFile(c, b, s); auto k = tokens(t); int i = c.choose((int)k.size()), d = c.choose(2) * 2 - 1; std::string w = t.substr(k[i].first, k[i].second - k[i].first); char* e; double v = strtod(w.c_str(), &e); if (*e) return; char buf[40]; snprintf(buf, 40, "%.17g", v + d); c.note("token %d '%s' becomes '%s'", i, w.c_str(), buf); attempt(c, b.t, t.substr(0, k[i].first) + buf + t.substr(k[i].second), pre);
  });
  K.add("every swap of two tokens up to 6 apart", 3, [](mc::Ctx& c) {
    Base b = chooseBase(c); bool pre = c.flip(); GroupableTimeSeriesSet s; std::string t = originalFile(c, b, s); auto k = tokens(t); int i = c.choose((int)k.size() - 1), j = std::min<int>((int)k.size() - 1, i + c.range(1, 6)); std::string x = t.substr(k[i].first, k[i].second - k[i].first), y = t.substr(k[j].first, k[j].second - k[j].first);
    c.note("tokens %d and %d swapped", i, j); attempt(c, b.t, t.substr(0, k[i].first) + y + t.substr(k[i].second, k[j].first - k[i].second) + x + t.substr(k[j].second), pre);
  });
  K.add("every line or token deleted, doubled or moved", 3, [](mc::Ctx& c) {
    Base b = chooseBase(c); bool pre = c.flip(); GroupableTimeSeriesSet s; std::string t = originalFile(c, b, s); std::vector<std::string> l; bool tok = c.flip();
    if (tok) for (auto& k : tokens(t)) l.push_back(t.substr(k.first, k.second - k.first) + " "); else { std::istringstream is(t); std::string x; while (std::getline(is, x)) l.push_back(x + "\n"); }
    int i = c.choose((int)l.size()), how = c.choose(3); c.note("%s %d %s", tok ? "token" : "line", i, how == 0 ? "deleted" : how == 1 ? "doubled" : "moved to the end"); std::string x = l[i]; if (how == 1) l.insert(l.begin() + i, x); else { l.erase(l.begin() + i); if (how == 2) l.push_back(x); } std::string o; for (auto& q : l) o += q; attempt(c, b.t, o, pre);
  });
  K.add("two edits: every token and every later token set to small numbers", 3, [](mc::Ctx& c) {
    auto bs = bases(false); Base b = bs[c.choose(c.thorough ? 5 : 4)]; GroupableTimeSeriesSet s; std::string t = originalFile(c, b, s); auto k = tokens(t); int n = (int)k.size(); int i = c.choose(n), j = c.choose(n); static const std::vector<std::string> R{"0", "1", "2", "-1", "3", ""}; std::string x = c.pick(R), y = c.pick(R); if (i >= j) return;
    c.note("token %d '%s' token %d '%s'", i, x.c_str(), j, y.c_str()); attempt(c, b.t, t.substr(0, k[i].first) + x + t.substr(k[i].second, k[j].first - k[i].second) + y + t.substr(k[j].second), true);
  });
  K.add("size-only files, other datasets' files, garbage after the end, other files", 2, [](mc::Ctx& c) {
    auto bs = bases(c.thorough); Base b = bs[c.choose((int)bs.size())]; bool pre = c.flip(); int how = c.choose(9 + (int)bs.size()); GroupableTimeSeriesSet s; c.note("kind %d", how); std::string t = originalFile(c, b, s), z = originalFile(c, b, s, true);
    if (how == 0) attempt(c, b.t, z, pre, b.t.c > 1); else if (how == 1) attempt(c, b.t, t + "1", pre, true); else if (how == 2) attempt(c, b.t, t + t, pre, true); else if (how == 3) attempt(c, b.t, "", pre, true); else if (how == 4) attempt(c, b.t, "garbage\n", pre, true); else if (how == 5) attempt(c, b.t, std::string("\0\0\0\0\xff\xfe", 6), pre, true); else if (how == 6) attempt(c, b.t, ref::text(b.t), pre, true);
    else if (how <= 8) { GroupableTimeSeriesSet q; load(c, q, b.t); if (pre) q.groupAllLengths("euclidean", 1); std::string p = how == 7 ? c.file("does-not-exist") : c.dir; c.op(); if (!refused([&] { q.loadGroups(p); })) c.fail("a %s was accepted", how == 7 ? "missing file" : "directory"); if (q.isGrouped() != pre) c.fail("grouped flag changed"); }
    else { Base o = bs[how - 9]; GroupableTimeSeriesSet q; std::string ot = originalFile(c, o, q); attempt(c, b.t, ot, pre, o.t.r != b.t.r || o.t.c != b.t.c); }
  });
  K.add("a dataset without data refuses every group file", 1, [](mc::Ctx& c) {
    int h = c.choose(2), k = c.choose(4); GroupableTimeSeriesSet s; if (h) { load(c, s, Tab(2, 2, 1)); s.clearData(); } static const std::vector<std::string> F{"1 0.5 0 0\n2 1\neuclidean\n", "1 0.5 0 0\n2 0\neuclidean\n", "1 0.5 2 2\n2 3\neuclidean\n1\n1 1\n2 1 0 0 0\n", "1 0.5 0 0\n"}; std::string f = c.file("f.txt"); put(f, F[k]); c.op(); c.note("file %d", k); if (!refused([&] { s.loadGroups(f); }) || s.isGrouped()) c.fail("groups loaded without data"); c.observe(k);
  });
  K.add("larger files: every truncation, and every token replaced, deleted or doubled", 3, [](mc::Ctx& c) {
    int shape = c.choose(4); static const std::vector<std::pair<int, int>> S{{40, 2}, {130, 2}, {5, 6}, {1, 14}}; Tab t(S[shape].first, S[shape].second); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = shape == 1 ? 1 : (double)(i * i % 23); Base b{t, 4, "euclidean"}; GroupableTimeSeriesSet s; std::string x = originalFile(c, b, s); auto k = tokens(x); int how = c.choose(9), i = c.choose((int)k.size()); std::string w = x.substr(k[i].first, k[i].second - k[i].first), pre = x.substr(0, k[i].first), post = x.substr(k[i].second); c.note("%dx%d token %d '%s' edit %d", t.r, t.c, i, w.c_str(), how); char* e; double v = strtod(w.c_str(), &e); bool num = !*e; char buf[40]; snprintf(buf, 40, "%.17g", v + (how == 3 ? 1 : -1));
    switch (how) { case 0: attempt(c, t, pre, true); break; case 1: attempt(c, t, pre + w.substr(0, w.size() / 2), true); break; case 2: attempt(c, t, pre + post, true); break; case 3: case 4: if (num) attempt(c, t, pre + buf + post, true); break; case 5: attempt(c, t, pre + "0" + post, true); break; case 6: attempt(c, t, pre + w + " " + w + post, true); break; case 7: attempt(c, t, pre + "4294967296" + post, true); break; default: attempt(c, t, pre + "x" + post, true); }
  });
  K.add("a group without members at every place", 3, [](mc::Ctx& c) {
    Base b = chooseBase(c); bool pre = c.flip(); GroupableTimeSeriesSet s; std::string t = originalFile(c, b, s); ref::GroupFile g; if (!ref::parseGroupFile(t, g)) c.fail("saved groups not readable: %s", g.error.c_str());
    int len = c.range(2, b.t.c > 6 ? 6 : std::max(2, b.t.c)); int count = c.pick(std::vector<int>{0, -1, -2, -2147483647 - 1}); if (len > b.t.c) return; int at = c.choose((int)g.groups[len].size() + 1);
    c.note("length %d, an extra group with count %d before group %d", len, count, at); attempt(c, b.t, write(g, 0, -1, 0), pre); attempt(c, b.t, write(g, len, at, count), pre, true);
  });
  K.add("whole groups exchanged, merged, split, dropped or repeated", 3, [](mc::Ctx& c) {
    Base b = chooseBase(c); bool pre = c.flip(); GroupableTimeSeriesSet s; std::string t = originalFile(c, b, s); ref::GroupFile g; if (!ref::parseGroupFile(t, g)) c.fail("saved groups not readable: %s", g.error.c_str());
    int len = c.range(2, b.t.c > 6 ? 6 : std::max(2, b.t.c)); int how = c.choose(9); if (len > b.t.c) return; auto& v = g.groups[len]; int i = c.choose((int)v.size()), j = c.choose((int)v.size()); c.note("length %d, groups %d and %d, edit %d", len, i, j, how); bool bad = false;
    switch (how) {
      case 0: std::swap(v[i], v[j]); break;                                                                                                     // another order of groups
      case 1: if (i == j) return; for (auto& m : v[j].members) v[i].members.push_back(m); v.erase(v.begin() + j); break;                        // merged
      case 2: if (v[i].members.size() < 2) return; { ref::Group n = v[i]; n.members.erase(n.members.begin()); v[i].members.resize(1); v.push_back(n); } break;   // split
      case 3: v.erase(v.begin() + i); bad = true; break;
      case 4: v.insert(v.begin() + j, ref::Group(v[i])); bad = true; break;
      case 5: std::reverse(v[i].members.begin(), v[i].members.end()); break;
      case 6: if (i == j) return; v[j].members.push_back(v[i].members.back()); bad = true; break;                                               // one member in two groups
      case 7: if (i == j || v[i].members.size() < 2) return; v[j].members.push_back(v[i].members.back()); v[i].members.pop_back(); break;       // one member moved
      default: if (v[i].members.size() < 2) return; v[i].members.pop_back(); bad = true; break;                                                // one member lost
    }
    attempt(c, b.t, write(g, 0, -1, 0), pre, bad);
  });
  return 0;
}();
MC_MAIN(K)

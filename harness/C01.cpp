// C01 Normalisation maps a dataset exactly onto [0,1].
#include "onex_util.hpp"
using namespace u;
static mc::Check K;

// normalises a loaded set and compares with the closed form on the original table
template <class SET> static Tab verify(mc::Ctx& c, SET& s, const Tab& before) {
  double mn, mx; Tab want = ref::normalize(before, mn, mx);
  std::pair<data_t, data_t> got = s.normalize(); c.op();
  if (s.getItemCount() != before.r || s.getItemLength() != before.c) c.fail("dimensions changed to %dx%d", s.getItemCount(), s.getItemLength());
  if (!(got.first == mn && got.second == mx)) c.fail("reported (%.17g, %.17g), true extremes (%.17g, %.17g) of %s", got.first, got.second, mn, mx, ref::str(before).c_str());
  Tab now = values(s);
  for (size_t i = 0; i < now.v.size(); i++) {
    if (!ref::close(now.v[i], want.v[i], 1e-12)) c.fail("value %zu became %.17g instead of %.17g; table %s", i, now.v[i], want.v[i], ref::str(before).c_str());
    if ((want.v[i] == 0 || want.v[i] == 1) && now.v[i] != want.v[i]) c.fail("an extreme became %.17g instead of %g; table %s", now.v[i], want.v[i], before.v.size() < 100 ? ref::str(before).c_str() : "");
    if (!(now.v[i] >= 0 && now.v[i] <= 1)) c.fail("value %.17g outside [0,1]", now.v[i]);
  }
  if (!s.isNormalized()) c.fail("not marked as normalised");
  c.checked(); c.observe(hashOf(now));
  return now;
}

int init = [] {
  K.property = "C01"; K.before = u::reset;
  K.rule = "every table of the listed shapes and values (or every placement of the extremes in a larger shape) is loaded from a file, normalised through the library and compared with (v-min)/(max-min) of the loaded table";
  K.assumptions = {"finite values whose range does not overflow"};
  // 1. all tables with up to 9 cells over three values, normalised twice
  K.add("all tables up to 9 cells over {-1,0,2.5}, twice", 4, [](mc::Ctx& c) {
    static const std::vector<double> A{0, -1, 2.5};
    int cells = c.thorough ? 10 : 8;
    int r = c.range(1, cells), n = c.range(1, cells / r);
    Tab t = chooseTab(c, r, n, A);
    c.note("table %s", ref::str(t).c_str());
    GroupableTimeSeriesSet s; load(c, s, t); c.op();
    Tab n1 = verify(c, s, t);
    verify(c, s, n1);
  });
  // 2. every placement of the extremes, every shape
  K.add("every (argmin,argmax) placement in every shape", 3, [](mc::Ctx& c) {
    int R = c.thorough ? 9 : 6, C = c.thorough ? 12 : 9;
    int r = c.range(1, R), n = c.range(1, C);
    int cells = r * n;
    int lo = c.choose(cells), hi = c.choose(cells);
    int sign = c.choose(2);
    Tab t(r, n); for (int i = 0; i < cells; i++) t.v[i] = (sign ? -40 : 10) + ((i * 7) % 5) * 0.25;
    t.v[lo] = sign ? -77.5 : 3; t.v[hi] = sign ? -2 : 93.125;
    c.note("shape %dx%d, min at %d, max at %d, sign %d", r, n, lo, hi, sign);
    GroupableTimeSeriesSet s; load(c, s, t); c.op();
    verify(c, s, t);
  });
  // 3. long series and many series: extremes at every position
  K.add("long and tall shapes, one extreme at every position", 2, [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> S{{1, 97}, {1, 128}, {2, 65}, {2, 101}, {3, 64}, {3, 33}, {64, 1}, {65, 1}, {64, 2}, {101, 2}, {65, 3}, {16, 16}, {17, 17}, {16, 17}, {17, 16}, {32, 33}};
    std::pair<int, int> rc = c.pick(S); int cells = rc.first * rc.second;
    int at = c.choose(cells); bool mx = c.flip();
    Tab t(rc.first, rc.second); for (int i = 0; i < cells; i++) t.v[i] = 1 + (i % 3);
    t.v[at] = mx ? 50 : -50;
    c.note("shape %dx%d, %s at %d", rc.first, rc.second, mx ? "max" : "min", at);
    GroupableTimeSeriesSet s; load(c, s, t); c.op();
    verify(c, s, t);
  });
  K.add("every size of the ladder, one extreme at either end, next to it or in the middle", 2, [](mc::Ctx& c) {
    static const std::vector<int> L = ladder(c.thorough ? 200000 : 70000); int n = c.pick(L), shape = c.choose(6), w = 1 + shape % 3; Tab t(shape < 3 ? w : n, shape < 3 ? n : w); int cells = t.r * t.c;
    int where = c.choose(5), at = where == 0 ? 0 : where == 1 ? cells - 1 : where == 2 ? cells / 2 : where == 3 ? std::min(1, cells - 1) : std::max(0, cells - 2); bool mx = c.flip();
    for (int i = 0; i < cells; i++) t.v[i] = 1 + (i % 3); t.v[at] = mx ? 50 : -50; c.note("shape %dx%d, %s at %d", t.r, t.c, mx ? "max" : "min", at);
    GroupableTimeSeriesSet s; load(c, s, t); c.op(); verify(c, s, t);
  });
  K.add("every integer range: the extremes become exactly 0 and 1", 1, [](mc::Ctx& c) {
    int d = c.range(1, c.thorough ? 6000 : 1500), lo = c.choose(3) * 7 - 7; double q = c.flip() ? 0.1 : 1; Tab t(1, 4); t.v = {lo * q, (lo + d) * q, (lo + d / 2) * q, (lo + d / 3.0) * q}; c.note("table %s", ref::str(t).c_str());
    GroupableTimeSeriesSet s; load(c, s, t); c.op(); verify(c, s, t);
  });
  // 4. magnitudes and constants
  K.add("magnitudes: tiny, huge, constant, negative ranges", 2, [](mc::Ctx& c) {
    static const std::vector<double> A{0, 1, -1, 1e-12, 1e12, -1e12, 5, 1e-300, 0.1, 1e150, -1e150};
    int r = c.range(1, 3), n = c.range(1, 3);
    double base = c.pick(A); Tab t(r, n, base);
    if (c.flip()) { int at = c.choose(r * n); t.v[at] = c.pick(A); if (c.flip()) { int b = c.choose(r * n); t.v[b] = c.pick(A); } }
    double mn, mx; ref::normalize(t, mn, mx);
    c.note("table %s", ref::str(t).c_str());
    GroupableTimeSeriesSet s; load(c, s, t); c.op();
    verify(c, s, t);
  });
  // 5. histories through the session interface: two datasets, normalise / PAA in any order; the other is untouched
  K.add("session histories of normalise and block averaging, other dataset untouched", 3, [](mc::Ctx& c) {
    int r = c.range(1, 3), n = c.range(1, 5);
    Tab t(r, n); for (int i = 0; i < r * n; i++) t.v[i] = ((i * 5 + 2) % 7) - 1.5;
    Tab o(2, 3); for (int i = 0; i < 6; i++) o.v[i] = i * i - 3;
    OnexAPI api; api.loadDataset(tabFile(c, o), 0, 0, " "); std::string f = tabFile(c, t); api.loadDataset(f, 0, 0, " "); api.loadDataset(tabFile(c, o), 0, 0, " "); c.op(3);
    std::string of = c.file("o.txt"), of2 = c.file("o2.txt"); api.saveDataset(0, of, ' '); std::string o0 = u::get(of);
    Tab cur = t; bool norm = false;
    int depth = c.thorough ? 4 : 3;
    for (int k = 0; k < depth; k++) {
      int what = c.choose(4);
      if (what == 0) break;
      if (what == 1) {
        double mn, mx; Tab want = ref::normalize(cur, mn, mx);
        c.note("normalize(1) of %s", ref::str(cur).c_str());
        auto g = api.normalizeDataset(1); c.op();
        if (!(ref::close(g.first, mn, 1e-12) && ref::close(g.second, mx, 1e-12))) c.fail("reported (%.17g,%.17g) instead of (%.17g,%.17g)", g.first, g.second, mn, mx);
        cur = want; norm = true;
      } else { int b = what; c.note("PAA(1,%d)", b); api.PAA(1, b); c.op(); cur = ref::paa(cur, b); }
      dataset_info_t i = api.getDatasetInfo(1);
      if (i.itemCount != cur.r || i.itemLength != cur.c || i.name != f || i.isNormalized != norm) c.fail("info: %dx%d normalised=%d name=%s, expected %dx%d normalised=%d", i.itemCount, i.itemLength, i.isNormalized, i.name.c_str(), cur.r, cur.c, norm);
      std::string sf = c.file("s.txt"); api.saveDataset(1, sf, ' ');
      GroupableTimeSeriesSet s; s.loadData(sf, 0, 0, " "); Tab now = values(s);
      if (now.r != cur.r || now.c != cur.c) c.fail("saved shape");
      for (size_t q = 0; q < now.v.size(); q++) if (!ref::close(now.v[q], cur.v[q], 1e-5)) c.fail("value %zu is %.17g, expected %.17g", q, now.v[q], cur.v[q]);
      for (int d : {0, 2}) {
        if (api.getDatasetInfo(d).isNormalized) c.fail("dataset %d became normalised", d);
        api.saveDataset(d, of2, ' '); if (u::get(of2) != o0) c.fail("dataset %d changed", d);
      }
      c.observe(hashOf(now)); c.checked();
    }
  });
  K.add("empty dataset is refused", 1, [](mc::Ctx& c) {
    GroupableTimeSeriesSet s; int k = c.choose(2);
    if (k) { Tab t(2, 2, 1); t.v[0] = 3; load(c, s, t); s.clearData(); c.op(2); }
    if (!refused([&] { s.normalize(); })) c.fail("normalising an empty dataset was not refused");
    if (s.getItemCount() != 0 || s.isLoaded()) c.fail("refused normalisation created data");
    c.op(); c.observe(k);
  });
  return 0;
}();
MC_MAIN(K)

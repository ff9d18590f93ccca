// C02 Block averaging replaces each series by its block means.
#include "onex_util.hpp"
using namespace u;
static mc::Check K;

static void same(mc::Ctx& c, const Tab& now, const Tab& want, int n) {
  if (now.r != want.r || now.c != want.c) c.fail("block size %d gave %dx%d instead of %dx%d", n, now.r, now.c, want.r, want.c);
  for (size_t i = 0; i < now.v.size(); i++) if (!ref::close(now.v[i], want.v[i], 1e-12)) c.fail("block size %d: point %zu of series %zu is %.17g instead of %.17g", n, i % now.c, i / now.c, now.v[i], want.v[i]);
  c.checked();
}
int init = [] {
  K.property = "C02"; K.before = u::reset;
  K.rule = "every table of the listed shapes is loaded, averaged with every block size (and every sequence of block sizes) and compared with the block means of the loaded table";
  K.assumptions = {"finite values whose block sums do not overflow"};
  K.add("all tables up to 8 cells over 3 values, every block size", 4, [](mc::Ctx& c) {
    int cells = c.thorough ? 9 : 7; int r = c.range(1, cells), n = c.range(1, cells / r);
    static const std::vector<double> A{0, -1, 2.5};
    Tab t = chooseTab(c, r, n, A);
    static const std::vector<int> extra{-2147483647 - 1, -7, -1, 0, 1000, 2147483647};
    int k = c.choose(n + 1 + (int)extra.size()); int b = k <= n ? k + 1 : extra[k - n - 1];
    c.note("table %s block %d", ref::str(t).c_str(), b);
    GroupableTimeSeriesSet s; load(c, s, t); c.op(2);
    if (b <= 0) {
      if (!refused([&] { s.PAA(b); })) c.fail("block size %d was accepted", b);
      same(c, values(s), t, b); c.observe(b); return;
    }
    s.PAA(b); Tab w = ref::paa(t, b); same(c, values(s), w, b); c.observe(hashOf(w));
    if (!s.isLoaded()) c.fail("not loaded any more");
  });
  K.add("a distinct value at every position of larger shapes, every block size", 2, [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> S{{1, 130}, {2, 97}, {3, 64}, {7, 31}, {16, 17}, {40, 9}, {65, 2}, {130, 1}, {5, 12}, {4, 33}};
    std::pair<int, int> rc = c.pick(S); int b = c.range(1, rc.second + 2); int mode = c.choose(3);
    Tab t(rc.first, rc.second); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = mode == 0 ? (double)i : mode == 1 ? std::sin(i * 1.7) * 1e6 : (i % 2 ? -1e-6 : 1e-6) * (i + 1);
    c.note("shape %dx%d block %d values %d", rc.first, rc.second, b, mode);
    GroupableTimeSeriesSet s; load(c, s, t); c.op(2);
    s.PAA(b); Tab w = ref::paa(t, b); same(c, values(s), w, b); c.observe(hashOf(w));
  });
  K.add("every size of the ladder, blocks around the ends of the range", 2, [](mc::Ctx& c) {
    static const std::vector<int> L = ladder(c.thorough ? 200000 : 70000); int n = c.pick(L), shape = c.choose(3); Tab t(shape == 0 ? 1 : shape == 1 ? 2 : n, shape == 2 ? 3 : n);
    for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (double)(i % 1021) - (double)(i / 1021); std::vector<int> B{1, 2, 3, 7, t.c / 2, t.c / 2 + 1, t.c - 1, t.c, t.c + 1}; int b = std::max(1, c.pick(B)); if (t.c > 40 && c.flip()) b = std::min(t.c, std::max(1, t.c - 1 - (int)std::sqrt((double)t.c)));
    c.note("shape %dx%d block %d", t.r, t.c, b); GroupableTimeSeriesSet s; load(c, s, t); c.op(2); s.PAA(b); Tab w = ref::paa(t, b); same(c, values(s), w, b); c.observe(hashOf(w));
  });
  K.add("values of very different magnitudes: every block mean is as exact as its own values allow", 3, [](mc::Ctx& c) {
    static const std::vector<double> A{1e17, -1e17, 1, 2.5, 1e-9, -3e-12}; int n = c.range(1, c.thorough ? 7 : 6), r = c.range(1, n <= 2 ? 2 : 1); Tab t = chooseTab(c, r, n, A); int b = c.range(1, n + 1);
    c.note("table %s block %d", ref::str(t).c_str(), b); GroupableTimeSeriesSet s; load(c, s, t); c.op(2); s.PAA(b); Tab w = ref::paa(t, b), now = values(s); if (now.r != w.r || now.c != w.c) c.fail("%dx%d instead of %dx%d", now.r, now.c, w.r, w.c);
    for (int i = 0; i < w.r; i++) for (int k = 0; k < w.c; k++) { double big = 0; for (int j = k * b; j < std::min(t.c, (k + 1) * b); j++) big = std::max(big, std::fabs(t.at(i, j))); if (!(std::fabs(now.at(i, k) - w.at(i, k)) <= 1e-14 * big)) c.fail("block %d of series %d is %.17g instead of %.17g", k, i, now.at(i, k), w.at(i, k)); }
    c.checked(); c.observe(hashOf(w));
  });
  K.add("every sequence of block sizes (also refused ones) through the session", 2, [](mc::Ctx& c) {
    int r = c.range(1, 3), n = c.range(1, c.thorough ? 17 : 13);
    Tab t(r, n), o(2, 5); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (int)(i * 7 % 11) - 2.25; for (int i = 0; i < 10; i++) o.v[i] = i * i;
    OnexAPI api; api.loadDataset(tabFile(c, o), 0, 0, " "); std::string f = tabFile(c, t); api.loadDataset(f, 0, 0, " ");
    Tab cur = t; static const std::vector<int> B{0, 1, 2, 3, 5, -1, 0};
    std::vector<int> hist;
    for (int k = 0; k < (c.thorough ? 4 : 3); k++) {
      int x = c.choose((int)B.size()); if (x == (int)B.size() - 1) break; int b = B[x];
      c.note("PAA(%d)", b); c.op();
      if (b <= 0) { if (!refused([&] { api.PAA(1, b); })) c.fail("block size %d was accepted", b); }
      else { dataset_info_t i = api.PAA(1, b); cur = ref::paa(cur, b); if (i.itemCount != cur.r || i.itemLength != cur.c || i.id != 1 || i.name != f) c.fail("reported %dx%d id %d", i.itemCount, i.itemLength, i.id); }
      dataset_info_t i = api.getDatasetInfo(1);
      if (i.itemCount != cur.r || i.itemLength != cur.c || i.isNormalized) c.fail("info %dx%d normalised=%d", i.itemCount, i.itemLength, i.isNormalized);
      if (!refused([&] { api.PAA(2, 2); }) || !refused([&] { api.PAA(-1, 2); })) c.fail("unknown dataset accepted");
    }
    std::string p = c.file("s.txt"); api.saveDataset(1, p, ' '); GroupableTimeSeriesSet s; s.loadData(p, 0, 0, " "); Tab now = values(s);
    if (now.r != cur.r || now.c != cur.c) c.fail("saved %dx%d instead of %dx%d", now.r, now.c, cur.r, cur.c);
    for (size_t i = 0; i < now.v.size(); i++) if (!ref::close(now.v[i], cur.v[i], 1e-5)) c.fail("value %zu is %.17g instead of %.17g", i, now.v[i], cur.v[i]);
    api.saveDataset(0, p, ' '); GroupableTimeSeriesSet s0; s0.loadData(p, 0, 0, " "); if (!(values(s0) == o)) c.fail("the other dataset changed");
    c.observe(hashOf(cur)); c.checked();
  });
  K.add("datasets without data are refused", 1, [](mc::Ctx& c) {
    int how = c.choose(3), b = c.range(-1, 4); GroupableTimeSeriesSet s; Tab t(2, 3, 1.5);
    if (how) { load(c, s, t); if (how == 2) s.PAA(2); s.clearData(); }
    c.note("history %d, block %d", how, b); c.op();
    if (!refused([&] { s.PAA(b); })) c.fail("averaging a dataset without data was not refused");
    if (s.isLoaded() || s.getItemCount() != 0 || s.getItemLength() != 0) c.fail("averaging nothing made up %dx%d", s.getItemCount(), s.getItemLength());
    load(c, s, t); if (!(values(s) == t)) c.fail("cannot be used afterwards"); c.observe(b);
  });
  K.add("datasets that were normalised before being averaged, every shape and block size", 2, [](mc::Ctx& c) {
    int r = c.range(1, 4), n = c.range(1, c.thorough ? 40 : 26), b = c.range(1, n + 2), mode = c.choose(4); Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (double)(i * i * 3 % 17) - (double)(i % 4) * 0.25; if (t.v.size() == 1 || (r == 1 && n == 2)) t.v[0] = 50; bool flat = true; for (double x : t.v) flat &= x == t.v[0]; if (flat) t.v[0] -= 3; if (t.v.size() == 1) return;
    c.note("%dx%d block %d mode %d", r, n, b, mode); double lo, hi; Tab w = ref::normalize(t, lo, hi); c.op(2);
    if (mode < 2) { GroupableTimeSeriesSet s; load(c, s, t); if (mode) s.groupAllLengths("euclidean", 0.5); s.normalize(); Tab base = values(s); for (size_t i = 0; i < w.v.size(); i++) if (!ref::close(base.v[i], w.v[i], 1e-12)) c.fail("normalised value %zu", i); s.PAA(b); same(c, values(s), ref::paa(w, b), b); if (!s.isNormalized()) { } s.PAA(2); same(c, values(s), ref::paa(ref::paa(w, b), 2), b); }
    else { OnexAPI a; std::string f = tabFile(c, t); a.loadDataset(f, 0, 0, " "); a.loadDataset(f, 0, 0, " "); a.normalizeDataset(1); if (mode == 3) a.groupDataset(1, 0.5); Tab e = ref::paa(w, b); dataset_info_t i = a.PAA(1, b); if (i.itemCount != e.r || i.itemLength != e.c) c.fail("block size %d on a normalised dataset gave %dx%d instead of %dx%d", b, i.itemCount, i.itemLength, e.r, e.c); std::string p = c.file("n.txt"); a.saveDataset(1, p, ' '); GroupableTimeSeriesSet s; s.loadData(p, 0, 0, " "); same(c, values(s), e, b); a.saveDataset(0, p, ' '); s.loadData(p, 0, 0, " "); same(c, values(s), t, b); }
    c.observe(hashOf(w));
  });
  return 0;
}();
MC_MAIN(K)

// C04 Saving a dataset and loading it back loses nothing.
#include "onex_util.hpp"
#include <cfloat>
using namespace u;
static mc::Check K;
static const std::vector<double> V{0.1, 1.0 / 3, -2.0 / 3, 1e-300, DBL_MAX, -DBL_MAX, DBL_MIN, DBL_MIN / 4, -4.9406564584124654e-324, 2.2250738585072009e-308, 123456789.123456789, 1 + DBL_EPSILON, 1 - DBL_EPSILON / 2, 0, 1, -1, 1e22, 9007199254740993.0, 4.35, -0.0, 4294967296.0, -2147483649.0, 9223372036854775808.0, 100000, 1234567, 0.30000000000000004, -1e-5};

static void roundTrip(mc::Ctx& c, const GroupableTimeSeriesSet& s, char sep) {
  Tab before = values(s); std::string p = c.file("out.txt"); s.saveData(p, sep); c.op(2);
  Tab after = values(s); for (size_t i = 0; i < before.v.size(); i++) if (!sameBits(before.v[i], after.v[i])) c.fail("saving changed value %zu in memory", i);
  GroupableTimeSeriesSet n; n.loadData(p, 0, 0, std::string(1, sep)); Tab got = values(n);
  if (got.r != before.r || got.c != before.c) c.fail("saved %dx%d, loaded %dx%d (separator %d)", before.r, before.c, got.r, got.c, sep);
  for (size_t i = 0; i < got.v.size(); i++) if (!sameBits(got.v[i], before.v[i])) c.fail("value %zu was %.17g, is %.17g after saving and loading (separator %d)", i, before.v[i], got.v[i], sep);
  c.checked(); c.observe(hashOf(before));
}
int init = [] {
  K.property = "C04"; K.before = u::reset;
  K.rule = "every listed table is loaded bit-exactly, optionally normalised/averaged, saved, loaded again and compared bit by bit";
  K.assumptions = {"finite values", "separators that cannot be part of a number or end a line"};
  K.add("all tables up to 3 cells over 27 awkward values, any history of up to 2 changes", 2, [](mc::Ctx& c) {
    int r = c.range(1, 3), n = c.range(1, 3 / r); Tab t = chooseTab(c, r, n, V);
    GroupableTimeSeriesSet s; load(c, s, t); Tab l = values(s); for (size_t i = 0; i < t.v.size(); i++) if (!sameBits(l.v[i], t.v[i]) && t.v[i] != 0) c.fail("loading %.17g gave %.17g", t.v[i], l.v[i]);
    bool big = false; for (double x : t.v) if (std::fabs(x) > 1e307) big = true;
    for (int k = 0; k < 2 && !big; k++) { int w = c.choose(4); if (!w) break; c.note(w == 1 ? "normalise" : "PAA"); if (w == 1) s.normalize(); else s.PAA(w); }
    c.note("values %s", ref::str(values(s)).c_str());
    roundTrip(c, s, c.choose(2) ? ',' : ' ');
  });
  K.add("every exponent, sign and 12 mantissas", 1, [](mc::Ctx& c) {
    int e = c.range(-1023, 1022); int sg = c.choose(2); Tab t(2, 12);
    for (int k = 0; k < 12; k++) { uint64_t m = k == 0 ? 0 : k == 1 ? 0xFFFFFFFFFFFFFull : k == 2 ? 1 : k == 3 ? 0x8000000000000ull : 0x9E3779B97F4A7C15ull * (uint64_t)(k + 13 * (e + 2000)) >> 12; uint64_t b = ((uint64_t)sg << 63) | ((uint64_t)(e + 1023) << 52) | (m & 0xFFFFFFFFFFFFFull); double d; memcpy(&d, &b, 8); t.at(0, k) = d; t.at(1, 11 - k) = -d; }
    c.note("exponent %d sign %d", e, sg);
    GroupableTimeSeriesSet s; load(c, s, t); roundTrip(c, s, ' ');
  });
  K.add("every separator character", 1, [](mc::Ctx& c) {
    static std::vector<char> S; if (S.empty()) for (int k = 1; k < 256; k++) { char ch = (char)k; if (k == '\n' || k == '+' || k == '-' || k == '.' || k == '(' || k == ')' || (k < 128 && isalnum(k) && k != 'z' && k != 'q')) continue; S.push_back(ch); }
    char sep = S[c.choose((int)S.size())]; int r = c.range(1, 3), n = c.range(1, 4); Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = V[(i * 3 + r + n) % V.size()];
    c.note("separator %d", (unsigned char)sep); GroupableTimeSeriesSet s; load(c, s, t); roundTrip(c, s, sep);
  });
  K.add("large shapes", 1, [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> S{{1, 1}, {1, 1500}, {1500, 1}, {40, 60}, {61, 33}, {128, 5}, {2, 700}, {100, 100}};
    std::pair<int, int> rc = c.pick(S); Tab t(rc.first, rc.second); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = std::sin((double)i) * std::pow(10, (double)(i % 30) - 15);
    int w = c.choose(4); c.note("shape %dx%d change %d", rc.first, rc.second, w); GroupableTimeSeriesSet s; load(c, s, t); if (w == 1) s.normalize(); if (w == 2) s.PAA(3); if (w == 3) { s.normalize(); s.PAA(2); } roundTrip(c, s, c.choose(2) ? ';' : '\t');
  });
  K.add("every size of the ladder", 2, [](mc::Ctx& c) {
    static const std::vector<int> L = ladder(c.thorough ? 140000 : 35000); int n = c.pick(L), shape = c.choose(4), kind = c.choose(3); Tab t(shape < 2 ? n : 1 + (shape == 3), shape < 2 ? 1 + shape : n);
    for (size_t i = 0; i < t.v.size(); i++) t.v[i] = kind == 0 ? std::sin((double)i) * std::pow(10, (double)(i % 40) - 20) : kind == 1 ? V[i % V.size()] : (double)(i % 1000) - 500; int how = c.choose(3); if (how && kind == 1) return; c.note("shape %dx%d values %d%s", t.r, t.c, kind, how == 1 ? ", normalised" : how == 2 ? ", averaged" : ""); GroupableTimeSeriesSet s; load(c, s, t); if (how == 1 && t.v.size() > 1) s.normalize(); if (how == 2) s.PAA(t.c > 1 ? 2 : 1); roundTrip(c, s, n % 2 ? ' ' : ',');
  });
  K.add("session: save one dataset, load it as another; saving over an older, longer file", 2, [](mc::Ctx& c) {
    OnexAPI api; int r = c.range(1, 3), n = c.range(1, 5); Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = V[(i + 2 * r) % 4] * (i + 1); Tab o(6, 9, 0.7);
    api.loadDataset(tabFile(c, o), 0, 0, " "); api.loadDataset(tabFile(c, t), 0, 0, " "); std::string p = c.file("s.txt"), q = c.file("q.txt"); unlink(p.c_str());
    if (c.flip()) { api.saveDataset(0, p, ';'); c.note("older file present"); c.op(); }
    if (c.flip()) { api.groupDataset(1, 0.5); c.op(); }
    if (c.flip()) { api.normalizeDataset(1); c.op(); }
    int info = c.choose(2); c.note("shape %dx%d", r, n);
    api.saveDataset(1, p, ';'); dataset_info_t i = api.loadDataset(p, 0, 0, ";"); c.op(2);
    dataset_info_t b = api.getDatasetInfo(1); if (i.itemCount != r || i.itemLength != n || b.itemCount != r || b.itemLength != n || i.isNormalized || i.isGrouped || i.id != 2 || i.name != p) c.fail("reloaded as %dx%d id %d", i.itemCount, i.itemLength, i.id);
    api.saveDataset(2, q, ';'); if (get(p) != get(q)) c.fail("saving the reloaded dataset writes other content: %s / %s", get(p).c_str(), get(q).c_str());
    GroupableTimeSeriesSet s; s.loadData(p, 0, 0, ";"); Tab now = values(s), want = t; double mn, mx; (void)info; if (b.isNormalized) want = ref::normalize(t, mn, mx);
    for (size_t k = 0; k < now.v.size(); k++) if (!ref::close(now.v[k], want.v[k], 1e-12)) c.fail("value %zu", k);
    c.observe(hashOf(now)); c.checked();
  });
  return 0;
}();
MC_MAIN(K)

// C20 Sequence objects keep value semantics.
#include "session.hpp"
#include <sstream>
#include <array>
using namespace u;
static mc::Check K;
static const int N = 3, A = 8;
static const double INIT[A] = {1, 5, 2, 8, 0, 3, 7, 4};

// a plain list of numbers, or a window on the array
struct Obj { bool live = true, own = true, envKnown = true; Seq v; int base = 0, index = 0, start = 0, end = 0; };
struct World {
  data_t arr[A]; Seq marr; std::vector<Obj> m; TimeSeries t[N];
  World() : marr(INIT, INIT + A), m(N), t{TimeSeries(0), TimeSeries(0), TimeSeries(0)} { for (int i = 0; i < A; i++) arr[i] = INIT[i]; }
  Seq val(int i) const { const Obj& o = m[i]; return o.own ? o.v : Seq(marr.begin() + o.base, marr.begin() + o.base + (o.end - o.start)); }
  void setView(int i, int index, int s, int e) { m[i] = Obj(); m[i].own = false; m[i].base = s; m[i].index = index; m[i].start = s; m[i].end = e; }
  void setOwn(int i, int n) { m[i] = Obj(); m[i].v = Seq(n, 0); m[i].end = n; }
  // the array changed through object `by`: envelopes of other windows are not judged any more
  void write(int i, int k, double x) { if (m[i].own) m[i].v[k] = x; else { int p = m[i].base + k; marr[p] = x; for (int j = 0; j < N; j++) if (j != i && m[j].live && !m[j].own && m[j].base <= p && p < m[j].base + (m[j].end - m[j].start)) m[j].envKnown = false; } m[i].envKnown = true; }
};
static void envelope(mc::Ctx& c, const TimeSeries& t, const Seq& v, int w, const char* who) {
  if (v.empty()) return; Seq lo = ref::envelope(v, w, false), up = ref::envelope(v, w, true); const data_t* l = t.getKeoghLower(w); for (size_t i = 0; i < v.size(); i++) if (l[i] != lo[i]) c.fail("%s: lower envelope for half-width %d at %zu is %g, should be %g; values %s", who, w, i, (double)l[i], lo[i], ref::str(v).c_str()); const data_t* u = t.getKeoghUpper(w); for (size_t i = 0; i < v.size(); i++) if (u[i] != up[i]) c.fail("%s: upper envelope for half-width %d at %zu is %g, should be %g; values %s", who, w, i, (double)u[i], up[i], ref::str(v).c_str()); c.checked();
}
static bool identify = false;        // the printed coordinates are compared too
static void compare(mc::Ctx& c, const TimeSeries& t, const Seq& v, int index, int start, int end, const char* who) {
  if (t.getLength() != (int)v.size() || t.getIndex() != index || t.getStart() != start || t.getEnd() != end) c.fail("%s: length %d, coordinates (%d,%d..%d); expected length %zu, (%d,%d..%d)", who, t.getLength(), t.getIndex(), t.getStart(), t.getEnd(), v.size(), index, start, end);
  if (identify && t.getIdentifierString() != fmt("%d [%d, %d]", index, start, end)) c.fail("%s: identifier %s, expected %d [%d, %d]", who, t.getIdentifierString().c_str(), index, start, end);
  for (size_t i = 0; i < v.size(); i++) if (t[(int)i] != v[i]) c.fail("%s: value %zu is %g, should be %g; expected %s", who, i, (double)t[(int)i], v[i], ref::str(v).c_str());
}
static void compareAll(mc::Ctx& c, World& w) { static const char* who[] = {"a", "b", "d"}; mc::Hash h; for (int i = 0; i < N; i++) if (w.m[i].live) { compare(c, w.t[i], w.val(i), w.m[i].index, w.m[i].start, w.m[i].end, who[i]); for (double x : w.val(i)) h.d(x); h.u(w.m[i].own * 8 + w.m[i].envKnown); } for (int i = 0; i < A; i++) if (w.arr[i] != w.marr[i]) c.fail("the viewed array holds %g at %d, should be %g", (double)w.arr[i], i, w.marr[i]); c.checked(); c.observe(h); }
static const int KINDS = 17;
// one operation; returns false when it does not apply (moved-from operand, overlapping accumulation)
static void op(mc::Ctx& c, World& w, int kind, int i, int j) {
  Obj &x = w.m[i], &y = w.m[j]; c.op();
  switch (kind) {
  case 0: c.note("%d becomes an own sequence of %d zeros", i, j + 2); w.t[i] = TimeSeries(j + 2); w.setOwn(i, j + 2); break;
  case 1: c.note("%d becomes the array's %d..%d", i, j, j + 4); w.t[i] = TimeSeries(w.arr, 3 + j, j, j + 4); w.setView(i, 3 + j, j, j + 4); break;
  case 2: c.note("%d becomes the first %d of the array", i, 3 + j); { TimeSeries v(w.arr, 3 + j); w.t[i] = v; } w.setView(i, 0, 0, 3 + j); break;
  case 3: if (!y.live) return; c.note("%d = %d", i, j); { TimeSeries& r = w.t[j]; w.t[i] = r; } if (i != j) { Obj k = y; k.envKnown = true; w.m[i] = k; } break;
  case 4: if (!y.live) return; c.note("%d = move(%d)", i, j); { TimeSeries& r = w.t[j]; w.t[i] = std::move(r); } if (i != j) { Obj k = y; k.envKnown = true; w.m[i] = k; w.m[j].live = false; } break;
  case 5: if (!x.live || !y.live) return; {
    Seq a = w.val(i), b = w.val(j); bool fits = a.size() == b.size();
    if (fits && !x.own && !y.own && x.base != y.base && std::abs(x.base - y.base) < (int)a.size()) return;      // overlapping windows: order of accumulation is not specified
    c.note("%d += %d", i, j); bool r = refused([&] { w.t[i] += w.t[j]; }); if (r == fits) c.fail("accumulating length %zu onto length %zu was %s", b.size(), a.size(), r ? "refused" : "accepted"); if (fits) for (size_t k = 0; k < a.size(); k++) w.write(i, (int)k, a[k] + b[k]); break; }
  case 6: case 7: { if (!x.live) return; int n = (int)w.val(i).size(), k = kind == 6 ? j : n - 1 - j; double v = 10 * (kind - 5) + j; c.note("%d[%d] = %g", i, k, v); bool r = refused([&] { w.t[i][k] = v; }); if (r != (k < 0 || k >= n)) c.fail("write at %d of %d was %s", k, n, r ? "refused" : "accepted"); if (!r) w.write(i, k, v); break; }
  case 8: { if (!x.live) return; int n = (int)w.val(i).size(); static const int OUT[] = {-1, 0, 2147483647}; int k = j == 1 ? n : OUT[j]; c.note("%d[%d] outside", i, k); if (!refused([&] { w.t[i][k] = 99; })) c.fail("write at %d of %d was accepted", k, n); const TimeSeries& ct = w.t[i]; if (!refused([&] { volatile data_t q = ct[k]; (void)q; })) c.fail("read at %d of %d was accepted", k, n); x.envKnown = x.envKnown; break; }
  case 9: case 10: case 11: { if (!x.live) return; int ww = kind == 9 ? 1 : kind == 10 ? 0 : 2 + j; if (!x.envKnown) return; c.note("envelope of %d, half-width %d", i, ww); envelope(c, w.t[i], w.val(i), ww, "sequence"); break; }
  case 12: { if (!x.live) return; c.note("copy of %d, changed", i); TimeSeries k(w.t[i]); compare(c, k, w.val(i), x.index, x.start, x.end, "copy"); Seq v = w.val(i); envelope(c, k, v, 1, "copy"); if (x.own && !v.empty()) { k[0] = -50; v[0] = -50; compare(c, k, v, x.index, x.start, x.end, "changed copy"); envelope(c, k, v, 1, "changed copy"); k += k; } break; }
  case 13: { if (!x.live) return; c.note("%d is copied and the copy outlives a change of %d", i, i); TimeSeries k(w.t[i]); Seq v = w.val(i); if (v.empty()) return; w.t[i][0] = 77; w.write(i, 0, 77); if (!x.own) v[0] = 77; compare(c, k, v, x.index, x.start, x.end, "copy"); TimeSeries k2(3); k2 = k; compare(c, k2, v, x.index, x.start, x.end, "assigned copy"); break; }
  case 14: { if (!x.live) return; c.note("%d printed", i); std::ostringstream os; w.t[i].printData(os); std::istringstream is(os.str()); Seq v = w.val(i); double q; size_t n = 0; while (is >> q) { if (n >= v.size() || q != v[n]) c.fail("printed %s, values %s", os.str().c_str(), ref::str(v).c_str()); n++; } if (n != v.size()) c.fail("printed %s, values %s", os.str().c_str(), ref::str(v).c_str()); if (w.t[i].getIdentifierString() != fmt("%d [%d, %d]", x.index, x.start, x.end)) c.fail("identifier %s", w.t[i].getIdentifierString().c_str()); break; }
  case 15: { if (!x.live) return; c.note("%d read", i); Seq v = w.val(i); for (size_t k = 0; k < v.size(); k++) if (w.t[i][(int)k] != v[k]) c.fail("value"); break; }
  default: c.note("%d becomes an own sequence holding the values of %d", i, j); if (!y.live) return; { Seq v = w.val(j); TimeSeries k((int)v.size()); for (size_t p = 0; p < v.size(); p++) k[(int)p] = v[p]; w.t[i] = k; w.setOwn(i, (int)v.size()); w.m[i].v = v; } break;
  }
}
static void finish(mc::Ctx& c, World& w) { for (int ww : {1, 0, 3}) for (int i = 0; i < N; i++) if (w.m[i].live && w.m[i].envKnown) envelope(c, w.t[i], w.val(i), ww, "at the end"); compareAll(c, w); }
static void start(World& w, int st) {
  if (st == 0) { w.t[0] = TimeSeries(w.arr, 5); w.setView(0, 0, 0, 5); w.t[1] = TimeSeries(4); w.setOwn(1, 4); w.t[1][2] = 6; w.write(1, 2, 6); w.t[2] = TimeSeries(w.arr, 2, 2, 6); w.setView(2, 2, 2, 6); }
  else for (int i = 0; i < N; i++) { w.t[i] = TimeSeries(4); w.setOwn(i, 4); for (int k = 0; k < 4; k++) { double v = (i * 3 + k * 5) % 7; w.t[i][k] = v; w.write(i, k, v); } }
}
int init = [] {
  K.property = "C20"; K.before = [](mc::Ctx& c) { u::reset(c); identify = false; };
  K.rule = "every history of the depth over three sequence objects (owning or viewing) is executed on the real class and on plain lists; after every operation lengths, coordinates and values are compared, envelopes where an operation reads them and at the end";
  K.assumptions = {"envelopes of a view are not judged after the viewed array was changed other than through that view", "moved-from sequences are only assigned to", "accumulating overlapping windows is not judged"};
  K.add("histories of three objects", 3, [](mc::Ctx& c) {
    int depth = c.thorough ? 4 : 3; World w; int st = c.choose(2); start(w, st); c.note("start %d", st);
    for (int d = 0; d < depth; d++) { int k = c.choose(KINDS); static const bool B[KINDS] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 0, 0, 0, 1}; int i = c.choose(N), j = B[k] ? c.choose(N) : 0; op(c, w, k, i, j); compareAll(c, w); } finish(c, w);
  });
  K.add("deeper histories of the operations that touch caches and ownership", 3, [](mc::Ctx& c) {
    static const std::vector<std::array<int, 3>> O{{3, 0, 1}, {3, 1, 0}, {4, 0, 1}, {4, 0, 0}, {3, 0, 0}, {9, 0, 0}, {9, 1, 0}, {6, 0, 1}, {6, 1, 1}, {5, 0, 1}, {5, 0, 0}, {0, 1, 2}, {12, 0, 0}, {13, 0, 0}, {1, 1, 0}, {10, 0, 0}};
    int depth = c.thorough ? 6 : 5; World w; int st = c.choose(2); start(w, st); c.note("start %d", st); for (int d = 0; d < depth; d++) { auto& o = c.pick(O); op(c, w, o[0], o[1], o[2]); } compareAll(c, w); finish(c, w);
  });
  K.add("sequences of a dataset: windows on its values, independent of unloading only when copied", 2, [](mc::Ctx& c) {
    Tab t(3, 6); for (int i = 0; i < 18; i++) t.v[i] = i * 7 % 11; GroupableTimeSeriesSet s; load(c, s, t); int i = c.choose(3), a = c.range(0, 5), b = c.range(a + 1, 6); int k = c.choose(5); c.note("series %d, %d..%d, kind %d", i, a, b, k); TimeSeries v = s.getTimeSeries(i, a, b); compare(c, v, t.sub(i, a, b), i, a, b, "window"); c.op(); c.checked();
    Seq want = t.sub(i, a, b); if (k == 0) { v[0] = 50; want[0] = 50; Tab n = values(s); if (n.at(i, a) != 50) c.fail("a write through the window does not show in the dataset"); t.at(i, a) = 50; if (!(n == t)) c.fail("a write through the window changed other values"); compare(c, v, want, i, a, b, "window"); for (int w = 0; w < 4; w++) envelope(c, v, want, w, "window"); }
    else if (k == 1) { TimeSeries o(b - a); for (int p = 0; p < b - a; p++) o[p] = v[p]; o += v; for (int p = 0; p < b - a; p++) want[p] *= 2; compare(c, o, want, 0, 0, b - a, "own"); if (!(values(s) == t)) c.fail("accumulating changed the dataset"); }
    else if (k == 2) { TimeSeries o(2); o = v; compare(c, o, want, i, a, b, "copy"); for (int w = 0; w < 7; w++) envelope(c, o, want, w, "copy"); }
    else if (k == 3) { for (int w = 6; w >= 0; w--) envelope(c, v, want, w, "window"); for (int w = 0; w < 7; w++) envelope(c, v, want, w, "window"); }
    else { TimeSeries o(b - a + 1); if (!refused([&] { v += o; }) || !(values(s) == t)) c.fail("accumulating another length"); s.normalize(); double x, y; Tab n = ref::normalize(t, x, y); Seq e = n.sub(i, a, b); for (int p = 0; p < b - a; p++) { const TimeSeries now = s.getTimeSeries(i, a, b); if (!ref::close(now[p], e[p])) c.fail("a window does not show the normalised values"); } }
    mc::Hash h; h.u(i * 100 + a * 10 + b); h.u(k); c.observe(h);
  });
  K.add("envelopes asked one side at a time, for every order of half-widths, writes and copies", 2, [](mc::Ctx& c) {
    int depth = c.thorough ? 7 : 5; bool own = c.choose(2); data_t arr[6]; Seq v{5, 1, 9, 2, 8, 0}; for (int i = 0; i < 6; i++) arr[i] = v[i]; TimeSeries t(0); if (own) { TimeSeries k(6); for (int i = 0; i < 6; i++) k[i] = v[i]; t = k; } else t = TimeSeries(arr, 4, 0, 6);
    for (int d = 0; d < depth; d++) { int o = c.choose(11); c.op(); if (o < 8) { int w = o / 2; w = w == 3 ? 5 : w; bool up = o & 1; c.note("%s(%d)", up ? "upper" : "lower", w); Seq e = ref::envelope(v, w, up); const data_t* g = up ? t.getKeoghUpper(w) : t.getKeoghLower(w); for (int i = 0; i < 6; i++) if (g[i] != e[i]) c.fail("%s envelope for half-width %d at %d is %g, should be %g; values %s", up ? "upper" : "lower", w, i, (double)g[i], e[i], ref::str(v).c_str()); c.checked(); }
      else if (o == 8) { int k = (d * 2 + 1) % 6; c.note("write %d", k); v[k] = 20 - 7 * d; t[k] = v[k]; }
      else if (o == 9) { c.note("+="); TimeSeries k(6); for (int i = 0; i < 6; i++) { k[i] = i == d ? 11 : 0; v[i] += i == d ? 11 : 0; } t += k; }
      else { c.note("replaced by a changed copy"); TimeSeries k(6); for (int i = 0; i < 6; i++) k[i] = v[i]; k.getKeoghLower(1); k[2] = -4; v[2] = -4; t = k; } }
    c.observe(hashOf(v));
  });
  K.add("lengths of the ladder: copies, assignments, moves, accumulations, writes and envelopes", 2, [](mc::Ctx& c) {
    identify = true; static const std::vector<int> L = ref::ladder(c.thorough ? 70000 : 5100); int n = c.pick(L), m = c.pick(std::vector<int>{1, 2, 7, 64, 65, 300, 4096}); int a0 = c.choose(2), o1 = c.choose(4), o2 = c.choose(3); c.note("lengths %d and %d, %s, operations %d %d", n, m, a0 ? "own" : "view", o1, o2); c.op(6);
    std::vector<data_t> arr(n + 3); for (int i = 0; i < n + 3; i++) arr[i] = (data_t)(i * 7 % 23); Seq va(arr.begin() + 2, arr.begin() + 2 + n), vb(m); TimeSeries a(0), b(m); if (a0) { TimeSeries k(n); for (int i = 0; i < n; i++) k[i] = va[i]; a = std::move(k); } else a = TimeSeries(arr.data(), 9, 2, 2 + n); for (int i = 0; i < m; i++) { vb[i] = i * 3 % 13; b[i] = vb[i]; }
    a.getKeoghUpper(2); b.getKeoghLower(3); int si = a.getIndex(), ss = a.getStart(), se = a.getEnd();
    switch (o1) { case 0: { TimeSeries k(a); compare(c, k, va, si, ss, se, "copy"); b = k; vb = va; break; } case 1: b = a; vb = va; break; case 2: { TimeSeries k(b); b = a; TimeSeries z(1); z = b; b = std::move(z); vb = va; break; } default: { bool r = refused([&] { b += a; }); if (r == (n == m)) c.fail("accumulating length %d onto %d was %s", n, m, r ? "refused" : "accepted"); if (!r) for (int i = 0; i < n; i++) vb[i] += va[i]; } }
    bool shared = o1 < 3 && !a0; if (o1 < 3) compare(c, b, vb, si, ss, se, "assigned"); else compare(c, b, vb, 0, 0, m, "accumulated"); compare(c, a, va, si, ss, se, "source");
    for (int p : {0, (int)vb.size() / 2, (int)vb.size() - 1}) { if (o2 == 0) { b[p] = 99; vb[p] = 99; if (shared) va[p] = 99; } else if (o2 == 1 && !shared) { int q = p % n; a[q] = -5; va[q] = -5; } }
    if (o2 == 2 && !shared) { TimeSeries k((int)vb.size()); for (size_t i = 0; i < vb.size(); i++) k[(int)i] = 1; b += k; for (double& x : vb) x += 1; }
    for (size_t i = 0; i < vb.size(); i++) if (b[(int)i] != vb[i]) c.fail("value %zu of %zu is %g, should be %g", i, vb.size(), (double)b[(int)i], vb[i]); for (int i = 0; i < n; i++) if (a[i] != va[i]) c.fail("the source's value %d of %d is %g, should be %g", i, n, (double)a[i], va[i]);
    if (vb.size() <= 600) for (int w : {2, 3, 0, (int)vb.size()}) envelope(c, b, vb, w, "target"); mc::Hash h; h.u(n); h.u(m); h.u(o1 * 8 + o2 * 2 + a0); c.observe(h);
  });
  K.add("windows at every place of a longer array, copies and assignments of them", 2, [](mc::Ctx& c) {
    static const std::vector<int> L = ref::ladder(c.thorough ? 3000 : 1100, 0); int s = c.pick(L), n = c.pick(std::vector<int>{0, 1, 2, 5, 9, 10, 11, 64, 99, 100, 101, 257}), index = c.pick(std::vector<int>{0, 1, 9, 10, 11, 99, 100, 127, 128, 255, 256, 32767, 32768, 65536, 2147483647}); c.note("window %d..%d of series %d", s, s + n, index); identify = true;
    std::vector<data_t> arr(s + n + 1); for (int i = 0; i < s + n; i++) arr[i] = (data_t)(i * 7 % 23); Seq v(arr.begin() + s, arr.begin() + s + n); TimeSeries w(arr.data(), index, s, s + n); compare(c, w, v, index, s, s + n, "window"); TimeSeries k(w), l(3); compare(c, k, v, index, s, s + n, "copy"); l = w; compare(c, l, v, index, s, s + n, "assigned"); TimeSeries m(1); m = std::move(l); compare(c, m, v, index, s, s + n, "moved");
    if (n > 0) { std::ostringstream os; w.printData(os); std::istringstream is(os.str()); for (int i = 0; i < n; i++) { double x; if (!(is >> x) || x != v[i]) c.fail("printed %s", os.str().substr(0, 200).c_str()); } std::string rest; if (is >> rest) c.fail("printed more than %d values", n); m[n - 1] = 50; if (arr[s + n - 1] != 50 || k[n - 1] != 50) c.fail("a write through a window does not show in the array and its other windows"); for (int i : {-1, n, 2147483647, -2147483647 - 1}) if (!refused([&] { volatile data_t q = ((const TimeSeries&)w)[i]; (void)q; })) c.fail("read at %d of %d was accepted", i, n); } c.op(6); c.checked(4); c.observe(s * 1000 + n);
  });
  K.add("coordinates of every size through copies, assignments and moves in every order", 3, [](mc::Ctx& c) {
    identify = true; static const std::vector<int> I{0, 1, 7, 8, 9, 255, 256, 32768, 65536, 2147483647, -1}, S{0, 1, 2, 200, 70000}; int index = c.pick(I), st = c.pick(S), n = c.range(1, 4); data_t* base = new data_t[st + n]; struct Del { data_t* p; ~Del() { delete[] p; } } del{base}; for (int i = 0; i < st + n; i++) base[i] = i % 19; Seq v(base + st, base + st + n); c.note("(%d, %d..%d)", index, st, st + n);
    TimeSeries a(base, index, st, st + n); compare(c, a, v, index, st, st + n, "view"); int depth = c.thorough ? 4 : 3; TimeSeries b(2); bool own = c.flip(); if (own) { TimeSeries k(n); for (int i = 0; i < n; i++) k[i] = v[i]; a = k; index = 0; st = 0; }
    for (int d = 0; d < depth; d++) { int o = c.choose(7); c.op(); switch (o) { case 0: b = a; compare(c, b, v, index, st, st + n, "assigned"); break; case 1: b = std::move(a); compare(c, b, v, index, st, st + n, "moved"); a = b; break; case 2: { TimeSeries k(a); compare(c, k, v, index, st, st + n, "copy"); a = k; break; } case 3: { TimeSeries k(std::move(a)); compare(c, k, v, index, st, st + n, "move-constructed"); a = std::move(k); break; } case 4: a = own ? [&] { TimeSeries k(n); for (int i = 0; i < n; i++) k[i] = v[i]; return k; }() : TimeSeries(base, index, st, st + n); break; case 5: { std::vector<TimeSeries> l; for (int i = 0; i < 5; i++) l.push_back(a); for (auto& x : l) compare(c, x, v, index, st, st + n, "in a list"); a = l[4]; break; } default: { TimeSeries& r = a; a = r; candidate_time_series_t m(a, 1.5); candidate_time_series_t q = m; compare(c, q.data, v, index, st, st + n, "in an answer"); } } compare(c, a, v, index, st, st + n, "source"); c.checked(); }
    mc::Hash h; h.u(index); h.u(st * 10 + n); c.observe(h);
  });
  return 0;
}();
MC_MAIN(K)

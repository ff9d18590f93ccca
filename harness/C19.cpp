// C19 Sessions are memory safe and release everything.
// MC: {"cli": true, "libs": ["-Wl,--as-needed", "-lreadline"]}
#include "session.hpp"
#include <memory>
using namespace u;
static mc::Check K;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
// live bytes plus live blocks, so that a block of no bytes counts too
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static long blocks = 0; static void gained(const volatile void*, size_t) { blocks++; } static void lost(const volatile void* p) { if (p) blocks--; }
static const int hooked = __sanitizer_install_malloc_and_free_hooks(gained, lost);
static size_t bytes() { return __sanitizer_get_current_allocated_bytes() + (size_t)blocks; }
int onex_cli_main(int, char**);

// ---- inputs --------------------------------------------------------------------------------------
static const Tab& tab(int k) { static Tab T[5]; static bool m = false; if (!m) { m = true; T[0] = Tab(2, 4); T[0].v = {0, 1, 3, 1, 2, 2, 0, 3}; T[1] = Tab(1, 5); T[1].v = {5, 1, 4, 1, 2.5}; T[2] = Tab(3, 1); T[2].v = {1, 2, 3}; T[3] = Tab(2, 8); for (int i = 0; i < 16; i++) T[3].v[i] = i * 7 % 5; T[4] = Tab(2, 4); T[4].v = {1, 1, 1, 1, 0, 0, 0, 9}; } return T[k]; }
struct Files { std::string t[5], ragged, text, empty, good, trunc, sizes, dist, out, dir; };
static const Files& files(mc::Ctx& c) {
  static Files f; static bool made = false; if (made) return f; made = true; f.dir = c.dir; f.out = c.dir + "/out";
  auto keep = [&](const char* n, const std::string& x) { std::string p = c.dir + "/" + n; put(p, x); return p; };
  for (int k = 0; k < 5; k++) f.t[k] = keep(fmt("t%d", k).c_str(), ref::text(tab(k)));
  f.ragged = keep("ragged", "1 2 3\n4 5 6\n7 8\n"); f.text = keep("text", "1 2\n3 4\n5 x\n"); f.empty = keep("empty", "");
  GroupableTimeSeriesSet s; s.loadData(f.t[0], 0, 0, " "); s.groupAllLengths("euclidean", 1); s.saveGroups(f.out, false); std::string g = get(f.out); f.good = keep("good", g); f.trunc = keep("trunc", g.substr(0, g.size() * 2 / 3)); s.saveGroups(f.out, true); f.sizes = keep("sizes", get(f.out)); g.replace(g.find("euclidean"), 9, "cityblock"); f.dist = keep("dist", g);
  return f;
}
static const int OPS = 26;
static const char* NAME[OPS] = {"load 2x4", "load 1x5", "load 3x1", "load 2x8", "group 0 by 0.8", "group 0 by 3", "group 1 by 0", "normalise 0", "average 0 by 2", "average 1 by 3", "load groups of 0", "save groups of 0", "save 1", "match 0 with 1", "match 0 with 0, 1..3", "match 1 with 0", "unload 0", "unload 1", "unload all", "load a ragged file", "load text", "load an empty file", "load truncated groups", "load size-only groups", "group unknown dataset", "load groups with an unknown distance"};
static void step(const Files& f, OnexAPI& a, int k) {
  try {
    switch (k) {
    case 0: case 1: case 2: case 3: a.loadDataset(f.t[k], 0, 0, " "); break; case 4: a.groupDataset(0, 0.8); break; case 5: a.groupDataset(0, 3); break; case 6: a.groupDataset(1, 0); break; case 7: a.normalizeDataset(0); break; case 8: a.PAA(0, 2); break; case 9: a.PAA(1, 3); break;
    case 10: a.loadGroup(0, f.good); break; case 11: a.saveGroup(0, f.out, false); break; case 12: a.saveDataset(1, f.out, ','); break; case 13: a.getBestMatch(0, 1, 0); break; case 14: a.getBestMatch(0, 0, 1, 1, 3); break; case 15: a.getBestMatch(1, 0, 0); break; case 16: a.unloadDataset(0); break; case 17: a.unloadDataset(1); break; case 18: a.unloadAllDataset(); break;
    case 19: a.loadDataset(f.ragged, 0, 0, " "); break; case 20: a.loadDataset(f.text, 0, 0, " "); break; case 21: a.loadDataset(f.empty, 0, 0, " "); break; case 22: a.loadGroup(0, f.trunc); break; case 23: a.loadGroup(0, f.sizes); break; case 24: a.groupDataset(7, 1); break; default: a.loadGroup(0, f.dist); }
  } catch (const OnexException&) {}
}
static void setStep(const Files& f, GroupableTimeSeriesSet& s, int k) {
  static const std::string E = "euclidean", W = "euclidean_dtw", SP = " ", BAD = "nope"; static double q[5] = {1, 2, 0, 1, 4};
  try {
    switch (k) {
    case 0: s.loadData(f.t[0], 0, 0, SP); break; case 1: s.loadData(f.t[3], 0, 3, SP); break; case 2: s.loadData(f.t[4], 1, 0, SP); break; case 3: s.loadData(f.ragged, 0, 0, SP); break; case 4: s.loadData(f.text, 0, 1, SP); break;
    case 5: s.groupAllLengths(E, 1); break; case 6: s.groupAllLengths(W, 0.5); break; case 7: s.groupAllLengths(BAD, 1); break; case 8: s.reset(); break; case 9: s.clearData(); break; case 10: s.normalize(); break; case 11: s.PAA(2); break; case 12: s.PAA(0); break;
    case 13: s.loadGroups(f.good); break; case 14: s.loadGroups(f.trunc); break; case 15: s.saveGroups(f.out, true); break; case 16: { TimeSeries t(q, 3); s.getBestMatch(t); break; } case 17: { TimeSeries t(q, 5); s.getBestMatch(t); break; } case 18: { TimeSeries t(q, 4); s.distanceBetween(1, 0, 4, t, W); break; } default: { TimeSeries t = s.getTimeSeries(1, 1, 3); t.getKeoghLower(1); TimeSeries v(t); v = s.getTimeSeries(0); v.getKeoghUpper(2); t = v; } }
  } catch (const OnexException&) {}
}
// ---- the terminal for the command line -----------------------------------------------------------
static std::vector<std::string>* script; static size_t nextLine;
extern "C" char* readline(const char*) { if (nextLine >= script->size()) return nullptr; return strdup((*script)[nextLine++].c_str()); }
extern "C" void add_history(const char*) {}
int init = [] {
  K.property = "C19"; K.before = u::reset;
  K.rule = "every history of the depth is executed under AddressSanitizer and UBSan; it is repeated with complete release (end of session, unloading everything, end of a set, end of the program loop) and the number of live heap bytes and blocks has to be the same after every repetition";
  K.assumptions = {"live heap bytes as counted by AddressSanitizer", "memory allocation succeeds", "answers of a match are not used after their dataset is unloaded"};
  K.add("session histories, repeated in fresh sessions and within one session", 2, [](mc::Ctx& c) {
    const Files& f = files(c); int depth = c.thorough ? 5 : 4; int h[8], n = 0; for (int i = 0; i < depth; i++) { h[n] = c.choose(i == 0 ? 4 : OPS); c.note("%s", NAME[h[n]]); n++; }
    size_t b[4]; for (int r = 0; r < 3; r++) { { OnexAPI a; for (int i = 0; i < n; i++) step(f, a, h[i]); } b[r] = bytes(); c.op(n); } c.checked();
    if (b[1] != b[2]) c.fail("%zd bytes more after every repetition of the history in a new session", (ssize_t)(b[2] - b[1]));
    OnexAPI a; for (int r = 0; r < 4; r++) { for (int i = 0; i < n; i++) step(f, a, h[i]); a.unloadAllDataset(); b[r] = bytes(); } c.checked(); if (b[2] != b[3]) c.fail("%zd bytes more after every repetition of the history, everything unloaded", (ssize_t)(b[3] - b[2]));
    for (int r = 0; r < 4; r++) { for (int i = 0; i < n; i++) step(f, a, h[i]); while (a.getDatasetCount() > 0) { int last = a.getAllDatasetInfo().back().id; a.unloadDataset(last); } b[r] = bytes(); } c.checked(); if (b[2] != b[3]) c.fail("%zd bytes more after every repetition of the history, all datasets unloaded one by one", (ssize_t)(b[3] - b[2]));
    mc::Hash H; for (int i = 0; i < n; i++) H.u(h[i]); c.observe(H);
  });
  K.add("operations repeated in place do not grow the session", 2, [](mc::Ctx& c) {
    const Files& f = files(c); OnexAPI a; int st = c.choose(5); a.loadDataset(f.t[0], 0, 0, " "); a.loadDataset(f.t[3], 0, 0, " "); if (st == 1) a.groupDataset(0, 1); if (st >= 2) { a.groupDataset(0, 0); a.groupDataset(1, 2); } if (st == 3) a.loadGroup(0, f.good); if (st == 4) { a.normalizeDataset(1); a.PAA(1, 2); a.groupDataset(1, 0.4); }
    int x = c.choose(OPS), y = c.choose(OPS); auto in = [](int k) { return k < 4 || k == 16 || k == 17 || k == 18 || k == 8 || k == 9; }; if (in(x) || in(y)) return; c.note("state %d: %s, %s", st, NAME[x], NAME[y]);
    size_t b[5]; for (int r = 0; r < 5; r++) { step(f, a, x); step(f, a, y); b[r] = bytes(); } c.op(10); c.checked(); if (b[3] != b[4] || b[2] != b[3]) c.fail("%zd bytes more after every repetition of: %s, %s", (ssize_t)(b[4] - b[3]), NAME[x], NAME[y]); c.observe(st * 1000 + x * 30 + y);
  });
  K.add("histories of a set, repeated on new sets and on one set", 2, [](mc::Ctx& c) {
    const Files& f = files(c); int depth = c.thorough ? 5 : 4; int h[8], n = 0; for (int i = 0; i < depth; i++) { h[n++] = c.choose(i == 0 ? 3 : 20); c.note("operation %d", h[n - 1]); }
    size_t b[4]; for (int r = 0; r < 3; r++) { { GroupableTimeSeriesSet s; for (int i = 0; i < n; i++) setStep(f, s, h[i]); } b[r] = bytes(); c.op(n); } c.checked(); if (b[1] != b[2]) c.fail("%zd bytes more after every repetition of the history on a new set", (ssize_t)(b[2] - b[1]));
    GroupableTimeSeriesSet s; for (int r = 0; r < 4; r++) { for (int i = 0; i < n; i++) setStep(f, s, h[i]); b[r] = bytes(); } c.checked(); if (b[2] != b[3]) c.fail("%zd bytes more after every repetition of the history on the same set", (ssize_t)(b[3] - b[2]));
    mc::Hash H; for (int i = 0; i < n; i++) H.u(h[i]); c.observe(H);
  });
  K.add("envelopes of every two half-widths, also beyond the length, on sequences of every kind", 2, [](mc::Ctx& c) {
    int n = c.range(1, 9), x = c.range(0, 14), y = c.range(0, 14), kind = c.choose(4); c.note("length %d, half-widths %d and %d", n, x, y); static data_t arr[40]; for (int i = 0; i < 40; i++) arr[i] = i * 7 % 11;
    auto go = [&] { TimeSeries a = kind == 0 ? TimeSeries(n) : kind == 1 ? TimeSeries(arr, n) : kind == 2 ? TimeSeries(arr, 1, 3, 3 + n) : TimeSeries(arr, 1, 0, n); double s = 0; for (int k : {x, y, x, 1000000, y, 2147483647, x}) { const data_t *l = a.getKeoghLower(k), *u = a.getKeoghUpper(k); for (int i = 0; i < n; i++) s += l[i] + u[i]; } TimeSeries b(a); b.getKeoghUpper(y); a = b; a.getKeoghLower(x); TimeSeries d(3); d.getKeoghLower(x); d = a; a = std::move(d); s += a.getKeoghUpper(y)[0]; c.op(20); return s; };
    size_t b[4]; for (int r = 0; r < 4; r++) { go(); b[r] = bytes(); } c.checked(); if (b[1] != b[2] || b[2] != b[3]) c.fail("%zd bytes more after every repetition", (ssize_t)(b[3] - b[2])); c.observe(kind * 100000 + n * 1000 + x * 20 + y);
  });
  K.add("sizes of the ladder: load, normalise, average, group, match, store, load groups, unload", 2, [](mc::Ctx& c) {
    int kind = c.choose(3); int k = c.pick(ref::ladder(c.thorough ? 1100 : kind == 1 ? 520 : 260)); int r = kind == 0 ? k : kind == 1 ? 2 : 3, n = kind == 0 ? 3 : kind == 1 ? k : std::min(k, 24); int block = kind == 2 ? k : std::max(1, k / 7); c.note("%dx%d, blocks of %d", r, n, block); Tab t(r, n); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = (i * i + 3 * i) % 17; std::string in = c.file("in"), out = c.file("out"), text = ref::text(t); put(in, text);
    size_t b[4]; for (int x = 0; x < 4; x++) { { OnexAPI a; auto quiet = [&](const std::function<void()>& f) { try { f(); } catch (const OnexException&) {} }; a.loadDataset(in, 0, 0, " "); quiet([&] { a.loadDataset(in, r / 2, n - 1, " "); }); quiet([&] { a.loadDataset(in, r + 5, n, " "); }); quiet([&] { a.loadDataset(in, 1, n + 5, " "); });
        bool grouped = n <= 40; if (grouped) { a.groupDataset(0, 2); quiet([&] { a.getBestMatch(0, 0, r - 1); }); if (n > 3) a.getBestMatch(0, 0, 0, 1, n - 1); a.saveGroup(0, out, false); a.groupDataset(0, 0.5); a.loadGroup(0, out); a.saveGroup(0, out, true); quiet([&] { a.loadGroup(0, out); }); } a.normalizeDataset(0); a.saveDataset(0, out, ' '); a.PAA(0, block); quiet([&] { if (grouped) { a.groupDataset(0, 0.1); a.getBestMatch(0, 0, 0); } }); if (x % 2) a.unloadDataset(0); } b[x] = bytes(); c.op(14); }
    c.checked(); if (b[1] != b[2] || b[2] != b[3]) c.fail("%zd bytes more after every repetition", (ssize_t)(b[3] - b[2])); c.observe(kind * 100000 + k);
  });
  K.add("histories of sequence objects", 2, [](mc::Ctx& c) {
    int depth = c.thorough ? 6 : 5; int h[8], n = 0; for (int i = 0; i < depth; i++) { h[n++] = c.choose(16); c.note("operation %d", h[n - 1]); }
    auto go = [&] {
      data_t arr[6] = {1, 5, 2, 8, 0, 3}; TimeSeries a(3), b(arr, 4), d(arr, 1, 2, 5);
      for (int i = 0; i < n; i++) try { switch (h[i]) {
        case 0: a = b; break; case 1: b = a; break; case 2: a = d; break; case 3: d = a; break; case 4: { TimeSeries x(a); x = b; b = x; break; } case 5: a = std::move(b); b = TimeSeries(2); break; case 6: { TimeSeries& r = a; a = r; break; } case 7: { TimeSeries& r = a; a = std::move(r); break; }
        case 8: if (a.getLength() > 0) { a.getKeoghLower(1); a.getKeoghUpper(2); } break; case 9: if (b.getLength() > 0) b.getKeoghUpper(1); break; case 10: a += b; break; case 11: a[1] = 4; break; case 12: a[7] = 1; break; case 13: a = TimeSeries(4); break; case 14: { TimeSeries x(a), y(x); y = x; a = std::move(y); break; } default: b = TimeSeries(arr, 3, 0, 2); } } catch (const OnexException&) {}
    };
    size_t b[3]; for (int r = 0; r < 3; r++) { go(); b[r] = bytes(); } c.op(3 * n); c.checked(); if (b[1] != b[2]) c.fail("%zd bytes more after every repetition", (ssize_t)(b[2] - b[1])); mc::Hash H; for (int i = 0; i < n; i++) H.u(h[i]); c.observe(H);
  });
  K.add("the command line's loop", 2, [](mc::Ctx& c) {
    const Files& f = files(c); std::vector<std::string> L{"load " + f.t[0], "group 0 1", "match 0 0 1", "match 0 0 x", "unload 0", "help", "bogus", "", "// x", "load " + f.ragged, "paa 0 2", "saveGroup 0 " + f.out, "list dataset", "load a b c d e f", "loadGroup 0 " + f.trunc}; std::vector<std::string> s; int depth = c.thorough ? 4 : 3; for (int i = 0; i < depth; i++) { s.push_back(L[c.choose((int)L.size())]); c.note("%s", s.back().c_str()); } for (int i = 0; i < depth; i++) s.push_back(fmt("unload %d", depth - 1 - i)); s.push_back("quit"); script = &s;
    char nm[] = "onex"; char* av[] = {nm, nullptr}; size_t b[4]; for (int r = 0; r < 4; r++) { nextLine = 0; if (onex_cli_main(1, av) != 0) c.fail("status"); b[r] = bytes(); } std::cout.copyfmt(std::ios(nullptr)); c.op((int)s.size() * 4); c.checked(); if (b[2] != b[3] || b[1] != b[2]) c.fail("%zd bytes more after every run of the script", (ssize_t)(b[3] - b[2])); mc::Hash H; for (auto& l : s) H.s(l); c.observe(H);
  });
  K.add("sequences and answers of every small length, empty ones included: made, copied, assigned, moved, dropped", 3, [](mc::Ctx& c) {
    int n = c.range(0, 4), m = c.range(0, 4), o1 = c.choose(9), o2 = c.choose(9); c.note("lengths %d and %d, operations %d and %d", n, m, o1, o2); static data_t arr[12] = {1, 5, 2, 8, 0, 3, 1, 1, 2, 4, 4, 9};
    auto go = [&] {
      TimeSeries a(n), b(m); candidate_time_series_t k, l;
      for (int o : {o1, o2}) { switch (o) { case 0: a = b; break; case 1: b = std::move(a); a = TimeSeries(m); break; case 2: { TimeSeries x(a), y(std::move(x)); b = y; break; } case 3: k = candidate_time_series_t(a, 1); l = k; break; case 4: { candidate_time_series_t z(l), e; z = e; e = std::move(z); k = e; break; } case 5: a = TimeSeries(arr, 1, m, m + n); break; case 6: if (a.getLength()) a.getKeoghLower(1); if (b.getLength()) b.getKeoghUpper(0); break; case 7: { std::vector<TimeSeries> v; for (int i = 0; i < 5; i++) v.push_back(i % 2 ? a : b); v.erase(v.begin() + 1); a = v.back(); break; } default: { TimeSeries& r = b; b = r; b = std::move(r); k.data = b; k.data = TimeSeries(0); } } }
      c.op(2); };
    size_t b[3]; for (int r = 0; r < 3; r++) { go(); b[r] = bytes(); } c.checked(); if (b[1] != b[2]) c.fail("%zd bytes and blocks more after every repetition", (ssize_t)(b[2] - b[1])); c.observe(n * 1000 + m * 100 + o1 * 10 + o2);
  });
  return 0;
}();
MC_MAIN(K)

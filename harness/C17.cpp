// C17 Storage failures are reported, never silently swallowed.
// MC: {"libs": ["-ldl"]}
#include "session.hpp"
#include <dlfcn.h>
#include <sys/uio.h>
using namespace u;
static mc::Check K;

// ---- the storage, owned by the driver --------------------------------------------------------
struct Storage {
  bool on = false; bool fired = false;
  long failWrite = -1, failRead = -1, failOpen = -1, failClose = -1, failSeek = -1;   // number of the call that fails
  size_t chunk = 0;                                                                   // most bytes one call transfers (0: any)
  long writes = 0, reads = 0, opens = 0, closes = 0, seeks = 0; int error = EIO; bool once = false;
  void arm() { on = true; fired = false; writes = reads = opens = closes = seeks = 0; }
  bool hit(long& n, long at) { bool f = at >= 0 && (once ? n == at : n >= at); n++; if (f) { fired = true; errno = error; } return f; }
};
static Storage S;
template <class F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
ssize_t write(int fd, const void* b, size_t n) { if (S.on && fd > 2) { if (S.hit(S.writes, S.failWrite)) return -1; if (S.chunk && n > S.chunk) n = S.chunk; } return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int k) { if (S.on && fd > 2) { if (S.hit(S.writes, S.failWrite)) return -1; if (S.chunk && k > 0) { for (int i = 0; i < k; i++) if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, std::min(v[i].iov_len, S.chunk)); } } return syscall(SYS_writev, fd, v, k); }
ssize_t read(int fd, void* b, size_t n) { if (S.on && fd > 2) { if (S.hit(S.reads, S.failRead)) return -1; if (S.chunk && n > S.chunk) n = S.chunk; } return syscall(SYS_read, fd, b, n); }
ssize_t readv(int fd, const struct iovec* v, int k) { if (S.on && fd > 2 && S.hit(S.reads, S.failRead)) return -1; return syscall(SYS_readv, fd, v, k); }
off_t lseek(int fd, off_t o, int w) { if (S.on && fd > 2 && S.hit(S.seeks, S.failSeek)) return -1; return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { if (S.on && fd > 2 && S.hit(S.seeks, S.failSeek)) return -1; return syscall(SYS_lseek, fd, o, w); }
FILE* fopen(const char* p, const char* m) { static auto f = next<FILE* (*)(const char*, const char*)>("fopen"); if (S.on && S.hit(S.opens, S.failOpen)) return nullptr; return f(p, m); }
FILE* fopen64(const char* p, const char* m) { static auto f = next<FILE* (*)(const char*, const char*)>("fopen64"); if (S.on && S.hit(S.opens, S.failOpen)) return nullptr; return f(p, m); }
int fclose(FILE* x) { static auto f = next<int (*)(FILE*)>("fclose"); bool bad = S.on && S.hit(S.closes, S.failClose); int r = f(x); if (bad) { errno = S.error; return EOF; } return r; }
}
struct Window { struct rlimit old; bool lim = false; Window(const Storage& s, long limit = -1) { if (limit >= 0) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); struct rlimit n = old; n.rlim_cur = limit; setrlimit(RLIMIT_FSIZE, &n); lim = true; } S = s; S.arm(); } ~Window() { S.on = false; if (lim) setrlimit(RLIMIT_FSIZE, &old); } };

// ---- datasets and what is stored ---------------------------------------------------------------
static Tab table(int k) {
  static const std::vector<std::pair<int, int>> D{{1, 1}, {2, 3}, {3, 4}, {1, 12}, {40, 2}, {7, 14}, {5, 200}, {200, 3}, {1, 700}}; Tab t(D[k].first, D[k].second); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = k == 2 || k == 4 ? (double)(i % 4) : (double)(i * 37 % 101) / 7; return t;
}
static const char* WHAT[] = {"dataset", "groups", "group sizes"};
struct Made { GroupableTimeSeriesSet* s; Tab t; std::string full[3]; };
static Made& made(mc::Ctx& c, int k) {
  static Made M[9]; Made& m = M[k]; if (m.s) return m; m.t = table(k); m.s = new GroupableTimeSeriesSet(); load(c, *m.s, m.t); bool g = m.t.v.size() <= 100; if (k == 7) g = true; if (g) m.s->groupAllLengths("euclidean", 1.5);
  std::string p = c.file("full"); m.s->saveData(p, ' '); m.full[0] = get(p); if (g) for (int z = 0; z < 2; z++) { m.s->saveGroups(p, z); m.full[1 + z] = get(p); } return m;
}
static void save(const GroupableTimeSeriesSet& s, int what, const std::string& p) { if (what == 0) s.saveData(p, ' '); else s.saveGroups(p, what == 2); }
static void judgeSave(mc::Ctx& c, Made& m, int what, const std::string& p, bool refusedSave, bool full) {
  c.checked(); c.op(); std::string got = get(p); mc::Hash h; h.u(refusedSave); h.u(got.size()); c.observe(h);
  if (!refusedSave && got != m.full[what]) c.fail("saving %s reported success, %zu of %zu bytes are stored (first difference at %zu)", WHAT[what], got.size(), m.full[what].size(), (size_t)(std::mismatch(got.begin(), got.begin() + std::min(got.size(), m.full[what].size()), m.full[what].begin()).first - got.begin()));
  if (refusedSave && full) c.fail("saving %s reported an error although the storage took everything", WHAT[what]);
  if (!(values(*m.s) == m.t)) c.fail("saving changed the dataset");
}
// reading: outcome of loading the text under a fault
static std::string loadTable(const std::string& p, int rows, int col) { GroupableTimeSeriesSet s; s.loadData(p, rows, col, " "); return ref::str(values(s)) + fmt("%d %d", s.getItemCount(), s.getItemLength()); }
static std::string loadGroups(mc::Ctx& c, GroupableTimeSeriesSet& s, const std::string& p) { int n = s.loadGroups(p); bool o = S.on; S.on = false; ref::GroupFile g = groupsOf(c, s); S.on = o; return fmt("%d %.17g %s ", n, g.st, g.distance.c_str()) + ref::canon(g.groups); }
int init = [] {
  K.property = "C17"; K.before = [](mc::Ctx& c) { S.on = false; u::reset(c); };
  K.rule = "for every listed dataset: the storage fills up after every number of bytes, or every single write, read, seek, open or close call fails (once or from then on), with transfers of every listed chunk size; a save that succeeds must have stored everything, a load that succeeds must yield everything";
  K.assumptions = {"failures show as failed or short system calls or as a failed close, as POSIX storage reports them", "a crash after a successful save (lost page cache) is outside the property"};
  K.add("saving when the storage is full after every number of bytes", 2, [](mc::Ctx& c) {
    int k = c.choose(9), what = c.choose(3); Made& m = made(c, k); if (m.full[what].empty()) return; size_t n = m.full[what].size(); std::string p = c.file("out"); bool old = c.flip();
    c.note("table %d, %s of %zu bytes%s", k, WHAT[what], n, old ? ", over an older longer file" : "");
    for (size_t lim = 0; lim <= n + 1; lim += (n < 3000 || c.thorough || lim % 8191 < 3 || lim % 8191 > 8187 || lim + 40 > n) ? 1 : std::min<size_t>(37, 8188 - lim % 8191 > 0 && lim % 8191 < 8188 ? 8188 - lim % 8191 : 37)) {
      if (old) put(p, std::string(n + 50, 'x')); else unlink(p.c_str()); bool r; { Window w(Storage(), (long)lim); r = refused([&] { save(*m.s, what, p); }); } judgeSave(c, m, what, p, r, lim >= n);
    }
  });
  K.add("saving when each single write, open or close call fails, with short writes", 3, [](mc::Ctx& c) {
    int k = c.choose(9), what = c.choose(3), kind = c.choose(3), ch = c.choose(4); bool once = c.flip(); static const size_t CH[] = {0, 1, 100, 4096}; Made& m = made(c, k); if (m.full[what].empty() || (CH[ch] == 1 && m.full[what].size() > 1500)) return; std::string p = c.file("out");
    c.note("table %d, %s, %s, at most %zu bytes a call, %s", k, WHAT[what], kind == 0 ? "write" : kind == 1 ? "open" : "close", CH[ch], once ? "once" : "from then on");
    for (long at = 0; at < 5000; at++) { Storage s; s.chunk = CH[ch]; s.once = once; s.error = at % 2 ? ENOSPC : EIO; (kind == 0 ? s.failWrite : kind == 1 ? s.failOpen : s.failClose) = at; unlink(p.c_str()); bool r, f; { Window w(s); r = refused([&] { save(*m.s, what, p); }); f = S.fired; } if (f && kind == 2 && !r) c.fail("closing failed while saving %s and success was reported", WHAT[what]); if (f && kind == 1 && !r) c.fail("opening failed while saving %s and success was reported", WHAT[what]); judgeSave(c, m, what, p, r, !f); if (!f) break; }
  });
  K.add("loading tables when each single read, seek or open call fails, with short reads", 3, [](mc::Ctx& c) {
    int k = c.choose(9), kind = c.choose(3), ch = c.choose(4), rc = c.choose(4); bool once = c.flip(); static const size_t CH[] = {0, 1, 50, 1000}; Tab t = table(k); std::string text = ref::text(t); if (CH[ch] == 1 && text.size() > 1500) return; int rows = rc & 1 ? std::max(1, t.r - 1) : 0, col = rc & 2 ? t.c / 2 : 0; std::string p = tabFile(c, t), want = loadTable(p, rows, col);
    c.note("table %d (%zu bytes), %s fails %s, at most %zu bytes a call, %d rows, from column %d", k, text.size(), kind == 0 ? "read" : kind == 1 ? "seek" : "open", once ? "once" : "from then on", CH[ch], rows, col);
    for (long at = 0; at < 5000; at++) { Storage s; s.chunk = CH[ch]; s.once = once; (kind == 0 ? s.failRead : kind == 1 ? s.failSeek : s.failOpen) = at; std::string got; bool r, f; { Window w(s); r = refused([&] { got = loadTable(p, rows, col); }); f = S.fired; } c.op(); c.checked(); mc::Hash h; h.u(r); h.u(at); c.observe(h); if (!r && got != want) c.fail("call %ld failed and the load silently yields other data: %s instead of %s", at, got.substr(0, 300).c_str(), want.substr(0, 300).c_str()); if (r && !f) c.fail("the load was refused without any failure"); if (!f) break; }
  });
  K.add("loading tables through a session: a failed load leaves no dataset", 2, [](mc::Ctx& c) {
    int k = c.choose(9); static const size_t CH[] = {0, 50, 1000}; size_t ch = CH[c.choose(3)]; Tab t = table(k); std::string p = tabFile(c, t); c.note("table %d", k); OnexAPI a; a.loadDataset(p, 0, 0, " "); std::string before = snapshot(c, a, false);
    for (long at = 0; at < 5000; at++) { Storage s; s.chunk = ch; s.failRead = at; bool r, f; { Window w(s); r = refused([&] { a.loadDataset(p, 0, 0, " "); }); f = S.fired; } c.op(); c.checked(); if (r) { if (snapshot(c, a, false) != before) c.fail("a failed load changed the session"); } else { dataset_info_t i = a.getDatasetInfo(1); if (i.itemCount != t.r || i.itemLength != t.c) c.fail("a load under a failure yields %dx%d instead of %dx%d", i.itemCount, i.itemLength, t.r, t.c); a.unloadDataset(1); } if (!f) break; c.observe(at); }
  });
  K.add("loading groups when each single read or open call fails, with short reads", 3, [](mc::Ctx& c) {
    int k = c.choose(9), kind = c.choose(2), ch = c.choose(4); bool once = c.flip(), pre = c.flip(); static const size_t CH[] = {0, 1, 50, 1000}; Made& m = made(c, k); if (m.full[1].empty() || (CH[ch] == 1 && m.full[1].size() > 1500)) return; std::string p = fileWith(c, m.full[1]);
    GroupableTimeSeriesSet s; load(c, s, m.t); std::string want = loadGroups(c, s, p); c.note("table %d, group file of %zu bytes, %s fails %s, at most %zu bytes a call", k, m.full[1].size(), kind ? "open" : "read", once ? "once" : "from then on", CH[ch]);
    for (long at = 0; at < 5000; at++) { s.reset(); std::string before; if (pre) { s.groupAllLengths("euclidean", 0.9); before = ref::canon(groupsOf(c, s).groups); } Storage st; st.chunk = CH[ch]; st.once = once; (kind ? st.failOpen : st.failRead) = at; std::string got; bool r, f; { Window w(st); r = refused([&] { got = loadGroups(c, s, p); }); f = S.fired; } c.op(); c.checked(); mc::Hash h; h.u(r); h.u(at); c.observe(h);
      if (!r && got != want) c.fail("call %ld failed and loading silently yields other groups", at); if (r && !f) c.fail("the load was refused without any failure"); if (r && (s.isGrouped() != pre || (pre && ref::canon(groupsOf(c, s).groups) != before))) c.fail("a failed load of groups changed the groups"); if (!f) break; }
  });
  K.add("paths that cannot be used", 1, [](mc::Ctx& c) {
    int k = c.choose(9), what = c.choose(3), where = c.choose(4); Made& m = made(c, k); if (m.full[what].empty()) return; std::string p = where == 0 ? c.dir : where == 1 ? c.dir + "/none/x" : where == 2 ? std::string("/dev/full") : std::string(""); c.note("saving %s to %s", WHAT[what], p.c_str()); bool r = refused([&] { save(*m.s, what, p); }); c.op(); c.checked(); if (!r) c.fail("saving %s to '%s' reported success", WHAT[what], p.c_str());
    if (where != 2) { GroupableTimeSeriesSet s; load(c, s, m.t); if (!refused([&] { s.loadGroups(p); })) c.fail("loading groups from '%s' succeeded", p.c_str()); if (!refused([&] { s.loadData(p, 0, 0, " "); })) c.fail("loading '%s' succeeded", p.c_str()); } c.observe(where);
  });
  return 0;
}();
MC_MAIN(K)

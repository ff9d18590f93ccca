// Stateless bounded model checker for sequential code.
//
// A check is a set of suites.  A suite is a driver ("body") that makes finite choices through
// Ctx::choose() and runs the real implementation; the explorer enumerates *every* choice sequence of
// the body by depth-first search with replay, spread over worker processes.  A worker that crashes
// (sanitizer report, signal), throws, hangs or calls Ctx::fail() yields a counterexample: the choice
// sequence, which is replayed in a fresh process before anything is reported.
#ifndef MC_EXPLORER_HPP
#define MC_EXPLORER_HPP

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <dirent.h>

extern "C" const char* __asan_default_options();
extern "C" const char* __ubsan_default_options();

namespace mc {

struct Fail { std::string msg; };
struct SkipExec {};

// ---- time that no interposed clock can disturb -------------------------------------------------
inline double realNow() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
// processor time a process has used: unlike wall time it does not grow because the machine is busy
inline double cpuOf(pid_t pid) {
  struct timespec ts{0, 0};
  clockid_t id = (clockid_t)((~(unsigned)pid << 3) | 2);  // as clock_getcpuclockid gives it
  if (syscall(SYS_clock_gettime, id, &ts) != 0) return realNow();
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
inline void realSleep(double s) {
  struct timespec ts{(time_t)s, (long)((s - (time_t)s) * 1e9)};
  syscall(SYS_nanosleep, &ts, nullptr);
}

// ---- hashing -----------------------------------------------------------------------------------
struct Hash {
  uint64_t h = 0x9E3779B97F4A7C15ull;
  void u(uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
  void d(double x) { if (x == 0) x = 0; uint64_t b; memcpy(&b, &x, 8); u(b); }
  void s(const std::string& t) { u(t.size()); for (unsigned char c : t) u(c); }
};

const int MAXCH = 1024;
struct Shared {                      // one per worker, in shared memory
  volatile uint64_t execs, ops, distinct, checks;
  volatile int done, failed, capped, distinctCapped;
  volatile int nch;
  volatile int ch[MAXCH], ar[MAXCH];
  char msg[8192];
  volatile int nsample;
  int sampleLen[2];
  int sample[2][MAXCH];
};

class Ctx {
public:
  // ----- the driver's interface -----
  // A choice among n alternatives; every alternative is explored.
  int choose(int n) {
    if (n <= 0) harnessError("choose(n<=0)");
    int v;
    if (pos < (int)pre.size()) {
      v = pre[pos];
      if (preAr[pos] >= 0 && preAr[pos] != n) harnessError("divergence while replaying a prefix");
      if (v >= n) harnessError("replayed choice out of range");
    } else {
      v = 0; pre.push_back(0); preAr.push_back(n);
    }
    if (pos < MAXCH) { sh->ch[pos] = v; sh->ar[pos] = n; }
    else harnessError("too many choices");
    preAr[pos] = n;
    pos++; sh->nch = pos;
    if (pos == split && !replaying) claim();
    return v;
  }
  bool flip() { return choose(2) == 1; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
  int range(int lo, int hi) { return lo + choose(hi - lo + 1); }   // inclusive

  bool verbose = false;                        // true when a trace is being written
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!verbose) return;
    char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    trace += "  "; trace += buf; trace += "\n";
    flushTrace();
  }
  void op(int n = 1) { sh->ops = sh->ops + n; }        // an operation executed on the implementation
  void checked(int n = 1) { sh->checks = sh->checks + n; }
  void observe(uint64_t h) {                           // an observed state / outcome
    if (distinct.size() < MAXDIST) { if (distinct.insert(h).second) sh->distinct = distinct.size(); }
    else sh->distinctCapped = 1;
  }
  void observe(const Hash& h) { observe(h.h); }
  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    char buf[6000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Fail{buf};
  }
  void check(bool ok, const char* what) { checked(); if (!ok) fail("%s", what); }
  bool thorough = false;
  std::string dir;                                     // scratch directory of this process
  std::string file(const char* name) const { return dir + "/" + name; }

  // ----- explorer internals -----
  std::vector<int> pre, preAr;
  int pos = 0, split = 0, worker = 0, workers = 1;
  bool replaying = false, claimed = false;
  uint64_t prefixCounter = 0;
  Shared* sh = nullptr;
  std::string trace; int traceFd = -1;
  std::unordered_set<uint64_t> distinct;
  static const size_t MAXDIST = 3000000;
  void flushTrace() { if (traceFd >= 0 && !trace.empty()) { ssize_t r = ::syscall(SYS_write, traceFd, trace.data(), trace.size()); (void)r; trace.clear(); } }
  void claim() {
    // called when the split-th choice has been made: the prefix belongs to one worker only
    bool newPrefix = !prefixValid || lastPrefix.size() != (size_t)split || !std::equal(lastPrefix.begin(), lastPrefix.end(), pre.begin());
    if (newPrefix) { lastPrefix.assign(pre.begin(), pre.begin() + split); prefixValid = true; mine = (prefixCounter++ % workers) == (uint64_t)worker; }
    claimed = true;
    if (!mine) throw SkipExec{};
  }
  std::vector<int> lastPrefix; bool prefixValid = false, mine = true;
  [[noreturn]] void harnessError(const char* what) {
    dprintf(2, "HARNESS-ERROR: %s\n", what);
    _exit(98);
  }
};

typedef std::function<void(Ctx&)> Body;
struct Suite {
  std::string name;        // what is enumerated, in words
  Body body;
  int split = 1;           // choices that are spread over the workers
};

struct Check {
  std::string property, level = "model_checking";
  std::vector<Suite> suites;
  std::vector<std::string> assumptions;
  std::function<void(Ctx&)> before;   // run before every execution (resets environment seams)
  std::string rule;                   // how cases are made
  double hangLimit = 60;
  void add(const std::string& name, int split, Body b) { suites.push_back(Suite{name, b, split}); }
};

inline std::string describeException() {
  try { throw; }
  catch (const Fail& f) { return f.msg; }
  catch (const std::exception& e) { return std::string("unexpected exception escapes: ") + typeid(e).name() + ": " + e.what(); }
  catch (...) { return "unexpected exception of unknown type escapes"; }
}

inline void rmTree(const std::string& p) {   // only ever called on scratch directories made by mkdtemp below
  if (DIR* d = opendir(p.c_str())) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name; if (n == "." || n == "..") continue;
      std::string q = p + "/" + n; struct stat st;
      if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(q); else unlink(q.c_str());
    }
    closedir(d);
  }
  rmdir(p.c_str());
}

inline void runOne(Check& chk, Suite& s, Ctx& c) {
  c.pos = 0; c.claimed = false;
  if (chk.before) chk.before(c);
  s.body(c);
}

// Depth-first enumeration in a worker process.  stopAt > 0: stop before execution number stopAt+1.
inline void workerLoop(Check& chk, Suite& s, Ctx& c, double deadline, uint64_t stopAt) {
  c.pre.clear(); c.preAr.clear();
  while (true) {
    bool skipped = false;
    try {
      runOne(chk, s, c);
      if (!c.claimed) { // fewer choices than the split depth: leaf is its own prefix
        if ((c.prefixCounter++ % c.workers) != (uint64_t)c.worker) skipped = true;
        c.prefixValid = false;
      }
    } catch (const SkipExec&) { skipped = true; }
    catch (...) {
      std::string m = describeException();
      // a short execution that fails belongs to whoever meets it first
      snprintf(c.sh->msg, sizeof c.sh->msg, "%s", m.c_str());
      c.sh->failed = 1;
      return;
    }
    if (!skipped) {
      c.sh->execs = c.sh->execs + 1;
      uint64_t n = c.sh->execs;
      int slot = (n == 1) ? 0 : ((n & (n - 1)) == 0 ? 1 : -1);   // first, and powers of two (last one stays)
      if (slot >= 0) { int L = std::min(c.pos, MAXCH); c.sh->sampleLen[slot] = L; for (int i = 0; i < L; i++) c.sh->sample[slot][i] = c.pre[i]; c.sh->nsample = slot + 1 > c.sh->nsample ? slot + 1 : c.sh->nsample; }
      if (stopAt && n >= stopAt) return;
    }
    // next choice sequence
    int i = c.pos - 1;
    while (i >= 0 && c.pre[i] + 1 >= c.preAr[i]) i--;
    if (i < 0) break;
    c.pre.resize(i + 1); c.preAr.resize(i + 1);
    c.pre[i]++;
    if ((c.sh->execs & 63) == 0 && realNow() > deadline) { c.sh->capped = 1; break; }
  }
  c.sh->done = 1;
}

struct Outcome { bool bad = false; std::string msg, trace; bool hang = false; bool harness = false; };

struct Runner {
  Check& chk; std::string scratch; bool thorough; int jobs; double t0; double budget;
  std::string self;

  static std::string slurp(const std::string& p, size_t max = 20000) {
    std::string r; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return r;
    char b[4096]; ssize_t n; while ((n = (ssize_t)syscall(SYS_read, fd, b, sizeof b)) > 0 && r.size() < max) r.append(b, n);
    close(fd); return r;
  }
  std::string stderrSummary(const std::string& p) {
    std::string t = slurp(p, 200000), out;
    std::istringstream is(t); std::string l; int kept = 0;
    while (std::getline(is, l)) {
      bool key = l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos ||
                 l.find("Assertion") != std::string::npos || l.find("terminate called") != std::string::npos ||
                 l.find("what():") != std::string::npos || l.find("SUMMARY") != std::string::npos || l.find("HARNESS-ERROR") != std::string::npos;
      bool frame = l.find("    #") == 0 && l.find("/repo/") != std::string::npos && kept < 12;
      if (key || frame) { out += l + "\n"; kept++; if (kept > 20) break; }
    }
    return out;
  }
  Shared* mapShared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    memset(p, 0, sizeof(Shared));
    return (Shared*)p;
  }
  void childSetup(Ctx& c, const std::string& tag) {
    c.dir = scratch + "/" + tag; mkdir(c.dir.c_str(), 0777);
    int e = open((scratch + "/" + tag + ".err").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666); dup2(e, 2); close(e);
    int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 0); close(n);
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    c.thorough = thorough;
  }
  std::string exitText(int st, const std::string& errfile) {
    std::string m;
    if (WIFSIGNALED(st)) m = std::string("process killed by signal ") + strsignal(WTERMSIG(st));
    else m = "process ended with status " + std::to_string(WEXITSTATUS(st));
    std::string s = stderrSummary(errfile);
    if (!s.empty()) m += "\n" + s;
    return m;
  }
  // Runs one choice sequence in a fresh process, writing its trace.
  Outcome replay(Suite& s, const std::vector<int>& ch, double limit) {
    Outcome o; static int k = 0; std::string tag = "replay" + std::to_string(k++);
    std::string tf = scratch + "/" + tag + ".trace";
    Shared* sh = mapShared();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      Ctx c; c.sh = sh; c.replaying = true; c.verbose = true; c.split = s.split;
      childSetup(c, tag);
      c.traceFd = open(tf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
      c.pre = ch; c.preAr.assign(ch.size(), -1);
      try { runOne(chk, s, c); }
      catch (...) { std::string m = describeException(); snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str()); sh->failed = 1; }
      c.flushTrace(); sh->done = 1; _exit(0);
    }
    double t = realNow(); int st = 0;
    while (true) {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) break;
      if (realNow() - t > limit && (cpuOf(pid) > limit || realNow() - t > 2 * limit)) { kill(pid, SIGKILL); waitpid(pid, &st, 0); o.bad = true; o.hang = true; o.msg = "execution does not terminate (waited " + std::to_string((int)limit) + " s alone)"; break; }
      realSleep(0.002);
    }
    if (!o.hang) {
      if (sh->failed) { o.bad = true; o.msg = sh->msg; }
      else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done)) {
        o.bad = true; o.msg = exitText(st, scratch + "/" + tag + ".err");
        if (WIFEXITED(st) && WEXITSTATUS(st) == 98) o.harness = true;
      }
    }
    o.trace = slurp(tf, 60000);
    munmap(sh, sizeof(Shared));
    return o;
  }
  static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
      if (ch == '"') r += "\\\""; else if (ch == '\\') r += "\\\\"; else if (ch == '\n') r += "\\n"; else if (ch == '\t') r += "\\t";
      else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += (char)ch;
    }
    return r + "\"";
  }
};

inline int runMain(Check& chk, int argc, char** argv) {
  std::string evidence, replayFile, replayOut = "replay.txt", tier = "quick", only;
  int jobs = 8; double budget = 0; long seed = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = val(); else if (a == "--evidence") evidence = val(); else if (a == "--replay") replayFile = val();
    else if (a == "--replay-out") replayOut = val(); else if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--suite") only = val(); else if (a == "--budget") budget = atof(val().c_str()); else if (a == "--seed") seed = atol(val().c_str());
  }
  bool thorough = tier == "thorough";
  if (budget <= 0) budget = thorough ? 3000 : 500;
  signal(SIGPIPE, SIG_IGN);
  std::string base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
  std::string tmpl = base + "/onexmc.XXXXXX"; std::vector<char> tb(tmpl.begin(), tmpl.end()); tb.push_back(0);
  if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 3; }
  Runner R{chk, tb.data(), thorough, jobs, realNow(), budget, argv[0]};
  struct Clean { std::string d; ~Clean() { rmTree(d); } } clean{R.scratch};

  if (!replayFile.empty()) {
    std::string t = Runner::slurp(replayFile, 1000000), sname; std::vector<int> ch; std::istringstream is(t); std::string l;
    while (std::getline(is, l)) {
      if (l.compare(0, 7, "suite: ") == 0) sname = l.substr(7);
      else if (l.compare(0, 8, "choices:") == 0) { std::istringstream cs(l.substr(8)); int x; while (cs >> x) ch.push_back(x); }
      else if (l == "tier: thorough") R.thorough = true;
    }
    for (auto& s : chk.suites) if (s.name == sname) {
      Outcome o = R.replay(s, ch, 200);
      printf("%s%s\n", o.trace.c_str(), o.bad ? ("REPRODUCED: " + o.msg).c_str() : "not reproduced: the property holds on this execution");
      return o.bad ? 1 : 0;
    }
    printf("no suite named %s\n", sname.c_str()); return 2;
  }

  std::ostringstream suitesJson, samplesJson; bool firstSample = true, firstSuite = true;
  uint64_t totE = 0, totO = 0, totD = 0, totC = 0; bool exhaustive = true, violated = false;
  std::string vmsg;
  double deadline = R.t0 + budget;
  for (size_t si = 0; si < chk.suites.size() && !violated; si++) {
    Suite& s = chk.suites[si];
    if (!only.empty() && s.name.find(only) == std::string::npos) continue;
    double ts = realNow();
    std::vector<Shared*> sh(jobs); std::vector<pid_t> pid(jobs);
    std::vector<uint64_t> lastN(jobs, 0); std::vector<double> lastT(jobs, ts), lastC(jobs, 0); std::vector<bool> over(jobs, false);
    fflush(stdout);
    for (int w = 0; w < jobs; w++) {
      sh[w] = R.mapShared();
      pid[w] = fork();
      if (pid[w] == 0) {
        Ctx c; c.sh = sh[w]; c.worker = w; c.workers = jobs; c.split = s.split;
        std::string tag = "s" + std::to_string(si) + "w" + std::to_string(w);
        R.childSetup(c, tag);
        workerLoop(chk, s, c, deadline, 0);
        // distinct observations, merged by the parent
        std::string df = R.scratch + "/" + tag + ".dist"; int fd = open(df.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
        std::vector<uint64_t> v(c.distinct.begin(), c.distinct.end()); size_t off = 0, len = v.size() * 8;
        while (off < len) { ssize_t n = syscall(SYS_write, fd, (char*)v.data() + off, len - off); if (n <= 0) break; off += n; }
        close(fd);
        _exit(0);
      }
    }
    int live = jobs, badW = -1; bool hang = false; int badSt = 0;
    while (live > 0 && badW < 0) {
      for (int w = 0; w < jobs; w++) {
        if (over[w]) continue;
        int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
        if (r == pid[w]) {
          over[w] = true; live--;
          if (sh[w]->failed || !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w]->done)) { badW = w; badSt = st; break; }
        } else {
          uint64_t n = sh[w]->execs * 1000003 + sh[w]->ops + (uint64_t)sh[w]->nch * 7;
          double now = realNow();
          if (n != lastN[w] || lastC[w] == 0) { lastN[w] = n; lastT[w] = now; lastC[w] = cpuOf(pid[w]); }
          else if (now - lastT[w] > chk.hangLimit) {
            // it runs without end, or it waits for something that does not come
            double used = cpuOf(pid[w]) - lastC[w];
            if (used > chk.hangLimit || (now - lastT[w] > 2 * chk.hangLimit && used < 1) || now - lastT[w] > 8 * chk.hangLimit) { badW = w; hang = true; break; }
          }
        }
      }
      realSleep(0.003);
    }
    for (int w = 0; w < jobs; w++) if (!over[w]) { kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); }
    uint64_t e = 0, o = 0, ck = 0; bool capped = false, dcap = false; std::unordered_set<uint64_t> all;
    for (int w = 0; w < jobs; w++) {
      e += sh[w]->execs; o += sh[w]->ops; ck += sh[w]->checks; capped |= sh[w]->capped; dcap |= sh[w]->distinctCapped;
      std::string df = R.scratch + "/s" + std::to_string(si) + "w" + std::to_string(w) + ".dist";
      int fd = open(df.c_str(), O_RDONLY);
      if (fd >= 0) { uint64_t b[512]; ssize_t n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) for (ssize_t k = 0; k < n / 8; k++) all.insert(b[k]); close(fd); unlink(df.c_str()); }
    }
    totE += e; totO += o; totD += all.size(); totC += ck; if (capped) exhaustive = false;
    if (badW >= 0) {
      std::vector<int> ch; for (int i = 0; i < sh[badW]->nch; i++) ch.push_back((int)sh[badW]->ch[i]);
      std::string tag = "s" + std::to_string(si) + "w" + std::to_string(badW);
      std::string first = hang ? "no progress for a long time" : sh[badW]->failed ? std::string(sh[badW]->msg) : R.exitText(badSt, R.scratch + "/" + tag + ".err");
      if (!hang && !sh[badW]->failed && WIFEXITED(badSt) && WEXITSTATUS(badSt) == 98) { printf("harness error in suite %s: %s\n", s.name.c_str(), first.c_str()); return 3; }
      if (!hang && WIFSIGNALED(badSt) && WTERMSIG(badSt) == SIGKILL) { printf("worker killed from outside (out of memory?) in suite %s\n", s.name.c_str()); }
      Outcome oc = R.replay(s, ch, hang ? 1.5 * chk.hangLimit : 200);
      std::string how = "replayed alone in a fresh process";
      if (!oc.bad) {
        if (hang) { printf("slow execution, not a hang; suite %s not completed\n", s.name.c_str()); return 3; }
        // depends on earlier executions of the same process: replay this worker's whole history
        Shared* s2 = R.mapShared(); fflush(stdout); pid_t p2 = fork();
        if (p2 == 0) { Ctx c; c.sh = s2; c.worker = badW; c.workers = jobs; c.split = s.split; R.childSetup(c, "hist"); workerLoop(chk, s, c, realNow() + 400, sh[badW]->execs + 1); _exit(0); }
        int st2; waitpid(p2, &st2, 0);
        if (s2->failed || !(WIFEXITED(st2) && WEXITSTATUS(st2) == 0)) {
          oc.bad = true; oc.msg = s2->failed ? std::string(s2->msg) : R.exitText(st2, R.scratch + "/hist.err");
          how = "needs the preceding " + std::to_string((unsigned long long)sh[badW]->execs) + " executions of worker " + std::to_string(badW) + "/" + std::to_string(jobs) + " in the same process; reproduced that way";
        }
      }
      if (!oc.bad) { printf("failure did not reproduce in suite %s: %s\n", s.name.c_str(), first.c_str()); return 3; }
      violated = true; vmsg = oc.msg;
      FILE* f = fopen(replayOut.c_str(), "w");
      if (f) {
        fprintf(f, "property: %s\nsuite: %s\ntier: %s\nchoices:", chk.property.c_str(), s.name.c_str(), tier.c_str());
        for (int x : ch) fprintf(f, " %d", x);
        fprintf(f, "\nreplay: %s --replay %s\nhow: %s\nmessage: %s\ntrace:\n%s", argv[0], replayOut.c_str(), how.c_str(), oc.msg.c_str(), oc.trace.c_str());
        fclose(f);
      }
      printf("suite: %s\n%s%s\n(%s)\n", s.name.c_str(), oc.trace.c_str(), oc.msg.c_str(), how.c_str());
    } else {
      int shown = 0;
      for (int k = 0; k < 2 && shown < 2; k++) {
        int w = k == 0 ? 0 : jobs - 1;
        if (sh[w]->nsample <= k) continue;
        std::vector<int> ch(sh[w]->sample[k], sh[w]->sample[k] + sh[w]->sampleLen[k]);
        Outcome oc = R.replay(s, ch, 200);
        if (oc.bad) { printf("sample execution of suite %s failed on replay: %s\n", s.name.c_str(), oc.msg.c_str()); return 3; }
        shown++;
        std::string tr = oc.trace.substr(0, 1200);
        if (!firstSample) samplesJson << ",";
        firstSample = false;
        std::string cs; for (int x : ch) cs += std::to_string(x) + " ";
        samplesJson << "\n   {\"suite\":" << Runner::jstr(s.name) << ",\"choices\":" << Runner::jstr(cs) << ",\"trace\":" << Runner::jstr(tr) << "}";
      }
    }
    double dt = realNow() - ts;
    printf("  %-60s executions=%llu operations=%llu checks=%llu distinct=%llu%s %.1fs%s\n", s.name.c_str(), (unsigned long long)e, (unsigned long long)o,
           (unsigned long long)ck, (unsigned long long)all.size(), dcap ? "+" : "", dt, capped ? " CAPPED" : "");
    fflush(stdout);
    if (!firstSuite) suitesJson << ",";
    firstSuite = false;
    suitesJson << "\n   {\"suite\":" << Runner::jstr(s.name) << ",\"executions\":" << e << ",\"operations\":" << o << ",\"comparisons\":" << ck << ",\"distinct_observations\":" << all.size()
               << ",\"complete\":" << (capped || badW >= 0 ? "false" : "true") << ",\"wall_s\":" << dt << "}";
    if (badW < 0 && e == 0) { printf("suite %s explored nothing\n", s.name.c_str()); return 3; }
    for (int w = 0; w < jobs; w++) munmap(sh[w], sizeof(Shared));
  }
  if (!evidence.empty()) {
    FILE* f = fopen(evidence.c_str(), "w");
    if (f) {
      std::string as; for (size_t i = 0; i < chk.assumptions.size(); i++) as += (i ? "," : "") + Runner::jstr(chk.assumptions[i]);
      fprintf(f, "{\"property\":%s,\"tier\":%s,\"seed\":%ld,\"level\":%s,\n \"coverage\":{\"states\":%llu,\"transitions\":%llu,\"traces_validated_against_impl\":%llu,\n"
                 "  \"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"comparisons\":%llu,\"exhaustive\":%s,\n  \"rule\":%s,\n  \"suites\":[%s],\n  \"samples\":[%s]},\n"
                 " \"assumptions\":[%s],\"wall_s\":%.2f,\"violations\":%d}\n",
              Runner::jstr(chk.property).c_str(), Runner::jstr(tier).c_str(), seed, Runner::jstr(chk.level).c_str(), (unsigned long long)totD, (unsigned long long)totO,
              (unsigned long long)totE, (unsigned long long)totE, (unsigned long long)totD, (unsigned long long)totC, exhaustive && !violated ? "true" : "false",
              Runner::jstr(chk.rule).c_str(), suitesJson.str().c_str(), samplesJson.str().c_str(), as.c_str(), realNow() - R.t0, violated ? 1 : 0);
      fclose(f);
    }
  }
  if (violated) { printf("VIOLATION property=%s replay=%s\n", chk.property.c_str(), replayOut.c_str()); return 1; }
  printf("OK property=%s executions=%llu operations=%llu distinct=%llu %.1fs\n", chk.property.c_str(), (unsigned long long)totE, (unsigned long long)totO, (unsigned long long)totD, realNow() - R.t0);
  return 0;
}

} // namespace mc

// Sanitizers: any report ends the process; leaks are decided by byte accounting (C19), not LeakSanitizer.
#define MC_MAIN(checkObject)                                                                         \
  extern "C" const char* __asan_default_options() {                                                  \
    return "detect_leaks=0:exitcode=99:quarantine_size_mb=8:allocator_may_return_null=0:"            \
           "detect_stack_use_after_return=0:handle_abort=0:symbolize=1";                             \
  }                                                                                                  \
  extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=99"; } \
  int main(int argc, char** argv) { return mc::runMain(checkObject, argc, argv); }

#endif

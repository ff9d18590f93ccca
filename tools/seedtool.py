#!/usr/bin/env python3
"""Maintenance tool for planted changes (no check uses it).

  seedtool.py make FILE.py [id...]   writes seeded/<id>/ from definitions
  seedtool.py run [id...]            builds each in a scratch copy, runs tests, demo, and its property's check
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"
SD = V + "/seeded"
DEMO_SH = """#!/bin/bash
# run with cwd = the built repository: 0 = behaves as stated, otherwise it does not
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/onexdemo.XXXXXX) || exit 0
trap 'rm -rf "$w"' EXIT
R=$PWD
g++ -std=c++11 -O1 -w -flto -I"$R/src" -I"$R/_build" "$d/demo.cpp" "$R/_build/src/libonexLib.a" -ldl -o "$w/demo" || { echo "cannot build the demonstration"; exit 2; }
cd "$w" && ONEX_CLI="$R/_build/onex" timeout 200 ./demo > out.txt 2>&1
rc=$?
tail -5 out.txt
exit $rc
"""
PRELUDE = r"""#include "OnexAPI.hpp"
#include "GroupableTimeSeriesSet.hpp"
#include "GlobalGroupSpace.hpp"
#include "LocalLengthGroupSpace.hpp"
#include "TimeSeries.hpp"
#include "Group.hpp"
#include "Exception.hpp"
#include "distance/Distance.hpp"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
using namespace onex;
using std::string; using std::vector;
#define NEED(x) do { if (!(x)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #x); exit(1); } } while (0)
static string put(const string& p, const string& s) { std::ofstream f(p); f << s; return p; }
static string get(const string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
template <class F> static bool refused(F f) { try { f(); } catch (const OnexException&) { return true; } return false; }
static TimeSeries seq(const vector<double>& v) { TimeSeries t((int)v.size()); for (size_t i = 0; i < v.size(); i++) t[(int)i] = v[i]; return t; }
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def scratch(prefix):
    d = tempfile.mkdtemp(prefix=prefix, dir="/tmp/seedwork")
    r = d + "/repo"
    sh(["git", "clone", "-q", "/repo", r], check=True)
    return d, r


def original_only(diff, name):
    """removed lines must be original ones"""
    blame = {}
    bad = []
    f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            blame[f] = sh(["git", "-C", "/repo", "blame", "-s", f]).stdout.splitlines()
        m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
        if m:
            n = int(m[1]); continue
        if f is None:
            continue
        if l.startswith("-") and not l.startswith("---"):
            if not blame[f][n - 1].startswith("^749d3b7"):
                bad.append(blame[f][n - 1])
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad


def make(path, only):
    g = {}
    exec(open(path).read(), g)
    d, r = scratch("make")
    for s in g["SEEDS"]:
        if only and s["id"] not in only:
            continue
        sh(["git", "-C", r, "checkout", "-q", "--", "."])
        ok = True
        for f, old, new in s["edits"]:
            p = r + "/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print("%s: %d matches in %s of %r" % (s["id"], t.count(old), f, old)); ok = False
            t = t.replace(old, new, 1)
            open(p, "w").write(t)
        if not ok:
            continue
        diff = sh(["git", "-C", r, "diff"]).stdout
        bad = original_only(diff, s["id"])
        if bad:
            print("%s: changes lines of my own commits: %s" % (s["id"], bad))
        o = SD + "/" + s["id"]
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.sh", "w").write(s.get("sh", DEMO_SH))
        os.chmod(o + "/demo.sh", 0o755)
        open(o + "/demo.cpp", "w").write(PRELUDE + s["demo"].strip("\n") + "\n")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)


def run_one(i, check=True):
    o = SD + "/" + i
    prop = json.load(open(o + "/meta.json"))["property"]
    d, r = scratch("run")
    try:
        b = r + "/_build"
        def build():
            x = sh("cmake -S %s -B %s -G Ninja -DFETCHCONTENT_FULLY_DISCONNECTED=ON --no-warn-unused-cli >/dev/null && ninja -C %s" % (r, b, b), shell=True)
            return x.returncode, x.stdout[-1500:]
        rc, out = build()
        if rc: return i, prop, "clean build failed " + out
        x = sh(["bash", o + "/demo.sh"], cwd=r)
        if x.returncode != 0: return i, prop, "DEMO FAILS ON CLEAN: " + x.stdout[-500:]
        x = sh(["git", "-C", r, "apply", o + "/patch.diff"])
        if x.returncode: return i, prop, "patch does not apply: " + x.stdout
        rc, out = build()
        if rc: return i, prop, "patched build failed " + out
        sh(["python3", "/opt/vp/run_boost.py", b, d + "/out.json"])
        t = json.load(open(d + "/out.json"))
        want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
        if t["failed"] or len(t["passed"]) < 44: return i, prop, "TESTS FAIL: %s" % t["failed"]
        x = sh(["bash", o + "/demo.sh"], cwd=r)
        if x.returncode == 0: return i, prop, "DEMO PASSES WITH PATCH"
        if "cannot build" in x.stdout: return i, prop, "demo does not build with patch " + x.stdout[-300:]
        demo = x.stdout.strip().splitlines()[-1][:100] if x.stdout.strip() else "rc %d" % x.returncode
        if not check: return i, prop, "ok; demo: " + demo
        x = sh(["python3", V + "/check.py", prop], env=dict(os.environ, ONEX_REPO=r))
        hit = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
        if x.returncode == 1 and hit: return i, prop, "CAUGHT | demo: " + demo
        return i, prop, "MISSED rc=%d | demo: %s | %s" % (x.returncode, demo, x.stdout.strip()[-300:] if x.returncode else "")
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    os.makedirs("/tmp/seedwork", exist_ok=True)
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(SD))
        check = "--nocheck" not in sys.argv
        # drivers are parallel themselves: two at a time
        with concurrent.futures.ThreadPoolExecutor(2 if check else 6) as ex:
            for i, p, m in ex.map(lambda i: run_one(i, check), ids):
                print("%-28s %s %s" % (i, p, m), flush=True)

#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough] [--replay FILE] [--build-only]

Builds the library (and, where needed, the command line) from /repo's current working tree with
sanitizers, builds the property's driver, runs it and rewrites evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Anything else: error of the check."""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ONEX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "g++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,float-cast-overflow,float-divide-by-zero,nonnull-attribute",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
LIBFLAGS = ["-std=c++11", "-O1", "-g1", "-w"] + SAN
HARFLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-DMC_ENV_CLOCK"] + SAN


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_files(sub):
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, sub)):
        dirs.sort()
        out += [os.path.join(root, f) for f in sorted(files)]
    return out


def headers():
    return [f for f in repo_files("src") if re.search(r"\.(h|hpp|hh|inl|ipp|tpp)$", f)]


def sources(sub):
    return [f for f in repo_files(sub) if f.endswith(".cpp")]


def config(cfg, single):
    """config.hpp as CMake would generate it."""
    d = os.path.join(BUILD, "include-single" if single else "include-double")
    os.makedirs(d, exist_ok=True)
    out = []
    with open(os.path.join(REPO, "config.hpp.in")) as f:
        for l in f:
            m = re.match(r"#cmakedefine\s+(\w+)", l)
            if m:
                l = ("#define %s\n" if single and m[1] == "SINGLE_PRECISION" else "/* #undef %s */\n") % m[1]
            out.append(l)
    text = "".join(out)
    p = os.path.join(d, "config.hpp")
    if not os.path.exists(p) or open(p).read() != text:
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(text)
        os.replace(tmp, p)
    return d


def compile_one(args):
    src, obj, flags = args
    if os.path.exists(obj):
        return 0, ""
    tmp = obj + ".%d.o" % os.getpid()
    r = sh([CXX] + flags + ["-c", src, "-o", tmp])
    if r.returncode == 0:
        os.replace(tmp, obj)
    return r.returncode, r.stdout


def build(prop, spec):
    os.makedirs(BUILD, exist_ok=True)
    single = spec.get("single", False)
    inc = config(None, single)
    src = os.path.join(VERIF, "harness", prop + ".cpp")
    incs = ["-I" + inc, "-I" + os.path.join(REPO, "src")]
    hdr = headers()
    hkey = digest(hdr, str(single))
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    jobs, objs = [], []
    libflags = LIBFLAGS + spec.get("libflags", [])
    for s in sources("src"):
        o = os.path.join(objdir, os.path.basename(s)[:-4] + "-" + digest([s], hkey + str(libflags)) + ".o")
        jobs.append((s, o, libflags + incs)); objs.append(o)
    if spec.get("cli"):
        chdr = [f for f in repo_files("cli") if not f.endswith(".cpp")]
        ckey = digest(chdr, hkey)
        for s in sources("cli"):
            fl = libflags + ["-Dmain=onex_cli_main", "-I" + os.path.join(REPO, "cli")]
            o = os.path.join(objdir, "cli-" + os.path.basename(s)[:-4] + "-" + digest([s], ckey + str(fl)) + ".o")
            jobs.append((s, o, fl + incs)); objs.append(o)
    mc = glob.glob(os.path.join(VERIF, "mc", "*.hpp"))
    harflags = HARFLAGS + spec.get("flags", [])
    ho = os.path.join(objdir, prop + "-" + digest(mc + [src] + spec.get("deps", []), hkey + str(harflags)) + ".o")
    jobs.append((src, ho, harflags + incs + ["-I" + os.path.join(VERIF, "mc")])); objs.append(ho)
    jobs.sort(key=lambda j: j[0] != src)          # the longest first
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for (rc, out), j in zip(ex.map(compile_one, jobs), jobs):
            if rc != 0:
                print("cannot compile %s:\n%s" % (j[0], out[-4000:]))
                sys.exit(2)
    exe = os.path.join(BUILD, prop + "-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        r = sh([CXX] + SAN + ["-o", tmp] + objs + spec.get("libs", []))
        if r.returncode != 0:
            print("cannot link:\n" + r.stdout[-4000:])
            sys.exit(2)
        os.replace(tmp, exe)
    return exe


def specs(prop):
    """// MC: {json} line at the top of a driver gives its build options."""
    with open(os.path.join(VERIF, "harness", prop + ".cpp")) as f:
        for l in f:
            m = re.match(r"// MC: (\{.*\})", l)
            if m:
                return json.loads(m[1])
    return {}


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay, extra = None, []
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 2
        elif args[i] == "--replay":
            replay = args[i + 1]; i += 2
        else:
            extra.append(args[i]); i += 1
    t0 = time.time()
    exe = build(prop, specs(prop))
    print("built %s in %.1f s" % (os.path.basename(exe), time.time() - t0), flush=True)
    if "--build-only" in extra:
        return 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    out = os.path.join(VERIF, "replays", prop + ".txt")
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    cmd = [exe, "--tier", tier, "--seed", os.environ.get("VERIF_SEED", "1")]
    if replay:
        cmd += ["--replay", replay]
    else:
        if os.path.exists(ev):
            os.remove(ev)
        cmd += ["--evidence", ev, "--replay-out", out] + extra
    env = dict(os.environ, KNOWN_FINDINGS=os.path.join(VERIF, "known_findings.txt"))
    rc = subprocess.run(cmd, cwd=VERIF, env=env).returncode
    return rc


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Builds /repo's sources and one driver, runs it. usage: run.py ID [quick|thorough] [driver args...]
   run.py --setup   pre-builds all drivers (cache only; every check rebuilds what changed)."""
import glob, hashlib, os, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("TG_REPO", "/repo")
B = os.path.join(V, "build")
WARN = ["-w"]
FLAVORS = {
  "asan": (["/usr/bin/g++"], ["-std=c++17", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"] + WARN, ["-fsanitize=address,undefined", "-ldl", "-lpthread"]),
  "fast": (["/usr/bin/g++"], ["-std=c++17", "-O2", "-g", "-D_GLIBCXX_ASSERTIONS"] + WARN, ["-ldl", "-lpthread"]),
  # repository sources instrumented by the thread sanitizer pass, but linked with our own run time
  "sched": (["/usr/bin/clang++"], ["-std=c++17", "-O1", "-g", "-fno-builtin-memcmp", "-include", V + "/drivers/sched/no_extern.h"] + WARN, ["-ldl", "-lpthread", "-rdynamic"]),
  # repository sources with edge coverage, whose call-backs are the driver's
  "cost": (["/usr/bin/clang++"], ["-std=c++17", "-O1", "-g", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + WARN, ["-ldl", "-lpthread", "-rdynamic"]),
}
LIB_EXTRA = {"sched": ["-fsanitize=thread"], "cost": ["-fno-builtin", "-fsanitize-coverage=trace-pc-guard"]}
DRIVER_FLAVOR = {"C16": "sched", "C07": "fast", "C23": "cost", "C24": "fast", "C28": "fast"}
env = dict(os.environ, LC_ALL="C.UTF-8")
for k in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"): env.pop(k, None)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]
def rd(p):
    with open(p, "rb") as f: return f.read()
def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if p.returncode: sys.stdout.write(p.stdout.decode("utf8", "replace")[:6000]); raise SystemExit("build failed: " + " ".join(cmd))

def obj(src, flavor, extra, deps, tag):
    cc, cf_, _ = FLAVORS[flavor]
    key = sha(rd(src), *deps, " ".join(cc + cf_ + extra), tag)
    o = os.path.join(B, flavor, os.path.basename(src) + "." + key + ".o")
    return o, (cc + cf_ + extra + ["-c", src, "-o", o + ".tmp%d" % os.getpid()])

def build(ids):
    jobs, bins = {}, {}
    rh = [rd(h) for h in sorted(glob.glob(R + "/include/**/*", recursive=True)) + sorted(glob.glob(R + "/src/*.h*")) if os.path.isfile(h)]
    mh = [rd(h) for h in sorted(glob.glob(V + "/mc/*.hpp"))]
    inc = ["-I" + R + "/include"]
    for i in ids:
        fl = DRIVER_FLAVOR.get(i, "asan")
        os.makedirs(os.path.join(B, fl), exist_ok=True)
        libextra = inc + LIB_EXTRA.get(fl, [])
        objs = []
        for s in sorted(glob.glob(R + "/src/*.cpp")):
            o, c = obj(s, fl, libextra, rh, "lib"); objs.append(o); jobs[o] = c
        dinc = inc + ["-I" + V + "/mc", "-I" + V + "/drivers"]
        srcs = [V + "/mc/mc.cpp"] + sorted(glob.glob(V + "/drivers/%s_*.cpp" % i.lower()))
        if len(srcs) < 2: raise SystemExit("no driver for " + i)
        for s in srcs:
            o, c = obj(s, fl, dinc, rh + mh, "drv"); objs.append(o); jobs[o] = c
        if fl == "sched":
            for s in sorted(glob.glob(V + "/drivers/sched/*.cpp")):
                ex = dinc + (["-fsanitize=thread"] if os.path.basename(s).startswith("inst_") else [])
                o, c = obj(s, fl, ex, rh + mh + [rd(h) for h in sorted(glob.glob(V + "/drivers/sched/*.hpp"))], "sched"); objs.append(o); jobs[o] = c
        bins[i] = (fl, objs)
    todo = [(o, c) for o, c in jobs.items() if not os.path.exists(o)]
    def one(oc):
        o, c = oc; run(c); os.rename(c[-1], o)
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(one, todo))
    out = {}
    def link(i):
        fl, objs = bins[i]; cc, _, ld = FLAVORS[fl]
        b = os.path.join(B, fl, i + "." + sha(*objs))
        if not os.path.exists(b): run(cc + objs + ld + ["-o", b + ".tmp%d" % os.getpid()]); os.rename(b + ".tmp%d" % os.getpid(), b)
        out[i] = b
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(link, bins))
    return out

def all_ids(): return sorted({os.path.basename(f)[:3].upper() for f in glob.glob(V + "/drivers/c*_*.cpp")})

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup": build(all_ids()); print("built", len(all_ids()), "drivers"); return 0
    i = a[0]; rest = a[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if rest and rest[0] in ("quick", "thorough"): tier = rest.pop(0)
    b = build([i])[i]
    os.makedirs(V + "/evidence", exist_ok=True)
    cmd = [b, "--" + tier, "--replay-dir", V + "/replays", "--known", V + "/known_findings.txt"]
    if "--replay" not in rest and "--list" not in rest and "--only" not in rest: cmd += ["--evidence", V + "/evidence/" + i + ".json"]
    sys.stdout.flush()
    e = dict(env, VERIF_TIER=tier, TG_REPO_DIR=R)
    return subprocess.run(cmd + rest, env=e, cwd=V).returncode
if __name__ == "__main__":
    try: sys.exit(main())
    except SystemExit as e:
        if isinstance(e.code, str): print(e.code); sys.exit(2)
        raise

#!/usr/bin/env python3
"""Planted bugs.
  plant.py make SPEC.py    SPEC calls bug(id=, prop=, needs=, breaks=, edits=[(path, old, new)], demo=C++)
  plant.py eval ID...      apply to /repo, build, run the stable tests, the demo and the check; undo
"""
import json, os, subprocess, sys, shutil, time
V = "/verif"; R = "/repo"; S = V + "/seeded"
DEMO_SH = '''#!/bin/bash
# Run in /repo after the build: exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
b="$repo/_build/src"
g++ -std=gnu++17 -O1 -w -D_USE_MATH_DEFINES -DBUILD_WITH_BOOST_THREAD -DBUILD_WITH_FFTW3 -DBUILD_WITH_BOOST_UNIT_TESTS @FLAGS@\\
    -I"$repo/include" -I"$repo/src" "$here/demo.cpp" -o "$tmp/demo" \\
    "$b/optimization/libk52_optimization.a" "$b/dsp/libk52_dsp.a" "$b/parallel/libk52_parallel.a" "$b/common/libk52_common.a" \\
    -lboost_thread -lboost_system -lboost_date_time -lboost_chrono -lfftw3 -lpthread || exit 2
cd "$tmp" && timeout 120 ./demo
'''
# the sources built with MPI, against a model of it that lies beside the demo
MPI_SH = '''#!/bin/bash
# Run in /repo after the build: exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
find "$repo/src/common" "$repo/src/parallel" "$repo/src/optimization" -name '*.cpp' | sed 's/.*/"&"/' |
    xargs -P 8 -I{} bash -c 'g++ -std=gnu++17 -O0 -w -D_USE_MATH_DEFINES -DBUILD_WITH_MPI -DBUILD_WITH_BOOST_THREAD -I"$0/mpi_model" -I"$1/include" -I"$1/src" -c "$3" -o "$2/$(echo "$3" | md5sum | cut -c1-16).o"' \\
    "$here" "$repo" "$tmp" {} || exit 2
g++ -std=gnu++17 -O0 -w -D_USE_MATH_DEFINES -DBUILD_WITH_MPI -DBUILD_WITH_BOOST_THREAD @FLAGS@\\
    -I"$here/mpi_model" -I"$repo/include" -I"$repo/src" "$here/demo.cpp" -o "$tmp/demo" "$tmp"/*.o \\
    -Wl,--wrap=exit -lboost_thread -lboost_system -lboost_date_time -lboost_chrono -lpthread || exit 2
cd "$tmp" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(spec):
    out = []
    def bug(**k):
        g = {"ID": k["id"], "PROPERTY": k["prop"], "NEEDS": k["needs"], "BREAKS": k["breaks"], "DEMO": k["demo"], "FLAGS": k.get("flags", ""), "MPI": k.get("mpi"),
             "edit": lambda sub: [sub(*e) for e in k["edits"]]}
        out.append(one(g))
    exec(open(spec).read(), {"bug": bug})
    return " ".join(out)
def one(g):
    w = "/tmp/plant_wt"
    sh("git -C %s worktree remove --force %s" % (R, w)); shutil.rmtree(w, ignore_errors=True)
    assert sh("git -C %s worktree add -q --detach %s HEAD" % (R, w)).returncode == 0
    def sub(p, a, b):
        q = w + "/" + p; t = open(q, newline="").read()
        crlf = "\r\n" in t
        if crlf and a not in t: a = a.replace("\n", "\r\n"); b = b.replace("\n", "\r\n")
        assert t.count(a) == 1, (p, t.count(a), a)
        open(q, "w", newline="").write(t.replace(a, b))
    try:
        g["edit"](sub)
        d = sh("git -C %s diff" % w).stdout
        # the removed or neighbouring lines are to be original ones
        base = sh("git -C %s log --format=%%H --grep='^fix:' --invert-grep -1" % R).stdout.strip()
    finally:
        sh("git -C %s worktree remove --force %s" % (R, w))
    o = S + "/" + g["ID"]; os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w", newline="").write(d)
    open(o + "/demo.cpp", "w").write(g["DEMO"].lstrip())
    open(o + "/demo.sh", "w").write((MPI_SH if g.get("MPI") else DEMO_SH).replace("@FLAGS@", g.get("FLAGS", "") )); os.chmod(o + "/demo.sh", 0o755)
    if g.get("MPI"): shutil.copytree(V + "/harness/mpi_model", o + "/mpi_model", dirs_exist_ok=True)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(o + "/meta.json", "w"), indent=1)
    return g["ID"]
def names(x):
    for k in ("stable", "passed", "pass", "tests"):
        if k in x: return set(x[k])
def clean():
    sh("git -C %s checkout -q -- ." % R)
def original(i):
    """how many of the removed lines are of the original repository"""
    fixes = set(sh("git -C %s log --format=%%H --grep='^fix:'" % R).stdout.split())
    n = m = 0; f = None
    import re
    for l in open(S + "/" + i + "/patch.diff", newline=""):
        if l.startswith("--- a/"): f = l[6:].strip()
        k = re.match(r"@@ -(\d+)", l)
        if k: at = int(k.group(1)); continue
        if l.startswith("---") or l.startswith("+++") or f is None: continue
        if l.startswith("-"):
            c = sh("git -C %s blame -l -s -L %d,%d HEAD -- %s" % (R, at, at, f)).stdout.split()[0].lstrip("^")
            n += 1; m += any(x.startswith(c) or c.startswith(x) for x in fixes); at += 1
        elif l.startswith(" "): at += 1
    return n - m, n
def ev(i):
    meta = json.load(open(S + "/" + i + "/meta.json")); P = meta["property"]
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo not clean"
    r = {"id": i, "property": P, "orig": "%d/%d" % original(i)}
    sh("bash /opt/vp/build.sh")
    d = sh(["bash", S + "/" + i + "/demo.sh"], cwd=R); r["demo_clean"] = d.returncode
    if d.returncode: r["demo_clean_out"] = d.stdout[-600:]
    try:
        a = sh("git -C %s apply %s/%s/patch.diff" % (R, S, i)); r["apply"] = a.returncode
        if a.returncode: r["o"] = a.stdout; return r
        b = sh("bash /opt/vp/build.sh"); r["build"] = b.returncode
        if b.returncode: r["o"] = b.stdout[-1500:]; return r
        sh("bash /opt/vp/test.sh /tmp/plant_o.json")
        miss = names(json.load(open("/opt/vp/BASELINE.json"))) - names(json.load(open("/tmp/plant_o.json"))); r["tests_missing"] = sorted(miss)
        d = sh(["bash", S + "/" + i + "/demo.sh"], cwd=R); r["demo_bug"] = d.returncode; r["demo_out"] = d.stdout[-200:]
        t = time.time(); c = sh([sys.executable, V + "/bin/check.py", P] + EXTRA, env=dict(os.environ, VERIF_EVIDENCE="/tmp/plant_ev")); r["check"] = c.returncode; r["t"] = round(time.time() - t)
        r["caught"] = c.returncode == 1 and "VIOLATION property=" + P in c.stdout
        r["check_out"] = c.stdout[:400]
    finally:
        clean()
    return r
EXTRA = []
if sys.argv[1] == "make":
    for s in sys.argv[2:]: print(make(s))
else:
    ids = sys.argv[2:]
    if "--seed" in ids: k = ids.index("--seed"); EXTRA = ids[k:k + 2]; ids = ids[:k] + ids[k + 2:]
    bad = 0
    for i in ids:
        r = ev(i)
        ok = r.get("demo_clean") == 0 and r.get("build") == 0 and not r.get("tests_missing") and r.get("demo_bug") not in (0, None, 2)
        print("%s %s %s %s" % (i, r["property"], "VALID" if ok else "INVALID", "caught" if r.get("caught") else "MISSED"), r["orig"], r.get("t"), "s", r.get("check_out", "").replace("\n", " | ")[:200])
        if not ok or not r.get("caught"): print(json.dumps(r, indent=1))
        sys.stdout.flush()
    sh("bash /opt/vp/build.sh")

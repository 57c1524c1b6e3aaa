#!/usr/bin/env python3
"""Builds the harness of one property from /repo's working tree and runs it.

  check.py C01 [--tier quick|thorough] [--replay FILE] [--cases N] [--seed N] [--facet NAME]
  check.py --build-all

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Anything else is an error of the check.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from checks_config import CHECKS  # noqa: E402

DEFS = ["-D_USE_MATH_DEFINES", "-DBUILD_WITH_BOOST_THREAD", "-DBUILD_WITH_FFTW3",
        "-DBUILD_WITH_BOOST_UNIT_TESTS"]
VARIANTS = {
    # assertions of libstdc++ on: an out-of-range [] or a dereferenced end() is an outcome, not luck
    "asan": ["g++", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["g++", "-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["g++", "-O1", "-g1", "-fsanitize=thread"],
}
LIBS = ["-lboost_thread", "-lboost_system", "-lboost_date_time", "-lboost_chrono", "-lfftw3", "-lpthread"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            h.update(b"missing")
    return h.hexdigest()


def parse_deps(path):
    try:
        txt = open(path).read()
    except OSError:
        return None
    txt = txt.replace("\\\n", " ")
    if ":" not in txt:
        return None
    return txt.split(":", 1)[1].split()


def compile_one(src, obj, flags):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep, key = obj + ".d", obj + ".key"
    cmd = flags + ["-MMD", "-MF", dep, "-c", src, "-o", obj]
    extra = " ".join(cmd)
    deps = parse_deps(dep)
    if deps is not None and os.path.exists(obj) and os.path.exists(key):
        if open(key).read() == digest(deps, extra):
            return None
    r = sh(cmd)
    if r.returncode != 0:
        return "compiling %s failed:\n%s" % (src, r.stdout[-6000:])
    with open(key, "w") as f:
        f.write(digest(parse_deps(dep) or [], extra))
    return None


def lib_sources(lib):
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src", lib)):
        dirs[:] = [d for d in dirs if d not in ("unit_tests", "tests")]
        out += [os.path.join(root, f) for f in files if f.endswith(".cpp")]
    return sorted(out)


def numbers(libs):
    """The numbers the sources mention: sizes and limits at which the code may change what it does."""
    found = {16, 32, 64, 100, 128, 256, 512, 1000, 1024, 4096, 10000, 65536}
    paths = [p for lib in libs for p in lib_sources(lib)]
    for lib in libs:
        for root in ("src", "include/k52"):
            for d, _, files in os.walk(os.path.join(REPO, root, lib)):
                if "unit_tests" not in d and "tests" not in d:
                    paths += [os.path.join(d, f) for f in files if f.endswith((".h", ".hpp", ".inl"))]
    for p in paths:
        try:
            t = open(p, errors="replace").read()
        except OSError:
            continue
        t = re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:[^\"\\\n]|\\.)*\"", " ", t, flags=re.S)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)[uUlLfF]*", t):
            w = m.group(1)
            try:
                found.add(float(int(w, 16)) if w[:2].lower() == "0x" else float(w))
            except ValueError:
                pass
        for m in re.finditer(r"\b1[uUlL]*\s*<<\s*(\d+)\b", t):
            found.add(2.0 ** min(62, int(m.group(1))))
    return sorted(x for x in found if x not in (0, 1, 2) and x < 1e300)


def build(pid):
    cfg = CHECKS[pid]
    variant = cfg.get("variant", "asan")
    base = list(VARIANTS[variant]) + ["-std=gnu++17", "-w"] + DEFS + cfg.get("defs", [])
    if cfg.get("defs"):
        vdir = os.path.join(BUILD, variant + "-" + hashlib.sha1(" ".join(cfg["defs"]).encode()).hexdigest()[:6])
    else:
        vdir = os.path.join(BUILD, variant)
    # the repository's code reports to engine/guide.cpp what it executes
    cover = ["-fsanitize-coverage=trace-pc,trace-cmp"] if variant == "asan" else []
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "harness")]
    jobs, objs = [], []
    for lib in cfg["libs"]:
        for s in lib_sources(lib):
            o = os.path.join(vdir, "repo", os.path.relpath(s, REPO) + ".o")
            jobs.append((s, o, base + cover + inc + cfg.get("inc", [])))
            objs.append(o)
    for s in [os.path.join(VERIF, "harness", x) for x in cfg["src"]] + [os.path.join(VERIF, "engine", "pbt.cpp")]:
        o = os.path.join(vdir, "verif", os.path.relpath(s, VERIF) + ".o")
        extra = ["-I" + os.path.join(REPO, "src")] + cfg.get("inc", [])
        # where it is in templates, the harness reports, too
        jobs.append((s, o, base + (cover if cfg.get("templates") and "harness" in s else []) + inc + extra))
        objs.append(o)
    o = os.path.join(vdir, "verif", "engine", "guide.cpp.o")
    jobs.append((os.path.join(VERIF, "engine", "guide.cpp"), o, ["g++", "-O2", "-std=gnu++17", "-w"]))
    objs.append(o)
    # the slow ones (the harness) first
    jobs.reverse()
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
    if errs:
        return None, "\n".join(errs)
    exe = os.path.join(vdir, pid)
    link = [VARIANTS[variant][0]] + [f for f in VARIANTS[variant][1:] if f.startswith("-fsan")] + objs + \
        ["-o", exe] + cfg.get("link", []) + LIBS
    r = sh(link)
    if r.returncode != 0:
        return None, "linking failed:\n" + r.stdout[-6000:]
    return exe, None


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build-all":
        bad = 0
        for pid in sorted(CHECKS):
            exe, err = build(pid)
            if err:
                print(pid, err)
                bad = 1
        return bad
    pid = a[0]
    opt = {"--tier": os.environ.get("VERIF_TIER", "quick"), "--seed": os.environ.get("VERIF_SEED", "1")}
    i = 1
    while i < len(a):
        opt[a[i]] = a[i + 1]
        i += 2
    exe, err = build(pid)
    if err:
        print(err)
        print("%s: could not build the harness" % pid)
        return 2
    work = tempfile.mkdtemp(prefix="k52verif.")
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=3000:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    env["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1:report_signal_unsafe=0"
    env["LC_ALL"] = "C"
    evid = os.path.join(VERIF, "evidence", pid + ".json")
    cmd = [exe, "--seed", opt["--seed"], "--tier", opt["--tier"], "--work", os.path.join(work, "w"),
           "--replay-dir", os.path.join(VERIF, "replays"), "--workers", str(os.cpu_count() or 4)]
    nums = os.path.join(work, "numbers")
    with open(nums, "w") as f:
        f.write("\n".join(repr(float(x)) for x in numbers(CHECKS[pid]["libs"])))
    cmd += ["--numbers", nums]
    if "--replay" in opt:
        cmd += ["--replay", os.path.abspath(opt["--replay"])]
    else:
        os.makedirs(os.path.dirname(evid), exist_ok=True)
        cmd += ["--out", os.environ.get("VERIF_EVIDENCE", evid)]
    for k in ("--cases", "--guided", "--facet", "--cap", "--workers"):
        if k in opt:
            cmd += [k, opt[k]]
    if CHECKS[pid].get("variant") == "tsan":
        # address-space randomisation beyond 28 bits is more than this tsan can map
        cmd = ["setarch", "-R"] + cmd
    try:
        r = subprocess.run(cmd, env=env, cwd=work)
        rc = r.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc if rc in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())

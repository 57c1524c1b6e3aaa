#!/usr/bin/env python3
"""Mutation testing of the checks, on clones of /repo (nothing else is touched).

  automut.py list                      how many mutants per file
  automut.py run OUT.jsonl [--n N] [--workers K] [--only SUBSTRING] [--seed S]

A mutant is one small textual change of a source line. It is given to the checks whose
properties are anchored in its file, until one of them reports a violation.
"""
import json, os, random, re, shutil, subprocess, sys, threading, time, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"; B = "/tmp/automut"
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
PROPS = [json.loads(l) for l in open(V + "/properties.jsonl")]
def anchors():
    m = {}
    for p in PROPS:
        for f in p["anchors"]["files"] + [x["where"] for x in p["anchors"]["mechanism"]]:
            m.setdefault(f, [])
            if p["id"] not in m[f]: m[f].append(p["id"])
    return m
EXTRA = {"src/common/random.cpp": ["C20", "C31", "C25"], "src/common/helpers.cpp": ["C05"], "src/dsp/akima_spline.cpp": ["C11"]}
DECL = re.compile(r"^\s*(const\s+)?(typedef|return|using|namespace|virtual|static|class|struct|template|friend|throw|(::)?(std|boost|k52)::[\w:<>, *&]+\s+[\w*&]+|[A-Za-z_][\w:]*(<[^;=]*>)?[\s*&]+[A-Za-z_]\w*\s*(=|;|\(|\[))")
def strip(l):
    l = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + " " * (len(m.group(0)) - 2) + '"', l)
    i = l.find("//")
    return l if i < 0 else l[:i]
def mutants(path):
    out = []
    lines = open(R + "/" + path, newline="").read().split("\n")
    block = False; depth = 0
    for n, full in enumerate(lines):
        l = strip(full.rstrip("\r"))
        if block:
            if "*/" in l: block = False
            continue
        if "/*" in l:
            if "*/" not in l: block = True
            l = re.sub(r"/\*.*?(\*/|$)", lambda m: " " * len(m.group(0)), l)
        t = l.strip()
        if not t or t.startswith("#") or t.startswith("*") or re.match(r"(namespace|using|class|struct|template|typedef|public|private|protected|virtual)\b", t): continue
        def add(a, b, new, kind):
            out.append((path, n, full[:a] + new + full[b:], kind))
        for rx, new, kind in [(r"(?<![<\-=>])<=", "<", "rel"), (r"(?<![>\-<=])>=", ">", "rel"), (r" < ", " <= ", "rel"), (r" > ", " >= ", "rel"), (r"(?<=\w)<(?=[\w(]+;)", "<=", "rel"),
                              (r"==", "!=", "rel"), (r"!=", "==", "rel"), (r"&&", "||", "log"), (r"\|\|", "&&", "log"), (r"(?<=[\w)\]]) ?\+ ?(?=[\w(])", " - ", "ari"), (r"(?<=[\w)\]]) ?- ?(?=[\w(])", " + ", "ari"),
                              (r"(?<=[\w)\]]) ?\* ?(?=[\w(])", " / ", "ari"), (r"(?<=[\w)\]]) ?/ ?(?=[\w(])", " * ", "ari"), (r"\+=", "-=", "ari"), (r"-=", "+=", "ari"), (r"\*=", "/=", "ari"), (r"/=", "*=", "ari"),
                              (r"\btrue\b", "false", "bool"), (r"\bfalse\b", "true", "bool"), (r"std::(abs|fabs|floor|ceil|exp|log|sqrt|cos|sin)\(", "(", "fun"), (r"\bmin\b", "max", "fun"), (r"\bmax\b", "min", "fun"),
                              (r"\.begin\(\)", ".begin() + 1", "ari"), (r"\bmin_", "max_", "name"), (r"\bmax_", "min_", "name"), (r"\blower_", "upper_", "name"), (r"\bupper_", "lower_", "name"), (r"\bfirst_", "second_", "name"), (r"\bsecond_", "first_", "name")]:
            for m in re.finditer(rx, l):
                if kind == "ari" and ("<<" in l or ">>" in l) and "=" not in l: continue
                add(m.start(), m.end(), new, kind)
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", l):
            add(m.start(), m.end(), str(int(m.group(1)) + 1), "const")
            if int(m.group(1)) == 1: add(m.start(), m.end(), "0", "const")
        for m in re.finditer(r"(?<![\w.])(\d+\.\d+)(?![\w.])", l):
            add(m.start(), m.end(), repr(float(m.group(1)) * 1.5 + 0.1), "const")
        m = re.match(r"^(\s*)(else )?if ?\((.*)\)\s*$", l)
        if m: add(m.start(3), m.end(3), "!(" + full[m.start(3):m.end(3)] + ")", "neg")
        if re.match(r"^\s{4,}[^{}]*;\s*$", l) and not DECL.match(l) and l.count("(") == l.count(")"):
            prev = strip(lines[n - 1].rstrip("\r")).strip() if n else ""
            if prev.endswith((";", "{", "}", ")")) or not prev: add(len(l) - len(l.lstrip()), len(l.rstrip()), ";", "del")
        elif re.match(r"^\s+(break|continue);\s*$", l): add(len(l) - len(l.lstrip()), len(l.rstrip()), ";", "del")
    return out
def allm(only):
    m = anchors(); out = []
    for f in sorted(m):
        if only and only not in f: continue
        for x in mutants(f): out.append(x)
    return out
def key(x): return "%s:%d:%s" % (x[0], x[1] + 1, x[2].strip())
def worker(k, q, lock, outp, threads):
    w = "%s/r%d" % (B, k); b = "%s/b%d" % (B, k)
    if not os.path.isdir(w): sh("git clone -q %s %s" % (R, w))
    sh("git -C %s fetch -q && git -C %s checkout -qf origin/HEAD" % (w, w))
    A = anchors()
    while True:
        try: x = q.get_nowait()
        except queue.Empty: return
        path, n, new, kind = x
        sh("git -C %s checkout -q -- ." % w)
        p = w + "/" + path; L = open(p, newline="").read().split("\n"); old = L[n]; L[n] = new; open(p, "w", newline="").write("\n".join(L))
        t = time.time(); res = "survived"; by = None; codes = {}
        for c in A[path] + [e for e in EXTRA.get(path, []) if e not in A[path]]:
            r = sh([sys.executable, V + "/bin/check.py", c, "--tier", "quick", "--workers", str(threads)], timeout=1500,
                   env=dict(os.environ, VERIF_REPO=w, VERIF_BUILD=b, VERIF_EVIDENCE="%s/e%d" % (B, k), VERIF_SHRINK_SECONDS="1"))
            codes[c] = r.returncode
            if r.returncode == 1: res = "killed"; by = c; break
            if r.returncode == 2: res = "unbuilt" if "could not build" in r.stdout else "error"; break
        with lock:
            open(outp, "a").write(json.dumps({"at": "%s:%d" % (path, n + 1), "kind": kind, "old": old.strip(), "new": new.strip(), "result": res, "by": by, "codes": codes, "s": round(time.time() - t)}) + "\n")
def main():
    a = sys.argv[1:]; o = {"--n": "400", "--workers": "2", "--only": "", "--seed": "1"}
    pos = []
    while a:
        if a[0] in o: o[a[0]] = a[1]; a = a[2:]
        else: pos.append(a[0]); a = a[1:]
    ms = allm(o["--only"])
    if pos[0] == "list":
        c = {}
        for x in ms: c[x[0]] = c.get(x[0], 0) + 1
        for f in sorted(c): print(c[f], f)
        print(len(ms)); return
    done = set()
    if os.path.exists(pos[1]):
        for l in open(pos[1]): j = json.loads(l); done.add(j["at"] + ":" + j["new"])
    random.Random(int(o["--seed"])).shuffle(ms)
    ms = [x for x in ms if key(x) not in done][:int(o["--n"])]
    os.makedirs(B, exist_ok=True)
    q = queue.Queue()
    for x in ms: q.put(x)
    lock = threading.Lock(); K = int(o["--workers"])
    th = [threading.Thread(target=worker, args=(k, q, lock, pos[1], max(2, 8 // K + 1))) for k in range(K)]
    for t in th: t.start()
    for t in th: t.join()
main()

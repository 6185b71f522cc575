#!/usr/bin/env python3
"""Mutation testing of the checks (development tool, not used by any check).

mutants.py OUT.jsonl SECONDS [FILE...]   (files relative to /repo)

Makes small changes (see mutate/main.go) to a copy of the library, keeps those
which compile and pass the existing tests, and runs one shard of the checks
which are anchored in the file."""
import json, os, random, re, shutil, subprocess, sys, threading, time

OUT, SECS, FILES = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
W = "/tmp/mut"
NW = int(os.environ.get("NW", "7"))
SHARDS = [int(x) for x in os.environ.get("SHARDS", "0").split(",")]
ENV = dict(os.environ, GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOMAXPROCS="2", GOFLAGS="-p=2")
SLOW = ["C16", "C02"]
props = {}
for l in open("/verif/properties.jsonl"):
    d = json.loads(l)
    for f in d["anchors"]["files"]:
        props.setdefault(f, []).append(d["id"])
ORDER = ["C17", "C09", "C11", "C12", "C14", "C04", "C13", "C05", "C03", "C01", "C20", "C15", "C10", "C18", "C08", "C06", "C19", "C07"]
EXTRA = {"opentype/gtab/builder/explain.go": ["C19"], "cff/convert.go": ["C20"], "opentype/gtab/gpos5.go": ["C08"], "maxp/maxp.go": ["C01"], "post/names.go": ["C14"], "parser/parser.go": ["C08"], "font.go": ["C20", "C15"]}
os.makedirs(W, exist_ok=True)
BASE = W + "/base%d" % os.getpid()
shutil.copytree("/repo", BASE, ignore=shutil.ignore_patterns(".git"))
subprocess.run(["go", "build", "-o", W + "/mutate", "."], cwd="/verif/tools/mutate", env=ENV, check=True)

if not FILES:
    FILES = sorted(set(props))
pool = []
for f in FILES:
    r = subprocess.run([W + "/mutate", BASE + "/" + f], stdout=subprocess.PIPE, text=True)
    lines = r.stdout.strip().split("\n")
    random.shuffle(lines)
    per = int(os.environ.get("PER", "1000"))
    for i, l in enumerate(lines[:per]):
        k, line, desc = l.split("\t", 2)
        pool.append((i / max(1, len(lines[:per])) + random.random() * 0.01, f, int(k), int(line), desc))
pool.sort()
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l)
        done.add((d["file"], d["line"], d["desc"]))
if os.environ.get("ONLY"):  # e.g. cff/charset.go:67,cmap/cmap.go:3
    only = {(x.split(":")[0], int(x.split(":")[1])) for x in os.environ["ONLY"].split(",")}
    pool = [p for p in pool if (p[1], p[2]) in only]
pool = [p for p in pool if (p[1], p[3], p[4]) not in done]
lock = threading.Lock()
deadline = time.time() + SECS


def run(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -1, "timeout"


def worker(i):
    d = "%s/w%d-%d" % (W, os.getpid(), i)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(BASE, d + "/repo")
    shutil.copytree("/verif/h", d + "/h")
    gm = open(d + "/h/go.mod").read().replace("=> /repo", "=> ../repo")
    open(d + "/h/go.mod", "w").write(gm)
    while time.time() < deadline:
        with lock:
            if not pool:
                return
            _, f, k, line, desc = pool.pop(0)
        r = subprocess.run([W + "/mutate", BASE + "/" + f, str(k)], stdout=subprocess.PIPE, text=True)
        path = d + "/repo/" + f
        open(path, "w").write(r.stdout)
        status = one(d, f)
        shutil.copy(BASE + "/" + f, path)
        with lock:
            open(OUT, "a").write(json.dumps({"file": f, "line": line, "desc": desc, "k": k, "status": status}) + "\n")


def one(d, f):
    rc, _ = run(["go", "build", "./..."], d + "/repo", 300)
    if rc != 0:
        return "nobuild"
    pkg = "./" + os.path.dirname(f)
    rc, _ = run(["go", "test", "-vet=off", pkg], d + "/repo", 120)
    if rc != 0:
        return "tests"
    rc, _ = run(["go", "test", "-vet=off", "./..."], d + "/repo", 300)
    if rc != 0:
        return "tests"
    checks = [c for c in ORDER if c in props.get(f, []) or c in EXTRA.get(f, [])]
    if os.environ.get("CHECKS"):
        checks = os.environ["CHECKS"].split(",")
    for c in checks + ([s for s in ["C02"] if s in props.get(f, [])] if os.environ.get("WITH_C02") else []):
        out = d + "/check.test"
        rc, o = run(["go", "test", "-c", "-vet=off", "-o", out, "./" + c.lower()], d + "/h", 300)
        if rc != 0:
            return "harness build: " + o[-300:]
        for s in SHARDS:
            e = dict(ENV, VERIF_SEED="1", VERIF_TIER="quick", VERIF_SHARD=str(s), VERIF_SHARDS="8", VERIF_DIR="/verif", VERIF_OUT=d + "/out", VERIF_SHRINK="0s", GOMEMLIMIT="2GiB")
            shutil.rmtree(d + "/out", ignore_errors=True)
            os.makedirs(d + "/out")
            rc, o = run([out, "-test.failfast", "-test.timeout=0", "-test.v", "-rapid.nofailfile"], d + "/out", 200, e)
            if rc != 0:
                m = re.findall(r"--- FAIL: (\w+)", o)
                return "killed " + c + " " + (m[0] if m else "rc%d" % rc)
    return "SURVIVED"


ts = [threading.Thread(target=worker, args=(i,)) for i in range(NW)]
for t in ts:
    t.start()
for t in ts:
    t.join()
shutil.rmtree(BASE)
for i in range(NW):
    shutil.rmtree("%s/w%d-%d" % (W, os.getpid(), i), ignore_errors=True)

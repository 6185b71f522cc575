#!/usr/bin/env python3
"""Driver for the property checks.

  run.py check C01            run one check (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py replay FILE          re-run a recorded counterexample
  run.py setup                build all test binaries once (fills the build cache)

Exit status of "check": 0 = property held on everything explored,
1 = violation (with a VIOLATION line), 2 = the check itself failed.
"""
import array, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(VERIF, "h")
GOROOT = "/opt/veriftools/go1.27.3"

sys.path.insert(0, VERIF)
CONF = json.load(open(os.path.join(VERIF, "checks.json")))


def env():
    e = dict(os.environ)
    e.update({
        "HOME": e.get("HOME") or "/root", "GOROOT": GOROOT, "GOPATH": "/root/go",
        "GOMODCACHE": "/root/go/pkg/mod", "GOENV": "off", "GOTOOLCHAIN": "local",
        "GOSUMDB": "off", "GOPROXY": "off", "GOWORK": "off", "CGO_ENABLED": "1",
        "GOFLAGS": "-mod=readonly",
    })
    e["PATH"] = GOROOT + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    if "GOCACHE" not in e:
        e["GOCACHE"] = "/root/.cache/go-build"
    for k in list(e):
        if k.startswith("RAPID_"):
            del e[k]
    return e


def build(pid, out, fuzz=None):
    c = CONF[pid]
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if fuzz:
        cmd.append("-fuzz=" + fuzz)
    if c.get("race"):
        cmd.append("-race")
    cmd.append("./" + pid.lower())
    r = subprocess.run(cmd, cwd=H, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        print(r.stdout)
        print("ERROR: cannot build the check for", pid)
        sys.exit(2)


def limiter(c):
    def limit():
        os.setsid()
        if c.get("memlimit_gb"):
            # running out of memory is a result of this check (never
            # combined with the race detector)
            m = int(c["memlimit_gb"] * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (m, m))
    return limit


def run_shards(pid, binary, work, tier, seed, shards, extra=None, only=None):
    procs = []
    c = CONF[pid]
    for i in range(shards):
        if only is not None and i not in only:
            continue
        d = os.path.join(work, "s%d" % i)
        os.makedirs(d, exist_ok=True)
        e = env()
        e.update({"VERIF_SEED": str(seed), "VERIF_TIER": tier, "VERIF_SHARD": str(i),
                  "VERIF_SHARDS": str(shards), "VERIF_OUT": work, "VERIF_DIR": VERIF,
                  "VERIF_SHRINK": "15s"})
        e.setdefault("GOMAXPROCS", str(c.get("gomaxprocs", 2)))
        e["GOMEMLIMIT"] = str(c.get("gomemlimit", "3GiB"))
        e["GOTRACEBACK"] = "all"
        if c.get("race"):
            e["GORACE"] = "halt_on_error=0 exitcode=66"
        cmd = [binary, "-test.timeout=0", "-test.failfast", "-test.v"]
        if extra:
            cmd += extra
        out = open(os.path.join(d, "out.txt"), "wb")
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=out, stderr=subprocess.STDOUT, preexec_fn=limiter(c))
        procs.append((i, p, out, d))
    deadline = time.time() + (820 if tier == "quick" else 6 * 3600)
    res = []
    timed_out = False
    for i, p, out, d in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
            rc = None
        if rc is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        out.close()
        res.append((i, rc, d))
    return res, timed_out


FAIL_RE = re.compile(r"^\s*--- FAIL: (\S+)", re.M)


def classify(rc, text, c):
    """-> None (ok), ("violation", test), ("crash", test) or ("error", why)"""
    if rc == 0:
        return None
    running = re.findall(r"^=== RUN\s+(\S+)", text, re.M)
    cur = running[-1] if running else "?"
    if rc == 77:
        return ("crash", cur)
    if rc == 66 or "WARNING: DATA RACE" in text:
        return ("race", cur)
    if c.get("memlimit_gb") and rc == 2 and ("out of memory" in text or "cannot allocate memory" in text):
        return ("crash", cur)
    if rc in (-9, 137) or "out of memory" in text or "cannot allocate memory" in text or "HARNESS-ERROR" in text:
        return ("error", "exit %s" % rc)
    m = FAIL_RE.findall(text)
    if rc == 1 and m:
        # the most deeply nested failing test is named first or last; keep all
        return ("violation", m[-1] if "/" in m[-1] else m[0])
    if rc == 2 and ("panic:" in text or "fatal error:" in text):
        return ("crash", cur)
    return ("error", "exit %s" % rc)


def run_fuzz(pid, work, seed):
    """coverage-guided fuzzing (thorough tier only)
    -> (summary per target, list of replay records, errors)"""
    c = CONF[pid]
    fz = c["fuzz"]
    binary = os.path.join(work, pid + ".fuzz")
    build(pid, binary, fz["func"])
    summary, recs, errors = {}, [], []
    for target in fz["targets"]:
        d = os.path.join(work, "fuzz-" + re.sub(r"\W", "_", target))
        os.makedirs(d)
        e = env()
        e.update({"VERIF_SEED": str(seed), "VERIF_TIER": "thorough", "VERIF_DIR": VERIF, fz["env"]: target})
        e["GOMEMLIMIT"] = "3GiB"
        secs = int(os.environ.get("VERIF_FUZZTIME", fz.get("seconds", 60)))
        cmd = [binary, "-test.run=^$", "-test.fuzz=^%s$" % fz["func"], "-test.fuzztime=%ds" % secs,
               "-test.fuzzminimizetime=20x", "-test.fuzzcachedir=" + os.path.join(d, "cache"),
               "-test.parallel=8", "-test.timeout=0"]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=secs + 600, preexec_fn=limiter(c))
        except subprocess.TimeoutExpired:
            errors.append("fuzzing %s: no answer" % target)
            continue
        text = r.stdout
        m = re.findall(r"execs: (\d+) .*new interesting: (\d+) \(total: (\d+)\)", text)
        summary[target] = {"executions": int(m[-1][0]), "new_coverage_inputs": int(m[-1][1]), "corpus": int(m[-1][2])} if m else {}
        ff = sorted(glob.glob(os.path.join(d, "testdata/fuzz/*/*")))
        if r.returncode == 1 and ff:
            recs.append({"property": pid, "kind": "fuzz", "test": fz["replay"], "tier": "thorough", "seed": seed,
                         "shard": 0, "shards": 1, "failfile": None, "env": {fz["env"]: target},
                         "input": open(ff[0], errors="replace").read(), "output": text[-20000:]})
        elif r.returncode != 0:
            errors.append("fuzzing %s: exit %s\n%s" % (target, r.returncode, text[-3000:]))
    return summary, recs, errors


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = CONF[pid]
    shards = c.get("shards", 8)
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    code = 2
    try:
        code = check2(pid, c, tier, seed, shards, work, t0)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work directory:", work)
    return code


def check2(pid, c, tier, seed, shards, work, t0):
    binary = os.path.join(work, pid + ".test")
    build(pid, binary)
    res, timed_out = run_shards(pid, binary, work, tier, seed, shards)
    violations, errors = [], []
    rdir = os.path.join(VERIF, "replay", pid)
    for i, rc, d in res:
        text = open(os.path.join(d, "out.txt"), errors="replace").read()
        text = "\n".join(l if len(l) <= 1500 else l[:1200] + " ... " + l[-200:] for l in text.split("\n"))
        if rc is None:
            errors.append("shard %d: time budget exhausted" % i)
            continue
        cl = classify(rc, text, c)
        if cl is None:
            continue
        kind, what = cl
        if kind == "error":
            errors.append("shard %d: %s\n%s" % (i, what, text[-3000:]))
            continue
        rec = {"property": pid, "kind": kind, "test": what, "tier": tier, "seed": seed,
               "shard": i, "shards": shards, "failfile": None}
        if kind == "crash" and not c.get("race"):
            # confirm: the case is a pure function of the seed
            w2 = os.path.join(work, "confirm%d" % i)
            os.makedirs(w2)
            top = what.split("/")[0]
            res2, _ = run_shards(pid, binary, w2, tier, seed, shards,
                                 extra=["-test.run=^" + re.escape(top) + "$"], only={i})
            _, rc2, d2 = res2[0]
            text2 = open(os.path.join(d2, "out.txt"), errors="replace").read()
            cl2 = classify(rc2, text2, c) if rc2 is not None else ("error", "timeout")
            if cl2 is None or cl2[0] == "error":
                errors.append("shard %d: unconfirmed crash in %s\n%s" % (i, what, text[-3000:]))
                continue
        ff = sorted(glob.glob(os.path.join(d, "testdata/rapid/*/*.fail")))
        if ff:
            rec["failfile"] = open(ff[0], errors="replace").read()
        rec["output"] = text[-20000:] if len(text) < 20000 else text[:4000] + "\n...\n" + text[-16000:]
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-seed%d-shard%d.json" % (re.sub(r"\W+", "_", what), kind, seed, i))
        json.dump(rec, open(path, "w"), indent=1)
        violations.append((path, what, text))
    fuzz_summary = None
    if tier == "thorough" and c.get("fuzz") and not violations:
        fuzz_summary, recs, errs = run_fuzz(pid, work, seed)
        errors += errs
        for rec in recs:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s-seed%d.json" % (rec["test"], "-".join(re.sub(r"\W+", "_", v) for v in rec["env"].values()), seed))
            json.dump(rec, open(path, "w"), indent=1)
            violations.append((path, rec["test"] + " " + path, rec["output"]))
    # evidence
    tests, notes, hashes = {}, [], set()
    for f in sorted(glob.glob(os.path.join(work, "stats-*.json"))):
        js = json.load(open(f))
        notes += js.get("notes") or []
        for name, st in js["tests"].items():
            a = tests.setdefault(name, {"evaluations": 0, "nontrivial": 0, "classes": {}, "samples": []})
            a["evaluations"] += st["evaluations"]
            a["nontrivial"] += st["nontrivial"]
            for k, v in (st["classes"] or {}).items():
                a["classes"][k] = a["classes"].get(k, 0) + v
            for s in st["samples"] or []:
                if len(a["samples"]) < 3:
                    a["samples"].append(s)
    for f in glob.glob(os.path.join(work, "hashes-*.bin")):
        a = array.array("Q")
        a.frombytes(open(f, "rb").read())
        hashes.update(a)
    samples = []
    for name in sorted(tests):
        for s in tests[name]["samples"][:2]:
            samples.append(name + ": " + s)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(t["evaluations"] for t in tests.values()),
            "distinct_nontrivial": len(hashes),
            "rule": c["rule"],
            "samples": samples[:40],
            "per_test": {n: {"evaluations": t["evaluations"], "nontrivial": t["nontrivial"],
                             "classes": dict(sorted(t["classes"].items()))}
                         for n, t in sorted(tests.items())},
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if fuzz_summary is not None:
        ev["coverage"]["coverage_guided_fuzzing"] = fuzz_summary
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for n in sorted(set(notes)):
        print(n)
    if violations:
        for path, what, text in violations[:1]:
            i = text.find("--- FAIL")
            j = text.find("[rapid] ", max(0, i))
            print(text[-6000:] if len(text) > 6000 else text)
        seen = set()
        for path, what, text in violations:
            if what in seen:
                continue
            seen.add(what)
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e)
        return 2
    print("%s %s seed=%d: ok, %d cases, %d distinct non-trivial, %.1fs" % (
        pid, tier, seed, ev["coverage"]["evaluations"], len(hashes), time.time() - t0))
    return 0


def replay(path):
    rec = json.load(open(path))
    pid = rec["property"]
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        binary = os.path.join(work, pid + ".test")
        build(pid, binary)
        extra = ["-test.run=^" + "$/^".join(re.escape(x) for x in rec["test"].split("/")) + "$"]
        if rec.get("input"):
            ff = os.path.join(work, "input")
            open(ff, "w").write(rec["input"])
            os.environ["VERIF_FUZZ_INPUT"] = ff
            os.environ.update(rec["env"])
        if rec.get("failfile"):
            ff = os.path.join(work, "case.fail")
            open(ff, "w").write(rec["failfile"])
            extra.append("-rapid.failfile=" + ff)
            os.environ["VERIF_REPLAY"] = ff
            os.environ["VERIF_SCALE"] = "0"
        res, _ = run_shards(pid, binary, work, rec["tier"], rec["seed"], rec["shards"], extra=extra, only={rec["shard"]})
        _, rc, d = res[0]
        text = open(os.path.join(d, "out.txt"), errors="replace").read()
        print(text[-20000:])
        cl = classify(rc, text, CONF[pid])
        if cl is None:
            print("replay: the property holds on this case")
            return 0
        if cl[0] == "error":
            return 2
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    ok = True
    for pid in sorted(CONF):
        work = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build(pid, os.path.join(work, "x.test"))
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return 0 if ok else 2


if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        sys.exit(check(sys.argv[2]))
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        sys.exit(setup())
    print(__doc__)
    sys.exit(2)

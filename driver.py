#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

usage: driver.py ID            run (VERIF_SEED, VERIF_TIER from the environment)
       driver.py ID --replay F re-run one saved case
exit: 0 held on everything explored, 1 VIOLATION printed, 2 the check itself failed
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
CFG = json.load(open(os.path.join(HERE, "checks.json")))


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
    for k in list(e):
        if k.startswith("VH_") or k in ("GODEBUG", "GOMAXPROCS", "GOGC"):
            del e[k]
    return e


def die(msg, code=2):
    print(msg, flush=True)
    sys.exit(code)


def build(pkg, race, out):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./" + pkg)
    r = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        die("BUILD FAILED\n" + r.stdout[-6000:])


def setup():
    tmp = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        for pkg, race in sorted({(c["pkg"], c.get("race", False)) for c in CFG["checks"].values()}):
            build(pkg, race, os.path.join(tmp, "check.test"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


def main():
    if sys.argv[1:] == ["--setup"]:
        return setup()
    if len(sys.argv) < 2 or sys.argv[1] not in CFG["checks"]:
        die("usage: driver.py ID [--replay FILE]; ids: " + " ".join(CFG["checks"]))
    pid = sys.argv[1]
    c = CFG["checks"][pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t = dict(c["quick"])
    if tier == "thorough":
        t.update(c.get("thorough", {}))
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return run(pid, c, t, tier, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known_for(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == pid and k["status"] == "open"]


def run(pid, c, t, tier, seed, tmp):
    start = time.time()
    binary = os.path.join(tmp, "check.test")
    build(c["pkg"], c.get("race", False), binary)
    built = time.time() - start
    known = known_for(pid)
    env = goenv()
    env.update(VH_ID=pid, VH_SEED=str((seed * 2654435761 + 12345) % (1 << 62)), VERIF_TIER=tier,
               VH_PER_BATCH=str(t["per_batch"]), VH_BUDGET_MS=str(t["budget_s"] * 1000),
               VH_SHRINK_MS=str(t.get("shrink_s", 20) * 1000), VH_HANG_MS=str(t.get("hang_s", 60) * 1000),
               VH_KNOWN=",".join(k["key"] for k in known),
               GOMAXPROCS=str(c.get("gomaxprocs", 1)), GOTRACEBACK="all",
               GOMEMLIMIT=c.get("memlimit", "2500MiB"))
    if c.get("godebug"):
        env["GODEBUG"] = c["godebug"]
    env["VH_REPLAY_RUNS"] = str(c.get("replay_runs", 1))
    if c.get("race"):
        env["GORACE"] = c.get("gorace", "")
    base = [binary, "-test.run", "^Test%s$" % pid, "-test.timeout", "0"]

    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        f = os.path.abspath(sys.argv[3])
        r = subprocess.run(base, env=dict(env, VH_REPLAY=f, VH_OUT=os.path.join(tmp, "o")), cwd=tmp)
        if r.returncode == 0:
            print("replay: property=%s holds on %s" % (pid, f))
            return 0
        print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1

    deadline = start + built + t["budget_s"]
    chunk = t.get("chunk", t["batches"])
    work = []
    b = 0
    while b < t["batches"]:
        work.append((b, min(chunk, t["batches"] - b)))
        b += chunk
    stopping = threading.Event()
    results, crashes, errors = [], [], []
    lock = threading.Lock()

    def shard(item):
        first, n = item
        if stopping.is_set() or time.time() > deadline:
            return
        out = os.path.join(tmp, "r%d.json" % first)
        cur = os.path.join(tmp, "c%d.json" % first)
        e = dict(env, VH_OUT=out, VH_CUR=cur, VH_FIRST=str(first), VH_BATCHES=str(n),
                 VH_BUDGET_MS=str(int(max(1, deadline - time.time()) * 1000)))
        corpus = os.path.join(HERE, "corpus", pid)
        if first == 0 and os.path.isdir(corpus):
            e["VH_CORPUS"] = corpus
        log = os.path.join(tmp, "l%d.txt" % first)
        with open(log, "wb") as lf:
            p = subprocess.Popen(base, env=e, cwd=tmp, stdout=lf, stderr=subprocess.STDOUT)
            while True:
                try:
                    p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    if stopping.is_set() or time.time() > deadline + t.get("grace_s", 240):
                        p.kill()
                        p.wait()
                        with lock:
                            if os.path.exists(out):
                                results.append(json.load(open(out)))
                            if not stopping.is_set():
                                errors.append("shard %d overran its time" % first)
                        return
        with open(log, "rb") as lf:
            data = lf.read()
        text = (data[:12000] + b"\n...\n" + data[-12000:] if len(data) > 24000 else data).decode("utf8", "replace")
        if len(data) > 24000:
            m = re.search(rb"^(panic: |fatal error: |HANG: |WARNING: DATA RACE).*", data, re.M)
            if m:
                text = data[m.start():m.start() + 6000].decode("utf8", "replace") + "\n" + text
        if not c.get("keep_logs"):
            os.unlink(log)
        with lock:
            if os.path.exists(out):
                r = json.load(open(out))
                results.append(r)
                if r.get("failure"):
                    stopping.set()
            if p.returncode != 0:
                if p.returncode == -9:
                    errors.append("shard %d was killed" % first)
                elif p.returncode == 2 and "HARNESS-ERROR" in text:
                    errors.append(text[-3000:])
                else:
                    crashes.append((p.returncode, cur, text))
                    stopping.set()
            elif not os.path.exists(out):
                errors.append("shard %d left no result: %s" % (first, text[-2000:]))

    with concurrent.futures.ThreadPoolExecutor(t.get("procs", 8)) as ex:
        list(ex.map(shard, work))

    failure = None
    fails = [r["failure"] for r in results if r.get("failure")]
    if fails:
        failure = min(fails, key=lambda f: len(json.dumps(f["case"])))
    elif crashes:
        failure = from_crash(pid, c, t, env, base, tmp, crashes[0], errors)

    tags, hashes, samples, knownhits = {}, set(), [], {}
    evals = 0
    for r in results:
        evals += r["evaluations"]
        hashes.update(r.get("hashes") or [])
        for k, v in (r.get("tags") or {}).items():
            tags[k] = tags.get(k, 0) + v
        for k, v in (r.get("known") or {}).items():
            knownhits[k] = knownhits.get(k, 0) + v
        for s in r.get("samples") or []:
            if len(samples) < 3:
                samples.append(s)
    wall = time.time() - start
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": c["rule"],
            "samples": samples, "classes": dict(sorted(tags.items())),
            "batches_planned": t["batches"], "batches_run": sum(r["batches"] for r in results),
            "known_finding_hits": knownhits,
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(wall, 2), "build_s": round(built, 2), "violations": 1 if failure else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    print("%s: %d cases, %d distinct non-trivial, %.1fs (build %.1fs) classes=%s" % (
        pid, evals, len(hashes), wall, built, json.dumps(ev["coverage"]["classes"])))
    if failure:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%d-%s.json" % (pid, seed, tier))
        with open(path, "w") as f:
            json.dump(failure, f, indent=1)
        print("failing case (shrunk): %s" % failure["error"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if errors:
        die("CHECK ERROR: " + "\n".join(errors)[:4000])
    for k in known:
        if knownhits.get(k["key"]):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if evals == 0 or len(hashes) < 2:
        die("CHECK ERROR: nothing explored")
    return 0


def from_crash(pid, c, t, env, base, tmp, crash, errors):
    rc, cur, text = crash
    batch, case = None, None
    try:
        raw = open(cur).read()
        d = json.loads(raw)
        batch, case = d.get("batch"), d.get("case")
    except Exception:
        m = re.match(r'\{"batch":(-?\d+)', raw if 'raw' in dir() else "")
        batch = int(m.group(1)) if m else None
    m = re.search(r"^(panic: .*|fatal error: .*|HANG: .*|WARNING: DATA RACE)", text, re.M)
    head = m.group(1) if m else "exit status %s" % rc
    err = "the process died: " + head + "\n" + (text[m.start():m.start() + 4000] if m else text[-3000:])
    if batch is not None and batch >= 0 and not c.get("race") and not head.startswith("HANG"):
        out = os.path.join(tmp, "iso.json")
        e = dict(env, VH_OUT=out, VH_CUR=os.path.join(tmp, "isocur.json"), VH_FIRST=str(batch), VH_BATCHES="1",
                 VH_ISOLATE="1", VH_BUDGET_MS="60000", VH_SHRINK_MS="25000")
        try:
            subprocess.run(base, env=e, cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
        except subprocess.TimeoutExpired:
            pass
        if os.path.exists(out):
            r = json.load(open(out))
            if r.get("failure"):
                return r["failure"]
    if case is not None:
        f = os.path.join(tmp, "crash.json")
        json.dump({"case": case}, open(f, "w"))
        for _ in range(3):
            try:
                r = subprocess.run(base, env=dict(env, VH_REPLAY=f, VH_OUT=os.path.join(tmp, "o")), cwd=tmp,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
                if r.returncode != 0:
                    return {"case": case, "error": err}
            except subprocess.TimeoutExpired:
                return {"case": case, "error": err}
        if "cardinal-streams" in text and head.split(":")[0] in ("panic", "fatal error", "WARNING"):
            return {"case": case, "error": err}
    errors.append("a shard died and the death did not reproduce: " + err)
    return None


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Runs the check of one property.

  run.py PROPERTY [quick|thorough]     exit 0 held, 1 VIOLATION, anything else: error
  run.py replay FILE                   re-runs a saved failure
  run.py setup                         compiles everything once

The property's tests are built from /repo's current working tree (harness
packages import it through a replace directive; tests of main packages go in
through an overlay) and run as separate processes (shards) in a scratch
directory that is removed afterwards.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPO = "/repo"
MOD = "github.com/companyzero/zkc/"

ERR = 2


def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off", GOENV="off",
             GOTOOLCHAIN="local", GOSUMDB="off", HOME=e.get("HOME", "/root"))
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.pop("GODEBUG", None)
    return e


def die(msg):
    print("ERROR: " + msg)
    sys.exit(ERR)


def load_props():
    with open(os.path.join(HARNESS, "props.json")) as f:
        return json.load(f)


def build(scratch, spec, binaries):
    """Compiles the test binary of one spec; returns its path."""
    pkg = spec["pkg"]
    race = spec.get("race", False)
    name = re.sub(r"[^A-Za-z0-9]", "_", pkg) + ("_race" if race else "") + ".test"
    out = os.path.join(scratch, name)
    if name in binaries:
        return out
    cmd = ["go", "test", "-c", "-o", out, "-vet=off"]
    if race:
        cmd.append("-race")
    if spec.get("overlay"):
        rel = pkg[len(MOD):]
        rep = {}
        for f in sorted(glob.glob(os.path.join(HARNESS, "overlay", spec["overlay"], "*.go"))):
            rep[os.path.join(REPO, rel, os.path.basename(f))] = f
        ov = os.path.join(scratch, name + ".overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": rep}, f)
        cmd += ["-overlay", ov]
    cmd.append(pkg)
    r = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        print(r.stdout[-6000:])
        die("build of %s failed" % pkg)
    binaries.add(name)
    return out


def build_bins(scratch, prop):
    env = {}
    for b in prop.get("bins", []):
        race = b.endswith("+race")
        n = b[:-5] if race else b
        out = os.path.join(scratch, "bin_" + n.replace("/", "_") + ("_race" if race else ""))
        env["HZ_BIN_" + n.replace("/", "_").upper()] = out
        if os.path.exists(out):
            continue
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + [MOD + n]
        r = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            die("build of %s failed" % n)
    return env


def known_keys(pid):
    keys = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) ", line)
            if m and m.group(1) == pid:
                keys.append(m.group(2))
    return " ".join(keys)


def digest(log, n):
    """The log without the list of draws (the fail file has them)."""
    lines = [l for l in log.split("\n") if "[rapid] draw " not in l and not l.startswith("log error: ")]
    log = "\n".join(lines)
    return log if len(log) <= n else log[:n // 2] + "\n[...]\n" + log[-n // 2:]


def limit_mem():
    os.setsid()


def run_one(job):
    """Runs one shard. Returns dict(kind=pass|violation|error, ...)."""
    binary, spec, env, wd, timeout = job
    os.makedirs(wd, exist_ok=True)
    e = goenv()
    e.update(env)
    e["HZ_SCRATCH"] = wd
    e["HZ_OUT"] = os.path.join(wd, "stats.json")
    e["HOME"] = wd
    e["GOTRACEBACK"] = "all"
    if spec.get("maxprocs"):
        e["GOMAXPROCS"] = str(spec["maxprocs"])
    cmd = [binary, "-test.run", spec["run"], "-test.v", "-test.timeout", "%ds" % (timeout + 60)]
    cmd += env.get("HZ_EXTRA", "").split()
    t0 = time.time()
    logp = os.path.join(wd, "log.txt")
    with open(logp, "wb") as lf:
        p = subprocess.Popen(cmd, cwd=wd, env=e, stdout=lf, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, preexec_fn=limit_mem)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    with open(logp, "rb") as f:
        log = f.read().decode("utf-8", "replace")
    stats = None
    try:
        with open(e["HZ_OUT"]) as f:
            stats = json.load(f)
    except (OSError, ValueError):
        pass
    fails = sorted(glob.glob(os.path.join(wd, "testdata", "rapid", "*", "*.fail")))
    res = dict(rc=rc, log=log, stats=stats, wall=time.time() - t0, fail=None, spec=spec,
               shard=env.get("HZ_SHARD", "0"))
    if fails:
        with open(fails[0]) as f:
            res["fail"] = f.read()
    if rc == 0:
        res["kind"] = "pass" if "\nPASS" in "\n" + log and stats is not None else "error"
        if re.search(r"testing: warning: no tests to run", log):
            res["kind"] = "error"
    elif rc is None:
        res["kind"] = "error"
        res["why"] = "time limit"
    elif rc == 3 or "HZ-INFRA:" in log:
        res["kind"] = "error"
        res["why"] = "harness"
    elif "panic: test timed out" in log:
        res["kind"] = "error"
        res["why"] = "time limit"
    elif "[rapid] only generated" in log and "[rapid] failed" not in log \
            and "[rapid] panic" not in log and "[rapid] flaky" not in log:
        res["kind"] = "error"
        res["why"] = "generator"
    elif "WARNING: DATA RACE" in log:
        res["kind"] = "violation" if race_in_repo(log) else "error"
    elif rc == 1 and "--- FAIL" in log:
        res["kind"] = "violation"
    elif rc == 2 and ("panic:" in log or "fatal error:" in log) and crash_in_repo(log):
        res["kind"] = "violation"
    else:
        res["kind"] = "error"
        res["why"] = "unexpected exit %s" % rc
    return res


def race_in_repo(log):
    i = log.index("WARNING: DATA RACE")
    return REPO + "/" in log[i:i + 6000].replace("_verif_test.go", "")


def crash_in_repo(log):
    m = re.search(r"^(panic:|fatal error:)", log, re.M)
    if not m:
        return False
    if re.match(r"fatal error: (runtime: )?(out of memory|cannot allocate)", log[m.start():]):
        return False
    # the stack of the goroutine that failed
    rest = log[m.start():]
    parts = rest.split("\n\n")
    head = "\n\n".join(parts[:2])
    for line in head.splitlines():
        if line.strip().startswith(REPO + "/") and "verif_test.go" not in line:
            return True
    return False


def main():
    if len(sys.argv) < 2:
        die("usage")
    props = load_props()
    if sys.argv[1] == "setup":
        return setup(props)
    if sys.argv[1] == "replay":
        return replay(props, sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if pid not in props:
        die("no such property " + pid)
    seed = os.environ.get("VERIF_SEED", "1")
    if not re.fullmatch(r"\d+", seed):
        seed = str(int(hashlib.sha256(seed.encode()).hexdigest()[:12], 16))
    seed = str(int(seed) % (1 << 62))
    prop = props[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="zkcverif.")
    try:
        rc = check(pid, tier, seed, prop, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def jobs_for(pid, tier, seed, prop, scratch):
    binaries = set()
    binenv = build_bins(scratch, prop)
    jobs = []
    k = 0
    for spec in prop["tests"]:
        b = build(scratch, spec, binaries)
        specbins = build_bins(scratch, spec)
        cfg = dict(prop.get(tier, {}))
        cfg.update(spec.get(tier, {}))
        for s in range(cfg.get("shards", 1)):
            env = {"VERIF_SEED": seed, "VERIF_TIER": tier, "HZ_SHARD": str(s),
                   "HZ_SCALE": str(cfg.get("scale", 1)), "HZ_PROP": pid,
                   "HZ_KNOWN": known_keys(pid)}
            env.update(binenv)
            env.update(specbins)
            env.update(spec.get("env", {}))
            jobs.append((b, spec, env, os.path.join(scratch, "w%d" % k),
                         cfg.get("timeout", 600 if tier == "quick" else 3000)))
            k += 1
    return jobs


def check(pid, tier, seed, prop, scratch, t0):
    jobs = jobs_for(pid, tier, seed, prop, scratch)
    with cf.ThreadPoolExecutor(max_workers=prop.get("parallel", 8)) as ex:
        results = list(ex.map(run_one, jobs))
    ev = sum(r["stats"]["evaluations"] for r in results if r["stats"])
    nt = sum(r["stats"]["nontrivial"] for r in results if r["stats"])
    distinct = set()
    classes = {}
    samples = []
    known = []
    for r in results:
        if not r["stats"]:
            continue
        distinct.update(r["stats"]["distinct"] or [])
        for c, n in (r["stats"]["classes"] or {}).items():
            classes[c] = classes.get(c, 0) + n
        samples += (r["stats"]["samples"] or [])[:4]
        known += r["stats"]["known"] or []
    viol = [r for r in results if r["kind"] == "violation"]
    errs = [r for r in results if r["kind"] == "error"]
    evidence = {
        "property": pid, "tier": tier, "seed": int(seed), "level": prop.get("level", "exploration"),
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(distinct),
            "nontrivial_evaluations": nt,
            "rule": prop["rule"], "samples": samples[:16],
            "classes": dict(sorted(classes.items())),
            "processes": len(jobs),
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if viol:
        r = viol[0]
        path = save_replay(pid, tier, seed, r)
        print(digest(r["log"], 8000))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errs:
        for r in errs[:2]:
            print("--- rc=%s why=%s run=%s shard=%s wall=%.1f" % (
                r["rc"], r.get("why"), r["spec"]["run"], r["shard"], r["wall"]))
            print(digest(r["log"], 6000))
        print("ERROR: the check of %s did not complete" % pid)
        return ERR
    print("%s held: %d cases, %d distinct non-trivial, %.1fs" % (
        pid, ev, len(distinct), time.time() - t0))
    for c, n in sorted(classes.items()):
        print("  %-40s %d" % (c, n))
    if ev == 0 or len(distinct) == 0:
        print("ERROR: nothing was explored")
        return ERR
    return 0


def save_replay(pid, tier, seed, r):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = {
        "property": pid, "tier": tier, "seed": seed, "shard": r["shard"],
        "spec": r["spec"], "rapid_failfile": r["fail"], "log": digest(r["log"], 40000),
        "failing_test": (re.findall(r"--- FAIL: (\S+)", r["log"]) or [None])[0],
        "how": "python3 /verif/run.py replay <this file>",
    }
    h = hashlib.sha256(json.dumps(body).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(p, "w") as f:
        json.dump(body, f, indent=1)
    return p


def replay(props, path):
    with open(path) as f:
        body = json.load(f)
    pid = body["property"]
    prop = props[pid]
    scratch = tempfile.mkdtemp(prefix="zkcverif.")
    try:
        spec = dict(body["spec"])
        if body["failing_test"]:
            spec["run"] = "^" + body["failing_test"].split("/")[0] + "$"
        p = dict(prop)
        p["tests"] = [spec]
        jobs = jobs_for(pid, body["tier"], body["seed"], p, scratch)
        job = [j for j in jobs if j[2]["HZ_SHARD"] == body["shard"]][0]
        if body["rapid_failfile"]:
            ff = os.path.join(scratch, "replay.fail")
            with open(ff, "w") as f:
                f.write(body["rapid_failfile"])
            job[2]["HZ_EXTRA"] = "-rapid.failfile=" + ff
            job[2]["HZ_REPLAY"] = "1"
        r = run_one(job)
        print(digest(r["log"], 10000))
        if r["kind"] == "violation":
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
        else:
            print("replay: " + r["kind"])
            rc = 0 if r["kind"] == "pass" else ERR
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def setup(props):
    scratch = tempfile.mkdtemp(prefix="zkcverif.")
    try:
        binaries = set()
        for pid, prop in sorted(props.items()):
            build_bins(scratch, prop)
            for spec in prop["tests"]:
                build_bins(scratch, spec)
                build(scratch, spec, binaries)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print("setup: built %d test binaries" % len(binaries))
    sys.exit(0)


if __name__ == "__main__":
    main()

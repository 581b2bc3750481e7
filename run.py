#!/usr/bin/env python3
"""Runs the check of one property: run.py ID [--replay FILE].

Builds the property's test binary against /repo's working tree, runs its tests
in parallel shards in scratch directories, writes evidence/<ID>.json.
Exit 0: held; 1: VIOLATION line printed; 2: no answer (build, harness, time).
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
CONF = json.load(open(os.path.join(VERIF, "checks.json")))
MOD = "github.com/bifurcation/mint"


def goenv():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off",
             GOFLAGS="-mod=readonly", GO111MODULE="on")
    for k in ("GOOS", "GOARCH", "GOEXPERIMENT", "GODEBUG"):
        e.pop(k, None)
    return e


def overlay(pkgdir, scratch):
    """overlay.json maps paths in /repo to files of the package directory."""
    p = os.path.join(pkgdir, "overlay.json")
    if not os.path.exists(p):
        return []
    m = {k: os.path.join(pkgdir, v) for k, v in json.load(open(p)).items()}
    o = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": m}, open(o, "w"))
    return ["-overlay", o]


def build(pid, scratch, fuzz=False):
    c = CONF[pid]
    pkg = pid.lower()
    out = os.path.join(scratch, "fuzz.test" if fuzz else "check.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if fuzz:
        cmd.append("-fuzz=.")
    if c.get("race"):
        cmd.append("-race")
    ov = overlay(os.path.join(HARNESS, pkg), scratch)
    r = subprocess.run(cmd + ov + ["./" + pkg], cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 and ov:
        # The internals that the overlay names are gone: the black-box tests remain.
        print("%s: the overlay does not build, running without it" % pid)
        r = subprocess.run(cmd + ["-tags", "noshim", "./" + pkg], cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        print(r.stdout[-8000:])
        print("ERROR: %s does not build" % pid)
        return None
    return out


def run_job(binary, test, shard, seed, tier, scratch, timeout, extra, conf):
    d = os.path.join(scratch, "%s-%d" % (test, shard))
    os.makedirs(d)
    env = goenv()
    ev = os.path.join(d, "ev.json")
    rseed = (seed * 1000003 + shard * 7919 + 1) & 0x7FFFFFFFFFFFFFFF
    env.update(VERIF_EV=ev, VERIF_SEED=str(rseed), VERIF_TIER=tier, GOTRACEBACK="all", GOMAXPROCS=str(conf.get("procs", 2)), VERIF_SHARD=str(shard))
    if conf.get("race"):
        env["GORACE"] = "halt_on_error=1 exitcode=66"
    args = [binary, "-test.run", "^%s$" % test, "-test.timeout", "0", "-test.v=false",
            "-rapid.seed=%d" % rseed, "-rapid.shrinktime=%s" % conf.get("shrink", "15s")] + extra
    t0 = time.time()
    log = os.path.join(d, "log")
    with open(log, "w") as f:
        p = subprocess.Popen(args, cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    out = open(log, errors="replace").read()
    res = dict(test=test, shard=shard, seed=seed, rc=rc, out=out, wall=time.time() - t0, ev=None, failfile=None, dir=d)
    if os.path.exists(ev):
        try:
            res["ev"] = json.load(open(ev))
        except ValueError:
            pass
    for root, _, files in os.walk(os.path.join(d, "testdata")):
        for fn in files:
            if fn.endswith(".fail"):
                res["failfile"] = open(os.path.join(root, fn)).read()
    return res


def fuzz_case(binary, name, data, scratch, seed):
    """Runs one input of a fuzz target; its output if it fails."""
    d = tempfile.mkdtemp(dir=scratch)
    t = os.path.join(d, "testdata", "fuzz", name)
    os.makedirs(t)
    open(os.path.join(t, "replay"), "w").write(data)
    env = goenv()
    env.update(VERIF_SEED=str(seed), VERIF_TIER="thorough")
    try:
        r = subprocess.run([binary, "-test.run", "^%s$/^replay$" % name], cwd=d, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
    except subprocess.TimeoutExpired:
        return None
    if "HARNESS-ERROR" in r.stdout:
        return None
    return r.stdout if r.returncode != 0 else None


def fuzz(pid, names, binary, scratch, seed, seconds):
    """Coverage-guided fuzzing of the same cases: their failures and counts."""
    found, stats = [], {}
    fb = build(pid, scratch, True)
    if fb is None:
        return found, stats
    for name in names:
        d = os.path.join(scratch, name)
        os.makedirs(d)
        env = goenv()
        env.update(VERIF_SEED=str(seed), VERIF_TIER="thorough", GOTRACEBACK="all")
        log = os.path.join(d, "log")
        with open(log, "w") as f:
            p = subprocess.Popen([fb, "-test.run=^$", "-test.fuzz=^%s$" % name, "-test.fuzztime=%ds" % seconds, "-test.parallel=8",
                                  "-test.fuzzminimizetime=200x", "-test.fuzzcachedir=" + os.path.join(d, "cache")],
                                 cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                p.wait(seconds + 300)
            except subprocess.TimeoutExpired:
                pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        out = open(log, errors="replace").read()
        n = re.findall(r"execs: (\d+).*?\(total: (\d+)\)", out)
        if n:
            stats[name] = dict(executions=int(n[-1][0]), inputs_kept_for_coverage=int(n[-1][1]))
        t = os.path.join(d, "testdata", "fuzz", name)
        for fn in sorted(os.listdir(t)) if os.path.isdir(t) else []:
            data = open(os.path.join(t, fn)).read()
            # What does not fail again is the engine's own trouble (a killed worker).
            for _ in range(3):
                o = fuzz_case(binary, name, data, scratch, seed)
                if o:
                    found.append(dict(fuzz=name, input=data, output=o))
                    break
    return found, stats


def brief(out):
    ls = [l if len(l) < 800 else l[:800] + "..." for l in out.splitlines()]
    if len(ls) > 60:
        ls = ls[:35] + ["..."] + ls[-24:]
    return "\n".join(ls)


def verdict(r):
    """'ok', 'violation' or 'error'."""
    out = r["out"]
    if r["rc"] == 0:
        return "ok"
    if r["rc"] is None or r["rc"] < 0:
        return "error"
    if "HARNESS-ERROR" in out or "[rapid] only generated" in out:
        return "error"
    if r["rc"] == 3 and "WEDGED" in out:
        return "violation" if MOD + "." in out else "error"
    if r["rc"] == 66 or "WARNING: DATA RACE" in out:
        return "violation" if MOD + "." in out else "error"
    if "--- FAIL" in out and r["rc"] == 1:
        return "violation"
    if re.search(r"^(panic|fatal error):", out, re.M):
        if "out of memory" in out and "cannot allocate" in out:
            return "error"
        return "violation" if MOD + "." in out else "error"
    return "error"


def main():
    pid = sys.argv[1]
    conf = CONF[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        tier, seed = replay["tier"], replay["seed"]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return go(pid, conf, tier, seed, replay, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def go(pid, conf, tier, seed, replay, scratch, t0):
    binary = build(pid, scratch)
    if binary is None:
        return 2
    r0 = subprocess.run([binary, "-test.list", "."], env=goenv(), cwd=scratch, stdout=subprocess.PIPE, text=True)
    tests = [l for l in r0.stdout.split() if l.startswith("Test")]
    if not tests:
        print("ERROR: no tests")
        return 2
    budget = conf.get("timeout_" + tier, 800 if tier == "quick" else 7200)
    jobs = []
    if replay and replay.get("fuzz"):
        o = fuzz_case(binary, replay["fuzz"], replay["input"], scratch, seed)
        if o:
            print(brief(o))
            print("VIOLATION property=%s replay=%s" % (pid, sys.argv[sys.argv.index("--replay") + 1]))
            return 1
        print("%s: the input does not fail" % pid)
        return 0
    if replay:
        extra = []
        if replay.get("failfile"):
            ff = os.path.join(scratch, "replay.fail")
            open(ff, "w").write(replay["failfile"])
            extra = ["-rapid.failfile=" + ff]
        jobs.append((replay["test"], replay["shard"], extra))
    else:
        n = conf.get("shards_" + tier, 2 if tier == "quick" else 8)
        for s in range(n):
            for t in tests:
                per = conf.get("per_test", {}).get(t, {}).get("shards_" + tier)
                if per is None or s < per:
                    jobs.append((t, s, []))
    results = []
    workers = conf.get("workers", 8)
    end = time.time() + budget
    with cf.ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(lambda j=j: run_job(binary, j[0], j[1], seed, tier, scratch, max(1, end - time.time()), j[2], conf)) for j in jobs]
        for f in cf.as_completed(fs):
            results.append(f.result())
    results.sort(key=lambda r: (r["test"], r["shard"]))
    code = 0
    violations = 0
    known = {}
    for r in results:
        v = verdict(r)
        if v == "ok":
            continue
        if v == "violation":
            violations += 1
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s-%d-%s-%d.json" % (pid, tier, seed, r["test"], r["shard"]))
            if not replay:
                json.dump(dict(property=pid, test=r["test"], shard=r["shard"], seed=seed, tier=tier,
                               failfile=r["failfile"], output=r["out"][-20000:]), open(path, "w"), indent=1)
            else:
                path = sys.argv[sys.argv.index("--replay") + 1]
            if violations <= 3:
                print(brief(r["out"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            code = 1
        else:
            print(brief(r["out"]))
            why = "ran out of time" if r["rc"] is None else "exit %s" % r["rc"]
            print("ERROR: %s %s shard %d: no answer (%s)" % (pid, r["test"], r["shard"], why))
            if code == 0:
                code = 2
    fuzzed = {}
    targets = [l for l in r0.stdout.split() if l.startswith("Fuzz")]
    if tier == "thorough" and targets and not replay:
        found, fuzzed = fuzz(pid, targets, binary, scratch, seed, int(os.environ.get("VERIF_FUZZ_SECONDS") or conf.get("fuzz_seconds", 180)))
        for x in found:
            violations += 1
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s-%d-%s.json" % (pid, tier, seed, x["fuzz"]))
            json.dump(dict(property=pid, seed=seed, tier=tier, fuzz=x["fuzz"], input=x["input"], output=x["output"][-20000:]), open(path, "w"), indent=1)
            print(brief(x["output"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            code = 1
    # evidence
    evals, keys, classes, samples, per = 0, set(), {}, [], {}
    for r in results:
        e = r["ev"] or {}
        evals += e.get("evaluations", 0)
        keys |= set((r["test"], k) for k in (e.get("keys") or []))
        for k, n in (e.get("classes") or {}).items():
            classes[r["test"] + ": " + k] = classes.get(r["test"] + ": " + k, 0) + n
        for k, n in (e.get("known") or {}).items():
            known[k] = known.get(k, 0) + n
        per[r["test"]] = per.get(r["test"], 0) + e.get("evaluations", 0)
        if r["shard"] == 0:
            samples += [r["test"] + ": " + s for s in (e.get("samples") or [])[:4]]
    cov = dict(evaluations=evals, distinct_nontrivial=len(keys), rule=conf["rule"], samples=samples[:40],
               cases_per_test=per, classes=dict(sorted(classes.items())))
    if fuzzed:
        cov["fuzzing"] = fuzzed
    if not replay:
        kf = os.path.join(VERIF, "known_findings.txt")
        listed = []
        if os.path.exists(kf):
            for l in open(kf):
                if l.startswith("KNOWN-FINDING: property=%s " % pid):
                    listed.append(l.strip())
                    print(l.strip())
        if listed:
            cov["known_findings_met"] = known
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
                  assumptions=conf.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if code == 0:
        if evals == 0:
            print("ERROR: %s evaluated nothing" % pid)
            return 2
        print("%s held on %d cases (%d distinct non-trivial), %.1f s" % (pid, evals, len(keys), time.time() - t0))
    return code


if __name__ == "__main__":
    sys.exit(main())

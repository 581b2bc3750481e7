#!/usr/bin/env python3
"""mut.py: runs the mutants that build.sh built (in /tmp/mut) until told to stop.
   mut.py profile | run [N] [REGEX] | full ID..."""
import sys, os, re, json, random, subprocess, tempfile, time, shutil, threading
import concurrent.futures as cf
sys.path.insert(0, "/verif")
sys.argv, ARGV = [sys.argv[0], "C01"], sys.argv
import run as R
M = "/tmp/mut"
BIN = M + "/bin/"
CHECKS = ["c%02d" % i for i in range(1, 32)]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
mutants = {}
for f in ("mint", "syntax"):
    for l in open("%s/%s/mutants.txt" % (M, f)):
        a = l.rstrip("\n").split("\t")
        mutants[int(a[0])] = a[1:]

def tests(c):
    r = subprocess.run([BIN + c + ".test", "-test.list", "."], stdout=subprocess.PIPE, text=True, cwd="/tmp")
    return [t for t in r.stdout.split() if t.startswith("Test")]

def exe(c, test, scale, mutant=0, hits=None, timeout=200, seed=1):
    conf = R.CONF[c.upper()]
    d = tempfile.mkdtemp(prefix="mutrun.", dir="/tmp")
    env = R.goenv()
    rs = (seed * 1000003 + 1) & 0x7FFFFFFFFFFFFFFF
    env.update(VERIF_SEED=str(rs), VERIF_TIER="quick", GOTRACEBACK="all", GOMAXPROCS=str(conf.get("procs", 2)), VERIF_SHARD="0", MUTANT=str(mutant), VERIF_SCALE=str(scale))
    if conf.get("race"): env["GORACE"] = "halt_on_error=1 exitcode=66"
    if hits: env["MUTHITS"] = hits
    log = d + "/log"
    t0 = time.time()
    try:
        with open(log, "w") as f:
            p = subprocess.Popen([BIN + c + ".test", "-test.run", "^%s$" % test, "-test.timeout", "0", "-rapid.seed=%d" % rs, "-rapid.shrinktime=1ms", "-rapid.nofailfile"], cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
            try: rc = p.wait(timeout)
            except subprocess.TimeoutExpired: rc = None
            try: os.killpg(p.pid, 9)
            except ProcessLookupError: pass
            p.wait()
        out = open(log, errors="replace").read()
    finally:
        shutil.rmtree(d)
    v = "timeout" if rc is None else R.verdict(dict(rc=rc, out=out))
    return v, out, time.time() - t0

def repotests(mutant, hits=None):
    bad = []
    for b, pkg, cwd in (("repo", "", "/repo"), ("syntax", "/syntax", "/repo/syntax")):
        env = R.goenv(); env.update(MUTANT=str(mutant), GOMAXPROCS="2")
        if hits: env["MUTHITS"] = hits
        d = tempfile.mkdtemp(prefix="mutrun.", dir="/tmp")
        try:
            with open(d + "/log", "w") as f:
                p = subprocess.Popen([BIN + b + ".test", "-test.v", "-test.timeout", "60s"], cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
                try: p.wait(70)
                except subprocess.TimeoutExpired: bad.append("timeout")
                try: os.killpg(p.pid, 9)
                except ProcessLookupError: pass
                p.wait()
            out = open(d + "/log", errors="replace").read()
        finally:
            shutil.rmtree(d)
        ok = set(re.findall(r"^\s*--- PASS: (\S+)", out, re.M))
        pre = "github.com/bifurcation/mint" + pkg + "/"
        for s in STABLE:
            if s.startswith(pre) and not (pkg == "" and s.startswith("github.com/bifurcation/mint/syntax/") and not s[28:].startswith("Test")):
                n = s[len(pre):]
                if n.startswith("Test") and n not in ok: bad.append(n)
        if bad: break
    return bad

def newhits(name):
    p = "%s/hits.%s" % (M, name)
    open(p, "wb").write(bytes(1 << 16))
    return p

def profile():
    prof = {}
    jobs = [(c, t) for c in CHECKS if not R.CONF[c.upper()].get("race") for t in tests(c)]
    def one(j):
        h = newhits("%s.%s" % j)
        v, out, w = exe(j[0], j[1], 0.25, hits=h)
        b = open(h, "rb").read(); os.unlink(h)
        print(j, v, "%.1f" % w, sum(b), flush=True)
        if v != "ok": print(out[-1500:])
        return "%s.%s" % j, dict(wall=w, hits=[i for i in range(len(b)) if b[i]])
    with cf.ThreadPoolExecutor(8) as ex:
        for k, v in ex.map(one, jobs): prof[k] = v
    h = newhits("repo")
    print("repo tests", repotests(0, h))
    b = open(h, "rb").read()
    json.dump(dict(checks=prof, repo=[i for i in range(len(b)) if b[i]]), open(M + "/prof.json", "w"))
    allhit = set(i for v in prof.values() for i in v["hits"])
    print("mutants", len(mutants), "reached by some check", len(allhit & set(mutants)))

def run(n, rx, scale=0.25):
    prof = json.load(open(M + "/prof.json"))
    repo = set(prof["repo"])
    hits = {k: set(v["hits"]) for k, v in prof["checks"].items()}
    wall = {k: v["wall"] for k, v in prof["checks"].items()}
    race = [(c, t) for c in CHECKS if R.CONF[c.upper()].get("race") for t in tests(c)]
    done = {}
    if os.path.exists(M + "/results.jsonl"):
        for l in open(M + "/results.jsonl"):
            r = json.loads(l); done[r["id"]] = r
    kills = {}
    for r in done.values():
        if r.get("by"): kills[r["by"]] = kills.get(r["by"], 0) + 1
    ids = [i for i in mutants if i not in done and re.search(rx, "\t".join(mutants[i]))]
    random.Random(7).shuffle(ids)
    ids = ids[:n]
    lock = threading.Lock()
    def one(i):
        if os.path.exists(M + "/stop"): return
        r = dict(id=i, what=mutants[i])
        ks = [k for k in hits if i in hits[k]]
        if not ks: return
        ks.sort(key=lambda k: -(kills.get(k, 0) + 1) / (wall[k] + 1))
        r.update(state="survived", by=None, errs=[])
        for k in ks:
            c, t = k.split(".")
            v, out, w = exe(c, t, scale, i, timeout=max(60, 10 * wall[k]))
            if v == "error": r["errs"].append(k)
            if v in ("violation", "timeout"):
                r.update(state=v, by=k)
                with lock: kills[k] = kills.get(k, 0) + 1
                break
        else:
            if i in repo: r["bad"] = repotests(i)[:2]
        with lock:
            open(M + "/results.jsonl", "a").write(json.dumps(r) + "\n")
            if r["state"] in ("survived", "unreached") or r.get("errs"): print(i, r["state"], r.get("errs"), r.get("bad"), *r["what"], flush=True)
    with cf.ThreadPoolExecutor(int(os.environ.get("MUTJOBS", "7"))) as ex:
        list(ex.map(one, ids))

def full(i):
    prof = json.load(open(M + "/prof.json"))
    ks = [k for k, v in prof["checks"].items() if i in v["hits"]]
    ks += ["%s.%s" % (c, t) for c in CHECKS if R.CONF[c.upper()].get("race") for t in tests(c)]
    print(i, *mutants[i])
    def one(k):
        c, t = k.split(".")
        for seed in (1, 2):
            v, out, w = exe(c, t, 1, i, timeout=300, seed=seed)
            if v != "ok": return k, v
        return k, "ok"
    with cf.ThreadPoolExecutor(8) as ex:
        r = [x for x in ex.map(one, ks) if x[1] != "ok"]
    print("   ", r or "SURVIVED", flush=True)

if ARGV[1] == "profile": profile()
elif ARGV[1] == "run": run(int(ARGV[2]) if len(ARGV) > 2 else 10**9, ARGV[3] if len(ARGV) > 3 else "")
else:
    for i in ARGV[2:]: full(int(i))

#!/usr/bin/env python3
"""Runs the monitored workload of one property against /repo.

usage: check.py ID [--tier quick|thorough]
       check.py --setup

Exit 0: held on everything observed.  Exit 1: a violation, reported as
"VIOLATION property=ID replay=PATH".  Exit 2: the check could not run.

VERIF_SEED selects the workload; VERIF_REPO (development only) the tree.
"""
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
MOD = "github.com/warthog618/sms"
TOOLS = ["smssubmit", "smsdecode", "smsdeliver", "smscounter", "charsets"]

# processes run per tier: (plain, race-detector instrumented)
ROUNDS = {
    "P04": ((1, 1), (6, 4)),
    "P05": ((2, 3), (8, 8)),
    "P06": ((1, 1), (6, 4)),
    "P07": ((1, 1), (6, 2)),
    "P08": ((1, 1), (6, 4)),
    "P09": ((1, 1), (6, 4)),
}
DEFAULT = ((1, 0), (6, 0))
IDS = ["P%02d" % i for i in list(range(1, 10)) + list(range(10, 28))]


def env():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off",
             GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_="", CGO_ENABLED=e.get("CGO_ENABLED", "1"))
    e.pop("GOFLAGS_")
    return e


def modfile(tmp):
    """A copy of the harness' module file, so that nothing committed is
    rewritten, referring to the tree under test."""
    m = os.path.join(tmp, "verif.mod")
    s = open(os.path.join(HARNESS, "go.mod")).read()
    s = s.replace("=> /repo", "=> " + REPO)
    open(m, "w").write(s)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(tmp, "verif.sum"))
    return m


def start_build(tmp, race):
    out = os.path.join(tmp, "race.test" if race else "plain.test")
    # no -mod=mod in GOFLAGS with a cached module missing: everything offline
    cmd = ["go", "test", "-c", "-modfile", modfile(tmp) if not race else os.path.join(tmp, "verif.mod"), "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./run")
    return out, subprocess.Popen(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def die(msg):
    print("check.py: " + msg, file=sys.stderr)
    sys.exit(2)


class Proc:
    def __init__(self, ident, exe, tmp, n, race, seed, tier, bins, budget, gmp):
        self.race, self.n = race, n
        self.out = os.path.join(tmp, "r%d%s.json" % (n, "race" if race else ""))
        self.err = self.out + ".log"
        self.racelog = self.out + ".race"
        e = env()
        e.update(VERIF_CHECK=ident, VERIF_SEED=str(seed), VERIF_ROUND=str(n), VERIF_TIER=tier,
                 VERIF_OUT=self.out, VERIF_BIN=bins, VERIF_BUDGET=str(budget), GOTRACEBACK="all",
                 GORACE="halt_on_error=0 exitcode=66 history_size=3 log_path=" + self.racelog)
        if gmp:
            e["GOMAXPROCS"] = str(gmp)
        self.f = open(self.err, "wb")
        self.p = subprocess.Popen([exe, "-test.run", "^TestRun$", "-test.timeout", "0", "-test.count", "1"],
                                  cwd=tmp, env=e, stdout=self.f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)

    def wait(self, deadline):
        self.timeout = False
        try:
            self.p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            self.timeout = True
            self.p.send_signal(signal.SIGQUIT)
            try:
                self.p.wait(20)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
        self.f.close()

    def log(self):
        return open(self.err, errors="replace").read()


def frames(block):
    return re.findall(r"(github\.com/warthog618/sms[^\s(]*(?:\(\*?\w+\))?[^\s(]*)\(", block)


def race_violations(p):
    viols, other = [], 0
    for f in glob.glob(p.racelog + ".*"):
        text = open(f, errors="replace").read()
        for block in text.split("=================="):
            if "DATA RACE" not in block:
                continue
            # the accesses, rather than where the goroutines were created
            acc = re.split(r"\n\s*Goroutine \d+ ", block)[0]
            fr = frames(acc)
            if fr:
                fr = sorted(set(x.replace(MOD, "sms") for x in fr))
                viols.append({"key": "race:" + "|".join(fr[:4]), "what": "data race in " + ", ".join(fr[:4]),
                              "detail": block.strip()[:6000], "case": "race build round %d" % p.n})
            else:
                other += 1
    return viols, other


def crash(p):
    """Describes a process which did not complete."""
    log = p.log()
    if "panic: harness:" in log:
        return None, "harness failure: " + log[:2000]
    m = re.search(r"^(fatal error: .*|panic: .*|runtime: .*|unexpected fault.*|SIG\w+.*)$", log, re.M)
    what = m.group(1) if m else "exit status %s" % p.p.returncode
    tail = log[m.start():] if m else log[-4000:]
    if p.timeout:
        return None, "did not finish in time; " + log[-3000:]
    # the goroutine which crashed comes first
    first = tail.split("\n\ngoroutine ")
    head = "\n\ngoroutine ".join(first[:2])
    if MOD in head or ("concurrent map" in what and MOD in tail) or ("stack overflow" in log and MOD in tail) or ("out of memory" in log and MOD in tail):
        fr = frames(head) or ["?"]
        return {"key": "crash:" + fr[0].replace(MOD, "sms"), "what": "crash: " + what, "detail": tail[:6000],
                "case": "round %d" % p.n}, None
    return None, what + "\n" + tail[:3000]


def known_findings(ident):
    known = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m.group(1) == ident:
                known[m.group(2)] = m.group(3)
    return known


def run(ident, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    for f in glob.glob(os.path.join(evdir, "replays", ident + "-*")):
        os.remove(f)
    nplain, nrace = ROUNDS.get(ident, DEFAULT)[1 if tier == "thorough" else 0]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % ident)
    try:
        return run2(ident, tier, seed, evdir, nplain, nrace, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run2(ident, tier, seed, evdir, nplain, nrace, tmp, t0):
    plain, bp = start_build(tmp, False)
    race, br = start_build(tmp, True) if nrace else (None, None)
    bins = ""
    if ident == "P26":
        bins = os.path.join(tmp, "bin")
        os.mkdir(bins)
        e = env()
        e["GOFLAGS"] = "-mod=readonly -buildvcs=false"
        for t in TOOLS:
            r = subprocess.run(["go", "build", "-o", os.path.join(bins, t), "./cmd/" + t], cwd=REPO, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                die("%s does not build:\n%s" % (t, r.stdout.decode()))
    o, _ = bp.communicate()
    if bp.returncode:
        die("the harness does not build:\n" + o.decode())
    limit = 600 if tier == "quick" else 840
    budget = 100 if tier == "quick" else 600
    deadline = t0 + limit
    gmps = [0, 2, 0, 16, 4, 0, 3, 8]
    procs = []
    batch = 8
    todo = [(False, i) for i in range(nplain)]
    rtodo = [(True, 100 + i) for i in range(nrace)]
    pending = []

    def launch(items, exe):
        for r, n in items:
            b = budget
            if tier == "thorough":
                b = max(60, min(budget, int(deadline - 90 - time.time())))
            p = Proc(ident, exe, tmp, n, r, seed, tier, bins, b, gmps[n % 100 % len(gmps)] if n % 100 else 0)
            procs.append(p)
            pending.append(p)

    if tier == "quick":
        launch(todo, plain)
        if br:
            o, _ = br.communicate()
            if br.returncode:
                die("the race build failed:\n" + o.decode())
            launch(rtodo, race)
        for p in procs:
            p.wait(deadline)
    else:
        if br:
            o, _ = br.communicate()
            if br.returncode:
                die("the race build failed:\n" + o.decode())
        # at most eight at once
        budget = 330 if nrace else 600
        launch(todo, plain)
        for p in pending:
            p.wait(deadline)
        budget = 300
        launch(rtodo, race)
        for p in procs:
            if not hasattr(p, "timeout"):
                p.wait(deadline)

    viols, problems, results = [], [], []
    harness_races = 0
    for p in procs:
        d = None
        if os.path.exists(p.out):
            try:
                d = json.load(open(p.out))
            except ValueError:
                d = None
        if d:
            results.append((p, d))
            viols += d["violations"] or []
            for x in d["inconclusive"] or []:
                problems.append(x)
        if p.race:
            v, other = race_violations(p)
            viols += v
            harness_races += other
        if not d or (not d["done"] and not d["violations"] and not d["inconclusive"]):
            v, prob = crash(p)
            if v:
                viols.append(v)
            else:
                problems.append(prob)

    distinct = 0
    e = env()
    e["VERIF_MERGE"] = tmp
    m = subprocess.run([plain, "-test.run", "^TestMerge$"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp)
    mm = re.search(rb"distinct=(\d+)", m.stdout)
    if mm:
        distinct = int(mm.group(1))

    known = known_findings(ident)
    seen_known, fresh, order = set(), {}, []
    for v in viols:
        if v["key"] in known:
            seen_known.add(v["key"])
            continue
        if v["key"] not in fresh:
            order.append(v["key"])
        fresh.setdefault(v["key"], []).append(v)

    counters, samples, exhaustive, rule, evals = {}, [], set(), "", 0
    for p, d in results:
        evals += d["evaluations"]
        rule = d["rule"] or rule
        for k, v in (d["counters"] or {}).items():
            k = ("race." if p.race else "") + k
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
        samples += (d["samples"] or [])[:6]
        exhaustive.update(d["exhaustive"] or [])
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": distinct,
        "rule": rule,
        "samples": samples[:12] or ["(none)"],
        "observed": counters,
        "processes": [{"race": p.race, "seconds": round(d["seconds"], 1), "evaluations": d["evaluations"]} for p, d in results],
    }
    if exhaustive:
        cov["enumerated_completely"] = sorted(exhaustive)
    if problems:
        cov["inconclusive"] = [x[:500] for x in problems]
    if harness_races:
        cov["races_outside_the_code_under_test"] = harness_races
    if seen_known:
        cov["known_findings_observed"] = sorted(seen_known)
    ev = {
        "property": ident, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ["the reference model in /verif/harness/ref is right", "the workload reaches what the property quantifies over only by sampling, other than what is listed as enumerated completely"],
        "wall_s": round(time.time() - t0, 2), "violations": len(order),
    }
    tmpf = os.path.join(evdir, "." + ident + ".tmp")
    json.dump(ev, open(tmpf, "w"), indent=1)
    os.replace(tmpf, os.path.join(evdir, ident + ".json"))

    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (ident, known[k]))
    for i, key in enumerate(order[:10]):
        path = os.path.join(evdir, "replays", "%s-%d.txt" % (ident, i + 1))
        with open(path, "w") as f:
            f.write("property %s, key %s\nre-run: VERIF_SEED=%d python3 %s %s --tier %s\n\n" % (ident, key, seed, os.path.join(HERE, "check.py"), ident, tier))
            for v in fresh[key]:
                f.write("%s\n%s\n%s\n\n" % (v["case"], v["what"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (ident, path))
        print("  %s: %s" % (key, fresh[key][0]["what"][:400].replace("\n", " ")))
    for x in problems:
        print("inconclusive: " + x[:2000])
    print("%s %s: %d observations, %d distinct, %d violations, %.1fs" % (ident, tier, evals, distinct, len(order), time.time() - t0))
    if order:
        return 1
    if problems and not results:
        return 2
    return 0


def setup():
    tmp = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        a, pa = start_build(tmp, False)
        b, pb = start_build(tmp, True)
        for p in (pa, pb):
            o, _ = p.communicate()
            if p.returncode:
                die("build failed:\n" + o.decode())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("harness builds")
    return 0


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        return setup()
    tier = "quick"
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if len(a) != 1 or tier not in ("quick", "thorough"):
        die(__doc__)
    return run(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())

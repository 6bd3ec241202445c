#!/usr/bin/env python3
"""run.py <property> quick|thorough        run the check of a property
   run.py <property> replay <file>         run the failing case of a replay file again
   run.py setup                            build everything once

Exit 0: the property held on everything generated. Exit 1 and a VIOLATION line: it does not hold.
Exit 2: the check could not do its work (build failure, ...): no verdict."""
import glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULE = "github.com/GottfriedHerold/Bandersnatch"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS, KNOWN_FINDINGS_FILE


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    go = "/opt/veriftools/go1.27.3/bin"
    if os.path.exists(go + "/go"):
        e["PATH"] = go + ":" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in list(e):
        if k.startswith("RAPID_"):
            del e[k]
    return e


def fail(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def build(pkg, race, scratch):
    """Compile the test binary of a harness package; the harness enters the module through an overlay."""
    rep = {}
    def virtual(src, dst, only=lambda n: True):
        for f in sorted(os.listdir(src)):
            if f.endswith(".go") and only(f):
                rep[os.path.join(REPO, dst, f)] = os.path.join(src, f)
    virtual(os.path.join(VERIF, "third_party/rapid"), "zz_verif/rapid")
    virtual(os.path.join(VERIF, "harness/kit"), "zz_verif/kit")
    target = "./zz_verif/" + pkg
    src = os.path.join(VERIF, "harness", pkg)
    cfg = os.path.join(src, "INPACKAGE")
    if os.path.exists(cfg):  # an in-package test: its files join the tests of that package
        where = open(cfg).read().strip()
        virtual(src, where)
        target = "./" + where
    else:
        virtual(src, "zz_verif/" + pkg)
        for d in sorted(os.listdir(os.path.join(VERIF, "harness"))):  # helper packages
            if d.startswith("ref"):
                virtual(os.path.join(VERIF, "harness", d), "zz_verif/" + d)
    exports = os.path.join(VERIF, "exports")
    for d, _, files in os.walk(exports):
        for f in files:
            if f.endswith(".go"):
                rep[os.path.join(REPO, os.path.relpath(d, exports), f)] = os.path.join(d, f)
    ov = os.path.join(scratch, pkg + ".overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    out = os.path.join(scratch, pkg + (".race" if race else "") + ".test")
    t0 = time.time()
    # First with the tags that open up some unexported identifiers. Where the code has renamed one, without the tag
    # of the file that needs it: the sub-checks that need that file are left out, all others do their work.
    tags = sorted({m for d in (exports, os.path.join(VERIF, "harness")) for p in glob.glob(d + "/**/*.go", recursive=True)
                   for m in re.findall(r"^//go:build .*\b(verif_\w+)", open(p).read(), re.M)})
    extra = os.path.join(src, "TAGS")  # the tags of the variant of the library this package is about
    extra = open(extra).read().split() if os.path.exists(extra) else []
    while True:
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out, "-tags", ",".join(tags + extra)] + (["-race"] if race else []) + [target]
        try:
            r = subprocess.run(cmd, cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        except subprocess.TimeoutExpired:
            fail("build timed out")
        if (r.returncode == 0 and os.path.exists(out)) or not tags:
            break
        bad = set(re.findall(r"\b(?:zz_)?(verif_[a-z0-9]+)(?:_on|_on_test)?\.go:\d", r.stdout)) & set(tags)
        tags = [t for t in tags if t not in bad] if bad else []
        print("NOTE: building again without %s:\n%s" % (" ".join(sorted(bad)) or "unexported identifiers", r.stdout[-1500:]))
    if r.returncode != 0 or not os.path.exists(out):
        fail("build of %s failed:\n%s" % (pkg, r.stdout[-6000:]))
    return out, time.time() - t0


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def run_shards(binary, c, tier, seed, shards, budget, scratch, extra=None, only=None):
    procs = []
    for k in range(shards):
        d = os.path.join(scratch, "shard%d" % k)
        os.makedirs(d)
        e = env()
        e.update(VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_SHARD=str(k), VERIF_SHARDS=str(shards),
                 VERIF_BUDGET=str(budget), VERIF_OUT=scratch, GOMAXPROCS=str(c.get("procs", 2)), GOTRACEBACK="all", TMPDIR=d)
        if c.get("race"):
            e["GORACE"] = "halt_on_error=1 exitcode=66"
        if only:
            e["VERIF_ONLY"] = only
        e.update(extra or {})
        args = [binary, "-test.run", "^%s$" % c["test"], "-test.timeout", "0", "-test.v=false", "-rapid.shrinktime=25s"]
        if extra and "failfile" in extra:
            args.append("-rapid.failfile=" + extra["failfile"])
        f = open(os.path.join(scratch, "log.%d" % k), "wb")
        procs.append((k, d, subprocess.Popen(args, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, preexec_fn=limits)))
    deadline = time.time() + budget + 330
    res = []
    for k, d, p in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            rc = None
        res.append((k, d, rc))
    for k, d, p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    return res


def classify(rc, log):
    """ -> None (held), 'violation' or 'error' """
    if rc == 0 and re.search(r"^PASS\s*$", log, re.M):
        return None
    if rc is None:
        return "error"
    if rc in (77, 78) and "VERIF-STUCK" in log:
        return "violation"
    if rc == 66 and "WARNING: DATA RACE" in log:
        return "violation"
    if rc == 1 and "VERIF-FAILED" in log:
        if "[rapid] only generated" in log and "[rapid] failed" not in log and "[rapid] panic" not in log:
            return "error"
        return "violation"
    m = re.search(r"^fatal error: (.*)$", log, re.M)
    if rc == 2 and m and "out of memory" not in m.group(1) and "cannot allocate" not in m.group(1):
        return "violation"
    if rc == 2 and re.search(r"^(panic|runtime): ", log, re.M) and "VERIF-HARNESS" not in log:
        return "violation"  # an unrecovered panic in a goroutine of the code under test
    return "error"


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        scratch = tempfile.mkdtemp(prefix="verif_setup.")
        try:
            for pkg, race in sorted({(c["pkg"], bool(c.get("race"))) for c in CHECKS.values()}):
                _, dt = build(pkg, race, scratch)
                print("built %s%s in %.1fs" % (pkg, " (race)" if race else "", dt))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0
    if len(sys.argv) < 3 or sys.argv[1] not in CHECKS:
        print(__doc__)
        return 2
    pid, mode = sys.argv[1], sys.argv[2]
    c = CHECKS[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    shards = c.get("shards", 8)
    scratch = tempfile.mkdtemp(prefix="verif_%s." % pid)
    try:
        binary, build_s = build(c["pkg"], c.get("race"), scratch)
        if mode == "replay":
            rep = json.load(open(sys.argv[3]))
            extra = {"VERIF_SCALE": os.environ.get("VERIF_SCALE", "1")}
            if rep.get("failfile"):
                ff = os.path.join(scratch, "replay.fail")
                open(ff, "w").write(rep["failfile"])
                extra.update(failfile=ff, VERIF_REPLAY_CHECKS="1")
            if rep.get("seed"):
                extra["VERIF_REPLAY_SEED"] = str(rep["seed"])
                if not rep.get("failfile"):
                    extra["VERIF_REPLAY_CHECKS"] = str(rep["checks"])
            (_, _, rc), = run_shards(binary, c, "quick", rep["verif_seed"], 1, 200, scratch, extra, rep["sub"])
            log = open(os.path.join(scratch, "log.0"), errors="replace").read()
            print(log[-20000:])
            v = classify(rc, log)
            if v == "violation":
                print("VIOLATION property=%s replay=%s" % (pid, sys.argv[3]))
                return 1
            return 0 if v is None else 2
        if mode not in ("quick", "thorough"):
            print(__doc__)
            return 2
        thorough = mode == "thorough"
        budget = c.get("thorough_s", 420) if thorough else c.get("quick_s", 240)
        scale = os.environ.get("VERIF_SCALE") or str(1 if thorough else c.get("qscale", 1))
        res = run_shards(binary, c, mode, seed, shards, budget, scratch, {"VERIF_SCALE": scale})
        logs = {k: open(os.path.join(scratch, "log.%d" % k), errors="replace").read() for k, _, _ in res}
        verdicts = {k: classify(rc, logs[k]) for k, _, rc in res}
        viol = [k for k in verdicts if verdicts[k] == "violation"]
        errs = [k for k in verdicts if verdicts[k] == "error"]

        # evidence
        subs, hashes = {}, set()
        for fn in glob.glob(os.path.join(scratch, "frag.*.json")):
            for s in json.load(open(fn)):
                t = subs.setdefault(s["name"], {"evaluations": 0, "nontrivial": 0, "classes": {}, "samples": []})
                t["evaluations"] += s["evaluations"]
                t["nontrivial"] += s["nontrivial"]
                for l, n in (s["labels"] or {}).items():
                    t["classes"][l] = t["classes"].get(l, 0) + n
                t["samples"] += s["samples"] or []
        for fn in glob.glob(os.path.join(scratch, "hashes.*")):
            b = open(fn, "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        samples = ["%s: %s" % (n, x) for n, t in subs.items() for x in sorted(set(t["samples"]))[:3]]
        ev = {"property": pid, "tier": mode, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": sum(t["evaluations"] for t in subs.values()),
                           "distinct_nontrivial": len(hashes), "rule": c["rule"], "samples": samples,
                           "subchecks": {n: {k: t[k] for k in ("evaluations", "nontrivial", "classes")} for n, t in subs.items()},
                           "shards": shards, "build_s": round(build_s, 2)},
              "assumptions": c.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        skipped = re.findall(r"^VERIF-BUDGET .*$", "\n".join(logs.values()), re.M)
        if skipped:
            ev["coverage"]["budget_reached"] = skipped
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, sort_keys=True)

        for f in known_findings():
            if f[0] == pid:
                print("KNOWN-FINDING: property=%s %s" % f)
        if viol:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = None
            # prefer a shard with a minimised case
            viol.sort(key=lambda k: (0 if glob.glob(os.path.join(scratch, "shard%d" % k, "testdata/rapid/*/*.fail")) else 1, k))
            k = viol[0]
            m = re.search(r"VERIF-FAILED sub=(\S+) seed=(\d+) checks=(\d+)", logs[k]) or re.search(r"VERIF-STUCK code=\d+ sub=(\S+) seed=(\d+) checks=(\d+)", logs[k])
            ffs = glob.glob(os.path.join(scratch, "shard%d" % k, "testdata/rapid/*/*.fail"))
            rep = {"property": pid, "verif_seed": seed, "shard": k, "sub": m.group(1) if m else None,
                   "seed": int(m.group(2)) if m else None, "checks": int(m.group(3)) if m else None,
                   "failfile": open(ffs[0], errors="replace").read() if ffs else None,
                   "log": logs[k][:20000],
                   "how": "python3 /verif/run.py %s replay <this file>" % pid}
            path = os.path.join(VERIF, "replays", "%s-%d-%s.json" % (pid, seed, mode))
            json.dump(rep, open(path, "w"), indent=1)
            print(logs[k][:4000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if errs:
            k = errs[0]
            fail("shard %d gave no answer (exit %r):\n%s" % (k, res[k][2], logs[k][-4000:]))
        if not hashes:
            fail("no non-trivial case was generated")
        print("OK property=%s tier=%s cases=%d distinct_nontrivial=%d wall=%.1fs (build %.1fs)" % (
            pid, mode, ev["coverage"]["evaluations"], len(hashes), time.time() - t0, build_s))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings():
    out = []
    for l in open(os.path.join(VERIF, KNOWN_FINDINGS_FILE)):
        m = re.match(r"known: property=(\S+) (.*)$", l.strip())
        if m:
            out.append((m.group(1), m.group(2)))
    return out


if __name__ == "__main__":
    sys.exit(main())

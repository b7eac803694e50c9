"""check.py PROPERTY: decides one property on /repo's working tree with the TLA+ specification in /verif/spec.

1. builds the contracts; 2. runs the scenario scripts (fixed, random and generated by TLC from the specification) in the contracts;
3. has TLC check every recorded run against the specification and its invariants; 4. has TLC explore the small models of the property.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check could not run."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "scen")]
import attrib, build, lib, models, plans

SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = int(os.environ.get("VERIF_JOBS", "8"))


def tlc(args, work, name, env=None, timeout=840, mem="2g", workers=1):
    """TLC in the specification's folder"""
    meta = os.path.join(work, "md_" + name)
    quick = ["-XX:TieredStopAtLevel=1"] if workers == 1 and os.environ.get("VERIF_TIER", "quick") == "quick" else []  # short runs: less compiling
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"] + quick + ["-Xss512m", "-Xmx" + mem, "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:Try",
           "-cp", build.BUILD + "/classes:.:" + JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"] + args
    try:
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, **(env or {})), timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return -1, (e.stdout or b"").decode(errors="replace") + "\ntimeout"
    finally:
        shutil.rmtree(meta, ignore_errors=True)


LINE = re.compile(r'^@@<<"(MM|INV)", (\d+), "([^"]*)", "([^"]*)"(?:, (.*))?>>\s*$')


class Run:
    """one script, run in the contracts and checked against the specification"""

    def __init__(self, plan, work):
        self.parts = plan.parts
        self.name, self.script, self.module, self.follow, self.twin = plan.name, plan.text, plan.module, plan.follow, plan.twin
        self.work, self.events, self.records, self.calls, self.refused, self.error = work, [], 0, 0, 0, None

    def go(self, refsim, wasm):
        base = os.path.join(self.work, self.name.split("+")[0])
        self.path = base + ".jsonl"
        open(self.path, "w").write(self.script)
        with open(self.path) as i, open(base + ".trace", "w") as o, open(base + ".err", "w") as e:
            rc = subprocess.run([refsim, wasm], stdin=i, stdout=o, stderr=e, timeout=840).returncode
        if rc:
            self.error = ("run", "the contract cannot be driven: " + open(base + ".err").read()[-600:])
            return self
        rc, out = tlc(["-config", self.module + ".cfg", self.module + ".tla"], self.work, os.path.basename(base), {"TRACE": base + ".trace"})
        raw, end = [], 0
        for l in out.splitlines():
            if l.startswith('@@<<"END"'):
                end = 1
            m = LINE.match(l)
            if m:
                raw.append((m[1], int(m[2]), m[3], m[4], (m[5] or "")[:1500]))
        by = {}
        for e in raw:
            by.setdefault(e[1], []).append(e)
        st = re.search(r"(\d+) states generated, (\d+) distinct", out)
        self.states = int(st[2]) if st else 0
        f = self.follow()
        last = None
        self.kinds = {}
        for n, l in enumerate(open(base + ".trace"), 1):
            r = json.loads(l)
            f.feed(r)
            self.records = n
            k = "%s %s" % (r.get("m"), "ok" if r.get("ok") else "refused")
            if r["t"] in ("call", "view"):
                self.calls += 1
                self.kinds[k] = self.kinds.get(k, 0) + 1
            for e in by.get(n, []):
                self.events.append((e, f.props(e, r), brief(r)))
            last = (n, r, f)
            if not end and n == self.states:  # TLC got no further than this record
                nxt = n + 1
        if not end:
            if "timeout" in out[-20:]:
                self.error = ("tool", "TLC ran out of time")
            elif "Error:" in out and self.states and "JSON" not in out:
                self.error = ("spec", self.follow_error(base + ".trace", out))
            else:
                self.error = ("tool", out[-1500:])
        os.remove(base + ".trace")
        return self

    def follow_error(self, trace, out):
        n = self.states  # states before the failing one, the first being the empty one: the failing record is number n
        f = self.follow()
        for k, l in enumerate(open(trace), 1):
            r = json.loads(l)
            f.feed(r)
            if k == n:
                e = ("MM", n, r.get("m"), "state", "a state of the specification", re.sub(r"\s+", " ", out[out.index("Error:"):])[:600])
                self.events.append((e, f.props(e, r), brief(r)))
        return "the specification cannot follow record %d" % n


ALWAYS = {"upgrade", "deploy_contract", "migrate", "show"}


def past(runs, work, refsim, wasm):
    """of what differs in a run from an earlier release's state, the part that does not differ in its twin is a matter of the past"""
    for r in runs:
        same = set()
        if r.twin and any(e[2] not in ALWAYS and e[3] != "kept" for e, _, _ in r.events):
            t = Run(plans.Plan(r.name + "_twin", r.twin, r.module, r.follow), work).go(refsim, wasm)
            same = {key(t, e) for e, _, _ in t.events}
        r.events = [(e, {"C24"} if e[2] in ALWAYS or e[3] == "kept" or key(r, e) not in same else set(), rec) for e, _, rec in r.events]


def brief(r):
    return {k: r.get(k) for k in ("i", "t", "c", "p", "s", "m", "a", "d", "ts", "ok", "err") if r.get(k) is not None}


def known():
    """entries of the known-findings file: known: property=<id> key=<text that identifies event> <what fails>"""
    out = []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if m:
            out.append((m[1], m[2], m[3].strip()))
    return out


def key(run, e):
    return "%s/%s/%s" % (e[0], e[2], e[3])


def main():
    prop = sys.argv[1]
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    work = os.path.join(build.BUILD, "run_%s_%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return check(prop, seed, tier, t0, work)
    except build.ToolError as e:
        print("the check could not run:", e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, seed, tier, t0, work):
    kinds = ["farm", "ex"] if prop in plans.FARMING | {"C19", "C24"} else ["ex"]
    mc = models.of(prop, tier)
    build.locked(build.classes)
    with ThreadPoolExecutor(WORKERS) as ex:
        prep = ex.submit(build.prepare, kinds)
        # while the contracts are built, TLC explores the worlds of the property and generates histories
        jh = [ex.submit(models.histories, m, seed, tlc, work) for m in mc]
        jm = [ex.submit(models.explore, m, tlc, work) for m in mc]
        scripts = plans.of(prop, seed, tier)
        for j in jh:
            for name, s, twin in j.result():
                scripts.append(plans.plan(prop, name, lib.foretell(s) if prop == "C19" else s, twin=twin))
        runs = [Run(p, work) for p in (plans.bundles(scripts, WORKERS) if tier == "quick" else scripts)]
        wasm, refsim, _ = prep.result()
        jr = [ex.submit(r.go, refsim, wasm) for r in runs]
        [j.result() for j in jr]
        # what the specification cannot follow ends a run, and nothing behind it is judged: its parts are then run each on its own
        split = [r for r in runs if r.error and len(r.parts) > 1]
        more = [Run(p, work) for r in split for p in r.parts]
        list(ex.map(lambda r: r.go(refsim, wasm), more))
        runs = [r for r in runs if r not in split] + more
        mres = [j.result() for j in jm]
    if prop == "C24":
        past(runs, work, refsim, wasm)
    bad, seen_known, dull = [], set(), 0
    kn = known()
    for r in runs:
        if r.error and r.error[0] == "tool":
            print("the check could not run %s: %s" % (r.name, r.error[1]))
            return 2
        if r.error and r.error[0] == "run":
            bad.append((r, None, r.error[1]))
        for e, props, rec in r.events:
            if prop not in props:
                dull += 1
                continue
            k = [x for x in kn if x[0] == prop and x[1] == key(r, e)]
            if k:
                seen_known.update(k)
            else:
                bad.append((r, e, rec))
    for m in mres:
        if m["error"] and not bad:
            print("the check could not run model %s: %s" % (m["name"], m["error"]))
            return 2
    for p, k, what in kn:
        if p == prop:
            print("KNOWN-FINDING: property=%s %s" % (p, what))
    wall = time.time() - t0
    evidence(prop, seed, tier, runs, mres, bad, wall, dull)
    if not bad:
        print("property %s held: %d records of %d runs checked against the specification, %d states of %d models, %.0f s"
              % (prop, sum(r.records for r in runs), len(runs), sum(m["states"] for m in mres), len(mres), wall))
        return 0
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    r = bad[0][0]
    path = os.path.join(d, "%s-%s.jsonl" % (prop, r.name.split("+")[0]))
    open(path, "w").write(r.script)
    with open(path[:-6] + ".txt", "w") as f:
        for rr, e, rec in bad[:200]:
            f.write("%s: %s\n    at %s\n" % (rr.name, e, json.dumps(rec)))
    for rr, e, rec in bad[:8]:
        print("%s: %s" % (rr.name, str(e or rec)[:700]))
        print("    at %s" % json.dumps(rec)[:700])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def evidence(prop, seed, tier, runs, mres, bad, wall, dull):
    spread = {}
    for r in runs:
        for k, v in getattr(r, "kinds", {}).items():
            spread[k] = spread.get(k, 0) + v
    samples = [{"run": r.name, "records": r.records} for r in runs]
    rel = plans.relevant(prop)
    mine = {k: v for k, v in spread.items() if k.split(" ")[0] in rel} if rel else spread
    cov = {"states": sum(m["states"] for m in mres) + sum(r.records for r in runs),
           "transitions": sum(m["transitions"] for m in mres) + sum(r.calls for r in runs),
           "traces_validated_against_impl": sum(len(r.name.split("+")) for r in runs),
           "evaluations": sum(r.calls for r in runs), "distinct_nontrivial": sum(mine.values()),
           "rule": "evaluations: calls and views executed in the contract and compared with the specification; non-trivial: those of the entry points this property speaks about, accepted or refused",
           "calls_by_outcome": dict(sorted(mine.items())),
           "models": [{k: m[k] for k in ("name", "states", "transitions", "complete", "wall_s")} for m in mres],
           "samples": samples}
    e = {"property": prop, "tier": tier, "seed": int(seed), "level": "model_checking", "coverage": cov,
         "assumptions": plans.ASSUMPTIONS, "wall_s": round(wall, 1), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(e, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())

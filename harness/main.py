"""check <property> : records episodes of the real code, validates them with TLC, writes the evidence.

usage: main.py check C05            the registered check (VERIF_SEED, VERIF_TIER)
       main.py replay FILE          records and validates the episodes of a replay file again
"""
import sys
sys.dont_write_bytecode = True
import collections
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import zlib
from multiprocessing import get_context

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, REPO]
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = 8
BATCH = 6000          # episodes per TLC run


class Machinery(Exception):
    """the check itself is broken (exit 2, never a verdict)"""


# ------------------------------------------------------------------ recording
def rng(seed, prop, suite, index):
    import numpy as np
    return np.random.default_rng([seed, zlib.crc32(prop.encode()), zlib.crc32(suite.encode()), index])


def record_chunk(job):
    prop, seed, suite, lo, hi = job
    import registry
    import record
    import pristine
    pristine.start()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.RLIM_INFINITY))
    f = registry.SUITES[prop][suite][0]
    out = []
    for k in range(lo, hi):
        if record.HANGS >= 3:
            break                                  # every further one would cost its time limit too
        e = f(rng(seed, prop, suite, k), "%s:%d" % (suite, k), prop)
        for x in (e if isinstance(e, list) else [e]):
            if x is not None:
                out.append(json.dumps(x.json(), separators=(",", ":")))
    return out, record.HANGS


def record(prop, seed, plan):
    """plan: [(suite, lo, hi)] -> the episodes as lines of JSON"""
    jobs = []
    for suite, lo, hi in plan:
        step = max(1, min(250, (hi - lo) // (4 * WORKERS) + 1))
        jobs += [(prop, seed, suite, k, min(hi, k + step)) for k in range(lo, hi, step)]
    with get_context("fork").Pool(WORKERS) as pool:
        return [x for chunk, _ in pool.imap(record_chunk, jobs) for x in chunk]


# ------------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="optics-check-")
        subprocess.run(["javac", "-cp", TLA, "-d", self.dir, os.path.join(VERIF, "java", "BigNum.java")], check=True)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, module, cfg=None, env=None, timeout=3000, workers=WORKERS):
        """-> (printed JSON records, counts, whole output, exit code)"""
        spec = os.path.join(VERIF, "spec")
        log = os.path.join(self.dir, "out.txt")
        for heap in ("-Xmx8g", "-Xmx4g"):                     # less if so much is not to be had
            with open(log, "w") as f:
                p = subprocess.run(["timeout", "-k", "5", str(timeout), "java", "-XX:+UseParallelGC", heap, "-Xss32m", "-Djava.io.tmpdir=" + self.dir,
                                    "-cp", self.dir + ":" + TLA, "tlc2.TLC", "-workers", str(workers),
                                    "-metadir", os.path.join(self.dir, "meta"), "-config", (cfg or module) + ".cfg", module + ".tla"],
                                   cwd=spec, env=dict(os.environ, **(env or {})), stdout=f, stderr=subprocess.STDOUT)
            if not any(w in open(log, errors="replace").read(4000) for w in ("Could not reserve enough", "unable to create native thread")):
                break
        shutil.rmtree(os.path.join(self.dir, "meta"), ignore_errors=True)
        recs, rest, gen, distinct = [], [], 0, 0
        for l in open(log, errors="replace"):
            if l.startswith('"{'):
                recs.append(json.loads(json.loads(l)))
            else:
                rest.append(l)
                if "states generated" in l and "distinct" in l and l[0].isdigit():
                    w = l.replace(",", "").split()
                    gen, distinct = int(w[0]), int(w[w.index("distinct") - 1])
        return recs, (distinct, gen), "".join(rest), p.returncode

    def explore(self, module, what):
        """model checks the module on what it is told to explore"""
        path = os.path.join(self.dir, "model.json")
        with open(path, "w") as f:
            json.dump(what, f)
        return self.run(module, env=dict(MODEL=path))

    def validate(self, lines):
        """episodes -> (failures by episode id, number of judged steps, episodes with more than one allowed outcome,
        episodes not followed to the end, (states, transitions))"""
        path = os.path.join(self.dir, "trace.ndjson")
        fails, steps, inc, lost, states, trans = collections.OrderedDict(), 0, 0, 0, 0, 0
        for k in range(0, len(lines), BATCH):
            part = lines[k:k + BATCH]
            with open(path, "w") as f:
                f.write("\n".join(part) + "\n")
            recs, (s, t), out, rc = self.run("Trace", env=dict(TRACE=path))
            done = set()
            for r in recs:
                if "done" in r:
                    done.add(r["done"])
                    steps += r["n"]
                    inc += r["inc"] > 0
                    lost += bool(r["lost"])
                else:
                    fails.setdefault(r["fail"], []).append(r)
            if rc != 0 or len(done) != len(part):
                raise Machinery("TLC did not validate every episode (%d of %d, exit %d):\n%s" % (len(done), len(part), rc, out[-3000:]))
            states, trans = states + s, trans + t
        return fails, steps, inc, lost, (states, trans)


# ------------------------------------------------------------------- verdicts
def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    for l in open(path):
        l = l.strip()
        if l.startswith("finding:"):
            d = json.loads(l[len("finding:"):])
            if d["property"] == prop:
                out.append(d)
    return out


def summary(prop, seed, line):
    """an episode in readable form, for evidence and replay files"""
    import report
    return report.episode(json.loads(line))


def check(prop):
    import registry
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    plan = [(name, 0, max(1, int(scale * (s[2] if thorough else s[1])))) for name, s in registry.SUITES.get(prop, {}).items()]
    tlc = Tlc()
    try:
        # 1. the specification itself, and its behaviours replayed into the code
        models, samples, replayed, mcfails, states, trans = [], [], 0, [], 0, 0
        for m in registry.MODELS.get(prop, []):
            explore = m.thorough if thorough else m.quick
            if explore is None:
                continue
            recs, (s, t), out, rc = tlc.explore(m.module, explore)
            if rc != 0:
                raise Machinery("TLC on %s: exit %d\n%s" % (m.module, rc, out[-4000:]))
            n, bad = m.replay(prop, recs)
            if n == 0:
                raise Machinery("%s produced no behaviours" % m.module)
            models.append(dict(module=m.module, explored=explore, states=s, transitions=t, behaviours_replayed=n))
            samples += m.samples
            replayed += n
            mcfails += bad
            states, trans = states + s, trans + t
        # 2. executions of the code validated against the specification
        lines = record(prop, seed, plan)
        fails, steps, inc, lost, (s, t) = tlc.validate(lines) if lines else ({}, 0, 0, 0, (0, 0))
        states, trans = states + s, trans + t
    finally:
        tlc.close()
    byid = {json.loads(l)["id"]: l for l in lines} if fails else {}
    bad, known = [], {}
    for id, rs in fails.items():
        clauses = sorted({c for r in rs for c in r["clauses"] if c.startswith(prop + ":")})
        fresh = []
        for c in clauses:
            k = [f for f in known_findings(prop) if f["suite"] == id.split(":")[0] and f["clause"] == c]
            if k:
                known[k[0]["clause"]] = k[0]
            else:
                fresh.append(c)
        if fresh:
            bad.append(dict(episode=id, clauses=fresh, at=[dict(event=r["i"], leg=r["j"], clauses=r["clauses"]) for r in rs],
                            recorded=summary(prop, seed, byid[id])))
    bad = mcfails + bad
    by_suite = collections.Counter(name for name, lo, hi in plan for _ in range(lo, hi))
    samples = [summary(prop, seed, l) for l in lines[:: max(1, len(lines) // 3)][:3]] + samples
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=len(lines) + replayed, samples=samples,
               recorded_executions_validated=len(lines), spec_behaviours_replayed=replayed, judged_steps=steps,
               executions_with_more_than_one_allowed_outcome=inc, executions_not_followed_to_the_end=lost,
               suites=dict(by_suite), models=models,
               rejected_because_of_other_properties=sorted({c for rs in fails.values() for r in rs for c in r["clauses"]
                                                            if not c.startswith(prop + ":")})[:20])
    ev = dict(property=prop, tier="thorough" if thorough else "quick", seed=seed, level="model_checking", coverage=cov,
              assumptions=registry.ASSUMPTIONS.get(prop, []) + registry.COMMON, wall_s=round(time.time() - t0, 2), violations=len(bad))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d recorded executions (%d steps, %d ambiguous, %d abandoned), %d behaviours replayed, %d states, %.1f s"
          % (prop, len(lines), steps, inc, lost, replayed, states, time.time() - t0))
    if bad:
        path = os.path.join(VERIF, "evidence", prop + ".replay.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, count=len(bad), failures=bad[:20]), f, indent=1, default=str)
        c = collections.Counter(x for b in bad for x in b["clauses"])
        for x, n in c.most_common(8):
            print("  %s  (%d times)" % (x, n))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def replay(path):
    d = json.load(open(path))
    prop, tlc, lines = d["property"], None, []
    for b in d["failures"]:
        if "episode" in b:
            suite, k = b["episode"].split("/")[0].split(":")[:2]
            lines += record(prop, d["seed"], [(suite, int(k), int(k) + 1)])
        else:
            print(json.dumps(b, default=str))
    if not lines:
        return 0
    tlc = Tlc()
    try:
        fails = tlc.validate(lines)[0]
    finally:
        tlc.close()
    for id, rs in fails.items():
        print(id, rs)
    return 1 if any(c.startswith(prop + ":") for rs in fails.values() for r in rs for c in r["clauses"]) else 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "check":
            sys.exit(check(sys.argv[2]))
        elif sys.argv[1] == "replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit("unknown command")
    except Exception as x:
        import traceback
        traceback.print_exc(limit=4)
        print("ERROR of the check: %s" % str(x)[-3000:])
        sys.exit(2)

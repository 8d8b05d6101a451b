"""Host side of every check: plan the jobs, run them, judge the results, write evidence and replays."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from collections import Counter
from pathlib import Path

from . import simrun
from .core import ANY, REPO, derive

ROOT = Path(__file__).resolve().parent.parent
PERIODS = [10, 10, 10, 9, 11, 13, 16, 20]       # clock period of a simulation, in ns
KNOWN = ROOT / "known_findings.txt"


def known_findings(cid):
    """Open findings of a property: 'known: property=<id> match=/<regex>/ <what fails>'."""
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line)
            if m and m.group(1) == cid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def relevant(cid, v):
    return cid in v["props"] or ANY in v["props"]


def merge(results):
    count = Counter()
    buckets = {}
    sigs = set()
    samples = []
    evals = 0
    for r in results:
        evals += max(1, r["count"].get("cases", 1))
        for k, v in r["count"].items():
            if k != "cases":
                count[k] += v
        for k, v in r["buckets"].items():
            b = buckets.setdefault(k, set())
            b.update(v)
        if r["nontrivial"]:
            sigs.add(r["sig"])
    for r in results:
        if r["nontrivial"] and r["samples"] and len(samples) < 6 and r["ep_index"] in (0, 1, 2):
            samples.append({"workload": r["job"], **r["samples"][0]})
    if not samples:
        samples = [s for r in results for s in r["samples"]][:3]
    return evals, len(sigs), count, buckets, samples


def run_check(cid, tier, seed):
    from . import plans as checks
    spec = checks.CHECKS[cid]
    t0 = time.time()
    budget = float(os.environ.get("VF_BUDGET", "600" if tier == "thorough" else "0"))
    hard = t0 + (budget + 240 if tier == "thorough" else 700)
    results, problems = [], []
    rnd = 0
    found = []
    known = known_findings(cid)
    seen_known = {}
    while True:
        jobs = spec.plan(derive(seed, cid, tier, rnd), tier)
        for j in jobs:
            j["target"] = cid
            j["also"] = sorted(spec.also)
            if j.get("dut") and not j.get("insts") and j["workload"] != "vf.wl.ctor":
                j.setdefault("period", random.Random(derive(seed, cid, tier, rnd, len(j["episodes"]), jobs.index(j))).choice(PERIODS))
        r, p = simrun.run_jobs(jobs, hard, target=cid)
        results += r
        problems += p
        for x in r:
            for v in x["viol"]:
                if not relevant(cid, v):
                    continue
                text = v["msg"]
                for rx, what in known:
                    if rx.search(text):
                        seen_known[what] = True
                        break
                else:
                    found.append((x, v, jobs[x["job_index"]]))
            if x["harness"] and not x["viol"]:
                problems += x["harness"]
        rnd += 1
        if tier != "thorough" or found or problems or time.time() - t0 > budget:
            break
    evals, distinct, count, buckets, samples = merge(results)
    for rx, what in known:
        print(f"KNOWN-FINDING: property={cid} {what}")
    code = 0
    replays = []
    if found:
        x, v, job = found[0]
        rep = {"property": cid, "violation": v, "job": {k: job[k] for k in job if k != "episodes"}, "episode": x["cfg"]}
        h = hashlib.sha256(json.dumps(rep, sort_keys=True, default=str).encode()).hexdigest()[:10]
        d = ROOT / "replays"
        d.mkdir(exist_ok=True)
        path = d / f"{cid}-{h}.json"
        path.write_text(json.dumps(rep, indent=1))
        msgs = Counter(f[1]["msg"] for f in found)
        for m, n in msgs.most_common(6):
            print(f"  {n}x {m}")
        print(json.dumps(v, indent=1)[:3000])
        print(f"VIOLATION property={cid} replay={path.relative_to(ROOT)}")
        code = 1
    elif problems:
        uniq = Counter(problems)
        for p, n in uniq.most_common(2):
            print(f"CHECK ERROR: {n}x {p[-1800:]}")
        code = 2
    elif distinct < spec.minimum:
        print(f"CHECK ERROR: only {distinct} distinct non-trivial executions observed, expected {spec.minimum}")
        code = 2
    ev = {
        "property": cid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": spec.rule,
            "samples": samples,
            "rounds": rnd,
            "observed": {k: v for k, v in sorted(count.items())},
            "distinct_observed": {k: len(v) for k, v in sorted(buckets.items())},
        },
        "assumptions": spec.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(found),
    }
    d = ROOT / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{cid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    print(f"{cid} {tier}: {evals} executions, {distinct} distinct, {len(found)} violations, {ev['wall_s']} s"
          f" (exit {code})")
    return code


def replay(path):
    rep = json.loads(Path(path).read_text())
    job = rep["job"]
    job["episodes"] = [rep["episode"]]
    job["target"] = rep["property"]
    r, p = simrun.run_jobs([job], time.time() + 300)
    hit = False
    for x in r:
        for v in x["viol"]:
            if relevant(rep["property"], v):
                print(json.dumps(v, indent=1))
                hit = True
    for q in p:
        print("CHECK ERROR:", q)
    if hit:
        print(f"VIOLATION property={rep['property']} replay={path}")
        return 1
    return 2 if p else 0


def setup():
    bad = []
    for t in ("iverilog", "vvp"):
        if not shutil.which(t):
            bad.append(f"{t} not found")
    r = subprocess.run([f"{simrun.VENV}/bin/python", "-c", "import cocotb, cocotb_bus"], capture_output=True, text=True)
    if r.returncode:
        bad.append(r.stderr)
    if not Path(REPO, "cocotbext/axi/__init__.py").exists():
        bad.append(f"{REPO}/cocotbext/axi not found")
    for b in bad:
        print(b)
    print("setup ok" if not bad else "setup failed")
    return 1 if bad else 0


def main(argv):
    if argv[:1] == ["--setup"]:
        return setup()
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ids = [a for a in argv if not a.startswith("-")]
    from . import plans as checks
    code = 0
    for cid in ids or sorted(checks.CHECKS):
        c = run_check(cid, tier, seed)
        code = max(code, c) if code != 1 else 1
        sys.stdout.flush()
    return code

#!/usr/bin/env python3
"""Runs the harness peers against each other; exits 1 if any monitor reports anything."""
import random
import sys
import time
from collections import Counter
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
sys.dont_write_bytecode = True
from vf import duts, plans, simrun

rng = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
jobs = []
for _ in range(24):
    proto = rng.choice(["axi", "axi", "axil", "apb"])
    dw = rng.choice(plans.DWS)
    if proto == "axi":
        p = plans.axi_params(rng, dw)
        p["opt"] = sorted(set(p["opt"]) | {"wstrb"})
        dut = duts.axi("axi", dw, p["aw"], p["idw"], p["opt"], p["userw"])
    elif proto == "axil":
        p = plans.axil_params(rng, dw)
        dut = duts.axil("axil", dw, p["aw"], p["opt"])
    else:
        p = plans.apb_params(rng, dw)
        dut = duts.apb("apb", dw, p["aw"], p["opt"])
    eps = []
    for _ in range(10):
        st = [plans.slave_style(rng), plans.slave_style(rng)]
        st[0]["idle"] = rng.choice(["hold", "garbage", "zero"])
        st[1]["idle"] = rng.choice(["hold", "garbage", "zero"])
        eps.append({"seed": rng.getrandbits(48), "dutp": p, "proto": proto, "style": st[0], "style2": st[1], "n": rng.choice([5, 15, 30]),
                    "delays": [rng.choice([0, 1, 4, 7]), rng.choice([0, 1, 4, 7])]})
    jobs.append({"name": f"self/{proto}", "workload": "vf.wl.peers", "episodes": eps, "dut": dut, "target": None, "also": []})
r, problems = simrun.run_jobs(jobs, time.time() + 600)
bad = Counter(v["msg"] for x in r for v in x["viol"]) + Counter(p[-900:] for p in problems) + Counter(h for x in r for h in x["harness"])
for x in r:
    if x["viol"]:
        print(x["job"], x["cfg"]["style"], x["cfg"]["style2"], x["cfg"]["delays"], x["cfg"]["dutp"])
for m, n in bad.most_common(8):
    print(f"{n}x {m}")
print(f"{len(r)} executions, {sum(x['count'].get('transfers', 0) for x in r)} transfers, {sum(bad.values())} reports")
sys.exit(1 if bad else 0)

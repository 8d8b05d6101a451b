"""The registry of checks: for every property, how its workload episodes are drawn."""
import random

from . import duts

CHECKS = {}
NPROC = 8


class Spec:
    def __init__(self, cid, plan, rule, minimum, assumptions, technique, note, also=()):
        self.cid, self.plan, self.rule, self.minimum, self.assumptions = cid, plan, rule, minimum, assumptions
        self.technique, self.note = technique, note
        self.also = tuple(also)


BASE_ASSUME = [
    "Icarus Verilog and cocotb schedule and propagate the signals of the generated DUT correctly",
    "the harness peers in /verif/vf are compliant with the protocol (they are also run against each other's monitors)",
]


NOTE = ("Oracle observing seeded random executions of the real code; says nothing about executions not run. Trusts the "
        "simulator, cocotb, and the harness peers and oracles in /verif/vf.")


def check(cid, rule, minimum=20, assumptions=(), technique="online bus monitors and an offline trace oracle under random hostile workloads", note=NOTE,
          also=()):
    def deco(f):
        CHECKS[cid] = Spec(cid, f, rule, minimum, BASE_ASSUME + list(assumptions), technique, note, also)
        return f
    return deco


def tiers(tier, quick, thorough):
    return thorough if tier == "thorough" else quick


def subset(rng, names, p_all=0.5, p=0.6):
    if rng.random() < p_all:
        return list(names)
    return [n for n in names if rng.random() < p]


def spread(rng, values, n):
    """n values in random order using every value before any repeats."""
    out = []
    while len(out) < n:
        v = list(values)
        rng.shuffle(v)
        out += v
    return out[:n]


# ---------------------------------------------------------------- AXI master
DWS = [8, 16, 32, 64, 128, 256, 512, 1024]
LOGS = ["WARNING", "WARNING", "WARNING", "INFO", "DEBUG"]


def width(rng, what=""):
    """A data width: every one is used before any repeats."""
    d = rng.__dict__.setdefault("decks", {}).setdefault(what, [])
    if not d:
        d += rng.sample(DWS, len(DWS))
    return d.pop()


def axi_params(rng, dw, opt=None, aw=None):
    opt = subset(rng, duts.AXI_OPT) if opt is None else opt
    aws = [a for a in (10, 12, 13, 16, 20, 24, 31, 32, 40, 48, 64) if a >= 10]
    return {"dw": dw, "aw": aw or rng.choice(aws), "idw": rng.choice([1, 2, 3, 4, 5, 8, 9, 12, 16]), "opt": opt,
            "userw": rng.choice([1, 2, 4, 8, 16, 20, 32, 64, 100])}


def slave_style(rng, profile=None):
    """How hostile the slave BFM is in this episode."""
    profile = profile or rng.choice(["fast", "mixed", "mixed", "mixed", "slowresp", "slowcmd"])
    pick = {
        "fast": ["always", "always", "p90"],
        "mixed": ["always", "p90", "p50", "p20", "burst", "alternate", "after_valid", "long_stall"],
        "slow": ["p20", "burst", "long_stall", "after_valid"],
    }
    st = {}
    for k in ("aw", "w", "ar", "b", "r"):
        kind = "fast" if profile == "fast" else "mixed"
        if profile == "slowresp":
            kind = "slow" if k in ("b", "r") else "fast"
        if profile == "slowcmd":
            kind = "slow" if k in ("aw", "w", "ar") else "fast"
        st[k] = rng.choice(pick[kind])
    st["interleave"] = rng.choice([0, 0.2, 0.5, 1.0])
    st["reorder"] = rng.random() < 0.85
    st["err"] = rng.choice([0, 0, 0.03, 0.1, 0.3, 1.0]) if rng.random() < 0.5 else 0
    st["err_pattern"] = rng.choice(["any", "one_beat"])
    st["exclusive_ok"] = rng.random() < 0.3
    st["w_ahead"] = rng.choice([1, 2, 8, 10**9, 10**9])
    st["hold"] = rng.choice([0, 0, 0, 2, 4, 8])
    return st


def master_eps(rng, proto, p, neps, **over):
    eps = []
    for _ in range(neps):
        ep = {
            "seed": rng.getrandbits(48), "dutp": p, "proto": proto, "style": slave_style(rng, over.get("profile")),
            "nops": rng.choice([4, 8, 12, 20, 30]), "budget": rng.choice([120, 300, 500, 800]),
            "delay": rng.choice([0, 0, 0, 1, 4, 7]), "log": rng.choice(LOGS),
            "kinds": rng.choice(["wr", "wr", "wwr", "wrr", "w", "r"]),
            "p_blocking": rng.choice([0, 0.1, 0.5]), "p_init": rng.choice([0.2, 0.5, 0.9]),
            "split_if": rng.random() < 0.2,
            "ids": rng.choice([None, None, [0], [0, 1], [1, 2, 3]]),
            "explicit_id": rng.choice([0, 0.5, 0.9]),
            "rst": rng.random() < 0.8, "rst_level": int(rng.random() < 0.8),
            "invalid": rng.choice([0, 0, 0.1]), "pauses": rng.random() < 0.15,
        }
        ep["style"]["garbage"] = rng.random() < 0.8
        ep["style"]["idle"] = rng.choice(["hold", "garbage", "zero", "x"])
        for k, v in over.items():
            if k != "profile":
                ep[k] = v(rng) if callable(v) else v
        if rng.random() < ep.pop("p_flood", 0):
            # very many short operations outstanding at once
            ep.update(flood=True, nops=150, budget=400, big=max(2, p["dw"] // 8), kinds=rng.choice(["wr", "w", "r"]), p_blocking=0, ids=None,
                      explicit_id=rng.choice([0, 0.9]), fixed=0, wrap=0, pauses=False, phases=1, mbl=rng.choice([1, 16, 256]))
            ep["style"] = {**ep["style"], "aw": "always", "w": "always", "ar": "always", "hold": rng.choice([24, 48, 100])}
        eps.append(ep)
    return eps


def master_job(rng, proto, neps, p=None, **over):
    if proto == "axi":
        p = p or axi_params(rng, width(rng, "axi"))
        dut = duts.axi("axi", p["dw"], p["aw"], p["idw"], p["opt"], p["userw"])
    elif proto == "axil":
        p = p or axil_params(rng, width(rng, "axil"))
        dut = duts.axil("axil", p["dw"], p["aw"], p["opt"])
    else:
        p = p or apb_params(rng, width(rng, "apb"))
        dut = duts.apb("apb", p["dw"], p["aw"], p["opt"])
    return {"name": f"{proto}_master/{p['dw']}", "workload": "vf.wl.master", "episodes": master_eps(rng, proto, p, neps, **over),
            "dut": dut + [["rst", 1, 0], ["rst2", 1, 0]]}


def axil_params(rng, dw):
    return {"dw": dw, "aw": rng.choice([8, 10, 12, 16, 20, 32, 40, 64]), "opt": subset(rng, duts.AXIL_OPT)}


def apb_params(rng, dw):
    return {"dw": dw, "aw": rng.choice([8, 10, 12, 16, 20, 32, 40, 64]), "opt": subset(rng, duts.APB_OPT, 0.6, 0.5)}


def axi_master_plan(seed, tier, neps, **over):
    rng = random.Random(seed)
    jobs = []
    for i, dw in enumerate(spread(rng, DWS, tiers(tier, 24, 40))):
        jobs.append(master_job(rng, "axi", neps, axi_params(rng, dw), **over))
    return jobs


def lite_master_plan(proto, seed, tier, neps, **over):
    rng = random.Random(seed)
    par = axil_params if proto == "axil" else apb_params
    return [master_job(rng, proto, neps, par(rng, dw), **over) for dw in spread(rng, DWS, tiers(tier, 24, 40))]


def mixed_master_plan(seed, tier, neps, mix, **over):
    rng = random.Random(seed)
    n = tiers(tier, 24, 40)
    return [master_job(rng, pr, neps, **over) for pr in spread(rng, mix, n)]


def huge_master(seed, tier, kinds):
    """One or two operations of thousands of beats each."""
    rng = random.Random(seed ^ 0x48554745)
    return [master_job(rng, "axi", tiers(tier, 2, 4), axi_params(rng, dw, aw=rng.choice([32, 64])), profile="fast", huge=True, kinds=kinds, nops=3,
                       fixed=0, wrap=0, pauses=False, mbl=lambda r: r.choice([16, 256, 256])) for dw in rng.sample([8, 16, 32, 64], tiers(tier, 2, 4))]


def huge_lite(proto, seed, tier):
    """An operation of thousands of bytes each."""
    rng = random.Random(seed ^ 0x48554745)
    par = axil_params if proto == "axil" else apb_params
    return [master_job(rng, proto, tiers(tier, 3, 6), {**par(rng, dw), "aw": rng.choice([16, 20, 32, 64])}, profile="fast", huge=True, nops=4, pauses=False)
            for dw in rng.sample([16, 32, 64, 128], tiers(tier, 2, 4))]


MRULE = ("random operations (address near boundaries, size, burst type, length, ids, attributes, concurrency, API style) "
         "by the real AXI master against a randomised compliant slave BFM; an execution is non-trivial when at least two "
         "bursts were transferred, and distinct when its sequence of bursts with their times differs")


@check("C01", MRULE, 100)
def c01(seed, tier):
    return huge_master(seed, tier, "w") + axi_master_plan(seed, tier, 22, kinds=lambda r: r.choice(["w", "w", "wr", "wwr"]), long=lambda r: r.choice([0, 0.02, 0.15]),
                           fixed=lambda r: r.choice([0, 0.15]), wrap=lambda r: r.choice([0, 0.15]))


@check("C02", MRULE, 100)
def c02(seed, tier):
    return huge_master(seed, tier, "r") + axi_master_plan(seed, tier, 22, kinds=lambda r: r.choice(["r", "r", "wr", "wrr"]), long=lambda r: r.choice([0, 0.02, 0.15]),
                           fixed=lambda r: r.choice([0, 0.15]), wrap=lambda r: r.choice([0, 0.15]))


@check("C03", MRULE, 100)
def c03(seed, tier):
    return axi_master_plan(seed, tier, 24, profile="fast", long=lambda r: r.choice([0.02, 0.3]),
                           big=lambda r: r.choice([300, 1500, 5000]), budget=lambda r: r.choice([500, 1000]),
                           full_size=lambda r: r.choice([0.2, 0.6, 0.9]),
                           mbl=lambda r: r.choice([None, None, 256, 256, 256, 64, 16]))


@check("C04", MRULE, 100)
def c04(seed, tier):
    return axi_master_plan(seed, tier, 24, attrs=0.9, mbl=lambda r: r.choice([1, 2, 4, 16, 256]),
                           excl=lambda r: r.choice([0, 0.5]), only_absent=True, invalid=lambda r: r.choice([0, 0.5]))


@check("C05", MRULE, 100)
def c05(seed, tier):
    return axi_master_plan(seed, tier, 22, profile=None, nops=lambda r: r.choice([20, 40]), p_blocking=0, p_init=0.8, p_flood=0.1,
                           mbl=lambda r: r.choice([1, 2, 4, 16, 256]), budget=lambda r: r.choice([200, 400]),
                           big=lambda r: r.choice([60, 300]))


# ---------------------------------------------------------------- AXI slave
SMODES = ["ram", "ram", "ram_split", "spy", "region", "space"]


def slave_job(rng, proto, neps, p=None, modes=SMODES, need=(), **over):
    """One simulation of a slave/RAM of the given protocol; parameters are drawn unless given."""
    dw = p["dw"] if p else width(rng, proto)
    if proto == "axi":
        p = p or axi_params(rng, dw, aw=rng.choice([12, 13, 14, 16, 20, 32, 64]))
    elif proto == "axil":
        p = p or axil_params(rng, dw)
    else:
        p = p or apb_params(rng, dw)
    p["opt"] = sorted(set(p["opt"]) | set(need))
    if proto == "axi":
        return axi_slave_job(rng, f"axi_slave/{dw}", neps, p, modes, **over)
    eps = []
    for _ in range(neps):
        st = slave_style(rng, rng.choice(["fast", "mixed", "mixed", "slowresp", "slowcmd"]))
        st = {k: st[k] for k in ("aw", "w", "ar", "b", "r")}
        st["idle"] = rng.choice(["hold", "garbage", "zero", "x"])
        st["garbage"] = rng.random() < 0.8
        ep = {"seed": rng.getrandbits(48), "dutp": p, "style": st, "mode": rng.choice(modes), "proto": proto,
              "rst": rng.random() < 0.8, "rst_level": int(rng.random() < 0.8), "pauses": rng.random() < 0.15,
              "phases": rng.choice([1, 2, 3]), "ntrans": rng.choice([5, 20, 60]),
              "delay": rng.choice([0, 0, 0, 1, 4, 7]), "log": rng.choice(LOGS),
              "kinds": rng.choice(["wr", "wr", "wwr", "wrr", "w", "r"]), "tdelay": rng.choice(["none", "none", "rand"]),
              "wmodes": rng.choice([None, None, ["before"], ["after"], ["with"], ["any"]]),
              "size": rng.choice([1 << 8, 1 << 10, 1 << 12]), "hot": rng.choice([0.2, 0.8, 0.95])}
        for k, v in over.items():
            ep[k] = v(rng) if callable(v) else v
        ep["size"] = max(ep["size"], 256)
        if ep["mode"].startswith("ram") and rng.random() < 0.3:
            ep["size"] = 5 * ep["size"] // 4 if rng.random() < 0.5 and ep["size"] % 512 == 0 else ep["size"] * 3
        eps.append(ep)
    dut = duts.axil("axil", p["dw"], p["aw"], p["opt"]) if proto == "axil" else duts.apb("apb", p["dw"], p["aw"], p["opt"])
    return {"name": f"{proto}_slave/{dw}", "workload": "vf.wl.lite_slave", "episodes": eps, "dut": dut + [["rst", 1, 0], ["rst2", 1, 0]]}


def lite_slave_plan(proto, seed, tier, neps, modes=SMODES, need=(), **over):
    rng = random.Random(seed)
    par = axil_params if proto == "axil" else apb_params
    return [slave_job(rng, proto, neps, par(rng, dw), modes, need, **over) for dw in spread(rng, DWS, tiers(tier, 24, 40))]


def mixed_slave_plan(seed, tier, neps, mix, modes=SMODES, need=(), **over):
    rng = random.Random(seed)
    return [slave_job(rng, pr, neps if pr == "axi" else neps * 2, None, modes, need, **over) for pr in spread(rng, mix, tiers(tier, 24, 40))]


def axi_slave_job(rng, name, neps, p, modes, **over):
    eps = []
    for _ in range(neps):
        prof = rng.choice(["fast", "mixed", "mixed", "slowresp", "slowcmd"])
        st = slave_style(rng, prof)
        st = {k: st[k] for k in ("aw", "w", "ar", "b", "r")}
        st["idle"] = rng.choice(["hold", "garbage", "zero", "x"])
        ep = {"seed": rng.getrandbits(48), "dutp": p, "style": st, "mode": rng.choice(modes), "proto": "axi",
              "rst": rng.random() < 0.8, "rst_level": int(rng.random() < 0.8), "pauses": rng.random() < 0.15,
              "phases": rng.choice([1, 2, 3]), "nbursts": rng.choice([4, 10, 20]), "budget": rng.choice([60, 150, 300]),
              "delay": rng.choice([0, 0, 0, 1, 4, 7]), "log": rng.choice(LOGS),
              "kinds": rng.choice(["wr", "wr", "wwr", "wrr", "w", "r"]), "tdelay": rng.choice(["none", "none", "rand"]),
              "wmodes": rng.choice([None, None, ["before"], ["after"], ["with"], ["any"]]),
              "size": rng.choice([1 << 12, 1 << 13, 1 << 14]), "hot": rng.choice([0.2, 0.8, 0.95])}
        for k, v in over.items():
            ep[k] = v(rng) if callable(v) else v
        if ep["mode"].startswith("ram") and rng.random() < 0.3:
            ep["size"] = 5 * ep["size"] // 4 if rng.random() < 0.5 and ep["size"] % 512 == 0 else ep["size"] * 3
        eps.append(ep)
    return {"name": name, "workload": "vf.wl.axi_slave", "episodes": eps,
            "dut": duts.axi("axi", p["dw"], p["aw"], p["idw"], p["opt"], p["userw"]) + [["rst", 1, 0], ["rst2", 1, 0]]}


def axi_slave_plan(seed, tier, neps, modes, need=(), **over):
    rng = random.Random(seed)
    jobs = []
    for dw in spread(rng, DWS, tiers(tier, 24, 40)):
        p = axi_params(rng, dw, aw=rng.choice([12, 13, 14, 16, 20, 32, 64]))
        p["opt"] = sorted(set(p["opt"]) | set(need))
        jobs.append(axi_slave_job(rng, f"axi_slave/{dw}", neps, p, modes, **over))
    return jobs


SRULE = ("random legal bursts (type, size, length, alignment, strobes, W/AW order, gaps, ready patterns) by a compliant master "
         "BFM against the real AXI slave/RAM; non-trivial: at least two bursts; distinct: different bursts or handshake times")


@check("C07", SRULE, 100)
def c07(seed, tier):
    return axi_slave_plan(seed, tier, 14, ["ram", "ram", "ram_split", "spy", "region", "space"],
                          kinds=lambda r: r.choice(["w", "wr", "wwr"]))


@check("C08", SRULE, 100)
def c08(seed, tier):
    return axi_slave_plan(seed, tier, 14, ["ram", "ram_split", "spy", "spy", "region", "space"],
                          kinds=lambda r: r.choice(["r", "wr", "wrr"]))


@check("C09", SRULE, 100)
def c09(seed, tier):
    return axi_slave_plan(seed, tier, 14, ["ram", "spy", "ram_split", "region"], need=["bresp", "rresp"],
                          nbursts=lambda r: r.choice([20, 40, 80]), phases=lambda r: r.choice([1, 2]))


@check("C10", SRULE + "; faults are injected per bus word or by unmapped address ranges", 100)
def c10(seed, tier):
    return mixed_slave_plan(seed, tier, 10, ["axi", "axi", "axil", "apb"], ["spy", "spy", "space"], ["bresp", "rresp", "pslverr"],
                            faults=[0.02, 0.1, 0.3, 0.9, 0], size=lambda r: r.choice([1 << 12, 1 << 13]))


TRULE = ("random transfers (word-aligned and unaligned addresses, full, sparse and empty strobes, gaps, ready patterns, W/AW order) by "
         "a compliant master BFM against the real slave/RAM; non-trivial: at least two transfers; distinct: different transfers or times")


@check("C12", TRULE, 100)
def c12(seed, tier):
    return lite_slave_plan("axil", seed, tier, 22)


@check("C15", TRULE, 100)
def c15(seed, tier):
    return lite_slave_plan("apb", seed, tier, 22, pauses=lambda r: r.random() < 0.25)


@check("C23", SRULE + "; reset is asserted at random moments of random phases and at construction", 100)
def c23(seed, tier):
    return mixed_slave_plan(seed, tier, 10, ["axi", "axi", "axil", "apb"], rst=True, resets=True, phases=lambda r: r.choice([2, 3, 5]),
                            rst_at_start=lambda r: r.random() < 0.3, rst_level=lambda r: r.randrange(2),
                            nbursts=lambda r: r.choice([10, 20, 40]))


# ---------------------------------------------------------------- masters, all protocols
ERRS = lambda r: {**slave_style(r), "err": r.choice([0.02, 0.1, 0.3, 1.0]), "garbage": r.random() < 0.7}


@check("C06", MRULE + "; error and user values are random per response", 100)
def c06(seed, tier):
    return mixed_master_plan(seed, tier, 20, ["axi", "axi", "axil", "apb"], style=ERRS, rst=True, mbl=lambda r: r.choice([1, 1, 2, 4, 256]),
                             excl=lambda r: r.choice([0, 0.5]), zero=lambda r: r.choice([0.04, 0.04, 0.3]))


LRULE = ("random operations by the real master against a randomised compliant slave BFM of the same protocol; non-trivial: at "
         "least two transfers on the bus; distinct: different transfers or transfer times")


@check("C11", LRULE, 100)
def c11(seed, tier):
    return huge_lite("axil", seed, tier) + lite_master_plan("axil", seed, tier, 22)


@check("C13", LRULE, 100, technique="online APB protocol monitor on every clock edge under random hostile workloads")
def c13(seed, tier):
    return lite_master_plan("apb", seed, tier, 22, pauses=lambda r: r.random() < 0.6)


@check("C14", LRULE, 100)
def c14(seed, tier):
    return huge_lite("apb", seed, tier) + lite_master_plan("apb", seed, tier, 22)


@check("C20", LRULE + "; idle() is probed between all activity and wait() is called at random times", 100)
def c20(seed, tier):
    return mixed_master_plan(seed, tier, 22, ["axi", "axil", "apb"], probe_idle=True, probe_wait=True, phases=lambda r: r.choice([1, 2, 3, 5]), p_flood=0.08,
                             budget=lambda r: r.choice([60, 150, 300]), nops=lambda r: r.choice([8, 20, 40]),
                             split_if=lambda r: r.random() < 0.4)


@check("C21", LRULE + "; invalid requests of every kind are mixed in", 100)
def c21(seed, tier):
    return mixed_master_plan(seed, tier, 22, ["axi", "axi", "axil", "apb"], invalid=lambda r: r.choice([0.5, 1.0]), probe_idle=True,
                             budget=lambda r: r.choice([60, 150, 300]), nops=lambda r: r.choice([20, 40]),
                             split_if=lambda r: r.random() < 0.4)


@check("C22", LRULE + "; reset is asserted at random moments of random phases and at construction", 100)
def c22(seed, tier):
    return mixed_master_plan(seed, tier, 16, ["axi", "axi", "axil", "apb"], rst=True, resets=True, phases=lambda r: r.choice([2, 3, 5]),
                             rst_at_start=lambda r: r.random() < 0.3, rst_level=lambda r: r.randrange(2), probe_idle=lambda r: r.random() < 0.5,
                             budget=lambda r: r.choice([200, 500]), nops=lambda r: r.choice([8, 20, 40]), p_blocking=lambda r: r.choice([0, 0.1]),
                             split_if=lambda r: r.random() < 0.3)


# ---------------------------------------------------------------- generic streams
AXI_CH = {"AxiAW": ("axi", "aw", ["awid", "awaddr", "awlen", "awsize", "awburst"], ["awlock", "awcache", "awprot", "awqos", "awregion", "awuser"]),
          "AxiW": ("axi", "w", ["wdata", "wlast"], ["wstrb", "wuser"]),
          "AxiB": ("axi", "b", ["bid"], ["bresp", "buser"]),
          "AxiAR": ("axi", "ar", ["arid", "araddr", "arlen", "arsize", "arburst"], ["arlock", "arcache", "arprot", "arqos", "arregion", "aruser"]),
          "AxiR": ("axi", "r", ["rid", "rdata", "rlast"], ["rresp", "ruser"]),
          "AxiLiteAW": ("axil", "aw", ["awaddr"], ["awprot"]),
          "AxiLiteW": ("axil", "w", ["wdata"], ["wstrb"]),
          "AxiLiteB": ("axil", "b", [], ["bresp"]),
          "AxiLiteAR": ("axil", "ar", ["araddr"], ["arprot"]),
          "AxiLiteR": ("axil", "r", ["rdata"], ["rresp"])}
CH_W = {"len": 8, "size": 3, "burst": 2, "lock": 1, "cache": 4, "prot": 3, "qos": 4, "region": 4, "resp": 2, "last": 1}


def stream_def(rng):
    """A random stream definition, or one of the AXI channels."""
    if rng.random() < 0.35:
        n = rng.choice(sorted(AXI_CH))
        pfx, ch, req, opt = AXI_CH[n]
        present = req + [o for o in opt if rng.random() < 0.6]
        w = {}
        for f in req + opt:
            k = f[len(ch):] if f.startswith(ch) else f
            w[f] = CH_W.get(k) or (rng.choice([8, 32, 64, 128, 1024]) if k in ("data", "addr") else rng.choice([1, 2, 4, 8, 32]))
        return {"name": n, "builtin": n, "prefix": rng.choice([pfx, "s_" + pfx, "m"]), "fields": req + opt, "present": present, "widths": w,
                "valid": ch + "valid", "ready": ch + "ready", "has_valid": True, "has_ready": True}
    nf = rng.randrange(1, 6)
    names = rng.sample(["data", "last", "hdr", "user", "addr", "flags", "x0", "sop", "len", "chan"], nf)
    k = rng.randrange(1, nf + 1)
    req, opt = names[:k], names[k:]
    present = req + [o for o in opt if rng.random() < 0.6]
    w = {f: rng.choice([1, 2, 3, 8, 13, 32, 64, 65, 512]) for f in names}
    d = {"name": rng.choice(["Foo", "Desc", "Hdr"]), "prefix": rng.choice(["s", "foo_in"]), "fields": names, "present": present, "widths": w}
    style = rng.choice(["suffix", "suffix", "named", "outside", "noready", "optready", "novalid"])
    sig = list(req)
    d["valid"], d["ready"] = ("dvalid", "dready") if style not in ("named", "outside") else ("vld", "rdy")
    d["has_valid"], d["has_ready"] = style != "novalid", style != "noready"
    if style == "optready":
        d["has_ready"] = rng.random() < 0.5
    d["optional_signals"] = list(opt)
    if style in ("suffix", "optready", "noready"):
        sig.insert(rng.randrange(len(sig) + 1), "dvalid")
        if style == "suffix":
            sig.insert(rng.randrange(len(sig) + 1), "dready")
        else:
            d["optional_signals"] += ["dready"]
    elif style == "novalid":
        if rng.random() < 0.5:
            sig.append("dready")
        else:
            d["has_ready"] = rng.random() < 0.5
            d["optional_signals"] += ["dready"]
    else:
        d["valid_signal"], d["ready_signal"] = "vld", "rdy"
        if style == "named":
            sig += ["vld", "rdy"]
    d["signals"] = sig
    if rng.random() < 0.5:
        d["signal_widths"] = {f: w[f] for f in names if rng.random() < 0.5}
    return d


def stream_jobs(rng, n, neps, **over):
    jobs = []
    for _ in range(n):
        d = stream_def(rng)
        pfx = d["prefix"] + "_"
        sigs = [[pfx + f, d["widths"][f], 0] for f in d["present"]]
        if d["has_valid"]:
            sigs.append([pfx + d["valid"], 1, 0])
        if d["has_ready"]:
            sigs.append([pfx + d["ready"], 1, 0])
        d["dut_signals"] = [s[0] for s in sigs]
        eps = []
        for _ in range(neps):
            ep = {"seed": rng.getrandbits(48), "def": d, "mode": rng.choice(["src", "snk", "pair", "pair"]) if d["has_valid"] else "snk",
                  "slimit": rng.choice([-1, -1, 1, 2, 3, 8]), "klimit": rng.choice([-1, -1, 1, 2, 3, 8]),
                  "nitems": rng.choice([10, 40, 120]), "pauses": rng.random() < 0.4, "resets": rng.random() < 0.15,
                  "clears": rng.random() < 0.2, "rst": rng.random() < 0.7, "rst_level": int(rng.random() < 0.7),
                  "rst_at_start": rng.random() < 0.15, "p_nowait": rng.choice([0, 0.4, 1]), "monitors": rng.choice([0, 1, 1, 2]),
                  "vstyle": rng.choice(["always", "p90", "p50", "p20", "burst", "long_stall", "alternate"]),
                  "rstyle": rng.choice(["always", "p90", "p50", "p20", "burst", "long_stall", "after_valid", "alternate"]),
                  "delay": rng.choice([0, 0, 1, 4, 7]), "log": rng.choice(LOGS), "idle": rng.choice(["hold", "garbage", "zero", "x"])}
            for k, v in over.items():
                ep[k] = v(rng) if callable(v) else v
            eps.append(ep)
        jobs.append({"name": f"stream/{d['name']}", "workload": "vf.wl.streams", "episodes": eps, "dut": sigs + [["rst", 1, 0], ["rst2", 1, 0]]})
    return jobs


STRULE = ("random stream definitions (fields, widths, optional signals, valid/ready naming, with and without them) and all AXI channels, "
          "source/sink/monitors with random limits, traffic, pauses, clears and resets; non-trivial: at least two transfers; distinct: "
          "different stream, number of transfers, cycles and received items")


@check("C17", STRULE, 100)
def c17(seed, tier):
    rng = random.Random(seed)
    return stream_jobs(rng, tiers(tier, 36, 60), 20)


# ---------------------------------------------------------------- AXI stream
def axis_params(rng, need=()):
    bs = rng.choice([8, 8, 8, 8, 1, 4, 9, 10, 16, 32])
    lanes = rng.choice([1, 2, 3, 4, 5, 8, 16, 32, 64]) if bs == 8 else rng.choice([1, 2, 3, 4, 8])
    opt = subset(rng, duts.AXIS_OPT, 0.3, 0.7)
    opt = [o for o in duts.AXIS_OPT if o in opt or o in need or o == "tvalid" and rng.random() < 0.8]
    return {"lanes": lanes, "bs": bs, "opt": opt, "sw": {k: rng.choice([1, 4, 8, 16, 64]) for k in ("tid", "tdest", "tuser")}}


def axis_jobs(rng, n, neps, modes=("src", "snk", "pair", "pair", "mon"), need=(), **over):
    jobs = []
    for _ in range(n):
        p = axis_params(rng, need)
        dut = duts.axis("axis", p["lanes"] * p["bs"], p["lanes"], p["opt"], p["sw"]["tid"], p["sw"]["tdest"], p["sw"]["tuser"])
        eps = []
        for _ in range(neps):
            lim = lambda: (rng.choice([-1, -1, 1, 10, 50, 200]), rng.choice([-1, -1, 1, 2, 4]))
            ep = {"seed": rng.getrandbits(48), "dutp": p, "mode": rng.choice(modes) if "tvalid" in p["opt"] else rng.choice(["snk", "mon"]),
                  "slimit": lim(), "klimit": lim(), "nframes": rng.choice([5, 15, 40]), "pauses": rng.random() < 0.3,
                  "resets": rng.random() < 0.15, "clears": rng.random() < 0.15, "rst": rng.random() < 0.7,
                  "rst_level": int(rng.random() < 0.7), "rst_at_start": rng.random() < 0.15, "p_nowait": rng.choice([0, 0.4, 1]),
                  "monitors": rng.choice([0, 1, 1, 2]), "rxstyle": rng.choice(["recv", "recv", "read"]),
                  "vstyle": rng.choice(["always", "p90", "p50", "p20", "burst", "long_stall", "alternate"]),
                  "rstyle": rng.choice(["always", "p90", "p50", "p20", "burst", "long_stall", "after_valid", "alternate"]),
                  "delay": rng.choice([0, 0, 1, 4, 7]), "log": rng.choice(LOGS), "idle": rng.choice(["hold", "garbage", "zero", "x"])}
            for k, v in over.items():
                ep[k] = v(rng) if callable(v) else v
            eps.append(ep)
        jobs.append({"name": f"axis/{p['lanes']}x{p['bs']}", "workload": "vf.wl.axis", "episodes": eps, "dut": dut + [["rst", 1, 0], ["rst2", 1, 0]]})
    return jobs


ARULE = ("random frames (lengths, byte sizes, sideband forms) and beat sequences through AXI stream source, sink and monitors with random "
         "signals, limits, pauses, clears and resets; non-trivial: at least two beats; distinct: different frames or times")


def axis_plan(seed, tier, neps=20, **over):
    return axis_jobs(random.Random(seed), tiers(tier, 36, 60), neps, **over)


def hoarding(seed, p, jobs):
    """Nobody fetches the frames for a long time in some of the episodes."""
    rng = random.Random(seed + 1)
    for j in jobs:
        for ep in j["episodes"]:
            if rng.random() < p:
                ep.update(hoard=rng.choice([1000, 3000, 6000]), nframes=150, clears=False, resets=False, pauses=False, vstyle="always", rstyle="always",
                          klimit=rng.choice([(-1, -1), (-1, -1), (-1, 100), (9000, -1)]), slimit=rng.choice([(-1, -1), (4000, 40)]))
    return jobs


@check("C24", ARULE, 100)
def c24(seed, tier):
    return axis_plan(seed, tier, modes=["src", "snk", "pair", "pair"], need=["tvalid"], resets=True, rst_at_start=lambda r: r.random() < 0.3,
                     nframes=lambda r: r.choice([15, 40]))


@check("C25", ARULE, 100)
def c25(seed, tier):
    return axis_plan(seed, tier, modes=["pair"], need=["tvalid"])


@check("C26", ARULE, 100)
def c26(seed, tier):
    return axis_plan(seed, tier, modes=["src", "src", "pair"], need=["tvalid"])


@check("C27", ARULE, 100)
def c27(seed, tier):
    return axis_plan(seed, tier, modes=["snk", "snk", "mon", "pair"], rxstyle="recv", monitors=lambda r: r.choice([1, 2]))


@check("C28", ARULE, 100)
def c28(seed, tier):
    lim = lambda r: (r.choice([-1, -1, 1, 10, 50, 200, 300, 1000, 4000]), r.choice([-1, -1, 1, 2, 4, 9, 20]))
    jobs = axis_plan(seed, tier, need=["tvalid"], clears=lambda r: r.random() < 0.3, slimit=lim, klimit=lim, nframes=lambda r: r.choice([5, 15, 40, 80]))
    return hoarding(seed, 0.15, jobs)


@check("C29", ARULE, 100)
def c29(seed, tier):
    return axis_plan(seed, tier, modes=["src", "src", "pair", "snk"], need=["tvalid"], clears=lambda r: r.random() < 0.25,
                     resets=lambda r: r.random() < 0.25)


@check("C31", ARULE, 100)
def c31(seed, tier):
    return hoarding(seed, 0.1, axis_plan(seed, tier, modes=["snk", "pair", "mon"], need=["tvalid"], rxstyle="read", monitors=lambda r: r.choice([0, 1, 2])))


# ---------------------------------------------------------------- every driven channel
def channel_jobs(seed, tier, neps, pick=None, **over):
    """Jobs over all models that drive or accept channels."""
    rng = random.Random(seed)
    jobs = []
    n = tiers(tier, 4, 8)
    jobs += stream_jobs(rng, n, neps, **over)
    jobs += axis_jobs(rng, n, neps, need=["tvalid"], **over)
    for pr in spread(rng, pick or ["axi", "axi", "axil"], n + n // 2):
        jobs.append(master_job(rng, pr, neps, **over))
    for pr in spread(rng, pick or ["axi", "axi", "axil"], n + n // 2):
        jobs.append(slave_job(rng, pr, neps, **over))
    return jobs


CRULE = ("random traffic through generic streams, AXI channels, AXI streams, AXI and AXI-Lite masters and slaves against compliant peers "
         "with random stalls, pauses, clears and resets; non-trivial: at least two transfers; distinct: different transfers or times")


@check("C16", CRULE, 100, technique="online signal stability monitor on every driven channel under random hostile workloads")
def c16(seed, tier):
    return channel_jobs(seed, tier, 18, pauses=lambda r: r.random() < 0.4, clears=lambda r: r.random() < 0.3)


@check("C18", CRULE + "; pauses and pause generators on every channel", 100,
       also=["C01", "C02", "C05", "C07", "C08", "C09", "C11", "C12", "C14", "C15", "C17", "C25", "C26", "C27"])
def c18(seed, tier):
    return channel_jobs(seed, tier, 18, pick=["axi", "axi", "axil", "axil", "apb"], pauses=True)


# ---------------------------------------------------------------- whole systems
def sys_bus(rng, pfx, size, narrow=False):
    proto = rng.choice(["axi", "axi", "axil", "apb"])
    dw = rng.choice(DWS[:5]) if narrow else width(rng, proto)
    aw = rng.choice([max(12, (size - 1).bit_length()), 16, 20, 32, 64])
    return {"proto": proto, "pfx": pfx, "dw": dw, "aw": aw, "idw": rng.choice([1, 2, 4, 8]), "mbl": rng.choice([None, None, 1, 2, 4, 16])}


def sys_dut(rng, d, full=False):
    if d["proto"] == "axi":
        return duts.axi(d["pfx"], d["dw"], d["aw"], d["idw"], None if full or rng.random() < 0.5 else
                        [o for o in duts.AXI_OPT if o == "wstrb" or rng.random() < 0.5])
    if d["proto"] == "axil":
        return duts.axil(d["pfx"], d["dw"], d["aw"], None if full or rng.random() < 0.5 else
                         [o for o in duts.AXIL_OPT if o == "wstrb" or rng.random() < 0.5])
    return duts.apb(d["pfx"], d["dw"], d["aw"], None if full or rng.random() < 0.5 else [])


def system_jobs(seed, tier, mode, neps):
    rng = random.Random(seed)
    jobs = []
    for _ in range(tiers(tier, 24, 48)):
        size = rng.choice([256, 512, 1024, 4096, 8192] if mode == "bridge" else [512, 1024, 4096, 8192])
        dut, ports = [], []
        for i in range(rng.choice([1, 2, 2, 3])):
            depth = 1 if mode == "ram" else rng.choice([0, 1, 1, 2, 2, 3])
            direct = mode == "bridge" and (depth == 0 or rng.random() < 0.25)
            bs = [sys_bus(rng, f"p{i}b{j}", size, narrow=True) for j in range(depth)]
            for b in bs:
                dut += sys_dut(rng, b, full=mode == "bridge")
            ports.append({"name": f"p{i}", "busses": bs, "direct": direct})
        eps = []
        for _ in range(neps):
            eps.append({"seed": rng.getrandbits(48), "mode": mode, "size": size,
                        "kind": rng.choice(["mmap", "sparse"] if mode == "ram" else ["store", "store", "store", "mmap", "sparse"]),
                        "store_style": rng.choice(["sync", "sync_ba", "async", "task", "awaitable"]), "store_delay": rng.random() < 0.5,
                        "ports": [{**p, "users": rng.choice([1, 1, 2]), "nops": rng.choice([4, 10, 25])} for p in ports],
                        "faults": mode == "bridge" and rng.random() < 0.3, "pauses": rng.random() < 0.3, "hot": rng.choice([0, 0.7, 0.95]),
                        "p_block": rng.choice([0, 0.3, 1]), "gap": rng.choice([0.2, 1, 3]), "backdoor": rng.random() < 0.5,
                        "big": rng.choice([20, 80, 200]), "log": rng.choice(LOGS)})
        jobs.append({"name": f"system/{mode}", "workload": "vf.wl.system", "episodes": eps, "dut": dut + [["rst", 1, 0], ["rst2", 1, 0]]})
    return jobs


@check("C19", "random concurrent operations of one to three masters (AXI, AXI-Lite, APB) and backdoor accesses on one shared memory; non-trivial: "
       "at least four operations; distinct: different operations or times", 100,
       technique="offline per-byte linearizability checker over recorded histories of concurrent operations")
def c19(seed, tier):
    return system_jobs(seed, tier, "ram", 14)


@check("C37", "random chains of masters, slaves, address spaces, windows and peripherals (up to three busses deep, one to three ports) in front of "
       "one storage; non-trivial: at least four operations; distinct: different operations or times", 100,
       technique="offline exactly-once counting and per-byte linearizability checking over recorded access histories")
def c37(seed, tier):
    return system_jobs(seed, tier, "bridge", 12)


# ---------------------------------------------------------------- pure Python parts
def pure_jobs(seed, tier, workload, n, **over):
    rng = random.Random(seed)
    jobs = []
    for _ in range(NPROC):
        eps = []
        for _ in range(tiers(tier, 45, 80)):
            ep = {"seed": rng.getrandbits(48), "n": n}
            for k, v in over.items():
                ep[k] = v(rng) if callable(v) else v
            eps.append(ep)
        jobs.append({"name": workload, "workload": f"vf.wl.{workload}", "pure": True, "episodes": eps})
    return jobs


MODEL = "differential oracle (independent reference model) observing random call histories of the real code"


@check("C30", "random frames (data types, sideband forms and lengths) through construction, copying, normalize, compact and comparison; "
       "distinct: different sequences of frames", 100, technique=MODEL)
def c30(seed, tier):
    return pure_jobs(seed, tier, "frames", 150)


@check("C38", "random data, address, length, row size, prefix and offset through the dump functions and all dump methods; distinct: "
       "different sequences of dumps", 100, technique=MODEL)
def c38(seed, tier):
    return pure_jobs(seed, tier, "hexd", 25)


@check("C32", "random address maps (regions with offsets, untranslated and repeated regions, nested spaces, pools, up to 2**64 bytes) and random "
       "accesses around every edge, alone and concurrent; distinct: different maps", 100, technique=MODEL)
def c32(seed, tier):
    return pure_jobs(seed, tier, "addrmap", 40)


@check("C33", "random chains of windows and pools on interfaces, regions and nested address spaces, random accesses and window creations inside and "
       "outside, also on bus masters over RAM models; distinct: different windows", 100, technique=MODEL)
def c33(seed, tier):
    return pure_jobs(seed, tier, "windows", 40) + ram64_jobs(seed + 2, tier, 8)


@check("C34", "random histories of allocations and frees on buddy allocators (1 to 2**64 bytes, any size), window pools and region pools; distinct: "
       "different histories", 100, technique=MODEL)
def c34(seed, tier):
    return pure_jobs(seed, tier, "alloc", 30)


def ram64_jobs(seed, tier, neps):
    rng = random.Random(seed + 7)
    jobs = []
    for _ in range(tiers(tier, 8, 24)):
        size = rng.choice([2**64, 2**64, 2**64, 2**48, 2**33 + 4096 * 3, 8192, 4096])
        aws = [w for w in (64, 64, (size - 1).bit_length()) if 1 << w >= size and (1 << w == size or size >= 4096)]
        busses, dut = [], []
        for i in range(rng.choice([1, 2, 3])):
            b = sys_bus(rng, f"p{i}", 8192)
            b["aw"] = rng.choice([w for w in aws if 1 << w <= max(size, 2**12)] or [(size - 1).bit_length()])
            b["aw"] = max(12, min(64, b["aw"]))
            busses.append(b)
            dut += sys_dut(rng, b, full=True)
        eps = [{"seed": rng.getrandbits(48), "size": size, "busses": busses, "nops": rng.choice([20, 40]), "maxn": 300, "log": rng.choice(LOGS)}
               for _ in range(neps)]
        jobs.append({"name": "ram64", "workload": "vf.wl.ram64", "episodes": eps, "dut": dut + [["rst", 1, 0], ["rst2", 1, 0]]})
    return jobs


@check("C35", "random accesses through every path of sparse memories, regions and RAM models, alone and sharing a backing store, across page "
       "boundaries, up to 2**64 bytes, and over one to three busses with RAM models sharing one memory; distinct: different access sequences", 100, technique=MODEL)
def c35(seed, tier):
    return pure_jobs(seed, tier, "memories", 12, part="flat") + ram64_jobs(seed, tier, 12)


@check("C36", "random word accessor calls (word size, count, order, values, extra arguments) on every memory interface, bus masters and RAM models; distinct: different calls",
       100, technique=MODEL)
def c36(seed, tier):
    return pure_jobs(seed, tier, "memories", 25, part="words") + ram64_jobs(seed + 1, tier, 12)


# ---------------------------------------------------------------- independence of instances
def multi_jobs(seed, tier, neps):
    rng = random.Random(seed)
    jobs = []

    def one(kind):
        over = {"pauses": lambda r: r.random() < 0.4, "resets": lambda r: r.random() < 0.35, "rst_at_start": lambda r: r.random() < 0.2,
                "rst": True}
        if kind in ("axi_m", "axil_m", "apb_m"):
            return master_job(rng, kind[:-2], neps, phases=lambda r: r.choice([1, 2, 3]), probe_idle=lambda r: r.random() < 0.5,
                              probe_wait=lambda r: r.random() < 0.5, invalid=lambda r: r.choice([0, 0.2]), **over)
        if kind in ("axi_s", "axil_s", "apb_s"):
            return slave_job(rng, kind[:-2], neps, phases=lambda r: r.choice([1, 2, 3]), faults=[0, 0, 0.1], **over)
        if kind == "axis":
            return axis_jobs(rng, 1, neps, need=["tvalid"], clears=lambda r: r.random() < 0.2, **over)[0]
        return stream_jobs(rng, 1, neps, clears=lambda r: r.random() < 0.2, **over)[0]
    for _ in range(tiers(tier, 24, 40)):
        kinds = ["axi_m", "axil_m", "apb_m", "axi_s", "axil_s", "apb_s", "axis", "axis", "stream"]
        pick = [rng.choice(kinds) for _ in range(rng.choice([2, 3, 3, 4]))]
        if rng.random() < 0.6:
            pick[1] = pick[0]
        insts = [one(k) for k in pick]
        if pick[1] == pick[0] and rng.random() < 0.6:          # an identical twin, with other traffic
            eps = [dict(e, seed=rng.getrandbits(48)) for e in insts[0]["episodes"]]
            insts[1] = dict(insts[0], episodes=eps)
        per = [rng.choice([10, 10, 10, 12, 14, 20, 34]) for _ in insts]
        eps = [{"seed": rng.getrandbits(48), "log": rng.choice(LOGS),
                "insts": [dict(j["episodes"][e], wl=j["workload"], period=per[i]) for i, j in enumerate(insts)]} for e in range(neps)]
        jobs.append({"name": "multi/" + "+".join(pick), "workload": "vf.wl.multi", "episodes": eps, "dut": [], "max_ns": 8_000_000,
                     "insts": [{"dut": j["dut"], "period": per[i]} for i, j in enumerate(insts)]})
    return jobs


@check("C39", "two to four models (masters, slaves, streams of every kind, often of the same class) with their own busses, clocks, resets and peers in "
       "one simulation, each judged by all oracles of its kind; non-trivial: at least two instances with traffic; distinct: different transfers or times",
       40, technique="all bus monitors and trace oracles at once, one set per instance, under concurrent independent random hostile workloads")
def c39(seed, tier):
    return multi_jobs(seed, tier, 7)


# ---------------------------------------------------------------- assert_reset()
@check("C41", "models of every kind (masters and slaves of all protocols, streams, AXI streams) whose reset is asserted by assert_reset(), or alternately by it "
       "and by their reset signal, at random moments and from the beginning; non-trivial: as the workload of the kind; distinct: different transfers or times",
       100, technique="all bus monitors and trace oracles of the reset properties, under resets by call, by signal and by both",
       also=("C16", "C17", "C22", "C23", "C24", "C28", "C29", "C20", "C05", "C11", "C12", "C13", "C14", "C15", "C01", "C02", "C07", "C08", "C09", "C26", "C27"))
def c41(seed, tier):
    rng = random.Random(seed)
    by = {"reset_by": lambda r: r.choice(["call", "call", "both", "both", "both", "signal"]), "resets": True, "rst": True,
          "rst_at_start": lambda r: r.random() < 0.3, "rst_level": lambda r: r.randrange(2)}
    n = tiers(tier, 2, 2)
    ph = lambda r: r.choice([2, 3, 5])
    jobs = axis_jobs(rng, 4 * n, 20, modes=["src", "snk", "pair", "pair"], need=["tvalid"], nframes=lambda r: r.choice([15, 40]), **by)
    jobs += stream_jobs(rng, 4 * n, 20, **by)
    for proto in ["axi", "axil", "apb", "apb"] * n:
        jobs.append(master_job(rng, proto, 12, phases=ph, probe_idle=lambda r: r.random() < 0.5, nops=lambda r: r.choice([8, 20, 40]), **by))
        jobs.append(slave_job(rng, proto, 8, phases=ph, **by))
    return jobs


# ---------------------------------------------------------------- construction
FIXED = {"len": 8, "size": 3, "burst": 2, "lock": 1, "cache": 4, "prot": 3, "qos": 4, "region": 4, "last": 1, "resp": 2, "valid": 1, "ready": 1}


def other_width(rng, w):
    return rng.choice([x for x in (1, 2, 3, 4, 5, 7, 8, 9, 16) if x != w])


def ctor_design(rng):
    proto = rng.choice(["axi", "axi", "axil", "apb", "axis"])
    d = {"proto": proto, "style": rng.choice(["whole", "whole", "channels", "parts"]), "prefix": rng.choice([None, "s", "s_axi", "m0"]),
         "case": rng.random() < 0.2, "bad": "", "seed": rng.getrandbits(48)}
    d["sep"] = rng.choice(["_", "_", "_", "__", ""]) if d["prefix"] else "_"
    if proto == "axis":
        p = axis_params(rng)
        d["dw"], d["lanes"] = p["lanes"] * p["bs"], p["lanes"]
        sigs = duts.axis("x", d["dw"], p["lanes"], p["opt"], p["sw"]["tid"], p["sw"]["tdest"], p["sw"]["tuser"])
        d["model"] = rng.choice(["source", "sink", "monitor"])
        keep = "tkeep" in p["opt"]
        d["has_valid"] = "tvalid" in p["opt"]
        if not keep:
            y = rng.random()
            if d["dw"] % 8 == 0 and y < 0.3:
                d["lanes"] = d["dw"] // 8
            elif y < 0.6:
                d["byte_lanes"] = p["lanes"]
            else:
                d["byte_size"] = p["bs"]
    else:
        if proto == "axi":
            p = axi_params(rng, width(rng, "axi"), aw=rng.choice([12, 16, 32, 64]))
            sigs = duts.axi("x", p["dw"], p["aw"], p["idw"], p["opt"], p["userw"])
        elif proto == "axil":
            p = axil_params(rng, width(rng, "axil"))
            p["aw"] = max(p["aw"], 10)
            sigs = duts.axil("x", p["dw"], p["aw"], p["opt"])
        else:
            p = apb_params(rng, width(rng, "apb"))
            p["aw"] = max(p["aw"], 10)
            sigs = duts.apb("x", p["dw"], p["aw"], p["opt"])
        d["dw"], d["aw"] = p["dw"], p["aw"]
        d["model"] = rng.choice(["master", "slave", "ram"])
        d["parts"] = rng.choice(["", "", "split", "write", "read"]) if proto != "apb" else ""
    sigs = [[n[2:], w, i] for n, w, i in sigs]
    if proto in ("axi", "axil") and d["parts"] in ("write", "read"):
        rd = lambda n: n[0] == "r" or n[:2] == "ar"
        sigs = [s for s in sigs if rd(s[0]) == (d["parts"] == "read")]
    byname = {s[0]: s for s in sigs}
    if rng.random() < 0.55:
        opts = {"axi": duts.AXI_OPT, "axil": duts.AXIL_OPT, "apb": duts.APB_OPT, "axis": duts.AXIS_OPT}[proto]
        bad = [("missing", n) for n in byname if n not in opts]
        if proto in ("axi", "axil"):
            bad += [("width", n) for n in byname if any(n.endswith(k) for k in FIXED) and n[:1] in "awbr"] * 2
            bad += [("strobe", n) for n in byname if n == "wstrb"] * 6
            bad += [("odd data", n) for n in byname if n in ("wdata", "rdata")] * 2
            bad += [("id", n) for n in byname if n in ("awid", "bid", "arid", "rid")] * 3
        elif proto == "apb":
            bad += [("strobe", "pstrb"), ("odd data", "pwdata")] * 3
        else:
            bad += [("both", ""), ("keep and option", ""), ("uneven", "")] * 3
        what, n = rng.choice(bad)
        d["bad"] = f"{what} {n}".strip()
        if what == "missing":
            del byname[n]
        elif what == "width":
            byname[n][1] = other_width(rng, byname[n][1])
        elif what == "strobe":
            byname[n][1] = other_width(rng, byname[n][1])
        elif what == "odd data":
            byname[n][1] += rng.choice([1, 4, 7])
        elif what == "id":
            byname[n][1] += 1
        elif what == "both":
            byname.pop("tkeep", None)
            d["byte_lanes"], d["byte_size"] = d["lanes"], d["dw"] // d["lanes"]
        elif what == "keep and option":
            byname["tkeep"] = ["tkeep", d["lanes"], 0]
            d.pop("byte_lanes", None), d.pop("byte_size", None)
            d.update(rng.choice([{"byte_lanes": d["lanes"]}, {"byte_size": d["dw"] // d["lanes"]}]))
        elif what == "uneven":
            d.pop("byte_lanes", None), d.pop("byte_size", None)
            n = next(k for k in (rng.randrange(2, 9), 3, 5, 7, 11, 13, d["dw"] + 1) if d["dw"] % k)
            y = rng.choice(["tkeep", "byte_lanes", "byte_size"])
            if y == "tkeep":
                byname["tkeep"] = ["tkeep", n, 0]
            else:
                byname.pop("tkeep", None)
                d[y] = n
    d["sigs"] = list(byname.values())
    return d


def ctor_jobs(seed, tier):
    rng = random.Random(seed)
    jobs = []
    for _ in range(tiers(tier, 48, 96)):
        designs = [ctor_design(rng) for _ in range(12)]
        insts = []
        for k, d in enumerate(designs):
            d["inst"] = k
            pre = "" if d["prefix"] is None else d["prefix"] + d["sep"]
            extra = [[n, rng.choice([1, 8]), 0] for n in ("xs_awid", "s2_tdata", "s_axi2_awaddr", "m01_wdata") if d["prefix"]]
            insts.append({"dut": [[pre + n, w, i] for n, w, i in d["sigs"]] + extra, "period": 10})
        jobs.append({"name": "construct", "workload": "vf.wl.ctor", "episodes": designs, "dut": [], "insts": insts})
    return jobs


@check("C40", "random designs (protocol, signal subsets, widths, names, separators, missing or inconsistent signals) on which every kind of bus and model "
       "is constructed in every way, followed by traffic where the design is consistent; distinct: different designs or ways of construction", 100,
       technique="construction oracle observing bound handles and refusals, and end-to-end data oracle, over random generated designs")
def c40(seed, tier):
    return ctor_jobs(seed, tier)

"""Self test of the harness: compliant master peers against compliant slave peers, with the monitors of both sides armed.
No code of the repository is involved, so nothing may be reported (tools/selftest.py)."""
from cocotb.triggers import RisingEdge

from .. import apbbfm, axibfm, axilbfm
from ..bus import Sampler
from .axi_slave import make_burst
from .common import cycles


async def episode(env):
    cfg, rng, dut, p = env.cfg, env.rng, env.dut, env.cfg["dutp"]
    proto, bb = cfg["proto"], p["dw"] // 8
    delays = cfg["delays"]
    if proto == "apb":
        bm, bs = apbbfm.ApbBus(dut, "apb"), apbbfm.ApbBus(dut, "apb")
        m, sl = apbbfm.MasterBfm(env, bm, cfg["style"]), apbbfm.SlaveBfm(env, bs, dict(cfg["style2"], garbage=False))
        sm = apbbfm.ApbSampler(env, bm, False, [m], delay=delays[0], props=("SELF",))
        ss = apbbfm.ApbSampler(env, bs, True, [sl], delay=delays[1], props=("SELF",))
    elif proto == "axil":
        cm, cs = axilbfm.chans(dut, "axil", False), axilbfm.chans(dut, "axil", True)
        m, sl = axilbfm.MasterBfm(env, cm, cfg["style"]), axilbfm.SlaveBfm(env, cs, cfg["style2"])
    else:
        cm, cs = axibfm.chans(dut, "axi", False), axibfm.chans(dut, "axi", True)
        m = axibfm.MasterBfm(env, dut, "axi", cm, bb, cfg["style"])
        sl = axibfm.SlaveBfm(env, dut, "axi", cs, bb, dict(cfg["style2"], reorder=False, interleave=0))
    if proto != "apb":
        sm = Sampler(env, list(cm.values()), [m], delay=delays[0])
        ss = Sampler(env, list(cs.values()), [sl], delay=delays[1])
    sm.start(), ss.start()
    space = 1 << p["aw"]
    ws, rs, xs = [], [], []
    for _ in range(cfg["n"]):
        k = rng.choice("wr")
        if proto == "axi":
            b = make_burst(rng, k, cfg, p, bb, space, None)
            (m.put_write if k == "w" else m.put_read)(b)
        else:
            b = {"kind": k, "addr": rng.randrange(space), "data": rng.getrandbits(p["dw"]), "strb": rng.getrandbits(bb) if k == "w" else 0,
                 "prot": rng.getrandbits(3), "mode": rng.choice(["any", "before", "after"]), "lag": rng.randrange(10)}
            m.put(b) if proto == "apb" else m.put_write(b) if k == "w" else m.put_read(b)
        (ws if k == "w" else rs).append(b)
        xs.append(b)
        if rng.random() < 0.3:
            await cycles(env, rng.randrange(1, 20))
    e = RisingEdge(env.clk)
    while not m.done():
        await e
    await cycles(env, 3)
    if proto == "axi":
        one_id = lambda l: True
        for put, got, pre in ((ws, sl.wbursts, "aw"), (rs, sl.rbursts, "ar")):
            if [(b["id"], b["addr"], b["len"], b["size"], b["burst"]) for b in put] != \
                    [(b["id"], b["addr"], b["len"], b["size"], b["burst"]) for b in got]:
                env.v("SELF", "the slave peer saw other bursts than the master peer sent")
        for a, b in zip(ws, sl.wbursts):
            if [d for d, _ in a["beats"]] != [d["wdata"] for d in b["beats"]]:
                env.v("SELF", "write data differ")
        for a, b in zip(rs, sl.rbursts):
            got = []
            for q, d in enumerate(a["rbeats"]):
                _, lo, up = axibfm.beat(a["burst"], a["addr"], a["size"], a["len"], q, bb)
                got.append(bytes(d["rdata"] >> 8 * j & 0xff for j in range(lo, up + 1)))
            if got != [d["data"] for d in b["beats"]]:
                env.v("SELF", "read data differ")
    elif proto == "axil":
        if [(t["addr"], t["data"]) for t in ws] != [(t["addr"], t["data"]) for t in sl.wr] or \
                [(t["addr"], t["got"]) for t in rs] != [(t["addr"], t["data"]) for t in sl.rd]:
            env.v("SELF", "the peers disagree")
    else:
        for s in (sm, ss):
            if [t["addr"] for t in xs] != [c["paddr"] for c in s.xfers]:
                env.v("SELF", "the peers disagree")
    env.count["transfers"] += len(xs)
    env.sig(sm.cycle, [b["addr"] for b in xs])
    env.nontrivial = True

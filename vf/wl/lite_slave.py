"""AXI-Lite and APB slaves/RAMs served by the real models, driven by compliant master BFMs (C10, C12, C15, C16, C18, C23)."""
from cocotb.triggers import RisingEdge, Timer

from .. import apbbfm, axilbfm
from ..bus import Sampler
from ..pauses import PauseLog, pauser
from .axi_slave import reset_moment, reset_pulse
from .common import cycles
from .slave_common import Ctx, ResetWatch, init_memory, judge_memory, make_target, new_faults, poke


def make_transfer(rng, cfg, p, x, kind):
    bb = x.bb
    apb = x.proto == "apb"
    y = rng.random()
    if x.hot is not None and y < cfg.get("hot", 0.5):
        a = (x.hot + rng.randrange(-4 * bb, 8 * bb)) % x.aspace
    elif y < cfg.get("hot", 0.5) + 0.1:
        a = x.aspace - 1 - rng.randrange(2 * bb)
    else:
        a = rng.randrange(x.aspace)
    if rng.random() < 0.5:
        a = a // bb * bb
    full = (1 << bb) - 1
    t = {"kind": kind, "addr": a, "word": a // bb * bb, "prot": rng.getrandbits(3), "strb": 0}
    if kind == "w":
        t["data"] = rng.getrandbits(8 * bb)
        st = rng.choice(["full", "full", "random", "sparse", "empty", "one"])
        if not apb and "wstrb" not in p["opt"]:
            st = "full"
        t["strb"] = {"full": full, "random": rng.getrandbits(bb), "sparse": rng.getrandbits(bb) & rng.getrandbits(bb) & rng.getrandbits(bb),
                     "empty": 0, "one": 1 << rng.randrange(bb)}[st]
        t["mode"] = rng.choice(cfg.get("wmodes") or ["any", "before", "with", "after"])
        t["lag"] = rng.randrange(0, 20)
    t.update(t_ready=None, t_done=None, t_aw=None, t_w=None, t_ar=None, t_start=None, touched=[])
    t["certain"] = (t["word"] % x.size) // bb not in x.badw
    return t


class View:
    def __init__(self, t, apb):
        self.t, self.apb = t, apb

    def __getitem__(self, k):
        t = self.t
        if k == "t_ready":
            if self.apb:
                return t["t_start"]
            return None if t["t_aw"] is None or t["t_w"] is None else max(t["t_aw"], t["t_w"])
        return t[k]


async def traffic(env, cfg, x, stop):
    rng = env.rng
    for _ in range(cfg.get("ntrans", 40)):
        if stop[0]:
            break
        t = make_transfer(rng, cfg, cfg["dutp"], x, rng.choice(cfg.get("kinds", "wr")))
        x.total += 1
        if t["kind"] == "w":
            v = View(t, x.proto == "apb")
            bad = (t["word"] % x.size) // x.bb in x.badw
            for j in range(x.bb):
                if t["strb"] >> j & 1 and not bad:
                    x.mm.add(t["word"] + j, t["data"] >> 8 * j & 0xff, v)
                    t["touched"].append((t["word"] + j) % x.size)
        if x.proto == "apb":
            x.m.put(t)
        elif t["kind"] == "w":
            x.m.put_write(t)
        else:
            x.m.put_read(t)
        if rng.random() < x.gap:
            await cycles(env, rng.randrange(1, 12))


def desc(t):
    return axilbfm.tdesc(t) if "t_aw" in t and t.get("t_aw") else apbbfm.xdesc({k: v for k, v in t.items() if k != "touched"})


def judge(env, x, P, ts):
    bb = x.bb
    bf = ("C10",) if x.badr or x.badw else ()
    for t in ts:
        if t["t_fin"] is None:
            continue
        bad = (t["word"] % x.size) // bb in (x.badw if t["kind"] == "w" else x.badr)
        if t["kind"] == "w" and bad and not t["strb"]:
            bad = False
        resp = t["resp"]
        if x.has_resp[t["kind"]]:
            exp = (2 if x.proto != "apb" else 1) if bad else 0
            if resp != exp:
                env.v(("C10",) if bad else (P, "C10", "C23"), f"transfer {'with' if bad else 'without'} a target failure was answered with {resp}",
                      transfer=desc(t))
        if bad:
            env.count["failed_transfers"] += 1
        if t["kind"] == "w" or bad:
            continue
        if t["got"] is None:
            env.v((P, "C16"), "undefined read data", transfer=desc(t))
            continue
        for j in range(bb):
            ok = x.mm.candidates((t["word"] + j) % x.size, t_from=t["t_begin"], t_to=t["t_end"])
            env.count["bytes_checked"] += 1
            g = t["got"] >> 8 * j & 0xff
            if g not in ok:
                env.v((P, "C23") + bf, f"read returned {g:#04x} for address {t['word'] + j:#x}, expected one of {sorted(ok)}", transfer=desc(t))
                return


async def episode(env):
    cfg, rng, dut = env.cfg, env.rng, env.dut
    p = cfg["dutp"]
    x = Ctx()
    x.env, x.proto = env, cfg["proto"]
    apb = x.proto == "apb"
    P = "C15" if apb else "C12"
    bb = x.bb = p["dw"] // 8
    space = 1 << p["aw"]
    x.size = min(space, cfg.get("size", 1 << 12))
    x.has_rst, x.lvl = cfg.get("rst", True), cfg.get("rst_level", 1)
    x.aspace = space if cfg["mode"].startswith("ram") else x.size
    x.hot = rng.randrange(x.aspace) if rng.random() < 0.8 else None
    x.pause_log = PauseLog(env)
    x.total = 0
    x.gap = rng.choice([0, 0, 0.1, 0.4])
    if apb:
        x.bus = apbbfm.ApbBus(dut, "apb")
        x.has_resp = {"w": x.bus.pslverr is not None, "r": x.bus.pslverr is not None}
    else:
        x.ch = axilbfm.chans(dut, "axil", False)
        x.has_resp = {"w": "bresp" in x.ch["b"].sigs, "r": "rresp" in x.ch["r"].sigs}
    dut.rst.setimmediatevalue(x.lvl if cfg.get("rst_at_start") else 1 - x.lvl)
    await Timer(rng.randrange(1, env.period), "ns")

    def mk_bfm():
        rst = dut.rst if x.has_rst else None
        if apb:
            x.m = apbbfm.MasterBfm(env, x.bus, cfg.get("style", {}))
            x.s = apbbfm.ApbSampler(env, x.bus, False, [ResetWatch(x), x.m], delay=cfg.get("delay", 0), reset=rst)
        else:
            x.m = axilbfm.MasterBfm(env, x.ch, cfg.get("style", {}))
            x.s = Sampler(env, list(x.ch.values()), [ResetWatch(x), x.m], delay=cfg.get("delay", 0), reset=rst)
        x.s.reset_active = x.lvl
        x.s.start()
    if rng.random() < 0.5:
        make_target(env, cfg, x); mk_bfm()
    else:
        mk_bfm(); make_target(env, cfg, x)
    x.built = True
    init_memory(env, x)

    def visible(t, s):
        t["t_done"] = s.now
        for a in t["touched"]:
            got = x.get(a)[0]
            ok = x.mm.candidates(a, t_from=s.now, t_to=s.now)
            env.count["bytes_checked"] += 1
            if got not in ok:
                env.v((P,), f"memory byte {a:#x} is {got:#04x} when the write is answered, expected one of {sorted(ok)}", transfer=desc(t))
                return
    if apb:
        def on_done(t, s):
            t["resp"] = t["err"]
            if t["kind"] == "w":
                visible(t, s)
        x.m.on_done = on_done
    else:
        x.m.on_bvalid = visible
    if cfg.get("rst_at_start"):
        await cycles(env, rng.randrange(1, 5))
        await Timer(rng.randrange(1, env.period), "ns")
        dut.rst.value = 1 - x.lvl
        await Timer(1, "ns")
    nph = cfg.get("phases", 3)
    n = 0
    e = RisingEdge(dut.clk)
    for phase in range(nph):
        new_faults(env, cfg, x)
        if phase and rng.random() < 0.8:
            poke(env, x, rng.randrange(1, 20))
        pstop, stop = [False], [False]
        if cfg.get("pauses"):
            env.spawn(pauser(env, x.pausable, x.pause_log, pstop), "pauser")
        if apb:
            env.pending = lambda: {"done": x.m.ndone, "queued": len(x.m.queue), "current": str(x.m.cur)}
        else:
            env.pending = lambda: {"b": x.m.nb, "writes": len(x.m.writes), "r": x.m.nr, "reads": len(x.m.reads)}
        if x.spy is not None:
            x.spy.log.clear()
        cut = bool(cfg.get("resets") and phase < nph - 1)
        if cut:
            t = env.spawn(traffic(env, cfg, x, stop), "traffic")
            await reset_moment(env, x)
            stop[0] = pstop[0] = True
            t.kill()
            await reset_pulse(env, x, dut)
            old = x.cut
        else:
            await traffic(env, cfg, x, stop)
            while not x.m.done():
                await e
            pstop[0] = True
            await cycles(env, rng.choice([2, 5, 12]))
            old = x.m.cut()
        ts = old if apb else old[0] + old[1]
        for t in ts:
            if apb:
                t["t_fin"], t["t_begin"], t["t_end"] = t["t_done"], t["t_start"], t["t_done"]
            elif t["kind"] == "w":
                t["t_fin"] = t.get("t_b")
            else:
                t["t_fin"], t["t_begin"], t["t_end"] = t["t_done"], t["t_ar"], t.get("tv")
        if x.spy is not None and not cut:
            nr = sum(q["n"] for q in x.spy.log if q["k"] == "r")
            er = sum(bb for t in ts if t["kind"] == "r")
            if nr != er:
                env.v((P, "C37"), f"{nr} bytes were read from the target for {er} requested bytes")
            if not x.badw:
                nw = sum(q["n"] for q in x.spy.log if q["k"] == "w")
                ew = sum(bin(t["strb"]).count("1") for t in ts if t["kind"] == "w")
                if nw != ew:
                    env.v((P, "C37"), f"{nw} bytes were written to the target for {ew} strobed bytes")
        judge(env, x, P, ts)
        judge_memory(env, x, P, desc, ("C23",) if cfg.get("resets") else ())
        env.sig([(t["kind"], t["addr"], t["strb"], t["t_fin"]) for t in ts])
        n += sum(t["t_fin"] is not None for t in ts)
        for t in ts:
            env.seen("shapes", (t["kind"], t["addr"] % bb, hex(t["strb"]) if bb <= 8 else bin(t["strb"]).count("1"), t.get("mode")))
        if ts:
            t = ts[-1]
            env.sample(transfer=desc(t), model=cfg["mode"], data_width=p["dw"], protocol=x.proto)
        if env.failed():
            return
    await cycles(env, 40)
    env.count["transfers_completed"] += n
    env.count["cycles"] += x.s.cycle
    env.nontrivial = n >= 2

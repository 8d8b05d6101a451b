"""AXI slave/RAM served by the real models, driven by a compliant master BFM (C07-C10, C16, C18, C23)."""
from cocotb.triggers import RisingEdge, Timer

from ..axibfm import FIXED, INCR, WRAP, MasterBfm, beat, chans, rdesc, wdesc
from ..bus import Sampler
from ..pauses import PauseLog, pauser
from .common import cycles, now
from .slave_common import Ctx, ResetWatch, init_memory, judge_memory, make_target, new_faults, poke


def make_burst(rng, kind, cfg, p, bb, space, hot):
    opt = p["opt"]
    maxsize = (bb - 1).bit_length()
    strobes = "wstrb" in opt
    narrow = kind == "r" or strobes
    size = maxsize if not narrow or rng.random() < cfg.get("full_size", 0.5) else rng.randrange(maxsize + 1)
    nb = 1 << size
    x = rng.random()
    burst = INCR
    if x < cfg.get("fixed", 0.15):
        burst = FIXED
    elif x < cfg.get("fixed", 0.15) + cfg.get("wrap", 0.2):
        burst = WRAP
    if burst == WRAP:
        n = rng.choice([q for q in (2, 4, 8, 16)])
    elif burst == FIXED:
        n = rng.randrange(1, 17)
    else:
        y = rng.random()
        n = 1 if y < 0.2 else rng.randrange(1, 17) if y < 0.9 else rng.randrange(1, 257) if y < 0.97 else 256
        n = min(n, 4096 // nb)
    if hot is not None and rng.random() < cfg.get("hot", 0.5):
        a = (hot + rng.randrange(-64, 256)) % space
    else:
        a = rng.randrange(space)
    if burst == WRAP or not narrow or rng.random() < 0.4:
        a = a // nb * nb
    al = a // nb * nb
    if burst == INCR:
        room = 4096 - (al & 0xfff)
        if rng.random() < 0.1:
            n = min(256, room // nb)           # exactly up to the boundary
        n = max(1, min(n, room // nb))
    if al + nb > space:
        a = al = 0
    b = {"id": rng.randrange(1 << p["idw"]), "addr": a, "len": n, "size": size, "burst": burst}
    pre = "aw" if kind == "w" else "ar"
    attr = {}
    for k, w in (("lock", 1), ("cache", 4), ("prot", 3), ("qos", 4), ("region", 4), ("user", p["userw"])):
        if pre + k in opt and rng.random() < 0.7:
            attr[k] = rng.getrandbits(w)
    b["attr"] = attr
    if kind == "w":
        style = rng.choice(["full", "full", "random", "sparse", "empty", "mixed"])
        beats = []
        for q in range(n):
            _, lo, up = beat(burst, a, size, n, q, bb)
            lanes = ((1 << (up + 1)) - 1) & ~((1 << lo) - 1)
            st = style if style != "mixed" else rng.choice(["full", "random", "sparse", "empty"])
            if not strobes or st == "full":
                s = lanes
            elif st == "random":
                s = lanes & rng.getrandbits(bb)
            elif st == "sparse":
                s = lanes & rng.getrandbits(bb) & rng.getrandbits(bb) & rng.getrandbits(bb)
            else:
                s = 0
            beats.append((rng.getrandbits(8 * bb), s))
        b["beats"] = beats
        b["mode"] = rng.choice(cfg.get("wmodes") or ["any", "before", "with", "after"])
        b["lag"] = rng.randrange(0, 20)
    return b


def judge(env, x, writes, reads, t_reset=None):
    bb, badr, badw = x.bb, x.badr, x.badw
    bf = ("C10",) if badr or badw else ()
    for b in writes:
        if "got_b" not in b:
            continue
        affected = any(st and (beat(b["burst"], b["addr"], b["size"], b["len"], q, bb)[0] // bb * bb % x.size) // bb in badw
                       for q, (d, st) in enumerate(b["beats"]))
        resp = b["got_b"].get("bresp")
        if resp is not None or "bresp" in b["got_b"]:
            if affected:
                env.count["failed_writes"] += 1
            if affected and resp != 2:
                env.v("C10", f"write burst whose target access failed was answered with {resp}", burst=wdesc(b))
            if not affected and resp != 0:
                env.v(("C10", "C09", "C23"), f"write burst without failing access was answered with {resp}", burst=wdesc(b))
    for b in reads:
        for q, d in enumerate(b["rbeats"]):
            if "tv" not in d:
                continue
            a, lo, up = beat(b["burst"], b["addr"], b["size"], b["len"], q, bb)
            word = a // bb * bb
            affected = (word % x.size) // bb in badr
            resp = d.get("rresp")
            if affected:
                env.count["failed_reads"] += 1
                if "rresp" in d and resp != 2:
                    env.v("C10", f"read beat whose target access failed was answered with {resp}", burst=rdesc(b), beat=q)
                continue
            if "rresp" in d and resp != 0:
                env.v(("C10", "C09", "C23"), f"read beat without failing access was answered with {resp}", burst=rdesc(b), beat=q)
            if d["rdata"] is None:
                env.v(("C08", "C16"), "undefined read data", burst=rdesc(b))
                continue
            for j in range(lo, up + 1):
                got = d["rdata"] >> 8 * j & 0xff
                ok = x.mm.candidates((word + j) % x.size, t_from=b["t_ar"], t_to=d["tv"])
                env.count["bytes_checked"] += 1
                if got not in ok:
                    env.v(("C08", "C23") + bf, f"beat {q} returned {got:#04x} for address {word + j:#x}, expected one of {sorted(ok)}",
                          burst=rdesc(b), beat=q)
                    return


def judge_accesses(env, x, reads):
    """Every read beat is an access of the target of its own (FIXED bursts drain FIFOs), in burst and beat order."""
    log = [e for e in x.spy.log if e["k"] == "r"]
    beats = [(b, q) for b in sorted(reads, key=lambda b: b["t_ar"]) for q in range(b["len"])]
    if len(log) != len(beats):
        env.v(("C08", "C37"), f"{len(log)} read accesses of the target for {len(beats)} read beats")
        return
    for e, (b, q) in zip(log, beats):
        a, lo, up = beat(b["burst"], b["addr"], b["size"], b["len"], q, x.bb)
        word = a // x.bb * x.bb % x.size
        env.count["target_reads_matched"] += 1
        if not (e["a"] <= word + lo and word + up < e["a"] + e["n"]):
            env.v(("C08", "C37"), f"beat {q} accessed {e['n']} bytes at {e['a']:#x} instead of {word + lo:#x}..{word + up:#x}", burst=rdesc(b))
            return
        d = b["rbeats"][q]
        if "d" in e and d.get("rdata") is not None:
            got = d["rdata"] >> 8 * lo & (1 << 8 * (up - lo + 1)) - 1
            exp = int.from_bytes(e["d"][word + lo - e["a"]:word + up + 1 - e["a"]], "little")
            if got != exp:
                env.v(("C08", "C37"), f"beat {q} carries {got:#x}, the access for this beat returned {exp:#x}", burst=rdesc(b))
                return


async def traffic(env, cfg, x, stop):
    rng, p, bb = env.rng, cfg["dutp"], x.bb
    hot = rng.randrange(x.aspace) if rng.random() < 0.8 else None
    budget = cfg.get("budget", 150)
    for _ in range(cfg.get("nbursts", 12)):
        if budget <= 0 or stop[0]:
            break
        kind = rng.choice(cfg.get("kinds", "wr"))
        b = make_burst(rng, kind, cfg, p, bb, x.aspace, hot)
        budget -= b["len"]
        x.total += b["len"]
        if kind == "w":
            b["touched"] = []
            b["t_ready"] = b["t_done"] = None
            b["certain"] = True
            beats = [beat(b["burst"], b["addr"], b["size"], b["len"], q, bb)[0] // bb * bb for q in range(b["len"])]
            x.m.put_write(b)
            for q, (d, st) in enumerate(b["beats"]):
                for j in range(bb):
                    if st >> j & 1 and ((beats[q] + j) % x.size) // bb not in x.badw:
                        x.mm.add(beats[q] + j, d >> 8 * j & 0xff, Ready(b, q))
                        b["touched"].append((beats[q] + j) % x.size)
        else:
            x.m.put_read(b)
        if rng.random() < 0.3:
            await cycles(env, rng.randrange(1, 30))


async def episode(env):
    cfg, rng, dut = env.cfg, env.rng, env.dut
    p = cfg["dutp"]
    x = Ctx()
    x.env, x.proto = env, "axi"
    bb = x.bb = p["dw"] // 8
    space = 1 << p["aw"]
    x.size = min(space, cfg.get("size", 1 << 13))
    x.has_rst, x.lvl = cfg.get("rst", True), cfg.get("rst_level", 1)
    x.ch = chans(dut, "axi", False)
    x.aspace = space if cfg["mode"].startswith("ram") else x.size
    x.pause_log = PauseLog(env)
    x.total = 0
    dut.rst.setimmediatevalue(x.lvl if cfg.get("rst_at_start") else 1 - x.lvl)
    await Timer(rng.randrange(1, env.period), "ns")

    def mk_bfm():
        x.m = MasterBfm(env, dut, "axi", x.ch, bb, cfg.get("style", {}))
        x.s = Sampler(env, list(x.ch.values()), [ResetWatch(x), x.m], delay=cfg.get("delay", 0), reset=dut.rst if x.has_rst else None)
        x.s.reset_active = x.lvl
        x.s.start()
    if rng.random() < 0.5:
        make_target(env, cfg, x); mk_bfm()
    else:
        mk_bfm(); make_target(env, cfg, x)
    x.built = True
    init_memory(env, x)

    def on_bvalid(b, s):
        # everything of this burst must be visible now
        b["t_done"] = s.now
        for a in b["touched"]:
            got = x.get(a)[0]
            ok = x.mm.candidates(a, t_from=s.now, t_to=s.now)
            env.count["bytes_checked"] += 1
            if got not in ok:
                env.v(("C07", "C10") if x.badw else ("C07",), f"memory byte {a:#x} is {got:#04x} when B is presented, expected one of {sorted(ok)}", burst=wdesc(b))
                return
    x.m.on_bvalid = on_bvalid
    if cfg.get("rst_at_start"):
        await cycles(env, rng.randrange(1, 5))
        await Timer(rng.randrange(1, env.period), "ns")
        dut.rst.value = 1 - x.lvl
        await Timer(1, "ns")
    nph = cfg.get("phases", 3)
    nw = nr = 0
    e = RisingEdge(dut.clk)
    for phase in range(nph):
        new_faults(env, cfg, x)
        if phase and rng.random() < 0.8:
            poke(env, x, rng.randrange(1, 20))
        pstop, stop = [False], [False]
        if cfg.get("pauses"):
            env.spawn(pauser(env, x.pausable, x.pause_log, pstop), "pauser")
        env.pending = lambda: {"b": x.m.nb, "writes": len(x.m.writes), "r": x.m.nr, "reads": len(x.m.reads)}
        if x.spy is not None:
            x.spy.log.clear()
        if cfg.get("resets") and phase < nph - 1:
            t = env.spawn(traffic(env, cfg, x, stop), "traffic")
            await reset_moment(env, x)
            stop[0] = pstop[0] = True
            t.kill()
            await reset_pulse(env, x, dut)
            ws, rs = x.cut
        else:
            await traffic(env, cfg, x, stop)
            while not x.m.done():
                await e
            pstop[0] = True
            await cycles(env, rng.choice([2, 5, 12]))
            ws, rs = x.m.cut()
            if x.spy is not None and not x.badw:
                n = sum(q["n"] for q in x.spy.log if q["k"] == "w")
                exp = sum(bin(st).count("1") for b in ws for d, st in b["beats"])
                if n != exp:
                    env.v(("C07", "C37"), f"{n} bytes were written to the target for {exp} strobed bytes")
            if x.spy is not None:
                judge_accesses(env, x, rs)
        judge(env, x, ws, rs)
        judge_memory(env, x, "C07", wdesc, ("C23",) if cfg.get("resets") else ())
        env.sig([(b["addr"], b["len"], b["t_aw"], b["t_w"], b["t_b"]) for b in ws],
                [(b["addr"], b["len"], b["t_ar"], b["t_done"]) for b in rs])
        nw += len(ws)
        nr += len(rs)
        for b in ws:
            env.seen("write_shapes", (b["burst"], b["size"], b["len"] if b["len"] < 17 else "long", b["addr"] % bb, b["mode"]))
        for b in rs:
            env.seen("read_shapes", (b["burst"], b["size"], b["len"] if b["len"] < 17 else "long", b["addr"] % bb))
        if ws:
            b = ws[-1]
            env.sample(write={k: b[k] for k in ("addr", "len", "size", "burst", "id", "mode")}, strobes=[hex(st) for d, st in b["beats"][:4]],
                       model=cfg["mode"], data_width=p["dw"], t=[b["t_aw"], b["t_w"], b["t_b"]])
        if rs:
            b = rs[-1]
            env.sample(read={k: b[k] for k in ("addr", "len", "size", "burst", "id")}, model=cfg["mode"], data_width=p["dw"])
        if env.failed():
            return
    await cycles(env, 40)
    env.count["bursts"] += nw + nr
    env.count["beats"] += x.total
    env.count["cycles"] += x.s.cycle
    env.nontrivial = nw + nr >= 2


async def reset_moment(env, x):
    rng = env.rng
    y = rng.random()
    if y < 0.4:
        await Timer(rng.randrange(1, 900), "ns")
        return
    e = RisingEdge(env.clk)
    for _ in range(rng.randrange(0, 40)):
        await e
    for _ in range(200):
        await e
        if x.proto == "apb":
            hit = x.s.cur is not None
        else:
            hit = any(c.v and not c.r for c in x.ch.values()) if y < 0.7 else any(c.data is not None for c in x.ch.values())
        if hit and rng.random() < 0.4:
            break
    if rng.random() < 0.7:
        await Timer(rng.randrange(1, env.period), "ns")


async def reset_pulse(env, x, dut):
    """Assert reset for some cycles; the memory must not change and the target must be left alone meanwhile."""
    rng = env.rng
    t = now()
    dut.rst.value = x.lvl
    env.count["resets"] += 1
    await Timer(1, "ns")
    x.cut = x.m.cut()
    before = x.get(0, x.size)
    nlog = len(x.spy.log) if x.spy is not None else 0
    await cycles(env, rng.choice([2, 2, 3, 8]))
    if rng.random() < 0.7:
        await Timer(rng.randrange(1, env.period), "ns")
    if x.get(0, x.size) != before:
        env.v(("C23",), "memory changed while reset was asserted", reset_at=t)
    if x.spy is not None and len(x.spy.log) != nlog:
        env.v(("C23",), "target accessed while reset was asserted", access=x.spy.log[-1])
    dut.rst.value = 1 - x.lvl
    await Timer(1, "ns")
    x.m.cut()


class Ready:
    """View of one beat of a write burst for the byte model."""

    def __init__(self, b, q):
        self.b, self.q = b, q

    def __getitem__(self, k):
        b = self.b
        if k == "t_ready":
            if b["t_aw"] is None or len(b["wbeats"]) <= self.q:
                return None
            return max(b["t_aw"], b["wbeats"][self.q])
        return b[k]

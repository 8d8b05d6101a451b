"""Generic streams (define_stream) and AXI channels: source, sink and monitors against the wires (C16-C18, C23)."""
import cocotbext.axi as ax
from cocotb.queue import QueueEmpty, QueueFull
from cocotb.triggers import RisingEdge, Timer
from cocotbext.axi import axi_channels, axil_channels
from cocotbext.axi.stream import define_stream

from ..bus import Chan, Gen, Sampler, Snk, Src, raw, val
from ..resets import Resets
from ..pauses import PauseLog, pauser
from .common import cycles, now


class Ctx:
    pass


def build_types(d):
    """The five classes for this episode's stream."""
    if d.get("builtin"):
        m = axi_channels if d["builtin"].startswith("Axi") and not d["builtin"].startswith("AxiLite") else axil_channels
        return tuple(getattr(m, d["builtin"] + k) for k in ("Bus", "Transaction", "Source", "Sink", "Monitor"))
    kw = {}
    for k in ("valid_signal", "ready_signal", "signal_widths", "optional_signals"):
        if d.get(k) is not None:
            kw[k] = d[k]
    return define_stream(d["name"], list(d["signals"]), **kw)


class SinkTrack:
    """What a sink or monitor must have received."""

    def __init__(self, env, x, obj, name, limit, props):
        self.env, self.x, self.o, self.name, self.limit, self.props = env, x, obj, name, limit, props
        self.hs = []
        self.got = []
        self.nhs = self.nrecv = self.ncleared = 0
        self.max = 0

    def edge(self, s, c):
        if c.data is not None:
            self.hs.append((dict(c.data), s.now))
            self.nhs += 1
            if self.limit > 0 and c.ready is not None and self.nhs - self.nrecv - self.ncleared > self.limit + 1:
                self.env.v(self.props, f"{self.name} holds {self.nhs - self.nrecv - self.ncleared} items, limit {self.limit}", time=s.now)

    def take(self, item):
        self.nrecv += 1
        self.got.append(item)
        self.match()

    def match(self):
        while self.got and self.hs:
            item = self.got.pop(0)
            d, t = self.hs.pop(0)
            for f in self.x.fields:
                v = getattr(item, f)
                exp = d.get(f, 0)
                if exp is None:
                    continue
                self.env.count["fields_checked"] += 1
                if int(v) != exp:
                    self.env.v(self.props, f"{self.name}: received {f}={int(v):#x}, transferred {exp:#x}", transferred_at=t)
                    return

    def check(self):
        """Mid-cycle: everything has settled."""
        env = self.env
        self.match()
        n = self.nhs - self.nrecv - self.ncleared
        if self.got or n < 0:
            env.v(self.props, f"{self.name} delivered more items than were transferred")
            return
        if self.o.count() != n or self.o.empty() != (n == 0):
            env.v(self.props, f"{self.name}: count() is {self.o.count()}, empty() is {self.o.empty()}, {n} items are queued", time=now())
        if hasattr(self.o, "full") and bool(self.o.full()) != (self.limit > 0 and n >= self.limit):
            env.v(self.props, f"{self.name}: full() is {self.o.full()} with {n} items and limit {self.limit}")
        env.seen("sink_fill", (self.limit, n))

    def clear(self):
        self.o.clear()
        self.ncleared = self.nhs - self.nrecv
        self.hs = []
        self.env.count["sink_clears"] += 1


async def sender(env, x, k):
    """Sends through the model source with a random mix of blocking and non-blocking calls."""
    rng, src = env.rng, x.src
    while x.left > 0:
        x.left -= 1
        item = x.T(**{f: rng.getrandbits(w) for f, w in x.widths.items()})
        d = {f: getattr(item, f) for f in x.widths}
        if rng.random() < x.p_nowait:
            try:
                src.send_nowait(item)
            except QueueFull:
                env.count["queue_full"] += 1
                if src.count() < x.slimit or x.slimit <= 0:
                    env.v(("C17",), f"send_nowait raised QueueFull with {src.count()} of {x.slimit} items queued")
                x.left += 1
                await Timer(rng.randrange(1, 60), "ns")
                continue
        else:
            await src.send(item)
        x.exp.append(d)
        x.nsent += 1
        if x.slimit > 0 and src.count() > x.slimit:
            env.v(("C17",), f"source holds {src.count()} items, limit {x.slimit}")
        if rng.random() < x.send_gap:
            y = rng.random()
            await (Timer(rng.randrange(1, 30), "ns") if y < 0.6 else Timer(env.period * rng.randrange(3, 30), "ns"))
    x.senders -= 1


async def receiver(env, x, tr):
    rng = env.rng
    o = tr.o
    while not x.finished:
        y = rng.random()
        if y < 0.45:
            tr.take(await o.recv())
        elif y < 0.8:
            try:
                item = o.recv_nowait()
            except QueueEmpty:
                if o.count():
                    env.v(tr.props, f"{tr.name}: recv_nowait raised QueueEmpty with {o.count()} items queued")
                await Timer(rng.randrange(1, 40), "ns")
                continue
            tr.take(item)
        elif y < 0.9:
            await o.wait()
            env.count["sink_waits"] += 1
            if o.empty() and tr.users == 1:
                env.v(tr.props, f"{tr.name}: wait() returned with nothing received")
        else:
            t = now()
            lim = rng.randrange(1, 100)
            await o.wait(lim, "ns")
            if o.empty() and tr.users == 1 and now() - t < lim * 1000:
                env.v(tr.props, f"{tr.name}: wait(timeout) returned early with nothing received")
        if rng.random() < x.recv_gap:
            await Timer(rng.randrange(1, 200 if rng.random() < 0.2 else 40), "ns")


class Listener:
    """Follows the bus every clock edge."""

    def __init__(self, x):
        self.x = x
        self.pv = self.phs = False
        self.prst = True

    def fresh(self):
        """True when the source presents an item the last edge has not seen."""
        c = self.x.csrc
        return val(c.valid) == 1 and (not c.v or c.data is not None or self.prst) if c.valid is not None else False

    def edge(self, s):
        x, env = self.x, self.x.env
        c = x.csrc
        if x.src is not None and not s.in_reset and c.valid is not None:
            if c.v and (not self.pv or self.phs or self.prst):
                f = c.fields()
                if not x.exp:
                    env.v(("C17", "C23"), "the source presents an item that was not sent", time=s.now, got=f)
                else:
                    d = self.want(x.exp.pop(0))
                    x.npres += 1
                    bad = {n: (f[n], v) for n, v in d.items() if n in f and f[n] != v}
                    env.count["fields_checked"] += len(d)
                    if bad:
                        env.v(("C17", "C23") if x.resets else ("C17",), "the source presents a wrong or misplaced item (field: driven, expected)", time=s.now, wrong=bad)
        if s.in_reset:
            env.count["reset_edges"] += 1
            if x.src is not None and c.valid is not None and raw(c.valid) != "0":
                env.v(("C23",), "source drives VALID while reset is asserted", time=s.now)
            if x.snk is not None and c.ready is not None and raw(c.ready) != "0":
                env.v(("C23",), "sink drives READY while reset is asserted", time=s.now)
        for tr in x.tracks:
            tr.edge(s, c)
        x.pause_log.edge(s, x.pchans, s.in_reset)
        self.pv, self.phs, self.prst = c.v, c.data is not None, s.in_reset

    def want(self, d):
        return d

    def drive(self):
        pass


def probe(env, x):
    """Mid-cycle consistency of all counters."""
    if x.in_reset_window:
        return
    env.count["probes"] += 1
    if x.src is not None and x.csrc.valid is not None:
        fresh = x.lst.fresh()
        n = len(x.exp) - fresh
        if x.src.count() != n or x.src.empty() != (n == 0):
            env.v(("C17",), f"source: count() is {x.src.count()}, empty() is {x.src.empty()}, {n} items are queued", time=now())
        if bool(x.src.full()) != (x.slimit > 0 and n >= x.slimit):
            env.v(("C17",), f"source: full() is {x.src.full()} with {n} items and limit {x.slimit}")
        env.seen("source_fill", (x.slimit, n))
        pending = n > 0 or fresh or (x.csrc.v and x.csrc.data is None)
        if pending and x.src.idle():
            env.v(("C17",), "source is idle() with items that were not accepted", time=now())
    for tr in x.tracks:
        tr.check()


async def relimiter(env, x):
    """Limits are set to other values while items flow."""
    rng = env.rng
    while not x.finished:
        await cycles(env, rng.randrange(5, 60))
        await Timer(env.period // 2, "ns")
        if x.in_reset_window or x.finished:
            continue
        env.count["limit_changes"] += 1
        if x.src is not None and rng.random() < 0.7:
            x.slimit = rng.choice([-1, 0, max(1, x.src.count()), x.src.count() + rng.randrange(1, 9)])
            x.src.queue_occupancy_limit = x.slimit
        for tr in x.tracks:
            if tr.o is x.snk and not tr.o.full():
                tr.limit = rng.choice([-1, 0, tr.o.count() + 1, tr.o.count() + rng.randrange(1, 9)])
                tr.o.queue_occupancy_limit = tr.limit


async def prober(env, x):
    e = RisingEdge(env.clk)
    while not x.finished:
        await e
        await Timer(env.period * 1000 - 1500, "ps")
        probe(env, x)
        rng = env.rng
        if x.src is not None and rng.random() < 0.2 and x.src.idle():
            t = env.spawn(x.src.wait(), "wait")
            await Timer(1, "ps")
            if not t.done() and x.src.idle():
                env.v(("C17", "C23"), "source: wait() does not return while the source is idle()", time=now())
            env.count["idle_waits"] += 1
        if x.clears and rng.random() < 0.01 and not x.in_reset_window:
            if x.src is not None and rng.random() < 0.5:
                fresh = x.lst.fresh() if x.csrc.valid is not None else 0
                x.src.clear()
                x.cleared_at = now()
                del x.exp[1 if fresh else 0:]
                env.count["source_clears"] += 1
            elif x.tracks:
                rng.choice(x.tracks).clear()


async def waiter(env, x):
    while x.senders:
        await Timer(env.rng.randrange(1, 400), "ns")
        n, t0 = x.nsent, now()
        before = len(x.exp) + x.npres
        exact = now() % (env.period * 1000) != env.period * 500
        need = x.csrc.n + (x.lst.fresh() or bool(x.csrc.v and x.csrc.data is None)) if x.csrc.valid is not None else 0
        await x.src.wait()
        env.count["source_waits"] += 1
        await Timer(1, "ps")
        if exact and x.csrc.n < need and x.reset_at < t0 and not x.in_reset_window:
            env.v(("C17",), "source: wait() returned before the item on the bus was accepted", time=now())
        if x.cleared_at >= t0 or x.reset_at >= t0:
            continue
        # all items sent before the call must have been accepted; the sampler may run after us in this time step
        await Timer(1, "ns")
        if x.npres < before:
            env.v(("C17",), "source: wait() returned before all items were accepted", time=now())


async def resetter(env, x):
    rng, dut = env.rng, env.dut
    soon = False
    for _ in range(rng.choice([1, 2, 3, 5])):
        await Timer(rng.randrange(1, 20) if soon else rng.randrange(20, 900), "ns")
        e = RisingEdge(env.clk)
        for _ in range(100):
            await e
            if (x.csrc.v and not x.csrc.r) or rng.random() < 0.1 or soon:
                break
        soon = rng.random() < 0.3
        exact = rng.random() < 0.2
        if not exact:
            await Timer(rng.randrange(1, env.period), "ns")
            fresh = x.src is not None and x.csrc.valid is not None and x.lst.fresh()
        x.in_reset_window = True
        x.reset_at = now()
        if x.src is not None:
            if not exact and fresh:
                x.exp.pop(0)
        dut.rst.value = x.lvl
        if exact and x.src is not None and x.csrc.valid is not None:
            # at the very edge the source may have taken the next item first, which is then lost with the reset
            await Timer(8, "ns")
            if x.exp and x.src.count() == len(x.exp) - 1:
                x.exp.pop(0)
                env.count["items_taken_at_reset"] += 1
        env.count["resets"] += 1
        await cycles(env, rng.choice([2, 3, 8]))
        if rng.random() < 0.7:
            await Timer(rng.randrange(1, env.period), "ns")
        dut.rst.value = 1 - x.lvl
        await e
        await Timer(env.period - 1, "ns")
        x.in_reset_window = False


async def episode(env):
    cfg, rng, dut = env.cfg, env.rng, env.dut
    d = cfg["def"]
    x = Ctx()
    x.env = env
    x.resets = cfg.get("resets")
    x.lvl = cfg.get("rst_level", 1)
    has_rst = x.resets or cfg.get("rst", True)
    x.pfx, x.fields, x.widths = d["prefix"], d["fields"], {f: w for f, w in d["widths"].items() if f in d["present"]}
    dut.rst.setimmediatevalue(x.lvl if cfg.get("rst_at_start") and has_rst else 1 - x.lvl)
    await Timer(rng.randrange(1, env.period) * 1000 + 300, "ps")
    B, x.T, S, K, M = build_types(d)
    x.rs = Resets(env, cfg, x.lvl, has_rst)
    args = x.rs.args()
    args += (bool(x.lvl),) if len(args) > 1 else ()
    mode = cfg["mode"]
    x.slimit = cfg.get("slimit", -1) if mode != "snk" else -1
    x.klimit = cfg.get("klimit", -1)
    x.exp = []
    x.nsent = x.npres = 0
    x.reset_at = x.cleared_at = -1
    x.in_reset_window = bool(cfg.get("rst_at_start"))
    x.finished = False
    x.clears = cfg.get("clears")
    present = [f for f in d["fields"] if f in d["present"]]

    def chan(name, driver):
        c = Chan(dut, name, x.pfx, present, d["valid"] if d["has_valid"] else None, d["ready"] if d["has_ready"] else None, driver)
        return c
    model_src = mode in ("src", "pair")
    x.csrc = chan("source channel", "model" if model_src else "bfm")
    x.csnk = chan("sink channel", "bfm")
    x.src = x.snk = None
    x.tracks = []
    x.pausable = {}
    x.pchans = []
    x.pause_log = PauseLog(env)
    x.lst = Listener(x)
    x.s = Sampler(env, [x.csrc, x.csnk], [x.lst], delay=cfg.get("delay", 0), reset=dut.rst if has_rst else None)
    x.s.reset_active = x.lvl
    x.s.start()
    x.bfm = x.s.listeners
    order = ["src", "snk", "mon"]
    rng.shuffle(order)
    for o in order:
        if o == "src":
            if model_src:
                x.src = S(B.from_prefix(dut, x.pfx), *args)
                if x.slimit != -1:       # the default
                    x.src.queue_occupancy_limit = x.slimit
                x.rs.add(x.src)
                x.pausable["src"] = x.src
            else:
                x.bsrc = Src(env, x.csrc, Gen(rng, cfg.get("vstyle")), cfg.get("idle", "garbage"))
                x.bfm.append(x.bsrc)
        elif o == "snk":
            if mode in ("snk", "pair"):
                x.snk = K(B.from_prefix(dut, x.pfx), *args)
                if x.klimit != -1:
                    x.snk.queue_occupancy_limit = x.klimit
                x.rs.add(x.snk)
                x.pausable["snk"] = x.snk
                x.tracks.append(SinkTrack(env, x, x.snk, "sink", x.klimit, ("C17", "C23") if x.resets else ("C17",)))
            else:
                x.bfm.append(Snk(env, x.csrc, Gen(rng, cfg.get("rstyle"))))
        else:
            for i in range(cfg.get("monitors", 1)):
                await Timer(100, "ps")
                before = {n: raw(getattr(dut, n)) for n in d["dut_signals"]}
                m = M(B.from_prefix(dut, x.pfx), *args)
                x.rs.add(m)
                await Timer(1, "ps")
                if order.index("mon") == 2:
                    after = {n: raw(getattr(dut, n)) for n in d["dut_signals"]}
                    if before != after:
                        env.v(("C17", "C27"), "constructing a monitor changed the bus", before=before, after=after)
                x.tracks.append(SinkTrack(env, x, m, f"monitor {i}", -1, ("C17", "C23") if x.resets else ("C17",)))
    x.pchans += [(n, x.csrc if n == "src" else x.csnk) for n in x.pausable]
    if cfg.get("rst_at_start") and has_rst:
        await cycles(env, rng.randrange(1, 5))
        await Timer(rng.randrange(1, env.period), "ns")
        dut.rst.value = 1 - x.lvl
        await cycles(env, 1)
    x.in_reset_window = False
    total = x.left = cfg.get("nitems", 60)
    x.p_nowait = cfg.get("p_nowait", 0.4)
    x.send_gap = rng.choice([0, 0.1, 0.5])
    x.recv_gap = rng.choice([0, 0.2, 0.6])
    x.senders = 0
    env.pending = lambda: {"unsent": x.left, "unpresented": len(x.exp), "handshakes": x.csrc.n,
                           "queued": [t.nhs - t.nrecv - t.ncleared for t in x.tracks]}
    env.spawn(prober(env, x), "prober")
    if (x.slimit > 0 or x.klimit > 0) and rng.random() < 0.4:
        env.spawn(relimiter(env, x), "relimiter")
    for tr in x.tracks:
        tr.users = 2 if rng.random() < 0.2 else 1
        for _ in range(tr.users):
            env.spawn(receiver(env, x, tr), "receiver")
    pstop = [False]
    if cfg.get("pauses"):
        env.spawn(pauser(env, x.pausable, x.pause_log, pstop), "pauser")
    if x.resets:
        rt = env.spawn(resetter(env, x), "resetter")
    if model_src:
        x.senders = n = rng.choice([1, 1, 2, 3])
        for k in range(n):
            env.spawn(sender(env, x, k), "sender")
        if not x.clears and rng.random() < 0.7:
            env.spawn(waiter(env, x), "waiter")
        while x.senders:
            await cycles(env, 1)
    else:
        while x.left > 0:
            x.left -= 1
            x.bsrc.put({f: rng.getrandbits(w) for f, w in x.widths.items()})
            if rng.random() < x.send_gap:
                await Timer(rng.randrange(1, 100), "ns")
        while x.bsrc.busy():
            await cycles(env, 1)
    if x.resets:
        await rt.join()
    pstop[0] = True
    # everything sent must get through
    if d["has_valid"]:
        while x.exp:
            await cycles(env, 1)
        while x.csrc.v or x.lst.fresh():
            await cycles(env, 1)
        while any(t.nhs != t.nrecv + t.ncleared for t in x.tracks):
            await cycles(env, 1)
    if model_src and d["has_valid"]:
        await x.src.wait()
    await cycles(env, rng.randrange(3, 12))
    await Timer(2, "ns")
    if d["has_valid"]:
        probe(env, x)
        if x.csrc.v and model_src:
            env.v(("C17",), "source drives VALID with nothing to send")
        if model_src and not x.src.idle():
            env.v(("C17",), "source is not idle() after everything was accepted")
    x.finished = True
    env.sig(d["name"], mode, x.csrc.n, x.s.cycle, [t.nrecv for t in x.tracks])
    env.count["items"] += x.csrc.n
    env.count["cycles"] += x.s.cycle
    env.nontrivial = x.csrc.n >= 2
    env.sample(stream=d["name"], mode=mode, handshakes=x.csrc.n, cycles=x.s.cycle, source_limit=x.slimit, sink_limit=x.klimit)

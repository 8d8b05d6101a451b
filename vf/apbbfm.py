"""APB (AMBA 3/4 APB) monitor and bus functional models written from the specification; no repository code."""
from .bus import Gen, Glitches, Out, idle_payload, raw, val

REQ = ("paddr", "pwrite", "pwdata", "pstrb", "pprot")


class ApbBus:
    def __init__(self, dut, prefix):
        for n in REQ + ("psel", "penable", "pready", "prdata", "pslverr"):
            setattr(self, n, getattr(dut, f"{prefix}_{n}", None))
        self.req = {n: getattr(self, n) for n in REQ if getattr(self, n) is not None}


class ApbSampler:
    """Samples the bus every clock edge, checks the protocol rules of the modelled side, then runs the listeners."""

    def __init__(self, env, bus, master_is_model, listeners=(), delay=0, reset=None, props=("C13",)):
        self.env, self.b, self.mm = env, bus, master_is_model
        self.listeners, self.delay, self.reset = list(listeners), delay, reset
        self.props = props
        self.cycle = 0
        self.now = 0
        self.state = "idle"           # idle, setup seen, access seen
        self.held = None
        self.xfers = []               # completed transfers
        self.cur = None
        self.in_reset = False
        self.reset_active = 1

    def start(self):
        return self.env.spawn(self.run(), "apb sampler")

    def bad(self, msg, props=None, **kw):
        self.env.v(props or self.props, msg, time=self.now, **kw)

    async def run(self):
        from cocotb.triggers import RisingEdge, Timer
        from cocotb.utils import get_sim_time
        clk = RisingEdge(self.env.clk)
        b, env = self.b, self.env
        glitches = Glitches(env, self)
        while True:
            await clk
            self.cycle += 1
            self.now = get_sim_time("step")
            self.in_reset = self.reset is not None and val(self.reset) == self.reset_active
            sel, en, rdy = raw(b.psel), raw(b.penable), raw(b.pready)
            self.sel, self.en, self.rdy = sel == "1", en == "1", rdy == "1"
            self.done = None
            if self.mm and not self.in_reset and (sel not in "01" or en not in "01"):
                self.bad(f"psel/penable undefined ({sel}/{en})")
            if not self.mm and not self.in_reset and rdy not in "01":
                self.bad(f"pready undefined ({rdy})")
            if self.in_reset:
                self.state = "idle"
                self.cur = None
            else:
                self.step()
            for l in self.listeners:
                l.edge(self)
            if self.delay:
                await Timer(self.delay, "ns")
            for l in self.listeners:
                l.drive()
            await glitches.between()

    def step(self):
        b, env = self.b, self.env
        if not self.sel:
            if self.mm:
                if self.en:
                    self.bad("penable high without psel")
                if self.state != "idle":
                    self.bad(f"psel dropped in the {self.state} phase before the transfer completed")
            elif self.rdy:
                self.bad("pready asserted although no transfer is selected", ("C15",))
            self.state = "idle"
            self.cur = None
            return
        now = {n: h._handle.get_signal_val_binstr() for n, h in b.req.items()}
        if self.state == "idle":
            # first cycle of a transfer must be the setup phase
            if self.mm and self.en:
                self.bad("penable high in the first cycle of a transfer (no setup phase)")
            if not self.mm and self.rdy and not self.en:
                self.bad("pready asserted in the setup phase", ("C15",))
            self.cur = {"i": len(self.xfers), "t_setup": self.now, "held": now, "wait": 0, "t_done": None}
            if self.mm:
                for n, x in now.items():
                    if x.strip("01"):
                        self.bad(f"{n} undefined during a transfer: {x}")
            self.state = "setup"
            if not (self.en and self.mm):
                return
        # access phase
        if self.mm:
            if not self.en:
                self.bad("setup phase longer than one cycle" if self.state == "setup" else
                         "penable dropped before the transfer completed")
                return
            if now != self.cur["held"]:
                self.bad("request changed during the transfer: " +
                         str([n for n in now if now[n] != self.cur["held"][n]]), before=self.cur["held"], after=now)
        elif not self.en:
            return
        self.state = "access"
        if self.rdy:
            c = self.cur
            for n, h in b.req.items():
                c[n] = val(h)
            c["rdata"] = val(b.prdata)
            c["err"] = val(b.pslverr) if b.pslverr is not None else 0
            c["t_done"] = self.now
            self.xfers.append(c)
            self.done = c
            self.cur = None
            self.state = "idle"
            env.count["transfers"] += 1
            env.count["wait_states"] += c["wait"]
        else:
            self.cur["wait"] += 1


class SlaveBfm:
    """Random wait states and errors; drives garbage whenever its outputs are not being sampled."""

    def __init__(self, env, bus, style):
        self.env, self.rng, self.b = env, env.rng, bus
        self.gen = Gen(self.rng, style.get("r"))
        self.err = style.get("err", 0)
        self.garbage = style.get("garbage", True)
        self.idle = "x" if style.get("idle") == "x" else "garbage"
        self.out = Out(env)
        bus.pready.setimmediatevalue(0)

    def edge(self, s):
        rng, b = self.rng, self.b
        # will the next cycle be an access phase cycle?
        access_next = s.sel and s.done is None and not s.in_reset
        if s.in_reset:
            self.out.set(b.pready, rng.getrandbits(1) if self.garbage else 0)
            return
        if access_next and self.gen.next(True):
            self.out.set(b.pready, 1)
            self.out.set(b.prdata, rng.getrandbits(len(b.prdata)))
            self.out.set(b.pslverr, int(rng.random() < self.err))
        elif access_next:
            self.out.set(b.pready, 0)
            if self.garbage:
                idle_payload(self.out, rng, self.idle, (b.prdata, b.pslverr))
        elif self.garbage:
            # idle or setup phase follows: nothing here may be sampled
            self.out.set(b.pready, rng.getrandbits(1))
            idle_payload(self.out, rng, self.idle, (b.prdata, b.pslverr))
        else:
            self.out.set(b.pready, 0)

    def drive(self):
        self.out.drive()


class MasterBfm:
    """Compliant requester: setup, access until pready, random gaps, garbage on the bus while not selected."""

    def __init__(self, env, bus, style):
        self.env, self.rng, self.b = env, env.rng, bus
        self.gen = Gen(self.rng, style.get("aw"))
        self.garbage = style.get("garbage", True)
        self.idle = "x" if style.get("idle") == "x" else "garbage"
        self.queue = []
        self.cur = None
        self.ndone = 0
        self.all = []
        self.out = Out(env)
        self.phase = "idle"
        self.on_done = None
        bus.psel.setimmediatevalue(0)
        bus.penable.setimmediatevalue(0)

    def put(self, t):
        self.queue.append(t)
        self.all.append(t)

    def edge(self, s):
        b, rng = self.b, self.rng
        if s.in_reset:
            self.cur = None
            self.phase = "idle"
            self.queue = []
            self.out.set(b.psel, 0)
            self.out.set(b.penable, 0)
            return
        if s.done is not None and self.cur is not None:
            t = self.cur
            t.update(t_done=s.now, got=s.done["rdata"], err=s.done["err"], t_setup=s.done["t_setup"])
            self.cur = None
            self.ndone += 1
            if self.on_done:
                self.on_done(t, s)
            self.phase = "idle"
            self.out.set(b.penable, 0)
        elif self.phase == "setup":
            self.phase = "access"
            self.out.set(b.penable, 1)
            return
        elif self.phase == "access":
            return
        if self.queue and self.gen.next(True):
            t = self.cur = self.queue.pop(0)
            t["t_start"] = s.now
            self.phase = "setup"
            self.out.set(b.psel, 1)
            self.out.set(b.paddr, t["addr"])
            self.out.set(b.pwrite, int(t["kind"] == "w"))
            self.out.set(b.pwdata, t.get("data", rng.getrandbits(len(b.pwdata)) if self.garbage else 0))
            self.out.set(b.pstrb, t.get("strb", 0))
            self.out.set(b.pprot, t["prot"])
        else:
            self.out.set(b.psel, 0)
            if self.garbage:
                idle_payload(self.out, rng, self.idle, b.req.values())

    def drive(self):
        self.out.drive()

    def cut(self):
        old = self.all
        self.all = []
        self.queue = []
        self.cur = None
        return old

    def done(self):
        return not self.queue and self.cur is None


def xdesc(c):
    return {k: (hex(v) if isinstance(v, int) and not k.startswith("t_") else v) for k, v in c.items() if k != "held"}

"""Raw signal access, per-clock sampling and handshake/stability monitoring.  No repository code is used here."""
import random

from cocotb.binary import BinaryValue
from cocotb.triggers import RisingEdge, Timer
from cocotb.utils import get_sim_time


def raw(h):
    return h._handle.get_signal_val_binstr()


def val(h):
    """Integer value, or None when any bit is undefined."""
    b = h._handle.get_signal_val_binstr()
    try:
        return int(b, 2)
    except ValueError:
        return None


def width(h):
    return len(h)


class Chan:
    """One valid/ready channel as seen on the wires."""

    def __init__(self, dut, name, prefix, payload, valid, ready, driver):
        self.name = name
        self.driver = driver          # 'model' or 'bfm'
        self.sigs = {}
        for s in payload:
            h = getattr(dut, f"{prefix}_{s}", None)
            if h is not None:
                self.sigs[s] = h
        self.valid = getattr(dut, f"{prefix}_{valid}", None) if valid else None
        self.ready = getattr(dut, f"{prefix}_{ready}", None) if ready else None
        self.prev_raw = None
        self.prev_stalled = False
        self.v = self.r = False
        self.data = None              # payload dict at a handshake, else None
        self.n = 0
        self.vx = False
        self.waited = 0

    def fields(self):
        return {s: val(h) for s, h in self.sigs.items()}


class Sampler:
    """Samples all channels at every rising clock edge and then lets the listeners drive."""

    def __init__(self, env, chans, listeners=(), delay=0, reset=None, reset_active=1, stable_props=("C16",),
                 start_checks=True):
        self.env = env
        self.chans = chans
        self.listeners = list(listeners)
        self.delay = delay
        self.cycle = 0
        self.reset = reset
        self.reset_active = reset_active
        self.props = stable_props
        self.log = []
        self.keep_log = False
        self.in_reset = False
        self.now = 0

    def start(self):
        return self.env.spawn(self.run(), "sampler")

    async def run(self):
        clk = RisingEdge(self.env.clk)
        env = self.env
        glitches = Glitches(env, self)
        while True:
            await clk
            self.cycle += 1
            self.now = get_sim_time("step")
            rst = False
            if self.reset is not None:
                rst = val(self.reset) == self.reset_active
            self.in_reset = rst
            for c in self.chans:
                vb = raw(c.valid) if c.valid is not None else "1"
                rb = raw(c.ready) if c.ready is not None else "1"
                c.v = vb == "1"
                c.r = rb == "1"
                c.data = None
                if c.driver == "model" and vb not in "01" and not rst:
                    if not c.vx:
                        c.vx = True
                        env.v(self.props, f"{c.name}: VALID is undefined ({vb})", time=self.now)
                if c.v:
                    if c.driver == "model":
                        rawp = [h._handle.get_signal_val_binstr() for h in c.sigs.values()]
                        if c.prev_stalled and not rst and rawp != c.prev_raw:
                            diff = [s for s, a, b in zip(c.sigs, rawp, c.prev_raw) if a != b]
                            env.v(self.props, f"{c.name}: payload changed while VALID waits for READY: {diff}",
                                  time=self.now, before=dict(zip(c.sigs, c.prev_raw)), after=dict(zip(c.sigs, rawp)))
                        c.prev_raw = rawp
                        if not rst and not c.prev_stalled:
                            for s, b in zip(c.sigs, rawp):
                                if not b.isdigit() or b.strip("01"):
                                    env.v(self.props, f"{c.name}: {s} undefined while VALID: {b}", time=self.now)
                        if not c.r:
                            c.waited += 1
                            env.count["stalled_beats_observed"] += 1
                    if c.r and not rst:
                        c.data = c.fields()
                        c.n += 1
                        env.count["handshakes"] += 1
                elif c.prev_stalled and c.driver == "model" and not rst:
                    env.v(self.props, f"{c.name}: VALID deasserted before READY", time=self.now)
                c.prev_stalled = c.v and not c.r and not rst
            for l in self.listeners:
                l.edge(self)
            if self.delay:
                await Timer(self.delay, "ns")
            for l in self.listeners:
                l.drive()
            await glitches.between()


class Gen:
    """Random boolean process: a style is drawn, then ready/valid/pause decisions follow it."""

    STYLES = ("always", "p90", "p50", "p20", "p05", "burst", "alternate", "after_valid", "long_stall")

    def __init__(self, rng, style=None, allow=None):
        self.rng = rng
        self.style = style or rng.choice(allow or self.STYLES)
        self.state = True
        self.left = 0

    def next(self, other=False):
        r = self.rng
        s = self.style
        if s == "always":
            return True
        if s == "never":
            return False
        if s[0] == "p":
            return r.random() < int(s[1:]) / 100
        if s == "burst":
            if self.left <= 0:
                self.state = not self.state
                self.left = r.randrange(1, 12)
            self.left -= 1
            return self.state
        if s == "long_stall":
            if self.left <= 0:
                self.state = not self.state
                self.left = r.randrange(1, 30) if self.state else r.randrange(10, 60) if r.random() < 0.93 else r.randrange(60, 400)
            self.left -= 1
            return self.state
        if s == "alternate":
            self.state = not self.state
            return self.state
        if s == "after_valid":
            return bool(other) and r.random() < 0.6
        raise ValueError(s)


def undefined(h):
    return BinaryValue("x" * len(h), n_bits=len(h))


def idle_payload(out, rng, style, handles):
    """What the payload signals show while VALID is low: their old values, random ones, zero, or undefined ones."""
    if style == "hold":
        return
    for h in handles:
        if h is not None:
            out.set(h, rng.getrandbits(len(h)) if style == "garbage" else 0 if style == "zero" else None)


class Out:
    """Deferred writes: collected at the edge, applied by drive()."""

    def __init__(self, env=None):
        self.w = []
        self.env = env if env is not None and env.target == "C39" else None
        self.track = self.env is not None
        self.last = {}

    def set(self, h, v):
        if h is not None:
            self.w.append((h, v))

    def drive(self):
        if self.env is not None and self.last:
            self.check()
        for h, v in self.w:
            h.value = undefined(h) if v is None else v
        if self.track:
            self.last.update({h._path: (h, v) for h, v in self.w})
        self.w = []

    def check(self):
        """The signals of the peer still have the values the peer gave them: no model touches the other side's signals."""
        env = self.env
        for h, v in self.last.values():
            env.count["peer_signals_checked"] += 1
            if val(h) != v:
                env.v(("C39",), f"{h._path} belongs to the peer of the model, which drove {v}, but it is {raw(h)}", time=get_sim_time("step"))
                self.last = {}
                return


class Glitches:
    """Pulses on the signals of the peers strictly between two clock edges (combinational logic does that): nobody may notice."""

    def __init__(self, env, sampler):
        self.env, self.s, self.rng, self.outs = env, sampler, random.Random(env.cfg.get("seed", 0) + 17), None
        self.on = env.target != "C39" and self.rng.random() < 0.15

    async def between(self):
        if not self.on or self.s.delay + 4 > self.env.period or self.rng.random() < 0.5:
            return
        if self.outs is None:
            objs = list(self.s.listeners) + [v for l in self.s.listeners for v in getattr(l, "__dict__", {}).values()]
            self.outs = list({id(o): o for o in [getattr(x, "out", None) for x in objs] if isinstance(o, Out)}.values())
            for o in self.outs:
                o.track = True
        rng = self.rng
        p = rng.choice([0.2, 1])
        hs = [(h, v) for o in self.outs for h, v in o.last.values() if rng.random() < p]
        if not hs:
            return
        await Timer(1, "ns")
        for h, v in hs:
            h.value = rng.getrandbits(len(h)) if len(h) > 1 or v is None else 1 - (v & 1)
        self.env.count["glitches"] += len(hs)
        await Timer(1, "ns")
        for h, v in hs:
            h.value = undefined(h) if v is None else v


class Src:
    """Compliant driver of a valid/ready channel: presents queued items, holds them, drives garbage while idle."""

    def __init__(self, env, chan, gen, idle="hold", on_accept=None, on_present=None):
        self.env, self.rng, self.c, self.gen, self.idle = env, env.rng, chan, gen, idle
        if gen.style == "after_valid":      # a source must not wait for READY
            gen.style = "p50"
        self.queue = []
        self.cur = None
        self.out = Out(env)
        self.on_accept = on_accept
        self.on_present = on_present
        self.vstate = 0
        if chan.valid is not None:
            chan.valid.setimmediatevalue(0)

    def put(self, fields, gate=None, meta=None):
        self.queue.append((fields, gate, meta))

    def busy(self):
        return bool(self.queue) or self.cur is not None

    def flush(self):
        self.queue = []
        self.cur = None
        self.vstate = 0
        self.out.set(self.c.valid, 0)

    def edge(self, s):
        c = self.c
        if s.in_reset:
            self.flush()
            return
        if self.cur is not None and c.v and c.r:
            f, g, m = self.cur
            self.cur = None
            if self.on_accept:
                self.on_accept(f, m, s)
        if self.cur is None:
            q = self.queue
            if q and (q[0][1] is None or q[0][1]()) and self.gen.next(c.r):
                self.cur = q.pop(0)
                for n, h in c.sigs.items():
                    self.out.set(h, self.cur[0].get(n, 0) & ((1 << len(h)) - 1))
                if not self.vstate:
                    self.out.set(c.valid, 1)
                    self.vstate = 1
                if self.on_present:
                    self.on_present(self.cur[0], self.cur[2], s)
            else:
                if self.vstate:
                    self.out.set(c.valid, 0)
                    self.vstate = 0
                    self._idle()
                elif self.idle == "garbage" and self.rng.random() < 0.2:
                    self._idle()

    def _idle(self):
        idle_payload(self.out, self.rng, "garbage" if self.idle == "x" and self.c.valid is None else self.idle, self.c.sigs.values())

    def drive(self):
        self.out.drive()


class Snk:
    """Ready driver."""

    def __init__(self, env, chan, gen, on_accept=None, gate=None):
        self.env, self.c, self.gen, self.on_accept, self.gate = env, chan, gen, on_accept, gate
        self.state = 0
        self.out = Out(env)
        if chan.ready is not None:
            chan.ready.setimmediatevalue(0)

    def edge(self, s):
        c = self.c
        if s.in_reset:
            if self.state:
                self.state = 0
                self.out.set(c.ready, 0)
            return
        if c.data is not None and self.on_accept:
            self.on_accept(c.data, s)
        r = int(self.gen.next(c.v) and (self.gate is None or self.gate()))
        if r != self.state:
            self.state = r
            self.out.set(c.ready, r)

    def drive(self):
        self.out.drive()

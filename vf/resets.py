"""Reset of the models under test: through their reset signal, through assert_reset(), or through both (C41).

dut.rst always shows whether the models have to be in reset, and all monitors judge against it.  In mode 'call' the models have no
reset signal and assert_reset() follows dut.rst; in mode 'both' their reset signal is dut.rst2, and while dut.rst is asserted signal and
calls take turns in an overlapping way, so that at every moment at least one of them asks for reset."""
import inspect

from cocotb.triggers import Edge, Timer

from .bus import val


def parts(m, seen=None):
    """All objects of a model that can be reset on their own (a master consists of an engine and its channels)."""
    seen = set() if seen is None else seen
    if id(m) in seen or not type(m).__module__.startswith("cocotbext.axi") and not any(c.__module__.startswith("cocotbext.axi") for c in type(m).__mro__):
        return []
    seen.add(id(m))
    out = [m] if inspect.ismethod(getattr(m, "assert_reset", None)) else []
    for v in list(vars(m).values()):
        if hasattr(v, "assert_reset") or hasattr(v, "write_if") or hasattr(v, "read_if"):
            out += parts(v, seen)
    return out


class Resets:
    def __init__(self, env, cfg, lvl, has_rst):
        self.env, self.lvl = env, lvl
        self.mode = cfg.get("reset_by", "signal") if has_rst else "none"
        dut = env.dut
        self.ext = self.local = False
        self.objs = []
        now = val(dut.rst) == lvl
        self.sig = dut.rst if self.mode == "signal" else dut.rst2 if self.mode == "both" else None
        if self.mode == "both":
            self.ext = now
            dut.rst2.setimmediatevalue(lvl if now else 1 - lvl)
        if self.mode == "call":
            self.local = now
        self.n = 0
        if self.mode in ("call", "both"):
            env.spawn(self._run(), "reset driver")

    def args(self):
        return (self.env.dut.clk, self.sig) if self.sig is not None else (self.env.dut.clk,)

    def add(self, *models):
        if self.mode not in ("call", "both"):
            return
        for m in models:
            for o in parts(m):
                if not any(o is q for q in self.objs):
                    self.objs.append(o)
                    if self.local:
                        o.assert_reset(True)

    def _ext(self, on):
        if self.ext != on:
            self.ext = on
            self.env.dut.rst2.value = self.lvl if on else 1 - self.lvl

    def _local(self, on):
        self.local = on
        rng = self.env.rng
        self.env.count["assert_reset_calls"] += len(self.objs)
        for o in rng.sample(self.objs, len(self.objs)):
            o.assert_reset(on if rng.random() < 0.7 else int(on))

    async def _run(self):
        rng, dut = self.env.rng, self.env.dut
        if val(dut.rst) == self.lvl and self.mode == "both":
            self.env.spawn(self._turns(self.n), "reset driver")
        while True:
            await Edge(dut.rst)
            self.n += 1
            on = val(dut.rst) == self.lvl
            if not on:
                if self.local:
                    self._local(False)
                if self.mode == "both":
                    self._ext(False)
                continue
            if self.mode == "call":
                self._local(True)
                continue
            how = rng.randrange(3)
            if how:
                self._ext(True)
            if how != 1:
                self._local(True)
            self.env.spawn(self._turns(self.n), "reset driver")

    async def _turns(self, n):
        rng = self.env.rng
        while True:
            await Timer(rng.randrange(1, 25), "ns")
            if n != self.n:
                return
            if self.ext and self.local:
                if rng.random() < 0.5:
                    self._ext(False)
                else:
                    self._local(False)
            elif self.ext:
                if rng.random() < 0.5:
                    self._local(True)
                else:
                    for o in self.objs:         # a pulse, which must not end the reset by the signal
                        o.assert_reset()
                    self.env.count["assert_reset_pulses"] += 1
            else:
                self._ext(True)
            self.env.count["reset_turns"] += 1

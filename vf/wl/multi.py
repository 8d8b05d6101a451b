"""Several independent episodes at once (C39): masters, slaves and streams of every kind, each with its own bus, clock, reset and
hostile peer, in one simulation.  Every oracle judges its own instance as if it were alone."""
import importlib
import logging
import random

from cocotb.triggers import Event, Timer

from ..core import Env


class SubEnv(Env):
    """Environment of one instance: its own random source and DUT, verdicts forwarded to the whole episode."""

    def __init__(self, parent, i, ep):
        super().__init__(ep, parent.target)
        self.parent, self.i = parent, i
        self.dut = getattr(parent.dut, f"i{i}")
        self.clk = self.dut.clk
        self.spawn = parent.spawn_for(self)
        self.done = False

    def v(self, props, msg, **detail):
        props = (props,) if isinstance(props, str) else tuple(props)
        self.parent.v(("C39",) + props, f"instance {self.i} ({self.cfg['wl']}): {msg}", **detail)
        self.viol.append(msg)

    def failed(self):
        return bool(self.viol)

    def exc(self, e, where):
        super().exc(e, where)
        if self.harness:
            self.parent.harness += self.harness
            self.harness = []
            if self.parent.on_fail:
                self.parent.on_fail()


async def episode(env):
    import cocotb

    def spawn_for(sub):
        def spawn(coro, where="harness task"):
            async def body():
                try:
                    return await coro
                except Exception as e:
                    sub.exc(e, where)
            return cocotb.start_soon(body())
        return spawn
    env.spawn_for = spawn_for
    subs = []
    left = [len(env.cfg["insts"])]
    ev = Event()

    async def one(sub, wl, delay):
        await Timer(delay, "ns")
        try:
            await wl.episode(sub)
        except Exception as e:
            sub.exc(e, "workload")
        sub.done = True
        left[0] -= 1
        if not left[0]:
            ev.set()

    def pending():
        out = {}
        for s in subs:
            if not s.done:
                f = getattr(s, "pending", None)
                out[f"{s.i} {s.cfg['wl']}"] = f() if f else None
        return out
    env.pending = pending
    busy = env.rng.random() < 0.5
    for i, ep in enumerate(env.cfg["insts"]):
        s = SubEnv(env, i, ep)
        s.period = ep["period"]
        subs.append(s)
        logging.getLogger("cocotb").setLevel(env.cfg.get("log", "WARNING"))
        d = 1 if busy else env.rng.choice([1, env.rng.randrange(1, 400), env.rng.randrange(1, 4000)])
        cocotb.start_soon(one(s, importlib.import_module(ep["wl"]), d))
    await ev.wait()
    for s in subs:
        env.count.update(s.count)
        for k, b in s.buckets.items():
            for v in b:
                env.seen(k, v)
        env.sig(s.signature())
        for x in s.samples[:1]:
            env.sample(instance=s.i, workload=s.cfg["wl"], **x)
    env.count["instances"] += len(subs)
    env.seen("mixes", sorted((s.cfg["wl"], s.cfg.get("proto", "")) for s in subs))
    env.seen("clock_periods", sorted(s.period for s in subs))
    env.nontrivial = sum(s.nontrivial for s in subs) >= 2

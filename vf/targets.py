"""Targets for slaves: spies with delays, faults and access logs."""
from cocotb.triggers import RisingEdge, Timer

from .wl.common import now


class Boom(Exception):
    pass


ERRORS = [Exception, ValueError, TypeError, KeyError, IndexError, AssertionError, RuntimeError, NotImplementedError,
          AttributeError, OSError, Boom, ZeroDivisionError]


class Spy:
    """Memory-like object; every access is logged, may be delayed and may raise."""

    def __init__(self, env, size, delay="none", init=None, form="bytes"):
        self.env, self.size, self.delay, self.form = env, size, delay, form
        self.mem = bytearray(size) if init is None else bytearray(init)
        self.log = []
        self.bad_r = set()      # bad word numbers (unit bytes)
        self.bad_w = set()
        self.unit = 1
        self.n = 0
        self.overlap = 0
        self.busy = {"r": 0, "w": 0}
        self.oor = []

    async def _wait(self):
        d = self.delay
        r = self.env.rng
        if d == "none":
            return
        if d == "rand":
            x = r.random()
            if x < 0.4:
                return
            if x < 0.7:
                await Timer(r.randrange(1, 40), "ns")
            else:
                for _ in range(r.randrange(1, 12)):
                    await RisingEdge(self.env.clk)

    def _fail(self, bad, addr, n):
        return any(a // self.unit in bad for a in range(addr, addr + max(n, 1)))

    async def read(self, address, length, **kw):
        e = {"k": "r", "a": address, "n": length, "t0": now(), "kw": kw}
        self.log.append(e)
        self.env.count["target_accesses"] += 1
        await self._wait()
        e["t1"] = now()
        if address < 0 or address + length > self.size:
            self.oor.append(e)
            raise Boom("outside of the target")
        if self._fail(self.bad_r, address, length):
            e["err"] = True
            self.env.count["target_faults"] += 1
            raise self.env.rng.choice(ERRORS)("injected")
        d = bytes(self.mem[address:address + length])
        e["d"] = d
        return d if self.form == "bytes" else bytearray(d)

    async def write(self, address, data, **kw):
        data = bytes(data)
        e = {"k": "w", "a": address, "n": len(data), "d": data, "t0": now(), "kw": kw}
        self.log.append(e)
        self.env.count["target_accesses"] += 1
        await self._wait()
        e["t1"] = now()
        if address < 0 or address + len(data) > self.size:
            self.oor.append(e)
            raise Boom("outside of the target")
        if self._fail(self.bad_w, address, len(data)):
            e["err"] = True
            self.env.count["target_faults"] += 1
            raise self.env.rng.choice(ERRORS)("injected")
        self.mem[address:address + len(data)] = data

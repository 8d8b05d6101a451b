import random

from cocotb.triggers import Event, RisingEdge, Timer, Combine, First, ReadOnly
from cocotb.utils import get_sim_time


def now():
    return get_sim_time("step")


class CountingEvent(Event):
    """User supplied completion event that records when and how often it fires."""

    def __init__(self):
        super().__init__()
        self.fire_log = []
        self.times = []

    def set(self, data=None):
        self.fire_log.append(data)
        self.times.append(now())
        super().set(data)


async def gap(env, rng, scale=1.0):
    """Random pause between calls: none, sub-cycle, some cycles."""
    x = rng.random()
    if x < 0.35:
        return
    if x < 0.6:
        await Timer(rng.randrange(1, env.period * 2), "ns")
    elif x < 0.8:
        await RisingEdge(env.clk)
    else:
        for _ in range(int(rng.randrange(1, 12) * scale)):
            await RisingEdge(env.clk)


async def cycles(env, n):
    e = RisingEdge(env.clk)
    for _ in range(n):
        await e


class Group:
    """Waits for a set of harness tasks."""

    def __init__(self, env):
        self.env = env
        self.n = 0
        self.ev = Event()

    def add(self, coro, where="operation"):
        self.n += 1

        async def body():
            try:
                await coro
            except Exception as e:
                self.env.exc(e, where)
            self.n -= 1
            if not self.n:
                self.ev.set()
        import cocotb
        return cocotb.start_soon(body())

    async def wait(self):
        while self.n:
            self.ev.clear()
            await self.ev.wait()


def pick_addr(rng, space, length, unit=1, hot=None):
    """Addresses near 0, near the top, near 4 KiB boundaries, clustered, or uniform; always length fits."""
    hi = space - max(length, 1)
    if hi < 0:
        return None
    x = rng.random()
    if x < 0.12:
        a = rng.randrange(0, min(hi, 64) + 1)
    elif x < 0.24:
        a = hi - rng.randrange(0, min(hi, 64) + 1) if rng.random() < 0.6 else hi
    elif x < 0.6 and space > 0x1000:
        page = rng.randrange(1, max(2, space >> 12)) << 12
        a = page + rng.randrange(-80, 80)
        if rng.random() < 0.3:
            a = page - length
    elif hot is not None and x < 0.8:
        a = hot + rng.randrange(0, 128)
    else:
        a = rng.randrange(0, hi + 1)
    return max(0, min(hi, a))


def prand_len(rng, bb, big=600, zero=0.04):
    x = rng.random()
    if x < zero:
        return 0
    if x < 0.25:
        return rng.randrange(1, 2 * bb + 1)
    if x < 0.6:
        return rng.randrange(1, 8 * bb + 2)
    if x < 0.9:
        return rng.randrange(1, max(2, min(big, 24 * bb)))
    return rng.randrange(1, big + 1)

"""Whole systems: several real masters or users against shared memories behind real slaves, bridges and address maps.

Decides C19 (per-byte linearizability of concurrent operations) and C37 (bridging is transparent, exactly once)."""
import mmap
from collections import Counter

import cocotbext.axi as ax
from cocotb.triggers import Event, RisingEdge, Timer
from cocotbext.axi import AddressSpace, MemoryRegion, PeripheralRegion, SparseMemoryRegion
from cocotbext.axi.address_space import MemoryInterface
from cocotbext.axi.sparse_memory import SparseMemory

from .. import linear
from ..pauses import PauseLog, pauser
from ..targets import ERRORS
from .common import CountingEvent, Group, gap, now, pick_addr

UNIT = 128
NAMES = {"axi": "Axi", "axil": "AxiLite", "apb": "Apb"}


class Ctx:
    pass


class Store:
    """The storage every port ends in; logs, delays and fails like a real peripheral."""

    def __init__(self, env, size, style, delay):
        self.env, self.size, self.style, self.delay = env, size, style, delay
        self.mem = bytearray(size)
        self.bad = set()
        self.nr, self.nw = Counter(), Counter()
        self.sizes = set()
        self.oor = []

    def _do(self, k, a, d):
        env = self.env
        n = d if k == "r" else len(d)
        env.count["target_accesses"] += 1
        if a < 0 or a + n > self.size:
            self.oor.append((k, a, n))
            raise IndexError("outside of the store")
        if any(q in self.bad for q in range(a // UNIT, (a + max(n, 1) - 1) // UNIT + 1)):
            env.count["target_faults"] += 1
            raise env.rng.choice(ERRORS)("injected")
        c = self.nr if k == "r" else self.nw
        for i in range(a, a + n):
            c[i] += 1
        if k == "r":
            d = bytes(self.mem[a:a + n])
            return bytearray(d) if self.style == "sync_ba" else d
        self.mem[a:a + n] = d

    async def _slow(self, k, a, d):
        rng = self.env.rng
        if k == "w":
            d = bytes(d)
        if self.delay and rng.random() < 0.5:
            await Timer(rng.randrange(1, 50), "ns")
        return self._do(k, a, d)

    def _call(self, k, a, d, kw):
        if self.style in ("sync", "sync_ba"):
            return self._do(k, a, d)
        c = self._slow(k, a, d)
        if self.style == "task":
            import cocotb
            return cocotb.start_soon(c).join()
        if self.style == "awaitable":
            return Aw(c)
        return c

    def read(self, address, length, **kw):
        return self._call("r", address, length, kw)

    def write(self, address, data, **kw):
        return self._call("w", address, data, kw)


class Aw:
    def __init__(self, c):
        self.c = c

    def __await__(self):
        return self.c.__await__()


def bus(x, proto, pfx, kind=""):
    return getattr(ax, f"{NAMES[proto]}{kind}Bus").from_prefix(x.env.dut, pfx)


def rst_args(x):
    d = x.env.dut
    return (d.clk, d.rst) if x.has_rst else (d.clk,)


def pausables(x, pfx, *ms):
    for m in ms:
        if type(m).__name__.startswith("Apb"):
            continue            # the pause log of APB is exercised by C13 and C15
        for sub in (m, getattr(m, "write_if", None), getattr(m, "read_if", None)):
            for c in ("aw", "w", "b", "ar", "r"):
                ch = getattr(sub, c + "_channel", None)
                if ch is not None:
                    x.pausable[f"{pfx}.{type(m).__name__}.{c}"] = ch


def make_master(x, d):
    proto, rng = d["proto"], x.env.rng
    kw = {"max_burst_len": d["mbl"]} if proto == "axi" and d.get("mbl") else {}
    cls = getattr(ax, NAMES[proto] + "Master")
    m = cls(bus(x, proto, d["pfx"]), *rst_args(x), **kw)
    pausables(x, d["pfx"], m)
    if proto == "apb":
        x.apbs.append(m)
    return m


def make_slave(x, d, target, mem):
    proto, rng = d["proto"], x.env.rng
    split = proto != "apb" and rng.random() < 0.3
    if mem is not None:
        if split:
            s = [getattr(ax, NAMES[proto] + "RamWrite")(bus(x, proto, d["pfx"], "Write"), *rst_args(x), mem=mem),
                 getattr(ax, NAMES[proto] + "RamRead")(bus(x, proto, d["pfx"], "Read"), *rst_args(x), mem=mem)]
        else:
            s = [getattr(ax, NAMES[proto] + "Ram")(bus(x, proto, d["pfx"]), *rst_args(x), mem=mem)]
        if x.ram is None:
            x.ram = s[0]
    elif split:
        s = [getattr(ax, NAMES[proto] + "SlaveWrite")(bus(x, proto, d["pfx"], "Write"), *rst_args(x), target=target),
             getattr(ax, NAMES[proto] + "SlaveRead")(bus(x, proto, d["pfx"], "Read"), *rst_args(x), target=target)]
    else:
        s = [getattr(ax, NAMES[proto] + "Slave")(bus(x, proto, d["pfx"]), *rst_args(x), target=target)]
    pausables(x, d["pfx"], *s)
    if proto == "apb":
        x.apbs += s
    return s


class Direct:
    """Users that access the memory interface without a bus in between."""

    def __init__(self, top):
        self.top = top


def window_on(x, t, size):
    """t mapped into a larger address space and seen again through windows."""
    rng = x.env.rng
    how = rng.choice(["space", "space", "split", "none", "pool"])
    big = 4 * size
    base = rng.randrange(0, 3 * size // UNIT + 1) * UNIT
    if how == "pool":
        sp = AddressSpace(big)
        sp.register_region(t, size, size)
        w = sp.create_window_pool(size, size).create_window(0, size)
        return w
    sp = AddressSpace(big)
    if how == "none":
        # untranslated: the region sees the addresses of the space
        sp.register_region(t, 0, size, offset=None)
        return sp.create_window(0, size)
    if how == "space":
        sp.register_region(t, base, size)
    else:
        a = 0
        while a < size:
            n = min(size - a, UNIT * rng.randrange(1, 1 + size // UNIT))
            sp.register_region(t, base + a, n, offset=a)
            a += n
    w = sp.create_window(base, size)
    if rng.random() < 0.4:
        lo = rng.randrange(0, base + 1)
        w = sp.create_window(lo, base - lo + size).create_window(base - lo, size)
    return w


def leaf(x):
    rng = x.env.rng
    if x.kind == "store":
        if x.size >= UNIT and rng.random() < 0.7:
            return PeripheralRegion(x.store, x.size)
        return x.direct_store
    if x.kind == "mmap":
        return MemoryRegion(x.size, mem=x.mem)
    return SparseMemoryRegion(x.size, mem=x.mem)


class DirectStore:
    """Plain object with coroutine methods, as slaves and address spaces accept as targets."""

    def __init__(self, s):
        self.s, self.size = s, s.size

    async def read(self, a, n, **kw):
        return await self.s._slow("r", a, n)

    async def write(self, a, d, **kw):
        await self.s._slow("w", a, d)


def build_chain(x, port, busses):
    """Everything between a port and the storage, built from the far end; the widths of the busses on the way, far first."""
    rng = x.env.rng
    t = leaf(x)
    if isinstance(t, MemoryInterface) and x.mode == "bridge" and rng.random() < 0.5:
        t = window_on(x, t, x.size)
    for i, d in enumerate(reversed(busses)):
        first = i == 0
        mem = x.mem if first and x.kind in ("mmap", "sparse") and (x.mode == "ram" or rng.random() < 0.5) else None
        m = None
        if rng.random() < 0.5:
            m = make_master(x, d)
        make_slave(x, d, t, mem)
        t = m if m is not None else make_master(x, d)
        if i < len(busses) - 1 and rng.random() < 0.5 or port["direct"]:
            if d["aw"] <= 16 or rng.random() < 0.7:
                t = window_on(x, t, x.size)
    return t


def make_api(x, port, top):
    """One operation, returning (response ok?, data)."""
    env, rng = x.env, x.env.rng
    d = port["busses"][0] if port["busses"] else None
    proto = d["proto"] if d and not port["direct"] else None
    m = top

    async def run(op):
        a, kw = op["addr"], dict(op.get("kw", {}))
        style = op["style"]
        if op["k"] == "w":
            if style == "init":
                ev = CountingEvent()
                x.m_init(m, "write", proto)(a, op["data"], event=ev, **kw)
                await ev.wait()
                return ev.data.resp if proto != "none" else 0, None
            r = await m.write(a, op["data"], **kw)
            return (r.resp if r is not None else 0), None
        if style == "init":
            ev = CountingEvent()
            x.m_init(m, "read", proto)(a, op["n"], event=ev, **kw)
            await ev.wait()
            return ev.data.resp, bytes(ev.data.data)
        if style == "words":
            ws = op["ws"]
            r = await m.read_words(a, op["n"] // ws, "little", ws)
            return 0, b"".join(v.to_bytes(ws, "little") for v in r)
        r = await m.read(a, op["n"], **kw)
        if isinstance(r, (bytes, bytearray)):
            return 0, bytes(r)
        return r.resp, bytes(r.data)
    return run


def fresh_data(x, a, n):
    """Bytes never written at their addresses before; the length shrinks when an address has used up its values."""
    out = bytearray()
    for i in range(a, a + n):
        k = x.used[i]
        if k >= 255:
            break
        x.used[i] = k + 1
        out.append((x.init[i] + 1 + k) & 0xff)
    return bytes(out)


async def user(env, x, port, run, ops, count):
    rng = env.rng
    d = port["busses"][0] if port["busses"] else None
    proto = None if port["direct"] or d is None else d["proto"]
    g = Group(env)
    for _ in range(count):
        if x.stop:
            break
        n = rng.choice([1, 1, 2, 4, 8, rng.randrange(1, 40), rng.randrange(1, x.big + 1)])
        n = min(n, x.size)
        if rng.random() < x.hot:
            a = min(x.size - n, max(0, x.hotspot + rng.randrange(-8, 24)))
        else:
            a = pick_addr(rng, x.size, n)
        op = {"k": rng.choice("rw"), "addr": a, "style": "blocking", "port": port["name"]}
        if x.store and x.store.bad:
            hit = any(q in x.store.bad for q in range(a // UNIT, (a + n - 1) // UNIT + 1))
            if hit and op["k"] == "w":
                q = a // UNIT if a // UNIT in x.store.bad else (a + n - 1) // UNIT
                if q not in x.store.bad:
                    continue
                a = q * UNIT + a % UNIT
                n = min(n, (q + 1) * UNIT - a)
                op["addr"] = a
            op["bad"] = hit
        if op["k"] == "w":
            op["data"] = rng.randbytes(n) if op.get("bad") else fresh_data(x, a, n)
            n = len(op["data"])
            if not n:
                op["k"] = "r"
                n = 1
        op["n"] = n
        if proto is not None:
            if rng.random() < 0.4:
                op["style"] = "init"
            if proto == "axi":
                kw = op["kw"] = {}
                if rng.random() < 0.3:
                    kw["awid" if op["k"] == "w" else "arid"] = rng.randrange(1 << min(d["idw"], 8))
                if x.mode == "ram" and rng.random() < 0.3:
                    kw["size"] = rng.randrange(0, (d["dw"] // 8 - 1).bit_length() + 1)
            if x.alias and d["aw"] > 13 and rng.random() < 0.4:
                op["addr"] += x.size * rng.randrange(0, (1 << d["aw"]) // x.size)
        if op["k"] == "r" and op["style"] == "blocking" and rng.random() < 0.15 and x.words[port["name"]]:
            ws = rng.choice([1, 2, 4, 8])
            if op["n"] >= ws:
                op["n"] -= op["n"] % ws
                op["style"], op["ws"] = "words", ws
                op.pop("kw", None)
        op["a0"] = op["addr"] % x.size
        ops.append(op)

        async def one(op=op):
            op["t0"] = now()
            try:
                resp, data = await run(op)
            except Exception as e:
                if not op.get("bad") or port["bridged"] or not port["direct"]:
                    raise
                op["t1"], op["resp"], op["exc"] = now(), 2, type(e).__name__
                return
            op["t1"] = now()
            op["resp"] = int(resp)
            if data is not None:
                op["got"] = data
        if rng.random() < x.p_block:
            await one()
        else:
            g.add(one())
        await gap(env, rng, x.gap)
    await g.wait()


async def backdoor(env, x, ops):
    """Direct accesses of the user to the shared memory."""
    rng = env.rng
    while not x.stop:
        await Timer(rng.randrange(1, 400), "ns")
        n = rng.choice([1, 2, 8, 30])
        a = min(x.size - n, max(0, x.hotspot + rng.randrange(-8, 24))) if rng.random() < 0.8 else rng.randrange(0, x.size - n + 1)
        if x.store and any(q in x.store.bad for q in range(a // UNIT, (a + n - 1) // UNIT + 1)):
            continue
        t = now()
        if rng.random() < 0.5:
            dat = fresh_data(x, a, n)
            if not dat:
                continue
            x.put(a, dat)
            ops.append({"k": "w", "a0": a, "data": dat, "n": len(dat), "t0": t, "t1": t, "resp": 0, "port": "backdoor"})
        else:
            ops.append({"k": "r", "a0": a, "got": x.get(a, n), "n": n, "t0": t, "t1": t, "resp": 0, "port": "backdoor"})


def judge(env, x, ops, P):
    w, r = {}, {}
    for op in ops:
        if "t1" not in op:
            env.v(P, "an operation did not complete", op=show(op))
            return
        if op.get("bad"):
            if not op["resp"] and not x.ports[op["port"]]["bridged"] and (op["style"] != "words" or x.ports[op["port"]]["direct"]):
                env.v(P, "an access to a failing target was reported as successful", op=show(op))
            continue
        if op["resp"]:
            env.v(P, "an access to working memory was reported as failed", op=show(op))
        if op["k"] == "r" and len(op["got"]) != op["n"]:
            env.v(P, f"a read returned {len(op['got'])} bytes instead of {op['n']}", op=show(op))
            return
        dst, data = (w, op["data"]) if op["k"] == "w" else (r, op["got"])
        for i, v in enumerate(data):
            dst.setdefault(op["a0"] + i, []).append((op["t0"], op["t1"], v, op))
    nops = 0
    for a in sorted(set(w) | set(r)):
        ww, rr = w.get(a, ()), r.get(a, ())
        why = linear.check(x.init[a], [e[:3] for e in ww], [e[:3] for e in rr])
        nops += len(ww) + len(rr)
        env.seen("byte_history_sizes", (min(len(ww), 20), min(len(rr), 20)))
        conc = sum(1 for e in rr for f in ww if e[0] < f[1] and f[0] < e[1])
        env.count["concurrent_read_write_pairs"] += conc
        if why:
            env.v(P, f"byte {a:#x}: the history is not linearizable: {why}",
                  writes=[(s, e, f"{v:02x}", o["port"]) for s, e, v, o in ww][-12:], reads=[(s, e, f"{v:02x}", o["port"]) for s, e, v, o in rr][-12:])
            return
    env.count["byte_operations"] += nops
    env.count["bytes_with_history"] += len(set(w) | set(r))


def show(op):
    return {k: op[k] for k in ("k", "addr", "n", "style", "port", "resp", "t0", "t1", "kw", "exc") if k in op}


def judge_counts(env, x, ops):
    """Exactly once: accesses seen by the storage against the accesses of the users."""
    st = x.store
    need_w, lo, hi = Counter(), Counter(), Counter()
    for op in ops:
        if op["port"] == "backdoor":
            continue
        rng_ = range(op["a0"], op["a0"] + op["n"])
        if op["k"] == "w":
            need_w.update(rng_)
            continue
        lo.update(rng_)
        acc = [(op["a0"], op["n"])]
        for d in x.ports[op["port"]]["busses"]:
            bb = d["dw"] // 8
            acc = [(q * bb, bb) for a, n in acc for q in range(a // bb, (a + n - 1) // bb + 1)]
        for a, n in acc:
            hi.update(range(a, a + n))
    for a in range(x.size):
        if st.nw[a] != need_w[a]:
            env.v(("C37",), f"byte {a:#x} was written {st.nw[a]} times at the far end, {need_w[a]} writes were requested")
            return
        if not lo[a] <= st.nr[a] <= hi[a]:
            env.v(("C37",), f"byte {a:#x} was read {st.nr[a]} times at the far end, expected {lo[a]}..{hi[a]}")
            return
    env.count["forwarded_bytes_counted"] += sum(need_w.values()) + sum(st.nr.values())


async def episode(env):
    cfg, rng, dut = env.cfg, env.rng, env.dut
    x = Ctx()
    x.env = env
    x.mode = cfg["mode"]
    P = ("C19",) if x.mode == "ram" else ("C37",)
    x.size, x.kind = cfg["size"], cfg["kind"]
    x.has_rst = rng.random() < 0.5
    dut.rst.setimmediatevalue(0)
    await Timer(rng.randrange(1, env.period), "ns")
    x.init = rng.randbytes(x.size)
    x.used = [0] * x.size
    x.store = None
    x.pausable, x.apbs = {}, []
    x.ram = None
    if x.kind == "store":
        s = x.store = Store(env, x.size, cfg["store_style"], cfg.get("store_delay"))
        x.direct_store = DirectStore(s)
        s.mem[:] = x.init
        x.mem = None
        x.get = lambda a, n: bytes(s.mem[a:a + n])

        def put(a, d):
            s.mem[a:a + len(d)] = d
        x.put = put
        if cfg.get("faults"):
            nb = x.size // UNIT
            s.bad = {q for q in range(nb) if rng.random() < 0.3} or {rng.randrange(nb)}
    elif x.kind == "mmap":
        x.mem = mm = mmap.mmap(-1, x.size) if rng.random() < 0.7 else bytearray(x.size)
        mm[:] = x.init
    else:
        x.mem = SparseMemory(x.size)
        x.mem.write(0, x.init)
    x.ports = {}
    x.big = cfg.get("big", 200)
    x.hot, x.hotspot = cfg.get("hot", 0.7), rng.randrange(8, x.size - 40)
    x.p_block, x.gap = cfg.get("p_block", 0.3), cfg.get("gap", 1.0)
    x.alias = x.mode == "ram" and x.size >= 4096 and x.kind != "store"
    x.stop = False
    x.m_init = lambda m, k, proto: getattr(m, "init_" + k)
    tops, x.words = [], {}
    for p in cfg["ports"]:
        p = dict(p)
        p["bridged"] = len(p["busses"]) > (0 if p["direct"] else 1)
        x.ports[p["name"]] = p
        tops.append((p, build_chain(x, p, p["busses"])))
        x.words[p["name"]] = hasattr(tops[-1][1], "read_words")
        await Timer(rng.choice([0, 1]) * 100 + 1, "ps")
    if x.kind != "store":
        r = x.ram if x.ram is not None and rng.random() < 0.7 else None
        if r is None:
            r = ax.MemoryRegion(x.size, mem=x.mem) if x.kind == "mmap" else x.mem
        if hasattr(r, "read") and not isinstance(r, ax.MemoryRegion):
            x.get = lambda a, n: bytes(r.read(a, n))
            x.put = lambda a, d: r.write(a, d)
        else:
            x.get = lambda a, n: bytes(r[a:a + n])

            def put(a, d):
                r[a:a + len(d)] = d
            x.put = put
    log = PauseLog(env)
    pstop = [False]
    if cfg.get("pauses"):
        chans = list(x.pausable.items())
        rng.shuffle(chans)
        env.spawn(pauser(env, dict(chans[:rng.randrange(1, 7)]), log, pstop), "pauser")
    ops = []
    env.pending = lambda: {"operations": [show(o) for o in ops if "t1" not in o][:5]}
    g = Group(env)
    for p, top in tops:
        for k in range(p.get("users", 1)):
            g.add(user(env, x, p, make_api(x, p, top), ops, p["nops"]), f"user of {p['name']}")
    if cfg.get("backdoor") and x.kind != "store":
        env.spawn(backdoor(env, x, ops), "backdoor")
    await g.wait()
    x.stop = True
    pstop[0] = True
    await Timer(500, "ns")
    t = now()
    fin = x.get(0, x.size)
    bad = x.store.bad if x.store else ()
    for a in range(0, x.size, UNIT):
        if a // UNIT not in bad:
            ops.append({"k": "r", "a0": a, "got": fin[a:a + UNIT], "n": min(UNIT, x.size - a), "t0": t, "t1": t, "resp": 0, "port": "backdoor"})
    judge(env, x, ops, P)
    if x.store:
        if x.store.oor:
            env.v(P, "the storage was accessed outside of its range", accesses=x.store.oor[:5])
        if not x.store.bad:
            judge_counts(env, x, ops)
    env.seen("topologies", [(p["direct"], [(d["proto"], d["dw"]) for d in p["busses"]]) for p in cfg["ports"]])
    env.sig([(o["k"], o["a0"], o["n"], o["t0"], o["t1"]) for o in ops])
    env.count["operations"] += len(ops)
    env.nontrivial = len(ops) >= 4
    env.sample(ports=[(p["direct"], [(d["proto"], d["dw"]) for d in p["busses"]]) for p in cfg["ports"]], kind=x.kind, size=x.size,
               operations=[(o["k"], o["a0"], o["n"], o["t0"], o["t1"], o["port"]) for o in ops[:6]])

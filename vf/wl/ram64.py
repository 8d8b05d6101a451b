"""RAM models on the bus as flat memories, up to the full 64 bit address space; word accessors of masters and RAM models (C35, C36), also through windows on the masters (C33)."""
import mmap

import cocotbext.axi as ax
from cocotb.triggers import RisingEdge, Timer
from cocotbext.axi.memory import Memory
from cocotbext.axi.sparse_memory import SparseMemory

from .common import cycles, gap
from .memories import Flat, word_call
from .pure import pick_offset

NAMES = {"axi": "Axi", "axil": "AxiLite", "apb": "Apb"}


class Shifted:
    """The flat memory as seen through a window."""

    def __init__(self, flat, base):
        self.flat, self.base = flat, base

    def read(self, a, n):
        return self.flat.read(a + self.base, n)

    def write(self, a, d):
        self.flat.write(a + self.base, d)


async def window_of(env, o, lim, a, n, what):
    """A window on a bus master that contains [a, a+n), possibly made by way of another window or a pool: (window, base, size)."""
    rng, P = env.rng, ("C33",)
    base, view, size = 0, o, lim
    if o.size != lim:
        env.v(P, "a bus master has another size than its address space", got=o.size, expected=lim, **what)
        return o, 0, lim
    for _ in range(rng.choice([1, 1, 2, 3])):
        b = rng.choice([a - base, 0, rng.randrange(0, a - base + 1), max(0, a - base - rng.randrange(0, 40))])
        least = a + max(n, 1) - base - b
        w = rng.choice([least, size - b, min(size - b, least + rng.randrange(0, 100))])
        over = rng.choice([1, 1, rng.randrange(1, 1 << 66)])
        make = rng.choice([view.create_window, view.create_window, view.create_window_pool])
        if rng.random() < 0.3:
            env.count["refused_windows"] += 1
            st, r = await attempt(lambda: make(b, size - b + over))
            if st == "ok":
                env.v(P, "a window that extends beyond its parent was created on a bus master", offset=b, window=size - b + over, **what)
        whole = w == size - b and rng.random() < 0.5
        st, r = await attempt(lambda: make(b) if whole else make(b, w))
        env.count["windows"] += 1
        if st != "ok":
            env.v(P, f"a window on a bus master cannot be created: {r!r}", offset=b, window=w, **what)
            return o, 0, lim
        view, base, size = r, base + b, w
        k = pick_offset(rng, size, 1)
        st, r = await attempt(lambda: view.get_absolute_address(k))
        if view.size != size or st != "ok" or r != base + k:
            env.v(P, "a window on a bus master has another place", got=(view.size, r), expected=(size, base + k), **what)
        if rng.random() < 0.3:
            k = rng.choice([-1, size, size + rng.randrange(1 << 20), size - min(size, 3), -base - 1])
            env.count["refused_accesses"] += 1
            st, r = await attempt((lambda: view.write(k, b"abcd")) if rng.random() < 0.5 else (lambda: view.read(k, 4)))
            if st == "ok":
                env.v(P + ("C35",), "an access beyond a window on a bus master was not refused", offset=k, window=size, base=base, **what)
    return view, base, size


async def attempt(f):
    try:
        v = f()
        if hasattr(v, "send"):
            v = await v
        return "ok", v
    except Exception as e:
        return "exc", e


async def episode(env):
    cfg, rng, dut = env.cfg, env.rng, env.dut
    dut.rst.setimmediatevalue(0)
    await Timer(rng.randrange(1, env.period), "ns")
    size = cfg["size"]
    masters, rams = [], []
    mem = None
    for i, b in enumerate(cfg["busses"]):
        proto = b["proto"]
        bus = lambda kind="": getattr(ax, f"{NAMES[proto]}{kind}Bus").from_prefix(dut, b["pfx"])
        cls = lambda kind: getattr(ax, NAMES[proto] + kind)
        kw = {"max_burst_len": b["mbl"]} if proto == "axi" and b.get("mbl") else {}
        masters.append((proto, b, cls("Master")(bus(), dut.clk, dut.rst, **kw)))
        if mem is not None:
            args = {"mem": mem}
        else:
            k = rng.choice(["default", "size", "mem"] if size == 2**64 else ["size", "sparse", "mmap"] if size <= 2**20 else ["size", "sparse"])
            args = {} if k == "default" else {"size": size} if k == "size" else {"mem": mmap.mmap(-1, size) if k == "mmap" else SparseMemory(size)}
        split = proto != "apb" and rng.random() < 0.25
        if split:
            w = cls("RamWrite")(bus("Write"), dut.clk, dut.rst, **args)
            r = cls("RamRead")(bus("Read"), dut.clk, dut.rst, mem=w.mem)
            rams += [(proto, w), (proto, r)]
            mem = w.mem
        else:
            r = cls("Ram")(bus(), dut.clk, dut.rst, **args)
            rams.append((proto, r))
            mem = r.mem
    for proto, r in rams:
        if r.size != size:
            env.v(("C35",), "the RAM model reports another size than its memory", got=r.size, size=size)
    flat = Flat()
    backs = rams + [("back", Memory(mem=mem))]
    await cycles(env, rng.randrange(1, 4))
    spots = [pick_offset(rng, size, 1) for _ in range(2)] + [0, size - 1]
    if size == 2**64:
        spots += [2**63, 2**32, 2**48 + 4096]
    env.pending = lambda: what
    for _ in range(cfg["nops"]):
        write = rng.random() < 0.5
        n = rng.choice([1, 2, 3, 4, 8, 16, rng.randrange(0, 100), rng.randrange(1, 400)])
        n = min(n, size)
        a = max(0, min(size - n, rng.choice(spots) + rng.randrange(-60, 60))) if rng.random() < 0.85 else pick_offset(rng, size, n)
        if a >= size:
            continue
        onbus = rng.random() < 0.65
        words = rng.random() < 0.5
        if onbus:
            proto, b, o = rng.choice(masters)
            lim = 1 << b["aw"]
            if a + n > lim:
                a = max(0, lim - n - rng.randrange(0, 20))
            what = {"through": f"{proto} master", "data_width": b["dw"], "address_width": b["aw"]}
        else:
            proto, o = rng.choice(backs)
            lim = size
            what = {"through": f"{proto} RAM model"}
        what.update(size=size, address=a, length=n, write=write)
        env.count["bus_accesses" if onbus else "backdoor_accesses"] += 1
        wbase, mem_view = 0, flat
        if onbus and rng.random() < 0.35:
            o, wbase, lim = await window_of(env, o, lim, a, n, what)
            lim += wbase
            what.update(window_base=wbase, window_end=lim)
            mem_view = Shifted(flat, wbase)
        if words:
            kw = {}
            if onbus and rng.random() < 0.3 and (proto != "apb"):
                kw = {"prot": ax.AxiProt(rng.randrange(8))}
            if onbus and proto == "axi" and rng.random() < 0.3:
                kw["size"] = rng.randrange(0, (b["dw"] // 8 - 1).bit_length() + 1)
            P = ("C36", "C35") + (("C33",) if mem_view is not flat else ())
            c = word_call(rng, o, write, min(size, lim) - a, a - wbase, mem_view, kw)
            if c is None:
                continue
            desc, call, exp, ok, n = c
            if onbus and n > cfg["maxn"]:
                continue
            env.count["word_calls"] += 1
            what["call"] = desc
            env.seen("word_calls", (what["through"], desc[0], desc[3], desc[4]))
            st, r = await attempt(call)
            if not ok:
                env.count["unfitting_values"] += 1
                if st == "ok":
                    env.v(("C36",), "a value that does not fit the word was accepted", **what)
                exp = None
            elif st != "ok":
                env.v(P, f"a word access raised {r!r}", **what)
                return
            elif write:
                flat.write(a, exp)
            elif r != exp or isinstance(r, (list, tuple)) != isinstance(exp, list):
                env.v(P, "a word read returned another value", got=r, expected=exp, **what)
                return
        else:
            P = ("C35", "C33") if mem_view is not flat else ("C35",)
            env.seen("paths", (what["through"], write, a == 0, a + n == size))
            if write:
                d = rng.randbytes(n)
                src = rng.choice([bytes, bytearray])(d)
                st, r = await attempt(lambda: o.write(a - wbase, src))
                if st == "ok":
                    flat.write(a, d)
            else:
                st, r = await attempt(lambda: o.read(a - wbase, n))
                if st == "ok":
                    exp = flat.read(a, n)
                    if onbus and (r.address, len(r.data)) != (a, n):
                        env.v(P, "a read response describes another access", got=(r.address, len(r.data)), **what)
                    r = bytes(r.data if onbus else r)
                    if r != exp:
                        env.v(P, "a read differs from the last bytes written", got=r, expected=exp, **what)
                        return
            if st != "ok":
                env.v(P, f"an access raised {r!r}", **what)
                return
        env.sig(what["through"], a, n, write)
        env.count["ops"] += 1
        # the neighbourhood as seen through another port
        proto, o = rng.choice(backs)
        lo, hi = max(0, a - 20), min(size, a + n + 20)
        st, g = await attempt(lambda: o.read(lo, hi - lo))
        if st != "ok" or bytes(g) != flat.read(lo, hi - lo):
            env.v(P, "the memory differs from the bytes written", got=repr(g) if st != "ok" else g, expected=flat.read(lo, hi - lo), at=lo, seen_through=proto, **what)
            return
        if rng.random() < 0.3:
            await gap(env, rng)
    for a in list(flat.m)[:300]:
        proto, o = rng.choice(backs)
        if o.read(a, 1)[0] != flat.m[a]:
            env.v(("C35",), "a byte differs from the last value written", address=a, expected=flat.m[a])
            return
    env.sample(size=size, busses=[f"{b['proto']}/{b['dw']}/{b['aw']}" for b in cfg["busses"]], bytes_touched=len(flat.m))
    env.count["bytes_touched"] += len(flat.m)
    env.nontrivial = True

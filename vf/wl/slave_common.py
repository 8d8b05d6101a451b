"""Construction of the slave models with every kind of backing store, faults and memory bookkeeping (C07-C10, C12, C15, C23)."""
import mmap

import cocotbext.axi as ax
from cocotbext.axi import AddressSpace, MemoryRegion, SparseMemoryRegion
from cocotbext.axi.sparse_memory import SparseMemory

from ..memmodel import ByteModel
from ..resets import Resets
from ..targets import Spy
from .common import now
from ..bus import raw

PREFIX = {"axi": "Axi", "axil": "AxiLite"}


class Ctx:
    pass


def make_target(env, cfg, x):
    """Creates the slave under test and uniform access to its backing store."""
    dut, rng = env.dut, env.rng
    proto = cfg["proto"]
    mode = cfg["mode"]
    size = x.size
    x.rs = Resets(env, cfg, x.lvl, x.has_rst)
    args = x.rs.args()
    kw0 = {"reset_active_level": bool(x.lvl)} if len(args) > 1 and (not x.lvl or rng.random() < 0.3) else {}
    x.spy = None
    x.unmapped = None
    x.maps = []

    def bus(kind=""):
        if proto == "apb":
            return ax.ApbBus.from_prefix(dut, "apb")
        return getattr(ax, f"{PREFIX[proto]}{kind}Bus").from_prefix(dut, proto)

    def cls(kind):
        return getattr(ax, {"axi": "Axi", "axil": "AxiLite", "apb": "Apb"}[proto] + kind)

    if mode in ("ram", "ram_split"):
        kind = rng.choice(["mmap", "bytearray", "sparse_size", "sparse"])
        if kind == "mmap":
            mem = mmap.mmap(-1, size)
        elif kind == "bytearray":
            mem = bytearray(size)
        elif kind == "sparse":
            mem = SparseMemory(size)
        else:
            mem = None
        kw = {"size": size} if mem is None else {"mem": mem}
        kw.update(kw0)
        if mode == "ram" or proto == "apb":
            ram = x.slave = cls("Ram")(bus(), *args, **kw)
            x.models = [ram]
        else:
            w = cls("RamWrite")(bus("Write"), *args, **kw)
            r = cls("RamRead")(bus("Read"), *args, **{**kw0, "mem": w.mem})
            x.slave = (w, r)
            ram = w
        x.get = lambda a, n=1: bytes(ram.read(a, n))
        x.put = lambda a, d: ram.write(a, d)
    else:
        if mode == "spy":
            x.spy = t = Spy(env, size, cfg.get("tdelay", "none"), form=rng.choice(["bytes", "bytearray"]))
            x.spy.unit = x.bb
            x.get = lambda a, n=1: bytes(t.mem[a:a + n])

            def put(a, d):
                t.mem[a:a + len(d)] = d
            x.put = put
        elif mode == "region":
            t = MemoryRegion(size) if rng.random() < 0.5 else SparseMemoryRegion(size)
            x.get = lambda a, n=1: bytes(t[a:a + n])

            def put(a, d):
                t[a:a + len(d)] = d
            x.put = put
        elif mode == "space":
            t = AddressSpace(size)
            mem = bytearray(size)
            x.unmapped = set()
            a = 0
            while a < size:
                n = min(size - a, x.bb * rng.choice([1, 2, 3, 8, 64, 200]))
                if rng.random() < 0.75:
                    r = MemoryRegion(n)
                    x.maps.append((a, n, r))
                    t.register_region(r, a)
                else:
                    x.unmapped.update(range(a // x.bb, (a + n) // x.bb))
                a += n

            def get(a, n=1):
                out = bytearray()
                for q in range(a, a + n):
                    for b, m, r in x.maps:
                        if b <= q < b + m:
                            out.append(r[q - b])
                            break
                    else:
                        out.append(0)
                return bytes(out)

            def put(a, d):
                for i, v in enumerate(d):
                    for b, m, r in x.maps:
                        if b <= a + i < b + m:
                            r[a + i - b] = v
            x.get, x.put = get, put
        if rng.random() < 0.7 or proto == "apb":
            x.slave = cls("Slave")(bus(), *args, target=t, **kw0)
        else:
            x.slave = (cls("SlaveWrite")(bus("Write"), *args, target=t, **kw0), cls("SlaveRead")(bus("Read"), *args, target=t, **kw0))

    x.rs.add(*(x.slave if isinstance(x.slave, tuple) else (x.slave,)))

    def chan(n):
        if proto == "apb":
            return None
        if isinstance(x.slave, tuple):
            m = x.slave[0] if n in ("aw", "w", "b") else x.slave[1]
        else:
            m = x.slave.write_if if n in ("aw", "w", "b") else x.slave.read_if
        return getattr(m, n + "_channel", None)
    x.pausable = {"apbs": x.slave} if proto == "apb" else {n: chan(n) for n in ("aw", "w", "b", "ar", "r") if chan(n) is not None}


def init_memory(env, x):
    rng = env.rng
    x.mm = ByteModel(x.size, bytearray(x.size))
    img = rng.randbytes(x.size)
    x.put(0, img)
    for a in range(x.size):
        if not x.unmapped or a // x.bb not in x.unmapped:
            x.mm.init[a] = img[a]
    x.badr, x.badw = set(), set()


def poke(env, x, n):
    """The user changes the memory from the outside while the bus is idle."""
    rng = env.rng
    for _ in range(n):
        ln = rng.randrange(1, 64)
        a = rng.randrange(0, x.size - ln)
        d = rng.randbytes(ln)
        x.put(a, d)
        for i, v in enumerate(d):
            if not x.unmapped or (a + i) // x.bb not in x.unmapped:
                x.mm.init[a + i] = v


def new_faults(env, cfg, x):
    rng = env.rng
    x.badr.clear(); x.badw.clear()
    if x.unmapped is not None:
        x.badr.update(x.unmapped); x.badw.update(x.unmapped)
    if x.spy is not None:
        f = rng.choice(cfg.get("faults", [0]))
        for wd in range(x.size // x.bb):
            if rng.random() < f:
                x.badw.add(wd)
            if rng.random() < f:
                x.badr.add(wd)
        x.spy.bad_r, x.spy.bad_w = set(x.badr), set(x.badw)


def judge_memory(env, x, P, describe, extra=()):
    mm = x.mm
    props = (P,) + tuple(extra) + (("C10",) if x.badr or x.badw else ())
    actual = x.get(0, x.size)
    for a in range(x.size):
        if a in mm.hist:
            ok = mm.final(a, now())
            if actual[a] not in ok:
                env.v(props, f"byte {a:#x} ends up {actual[a]:#04x}, expected one of {sorted(ok)}",
                      writers=[describe(getattr(w, "b", None) or w.t) for v, w in mm.hist[a][-3:]])
                break
        elif actual[a] != mm.init[a] and not (x.unmapped and a // x.bb in x.unmapped):
            env.v(props, f"byte {a:#x} changed to {actual[a]:#04x} although nothing wrote it")
            break
    if x.spy is not None and x.spy.oor:
        env.v((P,) + tuple(extra), "access outside of the addressed range", access=x.spy.oor[0])
    mm.collapse(lambda a: actual[a])


class ResetWatch:
    """While reset is asserted the slave must keep READY, VALID and pready low and leave its target alone."""

    def __init__(self, x):
        self.x = x

    def edge(self, s):
        x, env = self.x, self.x.env
        if not getattr(x, "built", False):
            return
        if s.in_reset:
            env.count["reset_edges"] += 1
            if x.proto == "apb":
                if raw(x.bus.pready) != "0":
                    env.v(("C23",), f"pready is {raw(x.bus.pready)} while reset is asserted", time=s.now)
            else:
                for c in x.ch.values():
                    h = c.valid if c.driver == "model" else c.ready
                    if raw(h) != "0":
                        env.v(("C23",), f"{c.name}: {'VALID' if c.driver == 'model' else 'READY'} is {raw(h)} while reset is asserted", time=s.now)
        x.pause_log.edge(s, x.ch.items() if x.proto != "apb" else (), s.in_reset)

    def drive(self):
        pass

"""Construction of busses and models (C40): which design signals a bus binds, which designs are refused, and that models built on
any accepted bus work."""
import cocotbext.axi as ax
from cocotb.triggers import Timer

from .common import cycles

CLS = {"axi": "Axi", "axil": "AxiLite", "apb": "Apb"}


def chan_classes(proto, chs):
    m = __import__(f"cocotbext.axi.{'axi' if proto == 'axi' else 'axil'}_channels", fromlist=["x"])
    return [getattr(m, f"{CLS[proto]}{c.upper()}Bus") for c in chs]


def make_bus(env, cfg, kind=""):
    """kind: '' for the whole bus, 'Write' or 'Read'."""
    inst, proto = env.inst, cfg["proto"]
    kw = {}
    if cfg["sep"] != "_":
        kw["bus_separator"] = cfg["sep"]
    if cfg.get("case"):
        kw["case_insensitive"] = False
    cls = ax.AxiStreamBus if proto == "axis" else getattr(ax, f"{CLS[proto]}{kind}Bus")

    def build(c):
        return c.from_entity(inst, **({} if "case_insensitive" not in kw else {"case_insensitive": False})) if cfg["prefix"] is None \
            else c.from_prefix(inst, cfg["prefix"], **kw)
    style = cfg["style"] if proto in ("axi", "axil") else "whole"
    if style == "whole":
        return build(cls)
    chs = {"": ("aw", "w", "b", "ar", "r"), "Write": ("aw", "w", "b"), "Read": ("ar", "r")}[kind]
    parts = [build(c) for c in chan_classes(proto, chs)]
    if style == "channels":
        return cls.from_channels(*parts)
    if kind:
        return cls(*parts)
    W, R = getattr(ax, f"{CLS[proto]}WriteBus"), getattr(ax, f"{CLS[proto]}ReadBus")
    return cls(W(*parts[:3]), R(*parts[3:]))


def bound(bus):
    """attribute name -> handle, over all channels of a bus."""
    out = {}
    if hasattr(bus, "_signals"):
        for n in list(bus._signals):
            if hasattr(bus, n):
                out[n] = getattr(bus, n)
        return out
    for part in ("write", "read", "aw", "w", "b", "ar", "r"):
        if getattr(bus, part, None) is not None:
            out.update(bound(getattr(bus, part)))
    return out


def check_binding(env, cfg, bus, want):
    got = bound(bus)
    for n, design in want.items():
        env.count["signals_checked"] += 1
        if n not in got:
            env.v(("C40",), f"signal {n} exists in the design but is not bound")
        elif got[n]._name != design or got[n]._path != f"{env.inst._path}.{design}":
            env.v(("C40",), f"signal {n} is bound to {got[n]._path}, expected {env.inst._path}.{design}")
    extra = set(got) - set(want)
    if extra:
        env.v(("C40",), f"signals that are not in the design are bound: {sorted(extra)}")


async def episode(env):
    cfg, rng = env.cfg, env.rng
    env.inst = getattr(env.dut, f"i{cfg['inst']}")
    proto = cfg["proto"]
    clk = env.clk = env.inst.clk
    model = cfg["model"]
    pre = "" if cfg["prefix"] is None else cfg["prefix"] + cfg["sep"]
    want = {s[0]: pre + s[0] for s in cfg["sigs"]}
    env.seen("designs", (proto, model, cfg["style"], cfg["prefix"], cfg["sep"], cfg["bad"], sorted(want)))
    env.sig(proto, model, cfg["style"], cfg["prefix"], cfg["sep"], cfg["bad"], cfg["sigs"])
    env.nontrivial = True
    env.count["constructions"] += 1
    await Timer(1, "ns")
    mems = []

    def construct():
        if proto == "axis":
            k = {n: cfg[n] for n in ("byte_size", "byte_lanes") if n in cfg}
            b = make_bus(env, cfg)
            m = {"source": ax.AxiStreamSource, "sink": ax.AxiStreamSink, "monitor": ax.AxiStreamMonitor}[model](b, clk, **k)
            return [b], [m]
        kinds = {"": [""], "split": ["Write", "Read"], "write": ["Write"], "read": ["Read"]}[cfg["parts"] if proto != "apb" else ""]
        bs, ms = [], []
        for k in kinds:
            b = make_bus(env, cfg, k)
            c = getattr(ax, CLS[proto] + {"master": "Master", "slave": "Slave", "ram": "Ram"}[model] + k)
            a = {}
            if model == "slave":
                if not mems:
                    mems.append(ax.MemoryRegion(4096))
                a = {"target": mems[0]}
            elif model == "ram":
                a = {"mem": mems[0]} if mems else {"size": 4096}
            m = c(b, clk, **a)
            if model == "ram" and not mems:
                mems.append(m.mem)
            bs.append(b)
            ms.append(m)
        return bs, ms

    if cfg["bad"]:
        env.count["inconsistent_designs"] += 1
        try:
            construct()
        except Exception:
            env.count["refused"] += 1
            return
        env.v(("C40",), f"a {CLS.get(proto, 'AxiStream')} {model} was constructed on an inconsistent design: {cfg['bad']}", signals=cfg["sigs"])
        return
    try:
        busses, ms = construct()
    except Exception as e:
        env.v(("C40",), f"a {CLS.get(proto, 'AxiStream')} {model} cannot be constructed on a consistent design: {type(e).__name__}: {e}",
              signals=cfg["sigs"])
        return
    for b, k in zip(busses, {"": [""], "split": ["Write", "Read"], "write": ["Write"], "read": ["Read"]}[cfg.get("parts", "")]):
        part = {"": want, "Write": {n: d for n, d in want.items() if n[0] in "wb" or n[:2] == "aw"},
                "Read": {n: d for n, d in want.items() if n[0] == "r" or n[:2] == "ar"}}[k] if proto in ("axi", "axil") else want
        check_binding(env, cfg, b, part)
    if proto == "axis":
        m = ms[0]
        if (m.byte_lanes, m.byte_size) != (cfg["lanes"], cfg["dw"] // cfg["lanes"]):
            env.v(("C40",), f"{m.byte_lanes} byte lanes of {m.byte_size} bits, expected {cfg['lanes']} of {cfg['dw'] // cfg['lanes']}")
    # the other side, built from its own bus objects, and some traffic
    if proto == "axis":
        await axis_traffic(env, cfg, ms[0], model)
    else:
        await bus_traffic(env, cfg, ms, model, mems)


async def axis_traffic(env, cfg, m, model):
    rng = env.rng
    k = {n: cfg[n] for n in ("byte_size", "byte_lanes") if n in cfg}
    clk = env.clk
    if not cfg["has_valid"]:
        return
    src = m if model == "source" else ax.AxiStreamSource(make_bus(env, cfg), clk, **k)
    snk = m if model == "sink" else ax.AxiStreamSink(make_bus(env, cfg), clk, **k)
    names = [s[0] for s in cfg["sigs"]]
    for _ in range(4):
        n = rng.randrange(1, 4) * cfg["lanes"] if "tkeep" not in names else rng.randrange(1, 40)
        if "tlast" not in names:
            n = cfg["lanes"]
        data = [rng.getrandbits(min(8, cfg["dw"] // cfg["lanes"])) for _ in range(n)]
        await src.send(ax.AxiStreamFrame(data))
        f = await snk.recv()
        env.count["items"] += 1
        if list(f.tdata) != data:
            env.v(("C40", "C25"), "frame arrived changed", sent=data, got=list(f.tdata))
        if model == "monitor":
            g = await m.recv()
            if list(g.tdata) != data:
                env.v(("C40", "C27"), "monitored frame differs", sent=data, got=list(g.tdata))


async def bus_traffic(env, cfg, ms, model, mems):
    rng, proto, clk = env.rng, cfg["proto"], env.clk
    has = [s[0] for s in cfg["sigs"]]
    parts = cfg["parts"] if proto != "apb" else ""
    w = None if parts == "read" else ms[0]
    r = None if parts == "write" else ms[-1]
    kinds = {"": [""], "split": ["Write", "Read"], "write": ["Write"], "read": ["Read"]}[parts]
    other = []
    for k in kinds:
        b = make_bus(env, cfg, k)
        if model == "master":
            c = getattr(ax, CLS[proto] + "Ram" + k)
            o = c(b, clk, **({"mem": mems[0]} if mems else {"size": 4096}))
            if not mems:
                mems.append(o.mem)
        else:
            o = getattr(ax, CLS[proto] + "Master" + k)(b, clk)
        other.append(o)
    if model != "master":
        w, r = other[0] if w is not None else None, other[-1] if r is not None else None
    mem = mems[0]
    bb = cfg["dw"] // 8
    strb = proto == "apb" or "wstrb" in has
    space = min(4096, 1 << cfg["aw"])

    def get(a, n):
        return bytes(mem[a:a + n])
    for _ in range(6):
        n = rng.randrange(1, 4) * bb
        a = rng.randrange(0, (space - n) // bb + 1) * bb
        if strb and rng.random() < 0.6:
            a += rng.randrange(bb)
            n = max(1, min(n - rng.randrange(bb), space - a))
        data = rng.randbytes(n)
        if w is not None:
            before = get(0, space)
            await w.write(a, data)
            env.count["writes"] += 1
            if get(0, space) != before[:a] + data + before[a + n:]:
                env.v(("C40", "C01", "C07", "C11", "C12", "C14", "C15"), "the write did not do what it should", addr=a, n=n)
        else:
            mem[a:a + n] = data
        if r is not None:
            got = await r.read(a, n)
            env.count["reads"] += 1
            if bytes(got.data) != data:
                env.v(("C40", "C02", "C08", "C11", "C12", "C14", "C15"), "the read returned other data", addr=a, n=n)
    await cycles(env, 3)

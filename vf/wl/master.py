"""Unified workload for the AXI, AXI-Lite and APB masters against hostile compliant slaves.

Covers C01-C06, C11, C13, C14, C16, C20, C21 and C22: random concurrent operations in phases, invalid requests,
pauses, idle()/wait() probes and resets, with the whole bus history judged afterwards."""
import itertools

import cocotb
from cocotb.triggers import Event, RisingEdge, Timer

from cocotbext.axi import (ApbBus, ApbMaster, AxiBurstType, AxiBus, AxiLiteBus, AxiLiteMaster, AxiLiteMasterRead, AxiLiteMasterWrite,
                           AxiLiteReadBus, AxiLiteWriteBus, AxiMaster, AxiMasterRead, AxiMasterWrite, AxiProt,
                           AxiReadBus, AxiWriteBus)

from .. import apbbfm, axibfm, axilbfm, liteops
from ..axiops import check_read_result, check_write_result, desc, match_reads, match_writes
from ..bus import Sampler, raw
from ..resets import Resets
from ..pauses import PauseLog, pauser
from . import axi_master
from .common import CountingEvent, Group, cycles, gap, now, pick_addr, prand_len

P_DATA = {"axi": ("C01", "C02"), "axil": ("C11", "C11"), "apb": ("C14", "C14")}


class Ctx:
    pass


# ------------------------------------------------------------------------------------------------ construction
def build(env, cfg, x):
    dut, rng = env.dut, env.rng
    p, proto = cfg["dutp"], cfg["proto"]
    x.p, x.proto, x.opt = p, proto, p["opt"]
    x.bb = p["dw"] // 8
    x.space = 1 << p["aw"]
    lvl = cfg.get("rst_level", 1)
    x.lvl = lvl
    x.has_rst = cfg.get("rst", True)
    x.rs = Resets(env, cfg, lvl, x.has_rst)
    a = x.rs.args()
    kw = {"reset_active_level": bool(lvl)} if len(a) > 1 and (not lvl or rng.random() < 0.3) else {}
    split = cfg.get("split_if")

    def mk_master():
        k = dict(kw)
        if proto == "axi":
            x.mbl = cfg.get("mbl") or rng.choice(axi_master.MBL)
            if x.mbl != 256 or rng.random() < 0.3:
                k["max_burst_len"] = x.mbl if x.mbl != 256 else rng.choice([256, 256, 257, 300, 1000, 4096])
            if split:
                x.mw = AxiMasterWrite(AxiWriteBus.from_prefix(dut, "axi"), *a, **k)
                x.mr = AxiMasterRead(AxiReadBus.from_prefix(dut, "axi"), *a, **k)
                x.m = None
            else:
                x.m = x.mw = x.mr = AxiMaster(AxiBus.from_prefix(dut, "axi"), *a, **k)
        elif proto == "axil":
            if split:
                x.mw = AxiLiteMasterWrite(AxiLiteWriteBus.from_prefix(dut, "axil"), *a, **k)
                x.mr = AxiLiteMasterRead(AxiLiteReadBus.from_prefix(dut, "axil"), *a, **k)
                x.m = None
            else:
                x.m = x.mw = x.mr = AxiLiteMaster(AxiLiteBus.from_prefix(dut, "axil"), *a, **k)
        else:
            x.m = x.mw = x.mr = ApbMaster(ApbBus.from_prefix(dut, "apb"), *a, **k)
        x.rs.add(x.mw, x.mr)

    def mk_bfm():
        st = cfg.get("style", {})
        rst = dut.rst if x.has_rst else None
        if proto == "axi":
            x.ch = axibfm.chans(dut, "axi", True)
            x.bfm = axibfm.SlaveBfm(env, dut, "axi", x.ch, x.bb, st)
        elif proto == "axil":
            x.ch = axilbfm.chans(dut, "axil", True)
            x.bfm = axilbfm.SlaveBfm(env, x.ch, st)
        else:
            x.ch = {}
            x.bus = apbbfm.ApbBus(dut, "apb")
            x.bfm = apbbfm.SlaveBfm(env, x.bus, st)
        x.watch = Watch(x)
        if proto == "apb":
            x.s = apbbfm.ApbSampler(env, x.bus, True, [x.watch, x.bfm], delay=cfg.get("delay", 0), reset=rst)
        else:
            x.s = Sampler(env, list(x.ch.values()), [x.watch, x.bfm], delay=cfg.get("delay", 0), reset=rst)
        x.s.reset_active = lvl
        x.s.start()

    x.order = rng.random() < 0.5
    if x.order:
        mk_master(); mk_bfm()
    else:
        mk_bfm(); mk_master()
    x.watch.ready = True


class Watch:
    """Per-edge monitor of reset quietness (C22) and of paused channels/masters (C13, C18)."""

    def __init__(self, x):
        self.x = x
        self.ready = False

    def edge(self, s):
        x, env = self.x, self.x.env
        if s.in_reset:
            env.count["reset_edges"] += 1
            if x.proto == "apb":
                if raw(x.bus.psel) != "0" or raw(x.bus.penable) != "0":
                    env.v(("C22", "C13"), f"psel/penable not low while reset is asserted ({raw(x.bus.psel)}{raw(x.bus.penable)})", time=s.now)
            else:
                for c in x.ch.values():
                    if c.driver == "model" and c.valid is not None and raw(c.valid) != "0":
                        env.v(("C22",), f"{c.name}: VALID is {raw(c.valid)} while reset is asserted", time=s.now)
        if not self.ready:
            return
        x.pause_log.edge(s, x.ch.items(), s.in_reset)

    def drive(self):
        pass


# ------------------------------------------------------------------------------------------------ operations
def make_op(env, x, cfg, kind, budget):
    rng, p = env.rng, x.p
    if x.proto == "axi":
        return axi_master.make_op(env, rng, p, kind, x.bb, x.space, x.mbl, cfg, budget)
    bb = x.bb
    strobes = x.proto == "apb" or "wstrb" in x.opt
    n = min(prand_len(rng, bb, cfg.get("big", 300), zero=cfg.get("zero", 0.04)), max(1, budget) * bb, x.space)
    if cfg.get("huge"):
        # once per episode: thousands of bytes
        n = min(rng.choice([rng.randrange(4097, 9000), 1025 * bb, rng.randrange(257, 520) * bb]), 2000 * bb, x.space)
        cfg["huge"] = False
    addr = pick_addr(rng, x.space, n, hot=cfg.get("hot"))
    if kind == "w" and not strobes and n:
        # without strobes only whole words are well defined
        addr = addr // bb * bb
        n = max(bb, min(n // bb * bb, x.space - addr))
    op = {"kind": kind, "addr": addr, "n": n, "prot": 2}
    name = {"axil": {"w": "awprot", "r": "arprot"}, "apb": {"w": "pprot", "r": "pprot"}}[x.proto][kind]
    op["has_prot"] = name in x.opt
    if op["has_prot"] and rng.random() < 0.7:
        op["prot"] = rng.randrange(8)
    if kind == "w":
        op["data"] = rng.randbytes(n)
    return op


def op_kwargs(env, x, op):
    rng = env.rng
    if x.proto == "axi":
        return axi_master.kwargs(op, rng)
    if op["prot"] != 2 or rng.random() < 0.2:
        return {"prot": AxiProt(op["prot"]) if rng.random() < 0.8 else op["prot"]}
    return {}


def invalid(env, x, op):
    """A rejected variation of the operation: (positional arguments, keyword arguments, description)."""
    rng = env.rng
    kw = {}
    w = op["kind"] == "w"
    addr, arg = op["addr"], op.get("data", op["n"])
    kinds = ["neg_addr", "high_addr", "overrun", "event"]
    kinds.append("int_data" if w else "neg_len")
    c = "aw" if w else "ar"
    absent = []
    if x.proto == "axi":
        kinds += ["id", "size"]
        d = {"lock": 1, "cache": rng.choice([0, 2, 15]), "prot": rng.choice([0, 1, 7]), "qos": 5, "region": 3, "user": 1}
        absent = [({a: v}, f"{c}{a} not connected") for a, v in d.items() if c + a not in x.opt]
        if w and "wuser" not in x.opt:
            absent += [({"wuser": 1}, "wuser not connected"), ({"wuser": [0, 3]}, "wuser not connected")]
    else:
        name = "pprot" if x.proto == "apb" else c + "prot"
        if name not in x.opt:
            absent = [({"prot": AxiProt(rng.choice([0, 1, 3, 7]))}, f"{name} not connected")]
    kinds += ["absent"] * (2 if absent else 0)
    k = rng.choice(kinds)
    if env.cfg.get("only_absent"):
        if not absent:
            return None
        k = "absent"
    what = k
    init_only = False
    if k == "neg_addr":
        addr = -rng.choice([1, x.bb, 4096])
    elif k == "high_addr":
        addr = x.space + rng.choice([0, 0, 1, x.bb, x.space])
    elif k == "overrun":
        addr = x.space - rng.randrange(1, min(x.space, 2 * x.bb + 1))
        n = x.space - addr + rng.choice([1, x.bb])
        arg = bytes(n) if w else n
    elif k == "neg_len":
        arg = -rng.choice([1, 4])
    elif k == "int_data":
        arg = rng.choice([0, 1, 5])
    elif k == "id":
        kw[c + "id"] = (1 << x.p["idw"]) + rng.choice([0, 0, 1, 7])
    elif k == "size":
        kw["size"] = (x.bb - 1).bit_length() + rng.choice([1, 1, 2])
    elif k == "event":
        kw["event"] = rng.choice([1, "event", object(), True])
        init_only = True
    else:
        extra, what = rng.choice(absent)
        kw.update(extra)
    if k in ("neg_addr", "high_addr"):
        if rng.random() < 0.2:
            arg = b"" if w else 0
        if x.proto == "axi" and rng.random() < 0.6:
            kw["burst"] = AxiBurstType(rng.randrange(3))
    return addr, arg, kw, what, init_only


class Driver:
    def __init__(self, env, cfg, x):
        self.env, self.cfg, self.x = env, cfg, x
        self.ops = []
        self.seq = itertools.count()
        self.out = {"w": 0, "r": 0}
        self.total = {"w": 0, "r": 0}
        self.g = Group(env)
        self.zero = {}

    def register(self, op, style):
        op["seq"] = next(self.seq)
        op["style"] = style
        op["t_call"] = now()
        self.out[op["kind"]] += 1
        self.total[op["kind"]] += 1
        self.ops.append(op)
        self.env.count["ops"] += 1

    def finish(self, op, res):
        op["dones"] = op.get("dones", 0) + 1
        op["result"] = res
        op["t_done"] = now()
        self.out[op["kind"]] -= 1

    def data_arg(self, op):
        y = self.env.rng.random()
        d = op["data"]
        return d if y < 0.6 else bytearray(d) if y < 0.8 else list(d) if y < 0.9 else memoryview(d)

    async def blocking(self, op):
        x = self.x
        self.register(op, "blocking")
        if op["kind"] == "w":
            self.finish(op, await x.mw.write(op["addr"], self.data_arg(op), **op_kwargs(self.env, x, op)))
        else:
            self.finish(op, await x.mr.read(op["addr"], op["n"], **op_kwargs(self.env, x, op)))

    async def waiter(self, op, ev):
        await ev.wait()
        self.finish(op, ev.data)

    def initiate(self, op):
        x, rng, env = self.x, self.env.rng, self.env
        self.register(op, "init")
        kw = op_kwargs(env, x, op)
        ev = None
        if rng.random() < 0.5:
            ev = CountingEvent() if rng.random() < 0.7 else Event()
            kw["event"] = ev
        if op["kind"] == "w":
            d = self.data_arg(op)
            ret = x.mw.init_write(op["addr"], d, **kw)
            if isinstance(d, bytearray) and len(d):
                d[:] = bytes(len(d))       # the caller may reuse its buffer
        else:
            ret = x.mr.init_read(op["addr"], op["n"], **kw)
        if ev is not None and ret is not ev:
            env.v(("C05", "C11", "C14"), "init call did not return the event it was given")
        op["event"] = ret
        self.g.add(self.waiter(op, ret))

    async def reject(self, op):
        env, x = self.env, self.x
        bad = invalid(env, x, op)
        if bad is None:
            return
        addr, arg, kw, what, init_only = bad
        env.count["invalid_requests"] += 1
        env.seen("invalid_kinds", (x.proto, op["kind"], what))
        props = ("C21", "C04") if "connected" in what else ("C21",)
        if init_only or env.rng.random() < 0.6:
            f = x.mw.init_write if op["kind"] == "w" else x.mr.init_read
            try:
                f(addr, arg, **kw)
            except ValueError:
                return
            except Exception as e:
                env.v(props, f"invalid request ({what}) raised {type(e).__name__} instead of ValueError", error=str(e))
                return
            env.v(props, f"invalid request ({what}) was accepted", address=addr, args=kw)
        else:
            f = x.mw.write if op["kind"] == "w" else x.mr.read
            t = now()

            async def run():
                try:
                    await f(addr, arg, **kw)
                except ValueError:
                    if now() != t:
                        env.v(props, f"invalid request ({what}) was rejected late")
                    return
                except Exception as e:
                    env.v(props, f"invalid request ({what}) raised {type(e).__name__} instead of ValueError", error=str(e))
                    return
                env.v(props, f"invalid request ({what}) was accepted", address=addr, args=kw)
            cocotb.start_soon(run())
            await Timer(1, "ns")

    async def issue(self, budget, stop):
        env, cfg, rng = self.env, self.cfg, self.env.rng
        for _ in range(cfg.get("nops", 12)):
            if budget <= 0 or stop[0]:
                break
            op = make_op(env, self.x, cfg, rng.choice(cfg.get("kinds", "wr")), budget)
            if op["addr"] is None:
                continue
            if rng.random() < cfg.get("invalid", 0):
                await self.reject(op)
                if stop[0]:
                    break
            if self.zero.get(op["kind"]) == op["addr"]:
                continue
            self.zero[op["kind"]] = op["addr"] if op["n"] == 0 else None
            budget -= max(1, op["n"] >> op["size"] if "size" in op else op["n"] // self.x.bb)
            y = rng.random()
            pb, pi = cfg.get("p_blocking", 0.2), cfg.get("p_init", 0.4)
            if y < pb:
                await self.blocking(op)
            elif y < pb + pi:
                self.initiate(op)
            else:
                self.g.add(self.blocking(op))
                await Timer(1, "ns")
            if stop[0]:
                break
            if not cfg.get("flood"):
                await gap(env, rng)


# ------------------------------------------------------------------------------------------------ background
async def idle_probe(env, x, d, stop, seq):
    """idle() must be true exactly when nothing requested is outstanding; looked at between all activity."""
    rng = env.rng
    while not stop[0]:
        await Timer(rng.randrange(1, 60) * 1000 + 300 + seq, "ps")
        n = d.out["w"] + d.out["r"]
        env.count["idle_probes"] += 1
        if x.m is not None:
            got = bool(x.m.idle())
            if got != (n == 0):
                env.v(("C20", "C21"), f"idle() is {got} with {n} operations outstanding", time=now())
                return
        else:
            for m, k in ((x.mw, "w"), (x.mr, "r")):
                if bool(m.idle()) != (d.out[k] == 0):
                    env.v(("C20", "C21"), f"idle() of the {k} interface is {m.idle()} with {d.out[k]} operations outstanding", time=now())
                    return


async def wait_probe(env, x, d, stop, waits):
    rng = env.rng
    while not stop[0]:
        await gap(env, rng, 2)
        await Timer(rng.randrange(1, 50), "ns")
        call_wait(env, d, waits, *rng.choice(wait_functions(x)))


def wait_functions(x):
    opts = [(x.m.wait, "wr")] if x.m is not None else [(x.mw.wait, "w"), (x.mr.wait, "r")]
    if x.m is not None and x.proto != "apb":
        opts += [(x.m.wait_write, "w"), (x.m.wait_read, "r"), (x.m.write_if.wait, "w"), (x.m.read_if.wait, "r")]
    return opts


def call_wait(env, d, waits, f, kinds):
    rec = {"t": now(), "done": None, "kinds": kinds}
    waits.append(rec)
    env.count["wait_calls"] += 1
    if sum(d.out[k] for k in kinds) == 0:
        env.count["wait_calls_while_idle"] += 1

    async def one():
        await f()
        rec["done"] = now()
        mine = [o for o in d.ops if o["kind"] in kinds and o["t_call"] < rec["done"]]
        await Timer(1, "ps")         # let the harness tasks of the same instant run
        late = [o for o in mine if "result" not in o or o["t_done"] > rec["done"]]
        if late:
            env.v(("C20",), f"wait ({kinds}) returned while an operation requested before was outstanding", op=desc(late[0]))
    env.spawn(one(), "wait()")


def tail(env, cfg, x, d, waits):
    """End a phase with a few operations requested at once, often without any data, and wait for them in every way."""
    rng = env.rng
    for _ in range(rng.randrange(1, 4)):
        op = make_op(env, x, cfg, rng.choice(cfg.get("kinds", "wr")), 8)
        if op["addr"] is None:
            continue
        if rng.random() < 0.7:
            op = make_op(env, x, dict(cfg, zero=1.0, long=0, fixed=0, wrap=0), op["kind"], 8)
            if op["addr"] is None or op["n"] or d.zero.get(op["kind"]) == op["addr"]:
                continue
            env.count["phases_ended_by_empty_operation"] += 1
        d.zero[op["kind"]] = op["addr"] if op["n"] == 0 else None
        d.initiate(op)
    for f, kinds in wait_functions(x):
        if rng.random() < 0.7:
            call_wait(env, d, waits, f, kinds)


def check_waits(env, waits):
    for w in waits:
        if w["done"] is None:
            env.v(("C20",), "wait() did not return although every operation has completed", called_at=w["t"], kinds=w["kinds"])
            break
    waits.clear()


def _finished(op):
    if "result" in op:
        return True
    ev = op.get("event")
    return ev is not None and ev.is_set()        # set, the harness task just did not run yet


# ------------------------------------------------------------------------------------------------ judging
def judge(env, x, ops, marks, complete, t_reset=None):
    opt = x.opt
    wops = [o for o in ops if o["kind"] == "w"]
    rops = [o for o in ops if o["kind"] == "r"]
    proto = x.proto
    for op in ops:
        if op.get("dones") != 1:
            env.v({"axi": ("C05",), "axil": ("C11",), "apb": ("C14",)}[proto] + (("C22",) if not complete else ()),
                  f"operation completed {op.get('dones', 0)} times", op=desc(op))
            return
        ev = op.get("event")
        if ev is not None and ev.data is not op["result"]:
            env.v({"axi": ("C05",), "axil": ("C11",), "apb": ("C14",)}[proto] + ("C22",), "the result of a completed operation was replaced",
                  op=desc(op), now=repr(ev.data)[:100])
        if isinstance(ev, CountingEvent):
            n = len(ev.fire_log)
            flushed = t_reset is not None and op["result"] is None and all(r is None for r in ev.fire_log) and \
                all(t == ev.times[0] for t in ev.times)
            if n != 1 and not (flushed and n):
                env.v({"axi": ("C05",), "axil": ("C11",), "apb": ("C14",)}[proto], f"completion event fired {n} times", op=desc(op))
        if t_reset is not None:
            if op["result"] is None and op["t_done"] < t_reset:
                env.v(("C22", "C05", "C11", "C14"), "operation completed without a result before the reset", op=desc(op))
                return
            if op["result"] is not None and op["t_done"] > t_reset:
                env.v(("C22",), "operation interrupted by reset reports a result", op=desc(op))
                return
    live = lambda l: [o for o in l if o["result"] is not None or complete]
    if proto == "axi":
        wb, rb = x.bfm.wbursts[marks[0]:], x.bfm.rbursts[marks[1]:]
        okw = match_writes(env, wops, wb, x.bb, x.mbl, "wstrb" in opt, complete)
        okr = match_reads(env, rops, rb, x.bb, x.mbl, complete)
        for op in live(wops):
            if okw or (not complete and "bursts" in op):
                check_write_result(env, op, "bresp" in opt, "buser" in opt)
        for op in live(rops):
            if okr or (not complete and "bursts" in op):
                check_read_result(env, op, "rresp" in opt, "ruser" in opt, x.bb)
        hist = lambda op: [(b["addr"], b["len"], b["t"], b["tb"]) for b in op.get("bursts", ())]
        env.count["bursts"] += len(wb) + len(rb)
        env.count["multi_burst_ops"] += sum(len(o.get("bursts", ())) > 1 for o in ops)
        n = len(wb) + len(rb)
        env.seen("completion_orders", [b["i"] for b in sorted((b for b in wb if b["tb"]), key=lambda b: b["tb"])])
    elif proto == "axil":
        wt, rt = x.bfm.wr[marks[0]:], x.bfm.rd[marks[1]:]
        if complete:
            for t in wt:
                if t["t_aw"] is None or t["t_w"] is None:
                    env.v(("C11",), "AW and W transfers do not pair up", transfer=liteops.tdesc(t))
                    return
        else:
            while wt and (wt[-1]["t_aw"] is None or wt[-1]["t_w"] is None):
                wt.pop()
        okw = liteops.match(env, wops, wt, x.bb, "C11", lambda t: "w", "awprot" in opt, complete)
        okr = liteops.match(env, rops, rt, x.bb, "C11", lambda t: "r", "arprot" in opt, complete)
        for op in live(ops):
            if (okw if op["kind"] == "w" else okr) or (not complete and op.get("full")):
                k = "bresp" if op["kind"] == "w" else "rresp"
                liteops.check_result(env, op, x.bb, "C11", k in opt, lambda t: t["resp"] or 0)
        hist = lambda op: [(t["addr"], t.get("t_aw"), t.get("t_w"), t.get("t_ar"), t["t_done"]) for t in op.get("xf", ())]
        env.count["transfers"] += len(wt) + len(rt)
        n = len(wt) + len(rt)
    else:
        xs = x.s.xfers[marks[0]:]
        for t in xs:
            t.update(addr=t["paddr"], data=t["pwdata"], strb=t["pstrb"], has_strb=True, prot=t.get("pprot"))
        ok = liteops.match(env, ops, xs, x.bb, "C14", lambda t: "w" if t["pwrite"] else "r", "pprot" in opt, complete)
        for op in live(ops):
            if ok or (not complete and op.get("full")):
                liteops.check_result(env, op, x.bb, "C14", "pslverr" in opt, lambda t: 2 if t["err"] else 0)
        hist = lambda op: [(t["addr"], t["t_setup"], t["t_done"]) for t in op.get("xf", ())]
        n = len(xs)
    x.nbus += n
    for op in ops:
        env.seen("op_shapes", (op["kind"], op.get("burst"), op.get("size"), op["addr"] % x.bb,
                               op["n"] if op["n"] < 3 * x.bb else op["n"] // x.bb, len(op.get("bursts", op.get("xf", ())))))
        env.sig(op["kind"], op["addr"], op["n"], hist(op))
    for k in "wr":
        o = next((o for o in reversed(ops) if o["kind"] == k), None)
        if o:
            env.sample(op={q: o[q] for q in ("kind", "addr", "n", "size", "burst", "id", "prot", "style") if q in o},
                       bus=hist(o)[:6], protocol=proto, data_width=x.p["dw"])


def marks(x):
    if x.proto == "axi":
        return len(x.bfm.wbursts), len(x.bfm.rbursts)
    if x.proto == "axil":
        return len(x.bfm.wr), len(x.bfm.rd)
    return (len(x.s.xfers),)


async def episode(env):
    cfg, rng, dut = env.cfg, env.rng, env.dut
    x = Ctx()
    x.env = env
    x.nbus = 0
    x.pause_log = PauseLog(env)
    dut.rst.setimmediatevalue(cfg.get("rst_level", 1) if cfg.get("rst_at_start") else 1 - cfg.get("rst_level", 1))
    await Timer(rng.randrange(1, env.period), "ns")
    build(env, cfg, x)

    def chan(n):
        m = x.m
        if m is not None:
            m = m.write_if if n in ("aw", "w", "b") else m.read_if
        else:
            m = x.mw if n in ("aw", "w", "b") else x.mr
        return getattr(m, n + "_channel", None)
    x.pausable = {"apb": x.m} if x.proto == "apb" else {n: c for n, c in ((n, chan(n)) for n in ("aw", "w", "b", "ar", "r")) if c is not None}
    stop_all = [False]
    waits = []
    flushed, results = [], []
    d = Driver(env, cfg, x)
    if cfg.get("probe_idle"):
        env.spawn(idle_probe(env, x, d, stop_all, 7), "idle probe")
    if cfg.get("probe_wait"):
        env.spawn(wait_probe(env, x, d, stop_all, waits), "wait probe")
    if cfg.get("rst_at_start"):
        await cycles(env, rng.randrange(1, 5))
        check_idle(env, x, "while reset is asserted from the beginning")
        await Timer(rng.randrange(1, env.period), "ns")
        dut.rst.value = 1 - x.lvl
        await Timer(1, "ns")
    nph = cfg.get("phases", 1)
    env.pending = lambda: [desc(o) for o in d.ops if "result" not in o][:5]
    for ph in range(nph):
        m0 = marks(x)
        d.ops = []
        reset = cfg.get("resets") and ph < nph - 1
        stop = [False]
        pstop = [False]
        if cfg.get("pauses") and rng.random() < 0.8:
            env.spawn(pauser(env, x.pausable, x.pause_log, pstop), "pauser")
        if not reset:
            await d.issue(cfg.get("budget", 400) // nph, stop)
            await d.g.wait()
            if cfg.get("probe_wait") and rng.random() < 0.8:
                if rng.random() < 0.5:
                    await cycles(env, rng.randrange(1, 30))
                tail(env, cfg, x, d, waits)
                await d.g.wait()
            pstop[0] = True
            await cycles(env, 6)
            judge(env, x, d.ops, m0, True)
            results += [(o, o["event"]) for o in d.ops if o.get("event") is not None]
            check_waits(env, [w for w in waits if w["t"] < now() - 1])
        else:
            issuer = Group(env)
            issuer.add(d.issue(cfg.get("budget", 400) // nph, stop), "issuing operations")
            await when_to_reset(env, x, d)
            stop[0] = True
            pstop[0] = True
            t_reset = now()
            dut.rst.value = x.lvl
            env.count["resets"] += 1
            n_out = d.out["w"] + d.out["r"]
            env.count["ops_outstanding_at_reset"] += n_out
            await Timer(1, "ns")
            late = [o for o in d.ops if not _finished(o)]
            if late:
                env.v(("C22",), "operation outstanding at reset was not completed", op=desc(late[0]))
                return
            await Timer(0.5, "ns")
            check_idle(env, x, "right after reset was asserted")
            await cycles(env, rng.choice([2, 2, 3, 8]))
            if rng.random() < 0.7:
                await Timer(rng.randrange(1, env.period), "ns")
            check_idle(env, x, "while reset is asserted")
            await issuer.wait()
            await d.g.wait()
            judge(env, x, d.ops, m0, False, t_reset)
            if env.failed():
                return
            if x.proto == "apb":
                x.s.xfers = []
            dut.rst.value = 1 - x.lvl
            await Timer(1, "ns")
            results += [(o, o["event"]) for o in d.ops if o.get("event") is not None]
            flushed += [(o, o["event"], len(o["event"].fire_log)) for o in d.ops if isinstance(o.get("event"), CountingEvent)]
            if rng.random() < 0.3:
                # reset again while nothing was requested
                await cycles(env, rng.randrange(0, 4))
                await Timer(rng.randrange(1, env.period), "ns")
                dut.rst.value = x.lvl
                env.count["resets_without_operations"] += 1
                await cycles(env, rng.choice([1, 2, 3]))
                check_idle(env, x, "while reset is asserted")
                await Timer(rng.randrange(1, env.period), "ns")
                dut.rst.value = 1 - x.lvl
                await Timer(1, "ns")
            await gap(env, rng)
    stop_all[0] = True
    await Timer(200, "ns")
    check_waits(env, waits)
    for op, ev in results:
        if ev.data is not op["result"]:
            env.v(("C22", "C05", "C11", "C14"), "the result of an operation completed earlier was replaced", op=desc(op), now=repr(ev.data)[:100])
            break
    for op, ev, n in flushed:
        if len(ev.fire_log) != n:
            env.v(("C22",), "completion event of an operation that a reset had flushed fired again later", op=desc(op), fired=[n, len(ev.fire_log)])
            break
    check_idle(env, x, "after all operations completed", ("C20", "C21", "C22"))
    n0 = marks(x)
    await cycles(env, 4)
    if marks(x) != n0:
        env.v(("C20", "C21", "C22"), "bus activity although every operation has completed")
    env.count["cycles"] += x.s.cycle
    env.nontrivial = x.nbus >= 2


async def when_to_reset(env, x, d):
    """Random time, or a moment when something particular is in progress."""
    rng = env.rng
    y = rng.random()
    if y < 0.35:
        await Timer(rng.randrange(1, 600), "ns")
        return
    e = RisingEdge(env.clk)
    for _ in range(rng.randrange(0, 30)):
        await e
    for _ in range(200):
        await e
        if x.proto == "apb":
            hit = x.s.cur is not None
        else:
            hit = any(c.v and not c.r for c in x.ch.values()) if y < 0.7 else any(c.data is not None for c in x.ch.values())
        if hit and rng.random() < 0.4:
            break
    if rng.random() < 0.7:
        await Timer(rng.randrange(1, env.period), "ns")


def check_idle(env, x, when, props=("C22", "C20")):
    ok = x.m.idle() if x.m is not None else x.mw.idle() and x.mr.idle()
    if not ok:
        env.v(props, f"master is not idle {when}")

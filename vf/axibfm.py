"""AXI4 bus functional models written from the AXI4 specification (section A3.4); no repository code."""
from .bus import Chan, Gen, Out, Snk, Src, idle_payload

FIXED, INCR, WRAP = 0, 1, 2
OKAY, EXOKAY, SLVERR, DECERR = 0, 1, 2, 3

AW = ["awid", "awaddr", "awlen", "awsize", "awburst", "awlock", "awcache", "awprot", "awqos", "awregion", "awuser"]
W = ["wdata", "wstrb", "wlast", "wuser"]
B = ["bid", "bresp", "buser"]
AR = [x.replace("aw", "ar", 1) for x in AW]
R = ["rid", "rdata", "rresp", "rlast", "ruser"]


def chans(dut, prefix, master_is_model, write=True, read=True):
    m, s = ("model", "bfm") if master_is_model else ("bfm", "model")
    c = {}
    if write:
        c["aw"] = Chan(dut, "AW", prefix, AW, "awvalid", "awready", m)
        c["w"] = Chan(dut, "W", prefix, W, "wvalid", "wready", m)
        c["b"] = Chan(dut, "B", prefix, B, "bvalid", "bready", s)
    if read:
        c["ar"] = Chan(dut, "AR", prefix, AR, "arvalid", "arready", m)
        c["r"] = Chan(dut, "R", prefix, R, "rvalid", "rready", s)
    return c


def beat(burst, addr, size, length, n, bus_bytes):
    """(address, lower lane, upper lane) of beat n (0-based) per A3.4.1."""
    nb = 1 << size
    aligned = addr // nb * nb
    if burst == FIXED or n == 0:
        a = addr
    elif burst == INCR:
        a = aligned + n * nb
    else:
        total = nb * length
        low = addr // total * total
        a = aligned + n * nb
        if a >= low + total:
            a -= total
    word = a // bus_bytes * bus_bytes
    lower = a - word
    upper = (a // nb * nb) + nb - 1 - word
    return a, lower, upper


class SlaveBfm:
    """Compliant, hostile AXI4 slave: random ready, reordering across IDs, R interleaving, errors, user bits."""

    def __init__(self, env, dut, prefix, ch, bus_bytes, style, write=True, read=True):
        self.env = env
        self.rng = env.rng
        self.ch = ch
        self.bb = bus_bytes
        self.out = Out(env)
        self.h = lambda n: getattr(dut, f"{prefix}_{n}", None)
        self.write, self.read = write, read
        st = style
        self.gen = {k: Gen(self.rng, st.get(k)) for k in ("aw", "w", "ar", "b", "r")}
        self.rdy = {"aw": 0, "w": 0, "ar": 0}
        self.interleave = st.get("interleave", 0.5)
        self.reorder = st.get("reorder", True)
        self.err = st.get("err", 0.0)
        self.err_pattern = st.get("err_pattern", "any")
        self.exclusive_ok = st.get("exclusive_ok", True)
        self.wlimit = st.get("w_ahead", 10**9)      # how many W beats may be accepted ahead of AW
        self.idle = st.get("idle", "hold")
        self.hold = st.get("hold", 0)               # hold back responses until this many are pending (or idle)
        self.wbursts = []       # all write bursts in AW order
        self.rbursts = []
        self.wopen = 0          # index of first burst without all its W beats
        self.wbuf = []          # W beats accepted ahead of their AW
        self.bpend = {}         # id -> [burst]
        self.rpend = {}         # id -> [burst]
        self.bcur = None
        self.rcur = None
        self.held = 0
        self.user_w = None
        for k in ("awready", "wready", "bvalid", "arready", "rvalid"):
            if self.h(k) is not None:
                self.h(k).setimmediatevalue(0)

    # ------------------------------------------------------------
    def flush(self):
        self.wbuf = []; self.bpend = {}; self.rpend = {}; self.bcur = self.rcur = self.rlast_burst = None
        self.wopen = len(self.wbursts)
        for k in self.rdy:
            self.rdy[k] = 0
        for k in ("awready", "wready", "bvalid", "arready", "rvalid"):
            self.out.set(self.h(k), 0)

    def _resp(self, lock):
        if self.rng.random() < self.err:
            return self.rng.choice((SLVERR, DECERR))
        if lock and self.exclusive_ok:
            return EXOKAY
        return OKAY

    def _user(self, n):
        h = self.h(n)
        return self.rng.getrandbits(len(h)) if h is not None else 0

    def edge(self, s):
        if s.in_reset:
            self.flush()
            return
        rng, ch = self.rng, self.ch
        if self.write:
            d = ch["aw"].data
            if d is not None:
                b = {"id": d["awid"], "addr": d["awaddr"], "len": (d["awlen"] or 0) + 1, "size": d["awsize"],
                     "burst": d["awburst"], "attr": d, "beats": [], "t": s.now, "done": False, "tb": None,
                     "i": len(self.wbursts)}
                self.wbursts.append(b)
            d = ch["w"].data
            if d is not None:
                d["t"] = s.now
                if self.wopen >= len(self.wbursts):
                    self.env.count["w_before_aw"] += 1
                self.wbuf.append(d)
            while self.wbuf and self.wopen < len(self.wbursts):
                b = self.wbursts[self.wopen]
                b["beats"].append(self.wbuf.pop(0))
                last = b["beats"][-1]
                if len(b["beats"]) >= b["len"] or last["wlast"]:
                    # a WLAST in the wrong place is reported by the checker; keep going on WLAST or count
                    b["tw"] = s.now
                    self.wopen += 1
                    self.bpend.setdefault(b["id"], []).append(b)
            if ch["b"].data is not None and self.bcur is not None:
                self.bcur["tb"] = s.now
                self.bcur["done"] = True
                self.bcur = None
            if self.bcur is None:
                self._next_b(s)
            self._ready("aw", ch["aw"].v)
            self._ready("w", ch["w"].v, len(self.wbuf) < self.wlimit)
        if self.read:
            d = ch["ar"].data
            if d is not None:
                b = {"id": d["arid"], "addr": d["araddr"], "len": (d["arlen"] or 0) + 1, "size": d["arsize"],
                     "burst": d["arburst"], "attr": d, "beats": [], "t": s.now, "done": False, "tb": None,
                     "i": len(self.rbursts), "sent": 0}
                self.rbursts.append(b)
                self.rpend.setdefault(b["id"], []).append(b)
            if ch["r"].data is not None and self.rcur is not None:
                b = self.rcur
                b["sent"] += 1
                if b["sent"] == b["len"]:
                    b["tb"] = s.now
                    b["done"] = True
                    self.rpend[b["id"]].pop(0)
                    if not self.rpend[b["id"]]:
                        del self.rpend[b["id"]]
                self.rlast_burst = b
                self.rcur = None
            if self.rcur is None:
                self._next_r(s)
            self._ready("ar", ch["ar"].v)

    def _ready(self, c, v, ok=True):
        # ready may change freely whatever valid does
        r = self.gen[c].next(v) and ok
        if r != self.rdy[c]:
            self.rdy[c] = r
            self.out.set(self.h(c + "ready"), int(r))

    def _holding(self, pend, s):
        if not self.hold:
            return False
        n = sum(len(x) for x in pend.values())
        self.held += 1
        most = max(60, 3 * self.hold)
        if n >= self.hold or self.held > most:
            if self.held > most + 8 * self.hold:
                self.held = 0
            return False
        return True

    def _next_b(self, s):
        rng = self.rng
        if self.bpend and not self._holding(self.bpend, s) and self.gen["b"].next(True):
            if self.reorder:
                i = rng.choice(sorted(self.bpend))
            else:
                i = min(self.bpend, key=lambda k: self.bpend[k][0]["i"])
            b = self.bpend[i].pop(0)
            if not self.bpend[i]:
                del self.bpend[i]
            if any(x["i"] < b["i"] for q in self.bpend.values() for x in q):
                self.env.count["b_reordered"] += 1
            b["resp"] = self._resp(b["attr"].get("awlock"))
            b["user"] = self._user("buser")
            self.bcur = b
            self.out.set(self.h("bvalid"), 1)
            self.out.set(self.h("bid"), b["id"])
            self.out.set(self.h("bresp"), b["resp"])
            self.out.set(self.h("buser"), b["user"])
        else:
            self.out.set(self.h("bvalid"), 0)
            if rng.random() < 0.3:
                idle_payload(self.out, rng, self.idle, [self.h(k) for k in ("bid", "bresp", "buser")])

    rlast_burst = None

    def _next_r(self, s):
        rng = self.rng
        if self.rpend and not self._holding(self.rpend, s) and self.gen["r"].next(True):
            cont = self.rlast_burst
            if cont is not None and not cont["done"] and rng.random() >= self.interleave:
                b = cont
            elif self.reorder:
                b = self.rpend[rng.choice(sorted(self.rpend))][0]
            else:
                b = min((q[0] for q in self.rpend.values()), key=lambda x: x["i"])
            if cont is not None and not cont["done"] and b is not cont:
                self.env.count["r_interleaved"] += 1
            if any(q[0]["i"] < b["i"] for q in self.rpend.values()):
                self.env.count["r_reordered"] += 1
            n = b["sent"]
            a, lo, up = beat(b["burst"], b["addr"], b["size"], b["len"], n, self.bb)
            word = rng.getrandbits(self.bb * 8)
            data = bytes((word >> 8 * j) & 0xff for j in range(lo, up + 1))
            resp = self._resp(b["attr"].get("arlock"))
            if self.err_pattern == "one_beat" and resp in (SLVERR, DECERR) and b.get("haserr"):
                resp = EXOKAY if b["attr"].get("arlock") and self.exclusive_ok else OKAY
            if resp in (SLVERR, DECERR):
                b["haserr"] = True
            user = self._user("ruser")
            b["beats"].append({"addr": a, "data": data, "resp": resp, "user": user})
            self.rcur = b
            self.out.set(self.h("rvalid"), 1)
            self.out.set(self.h("rid"), b["id"])
            self.out.set(self.h("rdata"), word)
            self.out.set(self.h("rresp"), resp)
            self.out.set(self.h("rlast"), int(n == b["len"] - 1))
            self.out.set(self.h("ruser"), user)
        else:
            self.out.set(self.h("rvalid"), 0)
            if rng.random() < 0.3:
                idle_payload(self.out, rng, self.idle, [self.h(k) for k in ("rid", "rdata", "rresp", "rlast", "ruser")])

    def drive(self):
        self.out.drive()


class MasterBfm:
    """Compliant AXI4 master: many outstanding bursts, W before/with/after AW, random gaps and random BREADY/RREADY."""

    def __init__(self, env, dut, prefix, ch, bus_bytes, style, write=True, read=True):
        self.env, self.rng, self.ch, self.bb = env, env.rng, ch, bus_bytes
        self.style = style
        g = {k: Gen(self.rng, style.get(k)) for k in ("aw", "w", "ar", "b", "r")}
        idle = style.get("idle", "hold")
        self.writes = []          # in AW order
        self.reads = []
        self.nb = 0               # B responses received
        self.nr = 0               # read bursts completed
        self.bseen = False
        self.parts = []
        self.cycle = 0
        self.extra = 0
        if write:
            self.aw = Src(env, ch["aw"], g["aw"], idle, on_accept=self._aw_acc, on_present=self._aw_pres)
            self.w = Src(env, ch["w"], g["w"], idle, on_accept=self._w_acc)
            self.b = Snk(env, ch["b"], g["b"], self._b)
            self.parts += [self.aw, self.w, self.b]
        if read:
            self.ar = Src(env, ch["ar"], g["ar"], idle, on_accept=self._ar_acc)
            self.r = Snk(env, ch["r"], g["r"], self._r)
            self.parts += [self.ar, self.r]

    def put_write(self, b):
        """b: id addr len size burst beats[(data, strb)] attr; timing in b['mode']."""
        b.update(t_aw=None, t_w=None, t_b=None, t_bv=None, t_first=None, wbeats=[], i=len(self.writes))
        self.writes.append(b)
        f = {"awid": b["id"], "awaddr": b["addr"], "awlen": b["len"] - 1, "awsize": b["size"], "awburst": b["burst"]}
        f.update({"aw" + k: v for k, v in b["attr"].items()})
        mode = b["mode"]
        hold = [None]

        def late():
            if hold[0] is None:
                hold[0] = self.cycle + b["lag"]
            return self.cycle >= hold[0]
        self.aw.put(f, late if mode == "before" else None, b)
        for n, (d, st) in enumerate(b["beats"]):
            g = None
            if n == 0 and mode == "after":
                g = lambda: b["t_aw"] is not None
            elif n == 0 and mode == "with":
                g = lambda: b.get("presented") or b["t_aw"] is not None
            self.w.put({"wdata": d, "wstrb": st, "wlast": int(n == b["len"] - 1), "wuser": self.rng.getrandbits(4)}, g, (b, n))

    def put_read(self, b):
        b.update(t_ar=None, t_done=None, rbeats=[], i=len(self.reads), tv=[])
        self.reads.append(b)
        f = {"arid": b["id"], "araddr": b["addr"], "arlen": b["len"] - 1, "arsize": b["size"], "arburst": b["burst"]}
        f.update({"ar" + k: v for k, v in b["attr"].items()})
        self.ar.put(f, None, b)

    def _aw_pres(self, f, b, s):
        b["presented"] = True

    def _aw_acc(self, f, b, s):
        b["t_aw"] = s.now
        if b["wbeats"]:
            self.env.count["w_before_aw"] += 1

    def _w_acc(self, f, m, s):
        b, n = m
        b["wbeats"].append(s.now)
        if n == b["len"] - 1:
            b["t_w"] = s.now

    def _ar_acc(self, f, b, s):
        b["t_ar"] = s.now

    on_bvalid = None
    on_rvalid = None

    def edge(self, s):
        self.cycle += 1
        for p in self.parts:
            p.edge(s)
        if s.in_reset:
            self.bseen = self.rseen = False
            return
        # first sight of a response (VALID, maybe not yet accepted)
        c = self.ch.get("b")
        if c is not None and c.v and not self.bseen:
            self.bseen = True
            k = self.nb - (1 if c.data is not None else 0)
            if k < len(self.writes):
                self.writes[k]["t_bv"] = s.now
                if self.on_bvalid:
                    self.on_bvalid(self.writes[k], s)
        if c is not None and (c.data is not None or not c.v):
            self.bseen = False
        c = self.ch.get("r")
        if c is not None and c.v and not self.rseen:
            self.rseen = True
            self.trv = s.now
        if c is not None and (c.data is not None or not c.v):
            if c.data is not None and self.last_r is not None:
                self.last_r["tv"] = self.trv
            self.rseen = False

    rseen = False
    last_r = None
    trv = None

    def _b(self, d, s):
        env = self.env
        k = self.nb
        self.nb += 1
        if k >= len(self.writes):
            env.v(("C09", "C23"), "B response without an outstanding write burst", got=d)
            return
        b = self.writes[k]
        b["t_b"] = s.now
        b["got_b"] = d
        if b["t_aw"] is None or b["t_w"] is None or b["t_aw"] >= s.now or b["t_w"] >= s.now:
            env.v(("C09", "C23"), "B response before the burst's AW and all W beats were accepted", burst=wdesc(b), resp=d)
        if d["bid"] != b["id"]:
            env.v(("C09",), f"B response {k} carries ID {d['bid']}, the burst in this position has {b['id']}", burst=wdesc(b))

    def _r(self, d, s):
        env = self.env
        self.last_r = None
        if self.nr >= len(self.reads) or self.reads[self.nr]["t_ar"] is None:
            env.v(("C09", "C23"), "R beat without an outstanding read burst", got=d)
            return
        b = self.reads[self.nr]
        if b["t_ar"] >= s.now:
            env.v(("C09", "C23"), "R beat before its AR was accepted", got=d)
        n = len(b["rbeats"])
        d["t"] = s.now
        b["rbeats"].append(d)
        self.last_r = d
        if d["rid"] != b["id"]:
            env.v("C09", f"R beat {n} carries ID {d['rid']}, expected {b['id']}", burst=rdesc(b))
        last = n == b["len"] - 1
        if bool(d["rlast"]) != last:
            env.v(("C09",), f"RLAST={d['rlast']} on beat {n + 1} of {b['len']}", burst=rdesc(b))
        if last:
            b["t_done"] = s.now
            self.nr += 1

    def drive(self):
        for p in self.parts:
            p.drive()

    def cut(self):
        """Reset: everything up to now is history (returned); nothing of it may be answered any more."""
        old = self.writes, self.reads
        self.writes, self.reads = [], []
        self.nb = self.nr = 0
        self.bseen = self.rseen = False
        self.last_r = None
        return old

    def done(self):
        return self.nb >= len(self.writes) and self.nr >= len(self.reads)


def wdesc(b):
    d = {k: b.get(k) for k in ("id", "len", "size", "burst", "mode", "i", "t_aw", "t_w", "t_b")}
    d["addr"] = hex(b["addr"])
    d["beats"] = [(hex(x), hex(y)) for x, y in b["beats"][:6]]
    return d


def rdesc(b):
    d = {k: b.get(k) for k in ("id", "len", "size", "burst", "i", "t_ar", "t_done")}
    d["addr"] = hex(b["addr"])
    d["beats"] = [{k: hex(v) if isinstance(v, int) else repr(v) for k, v in x.items()} for x in b["rbeats"][:6]]
    return d

"""AXI4-Lite bus functional models written from the specification; no repository code."""
from .bus import Chan, Gen, Snk, Src

AW = ["awaddr", "awprot"]
W = ["wdata", "wstrb"]
B = ["bresp"]
AR = ["araddr", "arprot"]
R = ["rdata", "rresp"]


def chans(dut, prefix, master_is_model):
    m, s = ("model", "bfm") if master_is_model else ("bfm", "model")
    return {
        "aw": Chan(dut, "AW", prefix, AW, "awvalid", "awready", m),
        "w": Chan(dut, "W", prefix, W, "wvalid", "wready", m),
        "b": Chan(dut, "B", prefix, B, "bvalid", "bready", s),
        "ar": Chan(dut, "AR", prefix, AR, "arvalid", "arready", m),
        "r": Chan(dut, "R", prefix, R, "rvalid", "rready", s),
    }


class SlaveBfm:
    """Accepts everything in random order of channels; responds in order after random delays, with random errors."""

    def __init__(self, env, ch, style):
        self.env, self.rng, self.ch, self.style = env, env.rng, ch, style
        self.err = style.get("err", 0)
        self.idle = style.get("idle", "garbage")
        g = {k: Gen(self.rng, style.get(k)) for k in ("aw", "w", "b", "ar", "r")}
        self.wr = []         # write transfers: addr prot data strb resp t_*
        self.rd = []
        self.naw = self.nw = 0
        self.aw = Snk(env, ch["aw"], g["aw"], self._aw)
        ahead = style.get("w_ahead", 10**9)
        self.w = Snk(env, ch["w"], g["w"], self._w, gate=lambda: self.nw - self.naw < ahead)
        self.b = Src(env, ch["b"], g["b"], self.idle, on_accept=self._b)
        self.ar = Snk(env, ch["ar"], g["ar"], self._ar)
        self.r = Src(env, ch["r"], g["r"], self.idle, on_accept=self._r)
        self.parts = [self.aw, self.w, self.b, self.ar, self.r]

    def flush(self):
        """Reset: the transfers so far are history; pairing starts over."""
        del self.wr[max(self.naw, self.nw):]
        self.naw = self.nw = len(self.wr)

    def _wr(self, i):
        while len(self.wr) <= i:
            self.wr.append({"i": len(self.wr), "t_aw": None, "t_w": None, "t_done": None, "addr": None, "data": None,
                            "strb": None, "prot": None, "resp": None})
        return self.wr[i]

    def _both(self, t, s):
        if t["t_aw"] is not None and t["t_w"] is not None:
            t["resp"] = self._resp()
            self.b.put({"bresp": t["resp"]}, None, t)

    def _resp(self):
        return self.rng.choice((2, 3)) if self.rng.random() < self.err else 0

    def _aw(self, d, s):
        t = self._wr(self.naw)
        self.naw += 1
        t.update(addr=d["awaddr"], prot=d.get("awprot"), t_aw=s.now)
        self._both(t, s)

    def _w(self, d, s):
        t = self._wr(self.nw)
        if self.nw >= self.naw:
            self.env.count["w_before_aw"] += 1
        self.nw += 1
        t.update(data=d["wdata"], strb=d.get("wstrb"), has_strb="wstrb" in d, t_w=s.now)
        self._both(t, s)

    def _b(self, f, t, s):
        t["t_done"] = s.now

    def _ar(self, d, s):
        t = {"i": len(self.rd), "addr": d["araddr"], "prot": d.get("arprot"), "t_ar": s.now, "t_done": None,
             "data": self.rng.getrandbits(len(self.ch["r"].sigs["rdata"])), "resp": self._resp()}
        self.rd.append(t)
        self.r.put({"rdata": t["data"], "rresp": t["resp"]}, None, t)

    def _r(self, f, t, s):
        t["t_done"] = s.now

    def edge(self, s):
        if s.in_reset:
            self.flush()
        for p in self.parts:
            p.edge(s)

    def drive(self):
        for p in self.parts:
            p.drive()


class MasterBfm:
    """Many outstanding transfers; W before, with or after AW; random gaps and response ready."""

    def __init__(self, env, ch, style):
        self.env, self.rng, self.ch = env, env.rng, ch
        g = {k: Gen(self.rng, style.get(k)) for k in ("aw", "w", "b", "ar", "r")}
        idle = style.get("idle", "hold")
        self.writes, self.reads = [], []
        self.nb = self.nr = 0
        self.cycle = 0
        self.aw = Src(env, ch["aw"], g["aw"], idle, on_accept=self._aw)
        self.w = Src(env, ch["w"], g["w"], idle, on_accept=self._w)
        self.b = Snk(env, ch["b"], g["b"], self._b)
        self.ar = Src(env, ch["ar"], g["ar"], idle, on_accept=self._ar)
        self.r = Snk(env, ch["r"], g["r"], self._r)
        self.parts = [self.aw, self.w, self.b, self.ar, self.r]
        self.bseen = self.rseen = False
        self.trv = None

    def put_write(self, t):
        t.update(t_aw=None, t_w=None, t_b=None, t_done=None, i=len(self.writes))
        self.writes.append(t)
        mode = t["mode"]
        hold = [None]

        def late():
            if hold[0] is None:
                hold[0] = self.cycle + t["lag"]
            return self.cycle >= hold[0]
        self.aw.put({"awaddr": t["addr"], "awprot": t["prot"]}, late if mode == "before" else None, t)
        self.w.put({"wdata": t["data"], "wstrb": t["strb"]}, (lambda: t["t_aw"] is not None) if mode == "after" else None, t)

    def put_read(self, t):
        t.update(t_ar=None, t_done=None, i=len(self.reads))
        self.reads.append(t)
        self.ar.put({"araddr": t["addr"], "arprot": t["prot"]}, None, t)

    def _aw(self, f, t, s):
        t["t_aw"] = s.now
        if t["t_w"] is not None:
            self.env.count["w_before_aw"] += 1

    def _w(self, f, t, s):
        t["t_w"] = s.now

    def _ar(self, f, t, s):
        t["t_ar"] = s.now

    on_bvalid = None

    def edge(self, s):
        self.cycle += 1
        c = self.ch["r"]
        if c.v and not self.rseen:
            self.rseen = True
            self.trv = s.now
        # the handshakes of this edge first: a later write accepted at this edge may already be visible in the memory
        for p in self.parts:
            p.edge(s)
        c = self.ch["b"]
        if c.v and not self.bseen and not s.in_reset:
            self.bseen = True
            k = self.nb - (1 if c.data is not None else 0)
            if 0 <= k < len(self.writes) and self.on_bvalid:
                self.on_bvalid(self.writes[k], s)
        for n in ("b", "r"):
            c = self.ch[n]
            if c.data is not None or not c.v or s.in_reset:
                setattr(self, n + "seen", False)

    def _b(self, d, s):
        env = self.env
        if self.nb >= len(self.writes):
            env.v(("C12", "C09", "C23"), "B response without an outstanding write", got=d)
            return
        t = self.writes[self.nb]
        self.nb += 1
        t["t_b"] = s.now
        t["resp"] = d.get("bresp", 0)
        if t["t_aw"] is None or t["t_w"] is None or t["t_aw"] >= s.now or t["t_w"] >= s.now:
            env.v(("C12", "C23"), "B response before both AW and W were accepted", write=tdesc(t))

    def _r(self, d, s):
        env = self.env
        if self.nr >= len(self.reads) or self.reads[self.nr]["t_ar"] is None or self.reads[self.nr]["t_ar"] >= s.now:
            env.v(("C12", "C23"), "R response without an accepted read", got=d)
            return
        t = self.reads[self.nr]
        self.nr += 1
        t["t_done"] = s.now
        t["tv"] = self.trv
        t["got"] = d["rdata"]
        t["resp"] = d.get("rresp", 0)

    def drive(self):
        for p in self.parts:
            p.drive()

    def cut(self):
        old = self.writes, self.reads
        self.writes, self.reads = [], []
        self.nb = self.nr = 0
        self.bseen = self.rseen = False
        return old

    def done(self):
        return self.nb >= len(self.writes) and self.nr >= len(self.reads)


def tdesc(t):
    return {k: (hex(v) if k in ("addr", "data", "strb", "got") and isinstance(v, int) else v) for k, v in t.items()
            if k in ("addr", "data", "strb", "got", "prot", "mode", "i", "resp") or k.startswith("t_")}

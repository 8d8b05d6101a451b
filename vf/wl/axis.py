"""AXI stream source, sink and monitors against the wires (C16, C18, C24-C29, C31)."""
import itertools

from cocotb.queue import QueueEmpty, QueueFull
from cocotb.triggers import RisingEdge, Timer
from cocotbext.axi import AxiStreamBus, AxiStreamFrame, AxiStreamMonitor, AxiStreamSink, AxiStreamSource

from ..bus import Chan, Gen, Sampler, Snk, Src, raw, val
from ..resets import Resets
from ..pauses import PauseLog, pauser
from .common import CountingEvent, cycles, now

SIDE = ("tid", "tdest", "tuser")


class Ctx:
    pass


def at_edge(env):
    return now() % (env.period * 1000) == env.period * 500


def ext(v, n, default):
    if v is None:
        return [default] * n
    if isinstance(v, int):
        return [v] * n
    return (list(v) + [v[-1]] * n)[:n]


def encode(x, data, tkeep, side):
    """The beats a frame must produce: used lanes only."""
    n = len(data)
    keep = ext(tkeep, n, 1)
    sd = {k: ext(side.get(k), n, 0) for k in SIDE}
    beats = []
    for b in range(0, n, x.lanes):
        e = min(n, b + x.lanes)
        d = {"tdata": sum(data[i] << (i - b) * x.bs for i in range(b, e)), "tkeep": sum(keep[i] << (i - b) for i in range(b, e)),
             "tlast": int(e == n), "used": (1 << (e - b) * x.bs) - 1}
        for k in SIDE:
            d[k] = sd[k][e - 1]
        beats.append(d)
    return beats


class Rec:
    """One frame given to the source."""

    def __init__(self, data, beats):
        self.data, self.beats, self.pos = data, beats, 0
        self.fires = []
        self.has_tx = False
        self.start = self.end = None
        self.state = "queued"

    def fire(self, frame):
        self.fires.append((now(), frame))


class TxEvent(CountingEvent):
    rec = None

    def set(self, data=None):
        super().set(data)
        self.rec.fire(data)


def make_frame(env, x):
    rng = env.rng
    y = rng.random()
    L = x.lanes
    n = (1 if y < 0.1 else rng.choice([max(1, L - 1), L, L + 1]) if y < 0.35 else rng.randrange(1, 3 * L + 1) if y < 0.8
         else rng.randrange(1, min(8 * L, 600) + 1))
    if x.left_long and L >= 8 and rng.random() < 0.1:
        x.left_long -= 1
        n = rng.randrange(L * 60, L * 60 + 300)
        env.count["long_frames"] += 1
    if x.left_huge and rng.random() < 0.15:
        x.left_huge -= 1
        n = max(1, min(9000, L * rng.choice([257, 300, 513, 1025]) - rng.randrange(L)))
        env.count["huge_frames"] += 1
    data = [rng.getrandbits(x.bs) for _ in range(n)]
    form = rng.choice(["bytes", "bytearray", "list", "frame", "frame", "frame"]) if x.bs == 8 else rng.choice(["list", "frame", "frame"])
    obj = bytes(data) if form == "bytes" else bytearray(data) if form == "bytearray" else list(data)
    tkeep, side, muts = None, {}, []
    tx = None
    if form == "frame":
        def some(w, p_int=True):
            q = rng.random()
            if q < 0.25:
                return None
            if q < 0.5 and p_int:
                return rng.getrandbits(w) if rng.random() < 0.9 else bool(rng.getrandbits(1))
            k = rng.choice([n, n, rng.randrange(1, n + 1), n + rng.randrange(4)])
            return [rng.getrandbits(w) for _ in range(k)]
        tkeep = some(1, False)
        for k in SIDE:
            side[k] = some(x.sw[k])
        obj = AxiStreamFrame(bytes(data) if x.bs == 8 and rng.random() < 0.6 else list(data), tkeep=None if tkeep is None else list(tkeep),
                             **{k: (list(v) if isinstance(v, list) else v) for k, v in side.items()})
        if rng.random() < 0.3:      # a frame that was received before carries times
            obj.sim_time_start = rng.randrange(1, 10**6)
            obj.sim_time_end = obj.sim_time_start + rng.randrange(10**4)
    rec = Rec(data, encode(x, data, tkeep, side))
    if form == "frame" and rng.random() < 0.75:
        rec.has_tx = True
        if rng.random() < 0.5:
            tx = TxEvent()
            tx.rec = rec
        else:
            tx = rec.fire
        obj.tx_complete = tx
    env.seen("frame_forms", (form, tkeep is not None, tuple(type(side.get(k)).__name__ for k in SIDE), n % L, -(-n // L)))
    return obj, rec


def mutate(rng, obj):
    """The caller changes what it sent: must not matter."""
    t = obj.tdata if isinstance(obj, AxiStreamFrame) else obj
    if isinstance(t, bytes):
        return
    for i in range(len(t)):
        t[i] ^= 1
    if rng.random() < 0.5:
        t.append(0)
    if isinstance(obj, AxiStreamFrame):
        for k in ("tkeep",) + SIDE:
            v = getattr(obj, k)
            if isinstance(v, list):
                for i in range(len(v)):
                    v[i] ^= 1
                v.append(1)


class Track:
    """What a sink or monitor must have received."""

    def __init__(self, env, x, obj, name, limits, style):
        self.env, self.x, self.o, self.name, self.style = env, x, obj, name, style
        self.lb, self.lf = limits
        self.cur = None
        self.frames = []          # complete and not matched
        self.got = []
        self.sizes = []           # sizes of the frames that must be in the queue
        self.ncomplete = self.ntaken = 0
        self.lag = 0              # frames taken before the listener saw their last beat
        self.dirty = self.reading = False
        self.bytes_in = bytearray() if x.bs == 8 else []
        self.bytes_out = bytearray() if x.bs == 8 else []
        self.nout = self.nin = 0
        self.over = 0
        self.P = ("C27",) + (("C25",) if x.mode == "pair" else ()) + (("C24",) if x.resets else ())

    # -- bus side
    def edge(self, s, c):
        x = self.x
        wasfull = self.full() and not self.reading and not self.dirty     # read() may have taken frames without kept bytes
        if c.data is not None:
            if wasfull and c.ready is not None:
                self.over += 1
                if self.over > 1:
                    self.env.v(("C28",), f"{self.name} keeps accepting while full ({len(self.sizes)} frames, {sum(self.sizes)} bytes)", time=s.now)
            d = c.data
            if self.cur is None:
                self.cur = {"tdata": [], "tkeep": [], "tid": [], "tdest": [], "tuser": [], "t0": s.now}
            f = self.cur
            for i in range(x.lanes):
                f["tdata"].append(d["tdata"] >> i * x.bs & (1 << x.bs) - 1)
                if "tkeep" in d:
                    f["tkeep"].append(d["tkeep"] >> i & 1)
                for k in SIDE:
                    if k in d:
                        f[k].append(d[k])
            if d.get("tlast", 1):
                f["t1"] = s.now
                self.frames.append(f)
                self.ncomplete += 1
                self.nin += sum(f["tkeep"]) if f["tkeep"] else len(f["tdata"])
                if self.lag:
                    self.lag -= 1
                else:
                    self.sizes.append(len(f["tdata"]))
                self.cur = None
        if not self.full():
            self.over = 0

    def full(self):
        return self.lb > 0 and sum(self.sizes) > self.lb or self.lf > 0 and len(self.sizes) > self.lf

    # -- user side
    def took(self, n=1):
        self.ntaken += n
        for _ in range(n):
            if self.sizes:
                self.sizes.pop(0)
            else:
                self.lag += 1

    def recv(self, frame, compact):
        self.took()
        self.got.append((frame, compact))
        self.match()

    def kept(self, f, k):
        return [v for i, v in enumerate(f[k]) if not f["tkeep"] or f["tkeep"][i]]

    def match(self):
        env, x = self.env, self.x
        while self.got and self.frames:
            fr, compact = self.got.pop(0)
            f = self.frames.pop(0)
            exp = self.kept(f, "tdata") if compact else f["tdata"]
            env.count["frames_checked"] += 1
            if list(fr.tdata) != exp or len(fr) != len(exp) or list(fr) != exp or x.bs == 8 and bytes(fr) != bytes(exp):
                env.v(self.P, f"{self.name}: frame data differs from the bytes on the bus", got=list(fr.tdata), expected=exp, last_beat=f["t1"])
                return
            if x.bs == 8 and not isinstance(fr.tdata, (bytes, bytearray)):
                env.v(self.P, f"{self.name}: tdata of an 8 bit stream is {type(fr.tdata).__name__}")
            if compact:
                if fr.tkeep is not None:
                    env.v(self.P, f"{self.name}: compacted frame has tkeep", got=fr.tkeep)
            elif list(fr.tkeep or []) != f["tkeep"]:
                env.v(self.P, f"{self.name}: tkeep differs from the bus", got=fr.tkeep, expected=f["tkeep"])
            for k in SIDE:
                v = getattr(fr, k)
                e = self.kept(f, k) if compact else f[k]
                if compact:
                    ok = v is None if not e else v == e[0] if len(set(e)) == 1 and isinstance(v, int) else len(set(e)) > 1 and v == e
                else:
                    ok = list(v or []) == e
                if not ok:
                    env.v(self.P, f"{self.name}: {k} differs from the bus", got=v, expected=e, compact=compact)
                    return
            if fr.sim_time_start != f["t0"] or fr.sim_time_end != f["t1"]:
                env.v(("C29",), f"{self.name}: frame times {fr.sim_time_start}..{fr.sim_time_end}, transferred {f['t0']}..{f['t1']}")

    def read(self, data):
        """Bytes returned by read() or read_nowait()."""
        self.bytes_out.extend(data)
        self.nout += len(data)
        self.dirty = True
        self.match_bytes()

    def match_bytes(self):
        while self.frames and len(self.bytes_in) < len(self.bytes_out):
            self.bytes_in.extend(self.kept(self.frames.pop(0), "tdata"))
        n = min(len(self.bytes_in), len(self.bytes_out))
        if n:
            self.env.count["bytes_read"] += n
            if list(self.bytes_in[:n]) != list(self.bytes_out[:n]):
                i = next(i for i in range(n) if self.bytes_in[i] != self.bytes_out[i])
                self.env.v(("C31",), f"{self.name}: read() differs from the byte stream on the bus at byte {self.nout - len(self.bytes_out) + i}",
                           got=list(self.bytes_out[i:i + 8]), expected=list(self.bytes_in[i:i + 8]))
            del self.bytes_in[:n]
            del self.bytes_out[:n]

    def check(self):
        env, o = self.env, self.o
        if self.style == "read":
            self.match_bytes()
            if self.bytes_out:
                env.v(("C31",), f"{self.name}: read() returned bytes that were not on the bus", got=list(self.bytes_out[:16]))
            if self.dirty or self.reading:
                self.dirty = False
                n = len(self.sizes) - o.count()
                if n > 0:
                    self.took(n)
        else:
            self.match()
            if self.got:
                env.v(self.P, f"{self.name} delivered more frames than were transferred")
        n, b = len(self.sizes), sum(self.sizes)
        have = (o.count(), o.queue_occupancy_frames, o.queue_occupancy_bytes, o.empty())
        if have != (n, n, b, n == 0):
            env.v(("C28",), f"{self.name}: count/frames/bytes/empty are {have}, {n} frames with {b} bytes are queued", time=now())
        if hasattr(o, "full") and bool(o.full()) != self.full():
            env.v(("C28",), f"{self.name}: full() is {o.full()} with {n} frames, {b} bytes and limits {self.lf} frames, {self.lb} bytes")
        if self.cur is not None and o.idle():
            env.v(("C29",), f"{self.name}: idle() in the middle of a frame", time=now())
        env.seen("sink_fill", (self.lf, self.lb, n, b))

    def clear(self):
        n = len(self.sizes)
        self.o.clear()
        if self.style == "read":
            return
        self.took(n)
        if n:
            del self.frames[len(self.frames) - n:]
        self.env.count["sink_clears"] += 1


class Listener:
    def __init__(self, x):
        self.x = x
        self.pv = self.phs = False
        self.prst = True

    def fresh(self):
        c = self.x.csrc
        return int(c.valid is not None and val(c.valid) == 1 and (not c.v or c.data is not None or self.prst))

    def edge(self, s):
        x, env = self.x, self.x.env
        c = x.csrc
        if x.src is not None and not s.in_reset and c.v and (not self.pv or self.phs or self.prst):
            self.present(s, c.fields())
        if s.in_reset:
            env.count["reset_edges"] += 1
            if x.src is not None and c.valid is not None and raw(c.valid) != "0":
                env.v(("C24",), "source drives tvalid while reset is asserted", time=s.now)
            if x.snk is not None and c.ready is not None and raw(c.ready) != "0":
                env.v(("C24",), "sink drives tready while reset is asserted", time=s.now)
        for tr in x.tracks:
            if s.in_reset:
                tr.cur = None
            tr.edge(s, c)
        x.pause_log.edge(s, x.pchans, s.in_reset)
        self.pv, self.phs, self.prst = c.v, c.data is not None, s.in_reset

    def present(self, s, f):
        x, env = self.x, self.x.env
        if not x.exp:
            env.v(x.PS, "source presents a beat although nothing is left to send", time=s.now, got=f)
            return
        r = x.exp[0]
        b = r.beats[r.pos]
        env.count["beats_checked"] += 1
        for k, v in f.items():
            e = b[k]
            if k == "tdata":
                v = None if v is None else v & b["used"]
            if v != e:
                env.v(x.PS, f"beat {r.pos} of a frame: {k} is {v}, expected {e}", time=s.now, frame_length=len(r.data), lanes=x.lanes)
                return
        if r.pos == 0:
            r.start = s.now - env.period * 1000
        r.pos += 1
        if r.pos == len(r.beats):
            r.end = s.now - env.period * 1000
            r.state = "sent"
            x.exp.pop(0)
            x.nsent_frames += 1

    def drive(self):
        pass


def begun(x, r):
    """r is the first unfinished frame: has one of its beats been put on the bus?"""
    return r.pos > 0 or x.lst.fresh()


def probe(env, x):
    if x.in_reset_window:
        return
    env.count["probes"] += 1
    if x.src is not None:
        src = x.src
        fresh = x.lst.fresh()
        q = [r for i, r in enumerate(x.exp) if i or not begun(x, r)]
        # a fresh last beat finishes the first frame
        have = (src.count(), src.queue_occupancy_frames, src.queue_occupancy_bytes, src.empty())
        ok = [(len(q), len(q), sum(len(r.data) for r in q), not q)]
        if q and (x.paused_used or x.just_reset) and not (x.exp and x.exp[0].pos and not (fresh and x.exp[0].pos == len(x.exp[0].beats) - 1)):
            # a paused source holds the next frame in its hands
            w = q[1:]
            ok.append((len(w), len(w), sum(len(r.data) for r in w), not w))
        if have not in ok:
            env.v(("C28",), f"source: count/frames/bytes/empty are {have}, expected {ok[0]}", time=now())
        exp_full = x.lb > 0 and have[2] > x.lb or x.lf > 0 and have[1] > x.lf
        if bool(src.full()) != exp_full:
            env.v(("C28",), f"source: full() is {src.full()} with {have[1]} frames, {have[2]} bytes and limits {x.lf} frames, {x.lb} bytes")
        pending = bool(x.exp) or fresh or (x.csrc.v and x.csrc.data is None and not x.lst.prst)
        if pending and src.idle():
            env.v(("C29",), "source is idle() with data that was not accepted", time=now())
        env.seen("source_fill", (x.lf, x.lb, have[1], have[2]))
    for tr in x.tracks:
        tr.check()


async def relimiter(env, x):
    """Limits are set to other values while frames flow."""
    rng = env.rng
    pick = lambda n, k: rng.choice([-1, 0, max(n, 1), n + rng.randrange(1, k)])
    while not x.finished:
        await cycles(env, rng.randrange(5, 80))
        await Timer(env.period // 2, "ns")
        if x.in_reset_window or x.finished:
            continue
        env.count["limit_changes"] += 1
        if x.src is not None and rng.random() < 0.7:
            x.lb, x.lf = pick(x.src.queue_occupancy_bytes, 100), pick(x.src.queue_occupancy_frames, 5)
            x.src.queue_occupancy_limit_bytes, x.src.queue_occupancy_limit_frames = x.lb, x.lf
        for tr in x.tracks:
            if tr.o is x.snk and not tr.o.full():
                tr.lb, tr.lf = pick(tr.o.queue_occupancy_bytes, 100), pick(tr.o.queue_occupancy_frames, 5)
                tr.o.queue_occupancy_limit_bytes, tr.o.queue_occupancy_limit_frames = tr.lb, tr.lf


async def sender(env, x):
    rng, src = env.rng, x.src
    while x.left > 0:
        x.left -= 1
        obj, rec = make_frame(env, x)
        n = len(rec.data)
        nowait = rng.random() < x.p_nowait
        alias = rng.random() < 0.2
        if nowait:
            isfull = x.lb > 0 and src.queue_occupancy_bytes > x.lb or x.lf > 0 and src.queue_occupancy_frames > x.lf
            try:
                (src.write_nowait if alias else src.send_nowait)(obj)
            except QueueFull:
                env.count["queue_full"] += 1
                if not isfull:
                    env.v(("C28",), "send_nowait raised QueueFull although no limit is exceeded")
                if rec.fires:
                    env.v(("C29",), "tx_complete fired for a rejected frame")
                x.left += 1
                await Timer(rng.randrange(1, 60), "ns")
                continue
            if isfull:
                env.v(("C28",), "send_nowait succeeded although the source is full")
        else:
            await (src.write if alias else src.send)(obj)
        # same time step as the enqueue
        b, f = src.queue_occupancy_bytes - n, src.queue_occupancy_frames - 1
        if x.lb > 0 and b > x.lb or x.lf > 0 and f > x.lf:
            env.v(("C28",), f"send() did not block on a full source ({f} frames, {b} bytes)")
        x.exp.append(rec)
        x.recs.append(rec)
        if rng.random() < 0.5:
            mutate(rng, obj)
        if rng.random() < x.send_gap:
            await Timer(rng.randrange(1, 30) if rng.random() < 0.6 else env.period * rng.randrange(3, 30), "ns")
    x.senders -= 1


async def receiver(env, x, tr):
    rng, o = env.rng, tr.o
    sips = rng.choice([100, 400, 2000]) if tr.style == "read" and rng.random() < 0.25 else 0
    if env.cfg.get("hoard"):
        await Timer(env.cfg["hoard"] * env.period, "ns")
        env.seen("hoarded_frames", o.count())
    while not x.finished:
        y = rng.random()
        if tr.style == "recv":
            compact = rng.random() < 0.7
            if y < 0.45:
                tr.recv(await (o.recv() if compact and rng.random() < 0.5 else o.recv(compact=compact)), compact)
            elif y < 0.8:
                try:
                    f = o.recv_nowait() if compact and rng.random() < 0.5 else o.recv_nowait(compact)
                except QueueEmpty:
                    if o.count():
                        env.v(("C27", "C28"), f"{tr.name}: recv_nowait raised QueueEmpty with {o.count()} frames queued")
                    await Timer(rng.randrange(1, 40), "ns")
                    continue
                tr.recv(f, compact)
        else:
            n = rng.choice([-1, -1, 0, 1, 2, x.lanes, 3 * x.lanes + 1, rng.randrange(1, 100)])
            if sips:
                n = rng.choice([0, 1, 2, 3, 17, x.lanes]) if tr.nin - tr.nout < sips or rng.random() < 0.8 else rng.choice([-1, 100, 200, 1000, 3000])
            if y < 0.4:
                tr.reading = True       # may take and drop frames without kept bytes
                d = await (o.read() if n < 0 else o.read(n))
                tr.reading = False
                if not d and n:
                    env.v(("C31",), f"{tr.name}: read({n}) returned nothing")
                if 0 <= n < len(d):
                    env.v(("C31",), f"{tr.name}: read({n}) returned {len(d)} bytes")
                tr.read(d)
            elif y < 0.8:
                exact = not at_edge(env)
                avail = tr.nin - tr.nout
                d = o.read_nowait() if n < 0 else o.read_nowait(n)
                if exact and not tr.cleared_reads and len(d) != (avail if n < 0 else min(n, avail)):
                    env.v(("C31",), f"{tr.name}: read_nowait({n}) returned {len(d)} of {avail} available bytes", time=now())
                tr.read(d)
                if not d:
                    await Timer(rng.randrange(1, 40), "ns")
        if y >= 0.8:
            if y < 0.9:
                await o.wait()
                if o.empty() and tr.users == 1:
                    env.v(("C29",), f"{tr.name}: wait() returned with nothing received")
            else:
                t, lim = now(), rng.randrange(1, 100)
                await o.wait(lim, "ns")
                if o.empty() and tr.users == 1 and now() - t < lim * 1000:
                    env.v(("C29",), f"{tr.name}: wait(timeout) returned early with nothing received")
        if rng.random() < x.recv_gap:
            await Timer(rng.randrange(1, 200 if rng.random() < 0.2 else 40), "ns")


def drop(env, x, recs, why):
    for r in recs:
        r.state = why
        x.exp.remove(r)


async def prober(env, x):
    rng = env.rng
    e = RisingEdge(env.clk)
    while not x.finished:
        await e
        await Timer(env.period * 1000 - 1500, "ps")
        probe(env, x)
        if x.src is not None and rng.random() < 0.2 and x.src.idle():
            t = env.spawn(x.src.wait(), "wait")
            await Timer(1, "ps")
            if not t.done() and x.src.idle():
                env.v(("C29", "C23"), "source: wait() does not return while the source is idle()", time=now())
            env.count["idle_waits"] += 1
        if x.clears and rng.random() < 0.012 and not x.in_reset_window:
            if x.src is not None and rng.random() < 0.5:
                q = x.src.count()
                victims = x.exp[len(x.exp) - q:] if q else []
                x.src.clear()
                x.cleared_at = now()
                drop(env, x, victims, "cleared")
                env.count["source_clears"] += 1
                env.count["frames_cleared"] += len(victims)
            elif x.tracks:
                tr = rng.choice(x.tracks)
                if tr.style == "recv":
                    tr.clear()


async def waiter(env, x):
    while x.senders:
        await Timer(env.rng.randrange(1, 400), "ns")
        todo, t0, exact = list(x.exp), now(), not at_edge(env)
        need = x.csrc.n + (x.lst.fresh() or bool(x.csrc.v and x.csrc.data is None and not x.lst.prst))
        await x.src.wait()
        env.count["source_waits"] += 1
        await Timer(1, "ns")
        if exact and x.csrc.n < need and x.reset_at < t0 and not x.in_reset_window:
            env.v(("C29",), "source: wait() returned before the last beat was accepted", time=now())
        if any(r.state == "queued" for r in todo):
            env.v(("C29",), "source: wait() returned before all frames were sent", time=now())


async def resetter(env, x):
    rng, dut = env.rng, env.dut
    e = RisingEdge(env.clk)
    soon = False
    for _ in range(rng.choice([1, 2, 3, 5])):
        # now and then straight after the reset before
        await Timer(rng.randrange(1, 20) if soon else rng.randrange(20, 900), "ns")
        for _ in range(100):
            await e
            if (x.csrc.v and not x.csrc.r) or rng.random() < 0.1 or soon:
                break
        soon = rng.random() < 0.3
        exact = rng.random() < 0.2
        if not exact:
            await Timer(rng.randrange(1, env.period), "ns")
        fresh = x.lst.fresh()
        x.in_reset_window = True
        x.reset_at = now()
        dut.rst.value = x.lvl
        env.count["resets"] += 1
        await Timer(1, "ps")
        if x.src is not None:
            q = x.src.count()
            lost = x.exp[:len(x.exp) - q]
            if q > len(x.exp):
                env.v(("C24",), "source queue grew at reset")
                return
            part = 0
            for r in lost:
                last = r.pos == len(r.beats) - 1 and (fresh or exact)
                if not last:
                    part += 1
                    if r.pos == 0 and not fresh and not exact and not x.paused_used:
                        env.v(("C24",), "reset dropped a frame that had not been started", length=len(r.data))
            if part > 1:
                env.v(("C24",), f"reset dropped {part} frames", lengths=[len(r.data) for r in lost])
            if x.exp and x.exp[0].pos and x.exp[0] not in lost:
                env.v(("C24",), "the frame in progress survived the reset")
            env.count["frames_lost_in_reset"] += len(lost)
            drop(env, x, list(lost), "lost")
            if lost:
                env.seen("reset_points", (lost[0].pos, len(lost[0].beats), fresh))
        for tr in x.tracks:
            tr.cur = None
        await cycles(env, rng.choice([2, 3, 8]))
        if rng.random() < 0.7:
            await Timer(rng.randrange(1, env.period), "ns")
        dut.rst.value = 1 - x.lvl
        await e
        await Timer(env.period - 1, "ns")
        x.in_reset_window = False


def random_beats(env, x):
    """Beats of one packet as any legal source may drive them."""
    rng = env.rng
    n = rng.choice([1, 1, 2, 3, rng.randrange(1, 9)])
    if x.left_huge and rng.random() < 0.1:
        x.left_huge -= 1
        n = rng.choice([257, 300, 513, 1025])
        env.count["huge_frames"] += 1
    style = rng.choice(["full", "tail", "sparse", "null", "any"])
    fixed = {k: rng.getrandbits(x.sw[k]) for k in SIDE}
    vary = rng.random() < 0.4
    full = (1 << x.lanes) - 1
    for i in range(n):
        d = {"tdata": rng.getrandbits(x.lanes * x.bs), "tlast": int(i == n - 1)}
        for k in SIDE:
            d[k] = rng.getrandbits(x.sw[k]) if vary else fixed[k]
        d["tkeep"] = (full if style == "full" or style == "tail" and i < n - 1 else (1 << rng.randrange(1, x.lanes + 1)) - 1 if style == "tail"
                      else 0 if style == "null" else rng.getrandbits(x.lanes) & (rng.getrandbits(x.lanes) if style == "sparse" else full))
        yield d


async def episode(env):
    cfg, rng, dut = env.cfg, env.rng, env.dut
    p = cfg["dutp"]
    x = Ctx()
    x.env = env
    x.mode = mode = cfg["mode"]
    x.resets = cfg.get("resets")
    x.lvl = cfg.get("rst_level", 1)
    has_rst = x.resets or cfg.get("rst", True)
    x.lanes, x.bs = p["lanes"], p["bs"]
    x.sw = p["sw"]
    opt = p["opt"]
    at_start = cfg.get("rst_at_start") and has_rst
    dut.rst.setimmediatevalue(x.lvl if at_start else 1 - x.lvl)
    await Timer(rng.randrange(1, env.period) * 1000 + 300, "ps")
    kw = {}
    if "tkeep" not in opt:
        ch = ["byte_size", "byte_lanes"]
        if x.bs == 8:
            ch.append("none")
        k = rng.choice(ch)
        if k != "none":
            kw[k] = x.bs if k == "byte_size" else x.lanes
    x.rs = Resets(env, cfg, x.lvl, has_rst)
    args = x.rs.args()
    args += (bool(x.lvl),) if len(args) > 1 else ()
    payload = ["tdata"] + [n for n in ("tlast", "tkeep") + SIDE if n in opt]
    tv, trd = "tvalid" if "tvalid" in opt else None, "tready" if "tready" in opt else None
    x.PS = ("C26",) + (("C25",) if mode == "pair" else ()) + (("C24",) if x.resets else ())
    x.exp, x.recs = [], []
    x.nsent_frames = 0
    x.reset_at = x.cleared_at = -1
    x.just_reset = False
    x.in_reset_window = True
    x.finished = False
    x.clears = cfg.get("clears")
    x.paused_used = bool(cfg.get("pauses"))
    model_src = mode in ("src", "pair")
    x.csrc = Chan(dut, "stream", "axis", payload, tv, trd, "model" if model_src else "bfm")
    x.csnk = Chan(dut, "stream", "axis", payload, tv, trd, "bfm")
    x.src = x.snk = None
    x.tracks, x.pausable, x.pchans = [], {}, []
    x.pause_log = PauseLog(env)
    x.lst = Listener(x)
    x.s = Sampler(env, [x.csrc, x.csnk], [x.lst], delay=cfg.get("delay", 0), reset=dut.rst if has_rst else None)
    x.s.reset_active = x.lvl
    x.s.start()
    x.lb, x.lf = cfg.get("slimit", (-1, -1)) if model_src else (-1, -1)
    order = ["src", "snk", "mon"]
    rng.shuffle(order)
    names = ["axis_" + n for n in ["tdata"] + [o for o in opt]]
    for o in order:
        if o == "src":
            if model_src:
                x.src = AxiStreamSource(AxiStreamBus.from_prefix(dut, "axis"), *args, **kw)
                if x.lb != -1:           # the default
                    x.src.queue_occupancy_limit_bytes = x.lb
                if x.lf != -1:
                    x.src.queue_occupancy_limit_frames = x.lf
                x.rs.add(x.src)
                x.pausable["src"] = x.src
            else:
                x.bsrc = Src(env, x.csrc, Gen(rng, cfg.get("vstyle")), cfg.get("idle", "garbage"))
                x.s.listeners.append(x.bsrc)
        elif o == "snk":
            if mode in ("snk", "pair"):
                x.snk = AxiStreamSink(AxiStreamBus.from_prefix(dut, "axis"), *args, **kw)
                kl = cfg.get("klimit", (-1, -1))
                if kl[0] != -1:
                    x.snk.queue_occupancy_limit_bytes = kl[0]
                if kl[1] != -1:
                    x.snk.queue_occupancy_limit_frames = kl[1]
                x.rs.add(x.snk)
                x.pausable["snk"] = x.snk
                x.tracks.append(Track(env, x, x.snk, "sink", kl, cfg["rxstyle"]))
            else:
                x.s.listeners.append(Snk(env, x.csrc, Gen(rng, cfg.get("rstyle"))))
        else:
            for i in range(cfg.get("monitors", 1)):
                await Timer(100, "ps")
                before = {n: raw(getattr(dut, n)) for n in names}
                m = AxiStreamMonitor(AxiStreamBus.from_prefix(dut, "axis"), *args, **kw)
                x.rs.add(m)
                x.tracks.append(Track(env, x, m, f"monitor {i}", (-1, -1), rng.choice(["recv", cfg["rxstyle"]])))
                await Timer(1, "ps")
                if before != {n: raw(getattr(dut, n)) for n in names}:
                    env.v(("C27",), "constructing a monitor changed the bus")
    for tr in x.tracks:
        tr.cleared_reads = False
    x.pchans += [(n, x.csrc if n == "src" else x.csnk) for n in x.pausable]
    if at_start:
        await cycles(env, rng.randrange(1, 5))
        await Timer(rng.randrange(1, env.period), "ns")
        dut.rst.value = 1 - x.lvl
        await cycles(env, 1)
    await Timer(1, "ns")
    x.in_reset_window = False
    x.left = cfg.get("nframes", 20)
    x.left_long = rng.randrange(2)
    x.left_huge = int(rng.random() < 0.5 and cfg.get("vstyle") in ("always", "p90") and cfg.get("rstyle") in ("always", "p90"))
    x.p_nowait = cfg.get("p_nowait", 0.4)
    x.send_gap = rng.choice([0, 0.1, 0.5])
    x.recv_gap = rng.choice([0, 0.2, 0.6])
    x.senders = 0
    env.pending = lambda: {"unsent": x.left, "unfinished": len(x.exp), "handshakes": x.csrc.n, "queued": [len(t.sizes) for t in x.tracks]}
    env.spawn(prober(env, x), "prober")
    if (any(v > 0 for v in (x.lb, x.lf)) or any(v > 0 for v in cfg.get("klimit", (-1, -1)))) and rng.random() < 0.4:
        env.spawn(relimiter(env, x), "relimiter")
    for tr in x.tracks:
        tr.users = 2 if tr.style == "recv" and rng.random() < 0.2 else 1
        for _ in range(tr.users):
            env.spawn(receiver(env, x, tr), "receiver")
    pstop = [False]
    if x.paused_used:
        env.spawn(pauser(env, x.pausable, x.pause_log, pstop), "pauser")
    if x.resets:
        rt = env.spawn(resetter(env, x), "resetter")
    if model_src:
        x.senders = n = rng.choice([1, 1, 2])
        for k in range(n):
            env.spawn(sender(env, x), "sender")
        if rng.random() < 0.7:
            env.spawn(waiter(env, x), "waiter")
        while x.senders:
            await cycles(env, 1)
    else:
        while x.left > 0:
            x.left -= 1
            for b in random_beats(env, x):
                x.bsrc.put(b)
            if rng.random() < x.send_gap:
                await Timer(rng.randrange(1, 100), "ns")
        while x.bsrc.busy():
            await cycles(env, 1)
    if x.resets:
        await rt.join()
    pstop[0] = True
    if tv:
        while x.exp:
            await cycles(env, 1)
        while x.csrc.v or x.lst.fresh():
            await cycles(env, 1)
        while any(t.sizes for t in x.tracks if t.style == "recv"):
            await cycles(env, 1)
    if model_src:
        await x.src.wait()
    await cycles(env, rng.randrange(3, 12))
    await Timer(2, "ns")
    if tv:
        for tr in x.tracks:
            if tr.style == "read":
                tr.read(tr.o.read_nowait())
                tr.check()
                if tr.nout != tr.nin:
                    env.v(("C31",), f"{tr.name}: {tr.nout} of {tr.nin} bytes were read")
        probe(env, x)
        if any(t.style == "read" for t in x.tracks):
            await cycles(env, 2)         # a full sink looks at the bus again
        if model_src and not x.src.idle():
            env.v(("C29",), "source is not idle() after everything was accepted")
        for tr in x.tracks:
            if tr.cur is None and not tr.o.idle() and not (tr.full()):
                env.v(("C29",), f"{tr.name}: not idle() although no frame is in progress")
    x.finished = True
    judge_tx(env, x)
    env.sig(mode, x.csrc.n, x.s.cycle, [t.ncomplete for t in x.tracks], [(len(r.data), r.start, r.end) for r in x.recs])
    env.count["beats"] += x.csrc.n
    env.count["frames_sent"] += len(x.recs)
    env.count["frames_received"] += sum(t.ncomplete for t in x.tracks)
    env.count["cycles"] += x.s.cycle
    env.nontrivial = x.csrc.n >= 2
    env.sample(mode=mode, lanes=x.lanes, byte_size=x.bs, signals=opt, beats=x.csrc.n, frames=[(len(r.data), r.start, r.end, r.state) for r in x.recs[:4]])


def judge_tx(env, x):
    for r in x.recs:
        if not r.has_tx:
            continue
        env.count["tx_complete_checked"] += 1
        if len(r.fires) != 1:
            env.v(("C29",), f"tx_complete of a frame that was {r.state} fired {len(r.fires)} times", length=len(r.data))
            continue
        t, f = r.fires[0]
        if list(f.tdata) != r.data:
            env.v(("C29",), "tx_complete carries a frame with different data", got=list(f.tdata), sent=r.data)
        if r.state == "sent":
            if (f.sim_time_start, f.sim_time_end, t) != (r.start, r.end, r.end):
                env.v(("C29",), f"frame times {f.sim_time_start}..{f.sim_time_end}, completion at {t}; presented {r.start}..{r.end}")
        elif r.state == "cleared" or (r.state == "lost" and r.pos < len(r.beats) - 1):
            if f.sim_time_end is not None:
                env.v(("C29", "C24") if r.state == "lost" else ("C29",), f"frame that was {r.state} has the end time {f.sim_time_end}")

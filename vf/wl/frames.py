"""AXI stream frame objects (C30)."""
from cocotb.triggers import Event
from cocotbext.axi import AxiStreamFrame

P = ("C30",)
SIDE = ("tid", "tdest", "tuser")
DEF = {"tkeep": 1, "tid": 0, "tdest": 0, "tuser": 0}


def show(f):
    return {k: getattr(f, k) for k in ("tdata", "tkeep") + SIDE}


def rand_data(rng):
    n = rng.choice([0, 1, 1, 2, 3, 4, 8, rng.randrange(0, 40)]) if rng.random() < 0.96 else rng.choice([255, 256, 257, rng.randrange(40, 1500)])
    if rng.random() < 0.6:
        d = rng.randbytes(n)
        return rng.choice([bytes, bytearray, list])(d)
    return [rng.getrandbits(rng.choice([1, 10, 32])) for _ in range(n)]


def rand_side(rng, n, w, scalar=True):
    x = rng.random()
    if x < 0.2:
        return None
    if x < 0.3:
        return []
    if x < 0.5 and scalar:
        v = rng.getrandbits(w)
        return bool(v & 1) if rng.random() < 0.2 else v
    k = rng.choice([n, n, max(1, n - 1), 1, n + 1, n + rng.randrange(0, 4), rng.randrange(1, n + 2)])
    k = max(k, 1)
    return [rng.getrandbits(w)] * k if rng.random() < 0.3 else [rng.getrandbits(w) for _ in range(k)]


def norm(v, n, d):
    if v is None or (isinstance(v, list) and not v):
        return [d] * n
    if isinstance(v, list):
        return (v + [v[-1]] * n)[:n]
    return [v] * n


def cp(v):
    return list(v) if isinstance(v, list) else v


def make(rng):
    d = rand_data(rng)
    n = len(d)
    s = {"tkeep": rand_side(rng, n, 1, False)}
    for k in SIDE:
        s[k] = rand_side(rng, n, rng.choice([1, 8, 64]))
    f = AxiStreamFrame(d, **{k: cp(v) for k, v in s.items()}) if rng.random() < 0.8 else \
        AxiStreamFrame(d, cp(s["tkeep"]), cp(s["tid"]), cp(s["tdest"]), cp(s["tuser"]))
    return d, s, f


def content(env, d, f):
    if list(f.tdata) != list(d) or len(f) != len(d) or list(iter(f)) != list(d):
        env.v(P, "the frame does not hold the given data", given=list(d), frame=show(f))
    if isinstance(d, (bytes, bytearray)) and bytes(f) != bytes(d):
        env.v(P, "bytes(frame) differs from the given data", given=list(d), got=bytes(f))


def check_copy(env, rng, d, s, f):
    tx = rng.choice([None, Event(), print])
    if tx is not None:
        f.tx_complete = tx
    f.sim_time_start, f.sim_time_end = rng.getrandbits(30), rng.getrandbits(30)
    before = {k: cp(v) for k, v in show(f).items()}
    c = AxiStreamFrame(f)
    if not (c == f and f == c):
        env.v(P, "a copy is not equal to its frame", frame=show(f), copy=show(c))
    for k in ("tdata", "tkeep") + SIDE:
        a, b = getattr(f, k), getattr(c, k)
        same = list(a) == list(b) if k == "tdata" else a == b and type(a) is type(b)
        if not same:
            env.v(P, f"{k} of a copy differs", frame=show(f), copy=show(c))
    if (c.tx_complete, c.sim_time_start, c.sim_time_end) != (f.tx_complete, f.sim_time_start, f.sim_time_end):
        env.v(P, "tx_complete or times of a copy differ")
    # independence, both ways
    for x, y in ((c, f), (f, c)):
        keep = {k: cp(v) if k != "tdata" else list(v) for k, v in show(y).items()}
        if isinstance(x.tdata, (bytearray, list)):
            x.tdata.append(1)
            if len(x.tdata) > 1:
                x.tdata[0] ^= 1
        for k in ("tkeep",) + SIDE:
            v = getattr(x, k)
            if isinstance(v, list):
                v.append(1)
                v[0] ^= 1
        now = {k: cp(v) if k != "tdata" else list(v) for k, v in show(y).items()}
        if now != keep:
            env.v(P, "a copy shares data with its frame", before=keep, after=now)
        if not isinstance(x.tdata, (bytearray, list)):
            env.v(P, f"tdata of a frame is {type(x.tdata).__name__}")
    # same source, independent of the caller's buffer
    if isinstance(d, (bytearray, list)) and d:
        g = AxiStreamFrame(d)
        v = d[0]
        d[0] ^= 1
        if g.tdata[0] != v:
            env.v(P, "a frame shares the caller's data buffer")
        d[0] = v


def check_normalize(env, rng, d, s, f):
    n = len(d)
    for again in range(2):
        f.normalize()
        for k in ("tkeep",) + SIDE:
            e = norm(s[k], n, DEF[k])
            if getattr(f, k) != e:
                env.v(P, f"normalize(): {k} is wrong" + (" when called twice" if again else ""), given=s[k], got=getattr(f, k), expected=e, length=n)
        content(env, d, f)


def check_compact(env, rng):
    d = rand_data(rng)
    n = len(d)
    d = list(d)
    keep = [rng.getrandbits(1) for _ in range(n)]
    x = rng.random()
    if x < 0.15:
        keep = [1] * n
    elif x < 0.25:
        keep = [0] * n
    elif x < 0.35:
        keep = []
    s = {}
    for k in SIDE:
        y = rng.random()
        w = rng.choice([1, 8, 32])
        if y < 0.15:
            s[k] = []
        elif y < 0.5:
            s[k] = [rng.getrandbits(w)] * n
        elif y < 0.6 and keep:
            # equal on the kept bytes only
            v = rng.getrandbits(w)
            s[k] = [v if q else v ^ 1 for q in keep]
        elif y < 0.7 and n:
            s[k] = [rng.getrandbits(w) for _ in range(rng.randrange(1, n + 1))]
        else:
            s[k] = [rng.getrandbits(w) for _ in range(n)]
    byte = all(v < 256 for v in d) and rng.random() < 0.7
    f = AxiStreamFrame(bytearray(d) if byte else list(d), list(keep), *[list(s[k]) for k in SIDE])
    f.compact()
    on = [i for i in range(n) if not keep or keep[i]]
    if list(f.tdata) != [d[i] for i in on]:
        env.v(P, "compact(): wrong data", data=d, tkeep=keep, got=list(f.tdata))
    if f.tkeep is not None:
        env.v(P, "compact(): tkeep is not removed", got=f.tkeep)
    for k in SIDE:
        e = [v for i, v in enumerate(s[k]) if not keep or keep[i]]
        g = getattr(f, k)
        ok = g is None if not e else (g == e[0] and not isinstance(g, list)) if len(set(e)) == 1 else g == e
        if not ok:
            env.v(P, f"compact(): {k} is wrong", given=s[k], tkeep=keep, got=g, kept=e)
    env.seen("compact_cases", (n, len(on), [len(set(s[k])) for k in SIDE]))


def side_equal(k, a, b):
    if a is None or b is None:
        return True
    if isinstance(a, list) != isinstance(b, list):
        lst, v = (a, b) if isinstance(a, list) else (b, a)
        return all(x == v for x in lst)
    return a == b


def check_eq(env, rng):
    n = rng.randrange(1, 8) if rng.random() < 0.96 else rng.choice([64, 256, rng.randrange(8, 400)])
    byte = rng.random() < 0.7
    d1 = [rng.getrandbits(8 if byte else rng.choice([8, 10, 32])) for _ in range(n)]
    d2 = list(d1)
    if rng.random() < 0.25:
        if rng.random() < 0.5:
            d2[rng.randrange(n)] ^= 1 << rng.randrange(8)
        else:
            d2 = d2[:-1] if rng.random() < 0.5 else d2 + [0]
    mk = (lambda d: bytes(d)) if byte else list

    def side(k):
        if rng.random() < 0.25:
            return None, None
        v = [rng.getrandbits(2)] * n if rng.random() < 0.5 else [rng.getrandbits(2) for _ in range(n)]
        if k == "tkeep":
            v = [q & 1 for q in v]
        w = list(v)
        if rng.random() < 0.25:
            w[rng.randrange(n)] ^= 1
        out = []
        for z in (v, w):
            y = rng.random()
            if y < 0.12:
                z = None
            elif y < 0.5 and len(set(z)) == 1 and k != "tkeep":
                z = bool(z[0]) if z[0] < 2 and rng.random() < 0.4 else z[0]
            out.append(z)
        return out
    sd = {k: side(k) for k in ("tkeep",) + SIDE}
    a = AxiStreamFrame(mk(d1), **{k: cp(sd[k][0]) for k in sd})
    b = AxiStreamFrame(mk(d2), **{k: cp(sd[k][1]) for k in sd})
    exp = d1 == d2 and all(side_equal(k, *sd[k]) for k in sd)
    got = (a == b, b == a, not (a != b), not (b != a))
    if got != (exp,) * 4:
        env.v(P, f"comparison is {got}, expected {exp}", a=show(a), b=show(b))
    for o in (None, 1, d1, bytes(v & 255 for v in d1), "x"):
        if a == o:
            env.v(P, f"a frame is equal to {o!r}")
    env.count["equal_pairs" if exp else "unequal_pairs"] += 1
    env.seen("eq_cases", (d1 == d2, [(type(x).__name__, type(y).__name__, side_equal(k, x, y)) for k, (x, y) in sd.items()]))


def episode(env):
    rng = env.rng
    for i in range(env.cfg["n"]):
        env.count["cases"] += 1
        d, s, f = make(rng)
        env.sig(list(d), s)
        before = {k: cp(v) for k, v in s.items()}
        content(env, d, f)
        if rng.random() < 0.5:
            check_copy(env, rng, d, s, f)
            f = AxiStreamFrame(d, **{k: cp(v) for k, v in s.items()})
        if rng.random() < 0.3:
            f = AxiStreamFrame(f)
        check_normalize(env, rng, d, before, f)
        env.seen("normalize_cases", (len(d), [(type(v).__name__, len(v) - len(d) if isinstance(v, list) else 0) for v in s.values()]))
        check_compact(env, rng)
        check_eq(env, rng)
        if i < 2:
            env.sample(data=list(d)[:8], sidebands=before, normalized=show(f))
    env.nontrivial = True

"""Memories as flat byte arrays, and word accessors (C35, C36)."""
import mmap

from cocotbext.axi import AddressSpace, MemoryRegion, PeripheralRegion, SparseMemoryRegion
from cocotbext.axi.address_space import MemoryInterface
from cocotbext.axi.memory import Memory
from cocotbext.axi.sparse_memory import SparseMemory

from .pure import attempt, pick_offset, run


class Flat:
    """The reference: bytes by address."""

    def __init__(self):
        self.m = {}

    def read(self, a, n):
        g = self.m.get
        return bytes(g(q, 0) for q in range(a, a + n))

    def write(self, a, d):
        self.m.update(zip(range(a, a + len(d)), d))


WORDS = {"byte": 1, "word": None, "dword": 4, "qword": 8, "words": None, "dwords": 4, "qwords": 8}


def word_call(rng, o, write, avail, a, flat, kw=None):
    """One word accessor call: (description, callable, expected result or bytes written, ok)."""
    name = rng.choice(list(WORDS))
    ws = WORDS[name]
    args, kws = [], dict(kw or {})
    many = name.endswith("s")
    order = "little"
    if name == "byte":
        pass
    elif rng.random() < 0.6:
        order = rng.choice(["little", "big"])
        kws["byteorder"] = order
    if ws is None:
        ws = 2
        if rng.random() < 0.6:
            ws = kws["ws"] = rng.choice([1, 2, 3, 4, 5, 8, 16, rng.randrange(1, 20)])
    cnt = rng.choice([0, 1, 2, 3, 7, rng.randrange(0, 30)]) if many else 1
    if many and rng.random() < 0.05:
        cnt = rng.choice([256, 257, rng.randrange(30, 700)])
    if ws * cnt > avail:
        cnt = avail // ws
        if not many and not cnt:
            return None
    n = ws * cnt
    if name != "byte" and rng.random() < 0.3 and "byteorder" in kws and ("ws" in kws or name not in ("word", "words")):
        args = [kws.pop("byteorder")] + ([kws.pop("ws")] if "ws" in kws else [])
    desc = (("write_" if write else "read_") + name, a, cnt, ws, order)
    if not write:
        d = flat.read(a, n)
        exp = [int.from_bytes(d[i:i + ws], order) for i in range(0, n, ws)]
        if not many:
            exp = exp[0]
        f = getattr(o, "read_" + name)
        pre = [a, cnt] if many else [a]
        return desc, (lambda: f(*pre, *args, **kws)), exp, True, n
    vals = [rng.choice([0, (1 << 8 * ws) - 1, rng.getrandbits(8 * ws)]) for _ in range(cnt)]
    ok = True
    if cnt and rng.random() < 0.15:
        vals[rng.randrange(cnt)] = rng.choice([1 << 8 * ws, -1, (1 << 8 * ws) + rng.getrandbits(8), -(1 << 8 * ws)])
        ok = False
    f = getattr(o, "write_" + name)
    v = vals if many else vals[0]
    if many and rng.random() < 0.3:
        v = tuple(vals)
    data = b"".join(q.to_bytes(ws, order) for q in vals) if ok else None
    return desc, (lambda: f(a, v, *args, **kws)), data, ok, n


class Probe(MemoryInterface):
    """Records what the word accessors ask for."""

    def __init__(self, size):
        super().__init__(size)
        self.flat = Flat()
        self.log = []
        self.form = bytes

    async def _read(self, address, length, **kw):
        self.log.append(("r", address, length, kw))
        return self.form(self.flat.read(address, length))

    async def _write(self, address, data, **kw):
        self.log.append(("w", address, len(data), kw))
        self.flat.write(address, bytes(data))


class Resp:
    def __init__(self, d):
        self.d = d

    def __bytes__(self):
        return bytes(self.d)


class Dev:
    def __init__(self):
        self.flat, self.log = Flat(), []

    def read(self, address, length, **kw):
        self.log.append(("r", address, length, kw))
        return self.flat.read(address, length)

    def write(self, address, data, **kw):
        self.log.append(("w", address, len(data), kw))
        self.flat.write(address, bytes(data))


def interfaces(rng):
    """A memory interface with the range to use, a log of its accesses and whether keywords are passed on."""
    size = rng.choice([64, 100, 4096, 10000])
    k = rng.choice(["probe", "probe", "window", "space", "pool", "peripheral", "region", "sparse", "memory"])
    p = Probe(size)
    p.form = rng.choice([bytes, bytearray, Resp])
    if k == "probe":
        return k, p, 0, size, p.log
    if k == "window":
        big = Probe(size + 500)
        return k, big.create_window(123, size), 0, size, big.log
    if k in ("space", "pool"):
        s = AddressSpace(2**20)
        if k == "pool":
            s = s.create_pool(4096, 2**16)
        cut = rng.randrange(1, size)
        a, b = Probe(cut), Probe(size - cut)
        a.log = b.log
        s.register_region(a, 0)
        s.register_region(b, cut)
        return k, (s if rng.random() < 0.5 else s.create_window(0, size)), 0, size, b.log
    if k == "peripheral":
        d = Dev()
        return k, PeripheralRegion(d, size), 0, size, d.log
    if k == "region":
        return k, MemoryRegion(size), 0, size, None
    if k == "sparse":
        return k, SparseMemoryRegion(2**64), rng.choice([0, 2**64 - size, 4096 - size % 4096]), size, None
    return k, Memory(size if rng.random() < 0.5 else 2**64), 0, size, None


def words(env, rng):
    P = ("C36",)
    kind, o, base, size, log = interfaces(rng)
    flat = Flat()
    get = (lambda a, n: bytes(attempt(lambda: o.read(a, n))[1]))
    for _ in range(30):
        env.count["cases"] += 1
        a = base + pick_offset(rng, size, rng.choice([1, 2, 8, 32]))
        avail = base + size - a
        kw = {}
        if log is not None and rng.random() < 0.3:
            kw = {rng.choice(["prot", "awid", "size"]): rng.randrange(8)}
        write = rng.random() < 0.5
        c = word_call(rng, o, write, avail, a, flat, kw)
        if c is None:
            continue
        desc, call, exp, ok, n = c
        if log is not None:
            del log[:]
        st, r = attempt(call)
        what = {"object": kind, "call": desc, "kw": kw}
        env.count["word_calls"] += 1
        env.seen("word_calls", (kind, desc[0], desc[3], desc[4]))
        if not ok:
            env.count["unfitting_values"] += 1
            if st == "ok":
                env.v(P, "a value that does not fit the word was accepted", **what)
            if log:
                env.v(P, "a write with a value that does not fit touched the memory", accesses=log[:4], **what)
        elif st != "ok":
            env.v(P, f"a word access raised {r!r}", **what)
        elif write:
            flat.write(a, exp)
        elif r != exp or isinstance(r, (list, tuple)) != isinstance(exp, list):
            env.v(P, "a word read returned another value", got=r, expected=exp, **what)
        if log is not None and ok:
            cells = [q for _, p, m, _ in log for q in range(p, p + m)]
            off = {"window": 123}.get(kind, 0)
            if kind in ("space", "pool"):
                if len(cells) != n:
                    env.v(P, "a word access touched other bytes than the plain access", accesses=log[:4], expected=n, **what)
            elif cells != list(range(a + off, a + off + n)):
                env.v(P, "a word access touched other bytes than the plain access", accesses=log[:4], **what)
            if any(k != ("w" if write else "r") or g != kw for k, *_, g in log):
                env.v(P, "a word access does not pass its arguments on", accesses=log[:4], **what)
        lo, hi = max(base, a - 9), min(base + size, a + n + 9)
        if get(lo, hi - lo) != flat.read(lo, hi - lo):
            env.v(P, "memory differs from what the plain accesses would have left", got=get(lo, hi - lo), expected=flat.read(lo, hi - lo), at=lo, **what)
        env.sig(kind, desc)
        env.sample(object=kind, call=desc)


def flatmem(env, rng):
    P = ("C35",)
    kind = rng.choice(["sparse", "sparse", "sparse_region", "region", "region_mem", "memory", "memory_mem"])
    sparse = kind in ("sparse", "sparse_region", "memory")
    size = rng.choice([1, 17, 100, 4095, 4096, 4097, 8192, 12345, 65536] + ([2**32, 2**48 + 5, 2**64, 2**64, 2**70] if sparse else []))
    back = None
    if kind == "sparse":
        o = SparseMemory(size)
    elif kind == "sparse_region":
        o = SparseMemoryRegion(size) if size != 2**64 or rng.random() < 0.5 else SparseMemoryRegion()
    elif kind == "region":
        o = MemoryRegion(size)
    elif kind == "memory":
        o = Memory(size) if size != 2**64 or rng.random() < 0.5 else Memory()
    else:
        back = rng.choice([lambda: bytearray(size), lambda: mmap.mmap(-1, size), lambda: SparseMemory(size)])()
        if kind == "region_mem" and isinstance(back, SparseMemory):
            kind = "sparse_region_mem"
            o = SparseMemoryRegion(size, mem=back)
            sparse = True
        else:
            o = MemoryRegion(size, mem=back) if kind == "region_mem" else Memory(mem=back)
            sparse = isinstance(back, SparseMemory)
    others = [o]
    if back is not None:
        # another user of the same backing store
        others.append(back)
        others.append((SparseMemoryRegion if isinstance(back, SparseMemory) else MemoryRegion)(size, mem=back))
        others.append(Memory(mem=back))
    elif kind in ("memory", "sparse_region", "region"):
        others.append(o.mem)
    if len(others) > 1 and getattr(others[0], "size", None) != size:
        env.v(P, "the object reports another size than its memory", got=getattr(others[0], "size", None), size=size)
    flat = Flat()
    spots = [pick_offset(rng, size, 1) for _ in range(3)]
    held = []
    for step in range(30):
        env.count["cases"] += 1
        t = rng.choice(others)
        n = rng.choice([1, 1, 2, 5, 8, 16, 64, rng.randrange(0, 200), rng.choice([4096, 4097, 8192, 9000]) if rng.random() < 0.3 else 3])
        n = min(n, size)
        a = pick_offset(rng, size, n) if rng.random() < 0.5 else max(0, min(size - n, rng.choice(spots) + rng.randrange(-30, 30)))
        if a >= size:
            continue
        issparse = isinstance(t, (SparseMemory, SparseMemoryRegion))
        hasrw = hasattr(t, "read_words") or isinstance(t, SparseMemory)
        hasix = hasattr(t, "__getitem__")
        how = rng.choice((["rw", "rw"] if hasrw else []) + (["slice", "index"] if hasix else []) + (["words"] if hasattr(t, "read_words") else []))
        write = rng.random() < 0.55
        what = {"object": kind, "through": type(t).__name__, "size": size, "address": a, "length": n, "how": how, "write": write}
        env.count["accesses"] += 1
        env.seen("access_paths", (kind, type(t).__name__, how, write))
        if isinstance(t, SparseMemory) and rng.random() < 0.02:
            t.clear()
            flat.m.clear()
            env.count["cleared"] += 1
        if rng.random() < 0.12 and issparse:
            bad(env, rng, P, t, size, what)
            continue
        if how == "words":
            c = word_call(rng, t, write, min(n, size - a), a, flat)
            if c is None:
                continue
            desc, call, exp, ok, n = c
            st, r = attempt(call)
            if not ok:
                if st == "ok":
                    env.v(("C36",), "a value that does not fit the word was accepted", call=desc, **what)
            elif st != "ok":
                env.v(P, f"an access raised {r!r}", call=desc, **what)
            elif write:
                flat.write(a, exp)
            elif r != exp:
                env.v(P, "a word read differs", got=r, expected=exp, call=desc, **what)
        elif write:
            d = rng.randbytes(n if how != "index" else 1)
            src = d if rng.random() < 0.6 else bytearray(d)
            if how == "rw":
                st, r = attempt(lambda: t.write(a, src))
            elif how == "slice":
                if not n and not isinstance(t, bytearray):
                    continue
                st, r = attempt(lambda: t.__setitem__(slice(a, a + n), src))
            else:
                st, r = attempt(lambda: t.__setitem__(a, d[0]))
            if st != "ok":
                env.v(P, f"an access raised {r!r}", **what)
                return
            flat.write(a, d)
            if isinstance(src, bytearray) and src:
                src[0] ^= 0xff
        else:
            if how == "rw":
                st, r = attempt(lambda: t.read(a, n))
            elif how == "slice":
                sl = slice(a, a + n) if rng.random() < 0.7 or not n else slice(a, a + n, 1)
                if a == 0 and n == size and n < 10**6 and rng.random() < 0.5:
                    sl = slice(None, None)
                st, r = attempt(lambda: t[sl])
            else:
                n = 1
                st, r = attempt(lambda: bytes([t[a]]))
            if st != "ok":
                env.v(P, f"an access raised {r!r}", **what)
                return
            e = flat.read(a, n)
            if bytes(r) != e:
                i = next((i for i, (p, q) in enumerate(zip(bytes(r), e)) if p != q), min(len(bytes(r)), len(e)))
                env.v(P, f"a read differs from the last bytes written (first at offset {i})", got=bytes(r)[i:i + 16], expected=e[i:i + 16], returned=len(bytes(r)), **what)
                return
            if isinstance(r, (bytes, bytearray)) and len(held) < 5:
                held.append((r, e))
        env.sig(kind, a, n, how, write)
    for r, e in held:
        if bytes(r) != e:
            env.v(P, "data returned by a read changed later", object=kind)
    for t in others:
        if hasattr(t, "__len__") and size < 2**63 and len(t) != size:
            env.v(P, "len() differs from the size", got=len(t), size=size, object=kind, through=type(t).__name__)
        if isinstance(t, MemoryRegion) and size < 10**5:
            env.count["whole_copies"] += 1
            if bytes(t) != flat.read(0, size):
                env.v(P, "bytes() of the region differs from the bytes written", object=kind, size=size)
    # everything ever touched
    for a in list(flat.m)[:400]:
        t = rng.choice(others)
        g = t[a] if hasattr(t, "__getitem__") else t.read(a, 1)[0]
        if g != flat.m[a]:
            env.v(P, "a byte differs from the last value written", address=a, got=g, expected=flat.m[a], object=kind, through=type(t).__name__)
            return
    env.sample(object=kind, size=size, bytes_touched=len(flat.m))


def bad(env, rng, P, t, size, what):
    """Accesses a sparse memory must refuse."""
    env.count["refused_accesses"] += 1
    a = rng.choice([rng.randrange(0, size), max(0, (rng.randrange(0, size) & ~0xfff) - rng.randrange(1, 15))])
    near = [q for q in (0, size - 1, max(0, size - 9), max(0, size - 4097), max(0, size - 9000), rng.randrange(0, size), a) if q < size]
    before = [(a, t[a]) for a in near]
    k = rng.choice(["below", "above", "across", "neglen", "slicesize", "step", "wabove", "wacross", "wbelow", "wstep", "index", "value"])
    small = rng.randrange(1, 20) if rng.random() < 0.6 else rng.choice([4096, 4097, rng.randrange(20, 14000)])
    over = 1 if rng.random() < 0.5 else rng.choice([rng.randrange(1, 20), 4096, rng.randrange(1, 14000)])
    m = min(size - a, rng.randrange(1, 20))
    calls = {
        "below": lambda: t.read(-small, small), "above": lambda: t.read(size + rng.choice([0, small]), small),
        "across": lambda: t.read(max(0, size - small), min(small, size) + over), "neglen": lambda: t.read(a, -small),
        "wbelow": lambda: t.write(-small, bytes(small)), "wabove": lambda: t.write(size + rng.choice([0, small]), b"\xff" * small),
        "wacross": lambda: t.write(max(0, size - small), b"\xff" * (min(small, size) + over)),
        "slicesize": lambda: t.__setitem__(slice(a, a + m), b"\xff" * (m + rng.choice([-1, 1, 5]))),
        "step": lambda: t[a:a + m:2], "wstep": lambda: t.__setitem__(slice(a, a + m, 2), b"\xff" * -(-m // 2)),
        "index": lambda: t[size + small],
        "value": lambda: t.__setitem__(slice(a, a + m), [t[a] ^ 1] * (m - 1) + [256]),
    }
    st, r = attempt(calls[k])
    if st == "ok":
        env.v(P, f"an access that must be refused succeeded ({k})", result=repr(r)[:60], at=a, n=m, **what)
    if [(q, t[q]) for q, _ in before] != before:
        env.v(P, f"a refused access changed the memory ({k})", **what)


def episode(env):
    for _ in range(env.cfg["n"]):
        if env.cfg.get("part") == "words":
            words(env, env.rng)
        else:
            flatmem(env, env.rng)
    env.nontrivial = True

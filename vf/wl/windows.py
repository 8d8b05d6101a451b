"""Windows translate, confine and report addresses (C33)."""
from cocotbext.axi import AddressSpace, MemoryRegion, Pool, Window, WindowPool
from cocotbext.axi.address_space import MemoryInterface, Region

from .pure import attempt, pick_offset

P = ("C33",)


class Root(MemoryInterface):
    """Records every access that gets this far."""

    def __init__(self, size, x, base=0):
        super().__init__(size, base=base)
        self.x = x

    async def _read(self, address, length, **kw):
        self.x.log.append(("r", self, address, length, kw))
        return bytes(self.x.byte(self, a) for a in range(address, address + length))

    async def _write(self, address, data, **kw):
        self.x.log.append(("w", self, address, len(data), kw))
        for i, v in enumerate(data):
            self.x.mem[(self, address + i)] = v


class Reg(Root, Region):
    pass


class MyWindow(Window):
    pass


class MyPool(WindowPool):
    pass


class X:
    def byte(self, o, a):
        return self.mem.get((o, a), (a * 13 + 5) & 0xff)


class V:
    """A window (or any view) in the reference model: where its address 0 lies in the recorded object."""

    def __init__(self, obj, size, root, off, absolute):
        self.obj, self.size, self.root, self.off, self.abs = obj, size, root, off, absolute


def early(x, o):
    """Address queries before the region has its place."""
    if x.rng.random() < 0.3:
        a = x.rng.randrange(0, o.size)
        if o.get_absolute_address(a) != a:
            env_v(x, "an unregistered region reports another address than its own", got=o.get_absolute_address(a), expected=a)
        o.base, o.parent, len(o) if o.size < 2**63 else None


def hier(x):
    """A root interface, or regions within address spaces; returns views to start from."""
    rng = x.rng
    if rng.random() < 0.4:
        size = rng.choice([2**64, 2**32, 4096, 1000, rng.randrange(1, 5000)])
        base = rng.choice([0, 0, rng.getrandbits(20)])
        o = Root(size, x, base)
        return [V(o, size, o, 0, base)]
    out = []
    size = rng.choice([2**64, 2**32, 2**20])
    top = AddressSpace(size)
    x.spaces = [(top, size, 0)]
    sp, ssize, sabs = top, size, 0
    for d in range(rng.randrange(0, 3)):
        n = rng.choice([2**16, 2**18, 30000])
        if n >= ssize:
            break
        b = rng.choice([0, ssize - n, rng.randrange(0, ssize - n + 1), rng.randrange(0, ssize - n + 1)])
        if rng.random() < 0.4:
            # a pool sits at its base only
            c = sp.create_pool(b, n)
            nabs = None if sabs is None else sabs + b
        else:
            c = AddressSpace(n)
            tr = rng.random()
            early(x, c)
            if tr < 0.75:
                sp.register_region(c, b)
                nabs = None if sabs is None else sabs + b
            else:
                k = rng.randrange(1, n)
                sp.register_region(c, b, n - k, k)
                nabs = None
        sp, ssize, sabs = c, n, nabs
        x.spaces.append((sp, ssize, sabs))
    a = rng.randrange(0, 50)
    for _ in range(rng.randrange(1, 5)):
        n = rng.randrange(1, 3000)
        if a + n > ssize:
            break
        r = Reg(n, x)
        early(x, r)
        y = rng.random()
        if y < 0.7 or n < 3:
            sp.register_region(r, a, n) if rng.random() < 0.5 else sp.register_region(r, a)
            out.append(V(r, n, r, 0, None if sabs is None else sabs + a))
        else:
            k = rng.randrange(1, n)
            sp.register_region(r, a, n - k, k)
            v = V(r, n, r, 0, None)
            v.translated = True
            out.append(v)
        if isinstance(sp, Pool) and rng.random() < 0.0:
            pass
        if rng.random() < 0.2:
            # refused registrations change nothing
            st, e = attempt(lambda: sp.register_region(r, a) if rng.random() < 0.5 else sp.register_region(r, a, n, 1))
            if not isinstance(e, ValueError):
                env_v(x, "an overlapping registration was not refused", result=repr(e))
        a += n + rng.choice([0, 0, rng.randrange(1, 500)])
    x.checks += [(s, n, b) for s, n, b in x.spaces]
    if isinstance(sp, Pool) and not out:
        pass
    return out


def pools(x):
    """Regions allocated from a pool know where they are."""
    rng = x.rng
    top = AddressSpace(2**32)
    b = rng.choice([0, 2**32 - 2**16, rng.randrange(0, 2**32 - 2**16)])
    pool = top.create_pool(b, rng.choice([2**16, 5000, 4096]))
    sub = None
    if rng.random() < 0.5:
        mid = AddressSpace(2**33)
        mid.register_region(top2 := AddressSpace(2**20), 2**32)
        pool = top2.create_pool(4096, 2**16)
        top, b = mid, 2**32 + 4096
    for _ in range(rng.randrange(1, 5)):
        n = rng.randrange(1, 600)
        r = pool.alloc_region(n, lambda s: Reg(s, x))
        at = next(q for q, m, _, o in pool.regions if o is r)
        if r.get_absolute_address(0) != b + at or r.get_absolute_address(n - 1) != b + at + n - 1:
            env_v(x, "a region allocated from a pool reports a wrong absolute address", got=r.get_absolute_address(0), expected=b + at)
        x.log = []
        st, d = attempt(lambda: top.read(r.get_absolute_address(n - 1), 1))
        if st != "ok" or x.log != [("r", r, n - 1, 1, {})]:
            env_v(x, "the root does not reach the region's byte at its absolute address", result=repr(d))
        w = r.create_window(n // 2)
        if w.get_absolute_address(0) != b + at + n // 2:
            env_v(x, "a window of an allocated region reports a wrong absolute address", got=w.get_absolute_address(0))


def env_v(x, msg, **kw):
    x.env.v(P, msg, **kw)


def check_abs(x, v):
    rng = x.rng
    for a in (0, v.size - 1, rng.randrange(0, v.size)):
        g = v.obj.get_absolute_address(a)
        e = None if v.abs is None else v.abs + a
        if g != e:
            env_v(x, "wrong absolute address", address=a, got=g, expected=e, type=type(v.obj).__name__)
    if v.abs is not None:
        for a in (-1, v.size, v.size + rng.randrange(1, 50)):
            st, e = attempt(lambda: v.obj.get_absolute_address(a))
            if st == "ok":
                env_v(x, "get_absolute_address() of an address outside", address=a, size=v.size, got=e)


def access(x, v):
    rng, env = x.rng, x.env
    n = rng.choice([0, 1, 1, 2, 4, 16, rng.randrange(0, 70), v.size if v.size < 5000 else 9])
    y = rng.random()
    if y < 0.7 and n <= v.size:
        a = pick_offset(rng, v.size, n)
        a = min(a, v.size - 1)
    else:
        a = rng.choice([-1, -n, v.size, v.size - n + 1, v.size - 1, v.size + 3, -v.size, rng.randrange(-5, v.size + 5)])
    ok = 0 <= a < v.size and a + n <= v.size
    write = rng.random() < 0.5
    data = rng.randbytes(n)
    kw = {"prot": 2} if rng.random() < 0.2 else {}
    x.log = []
    words = rng.random() < 0.2 and n
    neg = not write and rng.random() < 0.05
    if neg:
        n = -rng.randrange(1, 9)
        ok = words = False
    if words:
        call = (lambda: v.obj.write_words(a, list(data), ws=1, **kw)) if write else (lambda: v.obj.read_words(a, n, ws=1, **kw))
    else:
        call = (lambda: v.obj.write(a, data, **kw)) if write else (lambda: v.obj.read(a, n, **kw))
    st, r = attempt(call)
    what = {"kind": "write" if write else "read", "address": a, "length": n, "window_size": v.size, "depth": v.depth if hasattr(v, "depth") else 0,
            "log": [(k, p, q) for k, _, p, q, _ in x.log]}
    env.count["accesses"] += 1
    if not ok:
        env.count["rejected_accesses"] += 1
        if st == "ok":
            env_v(x, "an access outside of the window succeeded", **what)
        elif not isinstance(r, ValueError):
            env_v(x, f"an access outside of the window raised {type(r).__name__} instead of ValueError", **what)
        if x.log:
            env_v(x, "a rejected access touched the parent", **what)
        return
    if st != "ok":
        env_v(x, f"an access inside of the window raised {r!r}", **what)
        return
    touched = [q for k, o, p, m, _ in x.log for q in range(p, p + m)]
    if any(o is not v.root or k != ("w" if write else "r") for k, o, *_ in x.log) or touched != list(range(v.off + a, v.off + a + n)):
        env_v(x, "an access reached other addresses of the parent", expected=v.off + a, **what)
    if any(g != kw for *_, g in x.log):
        env_v(x, "keyword arguments are not passed through", **what)
    if write:
        if any(x.byte(v.root, v.off + a + i) != d for i, d in enumerate(data)):
            env_v(x, "written data differs", **what)
    elif bytes(r) != bytes(x.byte(v.root, q) for q in range(v.off + a, v.off + a + n)):
        env_v(x, "read data differs", **what)


def window(x, v):
    """Create a window of v; returns the view or None."""
    rng, env = x.rng, x.env
    if rng.random() < 0.75:
        off = pick_offset(rng, v.size, 1)
        n = rng.choice([None, v.size - off, 1, rng.randrange(1, min(v.size - off, 3000) + 1)])
    else:
        off = rng.choice([-1, -5, v.size, v.size + 1, v.size - 1, 0, rng.randrange(0, v.size)])
        n = rng.choice([None, 2, v.size, v.size + 1, v.size - off + 1, rng.randrange(1, 50)])
    size = v.size - off if n is None else n
    if n is not None and n <= 0:
        return None
    ok = 0 <= off < v.size and 0 <= size and off + size <= v.size
    y = rng.random()
    wt = None
    if y < 0.7:
        if rng.random() < 0.3:
            wt = MyWindow
        f = (lambda: v.obj.create_window(off, n, wt) if wt else v.obj.create_window(off, n) if n is not None else v.obj.create_window(off))
        pool = False
    else:
        f = lambda: v.obj.create_window_pool(off, n)
        pool = True
    x.log = []
    st, w = attempt(f)
    what = {"offset": off, "size": n, "parent_size": v.size, "pool": pool}
    if x.log:
        env_v(x, "creating a window accessed memory", **what)
    env.count["windows_created" if ok else "windows_rejected"] += 1
    if not ok:
        if st == "ok":
            env_v(x, "a window outside of its parent was created", **what)
        elif not isinstance(w, ValueError):
            env_v(x, f"creating a window outside raised {type(w).__name__} instead of ValueError", **what)
        return None
    if st != "ok":
        env_v(x, f"creating a window inside of its parent raised {w!r}", **what)
        return None
    if w.size != size or w.offset != off or w.parent is not v.obj or (wt and type(w) is not wt):
        env_v(x, "a window reports other properties than requested", got=(w.size, w.offset, type(w).__name__), **what)
    nv = V(w, size, v.root, v.off + off, None if v.abs is None else v.abs + off)
    nv.depth = getattr(v, "depth", 0) + 1
    nv.pool = pool
    if pool and rng.random() < 0.8:
        n2 = rng.randrange(1, size + 1) if size < 4096 else rng.randrange(1, 4096)
        st, w2 = attempt(lambda: w.alloc_window(n2))
        if st == "ok":
            x.env.count["pool_windows"] += 1
            if w2.size != n2 or not 0 <= w2.offset <= size - n2:
                env_v(x, "a pool window lies outside of its pool", pool=size, got=(w2.offset, w2.size))
            q = V(w2, n2, v.root, nv.off + w2.offset, None if nv.abs is None else nv.abs + w2.offset)
            q.depth = nv.depth + 1
            return q
    return nv


def episode(env):
    rng = env.rng
    for i in range(env.cfg["n"]):
        env.count["cases"] += 1
        x = X()
        x.env, x.rng, x.log, x.mem, x.checks, x.spaces = env, rng, [], {}, [], []
        views = hier(x)
        roots = len(views)
        for s, n, b in x.checks:
            check_abs(x, V(s, n, None, 0, b))
        if rng.random() < 0.2:
            pools(x)
        for _ in range(rng.randrange(1, 12)):
            if not views:
                break
            w = window(x, rng.choice(views) if rng.random() < 0.6 else views[-1])
            if w is not None:
                views.append(w)
        for v in views:
            check_abs(x, v)
        for _ in range(12):
            if views:
                access(x, rng.choice(views))
        # the root reaches the same byte
        if x.spaces and views:
            v = rng.choice(views)
            if v.abs is not None:
                a = rng.randrange(0, v.size)
                x.log = []
                st, r = attempt(lambda: x.spaces[0][0].read(v.obj.get_absolute_address(a), 1))
                if st != "ok" or [(k, o, p, m) for k, o, p, m, _ in x.log] != [("r", v.root, v.off + a, 1)]:
                    env_v(x, "the root address space reaches another byte at the absolute address", got=[(p, m) for _, _, p, m, _ in x.log], expected=v.off + a)
                env.count["absolute_addresses_reached"] += 1
        env.seen("chains", (roots, [(getattr(v, "depth", 0), v.size % 64) for v in views][:8]))
        env.sig([(v.off, v.size, v.abs) for v in views])
        env.sample(windows=[(v.off, v.size, v.abs) for v in views][:6])
    env.nontrivial = True

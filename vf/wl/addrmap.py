"""Address spaces, pools and nested spaces route every byte (C32)."""
from cocotbext.axi import AddressSpace, MemoryRegion, Pool, SparseMemoryRegion
from cocotbext.axi.address_space import Region

from .pure import Pause, attempt, run_all

P = ("C32",)


def fill(leaf, a):
    """The byte a leaf holds initially."""
    return (a * 167 + leaf * 59 + (a >> 8) * 31 + 7) & 0xff


class Leaf:
    """A region that records what reaches it; with or without the library's base class."""

    def __init__(self, x, ident, size):
        self.x, self.ident, self.size = x, ident, size
        self.mem = {}

    def get(self, a):
        return self.mem.get(a, fill(self.ident, a))

    async def read(self, address, length, **kw):
        self.x.log.append(("r", self.ident, address, length, kw))
        if not 0 <= address or address + length > self.size:
            self.x.oor.append((self.ident, address, length, self.size))
        if self.x.slow and self.x.rng.random() < 0.5:
            await Pause()
        d = bytes(self.get(a) for a in range(address, address + length))
        return self.x.form(d)

    async def write(self, address, data, **kw):
        self.x.log.append(("w", self.ident, address, len(data), kw))
        if not 0 <= address or address + len(data) > self.size:
            self.x.oor.append((self.ident, address, len(data), self.size))
        if self.x.slow and self.x.rng.random() < 0.5:
            await Pause()
        for i, v in enumerate(data):
            self.mem[address + i] = v


class Resp:
    """Like the responses of bus masters."""

    def __init__(self, d):
        self.data = d

    def __bytes__(self):
        return bytes(self.data)


class RegionLeaf(Region):
    def __init__(self, leaf):
        super().__init__(leaf.size)
        self.leaf = leaf

    async def _read(self, address, length, **kw):
        return await self.leaf.read(address, length, **kw)

    async def _write(self, address, data, **kw):
        await self.leaf.write(address, data, **kw)


class Node:
    """Reference model of an address space: (base, size, offset, Node or Leaf)."""

    def __init__(self, obj, size):
        self.obj, self.size, self.maps = obj, size, []

    def find(self, a):
        for b, n, off, c in self.maps:
            if b <= a < b + n:
                q = a if off is None else a - b + off
                return c.find(q) if isinstance(c, Node) else (c, q) if 0 <= q < c.size else None
        return None

    def free(self, base, size):
        return all(base + size <= b or b + n <= base for b, n, _, _ in self.maps)


class X:
    pass


def new_leaf(x, size):
    leaf = Leaf(x, len(x.leaves), size)
    x.leaves.append(leaf)
    return leaf, leaf if x.rng.random() < 0.4 else RegionLeaf(leaf)


def gap_for(rng, node, size):
    """A free place of at most size bytes, often adjacent to something."""
    if rng.random() < 0.7 and node.maps:
        b, n, _, _ = rng.choice(node.maps)
        a = b + n if rng.random() < 0.6 else b - size
        if rng.random() < 0.2:
            a += rng.choice([-1, 1, 16])
    else:
        k = 1 << rng.randrange(3, 64)
        a = rng.choice([0, node.size - size, rng.randrange(0, max(1, node.size - size + 1)), k, k - size, k - size])
    return a if 0 <= a and a + size <= node.size and node.free(a, size) else None


def grow(x, node, depth):
    """Register regions, nested spaces and pools at random."""
    rng = x.rng
    for _ in range(rng.randrange(2, 9) if depth or rng.random() < 0.95 else rng.randrange(20, 60)):
        k = rng.random()
        size = rng.choice([1, 2, 3, 16, 64, 100, 256, 1000, 4096])
        if size > node.size:
            continue
        a = gap_for(rng, node, size)
        if a is None:
            continue
        if k < 0.2 and depth < 3 and size >= 16:
            full = rng.random() < 0.5
            csize = size if full else 2 * size
            child = AddressSpace(csize)
            cn = Node(child, csize)
            if rng.random() < 0.5:
                grow(x, cn, depth + 1)
            off = 0 if full or rng.random() < 0.4 else rng.randrange(0, csize - size + 1)
            node.obj.register_region(child, a, size, off) if off or not full or rng.random() < 0.5 else node.obj.register_region(child, a)
            node.maps.append((a, size, off, cn))
            grow(x, cn, depth + 1)
        elif k < 0.35 and depth < 3 and size >= 16:
            pool = node.obj.create_pool(a, size)
            if not isinstance(pool, Pool) or pool.size != size:
                env_v(x, "create_pool() does not return a pool of the requested size")
            cn = Node(pool, size)
            node.maps.append((a, size, 0, cn))
            if rng.random() < 0.5:
                grow(x, cn, depth + 1)
            else:
                for _ in range(rng.randrange(0, 5)):
                    n = rng.choice([1, 2, 5, 8, size // 4 or 1])

                    def rt(s):
                        leaf, r = new_leaf(x, s)
                        if isinstance(r, Leaf):
                            r = RegionLeaf(leaf)
                        rt.leaf = leaf
                        return r
                    st, r = attempt(lambda: pool.alloc_region(n, rt) if rng.random() < 0.5 else pool.alloc_region(n, region_type=rt))
                    if st != "ok":
                        break
                    base = next(((b, m) for b, m, _, q in pool.regions if q is r), None)
                    if base is None:
                        env_v(x, "alloc_region() did not register its region")
                    if r.size != n or base[1] != n:
                        env_v(x, "alloc_region() returned a region of another size", size=n, got=r.size)
                    cn.maps.append((base[0], n, 0, rt.leaf))
        else:
            y = rng.random()
            if y < 0.5:
                leaf, r = new_leaf(x, size)
                how = rng.random()
                if how < 0.5:
                    node.obj.register_region(r, a)
                elif how < 0.8:
                    node.obj.register_region(r, a, size)
                else:
                    node.obj.register_region(r, base=a, size=size, offset=0)
                node.maps.append((a, size, 0, leaf))
            elif y < 0.65:
                leaf, r = new_leaf(x, a + size + rng.randrange(0, 9))
                node.obj.register_region(r, a, size, None)
                node.maps.append((a, size, None, leaf))
            elif y < 0.85 or not x.shared:
                off = rng.randrange(1, 300)
                leaf, r = new_leaf(x, size + off + rng.randrange(0, 9))
                node.obj.register_region(r, a, size, off)
                node.maps.append((a, size, off, leaf))
                x.shared.append((leaf, r))
            else:
                # the same region once more
                leaf, r = rng.choice(x.shared)
                n = min(size, leaf.size)
                off = rng.randrange(0, leaf.size - n + 1)
                node.obj.register_region(r, a, n, off)
                node.maps.append((a, n, off, leaf))


def env_v(x, msg, **kw):
    x.env.v(P, msg, **kw)


def try_overlap(x, node):
    """A registration that overlaps must be refused and change nothing."""
    rng = x.rng
    if not node.maps:
        return
    b, n, _, _ = rng.choice(node.maps)
    size = rng.choice([1, 2, n, n + 1, 2 * n, rng.randrange(1, 300)])
    base = rng.randrange(max(0, b - size + 1), b + n)
    if rng.random() < 0.3:
        base = max(0, b - size + 1) if rng.random() < 0.5 else b + n - 1
    if base + size > node.size:
        return
    leaf, r = new_leaf(x, size)
    r = RegionLeaf(leaf)
    off = rng.choice([0, 0, None, 5])
    before = (list(node.obj.regions), r.parent, r.base)
    st, e = attempt(lambda: node.obj.register_region(r, base, size, off))
    x.env.count["overlap_attempts"] += 1
    if st == "ok":
        env_v(x, "an overlapping region was accepted", existing=(b, n), new=(base, size))
    elif (list(node.obj.regions), r.parent, r.base) != before:
        env_v(x, "a refused registration left a trace", existing=(b, n), new=(base, size))
    if rng.random() < 0.3:
        st, e = attempt(lambda: node.obj.create_pool(base, size))
        if st == "ok":
            env_v(x, "an overlapping pool was accepted", existing=(b, n), new=(base, size))
        elif list(node.obj.regions) != before[0]:
            env_v(x, "a refused pool left a trace", existing=(b, n), new=(base, size))


def points(node):
    """Interesting addresses: the edges of everything mapped."""
    out = {0, node.size - 1}
    for b, n, off, c in node.maps:
        out |= {b, b + n}
        if isinstance(c, Node) and off is not None:
            out |= {b + p - off for p in points(c) if off <= p <= off + n}
    return out


def expected(node, a, n):
    """Resolved bytes, stopping at the first unmapped one."""
    out = []
    for q in range(a, a + n):
        r = node.find(q) if 0 <= q < node.size else None
        if r is None:
            break
        out.append(r)
    return out


def one(x, node, pts):
    rng = x.rng
    a = rng.choice(pts) + rng.randrange(-6, 7) if rng.random() < 0.85 else rng.randrange(-3, node.size + 3)
    n = rng.choice([1, 1, 2, 3, 4, 8, 13, rng.randrange(1, 60), rng.randrange(1, 400), rng.randrange(1, 5000) if rng.random() < 0.2 else 5, 0])
    return a, n


def check_access(x, node, a, n, write, kw):
    env, rng = x.env, x.rng
    exp = expected(node, a, n)
    ok = len(exp) == n
    if n == 0:
        ok = 0 <= a < node.size and node.find(a) is not None
        if not ok:
            return
    data = rng.randbytes(n)
    before = {}
    if write:
        for leaf, q in exp:
            before[(leaf, q)] = leaf.get(q)
    x.log = []
    src = data if rng.random() < 0.6 else bytearray(data) if rng.random() < 0.8 else list(data)
    st, r = attempt(lambda: node.obj.write(a, src, **kw) if write else node.obj.read(a, n, **kw))
    env.count["accesses"] += 1
    what = {"kind": "write" if write else "read", "address": a, "length": n, "accesses": x.log[:8]}
    if x.oor:
        env_v(x, "a region was accessed outside of its range", region_accesses=x.oor[:3], **what)
    if ok != (st == "ok"):
        env_v(x, f"access to {'mapped' if ok else 'unmapped'} addresses {'raised' if ok else 'succeeded'}", error=repr(r), **what)
        return
    touched = [(x.leaves[i], q, kwi) for k, i, b, m, kwi in x.log for q in range(b, b + m)]
    if any(k != ("w" if write else "r") for k, *_ in x.log):
        env_v(x, "a read wrote or a write read", **what)
    if any(t[2] != kw for t in touched):
        env_v(x, "keyword arguments are not passed through", given=kw, **what)
    flat = [t[:2] for t in touched]
    if ok:
        if flat != exp:
            env_v(x, "other bytes than the addressed ones were accessed, or in another order", **what)
        if not write:
            e = bytes(leaf.get(q) for leaf, q in exp)
            if bytes(r) != e or not isinstance(r, (bytes, bytearray)):
                env_v(x, "read data differs", got=r, expected=e, **what)
        else:
            fin = {}
            for (leaf, q), v in zip(exp, data):
                fin[(leaf, q)] = v
            if any(leaf.get(q) != v for (leaf, q), v in fin.items()):
                env_v(x, "written data differs", **what)
        env.seen("splits", (len(x.log), min(n, 64)))
    else:
        env.count["rejected_accesses"] += 1
        if not exp and x.log:
            env_v(x, "an access that starts unmapped touched a region", **what)
        if flat != exp[:len(flat)]:
            env_v(x, "a failing access touched bytes it does not address", **what)
        if not write:
            return


def concurrent(x, node, pts):
    """Several accesses at the same time through the same spaces."""
    rng, env = x.rng, x.env
    ops, used = [], set()
    for _ in range(rng.randrange(2, 6)):
        a, n = one(x, node, pts)
        exp = expected(node, a, n)
        if len(exp) != n or not n:
            continue
        w = rng.random() < 0.5
        cells = {(leaf.ident, q) for leaf, q in exp}
        if cells & used or len(cells) != n:
            continue
        used |= cells
        ops.append((w, a, n, exp, rng.randbytes(n)))
    if len(ops) < 2:
        return
    x.slow = True
    x.log = []
    want = [bytes(leaf.get(q) for leaf, q in o[3]) for o in ops]
    res = run_all(rng, [node.obj.write(o[1], o[4], tag=i) if o[0] else node.obj.read(o[1], o[2], tag=i) for i, o in enumerate(ops)])
    x.slow = False
    env.count["concurrent_batches"] += 1
    for i, (o, r) in enumerate(zip(ops, res)):
        flat = [(x.leaves[k], q) for _, k, b, m, kw in x.log if kw.get("tag") == i for q in range(b, b + m)]
        what = {"operation": ("write" if o[0] else "read", o[1], o[2]), "batch": [(p[0], p[1], p[2]) for p in ops]}
        if r[0] != "ok":
            env_v(x, f"a concurrent access raised {r[1]!r}", **what)
        elif flat != o[3]:
            env_v(x, "a concurrent access reached other bytes", **what)
        elif o[0]:
            if any(leaf.get(q) != v for (leaf, q), v in zip(o[3], o[4])):
                env_v(x, "a concurrent write stored other data", **what)
        elif bytes(r[1]) != want[i]:
            env_v(x, "a concurrent read returned other data", **what)


def episode(env):
    rng = env.rng
    for _ in range(env.cfg["n"]):
        env.count["cases"] += 1
        x = X()
        x.env, x.rng, x.leaves, x.log, x.oor, x.shared, x.slow = env, rng, [], [], [], [], False
        x.form = rng.choice([bytes, bytearray, Resp])
        size = rng.choice([2**64, 2**32, 8192, 1000, 65536])
        x.root = AddressSpace(size) if size != 2**64 or rng.random() < 0.5 else AddressSpace()
        node = Node(x.root, size)
        nodes = [node]
        grow(x, node, 0)

        def walk(n):
            for _, _, _, c in n.maps:
                if isinstance(c, Node):
                    nodes.append(c)
                    walk(c)
        walk(node)
        pts = sorted(points(node))
        for _ in range(25):
            n = node if rng.random() < 0.8 else rng.choice(nodes)
            p = pts if n is node else sorted(points(n))
            a, k = one(x, n, p)
            if rng.random() < 0.5 and k:
                m = len(expected(n, a, k))
                k = m + (rng.random() < 0.1) if m else k
            kw = {}
            if rng.random() < 0.3:
                kw = {rng.choice(["prot", "awid", "foo"]): rng.randrange(9)}
            check_access(x, n, a, k, rng.random() < 0.5, kw)
            if rng.random() < 0.15:
                try_overlap(x, rng.choice(nodes))
            if rng.random() < 0.15:
                concurrent(x, node, pts)
        env.seen("maps", (len(x.leaves), len(nodes), [(m[1], m[2]) for m in node.maps]))
        env.sig(size, [(m[0], m[1], m[2]) for m in node.maps])
        env.sample(size=size, maps=[(hex(m[0]), m[1], m[2], type(m[3]).__name__) for m in node.maps], nested=len(nodes) - 1, last_accesses=x.log[-3:])
    env.nontrivial = True

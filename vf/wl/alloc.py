"""Allocators: the buddy allocator, window pools and region pools (C34)."""
from cocotbext.axi import AddressSpace, MemoryRegion, SparseMemoryRegion
from cocotbext.axi.buddy_allocator import BuddyAllocator

from .pure import attempt

P = ("C34",)


def p2(n):
    return 1 << (n - 1).bit_length()


class Model:
    """Live blocks of a pool; the rounded extents are what an allocation may not overlap."""

    def __init__(self, size, minimum=1):
        self.size, self.min = size, minimum
        self.live = {}            # base: (requested, rounded)

    def fits(self, n):
        """True when some naturally aligned block for n bytes is free."""
        r = p2(max(n, self.min))
        cur = 0
        for b in sorted(self.live):
            if cur + r <= b:
                break
            e = b + self.live[b][1]
            cur = max(cur, -(-e // r) * r)
        return cur + n <= self.size


def check_block(env, m, n, b, what):
    r = p2(max(n, m.min))
    if not isinstance(b, int) or b < 0 or b + n > m.size:
        env.v(P, "a block lies outside of the pool", base=b, size=n, pool=m.size, what=what)
        return False
    if b % r:
        env.v(P, "a block is not naturally aligned", base=b, size=n, what=what)
        return False
    for q, (k, kr) in m.live.items():
        if b < q + k and q < b + n:
            env.v(P, "a block overlaps a live block", base=b, size=n, other=(q, k), what=what)
            return False
        if b < q + max(k, m.min) and q < b + max(n, m.min):
            env.v(P, "a block is smaller than the minimum allocation", base=b, size=n, other=(q, k), what=what)
            return False
    m.live[b] = (n, r)
    return True


def sizes(rng, pool):
    return min(pool, rng.choice([1, 1, 2, 3, 4, 7, 8, 16, 33, 64, rng.randrange(1, pool + 1), max(1, pool // 4), max(1, pool // 2),
                       1 << rng.randrange(0, pool.bit_length()), pool]))


def buddy(env, rng):
    pool = rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 64, 100, 255, 256, 257, 1000, 1024, rng.randrange(1, 5000), 2**20 + 3, 2**40, 3 * 2**30, 2**64,
                       2**53 + 1, 2**64 - 1, (1 << rng.randrange(1, 70)) + rng.choice([-1, 0, 1])])
    pool = max(pool, 1)
    minimum = rng.choice([1, 1, 1, 2, 4, 16, 3, 5, 12, 100])
    if minimum > pool:
        minimum = 1
    a = BuddyAllocator(pool, minimum) if minimum > 1 or rng.random() < 0.3 else BuddyAllocator(pool)
    m = Model(pool, minimum)
    what = {"pool": pool, "min_alloc": minimum}
    start = {}
    bias = rng.choice([0.45, 0.6, 0.8])
    small = rng.random() < 0.6
    freed = set()
    for step in range(rng.choice([10, 40, 150])):
        x = rng.random()
        if x < 0.06:
            n = rng.choice([0, -1, pool + 1, pool * 2, -pool])
            st, e = attempt(lambda: a.alloc(n))
            if st == "ok" or not isinstance(e, ValueError):
                env.v(P, "an allocation of an impossible size did not raise ValueError", size=n, result=repr(e), what=what)
            continue
        if x < 0.12:
            b = rng.choice([-1, pool, pool + 5, rng.randrange(0, pool)] + list(freed)[:3] + [q + 1 for q in list(m.live)[:3]])
            if b in m.live:
                continue
            st, e = attempt(lambda: a.free(b))
            if st == "ok" or not isinstance(e, ValueError):
                env.v(P, "freeing an unknown block did not raise ValueError", block=b, result=repr(e), live=sorted(m.live)[:10], what=what)
            env.count["bad_frees"] += 1
            continue
        if rng.random() < bias or not m.live:
            n = sizes(rng, pool)
            if small:
                n = min(n, rng.choice([1, 2, 4, 8, max(1, pool // 8)]))
            can = m.fits(n)
            st, b = attempt(lambda: a.alloc(n))
            env.count["allocations"] += 1
            if st == "ok":
                if not check_block(env, m, n, b, what):
                    return
                freed.discard(b)
            else:
                env.count["failed_allocations"] += 1
                if can:
                    env.v(P, f"an allocation failed ({b!r}) although a suitable block is free", size=n, live=sorted((q, k[0]) for q, k in m.live.items())[:20], what=what)
                    return
                if isinstance(b, ValueError):
                    env.v(P, "an exhausted pool raises ValueError", size=n, what=what)
        else:
            b = rng.choice(list(m.live))
            st, e = attempt(lambda: a.free(b))
            if st != "ok":
                env.v(P, f"freeing a live block raised {e!r}", block=b, what=what)
                return
            del m.live[b]
            freed.add(b)
            env.count["frees"] += 1
        env.seen("fill", (pool.bit_length(), len(m.live)))
    # everything freed: whatever was possible at the start is possible again
    live = list(m.live)
    rng.shuffle(live)
    for b in live:
        st, e = attempt(lambda: a.free(b))
        if st != "ok":
            env.v(P, f"freeing a live block raised {e!r}", block=b, what=what)
            return
    m.live = {}
    for n in {pool, p2(pool) // 2 or 1, 1, rng.randrange(1, pool + 1)}:
        st, b = attempt(lambda: a.alloc(n))
        if (st == "ok") != m.fits(n):
            env.v(P, "after freeing everything a request fails that was possible at the start", size=n, result=repr(b), what=what)
            return
        if st == "ok":
            if not check_block(env, m, n, b, what):
                return
            a.free(b)
            m.live = {}
    env.sig(pool, minimum, step)


def pools(env, rng):
    """Window pools and region pools hand out disjoint, aligned ranges as well."""
    kind = rng.choice(["window", "region"])
    size = rng.choice([16, 100, 256, 1000, 1024, 4096, 5000, rng.randrange(1, 6000)])
    total = 3 * size + rng.randrange(0, 5000)
    off = rng.randrange(0, total - size + 1)
    m = Model(size)
    what = {"kind": kind, "pool": size, "at": off}
    if kind == "window":
        parent = MemoryRegion(total)
        parent.mem[:] = bytes(total)
        p = parent.create_window_pool(off, size)
        alloc = lambda n: p.alloc_window(n)
        where = lambda w: w.offset
    else:
        parent = AddressSpace(total)
        p = parent.create_pool(off, size)
        rt = rng.choice([None, MemoryRegion, SparseMemoryRegion])
        alloc = lambda n: p.alloc_region(n, rt) if rt else p.alloc_region(n)
        where = lambda r: r.get_absolute_address(0) - off
    objs = []
    for _ in range(rng.randrange(3, 40) if rng.random() < 0.95 else rng.randrange(40, 300)):
        n = sizes(rng, size)
        n = min(n, rng.choice([4, 16, size // 4 or 1, size]))
        if rng.random() < 0.07:
            n = rng.choice([0, -2, size + 1])
            st, e = attempt(lambda: alloc(n))
            if st == "ok" or not isinstance(e, ValueError):
                env.v(P, "an allocation of an impossible size did not raise ValueError", size=n, result=repr(e), what=what)
            continue
        can = m.fits(n)
        st, o = attempt(lambda: alloc(n))
        env.count["pool_allocations"] += 1
        if st != "ok":
            if can:
                env.v(P, f"an allocation failed ({o!r}) although a suitable block is free", size=n, live=sorted((q, k[0]) for q, k in m.live.items()), what=what)
                return
            continue
        if not check_block(env, m, n, where(o), what):
            return
        if o.size != n:
            env.v(P, f"the allocated object has {o.size} bytes", size=n, what=what)
        objs.append((o, n, rng.randbytes(n)))
    for o, n, d in objs:
        st, e = attempt(lambda: o.write(0, d))
        if st != "ok":
            env.v(P, f"an allocated block cannot be written: {e!r}", size=n, what=what)
            return
    for o, n, d in objs:
        st, r = attempt(lambda: o.read(0, n))
        if st != "ok" or bytes(r) != d:
            env.v(P, "allocated blocks share storage", size=n, what=what)
            return
        if kind == "region":
            st, r = attempt(lambda: parent.read(off + where(o), n))
            if st != "ok" or bytes(r) != d:
                env.v(P, "an allocated region is not mapped where it was allocated", size=n, what=what)
                return
    env.sig(kind, size, off, [(where(o), n) for o, n, _ in objs])
    env.sample(kind=kind, pool=size, blocks=[(where(o), n) for o, n, _ in objs][:10])


def episode(env):
    for _ in range(env.cfg["n"]):
        env.count["cases"] += 2
        buddy(env, env.rng)
        pools(env, env.rng)
    env.nontrivial = True

"""Hex dumps (C38)."""
import contextlib
import io
import mmap

from cocotbext.axi import MemoryRegion, SparseMemoryRegion
from cocotbext.axi.memory import Memory
from cocotbext.axi.sparse_memory import SparseMemory
from cocotbext.axi.utils import hexdump, hexdump_line, hexdump_lines, hexdump_str

P = ("C38",)


def parse(env, row, prefix, what):
    if not row.startswith(prefix):
        env.v(P, "a row does not start with the prefix", row=row, what=what)
        return None
    row = row[len(prefix):]
    lab, _, rest = row.partition(":")
    t = rest.split()
    try:
        a = int(lab, 16)
        b = [int(x, 16) for x in t[:-1]]
        assert all(len(x) == 2 for x in t[:-1])
    except (ValueError, AssertionError):
        env.v(P, "a row cannot be read", row=row, what=what)
        return None
    return a, b, t[-1] if t else ""


def judge(env, lines, first, exp, rs, prefix, what):
    rows = [exp[i:i + rs] for i in range(0, len(exp), rs)]
    columns = {len(ln) - len(r) for ln, r in zip(lines, rows) if first + len(exp) <= 2**32}
    if len(columns) > 1:
        env.v(P, "the printable characters of the rows do not line up", lines=lines[-2:], what=what)
    if len(lines) != len(rows):
        env.v(P, f"{len(lines)} rows instead of {len(rows)}", lines=lines[:4], what=what)
        return
    for i, (ln, r) in enumerate(zip(lines, rows)):
        p = parse(env, ln, prefix, what)
        if p is None:
            return
        a, b, c = p
        if a != first + i * rs:
            env.v(P, f"row {i} is labelled {a:#x} instead of {first + i * rs:#x}", row=ln, what=what)
        if b != list(r):
            env.v(P, f"row {i} shows other bytes", row=ln, expected=bytes(r), what=what)
        if len(c) != len(r) or any(ch != chr(v) if 32 < v < 127 else ch != "." for ch, v in zip(c, r)):
            env.v(P, f"row {i} shows other characters", row=ln, expected=bytes(r), what=what)
        env.count["rows_checked"] += 1


def three(env, pr, ls, st, what):
    """Printed, list and string forms agree."""
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        r = pr()
    lines, text = ls(), st()
    if r is not None:
        env.v(P, "the printing form returns something", what=what)
    if "\n".join(lines) != text:
        env.v(P, "the list and string forms differ", lines=lines, text=text, what=what)
    if "".join(x + "\n" for x in lines) != o.getvalue():
        env.v(P, "the list and printed forms differ", lines=lines, text=o.getvalue(), what=what)
    return lines


def functions(env, rng):
    n = rng.choice([0, 1, 15, 16, 17, 32, 33, rng.randrange(0, 200)]) if rng.random() < 0.94 else rng.randrange(200, 6000)
    raw = rng.choice([rng.randbytes(n), bytes(rng.randrange(28, 130) for _ in range(n))])
    data = rng.choice([bytes, bytearray, list])(raw)
    if rng.random() < 0.2 and n:
        data = SparseMemory(n)
        data.write(0, raw)
    elif rng.random() < 0.1 and n:
        data = mmap.mmap(-1, n)
        data[:] = raw
    kw = {}
    start = 0
    if rng.random() < 0.6:
        start = kw["start"] = rng.choice([0, 1, n, rng.randrange(0, n + 2)])
    ln = None
    if rng.random() < 0.6:
        ln = kw["length"] = rng.choice([0, 1, n, n + 5, rng.randrange(0, n + 3)])
    rs = 16
    if rng.random() < 0.5:
        rs = kw["row_size"] = rng.choice([1, 2, 7, 8, 16, 32, rng.randrange(1, 70)]) if rng.random() < 0.95 else rng.randrange(70, 400)
    pre = ""
    if rng.random() < 0.5:
        pre = kw["prefix"] = rng.choice(["", "x ", "mem: ", "\t", "[12] "])
    off = 0
    if rng.random() < 0.5:
        off = kw["offset"] = rng.choice([0, 1, 0x1000, 0xfffffff0, 2**40 + 3, rng.getrandbits(64)])
    what = {"function": "hexdump", "size": n, "args": kw}
    lines = three(env, lambda: hexdump(data, **kw), lambda: hexdump_lines(data, **kw), lambda: hexdump_str(data, **kw), what)
    stop = n if ln is None else min(n, start + ln)
    if n:
        row = raw[:rng.randrange(0, 40)]
        k = rng.choice([0, 1, 16, 33, 64, None])
        o = rng.getrandbits(rng.choice([4, 16, 32]))
        judge(env, [hexdump_line(bytes(row), o) if k is None else hexdump_line(bytes(row), o, k)] if k != 0 and row else [], o, row[:16 if k is None else k], 99, "", {"function": "hexdump_line", "row": bytes(row), "row_size": k})
    judge(env, lines, start + off, raw[start:stop], rs, pre, what)
    env.seen("function_cases", (n % 16, start, ln, rs, bool(pre), off > 2**32))
    env.sig(kw, raw)
    env.sample(args=kw, size=n, lines=lines[:2])


def methods(env, rng):
    kind = rng.choice(["region", "sparse_region", "sparse", "memory", "memory_sparse"])
    big = kind in ("sparse_region", "sparse", "memory_sparse") and rng.random() < 0.4
    size = 2**64 if big else rng.randrange(1, 9000)
    base = rng.choice([0, 2**64 - 9000, 2**63, 0xfffff000 - 77, 4096 - 50]) if big else 0
    top = min(size, base + 9000)
    if kind == "region":
        o = MemoryRegion(size) if rng.random() < 0.5 else MemoryRegion(size, mem=bytearray(size))
    elif kind == "sparse_region":
        o = SparseMemoryRegion(size)
    elif kind == "sparse":
        o = SparseMemory(size)
    elif kind == "memory":
        o = Memory(mem=rng.choice([bytearray(size), mmap.mmap(-1, size)]))
    else:
        o = Memory(size)
    m = o if kind in ("sparse", "memory", "memory_sparse") else o.mem
    img = bytearray(top - base)
    for _ in range(rng.randrange(0, 6)):
        k = rng.randrange(0, min(len(img), 5000))
        a = rng.randrange(0, len(img) - k + 1)
        d = rng.randbytes(k)
        if not k:
            continue
        img[a:a + k] = d
        if hasattr(m, "write") and kind != "region":
            m.write(base + a, d)
        else:
            m[base + a:base + a + k] = d
    for _ in range(6):
        n = rng.choice([0, 1, 15, 16, 17, 40, rng.randrange(0, 300)]) if rng.random() < 0.95 else rng.randrange(300, 9000)
        n = min(n, len(img))
        a = rng.randrange(0, len(img) - n + 1)
        if rng.random() < 0.3:
            a = max(0, min(len(img) - n, rng.choice([4096 - base % 4096 - rng.randrange(0, 20), len(img) - n])))
        if a >= len(img):
            continue
        clip = kind in ("region", "memory") and rng.random() < 0.15
        req = n + rng.randrange(1, 50) if clip else n
        exp = bytes(img[a:a + req])
        pre = rng.choice(["", "", "p: "])
        args = (base + a, req) + ((pre,) if pre and rng.random() < 0.5 else ())
        kw = {"prefix": pre} if pre and len(args) == 2 else {}
        what = {"object": kind, "size": size, "args": args}
        lines = three(env, lambda: o.hexdump(*args, **kw), lambda: o.hexdump_lines(*args, **kw), lambda: o.hexdump_str(*args, **kw), what)
        judge(env, lines, base + a, exp, 16, pre, what)
        env.seen("method_cases", (kind, big, n % 16, a % 16))
        env.sig(kind, args)


def episode(env):
    for _ in range(env.cfg["n"]):
        env.count["cases"] += 1
        functions(env, env.rng)
        methods(env, env.rng)
    env.nontrivial = True

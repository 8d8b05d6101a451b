"""Random AXI master operations and their keyword arguments."""
from cocotbext.axi import AxiBurstSize, AxiBurstType, AxiCacheBit, AxiLockType, AxiProt, constants

from ..axibfm import FIXED, INCR, WRAP
from .common import pick_addr, prand_len

MBL = [1, 2, 3, 4, 5, 7, 8, 13, 15, 16, 17, 31, 32, 64, 100, 128, 200, 255, 256, 256, 256]


def make_op(env, rng, p, kind, bb, space, mbl, cfg, budget):
    opt = p["opt"]
    c = "aw" if kind == "w" else "ar"
    maxsize = (bb - 1).bit_length()
    size = maxsize if rng.random() < cfg.get("full_size", 0.5) else rng.randrange(0, maxsize + 1)
    nb = 1 << size
    x = rng.random()
    burst = INCR
    if x < cfg.get("fixed", 0.1):
        burst = FIXED
    elif x < cfg.get("fixed", 0.1) + cfg.get("wrap", 0.1):
        burst = WRAP
    lens = [q for q in (2, 4, 8, 16) if q <= mbl and q * nb <= space]
    if burst == WRAP and not lens:
        burst = INCR
    if burst == INCR:
        n = prand_len(rng, bb, cfg.get("big", 600), zero=cfg.get("zero", 0.04))
        if rng.random() < cfg.get("long", 0.02):
            n = rng.choice([rng.randrange(250, 300), 256, 256, 512]) * nb
        n = min(n, max(1, budget) * nb, space)
        if cfg.get("huge"):
            # once per episode: thousands of beats
            n = min(rng.randrange(4000, 9000) * nb, space)
            cfg["huge"] = False
        addr = pick_addr(rng, space, n, hot=cfg.get("hot"))
        if n >= 250 * nb and rng.random() < 0.7:
            # bursts of exactly 256 beats, with partial first and last beats
            if rng.random() < 0.5:
                addr &= ~0xfff
            addr += rng.randrange(0, nb) if addr + nb <= space - n else 0
            n = max(1, n - addr % nb - rng.randrange(0, nb))
    elif burst == FIXED:
        n = min(rng.randrange(1, 20 * nb + 1) if rng.random() < 0.8 else rng.randrange(1, 40) * nb, max(1, budget) * nb)
        addr = rng.randrange(0, (max(0, space - n) if rng.random() < 0.7 else space - nb) // nb + 1) * nb
    else:
        q = rng.choice(lens)
        n = q * nb
        if rng.random() < 0.5:
            base = rng.randrange(0, space // n) * n
        else:
            base = max(0, ((rng.randrange(0, max(1, space >> 12)) << 12) + 0x1000 - n) % space)
        addr = base + rng.randrange(0, q) * nb
    op = {"kind": kind, "addr": addr, "size": size, "burst": burst, "n": n,
          "size_arg": (None if rng.random() < 0.95 else -1) if size == maxsize and rng.random() < 0.7 else size}
    if kind == "w":
        op["data"] = rng.randbytes(n)
    idr = rng.random()
    idw = p["idw"]
    op["id"] = None
    if idr < cfg.get("explicit_id", 0.5):
        op["id"] = rng.choice(cfg["ids"]) if cfg.get("ids") else rng.randrange(1 << idw)
        op["id"] %= 1 << idw
    attr = {"lock": 0, "cache": 3, "prot": 2, "qos": 0, "region": 0, "user": 0}
    if rng.random() < cfg.get("attrs", 0.6):
        if c + "lock" in opt and rng.random() < cfg.get("excl", 0.2):
            attr["lock"] = 1
        if c + "cache" in opt:
            attr["cache"] = rng.randrange(16)
        if c + "prot" in opt:
            attr["prot"] = rng.randrange(8)
        if c + "qos" in opt:
            attr["qos"] = rng.randrange(16)
        if c + "region" in opt:
            attr["region"] = rng.randrange(16)
        if c + "user" in opt:
            attr["user"] = rng.getrandbits(p["userw"])
    op["attr"] = attr
    if kind == "w":
        op["wuser"] = 0
        if "wuser" in opt and rng.random() < 0.6:
            beats = max(1, -(-(n + addr % nb) // nb))
            y = rng.random()
            if y < 0.4:
                op["wuser"] = rng.getrandbits(p["userw"])
            elif y < 0.9:
                op["wuser"] = [rng.getrandbits(p["userw"]) for _ in range(rng.choice([0, 1, max(1, beats // 2), beats, beats + 3]))]
            else:
                op["wuser"] = None
    return op


# encodings of the AXI specification, given by name to the model
MEMTYPES = {
    "AR": {"DEVICE_NON_BUFFERABLE": 0, "DEVICE_BUFFERABLE": 1, "NORMAL_NON_CACHEABLE_NON_BUFFERABLE": 2, "NORMAL_NON_CACHEABLE_BUFFERABLE": 3,
           "WRITE_THROUGH_NO_ALLOC": 10, "WRITE_THROUGH_READ_ALLOC": 14, "WRITE_THROUGH_WRITE_ALLOC": 10, "WRITE_THROUGH_READ_AND_WRITE_ALLOC": 14,
           "WRITE_BACK_NO_ALLOC": 11, "WRITE_BACK_READ_ALLOC": 15, "WRITE_BACK_WRITE_ALLOC": 11, "WRITE_BACK_READ_AND_WRITE_ALLOC": 15},
    "AW": {"DEVICE_NON_BUFFERABLE": 0, "DEVICE_BUFFERABLE": 1, "NORMAL_NON_CACHEABLE_NON_BUFFERABLE": 2, "NORMAL_NON_CACHEABLE_BUFFERABLE": 3,
           "WRITE_THROUGH_NO_ALLOC": 6, "WRITE_THROUGH_READ_ALLOC": 6, "WRITE_THROUGH_WRITE_ALLOC": 14, "WRITE_THROUGH_READ_AND_WRITE_ALLOC": 14,
           "WRITE_BACK_NO_ALLOC": 7, "WRITE_BACK_READ_ALLOC": 7, "WRITE_BACK_WRITE_ALLOC": 15, "WRITE_BACK_READ_AND_WRITE_ALLOC": 15},
}
BITS = {AxiProt: ["PRIVILEGED", "NONSECURE", "INSTRUCTION"], AxiCacheBit: ["B", "M", "RA", "WA"]}


def flags(cls, v):
    r = cls(0)
    for i, n in enumerate(BITS[cls]):
        if v >> i & 1:
            r |= getattr(cls, n)
    return r


def named(kw, rng, kind):
    """Some arguments by the names of the constants."""
    if "burst" in kw and rng.random() < 0.5:
        kw["burst"] = getattr(AxiBurstType, ["FIXED", "INCR", "WRAP"][kw["burst"]])
    if kw.get("size", -1) is not None and 0 <= kw.get("size", -1) < 8 and rng.random() < 0.5:
        kw["size"] = getattr(AxiBurstSize, f"SIZE_{1 << kw['size']}")
    if "lock" in kw and rng.random() < 0.5:
        kw["lock"] = AxiLockType.EXCLUSIVE if kw["lock"] else AxiLockType.NORMAL
    if "prot" in kw and rng.random() < 0.5:
        kw["prot"] = flags(AxiProt, kw["prot"])
    if "cache" in kw and rng.random() < 0.6:
        pre = "AW" if kind == "w" else "AR"
        ns = [n for n, v in MEMTYPES[pre].items() if v == kw["cache"]]
        if ns and rng.random() < 0.7:
            kw["cache"] = getattr(constants, f"{pre}CACHE_{rng.choice(ns)}")
        else:
            kw["cache"] = flags(AxiCacheBit, kw["cache"])
    return kw


def kwargs(op, rng):
    c = "awid" if op["kind"] == "w" else "arid"
    kw = {}
    if op["id"] is not None:
        kw[c] = op["id"]
    elif rng.random() < 0.1:
        kw[c] = rng.choice([None, -1])
    if op["burst"] != INCR or rng.random() < 0.2:
        kw["burst"] = AxiBurstType(op["burst"]) if rng.random() < 0.8 else op["burst"]
    if op["size_arg"] is not None:
        kw["size"] = op["size_arg"]
    d = {"lock": 0, "cache": 3, "prot": 2, "qos": 0, "region": 0, "user": 0}
    for a, v in op["attr"].items():
        if v != d[a] or rng.random() < 0.1:
            kw[a] = v
    if "prot" in kw and rng.random() < 0.7:
        kw["prot"] = AxiProt(kw["prot"])
    if "lock" in kw and rng.random() < 0.7:
        kw["lock"] = AxiLockType(kw["lock"])
    if op["kind"] == "w" and (op["wuser"] != 0 or rng.random() < 0.1):
        kw["wuser"] = op["wuser"]
    return named(kw, rng, op["kind"])

"""Linearizability of a one-byte register whose writes have pairwise different values.

Histories of read/write registers with unique values are linearizable exactly when (Gibbons and Korach) every read has
a write of its value that it does not precede, no two forward zones overlap and no backward zone lies in a forward one,
where the operations on one value form a cluster, and its zone spans the earliest response and the latest invocation."""
import math

INF = math.inf


def check(init, writes, reads):
    """writes, reads: (invocation, response, value).  Ties count as concurrent.  Returns None or an explanation."""
    cl = {init: [-INF, -INF, -INF]}      # earliest response, latest invocation, invocation of the write
    for s, e, v in writes:
        if v in cl:
            raise ValueError("values are not unique")
        cl[v] = [e, s, s]
    for s, e, v in reads:
        c = cl.get(v)
        if c is None:
            return f"a read returned {v:#04x}, which was never written there"
        if e < c[2]:
            return f"a read returned {v:#04x} before it was written"
        c[0] = min(c[0], e)
        c[1] = max(c[1], s)
    fwd, bwd = [], []
    for v, (f, s, _) in cl.items():
        (fwd if f < s else bwd).append((min(f, s), max(f, s), v))
    fwd.sort()
    for a, b in zip(fwd, fwd[1:]):
        if b[0] < a[1]:
            return f"value {a[2]:#04x} was still there after {b[2]:#04x} had replaced it (or the reverse)"
    for lo, hi, v in bwd:
        for flo, fhi, fv in fwd:
            if flo < lo and hi < fhi:
                return f"value {fv:#04x} was observed again after it had been overwritten by {v:#04x}"
    return None

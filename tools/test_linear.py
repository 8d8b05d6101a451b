#!/usr/bin/env python3
"""Compares vf/linear.py with brute force on random small histories of one byte."""
import itertools
import random
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
sys.dont_write_bytecode = True
from vf.linear import check


def brute(init, writes, reads):
    """Is there an order of all operations, extending real time, in which every read sees the latest write?"""
    ops = [("w",) + w for w in writes] + [("r",) + r for r in reads]
    for perm in itertools.permutations(ops):
        ok, cur = True, init
        for i, o in enumerate(perm):
            if any(p[2] < o[1] for p in perm[i + 1:]):      # p finished before o began but comes later
                ok = False
                break
            if o[0] == "w":
                cur = o[3]
            elif o[3] != cur:
                ok = False
                break
        if ok:
            return True
    return False


rng = random.Random(1)
n = good = 0
for _ in range(int(sys.argv[1]) if len(sys.argv) > 1 else 6000):
    t = rng.choice([4, 8, 14])

    def iv():
        a = rng.randrange(t)
        return a, a + rng.randrange(0, t)
    writes = [iv() + (v,) for v in range(1, rng.randrange(1, 4))]
    reads = [iv() + (rng.randrange(0, len(writes) + 1),) for _ in range(rng.randrange(0, 4))]
    a, b = check(0, writes, reads) is None, brute(0, writes, reads)
    n += 1
    good += b
    if a != b:
        print("MISMATCH", writes, reads, check(0, writes, reads), b)
        sys.exit(1)
print(f"{n} histories agree, {good} of them linearizable")

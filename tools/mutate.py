#!/usr/bin/env python3
"""Mutation runner: which small changes of the code under test do the monitors notice?

mutate.py FILE [-n N] [-s SEED] [-o OUT] [-k JOBS_PER_CHECK]   runs mutants of cocotbext/axi/FILE in scratch copies.
Every mutant is run against a reduced plan of the checks relevant for the file; the first violation ends it.
Survivors are written to OUT as patches to be judged by hand (equivalent, out of the claims, or a gap)."""
import argparse
import ast
import difflib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
SRC = "/repo"
CHECKS = {
    "axi_master.py": "C01 C02 C03 C04 C05 C06 C20 C21 C22 C16 C36 C39",
    "axi_slave.py": "C07 C08 C09 C10 C23 C16 C37 C39", "axi_ram.py": "C07 C08 C35 C19 C23 C38",
    "axil_master.py": "C11 C06 C20 C21 C22 C16 C36", "axil_slave.py": "C12 C10 C23 C16 C37", "axil_ram.py": "C12 C35 C19 C38",
    "apb.py": "C13 C14 C15 C06 C10 C18 C20 C21 C22 C23 C35 C36 C37 C40",
    "axis.py": "C24 C25 C26 C27 C28 C29 C30 C31 C16 C18 C40", "stream.py": "C17 C16 C18 C22 C23 C40 C05",
    "address_space.py": "C32 C33 C34 C35 C36 C37 C38", "buddy_allocator.py": "C34", "memory.py": "C35 C36 C38",
    "sparse_memory.py": "C35 C36 C38", "utils.py": "C38", "reset.py": "C41 C22 C23 C24 C17", "constants.py": "C01 C04 C06 C10 C13",
    "axi_channels.py": "C40 C17 C01 C07", "axil_channels.py": "C40 C17 C11 C12", "__init__.py": "C40 C01",
}

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.LShift: ast.RShift,
       ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Pow: ast.Mult, ast.BitXor: ast.BitOr}


def variants(node):
    """Replacement nodes (or source text) for one AST node."""
    out = []
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for n in {CMP[type(node.ops[0])]} | ({ast.Gt} if isinstance(node.ops[0], ast.Lt) else set()):
            out.append(ast.Compare(node.left, [n()], node.comparators))
    if isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, (ast.JoinedStr, ast.Constant)) | \
            isinstance(getattr(node.left, "value", None), str):
        out.append(ast.BinOp(node.left, BIN[type(node.op)](), node.right))
        out.append(node.left)
    if isinstance(node, ast.Constant):
        if node.value is True or node.value is False:
            out.append(ast.Constant(not node.value))
        elif isinstance(node.value, int):
            out += [ast.Constant(node.value + 1)] + ([ast.Constant(node.value - 1)] if node.value > 0 else [])
    if isinstance(node, ast.BoolOp):
        out.append(ast.BoolOp(ast.Or() if isinstance(node.op, ast.And) else ast.And(), node.values))
        for i in range(len(node.values)):
            rest = node.values[:i] + node.values[i + 1:]
            out.append(rest[0] if len(rest) == 1 else ast.BoolOp(node.op, rest))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
        out.append(node.operand)
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("min", "max") and len(node.args) == 2:
        out.append(ast.Call(ast.Name("max" if node.func.id == "min" else "min"), node.args, []))
        out += node.args
    if isinstance(node, (ast.Name, ast.Attribute)) and isinstance(getattr(node, "ctx", None), ast.Load) and getattr(node, "_test", False):
        out.append(ast.UnaryOp(ast.Not(), node))
    if isinstance(node, ast.IfExp):
        out += [node.body, node.orelse]
    return out


def statements(node):
    if isinstance(node, (ast.Assign, ast.AugAssign)) or isinstance(node, ast.Expr) and isinstance(node.value, (ast.Call, ast.Await)):
        return ["pass"]
    if isinstance(node, ast.Break):
        return ["pass"]
    if isinstance(node, ast.Continue):
        return ["pass", "break"]
    if isinstance(node, ast.Return) and node.value is not None:
        return ["return None"]
    if isinstance(node, ast.Raise):
        return ["pass"]
    if isinstance(node, ast.Delete):
        return ["pass"]
    return []


def mutants(path):
    text = path.read_text()
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = text.encode()
    for n in ast.walk(tree):
        for f in ("test",):
            t = getattr(n, f, None)
            if isinstance(t, (ast.Name, ast.Attribute)):
                t._test = True
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ("__repr__", "__str__"):
            skip.update(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            s = ast.unparse(n.value.func)
            if ".log." in s or s.startswith("log") or "warn" in s:
                skip.update(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, ast.JoinedStr):
            skip.update([n.lineno] if n.lineno == n.end_lineno and "raise" in lines[n.lineno - 1] else [])
    out = []
    seen = set()
    for n in ast.walk(tree):
        if not hasattr(n, "lineno") or n.lineno in skip or "log" in lines[n.lineno - 1].split("=")[0] and "self.log" in lines[n.lineno - 1]:
            continue
        for v in variants(n) + statements(n):
            s, e = off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
            rep = v if isinstance(v, str) else "(" + ast.unparse(ast.fix_missing_locations(v)) + ")"
            new = raw[:s] + rep.encode() + raw[e:]
            if new in seen or new == raw:
                continue
            seen.add(new)
            try:
                a = ast.dump(ast.parse(new))
            except SyntaxError:
                continue
            if a == ast.dump(tree):
                continue
            out.append((n.lineno, new.decode()))
    return text, sorted(out, key=lambda x: x[0])


RUNNER = r'''
import json, random, sys, time
sys.path.insert(0, sys.argv[1]); sys.dont_write_bytecode = True
from vf import plans, simrun
from vf.core import derive
ids, k, seed = sys.argv[2].split(), int(sys.argv[3]), int(sys.argv[4])
jobs = []
for c in ids:
    js = plans.CHECKS[c].plan(derive(seed, c, "mut", 0), "quick")
    random.Random(seed).shuffle(js)
    for j in js[:k * (3 if js[0].get("pure") else 1)]:
        j["episodes"] = j["episodes"][:12]
        j["target"], j["also"], j["_c"] = None, [], c
        jobs.append(j)
random.Random(seed + 1).shuffle(jobs)
t = time.time()
for j in jobs:
    r, p = simrun.run_jobs([j], time.time() + 120, nproc=1)
    v = [x for q in r for x in q["viol"]]
    if v or p:
        print("KILLED", j["_c"], (v[0]["msg"] if v else "problem: " + p[0][-150:].replace("\n", " "))[:160], v[0]["props"] if v else "")
        sys.exit(1)
print("SURVIVED", len(jobs), round(time.time() - t, 1))
'''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file"); ap.add_argument("-n", type=int, default=0); ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-o", default="/tmp/mut"); ap.add_argument("-k", type=int, default=2); ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--lines", default=""); ap.add_argument("-c", "--checks", default="")
    a = ap.parse_args()
    path = Path(SRC) / "cocotbext/axi" / a.file
    text, ms = mutants(path)
    total = len(ms)
    if a.lines:
        lo, hi = map(int, a.lines.split("-"))
        ms = [m for m in ms if lo <= m[0] <= hi]
    if a.n and len(ms) > a.n:
        ms = sorted(random.Random(a.s).sample(ms, a.n), key=lambda m: m[0])
    out = Path(a.o); out.mkdir(parents=True, exist_ok=True)
    log = open(out / f"{a.file}.log", "a")
    scratch = tempfile.mkdtemp(prefix="mut_")
    pool = []
    for i in range(a.j):
        d = f"{scratch}/w{i}"
        shutil.copytree(SRC, d, ignore=shutil.ignore_patterns(".git", "sim_build", "__pycache__", "tests", "docs"))
        pool.append(d)
    st = {"KILLED": 0, "SURVIVED": 0, "OTHER": 0}

    def one(i):
        line, new = ms[i]
        d = pool.pop()
        try:
            f = Path(d) / "cocotbext/axi" / a.file
            f.write_text(new)
            try:
                r = subprocess.run([sys.executable, "-c", RUNNER, str(ROOT), a.checks or CHECKS[a.file], str(a.k), str(a.s)], capture_output=True, text=True,
                                   env={**os.environ, "VF_REPO": d}, timeout=1500)
                res = (r.stdout.strip().splitlines() or [r.stderr[-300:]])[-1]
            except subprocess.TimeoutExpired:
                res = "TIMEOUT"
            f.write_text(text)
        finally:
            pool.append(d)
        diff = "".join(difflib.unified_diff(text.splitlines(1), new.splitlines(1), n=0))
        change = " | ".join(l.strip() for l in diff.splitlines()[3:])
        k = res.split(" ")[0]
        st[k if k in st else "OTHER"] += 1
        log.write(f"{a.file}:{line} {res} :: {change}\n"); log.flush()
        if k != "KILLED":
            print(f"{a.file}:{line} {res} :: {change}", flush=True)
    t = time.time()
    with ThreadPoolExecutor(a.j) as ex:
        list(ex.map(one, range(len(ms))))
    shutil.rmtree(scratch, ignore_errors=True)
    print(f"{a.file}: {len(ms)} of {total} mutants, {st}, {time.time() - t:.0f} s", flush=True)


main()

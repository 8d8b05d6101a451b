#!/usr/bin/env python3
"""Writes a copy of a tree of the code under test with edits that keep the behaviour: refactor.py SRC DST SEED [only ...]

Kinds: rename locals, rename private attributes, expand augmented assignments, invert if/else, name conditions, while instead of
for, swap independent assignments, delegate methods to helpers, statements without effect.  Every kind is applied to a random part
of the places where it fits.  Used to see that no check depends on how the code is written (VF_REPO=DST run.py ...)."""
import ast
import random
import shutil
import sys
from pathlib import Path

KINDS = ["locals", "private", "aug", "invert", "cond", "loop", "swap", "delegate", "noop"]
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def simple(e):
    """No calls, no awaits: evaluating it has no effect and order does not matter."""
    return not any(isinstance(n, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Subscript)) for n in ast.walk(e))


def names(e):
    return {ast.unparse(n) for n in ast.walk(e) if isinstance(n, (ast.Name, ast.Attribute))}


class Refactor(ast.NodeTransformer):
    def __init__(self, rng, kinds, private):
        self.rng, self.kinds, self.private, self.n, self.done = rng, kinds, private, 0, {}

    def go(self, kind, p=0.7):
        if kind in self.kinds and self.rng.random() < p:
            self.done[kind] = self.done.get(kind, 0) + 1
            return True
        return False

    def fresh(self, s):
        self.n += 1
        return f"{s}_{self.n}"

    # -- names
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if "private" in self.kinds and n.attr in self.private:
            n.attr = self.private[n.attr]
        return n

    def function(self, n):
        if "private" in self.kinds and n.name in self.private:
            n.name = self.private[n.name]
        if "locals" in self.kinds:
            self.rename(n)
        n.body = self.block(n.body)
        return n

    def rename(self, f):
        inner = [x for b in f.body for x in ast.walk(b)]
        if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.ClassDef)) for x in inner):
            return
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "eval", "exec", "vars", "super") and
               x.func.id != "super" for x in inner):
            return
        a = f.args
        params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        for x in inner:
            if isinstance(x, FN + (ast.Lambda,)):
                params |= {y.arg for y in x.args.args + x.args.kwonlyargs}
        stored = {x.id for x in inner if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        m = {s: self.fresh(s) for s in sorted(stored) if self.go("locals")}
        for x in inner:
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
            elif isinstance(x, ast.ExceptHandler) and x.name in m:
                x.name = m[x.name]

    visit_FunctionDef = visit_AsyncFunctionDef = function

    # -- statements
    def block(self, body):
        out = []
        for s in body:
            s = self.visit(s)
            if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)) and self.go("invert", 0.5):
                s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
            if isinstance(s, ast.If) and self.go("cond", 0.4):
                t = self.fresh("cond")
                out.append(ast.Assign([ast.Name(t, ast.Store())], s.test, lineno=0))
                s.test = ast.Name(t, ast.Load())
            if (isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) and isinstance(s.target, (ast.Name, ast.Attribute)) and self.go("aug")):
                ld = ast.parse(ast.unparse(s.target), mode="eval").body
                s = ast.Assign([s.target], ast.BinOp(ld, s.op, s.value), lineno=0)
            if (isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == "range" and len(s.iter.args) == 1 and
                    isinstance(s.target, ast.Name) and not s.orelse and not any(isinstance(x, ast.Continue) for x in ast.walk(s)) and self.go("loop")):
                i, n = self.fresh("idx"), self.fresh("end")
                out += ast.parse(f"{i} = 0\n{n} = {ast.unparse(s.iter.args[0])}").body
                s = ast.While(ast.parse(f"{i} < {n}", mode="eval").body,
                              ast.parse(f"{s.target.id} = {i}").body + s.body + ast.parse(f"{i} += 1").body, [])
            if (out and isinstance(s, ast.Assign) and isinstance(out[-1], ast.Assign) and simple(s) and simple(out[-1]) and
                    not names(s.targets[0]) & names(out[-1]) and not names(out[-1].targets[0]) & names(s) and self.go("swap")):
                out.insert(len(out) - 1, s)
            else:
                out.append(s)
            if isinstance(s, ast.Assign) and self.go("noop", 0.1):
                out += ast.parse("if False:\n    pass").body
        return out

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            if isinstance(n, (ast.If, ast.For, ast.AsyncFor, ast.While, ast.With, ast.Try, ast.ExceptHandler)) and getattr(n, f, None):
                setattr(n, f, self.block(getattr(n, f)))
        for f, v in ast.iter_fields(n):
            if f in ("body", "orelse", "finalbody") and isinstance(n, (ast.If, ast.For, ast.AsyncFor, ast.While, ast.With, ast.Try, ast.ExceptHandler)):
                continue
            if isinstance(v, list):
                new = []
                for x in v:
                    if isinstance(x, ast.AST):
                        x = self.visit(x)
                    new.append(x)
                v[:] = new
            elif isinstance(v, ast.AST):
                setattr(n, f, self.visit(v))
        return n

    def visit_ClassDef(self, c):
        out = []
        for s in c.body:
            s = self.visit(s)
            a = s.args if isinstance(s, FN) else None
            plain = a and a.args and a.args[0].arg == "self" and not s.decorator_list and not a.vararg and not s.name.startswith("__")
            uses_super = a and "super()" in ast.unparse(s)
            gen = a and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s))
            if plain and not uses_super and not gen and len(s.body) > 1 and self.go("delegate", 0.3):
                h = f"_{c.name.lower()}_{s.name.strip('_')}_impl"
                args = [x.arg for x in a.args[1:]]
                call = f"self.{h}({', '.join(args + [f'{x.arg}={x.arg}' for x in a.kwonlyargs] + ([f'**{a.kwarg.arg}'] if a.kwarg else []))})"
                body = s.body
                s.body = ast.parse(f"async def f():\n    return await {call}" if isinstance(s, ast.AsyncFunctionDef) else f"def f():\n    return {call}").body[0].body
                sig = ast.parse(ast.unparse(s.args) and f"def f({ast.unparse(s.args)}): pass").body[0].args
                out.append(type(s)(h, sig, body, [], None, lineno=0, **({"type_params": []} if hasattr(s, "type_params") else {})))
            out.append(s)
        c.body = out
        return c


def main(src, dst, seed, kinds):
    rng = random.Random(seed)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns(".git", "sim_build", "__pycache__", "tests", "docs"))
    files = sorted((Path(dst) / "cocotbext/axi").glob("*.py"))
    trees = {f: ast.parse(f.read_text()) for f in files if f.name not in ("__init__.py", "version.py")}
    # private names defined by the package: methods and attributes of self
    private = set()
    for t in trees.values():
        for x in ast.walk(t):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self":
                private.add(x.attr)
            elif isinstance(x, FN):
                private.add(x.name)
    keep = {"_read", "_write", "_type"}      # hooks that users of the slaves and their subclasses override
    private = {p: p + "_r" for p in private if p.startswith("_") and not p.startswith("__") and p not in keep}
    # attributes that cocotb or class bodies define must not be renamed
    for t in trees.values():
        for x in ast.walk(t):
            if isinstance(x, ast.ClassDef):
                for b in x.body:
                    for y in getattr(b, "targets", []):
                        if isinstance(y, ast.Name):
                            private.pop(y.id, None)
    total = {}
    for f, t in trees.items():
        r = Refactor(rng, kinds, private)
        t = ast.fix_missing_locations(r.visit(t))
        for k, v in r.done.items():
            total[k] = total.get(k, 0) + v
        f.write_text(ast.unparse(t) + "\n# behaviour unchanged\n")
        compile(f.read_text(), str(f), "exec")
    if "private" in kinds:
        total["private"] = len(private)
    print(total)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4:] or KINDS)

"""Shared by the host side and the simulation side: episode environment and results."""
import hashlib
import os
import random
import traceback
from collections import Counter

REPO = os.environ.get("VF_REPO", "/repo")
ANY = "*"


class HarnessError(Exception):
    """The harness itself did something wrong: never a verdict about the code under test."""


def derive(seed, *path):
    h = hashlib.sha256(repr((seed,) + path).encode()).digest()
    return int.from_bytes(h[:8], "little")


def from_model(exc):
    """True when the exception passed through code of the repository."""
    pkg = os.path.join(os.path.realpath(REPO), "cocotbext") + os.sep
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        for f, _ in traceback.walk_tb(e.__traceback__):
            if os.path.realpath(f.f_code.co_filename).startswith(pkg):
                return True
        todo += [e.__cause__, e.__context__]
    return False


def tb_text(exc, limit=12):
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__, limit=-limit))[-3000:]


CONFUSED = (TypeError, AttributeError, ValueError, KeyError, IndexError, ZeroDivisionError, OverflowError)


class Env:
    """One episode: its random source, its observations and its verdicts."""

    def __init__(self, cfg, target=None, also=()):
        self.cfg = cfg
        self.target = target
        self.also = set(also)         # properties whose violations are violations of the target too
        self.rng = random.Random(cfg.get("seed", 0))
        self.count = Counter()
        self.viol = []
        self.samples = []
        self.harness = []
        self._hash = hashlib.sha256()
        self.nontrivial = False
        self.on_fail = None
        self.buckets = {}

    # -- observations ---------------------------------------------------
    def sig(self, *x):
        self._hash.update(repr(x).encode())

    def signature(self):
        return self._hash.hexdigest()[:16]

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({k: _plain(v) for k, v in kw.items()})

    def seen(self, bucket, value):
        """Record a distinct value (state, interleaving, shape) under a named bucket."""
        s = self.buckets.setdefault(bucket, set())
        if len(s) < 4000:
            s.add(str(value))

    # -- verdicts -------------------------------------------------------
    def v(self, props, msg, **detail):
        if isinstance(props, str):
            props = (props,)
        if self.also.intersection(props) and self.target not in props:
            props = (self.target,) + tuple(props)
        if len(self.viol) < 40:
            self.viol.append({"props": list(props), "msg": msg,
                              "detail": {k: _plain(x) for k, x in detail.items()}})
        if self.on_fail and (self.target is None or self.target in props or ANY in props):
            self.on_fail()

    def failed(self):
        return any(self.target is None or self.target in x["props"] or ANY in x["props"] for x in self.viol)

    def exc(self, e, where):
        if isinstance(e, CONFUSED) and not isinstance(e, HarnessError) and not from_model(e):
            # an oracle choked on what the code under test produced (wrong type, missing field, undefined value)
            self.v(ANY, f"the behaviour observed cannot be interpreted ({where}): {type(e).__name__}: {e}", traceback=tb_text(e))
        elif isinstance(e, HarnessError) or not from_model(e):
            if len(self.harness) < 5:
                self.harness.append(f"{where}: {tb_text(e)}")
            if self.on_fail:
                self.on_fail()
        else:
            self.v(ANY, f"unexpected {type(e).__name__} in the code under test ({where}): {e}", traceback=tb_text(e))

    def result(self):
        return {
            "cfg": self.cfg, "viol": self.viol, "harness": self.harness,
            "count": dict(self.count), "samples": self.samples, "sig": self.signature(),
            "nontrivial": bool(self.nontrivial),
            "buckets": {k: sorted(v) for k, v in self.buckets.items()},
        }


def _plain(v):
    if isinstance(v, (bytes, bytearray)):
        return v.hex() if len(v) <= 128 else v[:128].hex() + f"...({len(v)})"
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v[:64]]
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v if not isinstance(v, str) else v[:4000]
    return repr(v)[:1000]

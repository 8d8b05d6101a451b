"""Shared by the checks of pure Python code: running coroutines without a simulator and recording regions."""
from ..core import HarnessError


class Pause:
    """What a slow region awaits: hands control to another operation."""

    def __await__(self):
        yield self


def run(coro):
    """Run one coroutine to its end."""
    try:
        while True:
            if not isinstance(coro.send(None), Pause):
                raise HarnessError("an unexpected object was awaited")
    except StopIteration as e:
        return e.value


def run_all(rng, coros):
    """Interleave coroutines; returns [('ok', value) or ('exc', exception)]."""
    out = [None] * len(coros)
    live = list(range(len(coros)))
    while live:
        i = rng.choice(live)
        try:
            coros[i].send(None)
        except StopIteration as e:
            out[i] = ("ok", e.value)
            live.remove(i)
        except Exception as e:
            out[i] = ("exc", e)
            live.remove(i)
    return out


def attempt(f):
    """('ok', value) or ('exc', exception) of a call or coroutine."""
    try:
        v = f()
        if hasattr(v, "send"):
            v = run(v)
        return "ok", v
    except HarnessError:
        raise
    except Exception as e:
        return "exc", e


def pick_offset(rng, size, n):
    """Start of an n byte access: at the edges, near page boundaries or anywhere."""
    hi = max(0, size - n)
    x = rng.random()
    if x < 0.15:
        return rng.randrange(0, min(hi, 16) + 1)
    if x < 0.35:
        return hi - rng.randrange(0, min(hi, 16) + 1) if rng.random() < 0.6 else hi
    if x < 0.65 and size > 4096:
        p = rng.randrange(1, -(-size // 4096)) << 12
        return max(0, min(hi, p - rng.choice([0, 1, n, n - 1, n // 2, rng.randrange(0, 64)])))
    return rng.randrange(0, hi + 1)

"""Runs inside the simulator (MODULE=vf.simmain): every episode of the job is one cocotb test."""
import importlib
import json
import logging
import os
import resource
import signal
import sys
import time

import cocotb
import cocotb.regression
from cocotb.triggers import Event, First, RisingEdge, Timer
from cocotb.utils import get_sim_time

from .core import ANY, Env, HarnessError, from_model, tb_text

with open(os.environ["VF_JOB"]) as _f:
    JOB = json.load(_f)
OUT = open(os.environ["VF_OUT"], "a", buffering=1)
ENVS = {}
CURRENT = [None]
FAILED = [0]

_mb = int(JOB.get("mem_mb", 6000))
resource.setrlimit(resource.RLIMIT_AS, (_mb << 20, _mb << 20))
try:
    import cocotbext.axi as _axi
    _path = os.path.realpath(_axi.__file__)
    if not _path.startswith(os.path.realpath(os.environ["VF_REPO"]) + os.sep):
        raise RuntimeError(f"imported cocotbext.axi from {_path}")
    WL = importlib.import_module(JOB["workload"])
except BaseException as e:
    OUT.write(json.dumps({"import_error": tb_text(e), "model": from_model(e)}) + "\n")
    OUT.flush()
    os._exit(3)


class _Discard(logging.Handler):
    def emit(self, record):
        record.getMessage()


for _h in list(logging.getLogger().handlers):
    logging.getLogger().removeHandler(_h)
logging.getLogger().addHandler(_Discard())


# ---------------------------------------------------------------- watchdog: CPU time without simulated progress
_last = [None, 0]


def _tick(signum, frame):
    now = (CURRENT[0], get_sim_time())
    if now != _last[0]:
        _last[0] = now
        _last[1] = 0
        return
    _last[1] += 1
    if _last[1] >= int(JOB.get("cpu_hang_ticks", 5)):
        env = ENVS.get(CURRENT[0])
        if env is not None:
            import traceback
            where = "".join(traceback.format_stack(frame, limit=8))
            env.on_fail = None
            env.v(ANY, "the code under test spins without the simulation advancing", stack=where[-2000:])
            _emit(CURRENT[0], env, None)
        OUT.flush()
        os._exit(4)


signal.signal(signal.SIGPROF, _tick)
signal.setitimer(signal.ITIMER_PROF, 5, 5)


def _emit(name, env, outcome_exc):
    r = env.result()
    r["ep"] = name
    r["sim_ns"] = get_sim_time("ns")
    if env.failed() or (env.harness and not env.viol):
        FAILED[0] += 1
    OUT.write(json.dumps(r) + "\n")


_orig_record = cocotb.regression.RegressionManager._record_result


def _record(self, test, outcome, wall_time_s, sim_time_ns):
    env = ENVS.pop(test.__qualname__, None)
    if env is not None:
        env.on_fail = None
        if outcome is not None:
            try:
                outcome.get()
            except BaseException as e:
                env.exc(e, "background task")
        else:
            env.harness.append("test was skipped")
        _emit(test.__qualname__, env, None)
    # keep cocotb's own bookkeeping, without its traceback logging costs
    return _orig_record(self, test, outcome, wall_time_s, sim_time_ns)


cocotb.regression.RegressionManager._record_result = _record


def task(env, coro, where):
    """Start a harness task whose exceptions are classified instead of killing the test."""
    async def body():
        try:
            return await coro
        except Exception as e:
            env.exc(e, where)
    return cocotb.start_soon(body())


def reset_signals(dut):
    for name, init in JOB["signals"]:
        if name == "clk":
            continue
        h = dut
        for part in name.split("."):
            h = getattr(h, part)
        if init == "x":
            v = h.value
            v.binstr = "x" * len(h)
            h.setimmediatevalue(v)
        else:
            h.setimmediatevalue(init)


def _make(i, ep):
    name = f"ep{i}"

    async def test(dut):
        env = Env(ep, JOB.get("target"), JOB.get("also", ()))
        ENVS[name] = env
        CURRENT[0] = name
        env.dut = dut
        env.clk = dut.clk
        env.period = JOB.get("period", 10)
        env.spawn = lambda coro, where="harness task": task(env, coro, where)
        logging.getLogger("cocotb").setLevel(ep.get("log", "WARNING"))
        if FAILED[0] >= 2:
            ENVS.pop(name)
            OUT.write(json.dumps({"skipped": name}) + "\n")
            return
        await Timer(1, "ns")
        reset_signals(dut)
        await RisingEdge(dut.clk)
        await Timer(env.rng.randrange(1, 2 * env.period), "ns")
        stop = Event()
        env.on_fail = stop.set
        done = Event()

        async def main():
            try:
                await WL.episode(env)
            except Exception as e:
                env.exc(e, "workload")
            done.set()

        cocotb.start_soon(main())
        limit = ep.get("max_ns", JOB.get("max_ns", 150_000 * max(10, JOB.get("period", 10))))
        t = Timer(limit, "ns")
        await First(done.wait(), stop.wait(), t)
        env.on_fail = None
        if not done.is_set() and not stop.is_set():
            pend = None
            try:
                pend = env.pending() if hasattr(env, "pending") else None
            except Exception as e:
                pend = repr(e)
            env.v(ANY, f"no completion within {limit} ns of simulated time (deadlock or lost event)", pending=pend)

    test.__name__ = test.__qualname__ = name
    return cocotb.test()(test)


for _i, _ep in enumerate(JOB["episodes"]):
    globals()[f"ep{_i}"] = _make(_i, _ep)

"""Runs the checks of pure Python code: every episode of the job is one call of the workload."""
import importlib
import json
import logging
import os
import resource
import signal
import traceback

from .core import ANY, Env, from_model, tb_text

with open(os.environ["VF_JOB"]) as _f:
    JOB = json.load(_f)
OUT = open(os.environ["VF_OUT"], "a", buffering=1)
CUR = [None, None]

_mb = int(JOB.get("mem_mb", 6000))
resource.setrlimit(resource.RLIMIT_AS, (_mb << 20, _mb << 20))
logging.getLogger().addHandler(logging.NullHandler())


class Stop(BaseException):
    pass


def hang(signum, frame):
    name, env = CUR
    if env is not None:
        env.v(ANY, "the code under test does not return", stack="".join(traceback.format_stack(frame, limit=8))[-2000:])
        emit(name, env)
    OUT.flush()
    os._exit(4)


def emit(name, env):
    r = env.result()
    r["ep"] = name
    OUT.write(json.dumps(r) + "\n")


def main():
    try:
        import cocotbext.axi as axi
        path = os.path.realpath(axi.__file__)
        if not path.startswith(os.path.realpath(os.environ["VF_REPO"]) + os.sep):
            raise RuntimeError(f"imported cocotbext.axi from {path}")
        wl = importlib.import_module(JOB["workload"])
    except BaseException as e:
        OUT.write(json.dumps({"import_error": tb_text(e), "model": from_model(e)}) + "\n")
        OUT.flush()
        os._exit(3)
    signal.signal(signal.SIGVTALRM, hang)
    failed = 0
    for i, cfg in enumerate(JOB["episodes"]):
        name = f"ep{i}"
        if failed >= 2:
            OUT.write(json.dumps({"skipped": name}) + "\n")
            continue
        env = Env(cfg, JOB.get("target"), JOB.get("also", ()))

        def stop():
            raise Stop()
        env.on_fail = stop
        CUR[:] = [name, env]
        signal.setitimer(signal.ITIMER_VIRTUAL, JOB.get("cpu_limit", 40))
        try:
            wl.episode(env)
        except Stop:
            pass
        except Exception as e:
            env.on_fail = None
            env.exc(e, "workload")
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if env.failed() or (env.harness and not env.viol):
            failed += 1
        emit(name, env)


main()
OUT.flush()
os._exit(0)

"""Host side: build a DUT, run one simulator process per job, collect the episode results."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor, as_completed
from pathlib import Path

from .core import REPO

HERE = Path(__file__).resolve().parent.parent
VENV = "/opt/venv"
LIBS = f"{VENV}/lib/python3.12/site-packages/cocotb/libs"


def verilog(signals, period, insts=()):
    """The top module, and one module per further instance, each with its own clock (multi workload)."""
    text = module("top", signals, period, [f"  inst{i} i{i}();" for i in range(len(insts))])
    for i, x in enumerate(insts):
        text += module(f"inst{i}", x["dut"], x["period"])
    return text


def module(name, signals, period, body=()):
    half = period / 2
    lines = ["`timescale 1ns/1ps", f"module {name};", "  reg clk = 0;", f"  always #{half:g} clk = ~clk;", *body]
    for name, width, init in signals:
        rng = f"[{width-1}:0] "
        ini = "{%d{1'bx}}" % width if init == "x" else f"{width}'d{init}"
        if width == 1:
            rng = ""
        lines.append(f"  reg {rng}{name} = {ini};")
    lines.append("endmodule")
    return "\n".join(lines) + "\n"


def run_job(job, scratch, deadline):
    """Returns (list of episode results, list of infrastructure problems)."""
    d = Path(tempfile.mkdtemp(prefix="job_", dir=scratch))
    problems = []
    results = []
    try:
        pure = job.get("pure")
        vvp = d / "top.vvp"
        env = {
            "PATH": f"{VENV}/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            "HOME": str(d), "LANG": "C.UTF-8",
        }
        if not pure:
            (d / "top.v").write_text(verilog(job["dut"], job.get("period", 10), job.get("insts", ())))
        r = pure or subprocess.run(["iverilog", "-g2012", "-s", "top", "-o", str(vvp), str(d / "top.v")],
                           capture_output=True, text=True, env=env, timeout=120)
        if not pure and r.returncode:
            return results, [f"iverilog failed: {r.stderr[-500:]}"]
        sub = dict(job)
        sub["signals"] = [(n, i) for n, w, i in job.get("dut", [])]
        for k, q in enumerate(job.get("insts", ())):
            sub["signals"] += [(f"i{k}.{n}", i) for n, w, i in q["dut"]]
        (d / "job.json").write_text(json.dumps(sub))
        env.update({
            "PYTHONPATH": f"{REPO}{os.pathsep}{HERE}", "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPYCACHEPREFIX": str(d / "pyc"), "PYTHONHASHSEED": "0",
            "MODULE": "vf.simmain", "TOPLEVEL": "top", "TOPLEVEL_LANG": "verilog", "SIM": "icarus",
            "COCOTB_LOG_LEVEL": "WARNING", "COCOTB_REDUCED_LOG_FMT": "1", "COCOTB_ANSI_OUTPUT": "0",
            "COCOTB_RESULTS_FILE": str(d / "results.xml"), "RANDOM_SEED": "1",
            "VF_JOB": str(d / "job.json"), "VF_OUT": str(d / "out.jsonl"), "VF_REPO": REPO,
            "LIBPYTHON_LOC": os.environ.get("LIBPYTHON_LOC", libpython()),
            "PYGPI_PYTHON_BIN": f"{VENV}/bin/python", "VIRTUAL_ENV": VENV,
            "LD_LIBRARY_PATH": f"{LIBS}:{os.environ.get('LD_LIBRARY_PATH', '')}",
        })
        left = deadline - time.time()
        if left < 5:
            return results, ["no time left"]
        p = None
        with open(d / "log", "wb") as log:
            cmd = ["vvp", "-M", LIBS, "-m", "libcocotbvpi_icarus", str(vvp)]
            if pure:
                cmd = [f"{VENV}/bin/python", "-m", "vf.puremain"]
            p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, cwd=str(d), env=env,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(timeout=left)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = "timeout"
        out = d / "out.jsonl"
        if out.exists():
            for line in out.read_text().splitlines():
                try:
                    results.append(json.loads(line))
                except ValueError:
                    problems.append("truncated result line")
        imp = [x for x in results if "import_error" in x]
        skipped = sum("skipped" in x for x in results)
        results = [x for x in results if "ep" in x]
        for x in imp:
            problems.append("import failed: " + x["import_error"])
        want = len(job["episodes"])
        if len(results) + skipped < want and not any(x["viol"] for x in results):
            tail = (d / "log").read_bytes()[-1500:].decode("utf-8", "replace")
            problems.append(f"simulator ended (rc={rc}) after {len(results)}/{want} episodes: {tail}")
        for x in results:
            x["job"] = job.get("name")
            x["job_index"] = job.get("index")
            x["ep_index"] = int(x["ep"][2:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return results, problems


_lp = []


def libpython():
    if not _lp:
        _lp.append(subprocess.run([f"{VENV}/bin/python", "-m", "find_libpython"], capture_output=True,
                                  text=True).stdout.strip() or
                   subprocess.run([f"{VENV}/bin/cocotb-config", "--libpython"], capture_output=True, text=True).stdout.strip())
    return _lp[0]


def run_jobs(jobs, deadline, nproc=None, stop_early=True, target=None):
    nproc = nproc or min(8, os.cpu_count() or 1)
    scratch = tempfile.mkdtemp(prefix="vf_")
    results, problems = [], []
    try:
        libpython()
        with ThreadPoolExecutor(nproc) as ex:
            futs = {}
            for i, j in enumerate(jobs):
                j["index"] = i
                futs[ex.submit(run_job, j, scratch, deadline)] = j
            for f in as_completed(futs):
                try:
                    r, p = f.result()
                except Exception as e:
                    r, p = [], [f"{type(e).__name__}: {e}"]
                results += r
                problems += p
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    results.sort(key=lambda x: (x["job_index"], x["ep_index"]))
    return results, problems

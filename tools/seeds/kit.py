"""Runs cocotb tests of a demo on a shell of plain registers, in a scratch directory."""
import os
import shutil
import sys
import tempfile


def axi(p, dw=32, aw=32, idw=4, drop=()):
    s = {}
    for c in ("aw", "ar"):
        s.update({c + "id": idw, c + "addr": aw, c + "len": 8, c + "size": 3, c + "burst": 2, c + "lock": 1, c + "cache": 4,
                  c + "prot": 3, c + "qos": 4, c + "region": 4, c + "valid": 1, c + "ready": 1})
    s.update({"wdata": dw, "wstrb": dw // 8, "wlast": 1, "wvalid": 1, "wready": 1, "bid": idw, "bresp": 2, "bvalid": 1, "bready": 1})
    s.update({"rid": idw, "rdata": dw, "rresp": 2, "rlast": 1, "rvalid": 1, "rready": 1})
    return {f"{p}_{k}": v for k, v in s.items() if k not in drop}


def axil(p, dw=32, aw=32):
    s = {"awaddr": aw, "awprot": 3, "awvalid": 1, "awready": 1, "wdata": dw, "wstrb": dw // 8, "wvalid": 1, "wready": 1,
         "bresp": 2, "bvalid": 1, "bready": 1, "araddr": aw, "arprot": 3, "arvalid": 1, "arready": 1,
         "rdata": dw, "rresp": 2, "rvalid": 1, "rready": 1}
    return {f"{p}_{k}": v for k, v in s.items()}


def apb(p, dw=32, aw=32):
    s = {"paddr": aw, "psel": 1, "penable": 1, "pwrite": 1, "pwdata": dw, "pstrb": dw // 8, "pready": 1, "prdata": dw,
         "pprot": 3, "pslverr": 1}
    return {f"{p}_{k}": v for k, v in s.items()}


def axis(p, lanes=4, bs=8, tid=8, tdest=8, tuser=8):
    s = {"tdata": lanes * bs, "tkeep": lanes, "tlast": 1, "tvalid": 1, "tready": 1, "tid": tid, "tdest": tdest, "tuser": tuser}
    return {f"{p}_{k}": v for k, v in s.items()}


def run(signals):
    from cocotb.runner import get_results, get_runner
    d = tempfile.mkdtemp(prefix="demo_")
    try:
        v = ["`timescale 1ns/1ps", "module top;", "reg clk = 0;", "reg rst = 0;"]
        v += [f"reg [{w - 1}:0] {n} = 0;" for n, w in signals.items()]
        v += ["endmodule", ""]
        with open(os.path.join(d, "top.v"), "w") as f:
            f.write("\n".join(v))
        r = get_runner("icarus")
        r.build(verilog_sources=[os.path.join(d, "top.v")], hdl_toplevel="top", build_dir=os.path.join(d, "b"), always=True)
        x = r.test(hdl_toplevel="top", test_module="demo", build_dir=os.path.join(d, "b"), test_dir=d,
                   results_xml=os.path.join(d, "results.xml"),
                   extra_env={"PYTHONPATH": os.environ["PYTHONPATH"], "PYTHONDONTWRITEBYTECODE": "1", "COCOTB_LOG_LEVEL": "WARNING"})
        n, bad = get_results(x)
        print(f"{n} tests, {bad} failed")
        sys.exit(1 if bad or not n else 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)

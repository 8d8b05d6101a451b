"""Planted bugs, fifth batch: independence of instances, construction."""
from defs1 import HEAD, MAIN
from defs2 import AXIS
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("pause-registry", "C39",
     {"stream.py": [("""class StreamPause:
    def __init__""", """class StreamPause:

    # running pause generators by stream
    _pause_crs = {}

    def __init__"""),
                    ("""        if self._pause_cr is not None:
            self._pause_cr.kill()
            self._pause_cr = None

        self._pause_generator = generator

        if self._pause_generator is not None:
            self._pause_cr = cocotb.start_soon(self._run_pause())
""", """        key = (type(self), self.bus._name)

        if key in self._pause_crs:
            self._pause_crs.pop(key).kill()

        self._pause_generator = generator

        if self._pause_generator is not None:
            self._pause_crs[key] = cocotb.start_soon(self._run_pause())
""")]},
     "two models of one kind on equally named busses in different modules, both with pause generators",
     "setting the generator of the second one stops that of the first one, which may stay paused for good",
     """
import cocotb, itertools, os, shutil, sys, tempfile
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, with_timeout

V = '''`timescale 1ns/1ps
module half(input clk);
reg [7:0] s_awid=0, s_awlen=0; reg [31:0] s_awaddr=0, s_wdata=0; reg [2:0] s_awsize=0; reg [1:0] s_awburst=0, s_bresp=0; reg [3:0] s_wstrb=0;
reg [7:0] s_bid=0; reg s_awvalid=0, s_awready=0, s_wvalid=0, s_wready=0, s_wlast=0, s_bvalid=0, s_bready=0;
endmodule
module top; reg clk=0; half a(clk); half b(clk); endmodule
'''


@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    from cocotbext.axi import AxiMasterWrite, AxiRamWrite, AxiWriteBus
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())
    ms, rs = [], []
    for x in (dut.a, dut.b):
        ms.append(AxiMasterWrite(AxiWriteBus.from_prefix(x, "s"), dut.clk))
        rs.append(AxiRamWrite(AxiWriteBus.from_prefix(x, "s"), dut.clk, size=4096))
    for r in rs:
        await RisingEdge(dut.clk)
        r.w_channel.set_pause_generator(itertools.cycle([1, 1, 0]))
    for m, r in zip(ms, rs):
        await with_timeout(m.write(16, b"test" * 20), 20, "us")
        assert r.read(16, 80) == b"test" * 20


if __name__ == "__main__":
    from cocotb.runner import get_results, get_runner
    d = tempfile.mkdtemp(prefix="demo_")
    try:
        with open(d + "/top.v", "w") as f:
            f.write(V)
        r = get_runner("icarus")
        r.build(verilog_sources=[d + "/top.v"], hdl_toplevel="top", build_dir=d + "/b", always=True)
        x = r.test(hdl_toplevel="top", test_module="demo", build_dir=d + "/b", test_dir=d, results_xml=d + "/results.xml",
                   extra_env={"PYTHONPATH": os.environ["PYTHONPATH"], "PYTHONDONTWRITEBYTECODE": "1", "COCOTB_LOG_LEVEL": "WARNING"})
        n, bad = get_results(x)
        sys.exit(1 if bad or not n else 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
""")

seed("sparse-shared-pages", "C39",
     {"sparse_memory.py": [("    def __init__(self, size):\n        self.size = size\n        self.segs = {}\n",
                            "    def __init__(self, size, segs={}):\n        self.size = size\n        self.segs = segs\n")]},
     "two sparse memories alive in one process",
     "they share their pages: what is written to one appears in the other",
     """
from cocotbext.axi import SparseMemoryRegion

a, b = SparseMemoryRegion(2**40), SparseMemoryRegion(2**40)
a.mem.write(0x12345, b"test")
assert bytes(b.mem.read(0x12345, 4)) == bytes(4)
""")

seed("read-bus-separator", "C40",
     {"axi_channels.py": [("        read = AxiReadBus.from_prefix(entity, prefix, **kwargs)\n", "        read = AxiReadBus.from_prefix(entity, prefix)\n")]},
     "a bus whose signals are not joined to the prefix by an underscore (bus_separator)",
     "the read channels are looked up under other names than asked for",
     HEAD + """
from cocotbext.axi import AxiBus, AxiMaster, AxiRam

@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = AxiMaster(AxiBus.from_prefix(dut, "s", bus_separator="__"), dut.clk)
    r = AxiRam(AxiBus.from_prefix(dut, "s", bus_separator="__"), dut.clk, size=4096)
    await RisingEdge(dut.clk)
    await m.write(3, b"test")
    assert (await m.read(3, 4)).data == b"test"
""" + MAIN('{k.replace("s_", "s__"): v for k, v in kit.axi("s").items()}'))

seed("stream-lanes-rounded", "C40",
     {"axis.py": [("""        if self.byte_lanes * self.byte_size != self.width:
""", """        if not 0 < self.byte_lanes * self.byte_size <= self.width:
""")]},
     "an AXI stream bus whose data width is no multiple of its number of byte lanes",
     "the model is accepted and the topmost data bits are never used",
     HEAD + """
from cocotbext.axi import AxiStreamBus, AxiStreamSource

@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    try:
        AxiStreamSource(AxiStreamBus.from_prefix(dut, "s"), dut.clk, byte_lanes=3)
    except ValueError:
        return
    assert False
""" + MAIN('{"s_tdata": 32, "s_tvalid": 1, "s_tready": 1, "s_tlast": 1}'))

seed("id-width-one-side", "C40",
     {"axi_master.py": [("        assert len(self.r_channel.bus.rid) == len(self.ar_channel.bus.arid)\n",
                         "        assert len(self.r_channel.bus.rid) <= len(self.ar_channel.bus.arid)\n")]},
     "a design whose RID is narrower than its ARID",
     "the master is constructed on the inconsistent bus, and IDs that do not fit never come back",
     HEAD + """
from cocotbext.axi import AxiReadBus, AxiMasterRead

@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    try:
        AxiMasterRead(AxiReadBus.from_prefix(dut, "s"), dut.clk)
    except Exception:
        return
    assert False
""" + MAIN('{**kit.axi("s"), "s_rid": 3}'))

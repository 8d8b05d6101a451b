"""Planted bugs, sixth batch: assert_reset(), and second bugs for several properties."""
from defs1 import AXI, MAIN, SLAVE
from defs2 import APB, AXIL, AXIS
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("reset-sources-cancel", "C41",
     {"reset.py": [("new_state = self._local_reset or self._ext_reset\n", "new_state = self._local_reset != self._ext_reset\n")]},
     "assert_reset(True) while the reset signal is asserted (or the other way round)",
     "the two requests cancel each other and the model runs while both ask for reset",
     AXIS + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    k = AxiStreamSink(bus(AxiStreamBus, dut), dut.clk, dut.rst)
    await RisingEdge(dut.clk)
    for order in range(3):
        for _ in range(4):
            await RisingEdge(dut.clk)
        assert int(dut.s_tready.value)
        for w in ([0, 1], [1, 0], [0, 1, 1])[order]:
            if w:
                k.assert_reset(True)
            else:
                dut.rst.value = 1
            for _ in range(4):
                await RisingEdge(dut.clk)
            assert not int(dut.s_tready.value)
        k.assert_reset(False)
        dut.rst.value = 0
""" + MAIN('kit.axis("s")'))

seed("reset-call-ends-signal", "C41",
     {"reset.py": [("            self._local_reset = bool(val)\n", "            self._local_reset = self._ext_reset = bool(val)\n")]},
     "assert_reset(False) while the reset signal is asserted",
     "the call also ends the reset requested by the signal",
     APB + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    dut.s_pready.value = 1
    m = ApbMaster(bus(ApbBus, dut), dut.clk, dut.rst)
    await RisingEdge(dut.clk)
    for local in (False, True):
        m.assert_reset(True)
        if not local:
            dut.rst.value = 1
        for _ in range(3):
            await RisingEdge(dut.clk)
        m.assert_reset(False)
        ev = m.init_write(0, b"test")
        for _ in range(10):
            await RisingEdge(dut.clk)
            assert local or not int(dut.s_psel.value)
        dut.rst.value = 0
        for _ in range(10):
            await RisingEdge(dut.clk)
        assert ev.is_set() and ev.data is not None
""" + MAIN('kit.apb("s")'))

seed("reset-pulse-once", "C41",
     {"reset.py": [("""            self.assert_reset(True)
            self.assert_reset(False)
""", """            # pulse
            self._reset_state = False
            self._local_reset = True
            self._update_reset()
            self._local_reset = False
            self._reset_state = False
            self._handle_reset(False)
""")]},
     "assert_reset() without argument while the reset signal is asserted",
     "the pulse takes the model out of the reset that the signal still asks for",
     AXIS + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = AxiStreamSource(bus(AxiStreamBus, dut), dut.clk, dut.rst)
    k = AxiStreamSink(bus(AxiStreamBus, dut), dut.clk, dut.rst)
    await RisingEdge(dut.clk)
    for x in (s, k):
        x.assert_reset()
    await s.send(b"abcdefgh")
    assert (await k.recv()).tdata == b"abcdefgh"
    await RisingEdge(dut.clk)
    dut.rst.value = 1
    for _ in range(3):
        await RisingEdge(dut.clk)
    await s.send(b"abcdefgh")
    for x in (s, k):
        x.assert_reset()
    for _ in range(6):
        await RisingEdge(dut.clk)
        assert not int(dut.s_tvalid.value) and not int(dut.s_tready.value)
    dut.rst.value = 0
    assert (await k.recv()).tdata == b"abcdefgh"
""" + MAIN('kit.axis("s")'))

seed("axim-read-contiguous", "C05",
     {"axi_master.py": [("""    async def _process_read_resp(self):
        while True:
            r = await self.r_channel.recv()

            rid = int(getattr(r, 'rid', 0))

            assert self.active_id[rid] > 0, "unexpected burst ID"

            self.tag_context_manager.put_resp(rid, r)
""", """    async def _process_read_resp(self):
        rid = None

        while True:
            r = await self.r_channel.recv()

            if rid is None:
                rid = int(getattr(r, 'rid', 0))

            assert self.active_id[rid] > 0, "unexpected burst ID"

            self.tag_context_manager.put_resp(rid, r)

            if int(r.rlast):
                rid = None
""")]},
     "a slave that interleaves the beats of read bursts with different IDs",
     "beats are given to the operation whose burst began first",
     AXI + SLAVE + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = Slave(dut)
    m = AxiMaster(bus(AxiBus, dut), dut.clk)
    await RisingEdge(dut.clk)
    a = m.init_read(0, 8, arid=1)
    b = m.init_read(64, 8, arid=2)
    while len(s.ar) < 2:
        await RisingEdge(dut.clk)
    for i, d, l in ((1, 0x11, 0), (2, 0x21, 0), (2, 0x22, 1), (1, 0x12, 1)):
        await s.beat("r", rid=i, rdata=d, rlast=l, rresp=0)
    for _ in range(4):
        await RisingEdge(dut.clk)
    assert a.data.data[::4] == b"\\x11\\x12"
    assert b.data.data[::4] == b"\\x21\\x22"
""" + MAIN('kit.axi("s")'))

seed("axim-wuser-restarts", "C04",
     {"axi_master.py": [("""                    if wuser and k < len(wuser):
                        w.wuser = wuser[k]
""", """                    if wuser and n <= len(wuser):
                        w.wuser = wuser[n-1]
""")]},
     "a write of more than one burst with a list of wuser values",
     "the list starts again with every burst",
     AXI + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = AxiMaster(bus(AxiBus, dut), dut.clk, max_burst_len=4)
    r = AxiRam(bus(AxiBus, dut), dut.clk, size=4096)
    await RisingEdge(dut.clk)
    got = []

    async def watch():
        while True:
            await RisingEdge(dut.clk)
            if int(dut.s_wvalid.value) and int(dut.s_wready.value):
                got.append(int(dut.s_wuser.value))
    cocotb.start_soon(watch())
    for n in (4, 16, 40):
        got.clear()
        await m.write(0, bytes(n), wuser=list(range(1, 9)))
        assert got == [i + 1 if i < 8 else 0 for i in range(n // 4)], got
""" + MAIN('{**kit.axi("s"), "s_wuser": 8}'))

seed("axim-ruser-nonzero", "C06",
     {"axi_master.py": [("""                if cycle_user is not None:
                    user.append(cycle_user)
""", """                if cycle_user:
                    user.append(cycle_user)
""")]},
     "ruser values of 0 among other values",
     "the values of beats with ruser 0 are left out, so the list does not match the beats",
     AXI + SLAVE + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = Slave(dut)
    m = AxiMaster(bus(AxiBus, dut), dut.clk)
    await RisingEdge(dut.clk)
    a = m.init_read(0, 16, arid=1)
    while len(s.ar) < 1:
        await RisingEdge(dut.clk)
    for k, u in enumerate((3, 0, 7, 0)):
        await s.beat("r", rid=1, rdata=k, rlast=int(k == 3), rresp=0, ruser=u)
    for _ in range(4):
        await RisingEdge(dut.clk)
    assert a.data.user == [3, 0, 7, 0], a.data
""" + MAIN('{**kit.axi("s"), "s_ruser": 8}'))

seed("axil-first-error-only", "C06",
     {"axil_master.py": [("""                if cycle_resp != AxiResp.OKAY:
                    resp = cycle_resp
""", """                if cycle_resp != AxiResp.OKAY:
                    resp = cycle_resp
                elif k == cmd.cycles-1:
                    resp = cycle_resp
""", 1)]},
     "a read of several words in which only the last one succeeds",
     "the operation reports OKAY although transfers failed",
     AXIL + """
@cocotb.test(timeout_time=200, timeout_unit="us")
async def t(dut):
    await start(dut)
    a = AddressSpace(2**32)
    a.register_region(MemoryRegion(0x1000), 0x1000)
    m = AxiLiteMaster(bus(AxiLiteBus, dut), dut.clk)
    s = AxiLiteSlave(bus(AxiLiteBus, dut), dut.clk, target=a)
    await RisingEdge(dut.clk)
    assert (await m.read(0x1000, 64)).resp == AxiResp.OKAY
    assert (await m.read(0xff0, 64)).resp == AxiResp.SLVERR
    assert (await m.read(0x1ff0, 64)).resp == AxiResp.SLVERR
""" + MAIN('kit.axil("s")'))

seed("stream-sink-late-pause", "C18",
     {"stream.py": [("                if (not valid_sample or paused) and (pause_sample == bool(self.pause)):\n",
                     "                if not valid_sample or paused:\n")]},
     "a sink whose pause is lifted within the clock period after the edge that looked at it",
     "the sink goes to sleep after the wake-up has happened and never accepts anything again",
     AXIL + """
@cocotb.test(timeout_time=20, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = AxiLiteMaster(bus(AxiLiteBus, dut), dut.clk)
    r = AxiLiteRam(bus(AxiLiteBus, dut), dut.clk, size=4096)
    await RisingEdge(dut.clk)
    w = r.write_if.w_channel
    for gap in (1, 3, 7):
        w.pause = True
        for _ in range(3):
            await RisingEdge(dut.clk)
        ev = m.init_write(0, b"abcd")
        for _ in range(5):
            await RisingEdge(dut.clk)
        await Timer(1, "ns")
        w.pause = False
        w.pause = True
        await Timer(gap, "ns")
        w.pause = False
        await ev.wait()
""" + MAIN('kit.axil("s")'))

seed("axis-idle-between-beats", "C29",
     {"axis.py": [("""            else:
                self.active = bool(frame)

                self.wake_event.clear()
""", """            else:
                self.active = False

                self.wake_event.clear()
""")]},
     "a gap between the beats of a frame on the way to a monitor",
     "the monitor is idle() in the middle of the frame",
     AXIS + """
@cocotb.test(timeout_time=20, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = AxiStreamSource(bus(AxiStreamBus, dut), dut.clk)
    k = AxiStreamSink(bus(AxiStreamBus, dut), dut.clk)
    n = AxiStreamMonitor(bus(AxiStreamBus, dut), dut.clk)
    await RisingEdge(dut.clk)
    await s.send(bytes(40))
    for _ in range(5):
        await RisingEdge(dut.clk)
    s.pause = True
    for _ in range(4):
        await RisingEdge(dut.clk)
    assert not n.idle() and n.empty()
    s.pause = False
    await n.recv()
    for _ in range(4):
        await RisingEdge(dut.clk)
    assert n.idle()
""" + MAIN('kit.axis("s")'))

seed("sparse-long-write-end", "C35",
     {"sparse_memory.py": [("        if address+len(data) > self.size:\n", "        if address+min(len(data), 4096) > self.size:\n")]},
     "a write of more than one page that passes the end of the memory",
     "the write is accepted and the rest is stored outside of the memory",
     """
import sys
from cocotbext.axi import SparseMemoryRegion
from cocotbext.axi.sparse_memory import SparseMemory
for size in (2**20, 2**64):
    m = SparseMemory(size)
    m.write(size - 5000, bytes([1]) * 5000)
    for a, n in ((size - 5000, 5001), (size - 4096, 4097), (size - 1, 2), (size, 1)):
        try:
            m.write(a, bytes([2]) * n)
        except ValueError:
            pass
        else:
            sys.exit(1)
        assert m.read(size - 5000, 5000) == bytes([1]) * 5000
""")

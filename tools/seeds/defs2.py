"""Planted bugs, second batch: AXI-Lite, APB and streams."""
from defs1 import HEAD, MAIN

AXIL = HEAD + "from cocotbext.axi import AxiLiteBus, AxiLiteMaster, AxiLiteRam, AxiLiteSlave, AxiResp, AddressSpace, MemoryRegion, Region\n"
APB = HEAD + "from cocotbext.axi import ApbBus, ApbMaster, ApbRam, ApbSlave, AxiProt, AxiResp, AddressSpace, MemoryRegion, Region\n"
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("axil-long-write-prot", "C11",
     {"axil_master.py": [("""                if k == 0:
                    aw.awaddr = cmd.address
                else:
                    aw.awaddr = word_addr + k*self.byte_lanes
                aw.awprot = cmd.prot
""", """                if k == 0:
                    aw.awaddr = cmd.address
                    aw.awprot = cmd.prot
                else:
                    aw.awaddr = word_addr + k*self.byte_lanes
""")]},
     "a write of more than one word with a prot value other than 0",
     "only the first transfer of the operation carries the requested prot value",
     AXIL + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = AxiLiteMaster(bus(AxiLiteBus, dut), dut.clk)
    r = AxiLiteRam(bus(AxiLiteBus, dut), dut.clk, size=4096)
    got = []

    async def watch():
        while True:
            await RisingEdge(dut.clk)
            if int(dut.s_awvalid.value) and int(dut.s_awready.value):
                got.append(int(dut.s_awprot.value))
    cocotb.start_soon(watch())
    await RisingEdge(dut.clk)
    await m.write(0x21, bytes(range(30)), prot=5)
    assert got == [5] * 8, got
""" + MAIN('kit.axil("s")'))

seed("axils-early-b", "C12",
     {"axil_slave.py": [("""            # perform writes
            try:
                for addr, data in write_ops:
                    await self._write(addr, data)
            except Exception:
                self.log.warning("Write operation failed")
                b.bresp = AxiResp.SLVERR

            await self.b_channel.send(b)
""", """            # perform writes
            try:
                for n, (addr, data) in enumerate(write_ops):
                    if n == len(write_ops)-1 and n > 0:
                        # the response becomes visible one cycle later
                        await self.b_channel.send(b)
                        b = None
                    await self._write(addr, data)
            except Exception:
                self.log.warning("Write operation failed")
                if b is not None:
                    b.bresp = AxiResp.SLVERR

            if b is not None:
                await self.b_channel.send(b)
""")]},
     "a write with a gap in its strobes to a target that takes time (or fails) for the last run of bytes",
     "B is sent before all bytes were written",
     AXIL + """
class Slow(Region):
    def __init__(self, clk):
        super().__init__(4096)
        self.clk, self.done = clk, []

    async def _write(self, address, data, **kw):
        for _ in range(5):
            await RisingEdge(self.clk)
        self.done.append((address, bytes(data)))


@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    tgt = Slow(dut.clk)
    s = AxiLiteSlave(bus(AxiLiteBus, dut), dut.clk, target=tgt)
    dut.s_bready.value = 1
    dut.s_awaddr.value, dut.s_wdata.value, dut.s_wstrb.value = 0x10, 0x44332211, 0b1101
    dut.s_awvalid.value = dut.s_wvalid.value = 1
    a = w = False
    for _ in range(60):
        await RisingEdge(dut.clk)
        if int(dut.s_awready.value) and not a:
            dut.s_awvalid.value, a = 0, True
        if int(dut.s_wready.value) and not w:
            dut.s_wvalid.value, w = 0, True
        if int(dut.s_bvalid.value):
            assert tgt.done == [(0x10, b"\\x11"), (0x12, b"\\x33\\x44")], tgt.done
            return
    assert False, "no response"
""" + MAIN('kit.axil("s")'))

seed("axils-reset-stale-read", "C23",
     {"axil_slave.py": [("            self.ar_channel.clear()\n            self.r_channel.clear()\n", "            self.ar_channel.clear()\n            self.r_channel.dequeue_event.set()\n")]},
     "reset while read responses are queued behind a stalled R channel",
     "responses from before the reset are sent after it, all later reads are off",
     AXIL + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    r = AxiLiteRam(bus(AxiLiteBus, dut), dut.clk, dut.rst, size=4096)
    r.write(0, bytes(range(1, 200)))
    dut.s_araddr.value, dut.s_arvalid.value = 0x10, 1
    for _ in range(20):
        await RisingEdge(dut.clk)
    dut.s_arvalid.value = 0
    dut.rst.value = 1
    for _ in range(3):
        await RisingEdge(dut.clk)
    dut.rst.value = 0
    dut.s_rready.value = 1
    for _ in range(10):
        await RisingEdge(dut.clk)
        assert not int(dut.s_rvalid.value), "response without request"
    dut.s_araddr.value, dut.s_arvalid.value = 0x40, 1
    while True:
        await RisingEdge(dut.clk)
        if int(dut.s_arready.value):
            break
    dut.s_arvalid.value = 0
    while True:
        await RisingEdge(dut.clk)
        if int(dut.s_rvalid.value):
            break
    assert int(dut.s_rdata.value) == int.from_bytes(r.read(0x40, 4), "little")
""" + MAIN('kit.axil("s")'))

seed("apbm-pause-per-command", "C13",
     {"apb.py": [("""                while self.pause:
                    await clock_edge_event

                if k == 0:
                    self.bus.paddr.value = cmd.address
""", """                if k == 0:
                    while self.pause:
                        await clock_edge_event

                if k == 0:
                    self.bus.paddr.value = cmd.address
""")]},
     "pausing the master in the middle of an operation of several words",
     "a paused master goes on starting transfers",
     APB + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = ApbMaster(bus(ApbBus, dut), dut.clk)
    r = ApbRam(bus(ApbBus, dut), dut.clk, size=4096)
    await RisingEdge(dut.clk)
    e = m.init_write(0, bytes(range(64)))
    n = 0
    for c in range(12):
        await RisingEdge(dut.clk)
    m.pause = True
    for c in range(6):
        await RisingEdge(dut.clk)
    for c in range(30):
        await RisingEdge(dut.clk)
        assert not int(dut.s_psel.value), "transfer while paused"
    m.pause = False
    await e.wait()
    assert r.read(0, 64) == bytes(range(64))
""" + MAIN('kit.apb("s")'))

seed("apbm-stale-prot", "C14",
     {"apb.py": [("                if self.pprot_present:\n                    self.bus.pprot.value = cmd.prot\n",
                  "                if self.pprot_present and (k == 0 or not pwrite) and cmd.prot:\n                    self.bus.pprot.value = cmd.prot\n")]},
     "an operation with prot 0 after one with another prot value",
     "the transfer carries the prot value of an earlier operation",
     APB + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = ApbMaster(bus(ApbBus, dut), dut.clk)
    r = ApbRam(bus(ApbBus, dut), dut.clk, size=4096)
    got = []

    async def watch():
        while True:
            await RisingEdge(dut.clk)
            if int(dut.s_psel.value) and int(dut.s_penable.value) and int(dut.s_pready.value):
                got.append(int(dut.s_pprot.value))
    cocotb.start_soon(watch())
    await RisingEdge(dut.clk)
    for p in (2, 5, 0, 7, 0):
        await m.write(0x20, b"1234", prot=AxiProt(p))
    assert got == [2, 5, 0, 7, 0], got
""" + MAIN('kit.apb("s")'))

seed("apbs-sticky-error", "C10",
     {"apb.py": [("            if self.pslverr_present:\n                self.bus.pslverr.value = pslverr\n",
                  "            if self.pslverr_present and (pslverr or int(self.bus.pwrite.value)):\n                self.bus.pslverr.value = pslverr\n")]},
     "a successful read right after a failing transfer, with no write in between",
     "the error is reported again for a transfer that worked",
     APB + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    a = AddressSpace(2**32)
    a.register_region(MemoryRegion(0x1000), 0x1000)
    m = ApbMaster(bus(ApbBus, dut), dut.clk)
    s = ApbSlave(bus(ApbBus, dut), dut.clk, target=a)
    await RisingEdge(dut.clk)
    assert (await m.read(0x1000, 4)).resp == AxiResp.OKAY
    assert (await m.read(0x0, 4)).resp == AxiResp.SLVERR
    assert (await m.read(0x1000, 4)).resp == AxiResp.OKAY
""" + MAIN('kit.apb("s")'))

seed("apbs-pause-address", "C15",
     {"apb.py": [("""            if not int(self.bus.psel.value):
                continue

            addr = (int(self.bus.paddr.value) // self.byte_lanes) * self.byte_lanes
""", """            if not int(self.bus.psel.value):
                continue

            # RAM accesses are word aligned
            addr = int(self.bus.paddr.value) & ~(min(self.byte_lanes, 4)-1)
""")]},
     "an unaligned address on a bus of 64 bits or more",
     "the access goes to a word that starts in the middle of the addressed one",
     APB + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = ApbMaster(bus(ApbBus, dut), dut.clk)
    r = ApbRam(bus(ApbBus, dut), dut.clk, size=4096)
    await RisingEdge(dut.clk)
    r.write(0, bytes(range(64)))
    assert (await m.read(0x14, 3)).data == bytes(range(0x14, 0x17))
    await m.write(0x25, b"abc")
    assert r.read(0x20, 16) == bytes([0x20, 0x21, 0x22, 0x23, 0x24]) + b"abc" + bytes(range(0x28, 0x30))
""" + MAIN('kit.apb("s", dw=64)'))

STREAM = HEAD + """
from cocotb.queue import QueueFull
from cocotbext.axi.stream import define_stream
Bus, Trans, Source, Sink, Monitor = define_stream("Demo", signals=["data", "valid", "ready"])

"""
SSIG = '{"s_data": 16, "s_valid": 1, "s_ready": 1}'

seed("stream-clear-drops-valid", "C16",
     {"stream.py": [("""        self.dequeue_event.set()
        if not self.active:
            self.idle_event.set()
        self.active_event.clear()
        self.wake_event.set()
""", """        if self._valid_init is not None and self.valid is not None:
            # nothing left to send
            self.valid.value = self._valid_init
        self.dequeue_event.set()
        if not self.active:
            self.idle_event.set()
        self.active_event.clear()
        self.wake_event.set()
""")]},
     "clear() on a source while a transfer is stalled on the bus",
     "VALID is withdrawn before READY",
     STREAM + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = Source(Bus.from_prefix(dut, "s"), dut.clk)
    for k in range(3):
        s.send_nowait(Trans(data=100 + k))
    for _ in range(4):
        await RisingEdge(dut.clk)
    assert int(dut.s_valid.value) == 1
    s.clear()
    for _ in range(4):
        await RisingEdge(dut.clk)
        assert int(dut.s_valid.value) == 1 and int(dut.s_data.value) == 100
    dut.s_ready.value = 1
    await RisingEdge(dut.clk)
    await RisingEdge(dut.clk)
    await ReadOnly()
    assert int(dut.s_valid.value) == 0
""" + MAIN(SSIG))

seed("stream-two-senders", "C17",
     {"stream.py": [("""        while self.full():
            self.dequeue_event.clear()
            await self.dequeue_event.wait()
        await self.queue.put(obj)
""", """        if self.full():
            self.dequeue_event.clear()
            await self.dequeue_event.wait()
        await self.queue.put(obj)
""")]},
     "two or more tasks waiting in send() for room in the queue",
     "all waiting senders go ahead when one item leaves, the queue exceeds its limit",
     STREAM + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = Source(Bus.from_prefix(dut, "s"), dut.clk)
    s.queue_occupancy_limit = 2

    async def one(k):
        await s.send(Trans(data=k))
    ts = [cocotb.start_soon(one(k)) for k in range(8)]
    for c in range(200):
        dut.s_ready.value = int(c % 5 == 0)
        await RisingEdge(dut.clk)
        await ReadOnly()
        assert s.count() <= 2, s.count()
        await Timer(1, "ns")
    assert all(x.done() for x in ts)
""" + MAIN(SSIG))

seed("stream-pause-generators", "C18",
     {"stream.py": [("""        if self._pause_cr is not None:
            self._pause_cr.kill()
            self._pause_cr = None

        self._pause_generator = generator
""", """        if self._pause_cr is not None and generator is None:
            self._pause_cr.kill()
            self._pause_cr = None

        self._pause_generator = generator
""")]},
     "replacing a pause generator by another one and removing it later",
     "the replaced generator keeps pausing the stream, even after clear_pause_generator()",
     STREAM + """
import itertools


@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = Source(Bus.from_prefix(dut, "s"), dut.clk)
    dut.s_ready.value = 1
    await RisingEdge(dut.clk)
    s.set_pause_generator(itertools.cycle([1, 1, 1, 0]))
    for _ in range(5):
        await RisingEdge(dut.clk)
    s.set_pause_generator(itertools.cycle([0]))
    for _ in range(5):
        await RisingEdge(dut.clk)
    s.clear_pause_generator()
    s.pause = False
    for k in range(40):
        await RisingEdge(dut.clk)
        assert not s.pause
""" + MAIN(SSIG))

AXIS = HEAD + "from cocotbext.axi import AxiStreamBus, AxiStreamSource, AxiStreamSink, AxiStreamMonitor, AxiStreamFrame\n"
XSIG = 'kit.axis("s")'
BEAT = """
async def beat(dut, data, keep=15, last=0, tid=0, tdest=0, tuser=0):
    dut.s_tdata.value, dut.s_tkeep.value, dut.s_tlast.value = data, keep, last
    dut.s_tid.value, dut.s_tdest.value, dut.s_tuser.value, dut.s_tvalid.value = tid, tdest, tuser, 1
    while True:
        await RisingEdge(dut.clk)
        if int(dut.s_tready.value):
            break
    dut.s_tvalid.value = 0

"""

seed("axis-reset-clears-queue", "C24",
     {"axis.py": [("""            self.active = False

            if self.queue.empty():
                self.idle_event.set()
""", """            self.active = False

            if self.queue.empty() or self.current_frame:
                # everything is abandoned
                self.clear()
""")]},
     "reset while a frame is in progress and others are queued behind it",
     "the queued frames are dropped",
     AXIS + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = AxiStreamSource(bus(AxiStreamBus, dut), dut.clk, dut.rst)
    k = AxiStreamSink(bus(AxiStreamBus, dut), dut.clk)
    await RisingEdge(dut.clk)
    for n in range(4):
        s.send_nowait(AxiStreamFrame(bytes([n]) * 40))
    k.pause = True
    for _ in range(6):
        await RisingEdge(dut.clk)
    dut.rst.value = 1
    for _ in range(3):
        await RisingEdge(dut.clk)
    dut.rst.value = 0
    k2 = k
    k.pause = False
    got = []
    for n in range(3):
        f = await k.recv()
        got.append(f.tdata[-40:])
    assert got == [bytes([n]) * 40 for n in (1, 2, 3)], got
""" + MAIN(XSIG))

seed("axis-tuser-of-frame", "C26",
     {"axis.py": [("                        tid_val = frame.tid[frame_offset]\n                        tdest_val = frame.tdest[frame_offset]\n",
                   "                        if frame.tkeep[frame_offset] or not offset:\n                            tid_val = frame.tid[frame_offset]\n                            tdest_val = frame.tdest[frame_offset]\n")]},
     "a frame with tkeep 0 on the last byte of a beat and different tid or tdest values within that beat",
     "tid and tdest are those of another byte of the beat",
     AXIS + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = AxiStreamSource(bus(AxiStreamBus, dut), dut.clk)
    dut.s_tready.value = 1
    await RisingEdge(dut.clk)
    s.send_nowait(AxiStreamFrame(bytes(range(8)), tkeep=[1, 1, 1, 0, 1, 1, 1, 1], tid=[1, 2, 3, 4, 5, 6, 7, 8], tdest=list(range(11, 19))))
    got = []
    for _ in range(10):
        await RisingEdge(dut.clk)
        if int(dut.s_tvalid.value):
            got.append((int(dut.s_tkeep.value), int(dut.s_tid.value), int(dut.s_tdest.value)))
    assert got == [(7, 4, 14), (15, 8, 18)], got
""" + MAIN(XSIG))

seed("axis-null-beat", "C27",
     {"axis.py": [("""            if tready_sample and tvalid_sample:
                if not frame:
                    if self.byte_size == 8:
                        frame = AxiStreamFrame(bytearray(), [], [], [], [])
""", """            if tready_sample and tvalid_sample:
                if has_tkeep and not int(self.bus.tkeep.value) and frame and not (has_tlast and frame.tdata[-1] == 0):
                    # null beat, carries nothing
                    continue
                if not frame:
                    if self.byte_size == 8:
                        frame = AxiStreamFrame(bytearray(), [], [], [], [])
""", 0)]},
     "a beat without any tkeep bit that ends a frame, seen by a monitor",
     "the end of the frame is missed, two frames are merged",
     AXIS + BEAT + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = AxiStreamMonitor(bus(AxiStreamBus, dut), dut.clk)
    k = AxiStreamSink(bus(AxiStreamBus, dut), dut.clk)
    await RisingEdge(dut.clk)
    await beat(dut, 0x04030201, 15, 0)
    await beat(dut, 0x08070605, 15, 0)
    await beat(dut, 0, 0, 1)
    await beat(dut, 0x0c0b0a09, 15, 1)
    for _ in range(4):
        await RisingEdge(dut.clk)
    for x in (m, k):
        got = []
        while not x.empty():
            got.append(bytes(x.recv_nowait()))
        assert got == [bytes(range(1, 9)), bytes(range(9, 13))], got
""" + MAIN(XSIG))

seed("axis-occupancy-compacted", "C28",
     {"axis.py": [("""        self.queue_occupancy_bytes -= len(frame)
        self.queue_occupancy_frames -= 1
        self._dequeue(frame)
        if compact:
            frame.compact()
        return frame
""", """        if compact:
            frame.compact()
        self.queue_occupancy_bytes -= len(frame)
        self.queue_occupancy_frames -= 1
        self._dequeue(frame)
        return frame
""")]},
     "receiving frames whose length is not a multiple of the bus width, with a byte limit on the sink",
     "the bytes of removed tkeep=0 lanes stay in the occupancy for ever, a sink with a byte limit eventually blocks",
     AXIS + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = AxiStreamSource(bus(AxiStreamBus, dut), dut.clk)
    k = AxiStreamSink(bus(AxiStreamBus, dut), dut.clk)
    k.queue_occupancy_limit_bytes = 16
    await RisingEdge(dut.clk)
    for n in range(20):
        await s.send(AxiStreamFrame(bytes([n]) * 5))
        f = await k.recv()
        assert f.tdata == bytes([n]) * 5
        assert k.queue_occupancy_bytes == 0, k.queue_occupancy_bytes
""" + MAIN(XSIG))

seed("axis-clear-completion", "C29",
     {"axis.py": [("""            frame = self.queue.get_nowait()
            frame.sim_time_end = None
            frame.handle_tx_complete()
        self.dequeue_event.set()
""", """            frame = self.queue.get_nowait()
            frame.sim_time_end = None
            if self.active:
                frame.handle_tx_complete()
        self.dequeue_event.set()
""")]},
     "clear() on a source whose queue is filled but which has not started to send (paused or in the same time step)",
     "the completion event of a flushed frame never fires",
     AXIS + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = AxiStreamSource(bus(AxiStreamBus, dut), dut.clk)
    await RisingEdge(dut.clk)
    evs = [Event() for _ in range(3)]
    for e in evs:
        s.send_nowait(AxiStreamFrame(b"abcdef", tx_complete=e))
    s.clear()
    await RisingEdge(dut.clk)
    assert all(e.is_set() for e in evs)
    assert all(e.data.sim_time_end is None for e in evs)
""" + MAIN(XSIG))

seed("axis-read-zero", "C31",
     {"axis.py": [("        if count < 0:\n            count = len(self.read_queue)\n", "        if count <= 0 or count > len(self.read_queue):\n            count = len(self.read_queue)\n")]},
     "read_nowait(0) while data is available",
     "all bytes are returned instead of none",
     AXIS + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = AxiStreamSource(bus(AxiStreamBus, dut), dut.clk)
    k = AxiStreamSink(bus(AxiStreamBus, dut), dut.clk)
    await s.write(b"0123456789")
    for _ in range(10):
        await RisingEdge(dut.clk)
    assert bytes(k.read_nowait(3)) == b"012"
    assert bytes(k.read_nowait(0)) == b""
    assert bytes(k.read_nowait(4)) == b"3456"
    assert bytes(k.read_nowait()) == b"789"
""" + MAIN(XSIG))

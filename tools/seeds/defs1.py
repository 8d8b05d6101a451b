"""Planted bugs, first batch: AXI masters and slaves."""

HEAD = """
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer, Event, ReadOnly
import kit


async def start(dut):
    cocotb.start_soon(Clock(dut.clk, 10, units="ns").start())
    for _ in range(4):
        await RisingEdge(dut.clk)


def bus(cls, dut, p="s"):
    return cls.from_prefix(dut, p)

"""

# a minimal slave for the masters: accepts everything, answers from queues under control of the demo
SLAVE = """
class Slave:
    # accepts commands and data always, the demo decides about responses
    def __init__(self, dut):
        self.dut, self.aw, self.w, self.ar = dut, [], [], []
        dut.s_awready.value = dut.s_wready.value = dut.s_arready.value = 1
        cocotb.start_soon(self.watch())

    async def watch(self):
        d = self.dut
        while True:
            await RisingEdge(d.clk)
            if int(d.s_awvalid.value) and int(d.s_awready.value):
                self.aw.append((int(d.s_awid.value), int(d.s_awaddr.value), int(d.s_awlen.value), int(d.s_awsize.value)))
            if int(d.s_wvalid.value) and int(d.s_wready.value):
                self.w.append((int(d.s_wdata.value), int(d.s_wstrb.value), int(d.s_wlast.value)))
            if int(d.s_arvalid.value) and int(d.s_arready.value):
                self.ar.append((int(d.s_arid.value), int(d.s_araddr.value), int(d.s_arlen.value), int(d.s_arsize.value)))

    async def beat(self, ch, **v):
        d = self.dut
        for k, x in v.items():
            getattr(d, "s_" + k).value = x
        getattr(d, f"s_{ch}valid").value = 1
        while True:
            await RisingEdge(d.clk)
            if int(getattr(d, f"s_{ch}ready").value):
                break
        getattr(d, f"s_{ch}valid").value = 0

"""


def MAIN(sig):
    return f"""

if __name__ == "__main__":
    kit.run({sig})
"""


AXI = HEAD + "from cocotbext.axi import AxiBus, AxiMaster, AxiRam, AxiSlave, AxiBurstType, AxiResp, AddressSpace, MemoryRegion, SparseMemoryRegion, Region\n"
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("axim-write-alias", "C01",
     {"axi_master.py": [("        data = bytes(data)\n", "        data = data if isinstance(data, (bytes, bytearray)) else bytes(data)\n", 0)]},
     "the caller reuses its bytearray between init_write() and the moment the beats are built",
     "the data on the bus is what the buffer holds later, not what was passed to init_write()",
     AXI + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = AxiMaster(bus(AxiBus, dut), dut.clk)
    r = AxiRam(bus(AxiBus, dut), dut.clk, size=4096)
    await RisingEdge(dut.clk)
    buf = bytearray(range(64))
    ev = m.init_write(0, buf)
    buf[:] = bytes(64)
    await ev.wait()
    assert r.read(0, 64) == bytes(range(64))
""" + MAIN('kit.axi("s")'))

seed("axim-4k-first-burst", "C03",
     {"axi_master.py": [("                    burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes\n",
                         "                    burst_length = (min(burst_length*num_bytes, 0x1000-((cur_addr if k == 0 else aligned_addr) & 0xfff))+num_bytes-1)//num_bytes\n", 1)]},
     "a read that needs several bursts because of max_burst_len and only reaches the 4 KiB boundary in a later burst",
     "the distance to the 4 KiB boundary is that of the first burst, so later bursts cross the boundary",
     AXI + SLAVE + """
@cocotb.test(timeout_time=1000, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = Slave(dut)
    m = AxiMaster(bus(AxiBus, dut), dut.clk, max_burst_len=16)
    await RisingEdge(dut.clk)
    for a in (0x1f00, 0x5e04, 0x7fff - 100):
        m.init_read(a, 700)
    for _ in range(400):
        await RisingEdge(dut.clk)
    assert len(s.ar) > 20
    for i, a, l, z in s.ar:
        lo = a & -(1 << z)
        assert lo // 4096 == (lo + ((l + 1) << z) - 1) // 4096, (hex(a), l, z)
""" + MAIN('kit.axi("s")'))

seed("axim-error-of-last-burst", "C06",
     {"axi_master.py": [("""        for burst_length in cmd.burst_list:
            for k in range(burst_length):
""", """        for burst_length in cmd.burst_list:
            resp = AxiResp.OKAY
            for k in range(burst_length):
"""), ("""        resp = AxiResp.OKAY
        user = []

        first = True
""", """        user = []
        resp = AxiResp.OKAY

        first = True
""")]},
     "a read of more than one burst with an error response in a burst that is not the last one",
     "the operation reports OKAY although one of its bursts failed",
     AXI + """
@cocotb.test(timeout_time=200, timeout_unit="us")
async def t(dut):
    await start(dut)
    a = AddressSpace(2**32)
    a.register_region(MemoryRegion(0x1000), 0x1000)
    m = AxiMaster(bus(AxiBus, dut), dut.clk)
    s = AxiSlave(bus(AxiBus, dut), dut.clk, target=a)
    await RisingEdge(dut.clk)
    assert (await m.read(0x1000, 64)).resp == AxiResp.OKAY
    assert (await m.read(0xff0, 64)).resp == AxiResp.SLVERR
    assert (await m.read(0x1ff0, 64)).resp == AxiResp.SLVERR
""" + MAIN('kit.axi("s")'))

BURST = """
async def hs(dut, v, r):
    while True:
        await RisingEdge(dut.clk)
        if int(getattr(dut, r).value):
            break
    getattr(dut, v).value = 0


async def wburst(dut, addr, size, burst, beats, awid=1, aw_first=True):
    dut.s_awid.value, dut.s_awaddr.value, dut.s_awlen.value = awid, addr, len(beats) - 1
    dut.s_awsize.value, dut.s_awburst.value, dut.s_awvalid.value = size, burst, 1
    await hs(dut, "s_awvalid", "s_awready")
    for k, (d, st) in enumerate(beats):
        dut.s_wdata.value, dut.s_wstrb.value, dut.s_wlast.value, dut.s_wvalid.value = d, st, int(k == len(beats) - 1), 1
        await hs(dut, "s_wvalid", "s_wready")


async def rburst(dut, addr, size, burst, n, gap=0, arid=1):
    dut.s_arid.value, dut.s_araddr.value, dut.s_arlen.value = arid, addr, n - 1
    dut.s_arsize.value, dut.s_arburst.value, dut.s_arvalid.value = size, burst, 1
    await hs(dut, "s_arvalid", "s_arready")
    out = []
    for _ in range(n):
        for _ in range(gap):
            await RisingEdge(dut.clk)
        dut.s_rready.value = 1
        while True:
            await RisingEdge(dut.clk)
            if int(dut.s_rvalid.value):
                break
        dut.s_rready.value = 0
        out.append((int(dut.s_rid.value), int(dut.s_rdata.value), int(dut.s_rlast.value), int(dut.s_rresp.value)))
    return out

"""

seed("axis-narrow-wrap", "C07",
     {"axi_slave.py": [("                lower_wrap_boundary = (addr // transfer_size) * transfer_size\n                upper_wrap_boundary = lower_wrap_boundary + transfer_size\n",
                        "                lower_wrap_boundary = (addr // (self.byte_lanes*length)) * self.byte_lanes*length\n                upper_wrap_boundary = lower_wrap_boundary + self.byte_lanes*length\n", 0)]},
     "a WRAP write burst whose beat size is smaller than the bus width",
     "the wrap boundary is that of a full width burst, so the bytes after the wrap go to the wrong addresses",
     AXI + BURST + """
@cocotb.test(timeout_time=200, timeout_unit="us")
async def t(dut):
    await start(dut)
    r = AxiRam(bus(AxiBus, dut), dut.clk, size=4096)
    dut.s_bready.value = 1
    await RisingEdge(dut.clk)
    # four beats of two bytes, wrapping at 0x18..0x20, starting at 0x1c
    beats = [(0x0000a1a0, 3), (0xa3a20000, 12), (0x0000a5a4, 3), (0xa7a60000, 12)]
    await wburst(dut, 0x1c, 1, 2, beats)
    for _ in range(10):
        await RisingEdge(dut.clk)
    assert r.read(0x18, 8) == bytes([0xa4, 0xa5, 0xa6, 0xa7, 0xa0, 0xa1, 0xa2, 0xa3]), r.read(0, 64).hex()
    assert not any(r.read(0, 0x18)) and not any(r.read(0x20, 0x40))
""" + MAIN('kit.axi("s")'))

seed("axis-read-word-reuse", "C08",
     {"axi_slave.py": [("""            cur_addr = aligned_addr

            for n in range(length):
                cur_word_addr = (cur_addr // self.byte_lanes) * self.byte_lanes

                r = self.r_channel._transaction_obj()
""", """            cur_addr = aligned_addr
            prev_word_addr = None

            for n in range(length):
                cur_word_addr = (cur_addr // self.byte_lanes) * self.byte_lanes

                r = self.r_channel._transaction_obj()
"""), ("""                try:
                    data = await self._read(cur_word_addr, self.byte_lanes)
                except Exception:
""", """                try:
                    # narrow bursts hit the same word several times
                    if cur_word_addr != prev_word_addr:
                        data = await self._read(cur_word_addr, self.byte_lanes)
                        prev_word_addr = cur_word_addr
                except Exception:
""")]},
     "a FIXED burst (or narrow beats) reading a word whose content changes while the burst is in progress",
     "beats after the first one of a word carry an old value instead of the target's current bytes",
     AXI + BURST + """
class Fifo(Region):
    def __init__(self):
        super().__init__(4096)
        self.n = 0

    async def _read(self, address, length, **kw):
        self.n += 1
        return self.n.to_bytes(length, "little")


@cocotb.test(timeout_time=200, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = AxiSlave(bus(AxiBus, dut), dut.clk, target=Fifo())
    await RisingEdge(dut.clk)
    got = await rburst(dut, 0x40, 2, 0, 6)
    assert [g[1] for g in got] == [1, 2, 3, 4, 5, 6], got
""" + MAIN('kit.axi("s")'))

seed("axis-b-object-pool", "C09",
     {"axi_slave.py": [("""    async def _process_write(self):
        while True:
            aw = await self.aw_channel.recv()
""", """    async def _process_write(self):
        # the response channel holds two responses, take turns with two objects
        b_objs = [self.b_channel._transaction_obj() for _ in range(2)]

        while True:
            aw = await self.aw_channel.recv()
"""), ("""            b = self.b_channel._transaction_obj()
            b.bid = awid
""", """            b_objs.reverse()
            b = b_objs[0]
            b.bid = awid
""")]},
     "bready low for so long that three bursts of different IDs complete",
     "responses that wait in the channel are overwritten by later ones",
     AXI + BURST + """
@cocotb.test(timeout_time=200, timeout_unit="us")
async def t(dut):
    await start(dut)
    r = AxiRam(bus(AxiBus, dut), dut.clk, size=4096)
    await RisingEdge(dut.clk)
    got = []

    async def watch():
        n = 0
        while True:
            await RisingEdge(dut.clk)
            n += 1
            if int(dut.s_bvalid.value) and int(dut.s_bready.value):
                got.append(int(dut.s_bid.value))
            dut.s_bready.value = int(n % 7 == 0)
    cocotb.start_soon(watch())
    for k in range(12):
        await wburst(dut, 16 * k, 2, 1, [(k, 15)], awid=k)
    for _ in range(150):
        await RisingEdge(dut.clk)
    assert got == list(range(12)), got
""" + MAIN('kit.axi("s")'))

seed("axis-read-failure-type", "C10",
     {"axi_slave.py": [("                except Exception:\n                    self.log.warning(\"Read operation failed\")\n",
                        "                except (ValueError, IndexError, KeyError, NotImplementedError):\n                    self.log.warning(\"Read operation failed\")\n")]},
     "a target that fails a read with another kind of exception, such as the plain Exception of an unmapped address",
     "the read process of the slave dies, the burst is never answered",
     AXI + BURST + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    a = AddressSpace(2**32)
    a.register_region(MemoryRegion(0x1000), 0x1000)
    s = AxiSlave(bus(AxiBus, dut), dut.clk, target=a)
    await RisingEdge(dut.clk)
    got = await rburst(dut, 0x0ff0, 2, 1, 4)
    assert [g[3] for g in got] == [2, 2, 2, 2], got
    got = await rburst(dut, 0x1000, 2, 1, 4)
    assert [g[3] for g in got] == [0, 0, 0, 0], got
""" + MAIN('kit.axi("s")'))

seed("axim-wait-zero-length", "C20",
     {"axi_master.py": [("""        cmd.event.set(read_resp)

        self.in_flight_operations -= 1

        if self.in_flight_operations == 0:
            self._idle.set()
""", """        cmd.event.set(read_resp)

        self.in_flight_operations -= 1

        if self.in_flight_operations == 0 and not self.active_id[rid] and cmd.burst_list:
            self._idle.set()
""")]},
     "wait() while the last outstanding read is one of zero bytes, which needs no burst",
     "wait() does not return although everything has completed",
     AXI + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = AxiMaster(bus(AxiBus, dut), dut.clk)
    r = AxiRam(bus(AxiBus, dut), dut.clk, size=4096)
    await RisingEdge(dut.clk)
    m.init_read(0, 16)
    m.init_read(64, 0)
    await m.wait()
    e = m.init_read(64, 0)
    await m.wait()
    assert e.is_set() and e.data.data == b""
""" + MAIN('kit.axi("s")'))

seed("axim-beat-size-check", "C21",
     {"axi_master.py": [("""        elif size > self.max_burst_size:
            raise ValueError("Requested burst size exceeds maximum burst size allowed for bus width")

        lock = AxiLockType(lock)
        prot = AxiProt(prot)

        if not self.arlock_present""", """        elif size > max(self.max_burst_size, 2):
            raise ValueError("Requested burst size exceeds maximum burst size allowed for bus width")

        lock = AxiLockType(lock)
        prot = AxiProt(prot)

        if not self.arlock_present""", 0)]},
     "a beat size of 2 or 4 bytes on a bus of 8 or 16 bits, through init_read()",
     "an illegal beat size is accepted and appears on the bus",
     AXI + SLAVE + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = Slave(dut)
    m = AxiMaster(bus(AxiBus, dut), dut.clk)
    await RisingEdge(dut.clk)
    for size in (2, 3, 7):
        try:
            m.init_read(0x10, 4, size=size)
            assert False, "accepted"
        except ValueError:
            pass
    for _ in range(20):
        await RisingEdge(dut.clk)
    assert not s.ar and m.idle()
""" + MAIN('kit.axi("s", dw=16)'))

seed("axim-flush-stale-responses", "C22",
     {"axi_master.py": [("""        while not self._resp_queue.empty():
            self._resp_queue.get_nowait()
        return flushed_cmds
""", """        if flushed_cmds:
            while not self._resp_queue.empty():
                self._resp_queue.get_nowait()
        return flushed_cmds
""")]},
     "a reset while responses have arrived for an operation whose later bursts were not issued yet",
     "responses from before the reset are used for an operation after it",
     AXI + SLAVE + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = Slave(dut)
    m = AxiMaster(bus(AxiBus, dut), dut.clk, dut.rst, max_burst_len=1)
    await RisingEdge(dut.clk)
    e1 = m.init_read(0x200, 80, arid=3)
    while len(s.ar) < 4:
        await RisingEdge(dut.clk)
    dut.s_arready.value = 0
    for k in range(2):
        await s.beat("r", rid=3, rdata=0xdead0000 + k, rlast=1)
    for _ in range(4):
        await RisingEdge(dut.clk)
    dut.rst.value = 1
    for _ in range(4):
        await RisingEdge(dut.clk)
    dut.rst.value = 0
    assert e1.is_set() and e1.data is None
    dut.s_arready.value = 1
    for _ in range(4):
        await RisingEdge(dut.clk)
    s.ar.clear()
    evs = [m.init_read(0x300, 4, arid=3), m.init_read(0x304, 4, arid=4)]
    while len(s.ar) < 2:
        await RisingEdge(dut.clk)
    for i, a, l, z in s.ar:
        await s.beat("r", rid=i, rdata=a, rlast=1)
    for e, a in zip(evs, (0x300, 0x304)):
        await e.wait()
        assert e.data.data == a.to_bytes(4, "little"), e.data
""" + MAIN('kit.axi("s")'))

seed("axiram-read-cache", "C19",
     {"axi_ram.py": [("""    async def _write(self, address, data):
        self.write(address % self.size, data)
""", """    # called when the content changes
    write_hook = None

    async def _write(self, address, data):
        self.write(address % self.size, data)
        if self.write_hook is not None:
            self.write_hook()
"""), ("""    async def _read(self, address, length):
        return self.read(address % self.size, length)
""", """    # last word read, narrow bursts read the same word over and over
    last_read = None

    def forget_last_read(self):
        self.last_read = None

    async def _read(self, address, length):
        if self.last_read is None or self.last_read[:2] != (address, length):
            self.last_read = (address, length, self.read(address % self.size, length))
        return self.last_read[2]
"""), ("""        self.read_if = AxiRamRead(bus.read, clock, reset, reset_active_level, mem=self.mem)
""", """        self.read_if = AxiRamRead(bus.read, clock, reset, reset_active_level, mem=self.mem)

        self.write_if.write_hook = self.read_if.forget_last_read

    def write(self, address, data):
        super().write(address, data)
        self.read_if.forget_last_read()
""")]},
     "two RAM ports on one memory: the same word is read twice through one port, and written through the other port in between",
     "the second read returns the old content",
     AXI + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = AxiMaster(bus(AxiBus, dut), dut.clk)
    r = AxiRam(bus(AxiBus, dut), dut.clk, size=4096)
    m2 = AxiMaster(AxiBus.from_prefix(dut, "p"), dut.clk)
    r2 = AxiRam(AxiBus.from_prefix(dut, "p"), dut.clk, size=4096, mem=r.mem)
    await RisingEdge(dut.clk)
    for k in range(1, 5):
        await m2.write(0x20, bytes([k]))
        assert (await m.read(0x20, 1)).data == bytes([k])
        assert (await m2.read(0x20, 1)).data == bytes([k])
""" + MAIN('kit.axi("s") | kit.axi("p")'))

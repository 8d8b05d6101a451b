"""Planted bugs, fourth batch."""
from defs1 import AXI, MAIN
from defs2 import AXIL, AXIS
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("axim-read-nothing", "C02",
     {"axi_master.py": [("        data = data[:cmd.length]\n", "        data = data[:cmd.length or None]\n")]},
     "a read of zero bytes at an address that is not aligned to the beat size",
     "the bytes of the single beat are returned instead of nothing",
     AXI + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = AxiMaster(bus(AxiBus, dut), dut.clk)
    r = AxiRam(bus(AxiBus, dut), dut.clk, size=4096)
    r.write(0, bytes(range(64)))
    await RisingEdge(dut.clk)
    for a, n in ((4, 0), (5, 0), (5, 3), (6, 0), (4, 0)):
        assert (await m.read(a, n)).data == bytes(range(a, a + n))
""" + MAIN('kit.axi("s")'))

seed("axim-init-read-swap", "C04",
     {"axi_master.py": [("        return self.read_if.init_read(address, length, arid, burst, size, lock, cache, prot, qos, region, user, event)\n",
                         "        return self.read_if.init_read(address, length, arid, burst, size, lock, cache, prot, region, qos, user, event)\n")]},
     "init_read() of the combined master with different qos and region values",
     "ARQOS and ARREGION are exchanged",
     AXI + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = AxiMaster(bus(AxiBus, dut), dut.clk)
    r = AxiRam(bus(AxiBus, dut), dut.clk, size=4096)
    await RisingEdge(dut.clk)
    for k in range(2):
        if k:
            ev = m.init_read(16, 4, qos=3, region=9)
        else:
            cocotb.start_soon(m.read(16, 4, qos=3, region=9))
        while True:
            await RisingEdge(dut.clk)
            if int(dut.s_arvalid.value) and int(dut.s_arready.value):
                break
        assert (int(dut.s_arqos.value), int(dut.s_arregion.value)) == (3, 9)
""" + MAIN('kit.axi("s")'))

seed("axis-send-alias", "C25",
     {"axis.py": [("""            await self.dequeue_event.wait()
        frame = AxiStreamFrame(frame)
        await self.queue.put(frame)
""", """            await self.dequeue_event.wait()
        if not isinstance(frame, AxiStreamFrame):
            frame = AxiStreamFrame(frame)
        await self.queue.put(frame)
""")]},
     "the caller changes the data of a frame object after send() returned and before the frame was transferred",
     "the frame on the bus contains the later data",
     AXIS + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = AxiStreamSource(bus(AxiStreamBus, dut), dut.clk)
    k = AxiStreamSink(bus(AxiStreamBus, dut), dut.clk)
    await RisingEdge(dut.clk)
    f = AxiStreamFrame(bytearray(range(40)))
    for n in range(3):
        f.tdata[0] = n
        await s.send(f)
    for n in range(3):
        g = await k.recv()
        assert g.tdata[0] == n and len(g.tdata) == 40, g
""" + MAIN('kit.axis("s")'))

seed("axilm-reset-keeps-responses", "C22",
     {"axil_master.py": [("""            while not self.int_write_resp_command_queue.empty():
                cmd = self.int_write_resp_command_queue.get_nowait()
                flush_cmd(cmd)

            if self.current_write_resp_command:
""", """            # the oldest one first
            if not self.int_write_resp_command_queue.empty() and not self.current_write_resp_command:
                flush_cmd(self.int_write_resp_command_queue.get_nowait())

            if self.current_write_resp_command:
""")]},
     "reset while more than one AXI-Lite write operation waits for its responses",
     "the others stay in the queue: they are never completed, or take the responses of later operations",
     AXIL + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = AxiLiteMaster(bus(AxiLiteBus, dut), dut.clk, dut.rst)
    r = AxiLiteRam(bus(AxiLiteBus, dut), dut.clk, dut.rst, size=4096)
    await RisingEdge(dut.clk)
    r.write_if.b_channel.pause = True
    ev = [m.init_write(64 * k, bytes([k]) * 16) for k in range(4)]
    await Timer(400, "ns")
    dut.rst.value = 1
    for _ in range(3):
        await RisingEdge(dut.clk)
    assert all(e.is_set() for e in ev) and m.idle()
    dut.rst.value = 0
    r.write_if.b_channel.pause = False
    for k in range(5):
        x = await m.write(64 * k, b"abc")
        assert x.address == 64 * k
    assert m.idle()
""" + MAIN('kit.axil("s")'))

seed("axis-slave-reset-keeps-beats", "C23",
     {"axi_slave.py": [("""            self.aw_channel.clear()
            self.w_channel.clear()
            self.b_channel.clear()
""", """            self.aw_channel.clear()
            self.b_channel.clear()
""")]},
     "reset while write data is queued in the slave",
     "the old beats are taken for those of the first burst after the reset",
     AXI + """
async def hs(dut, v, r):
    while True:
        await RisingEdge(dut.clk)
        if int(getattr(dut, r).value):
            break
    getattr(dut, v).value = 0


@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    for late in range(5):
        dut.rst.value = 1
        await RisingEdge(dut.clk)
        dut.rst.value = 0
        r = AxiRam(bus(AxiBus, dut), dut.clk, dut.rst, size=4096) if not late else r
        for _ in range(3):
            await RisingEdge(dut.clk)
        dut.s_bready.value = 1
        dut.s_wdata.value, dut.s_wstrb.value, dut.s_wlast.value, dut.s_wvalid.value = 0xeeeeeeee, 15, 1, 1
        for _ in range(1 + late):
            await RisingEdge(dut.clk)
        await Timer(2, "ns")
        dut.rst.value = 1
        await RisingEdge(dut.clk)
        dut.s_wvalid.value = 0
        for _ in range(3):
            await RisingEdge(dut.clk)
        dut.rst.value = 0
        for _ in range(2):
            await RisingEdge(dut.clk)
        dut.s_awid.value, dut.s_awaddr.value, dut.s_awlen.value, dut.s_awsize.value, dut.s_awburst.value = 1, 32, 0, 2, 1
        dut.s_awvalid.value = 1
        await hs(dut, "s_awvalid", "s_awready")
        dut.s_wdata.value, dut.s_wvalid.value = 0x11223344, 1
        await hs(dut, "s_wvalid", "s_wready")
        for _ in range(10):
            await RisingEdge(dut.clk)
        assert r.read(32, 4) == bytes([0x44, 0x33, 0x22, 0x11]), r.read(32, 4)
""" + MAIN('kit.axi("s")'))

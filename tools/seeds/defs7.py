"""Planted bugs, seventh batch: second bugs for properties that had one."""
from defs1 import AXI, MAIN
from defs2 import APB, AXIS, STREAM
from defs3 import RUN
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("words-truncate", "C36",
     {"address_space.py": [("            data.extend(w.to_bytes(ws, byteorder))\n",
                            "            data.extend((w & (256**ws-1) if w >= 256**ws else w).to_bytes(ws, byteorder))\n")]},
     "a word that does not fit its width, written through a memory interface",
     "the value is cut silently and stored instead of being refused",
     RUN + """
from cocotbext.axi import SparseMemoryRegion
r = SparseMemoryRegion(2**32)
for call in (lambda: r.write_word(0x10, 0x10001), lambda: r.write_dwords(0x20, [1, 2**32]), lambda: r.write_qword(0x40, 2**64 + 5)):
    try:
        run(call())
    except (OverflowError, ValueError):
        pass
    else:
        raise SystemExit("a value that does not fit was accepted")
assert bytes(run(r.read(0, 0x80))) == bytes(0x80)
""")

seed("frame-equal-bool-user", "C30",
     {"axis.py": [("            if type(self.tuser) in (int, bool) and type(other.tuser) is list:", "            if type(self.tuser) is int and type(other.tuser) is list:")]},
     "a frame with tuser=True compared with one whose tuser is a list",
     "equal frames compare as different, depending on the side",
     """
from cocotbext.axi import AxiStreamFrame
a = AxiStreamFrame(b"abc", tuser=True)
b = AxiStreamFrame(b"abc", tuser=[1, 1, 1])
assert b == a
assert a == b
assert not a == AxiStreamFrame(b"abc", tuser=[1, 0, 1])
""")

seed("space-order-of-size", "C32",
     {"address_space.py": [("        regions.sort()\n", "        regions.sort(key=lambda r: r[0]//r[1])\n")]},
     "an access that spans a large region and a small one registered the other way round",
     "the regions are visited in the wrong order and the access raises",
     RUN + """
from cocotbext.axi import AddressSpace, MemoryRegion
for order in (0, 1):
    s = AddressSpace(2**32)
    rs = [(MemoryRegion(0x1000), 0x10000), (MemoryRegion(0x20000), 0x11000)]
    for r, b in (rs if order == 0 else rs[::-1]):
        s.register_region(r, b)
    run(s.write(0x10f00, bytes(range(256)) * 2))
    assert bytes(run(s.read(0x10f00, 512))) == bytes(range(256)) * 2
""")

seed("window-early-base", "C33",
     {"address_space.py": [("        self.check_range(address)\n        return address+self.base\n",
                            "        self.check_range(address)\n        self._absolute = self.__dict__.get('_absolute', self.base)\n        return address+self._absolute\n")]},
     "get_absolute_address() of a region before it is registered in an address space",
     "the address it had then is reported for ever",
     """
from cocotbext.axi import AddressSpace, MemoryRegion
r = MemoryRegion(0x1000)
assert r.get_absolute_address(8) == 8
a = AddressSpace(2**20)
a.register_region(r, 0x4000)
assert r.get_absolute_address(8) == 0x4008
assert r.create_window(0x10, 0x20).get_absolute_address(1) == 0x4011
""")

seed("stream-limit-once", "C28",
     {"axis.py": [("        if self.queue_occupancy_limit_bytes > 0 and self.queue_occupancy_bytes > self.queue_occupancy_limit_bytes:\n",
                   "        self._limit = self.__dict__.get('_limit') or max(self.queue_occupancy_limit_bytes, 0)\n"
                   "        if self._limit > 0 and self.queue_occupancy_bytes > self._limit:\n", 1)]},
     "a limit in bytes of a sink that is changed or removed after it was in force",
     "the sink goes on applying the first limit",
     AXIS + """
@cocotb.test(timeout_time=20, timeout_unit="us")
async def t(dut):
    await start(dut)
    s = AxiStreamSource(bus(AxiStreamBus, dut), dut.clk)
    k = AxiStreamSink(bus(AxiStreamBus, dut), dut.clk)
    k.queue_occupancy_limit_bytes = 40
    for i in range(6):
        await s.send(bytes([i]) * 16)
    for _ in range(60):
        await RisingEdge(dut.clk)
    assert k.full() and k.count() < 6
    k.queue_occupancy_limit_bytes = -1
    assert not k.full()
    for i in range(6):
        f = await k.recv()
        assert bytes(f.tdata) == bytes([i]) * 16
    k.queue_occupancy_limit_bytes = 200
    for i in range(6):
        await s.send(bytes([i]) * 16)
    for _ in range(60):
        await RisingEdge(dut.clk)
    assert not k.full() and k.count() == 6
""" + MAIN('kit.axis("s")'))

seed("pool-failed-alloc", "C34",
     {"address_space.py": [("        base = self.allocator.alloc(size)\n        region = region_type(size)\n        self.register_region(region, base)\n",
                            "        base = self.allocator.alloc(size)\n        self.find_regions(base, size)\n        region = region_type(max(size, 16))\n        self.register_region(region, base)\n")]},
     "two allocations of less than 16 bytes from a pool",
     "the regions are larger than their blocks and overlap, so later allocations fail",
     """
from cocotbext.axi import AddressSpace
s = AddressSpace(2**20)
p = s.create_pool(0x1000, 0x100)
rs = [p.alloc_region(8) for _ in range(32)]
assert sorted(r.get_absolute_address(0) for r in rs) == list(range(0x1000, 0x1100, 8))
assert all(r.size == 8 for r in rs)
""")

seed("hexdump-upper-half", "C38",
     {"utils.py": [("        c += chr(ch) if 32 < ch < 127 else \".\"", "        c += chr(ch) if chr(ch).isprintable() and ch != 32 else \".\"")]},
     "bytes from 0xa1 in the dumped data",
     "they are shown as letters of the upper half of Latin 1, not as dots",
     """
from cocotbext.axi.utils import hexdump_str
from cocotbext.axi import SparseMemoryRegion
for v in range(256):
    t = hexdump_str(bytes([v]) * 3)
    assert t.split()[-1] == (chr(v) if 32 < v < 127 else ".") * 3, t
""")

seed("apbm-overrun-by-one", "C21",
     {"apb.py": [("        if address+len(data) > 2**self.address_width:\n", "        if address+len(data)-1 > 2**self.address_width:\n", 0)]},
     "init_write() of an APB master that passes the end of the address space by exactly one byte",
     "it is accepted and its last byte goes to another address",
     APB + """
@cocotb.test(timeout_time=100, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = ApbMaster(bus(ApbBus, dut), dut.clk)
    await RisingEdge(dut.clk)
    for n in (8, 1, 100, 2, 3):
        try:
            m.init_write(4096 - n, bytes(n + 1))
        except ValueError:
            continue
        assert False, "accepted"
    assert m.idle()
""" + MAIN('kit.apb("s", aw=12)'))

seed("apbm-word-address", "C14",
     {"apb.py": [("                    self.bus.paddr.value = word_addr + k*self.byte_lanes\n", "                    self.bus.paddr.value = word_addr + (k*self.byte_lanes & 0xfff)\n")]},
     "an operation of more than 4096 bytes",
     "its transfers start over at the first address",
     APB + """
@cocotb.test(timeout_time=1000, timeout_unit="us")
async def t(dut):
    await start(dut)
    m = ApbMaster(bus(ApbBus, dut), dut.clk)
    r = ApbRam(bus(ApbBus, dut), dut.clk, size=2**16)
    await RisingEdge(dut.clk)
    d = bytes((i * 7 + i // 256) & 0xff for i in range(5000))
    await m.write(0x1003, d)
    assert bytes(r.read(0x1003, 5000)) == d
    x = await m.read(0x1003, 5000)
    assert bytes(x) == d
""" + MAIN('kit.apb("s")'))

"""Planted bugs, third batch: frames, memories, address spaces."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


RUN = """
import asyncio


def run(c):
    return asyncio.run(c)

"""

seed("frame-copy-shares-tkeep", "C30",
     {"axis.py": [("                self.tkeep = list(tdata.tkeep)\n", "                self.tkeep = tdata.tkeep\n")]},
     "changing (normalizing in place, compacting) one of two copies of a frame with tkeep",
     "the copies share their tkeep list",
     """
from cocotbext.axi import AxiStreamFrame
f = AxiStreamFrame(b"abcd", tkeep=[1, 0, 1, 1], tid=[1, 2, 3, 4], tdest=[0] * 4, tuser=[0] * 4)
g = AxiStreamFrame(f)
f.compact()
assert bytes(f) == b"acd"
g.compact()
assert bytes(g) == b"acd", g
""")

seed("space-boundary-length", "C32",
     {"address_space.py": [("            if address < base+size and base < address+length:\n", "            if address < base+size and base <= address+length-min(length, 2):\n")]},
     "an access whose last byte only is in the next region",
     "the last byte is taken for unmapped, the access fails although every byte is mapped",
     RUN + """
from cocotbext.axi import AddressSpace, MemoryRegion
a = AddressSpace(0x10000)
r, s = MemoryRegion(0x100), MemoryRegion(0x100)
a.register_region(r, 0x1000)
a.register_region(s, 0x1100)
run(a.write(0x10f0, bytes(range(17))))
assert r[0xf0:0x100] == bytes(range(16)) and s[0] == 16
assert run(a.read(0x10f0, 17)) == bytes(range(17))
""")

seed("space-rejected-write", "C32",
     {"address_space.py": [("""            if base > address:
                raise Exception("Invalid address")
            seg_addr = address - base
            seg_len = min(size-seg_addr, length)
            if offset is None:
                seg_addr = address
                offset = 0
            await region.write(""", """            if base > address:
                # skip the hole
                start += base - address
                length -= base - address
                address = base
            seg_addr = address - base
            seg_len = min(size-seg_addr, length)
            if offset is None:
                seg_addr = address
                offset = 0
            await region.write(""")]},
     "a write that starts below or spans over an unmapped range and ends in a region",
     "the bytes for the unmapped range are dropped silently",
     RUN + """
from cocotbext.axi import AddressSpace, MemoryRegion
a = AddressSpace(0x10000)
r, s = MemoryRegion(0x100), MemoryRegion(0x100)
a.register_region(r, 0x1000)
a.register_region(s, 0x1200)
for addr, n in ((0xff0, 32), (0x10f0, 0x120)):
    try:
        run(a.write(addr, bytes([1]) * n))
        raise SystemExit("accepted")
    except Exception as e:
        pass
""")

seed("window-nested-base", "C33",
     {"address_space.py": [("        return window_type(self, offset, size, base=self.get_absolute_address(offset))\n",
                            "        base = self.parent.get_absolute_address(offset) if isinstance(self, Window) and self.parent else self.get_absolute_address(offset)\n        return window_type(self, offset, size, base=base)\n")]},
     "get_absolute_address() of a window created from another window (or window pool)",
     "the reported address misses the offset of the outer window; accesses are right",
     """
from cocotbext.axi import AddressSpace, MemoryRegion
a = AddressSpace(0x10000)
r = MemoryRegion(0x1000)
a.register_region(r, 0x4000)
w = r.create_window(0x200, 0x400)
v = w.create_window(0x40, 0x80)
assert w.get_absolute_address(4) == 0x4204
assert v.get_absolute_address(4) == 0x4244, hex(v.get_absolute_address(4))
""")

seed("window-check-length", "C33",
     {"address_space.py": [("        if address+length > self.size:\n            raise ValueError(\"operation out of range\")\n",
                            "        if address+max(length, 1)-1 > self.size-1 + (self.size & 1):\n            raise ValueError(\"operation out of range\")\n")]},
     "an access that ends one byte behind a window of odd size",
     "the access leaves the window and touches the parent's next byte",
     RUN + """
from cocotbext.axi import MemoryRegion
r = MemoryRegion(0x100)
w = r.create_window(0x10, 0x11)
run(w.write(0, bytes(0x11)))
try:
    run(w.write(0x10, b"xy"))
except ValueError:
    pass
assert r[0x21] == 0, "wrote outside of the window"
""")

seed("buddy-merge-order", "C34",
     {"buddy_allocator.py": [("                addr = min(addr, buddy)\n", "                addr = min(addr, buddy) if bucket else addr\n")]},
     "freeing two adjacent blocks of one byte, the upper one last",
     "the merged block starts at the upper one: it is misaligned and overlaps the next block",
     """
from cocotbext.axi.buddy_allocator import BuddyAllocator
for order in ((0, 1), (1, 0)):
    a = BuddyAllocator(16)
    b = [a.alloc(1) for _ in range(16)]
    assert sorted(b) == list(range(16))
    for k in range(16):
        a.free(k ^ 1 if order[0] else k)
    got = [a.alloc(2) for _ in range(8)]
    assert sorted(got) == list(range(0, 16, 2)), got
""")

seed("sparse-third-page", "C35",
     {"sparse_memory.py": [("            offset += block_len\n", "            offset = block_len\n")]},
     "a single write that touches at least three pages of 4096 bytes",
     "from the third page on wrong parts of the data are stored",
     """
import random
from cocotbext.axi.sparse_memory import SparseMemory
r = random.Random(1)
m = SparseMemory(2**40)
for a, n in ((0, 4096), (0x1ff0, 32), (0x5ff0, 4096 + 32), (0x9123, 20000)):
    d = r.randbytes(n)
    m.write(a, d)
    assert m.read(a, n) == d, (hex(a), n)
""")

seed("words-signed-order", "C36",
     {"address_space.py": [("        await self.write_words(address, data, byteorder, 8, **kwargs)\n", "        await self.write_words(address, data, ws=8, **kwargs)\n")]},
     "write_qword(s) in big endian order on a region, window or master",
     "the byte order is ignored for quad words",
     RUN + """
from cocotbext.axi import MemoryRegion
r = MemoryRegion(64)
run(r.write_qword(0, 0x0102030405060708, "big"))
assert r[0:8] == bytes(range(1, 9)), r[0:8]
run(r.write_qword(8, 0x0102030405060708))
assert r[8:16] == bytes(range(8, 0, -1))
""")

seed("peripheral-kwargs", "C37",
     {"address_space.py": [("""        res = self.obj.write(address, data, **kwargs)
        if inspect.isawaitable(res):
            await res
""", """        try:
            res = self.obj.write(address, data, **kwargs)
        except TypeError:
            # objects with plain write(address, data)
            res = self.obj.write(address, bytes(data))
        if inspect.isawaitable(res):
            await res
""")]},
     "a peripheral whose write() raises TypeError itself",
     "the access is performed twice, the failure may be hidden",
     RUN + """
from cocotbext.axi import PeripheralRegion


class P:
    n = 0

    def write(self, address, data):
        self.n += 1
        if self.n == 1:
            raise TypeError("rejected")


p = P()
try:
    run(PeripheralRegion(p, 64).write(0, b"a"))
    raise SystemExit("failure hidden")
except TypeError:
    pass
assert p.n == 1
""")

seed("hexdump-start-clip", "C38",
     {"utils.py": [("        lines.append(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))\n",
                    "        lines.append(prefix+hexdump_line(data[k:k+row_size], k+offset, row_size))\n")]},
     "a dump whose length is not a multiple of the row size and which ends before the data does",
     "the last row shows bytes behind the requested range",
     """
from cocotbext.axi.utils import hexdump_str, hexdump_lines
d = bytes(range(64))
l = hexdump_lines(d, 5, 20)
assert len(l) == 2 and l[1].split(":")[1].split()[:4] == ["15", "16", "17", "18"] and "19" not in l[1].split(":")[1].split(), l
""")

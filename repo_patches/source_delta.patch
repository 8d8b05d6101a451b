From 4315320f81d94d58892d60128a6cd5be09829b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 01/22] fix: reject AXI IDs that do not fit the ID signal

---
 cocotbext/axi/axi_master.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index d041211..f1d3a89 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -299,7 +299,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -368,7 +368,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -734,7 +734,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -791,7 +791,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
-- 
2.43.0


From 655967fe1a0ba17e363f1b2703aac5584c35c22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 02/22] fix: MemoryInterface.read_byte on regions that return
 bytes

---
 cocotbext/axi/address_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index 4851940..ea99c53 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -85,7 +85,7 @@ class MemoryInterface:
         return await self.read_words(address, count, byteorder, 8, **kwargs)
 
     async def read_byte(self, address, **kwargs):
-        return (await self.read(address, 1, **kwargs)).data[0]
+        return bytes(await self.read(address, 1, **kwargs))[0]
 
     async def read_word(self, address, byteorder='little', ws=2, **kwargs):
         return (await self.read_words(address, 1, byteorder, ws, **kwargs))[0]
-- 
2.43.0


From 4257a034b5f77907681bf505ac87e5c5d201354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 03/22] fix: write_byte on memories that only accept bytes-like
 data

---
 cocotbext/axi/address_space.py | 2 +-
 cocotbext/axi/memory.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index ea99c53..cd517d8 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -117,7 +117,7 @@ class MemoryInterface:
         await self.write_words(address, data, byteorder, 8, **kwargs)
 
     async def write_byte(self, address, data, **kwargs):
-        await self.write(address, [data], **kwargs)
+        await self.write(address, bytes([data]), **kwargs)
 
     async def write_word(self, address, data, byteorder='little', ws=2, **kwargs):
         await self.write_words(address, [data], byteorder, ws, **kwargs)
diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index a4199a8..a7fe1b9 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -55,7 +55,7 @@ class Memory:
         self.write_words(address, data, byteorder, 8)
 
     def write_byte(self, address, data):
-        self.write(address, [data])
+        self.write(address, bytes([data]))
 
     def write_word(self, address, data, byteorder='little', ws=2):
         self.write_words(address, [data], byteorder, ws)
-- 
2.43.0


From cffa6bdb8c018b164d91d47fb7f5809ae00e56bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 04/22] fix: PeripheralRegion must access the wrapped object
 exactly once

---
 cocotbext/axi/address_space.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index cd517d8..b324725 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -22,6 +22,7 @@ THE SOFTWARE.
 
 """
 
+import inspect
 import mmap
 
 from .buddy_allocator import BuddyAllocator
@@ -252,16 +253,15 @@ class PeripheralRegion(Region):
         self.obj = obj
 
     async def _read(self, address, length, **kwargs):
-        try:
-            return await self.obj.read(address, length, **kwargs)
-        except TypeError:
-            return self.obj.read(address, length, **kwargs)
+        data = self.obj.read(address, length, **kwargs)
+        if inspect.isawaitable(data):
+            data = await data
+        return data
 
     async def _write(self, address, data, **kwargs):
-        try:
-            await self.obj.write(address, data, **kwargs)
-        except TypeError:
-            self.obj.write(address, data, **kwargs)
+        res = self.obj.write(address, data, **kwargs)
+        if inspect.isawaitable(res):
+            await res
 
 
 class AddressSpace(Region):
-- 
2.43.0


From e2b5238c651b2af63e58907bf570b498a0391d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 05/22] fix: APB master command tracking across reset

The finished command stayed current and was completed again with None by
the next reset; a command taken while idle was lost when reset arrived
before the following clock edge.
---
 cocotbext/axi/apb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 50360d6..c39b488 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -339,10 +339,11 @@ class ApbMaster(ApbPause, Region, Reset):
         while True:
             if self.command_queue.empty():
                 cmd = await self.command_queue.get()
+                self.current_command = cmd
                 await clock_edge_event
             else:
                 cmd = self.command_queue.get_nowait()
-            self.current_command = cmd
+                self.current_command = cmd
 
             length = 0
             pwrite = False
@@ -454,7 +455,7 @@ class ApbMaster(ApbPause, Region, Reset):
                 read_resp = ApbReadResp(cmd.address, bytes(read_data), resp)
                 cmd.event.set(read_resp)
 
-            self.current_write_command = None
+            self.current_command = None
 
             self.in_flight_operations -= 1
 
-- 
2.43.0


From 093b339741dc4269eab2f842e1e3d64f28d697d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 06/22] fix: clear() on a full sink must release backpressure

---
 cocotbext/axi/axis.py   | 1 +
 cocotbext/axi/stream.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 6a4429e..77ad3c3 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -364,6 +364,7 @@ class AxiStreamBase(Reset):
         self.active_event.clear()
         self.queue_occupancy_bytes = 0
         self.queue_occupancy_frames = 0
+        self.wake_event.set()
 
     def _handle_reset(self, state):
         if state:
diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 0aa6625..36a9183 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -148,6 +148,7 @@ class StreamBase(Reset):
         self.dequeue_event.set()
         self.idle_event.set()
         self.active_event.clear()
+        self.wake_event.set()
 
     def _handle_reset(self, state):
         if state:
-- 
2.43.0


From d94bf3616502f34d29672c8ae10b9c3a51df51e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 07/22] fix: buddy allocator handed out blocks past the end of
 non power of two sizes

---
 cocotbext/axi/buddy_allocator.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/cocotbext/axi/buddy_allocator.py b/cocotbext/axi/buddy_allocator.py
index fba90bc..f97c86b 100644
--- a/cocotbext/axi/buddy_allocator.py
+++ b/cocotbext/axi/buddy_allocator.py
@@ -36,31 +36,26 @@ class BuddyAllocator:
         if size < 1 or size > self.size:
             raise ValueError("size out of range")
 
-        size = max(size, self.min_alloc)
-
-        bucket = (size-1).bit_length()
+        bucket = (max(size, self.min_alloc)-1).bit_length()
         orig_bucket = bucket
 
         while bucket < len(self.free_lists):
-            if not self.free_lists[bucket]:
-                # find free block
+            # find free block, the allocation must not extend past the end
+            block = next((b for b in self.free_lists[bucket] if b+size <= self.size), None)
+            if block is None:
                 bucket += 1
                 continue
 
+            self.free_lists[bucket].remove(block)
+
             while bucket > orig_bucket:
                 # split block
-                block = self.free_lists[bucket].pop(0)
                 bucket -= 1
-                self.free_lists[bucket].append(block)
                 self.free_lists[bucket].append(block+2**bucket)
 
-            if self.free_lists[bucket]:
-                # allocate
-                block = self.free_lists[bucket].pop(0)
-                self.allocations[block] = bucket
-                return block
-
-            break
+            # allocate
+            self.allocations[block] = bucket
+            return block
 
         raise Exception("out of memory")
 
-- 
2.43.0


From 436f7624b0656767e55f2b4a4e6e6314a387a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 08/22] fix: slaves bridging to a master crashed when logging
 the read response object

---
 cocotbext/axi/apb.py        | 2 +-
 cocotbext/axi/axi_slave.py  | 2 +-
 cocotbext/axi/axil_slave.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index c39b488..0a9ced2 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -520,7 +520,7 @@ class ApbSlave(ApbPause, Reset):
         await self.target.write(address, data)
 
     async def _read(self, address, length):
-        return await self.target.read(address, length)
+        return bytes(await self.target.read(address, length))
 
     def _handle_reset(self, state):
         if state:
diff --git a/cocotbext/axi/axi_slave.py b/cocotbext/axi/axi_slave.py
index 5f10107..123de53 100644
--- a/cocotbext/axi/axi_slave.py
+++ b/cocotbext/axi/axi_slave.py
@@ -257,7 +257,7 @@ class AxiSlaveRead(Reset):
         self._init_reset(reset, reset_active_level)
 
     async def _read(self, address, length):
-        return await self.target.read(address, length)
+        return bytes(await self.target.read(address, length))
 
     def _handle_reset(self, state):
         if state:
diff --git a/cocotbext/axi/axil_slave.py b/cocotbext/axi/axil_slave.py
index 3214d31..45c8942 100644
--- a/cocotbext/axi/axil_slave.py
+++ b/cocotbext/axi/axil_slave.py
@@ -206,7 +206,7 @@ class AxiLiteSlaveRead(Reset):
         self._init_reset(reset, reset_active_level)
 
     async def _read(self, address, length):
-        return await self.target.read(address, length)
+        return bytes(await self.target.read(address, length))
 
     def _handle_reset(self, state):
         if state:
-- 
2.43.0


From 971225dcbaf6ab8b5c5eb9965a39bd2015d00777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 09/22] fix: hexdump of zero bytes dumped the whole memory

---
 cocotbext/axi/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/utils.py b/cocotbext/axi/utils.py
index 07ea16b..f325039 100644
--- a/cocotbext/axi/utils.py
+++ b/cocotbext/axi/utils.py
@@ -33,14 +33,14 @@ def hexdump_line(data, offset, row_size=16):
 
 
 def hexdump(data, start=0, length=None, row_size=16, prefix="", offset=0):
-    stop = min(start+length, len(data)) if length else len(data)
+    stop = min(start+length, len(data)) if length is not None else len(data)
     for k in range(start, stop, row_size):
         print(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))
 
 
 def hexdump_lines(data, start=0, length=None, row_size=16, prefix="", offset=0):
     lines = []
-    stop = min(start+length, len(data)) if length else len(data)
+    stop = min(start+length, len(data)) if length is not None else len(data)
     for k in range(start, stop, row_size):
         lines.append(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))
     return lines
-- 
2.43.0


From 2162cdcb7d72f3b5beff11bc93b6a267b40e89da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 10/22] fix: a reset that is already asserted at construction
 was ignored

---
 cocotbext/axi/reset.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cocotbext/axi/reset.py b/cocotbext/axi/reset.py
index 8d11fa3..0b5c13b 100644
--- a/cocotbext/axi/reset.py
+++ b/cocotbext/axi/reset.py
@@ -56,14 +56,11 @@ class Reset:
 
     async def _run_reset(self, reset_signal, active_level):
         while True:
-            await Edge(reset_signal)
             try:
                 level = bool(int(reset_signal.value))
             except ValueError:
-                continue
-            if level:
-                self._ext_reset = active_level
-                self._update_reset()
+                pass
             else:
-                self._ext_reset = not active_level
+                self._ext_reset = level == active_level
                 self._update_reset()
+            await Edge(reset_signal)
-- 
2.43.0


From 820be7a0a8fbcc04071d1e6b3c75ae2cc7101ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 11/22] fix: init_read/init_write must account for the
 operation when called

idle() and wait() ignored an operation until its helper task had started,
and a later blocking call could overtake it.
---
 cocotbext/axi/apb.py         | 16 ++++++++--------
 cocotbext/axi/axi_master.py  | 25 +++++++++++--------------
 cocotbext/axi/axil_master.py | 16 ++++++++--------
 3 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 0a9ced2..0dc043b 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -213,7 +213,10 @@ class ApbMaster(ApbPause, Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.command_queue.put_nowait(ApbWriteCmd(address, data, prot, event))
 
         return event
 
@@ -236,7 +239,10 @@ class ApbMaster(ApbPause, Region, Reset):
         if not self.pprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.command_queue.put_nowait(ApbReadCmd(address, length, prot, event))
 
         return event
 
@@ -270,9 +276,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     async def read(self, address, length, prot=AxiProt.NONSECURE):
         if address < 0 or address >= 2**self.address_width:
             raise ValueError("Address out of range")
@@ -296,9 +299,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index f1d3a89..54fcc95 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -342,8 +342,12 @@ class AxiMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiWriteCmd(address, data, awid, burst, size, lock,
+            cache, prot, qos, region, user, wuser, event)
+        self.write_command_queue.put_nowait(cmd)
 
         return event
 
@@ -422,11 +426,6 @@ class AxiMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, awid, burst, size,
-            lock, cache, prot, qos, region, user, wuser, event):
-        event.set(await self.write(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -765,8 +764,11 @@ class AxiMasterRead(Region, Reset):
         if not self.aruser_present and user != 0:
             raise ValueError("aruser sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiReadCmd(address, length, arid, burst, size, lock, cache, prot, qos, region, user, event)
+        self.read_command_queue.put_nowait(cmd)
 
         return event
 
@@ -833,11 +835,6 @@ class AxiMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, arid, burst, size,
-            lock, cache, prot, qos, region, user, event):
-        event.set(await self.read(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axil_master.py b/cocotbext/axi/axil_master.py
index d40a1ef..85309af 100644
--- a/cocotbext/axi/axil_master.py
+++ b/cocotbext/axi/axil_master.py
@@ -170,7 +170,10 @@ class AxiLiteMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.write_command_queue.put_nowait(AxiLiteWriteCmd(address, bytes(data), prot, event))
 
         return event
 
@@ -204,9 +207,6 @@ class AxiLiteMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -422,7 +422,10 @@ class AxiLiteMasterRead(Region, Reset):
         if not self.arprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.read_command_queue.put_nowait(AxiLiteReadCmd(address, length, prot, event))
 
         return event
 
@@ -456,9 +459,6 @@ class AxiLiteMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
-- 
2.43.0


From da22550c96502fea64eef61aa1ffcce7fa3a568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 12/22] fix: AXI master FIXED and WRAP bursts

FIXED bursts rotated the byte lanes of narrow transfers and could exceed 16
beats; WRAP bursts were split at 4k boundaries and did not wrap the byte
lanes of narrow transfers.
---
 cocotbext/axi/axi_master.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index 54fcc95..ccd0887 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -95,6 +95,7 @@ class AxiReadRespCmd(NamedTuple):
     prot: AxiProt
     burst_list: List[int]
     event: Event
+    burst: AxiBurstType
 
 
 class AxiReadResp(NamedTuple):
@@ -480,7 +481,6 @@ class AxiMasterWrite(Region, Reset):
             word_addr = (cmd.address // self.byte_lanes) * self.byte_lanes
 
             start_offset = cmd.address % self.byte_lanes
-            end_offset = ((cmd.address + len(cmd.data) - 1) % self.byte_lanes) + 1
 
             cycles = (len(cmd.data) + (cmd.address % num_bytes) + num_bytes-1) // num_bytes
 
@@ -512,7 +512,7 @@ class AxiMasterWrite(Region, Reset):
                 if k == 0:
                     start = start_offset
                 if k == cycles-1:
-                    stop = end_offset
+                    stop = start + len(cmd.data) - offset
 
                 strb = (self.strb_mask << start) & self.strb_mask & (self.strb_mask >> (self.byte_lanes - stop))
 
@@ -530,6 +530,13 @@ class AxiMasterWrite(Region, Reset):
                     # split on 4k address boundary
                     burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
 
+                    if cmd.burst == AxiBurstType.FIXED:
+                        # fixed bursts are limited to 16 beats
+                        burst_length = min(burst_length, 16)
+                    elif cmd.burst == AxiBurstType.WRAP:
+                        # wrapping bursts cannot be split and never cross a 4k address boundary
+                        burst_length = min(cycles-k, min(max(self.max_burst_len, 1), 256))
+
                     burst_list.append(burst_length)
 
                     aw = self.aw_channel._transaction_obj()
@@ -577,7 +584,9 @@ class AxiMasterWrite(Region, Reset):
                     cur_addr = aligned_addr + num_bytes
                 else:
                     cur_addr += num_bytes
-                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
+                if cmd.burst == AxiBurstType.WRAP and cur_addr % (cycles*num_bytes) == 0:
+                    cur_addr -= cycles*num_bytes
+                cycle_offset = (cur_addr // num_bytes) * num_bytes % self.byte_lanes
 
             resp_cmd = AxiWriteRespCmd(cmd.address, len(cmd.data), cmd.size, cycles, cmd.prot, burst_list, cmd.event)
             self.tag_context_manager.start_cmd(awid, resp_cmd)
@@ -914,6 +923,13 @@ class AxiMasterRead(Region, Reset):
                     # split on 4k address boundary
                     burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
 
+                    if cmd.burst == AxiBurstType.FIXED:
+                        # fixed bursts are limited to 16 beats
+                        burst_length = min(burst_length, 16)
+                    elif cmd.burst == AxiBurstType.WRAP:
+                        # wrapping bursts cannot be split and never cross a 4k address boundary
+                        burst_length = min(cycles-k, min(max(self.max_burst_len, 1), 256))
+
                     burst_list.append(burst_length)
 
                     ar = self.ar_channel._transaction_obj()
@@ -942,7 +958,7 @@ class AxiMasterRead(Region, Reset):
                 else:
                     cur_addr += num_bytes
 
-            resp_cmd = AxiReadRespCmd(cmd.address, cmd.length, cmd.size, cycles, cmd.prot, burst_list, cmd.event)
+            resp_cmd = AxiReadRespCmd(cmd.address, cmd.length, cmd.size, cycles, cmd.prot, burst_list, cmd.event, cmd.burst)
             self.tag_context_manager.start_cmd(arid, resp_cmd)
 
             self.current_read_command = None
@@ -968,6 +984,7 @@ class AxiMasterRead(Region, Reset):
         start_offset = cmd.address % self.byte_lanes
 
         cycle_offset = aligned_addr - word_addr
+        cur_addr = aligned_addr
         data = bytearray()
 
         resp = AxiResp.OKAY
@@ -1005,7 +1022,11 @@ class AxiMasterRead(Region, Reset):
                 for j in range(start, stop):
                     data.append((cycle_data >> j*8) & 0xff)
 
-                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
+                if cmd.burst != AxiBurstType.FIXED:
+                    cur_addr += num_bytes
+                    if cmd.burst == AxiBurstType.WRAP and cur_addr % (cmd.cycles*num_bytes) == 0:
+                        cur_addr -= cmd.cycles*num_bytes
+                cycle_offset = cur_addr % self.byte_lanes
 
                 first = False
 
-- 
2.43.0


From 8a89308fccabf2cb8e32432000e2c564a0d58ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:13 +0000
Subject: [PATCH 13/22] fix: idle() and wait() of AXI masters with 64 bit
 addresses

Testing the interface objects for truth evaluates len(), which raises
OverflowError for an address space of 2**63 bytes or more.
---
 cocotbext/axi/axi_master.py  | 2 +-
 cocotbext/axi/axil_master.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index ccd0887..cd770cb 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -1072,7 +1072,7 @@ class AxiMaster(Region):
         return self.write_if.init_write(address, data, awid, burst, size, lock, cache, prot, qos, region, user, wuser, event)
 
     def idle(self):
-        return (not self.read_if or self.read_if.idle()) and (not self.write_if or self.write_if.idle())
+        return (self.read_if is None or self.read_if.idle()) and (self.write_if is None or self.write_if.idle())
 
     async def wait(self):
         while not self.idle():
diff --git a/cocotbext/axi/axil_master.py b/cocotbext/axi/axil_master.py
index 85309af..84d73fa 100644
--- a/cocotbext/axi/axil_master.py
+++ b/cocotbext/axi/axil_master.py
@@ -596,7 +596,7 @@ class AxiLiteMaster(Region):
         return self.write_if.init_write(address, data, prot, event)
 
     def idle(self):
-        return (not self.read_if or self.read_if.idle()) and (not self.write_if or self.write_if.idle())
+        return (self.read_if is None or self.read_if.idle()) and (self.write_if is None or self.write_if.idle())
 
     async def wait(self):
         while not self.idle():
-- 
2.43.0


From ffe7660525cd770c2f18e07c8f08e9c5673cf71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:48 +0000
Subject: [PATCH 14/22] fix: RAM models with the default size of 2**64 bytes

len() of the sparse memory raises OverflowError for sizes above
sys.maxsize, so the models could not be constructed at all.
---
 cocotbext/axi/memory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index a7fe1b9..ba587db 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -32,7 +32,11 @@ class Memory:
             self.mem = mem
         else:
             self.mem = SparseMemory(size)
-        self.size = len(self.mem)
+        if isinstance(self.mem, SparseMemory):
+            # len() is limited to sys.maxsize
+            self.size = self.mem.size
+        else:
+            self.size = len(self.mem)
         super().__init__(**kwargs)
 
     def read(self, address, length):
-- 
2.43.0


From 8c1f4f16e4566f17ebad6570ad04acd86d88f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 15/22] fix: APB slave repeated a transfer whose target
 finished right at a clock edge

---
 cocotbext/axi/apb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 0dc043b..9ff2b7a 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -616,6 +616,9 @@ class ApbSlave(ApbPause, Reset):
                 self.bus.pslverr.value = pslverr
             self.bus.pready.value = True
             await clock_edge_event
+            while not int(self.bus.pready.value):
+                # target finished right at a clock edge, too late for this one
+                await clock_edge_event
 
             if not int(self.bus.psel.value):
                 self.log.warning("psel deasserted early")
-- 
2.43.0


From 0b00cfdffb51ef15ec575568218da40026c8885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 16/22] fix: define_stream with valid/ready signals outside of
 the signal list or without valid

---
 cocotbext/axi/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 36a9183..14c6ae4 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -437,6 +437,7 @@ class StreamSink(StreamMonitor, StreamPause):
 
 
 def define_stream(name, signals, optional_signals=None, valid_signal=None, ready_signal=None, signal_widths=None):
+    signals = list(signals)
     all_signals = signals.copy()
 
     if optional_signals is None:
@@ -448,8 +449,8 @@ def define_stream(name, signals, optional_signals=None, valid_signal=None, ready
         for s in all_signals:
             if s.lower().endswith('valid'):
                 valid_signal = s
-    if valid_signal not in all_signals:
-        signals += valid_signal
+    if valid_signal is not None and valid_signal not in all_signals:
+        signals += [valid_signal]
 
     if ready_signal is None:
         for s in all_signals:
@@ -457,7 +458,7 @@ def define_stream(name, signals, optional_signals=None, valid_signal=None, ready
                 ready_signal = s
     else:
         if ready_signal not in all_signals:
-            signals += ready_signal
+            signals += [ready_signal]
 
     if signal_widths is None:
         signal_widths = {}
-- 
2.43.0


From a71b9a258410698f56fc6232f70af43f14d40d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 17/22] fix: AXI stream source start time when paused before
 the first beat

---
 cocotbext/axi/axis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 77ad3c3..b13b3eb 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -538,7 +538,7 @@ class AxiStreamSource(AxiStreamBase, AxiStreamPause):
                     self.queue_occupancy_bytes -= len(frame)
                     self.queue_occupancy_frames -= 1
                     self.current_frame = frame
-                    frame.sim_time_start = get_sim_time()
+                    frame.sim_time_start = None
                     frame.sim_time_end = None
                     self.log.info("TX frame: %s", frame)
                     frame.normalize()
@@ -546,6 +546,9 @@ class AxiStreamSource(AxiStreamBase, AxiStreamPause):
                     frame_offset = 0
 
                 if frame and not self.pause:
+                    if frame_offset == 0:
+                        frame.sim_time_start = get_sim_time()
+
                     tdata_val = 0
                     tlast_val = 0
                     tkeep_val = 0
-- 
2.43.0


From 715654223de87a83aac4e675355f1b1a6efc75ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 18/22] fix: normalize() of received frames with empty sideband
 lists

---
 cocotbext/axi/axis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index b13b3eb..342e77c 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -95,12 +95,12 @@ class AxiStreamFrame:
         # normalize all sideband signals to the same size as tdata
         n = len(self.tdata)
 
-        if self.tkeep is not None:
+        if self.tkeep is not None and self.tkeep != []:
             self.tkeep = self.tkeep[:n] + [self.tkeep[-1]]*(n-len(self.tkeep))
         else:
             self.tkeep = [1]*n
 
-        if self.tid is not None:
+        if self.tid is not None and self.tid != []:
             if type(self.tid) in (int, bool):
                 self.tid = [self.tid]*n
             else:
@@ -108,7 +108,7 @@ class AxiStreamFrame:
         else:
             self.tid = [0]*n
 
-        if self.tdest is not None:
+        if self.tdest is not None and self.tdest != []:
             if type(self.tdest) in (int, bool):
                 self.tdest = [self.tdest]*n
             else:
@@ -116,7 +116,7 @@ class AxiStreamFrame:
         else:
             self.tdest = [0]*n
 
-        if self.tuser is not None:
+        if self.tuser is not None and self.tuser != []:
             if type(self.tuser) in (int, bool):
                 self.tuser = [self.tuser]*n
             else:
-- 
2.43.0


From 195c9814971c6fb6a6721e24aab4c2649196198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:24 +0000
Subject: [PATCH 19/22] fix: wait() of a stream source returned early after
 clear() during a transfer

---
 cocotbext/axi/axis.py   | 3 ++-
 cocotbext/axi/stream.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 342e77c..5d8fbe7 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -360,7 +360,8 @@ class AxiStreamBase(Reset):
             frame.sim_time_end = None
             frame.handle_tx_complete()
         self.dequeue_event.set()
-        self.idle_event.set()
+        if not self.active:
+            self.idle_event.set()
         self.active_event.clear()
         self.queue_occupancy_bytes = 0
         self.queue_occupancy_frames = 0
diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 14c6ae4..2751448 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -146,7 +146,8 @@ class StreamBase(Reset):
         while not self.queue.empty():
             self.queue.get_nowait()
         self.dequeue_event.set()
-        self.idle_event.set()
+        if not self.active:
+            self.idle_event.set()
         self.active_event.clear()
         self.wake_event.set()
 
-- 
2.43.0


From 39aa82f722ed3ff3d5c99de7d00349ec9b16ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:49 +0000
Subject: [PATCH 20/22] fix: hex dumps of RAM models with the default size of
 2**64 bytes

---
 cocotbext/axi/memory.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index ba587db..2a466e9 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -95,11 +95,17 @@ class Memory:
     def read_qword(self, address, byteorder='little'):
         return self.read_qwords(address, 1, byteorder)[0]
 
+    def _dump_data(self, address, length):
+        # limited to the size of the memory
+        if address >= self.size:
+            return b''
+        return self.mem[address:min(address+length, self.size)]
+
     def hexdump(self, address, length, prefix=""):
-        hexdump(self.mem, address, length, prefix=prefix)
+        hexdump(self._dump_data(address, length), prefix=prefix, offset=address)
 
     def hexdump_lines(self, address, length, prefix=""):
-        return hexdump_lines(self.mem, address, length, prefix=prefix)
+        return hexdump_lines(self._dump_data(address, length), prefix=prefix, offset=address)
 
     def hexdump_str(self, address, length, prefix=""):
-        return hexdump_str(self.mem, address, length, prefix=prefix)
+        return hexdump_str(self._dump_data(address, length), prefix=prefix, offset=address)
-- 
2.43.0


From 070b3617faedc3a9f2e3d4395daba014dd293410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:16 +0000
Subject: [PATCH 21/22] fix: AXI master refused WRAP bursts that wrap at the
 end of the address space

---
 cocotbext/axi/axi_master.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index cd770cb..b99ef0c 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -295,7 +295,7 @@ class AxiMasterWrite(Region, Reset):
         if isinstance(data, int):
             raise ValueError("Expected bytes or bytearray for data")
 
-        if burst != AxiBurstType.FIXED and address+len(data) > 2**self.address_width:
+        if burst == AxiBurstType.INCR and address+len(data) > 2**self.address_width:
             raise ValueError("Requested transfer overruns end of address space")
 
         if awid is None or awid < 0:
@@ -368,7 +368,7 @@ class AxiMasterWrite(Region, Reset):
         if isinstance(data, int):
             raise ValueError("Expected bytes or bytearray for data")
 
-        if burst != AxiBurstType.FIXED and address+len(data) > 2**self.address_width:
+        if burst == AxiBurstType.INCR and address+len(data) > 2**self.address_width:
             raise ValueError("Requested transfer overruns end of address space")
 
         if awid is None or awid < 0:
@@ -737,7 +737,7 @@ class AxiMasterRead(Region, Reset):
         if length < 0:
             raise ValueError("Read length must be positive")
 
-        if burst != AxiBurstType.FIXED and address+length > 2**self.address_width:
+        if burst == AxiBurstType.INCR and address+length > 2**self.address_width:
             raise ValueError("Requested transfer overruns end of address space")
 
         if arid is None or arid < 0:
@@ -797,7 +797,7 @@ class AxiMasterRead(Region, Reset):
         if length < 0:
             raise ValueError("Read length must be positive")
 
-        if burst != AxiBurstType.FIXED and address+length > 2**self.address_width:
+        if burst == AxiBurstType.INCR and address+length > 2**self.address_width:
             raise ValueError("Requested transfer overruns end of address space")
 
         if arid is None or arid < 0:
-- 
2.43.0


From 9c0802adde0740e2e3da7bea9a9ec318aa0090f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:16 +0000
Subject: [PATCH 22/22] fix: refuse AXI stream byte sizes that do not divide
 the bus

---
 cocotbext/axi/axis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 5d8fbe7..8d1114a 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -326,7 +326,10 @@ class AxiStreamBase(Reset):
             elif byte_size is not None:
                 self.byte_lanes = self.width // byte_size
 
-        self.byte_size = self.width // self.byte_lanes
+        if byte_size is not None:
+            self.byte_size = byte_size
+        else:
+            self.byte_size = self.width // self.byte_lanes
         self.byte_mask = 2**self.byte_size-1
 
         self.log.info("AXI stream %s configuration:", self._type)
-- 
2.43.0


#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, pathlib

D = "cocotbext/axi/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [D + f for f in files],
            "state": [{"name": n, "meaning": m, "where": D + w} for n, m, w in state],
            "mechanism": [{"name": n, "where": D + w} for n, w in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


SCHED = "schedules"; INP = "inputs"; CFG = "configurations"; HIST = "histories"; FLT = "fault_sequences"; PROG = "programs"

prop("C01", "AXI master writes change exactly the requested bytes",
     "Every AXI master write operation (INCR, size-aligned FIXED, or legal WRAP; any address, length, beat size and bus width) presents to a compliant slave exactly the requested data bytes at exactly the requested addresses: each requested byte is strobed once with the right value, and no other byte is ever strobed. For a FIXED burst the data is presented in order at the fixed address. When the operation reports completion, a slave that applies every strobed byte therefore holds the requested data and nothing else changed.",
     [INP, CFG, SCHED],
     "all addresses and lengths (including 0, unaligned, 4 KiB crossings, top of the address space), all beat sizes 2^0..bus width, bus widths 8..1024, all max_burst_len 1..256, all slave handshake schedules",
     "the tests sample lengths 1-32 and 1024 at offsets 0..lanes*2 on one 32-bit bus against the library's own RAM, so a compensating error in master and RAM, another width, or a schedule with W and AW decoupled is never seen",
     ["axi_master.py"],
     [("AxiMasterWrite._process_write lane/strobe/burst computation", "axi_master.py"), ("define_stream sources carry the beats", "axi_channels.py")],
     ["AW/W/B channel signals", "return value of write()/init_write()", "slave memory image"])

prop("C02", "AXI master reads return exactly the addressed bytes",
     "Every AXI master read operation (INCR, size-aligned FIXED, or legal WRAP) returns exactly the requested number of bytes, each equal to the byte the slave returned for that address, in address order (in beat order for FIXED, in wrap order for WRAP), independent of the values the slave drives on byte lanes that are not part of the transfer.",
     [INP, CFG, SCHED],
     "all addresses/lengths/beat sizes/bus widths/max_burst_len as for C01, all read data and garbage on unused lanes, all slave handshake and response schedules",
     "the tests read back through the library's own RAM, which always drives full words, on one bus width, so lane selection with garbage on inactive lanes is never exercised",
     ["axi_master.py"],
     [("AxiMasterRead._process_read", "axi_master.py"), ("AxiMasterRead._process_read_resp_id lane extraction", "axi_master.py")],
     ["AR/R channel signals", "return value of read()/init_read()"])

prop("C03", "AXI master emits only legal bursts that tile the request",
     "Every burst the AXI master issues is legal AXI4: no INCR burst crosses a 4 KiB boundary, the length is 1..max_burst_len beats (at most 16 for FIXED; one single burst of 2, 4, 8 or 16 beats for a legal WRAP request), the beat size never exceeds the bus width or the requested size, exactly the announced number of W beats is sent in AW order with WLAST on the last beat only, and strobes stay inside the beat's byte lanes. The bursts of one operation cover the requested byte range contiguously, in increasing order, without gap, overlap or extra beats (an operation of length zero issues at most one single beat without strobes).",
     [INP, CFG, SCHED],
     "all requests and configurations as for C01, every backpressure schedule on AW, W and AR",
     "the tests never inspect the bus: the RAM model only asserts a subset (4 KiB, WLAST) and accepts overlapping, redundant or over-long bursts",
     ["axi_master.py"],
     [("burst splitting on max_burst_len and 4 KiB", "axi_master.py")],
     ["AW, W and AR channel signals"])

prop("C04", "AXI master ops use one ID and carry requested attributes unchanged",
     "All bursts of one AXI master operation use one and the same ID (the requested one when given, otherwise some ID that fits the ID signal), and carry exactly the requested lock, cache, prot, qos, region and user values; wuser is carried on every W beat (an integer on all beats, a list entry n on the operation's n-th beat and 0 beyond the list). A non-default value for an attribute whose signal is not connected is rejected with ValueError before anything is issued.",
     [INP, CFG],
     "all attribute values, all subsets of connected optional signals, ID widths 1..8, multi-burst operations, more operations than there are IDs",
     "the tests use default attributes with one signal set and never look at the sideband signals",
     ["axi_master.py", "axi_channels.py"],
     [("attribute copy into AW/AR/W transactions, automatic ID rotation", "axi_master.py"), ("presence checks in write()/read()/init_*()", "axi_master.py")],
     ["AW, W and AR channel signals", "exceptions raised"])

prop("C05", "AXI master matches responses to operations under any legal reordering",
     "Under every legal slave behaviour (responses of different IDs reordered, read bursts of different IDs interleaved beat by beat, same-ID responses in order) each AXI master operation completes exactly once, never before the slave has delivered all of its responses, and reports the data, response and user values of its own bursts and of no other operation.",
     [SCHED, HIST],
     "all numbers and mixes of concurrent reads and writes sharing or not sharing IDs, all legal response permutations, interleavings and delays",
     "the only slave in the tests answers strictly in order with no interleaving, so attribution by ID is never exercised",
     ["axi_master.py"],
     [("TagContextManager per-ID response queues", "axi_master.py"), ("active_id accounting", "axi_master.py")],
     ["B and R channel signals", "completion events and returned response objects"],
     [("TagContextManager mapping", "per-ID context of outstanding commands and responses", "axi_master.py")])

prop("C06", "Masters report error responses and user sidebands of each operation",
     "A master operation whose responses are all OKAY reports OKAY; an operation that received any error response reports a non-OKAY code that one of its own responses carried (SLVERR when APB pslverr was set on any of its transfers), and errors never leak into other operations. The response object carries the requested address and length/data, and for AXI the buser value of every burst and the ruser value of every beat in order, or None when that signal is not connected.",
     [FLT, SCHED, CFG],
     "all placements of SLVERR/DECERR/EXOKAY over beats and bursts of concurrent operations on AXI, AXI-Lite and APB masters, user signals present or absent, response signals present or absent",
     "no test ever produces an error response or a user signal on a response channel",
     ["axi_master.py", "axil_master.py", "apb.py"],
     [("response merging in the response handlers", "axi_master.py"), ("response merging", "axil_master.py"), ("pslverr sampling", "apb.py")],
     ["response objects", "B/R channel signals, pslverr"])

prop("C07", "AXI slave/RAM performs write bursts as AXI specifies",
     "For every legal write burst from any master (INCR, FIXED or WRAP, any beat size, unaligned start, sparse or empty strobes, W data before, with or after AW, WSTRB connected or not) the AXI slave/RAM writes exactly the strobed bytes to their AXI-specified addresses and modifies nothing else. When B is sent all of the burst's writes are visible in the memory/target, and overlapping bursts take effect in AW order.",
     [INP, SCHED, CFG],
     "all legal bursts and strobe patterns, bus widths 8..1024, all interleavings of AW and W and all B backpressure",
     "the RAM is only ever driven by the library's own master: INCR bursts with dense strobes, aligned AW/W; WRAP, FIXED, sparse strobes and W-before-AW never occur",
     ["axi_slave.py", "axi_ram.py"],
     [("AxiSlaveWrite._process_write address generation and strobe runs", "axi_slave.py"), ("AxiRamWrite._write", "axi_ram.py")],
     ["target/memory contents", "writes seen by the target", "B channel"])

prop("C08", "AXI slave/RAM returns the AXI-specified read data on every beat",
     "For every legal read burst (INCR, FIXED or WRAP, any beat size, unaligned start) the n-th R beat of the AXI slave/RAM carries, on the byte lanes of that beat, the target's current bytes at the AXI-specified address of that beat, every beat being one access of the target of its own (FIXED bursts drain FIFOs).",
     [INP, SCHED, CFG],
     "all legal bursts, bus widths 8..1024, any memory contents, all R backpressure",
     "the RAM is only read by the library's own master with INCR bursts; WRAP/FIXED and narrow wrap address sequences never occur",
     ["axi_slave.py", "axi_ram.py"],
     [("AxiSlaveRead._process_read address generation", "axi_slave.py")],
     ["R channel signals", "target/memory contents"])

prop("C09", "AXI slave answers each burst exactly once, with its ID, in order",
     "The AXI slave/RAM sends exactly one B per write burst, only after the burst's AW and all of its W beats were accepted, and exactly ARLEN+1 R beats per read burst with RLAST only on the last one; every response carries the ID of its burst and responses come in address-acceptance order, with no spurious, lost or duplicated responses however long the history is. A fault-free target yields OKAY on every response.",
     [SCHED, HIST],
     "all sequences of bursts, IDs and lengths, all AW/W/B/AR/R stall schedules",
     "the tests never check the response channels' IDs, order or counts under decoupled backpressure; only the library's master consumes them",
     ["axi_slave.py"],
     [("AxiSlaveWrite/_process_write and AxiSlaveRead/_process_read loops", "axi_slave.py")],
     ["B and R channel signals"])

prop("C10", "Target failures become error responses, confined to their transfers",
     "When the target of an AXI, AXI-Lite or APB slave raises an exception, the slave answers the affected write burst/transfer or read beat/transfer with SLVERR (pslverr), answers all unaffected ones with OKAY and correct data/effects, performs the other beats of an affected burst as usual, and keeps serving every later request correctly. No failure goes unreported, hangs the bus or stops the slave.",
     [FLT, SCHED],
     "every placement of target failures over the accesses of a transaction sequence, any failing exception type, immediate or after a delay, all log levels",
     "no test uses a failing target",
     ["axi_slave.py", "axil_slave.py", "apb.py"],
     [("exception guards around target accesses", "axi_slave.py"), ("exception guards", "axil_slave.py"), ("exception guards", "apb.py")],
     ["BRESP/RRESP/PSLVERR", "later transactions"])

prop("C11", "AXI-Lite master moves exactly the requested bytes, one word per beat",
     "Every AXI-Lite master write presents each requested byte exactly once, strobed at its address, and strobes nothing else; every read returns exactly the addressed bytes irrespective of data on other lanes. Each operation is issued as one transfer per touched bus word, in address order with the requested prot value, AW and W transfers pair up in order, and each operation completes exactly once after all its responses arrived, with responses matched to operations in issue order.",
     [INP, CFG, SCHED],
     "all addresses, lengths, data, prot values; data widths 8..512 and address widths; all AW/W/B/AR/R stall schedules including W ahead of AW; concurrent operations",
     "tests sample short lengths on one 32-bit bus against the library's own RAM only",
     ["axil_master.py", "axil_channels.py"],
     [("AxiLiteMasterWrite/_process_write", "axil_master.py"), ("AxiLiteMasterRead/_process_read_resp", "axil_master.py")],
     ["AW/W/B/AR/R signals", "returned response objects"])

prop("C12", "AXI-Lite slave/RAM performs transfers exactly and in order",
     "For every AXI-Lite write the slave/RAM writes exactly the strobed bytes of the addressed bus word (all bytes when WSTRB is absent) and nothing else, before sending exactly one B in order; for every read it returns the target's current content of the addressed word in exactly one R in order. This holds for unaligned addresses and W arriving before, with or after AW.",
     [INP, SCHED, CFG],
     "all addresses, strobes, data, widths 8..512, optional signal subsets and stall schedules",
     "the RAM is only driven by the library's own master, never with sparse strobes or W before AW",
     ["axil_slave.py", "axil_ram.py"],
     [("AxiLiteSlaveWrite/_process_write", "axil_slave.py"), ("AxiLiteSlaveRead/_process_read", "axil_slave.py")],
     ["B/R signals", "target/memory contents"])

prop("C13", "APB master obeys the APB protocol on every transfer",
     "Every transfer of the APB master has a one-cycle setup phase (psel without penable) followed by an access phase held until pready, with paddr, pwrite, pwdata, pstrb and pprot valid and unchanged throughout; penable is deasserted after completion, psel/penable are low while idle or paused, and reads drive pstrb to zero. A paused master starts no new transfer and finishes the one in progress.",
     [SCHED, CFG],
     "all pready wait-state schedules, back-to-back and spaced operations, pause schedules, widths and optional signals",
     "the tests never observe the bus; the library's own slave tolerates protocol errors with at most a warning",
     ["apb.py"],
     [("ApbMaster._run", "apb.py")],
     ["paddr/psel/penable/pwrite/pwdata/pstrb/pprot/pready signals"])

prop("C14", "APB master moves exactly the requested bytes",
     "Every APB master write presents each requested byte exactly once, strobed at its address, and strobes nothing else; every read returns exactly the addressed bytes as sampled when pready completed the transfer. Operations are executed one transfer per touched word, in address order and in call order, carrying the requested prot value, and each completes exactly once after its last transfer.",
     [INP, CFG, SCHED],
     "all addresses, lengths, data, prot, widths 8..64, wait states, prdata changing during wait states",
     "the tests sample lengths 1-31 on one 32-bit bus against the library's own RAM",
     ["apb.py"],
     [("ApbMaster._run word/strobe computation", "apb.py")],
     ["APB signals", "returned response objects"])

prop("C15", "APB slave/RAM performs each transfer exactly once",
     "For every APB transfer by a compliant master the slave/RAM performs exactly the strobed write (the whole word when pstrb is all ones) or returns the addressed word's current content with pready, exactly once per transfer, and never asserts pready without a selected transfer. Unaligned paddr addresses the containing word, and back-to-back transfers are not merged, skipped or repeated. A transfer that starts while the slave is paused is not completed until it is unpaused.",
     [INP, SCHED, CFG],
     "all addresses, strobes, data, widths 8..64, idle gaps and back-to-back transfers, pause schedules, slow targets",
     "only the library's own master drives the slave in the tests; no sparse strobes, back-to-back timing or slow targets",
     ["apb.py"],
     [("ApbSlave._run", "apb.py")],
     ["APB signals", "target accesses"])

prop("C16", "Driven VALID and payload hold until the handshake completes",
     "On every channel driven by a model (AXI and AXI-Lite channels, generic streams, AXI stream), once VALID is asserted it stays asserted and the whole payload stays bit-for-bit unchanged and fully defined until a clock edge with READY high, whatever pauses, further sends, queue clears or slow peers happen meanwhile (reset excepted). VALID does not wait for READY.",
     [SCHED, CFG],
     "all ready schedules (including ready low for long, ready only after valid), pause toggles, concurrent sends and clears",
     "a test can only sample a handful of ready patterns and the library's own sinks do not check stability",
     ["stream.py", "axis.py"],
     [("StreamSource._run", "stream.py"), ("AxiStreamSource._run", "axis.py")],
     ["valid/ready/payload signals at every clock edge"])

prop("C17", "Streams deliver every item exactly once, in order, within limits",
     "For every stream type made with the stream definition facility (and every AXI channel), the items sent into a source appear on the bus exactly once, in order, with exactly the given field values, and every handshake on the bus appears exactly once, in order, in the attached sink and monitor. A source never queues more than its occupancy limit (blocking sends wait, non-blocking sends raise QueueFull), and a sink over its limit applies backpressure, accepting at most one transfer that was already granted ready beyond the limit, and resumes after items are consumed or cleared. A source's idle() and wait() never report completion while an item is queued or not yet accepted on the bus.",
     [SCHED, CFG, HIST],
     "all signal sets with or without valid/ready, all send/recv/clear timings, pauses, limits and back-to-back traffic",
     "tests only use the predefined AXI channels indirectly with unbounded sinks; limits and clear are never exercised",
     ["stream.py", "axi_channels.py", "axil_channels.py"],
     [("StreamSource/StreamSink/StreamMonitor", "stream.py"), ("define_stream", "stream.py")],
     ["bus handshakes", "sink/monitor queues"])

prop("C18", "Pause stalls traffic without loss, and traffic resumes afterwards",
     "While a source (stream, AXI channel or AXI stream) is paused it starts no new transfer beyond the one already presented, and a sink, which looks at its pause once per clock, accepts nothing once it has been paused for two clock edges; pausing, unpausing and pause generators (advanced exactly once per clock, and not once removed or replaced) never lose, duplicate, corrupt or reorder data and never deadlock once unpaused.",
     [SCHED],
     "all pause/unpause times relative to the clock, pause generators of any pattern on both ends, any traffic",
     "tests use one fixed cycle pattern on AXI and AXIS only and check nothing but the data",
     ["stream.py", "axis.py", "apb.py"],
     [("pause property, pause generator", "stream.py"), ("pause handling", "axis.py")],
     ["valid/ready signals against the pause state", "end-to-end data"])

prop("C19", "Concurrent master/RAM operations are linearizable per byte",
     "For any concurrent set of read and write operations issued by any number of masters against a (multi-port) AXI, AXI-Lite or APB RAM, the observed results are linearizable per byte: every byte read returns the initial value or the value of a write that is not superseded before the read started and that started before the read finished, consistently with the real-time order of the operations. After all operations finished every byte holds a value some latest write left there.",
     [SCHED, HIST],
     "all overlapping operation mixes over one to four ports, all stall schedules on all channels",
     "the stress test checks only disjoint regions after completion",
     ["axi_master.py", "axi_slave.py", "axi_ram.py", "axil_master.py", "axil_slave.py", "axil_ram.py", "apb.py", "memory.py"],
     [("B only after the write took effect", "axi_slave.py"), ("shared mem object", "memory.py")],
     ["invocation/response history of the API"])

prop("C20", "Operations issue in call order; idle()/wait() track outstanding work",
     "A master issues operations on the bus in the order in which they were requested, whether through read()/write() or init_read()/init_write(). idle() is true exactly when every requested operation has completed, and wait()/wait_read()/wait_write() return only when (and always when) all operations of that kind requested so far have completed, at whatever moment they are called.",
     [SCHED, HIST],
     "all mixes of blocking and event-style calls from any number of tasks, calls placed immediately after each other or at completion instants, on AXI, AXI-Lite and APB masters",
     "the tests call wait() only after a clock cycle has passed and never mix the two call styles",
     ["axi_master.py", "axil_master.py", "apb.py"],
     [("in_flight_operations/_idle", "axi_master.py"), ("command queues", "axil_master.py"), ("command queue", "apb.py")],
     ["idle() samples", "completion events", "order on AW/AR/APB"])

prop("C21", "Invalid requests are rejected without any side effect",
     "A request with an out-of-range or negative address, a negative length, a range past the end of the address space, an ID that does not fit the ID signal, a beat size above the bus width, integer data, or a non-Event event argument raises ValueError from the call itself on every master. It leaves no trace: nothing appears on the bus, the master stays idle and later operations work.",
     [INP, HIST],
     "all invalid arguments around every boundary, for all masters and call styles, interleaved with valid traffic",
     "no test passes an invalid argument",
     ["axi_master.py", "axil_master.py", "apb.py"],
     [("argument checks", "axi_master.py"), ("argument checks", "axil_master.py"), ("argument checks", "apb.py")],
     ["exceptions", "bus signals", "idle()"])

prop("C22", "Reset flushes masters completely and they work afterwards",
     "Asserting the reset input of a master at any moment (also when it is already asserted at construction) completes every outstanding operation with None, deasserts its VALID/psel outputs, issues nothing while reset is held, and makes the master idle. After deassertion the master executes new operations correctly with no beat, response or state left over from before the reset, and operations that completed before the reset keep their results.",
     [FLT, SCHED],
     "all reset times relative to every phase of every operation, pulse lengths, repeated resets, both active levels, all masters",
     "no AXI/AXI-Lite/APB test asserts reset during traffic",
     ["axi_master.py", "axil_master.py", "apb.py", "reset.py", "stream.py"],
     [("_handle_reset flushes", "axi_master.py"), ("TagContextManager.flush", "axi_master.py"), ("Reset", "reset.py")],
     ["bus signals", "completion events", "later operations"])

prop("C23", "Reset clears slaves and channels and they work afterwards",
     "Asserting the reset input of an AXI, AXI-Lite or APB slave/RAM at any moment (also when already asserted at construction) drops all pending requests and responses, deasserts its READY/VALID/pready outputs and performs no access while reset is held. After deassertion every new transaction is served correctly, with no response belonging to a transaction from before the reset; memory contents written before are kept.",
     [FLT, SCHED],
     "all reset times relative to every phase of every transaction, pulse lengths, repeated resets, both active levels, all slaves",
     "no test asserts reset during traffic on a slave",
     ["axi_slave.py", "axil_slave.py", "apb.py", "reset.py", "stream.py"],
     [("_handle_reset", "axi_slave.py"), ("StreamBase.clear/_handle_reset", "stream.py")],
     ["bus signals", "target accesses", "later transactions"])

prop("C24", "Reset of AXI stream models drops only the frame in progress",
     "Asserting reset on an AXI stream source deasserts tvalid, abandons the frame in progress (firing its completion) and keeps the queued frames, which are sent complete and in order after reset; on a sink or monitor it deasserts tready (sink) and discards the partially received frame while keeping frames already received. While reset is held nothing is transferred, and after it every frame is transferred intact.",
     [FLT, SCHED],
     "all reset times relative to frame boundaries and handshakes, pulse lengths, repeated resets, both active levels",
     "no AXI stream test asserts reset during traffic",
     ["axis.py", "reset.py"],
     [("AxiStreamSource._handle_reset", "axis.py"), ("AxiStreamBase._handle_reset", "axis.py")],
     ["tvalid/tready", "frames received", "tx_complete"])

prop("C25", "AXI stream frames survive source-to-sink transfer unchanged",
     "Every non-empty frame sent through an AXI stream source is received by a connected sink (and monitor) exactly once and in order, with tdata equal to the bytes with tkeep=1 and tid/tdest/tuser equal to the values presented for those bytes (the value of the last byte presented in the same cycle), for every bus width, byte size and set of connected optional signals. Frame sending copies the frame, so later changes by the caller do not affect it.",
     [INP, CFG, SCHED],
     "all frame lengths and contents, byte sizes, lane counts, optional-signal subsets with tlast and tkeep available, pauses on both ends",
     "the tests cover one signal set with 8-bit bytes and constant sidebands for a few lengths",
     ["axis.py"],
     [("AxiStreamSource._run", "axis.py"), ("AxiStreamSink._run", "axis.py"), ("AxiStreamFrame.compact", "axis.py")],
     ["frames sent against frames received"])

prop("C26", "AXI stream source drives each frame's exact bus encoding",
     "For every frame the AXI stream source drives ceil(len/lanes) beats: byte k of the frame on lane k mod lanes of beat k div lanes, tkeep equal to the frame's tkeep bit for used lanes (1 by default) and 0 for unused lanes, tlast on the last beat only, and tid/tdest/tuser equal to the value of the last byte in the beat (scalars on every beat, short lists extended by their last value, 0 by default). Frames appear back-to-back in send order, without beats in between.",
     [INP, CFG, SCHED],
     "all frames and sideband forms (None, int, short, full and long lists), all widths, byte sizes, lane counts, optional-signal subsets, tready schedules",
     "the tests never look at the bus encoding; sink and source errors can cancel",
     ["axis.py"],
     [("AxiStreamSource._run packing", "axis.py"), ("AxiStreamFrame.normalize", "axis.py")],
     ["all AXI stream signals at handshakes"])

prop("C27", "AXI stream sink and monitor reconstruct exactly what is on the bus",
     "For every legal beat sequence driven by any source, the sink and the monitor deliver exactly one frame per tlast (per beat when tlast is absent) containing all bytes and per-byte sidebands of its beats in order, with compacted frames dropping tkeep=0 bytes. The monitor reports the same frames as the sink and never drives or disturbs the bus.",
     [INP, CFG, SCHED],
     "all beat sequences including null and sparse tkeep beats and mid-frame stalls, all optional-signal subsets (absent tready/tvalid/tlast/tkeep), all widths and byte sizes",
     "in the tests only the library's own source, with dense tkeep, feeds the sink",
     ["axis.py"],
     [("AxiStreamMonitor._run", "axis.py"), ("AxiStreamSink._run", "axis.py")],
     ["frames delivered against beats on the bus"])

prop("C28", "AXI stream queue accounting and limits are exact",
     "At every moment the AXI stream models' count(), empty(), queue_occupancy_frames and queue_occupancy_bytes equal the frames and bytes actually queued, and full() tells whether a configured limit is exceeded. A full source blocks send() and makes send_nowait() raise QueueFull; a full sink stops accepting after at most one already granted transfer; both resume as soon as the queue drains or is cleared.",
     [HIST, SCHED],
     "all histories of send/recv/clear/limit changes on sources, sinks and monitors, all frame sizes",
     "no test sets a limit or reads the occupancy",
     ["axis.py"],
     [("queue_occupancy_bytes/frames updates", "axis.py"), ("full()", "axis.py"), ("clear()", "axis.py")],
     ["occupancy attributes after every step", "tready", "send results"])

prop("C29", "tx_complete, timestamps, idle() and wait() tell the truth",
     "Every non-empty frame sent through an AXI stream source fires its tx_complete event or callback exactly once, with the frame, when its last beat is presented (or when it is flushed by clear or reset, then without an end time), with sim_time_start and sim_time_end equal to the times its first and last beats were put on the bus; received frames carry the times of their first and last handshakes. A source's idle() is never true, and wait() never returns, while any of its queued data has not been accepted on the bus (unless cleared or reset); a sink's or monitor's idle() is false while a frame is partially received.",
     [SCHED, HIST],
     "all frames, queue depths, stall/pause schedules, clears and call times",
     "tests check the time fields of back-to-back frames only",
     ["axis.py"],
     [("handle_tx_complete", "axis.py"), ("idle_event/active", "axis.py")],
     ["tx_complete events", "sim_time fields against the bus trace", "idle()/wait()"])

prop("C30", "AXI stream frame operations preserve content",
     "normalize() extends every sideband to one entry per data byte, keeping given entries, replicating the last one and using the documented defaults (an empty list counts as not given); compact() removes exactly the tkeep=0 bytes together with their sideband entries and folds equal sidebands to a scalar; copying yields an equal, independent frame. Comparison is symmetric, treats None sidebands as wildcards and scalars as equal to lists of that scalar, and two frames differing in data, or in sideband values given on both sides, never compare equal.",
     [INP],
     "all frames: bytes/bytearray/list data, None/scalar/short/full/long sidebands, any tkeep pattern including all zero",
     "unit tests exercise the frame class only through default frames",
     ["axis.py"],
     [("AxiStreamFrame.normalize/compact/__eq__/copy constructor", "axis.py")],
     ["frame fields before and after"])

prop("C31", "AXI stream byte reads return the exact byte stream",
     "read() and read_nowait() on a sink or monitor return the concatenation of the tkeep=1 bytes of all received frames in order, each byte exactly once, at most count bytes per call (everything available by default), leaving the rest for later calls; read() waits until at least one byte is available.",
     [HIST, SCHED],
     "all frame sequences, split points, counts, and interleavings of reading and arrival",
     "no test calls read() with a count",
     ["axis.py"],
     [("AxiStreamMonitor.read/read_nowait", "axis.py")],
     ["returned bytes"])

prop("C32", "Address space routes each byte to the right region or raises",
     "For every address map, a read or write of an AddressSpace (or Pool) reaches for each byte exactly the region mapped there, at the address given by the region's base and offset (untranslated for offset None), requests spanning adjacent regions are split without losing, duplicating or reordering bytes, and keyword arguments are passed through. An access touching any unmapped byte raises, a rejected read or write that starts unmapped touches no region, and registering an overlapping region is refused and changes nothing.",
     [INP, CFG],
     "all address maps (adjacent, gapped, nested spaces, the same region mapped several times, any offset, None offset), all accesses including those straddling boundaries",
     "the tests use one small fixed map",
     ["address_space.py"],
     [("AddressSpace.find_regions/register_region/read/write", "address_space.py")],
     ["accesses seen by the regions", "returned data", "exceptions"])

prop("C33", "Windows translate, confine and report addresses correctly",
     "Accesses through any chain of windows reach exactly offset+address of the parent and never anything outside the window: out-of-range accesses and window creations raise ValueError and touch nothing. get_absolute_address() of windows, regions, pools and nested address spaces is the address at which the root address space reaches the same byte (None where the region is mapped with a translation; hierarchies registered from the root down).",
     [INP, CFG],
     "all chains of windows, window pools, regions, pools and nested spaces, all addresses and lengths around the bounds",
     "tests use one-level windows at a few addresses",
     ["address_space.py"],
     [("Window.get_parent_address", "address_space.py"), ("MemoryInterface.check_range/get_absolute_address/create_window", "address_space.py")],
     ["parent accesses", "exceptions", "absolute addresses"])

prop("C34", "Allocators hand out disjoint, aligned, in-range blocks, without leaks",
     "Every block handed out by the buddy allocator, a window pool or a region pool lies inside the pool, is naturally aligned to its size (at least the minimum allocation) rounded up to a power of two, is disjoint from all live blocks and keeps at least the minimum allocation to itself, for every history of allocations and frees and any pool size. Freed space becomes allocatable again (freeing everything restores the ability to satisfy any request that was satisfiable at the start), sizes out of range and unknown frees raise ValueError, and an allocation fails only when no suitable free block exists.",
     [HIST, INP],
     "all alloc/free histories, sizes, pool sizes including non-powers of two, min_alloc values",
     "the unit tests run a few fixed alloc/free sequences on a power-of-two pool",
     ["buddy_allocator.py", "address_space.py"],
     [("BuddyAllocator.alloc/free", "buddy_allocator.py"), ("WindowPool.alloc_window, Pool.alloc_region", "address_space.py")],
     ["returned blocks", "exceptions"])

prop("C35", "Memories behave as flat zero-initialised byte arrays",
     "Sparse memories, memory regions (mmap or sparse backed) and RAM models behave for in-range accesses exactly like one flat, initially zero byte array: a read returns the last byte written at each address through any access path (methods, indexing, slicing, word accessors, the bus, another port sharing the same backing), at any address up to the end, across internal page boundaries. Out-of-range sparse accesses and wrong-size or stepped slice assignments raise and change nothing.",
     [INP, HIST],
     "all access sequences over all paths, sizes up to 2^64, page-straddling ranges",
     "unit tests sample a few addresses of one memory type at a time",
     ["sparse_memory.py", "memory.py", "address_space.py", "axi_ram.py", "axil_ram.py", "apb.py"],
     [("SparseMemory.read/write", "sparse_memory.py"), ("Memory", "memory.py"), ("MemoryRegion/SparseMemoryRegion", "address_space.py")],
     ["data returned"])

prop("C36", "Word accessors are equivalent to byte accesses",
     "On every memory interface (regions, windows, address spaces, masters, RAM models) the word, dword, qword, byte and n-byte accessors read and write exactly the bytes the plain read()/write() of the same range would, in the requested byte order, for any word size and count, passing extra arguments through; values that do not fit the word size raise and write nothing.",
     [INP, CFG],
     "all word sizes, counts, byte orders, addresses and values, on every kind of memory interface",
     "tests use default word sizes in little endian on masters only; byte accessors of regions are never called",
     ["address_space.py", "memory.py"],
     [("MemoryInterface.read_words/write_words/read_byte/write_byte ...", "address_space.py"), ("Memory accessors", "memory.py")],
     ["underlying byte accesses", "values returned"])

prop("C37", "Bridging bus slaves, address spaces and masters is transparent",
     "A bus slave (AXI, AXI-Lite or APB) whose target is any memory interface (region, window, address space, or another bus master, in any mix) forwards every upstream access exactly once with the right bytes, reads return the far memory's content, and exceptions raised by the far end propagate as error responses, at every log level. A peripheral region forwards each access to its object exactly once whether the object's methods are synchronous or asynchronous, returning its result and passing its exceptions on.",
     [CFG, INP],
     "all bridge topologies over the three buses, all accesses, sync/async peripherals, any log level",
     "the tests never chain a slave to an address space or master",
     ["address_space.py", "axi_slave.py", "axil_slave.py", "apb.py"],
     [("slave _read/_write to target", "axi_slave.py"), ("PeripheralRegion", "address_space.py")],
     ["accesses at the far end", "data returned upstream"])

prop("C38", "Hex dumps show exactly the requested bytes",
     "For every address, length, row size, prefix and offset the hex dump functions and methods (printing, list and string forms agree) show exactly the requested bytes (clipped to the data; sparse memories may refuse ranges past their end), each once, in order, each row labelled with its address and followed by its printable characters in one aligned column, and show nothing for an empty range.",
     [INP],
     "all data, start/length/row size/prefix/offset combinations on buffers, memories and regions",
     "only one example output is tested",
     ["utils.py", "memory.py", "sparse_memory.py", "address_space.py"],
     [("hexdump_line/hexdump_lines/hexdump_str/hexdump", "utils.py")],
     ["text produced"])

prop("C39", "Model instances are independent of each other",
     "Any number of models of any kind and class may coexist in one simulation, created at any time, on their own busses, clocks and resets: each behaves exactly as it would alone. Traffic, stalls, pauses, resets, limits, errors, invalid requests and the construction of one instance never change what another one drives, stores, reports or when it completes, and a model only ever drives the signals of its own side of its own bus.",
     [CFG, SCHED],
     "all mixes of masters, slaves, RAMs, streams and AXI streams (also several of one class), all clock relations, all traffic, pause and reset schedules of each instance",
     "the tests use one or two cooperating models on one clock and reset, so state shared between instances of a class goes unnoticed",
     ["axi_master.py", "axi_slave.py", "axil_master.py", "axil_slave.py", "apb.py", "axis.py", "stream.py", "reset.py"],
     [("per-instance queues, events and contexts", "axi_master.py"), ("define_stream classes", "stream.py"), ("Reset", "reset.py")],
     ["all bus signals of every instance", "results, stores and completion of every instance"])

prop("C40", "Busses bind exactly the named signals; bad designs are refused",
     "from_prefix, from_entity and from_channels (with any separator) bind every bus signal to exactly the design signal of that name and treat absent optional signals as absent; every model constructed on a consistent bus works, whichever way and in whichever parts (whole, write only, read only, per channel) the bus was built. Constructing a bus or model on an inconsistent design raises an exception: a missing mandatory signal, a wrong width of a fixed-width signal, strobes that do not match the data width, response IDs of another width than request IDs, data widths that are not whole bytes, AXI stream lanes or byte sizes that do not divide the bus evenly or are given twice.",
     [CFG],
     "all signal subsets, widths, prefixes, separators, ways of construction, and model classes",
     "the tests construct every model in one way on consistent designs with all signals",
     ["axi_channels.py", "axil_channels.py", "stream.py", "axis.py", "apb.py", "axi_master.py", "axi_slave.py", "axil_master.py", "axil_slave.py"],
     [("bus classes", "axi_channels.py"), ("StreamBase.__init__ width checks", "stream.py"), ("AxiStreamBase.__init__", "axis.py"), ("model __init__ assertions", "axi_master.py")],
     ["handles bound", "exceptions of constructors", "data moved by the constructed models"])

prop("C41", "assert_reset() and the reset signal act alike and combine",
     "A model is in reset exactly while its reset signal is at the active level or assert_reset(True) is in effect; assert_reset() without argument is a complete pulse, and neither way of asking for reset can end a reset that the other one still asks for. A reset asserted by call has every effect of one asserted by the signal (channels released and silent, unfinished work dropped, waiters released, events set, queued stream data kept), right after construction, in operation and when idle, and the model works normally afterwards, also when it has no reset signal at all.",
     [CFG, SCHED],
     "all models, reset levels, traffic, moments and overlaps of calls, pulses and signal edges",
     "no test calls assert_reset(), and the tests that pulse the reset signal do so once, at one moment",
     ["reset.py", "axi_master.py", "axi_slave.py", "axil_master.py", "axil_slave.py", "apb.py", "axis.py", "stream.py"],
     [("Reset.assert_reset / _update_reset", "reset.py"), ("_handle_reset of every model", "stream.py")],
     ["bus signals under and after reset", "results, queues and events of every model"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")

"""Signal lists of generated DUTs: [name, width, initial value]."""

AXI_OPT = ["awlock", "awcache", "awprot", "awqos", "awregion", "awuser", "wstrb", "wuser", "bresp", "buser",
           "arlock", "arcache", "arprot", "arqos", "arregion", "aruser", "rresp", "ruser"]


def axi(prefix, dw, aw, idw, opt=None, userw=4, write=True, read=True, init=0):
    opt = AXI_OPT if opt is None else opt
    s = []

    def a(n, w):
        s.append([f"{prefix}_{n}", w, init])

    def o(n, w):
        if n in opt:
            a(n, w)

    for c, on in (("aw", write), ("ar", read)):
        if not on:
            continue
        a(c + "id", idw); a(c + "addr", aw); a(c + "len", 8); a(c + "size", 3); a(c + "burst", 2)
        o(c + "lock", 1); o(c + "cache", 4); o(c + "prot", 3); o(c + "qos", 4); o(c + "region", 4); o(c + "user", userw)
        a(c + "valid", 1); a(c + "ready", 1)
    if write:
        a("wdata", dw); o("wstrb", dw // 8); a("wlast", 1); o("wuser", userw); a("wvalid", 1); a("wready", 1)
        a("bid", idw); o("bresp", 2); o("buser", userw); a("bvalid", 1); a("bready", 1)
    if read:
        a("rid", idw); a("rdata", dw); o("rresp", 2); a("rlast", 1); o("ruser", userw); a("rvalid", 1); a("rready", 1)
    return s


AXIL_OPT = ["awprot", "wstrb", "bresp", "arprot", "rresp"]


def axil(prefix, dw, aw, opt=None, init=0):
    opt = AXIL_OPT if opt is None else opt
    s = []

    def a(n, w):
        s.append([f"{prefix}_{n}", w, init])

    def o(n, w):
        if n in opt:
            a(n, w)

    a("awaddr", aw); o("awprot", 3); a("awvalid", 1); a("awready", 1)
    a("wdata", dw); o("wstrb", dw // 8); a("wvalid", 1); a("wready", 1)
    o("bresp", 2); a("bvalid", 1); a("bready", 1)
    a("araddr", aw); o("arprot", 3); a("arvalid", 1); a("arready", 1)
    a("rdata", dw); o("rresp", 2); a("rvalid", 1); a("rready", 1)
    return s


APB_OPT = ["pprot", "pslverr"]


def apb(prefix, dw, aw, opt=None, init=0):
    opt = APB_OPT if opt is None else opt
    s = []

    def a(n, w):
        s.append([f"{prefix}_{n}", w, init])

    a("paddr", aw); a("psel", 1); a("penable", 1); a("pwrite", 1); a("pwdata", dw); a("pstrb", dw // 8)
    a("pready", 1); a("prdata", dw)
    if "pprot" in opt:
        a("pprot", 3)
    if "pslverr" in opt:
        a("pslverr", 1)
    return s


AXIS_OPT = ["tvalid", "tready", "tlast", "tkeep", "tid", "tdest", "tuser"]


def axis(prefix, dw, lanes, opt=None, idw=8, destw=8, userw=8, init=0):
    opt = AXIS_OPT if opt is None else opt
    s = [[f"{prefix}_tdata", dw, init]]
    w = {"tvalid": 1, "tready": 1, "tlast": 1, "tkeep": lanes, "tid": idw, "tdest": destw, "tuser": userw}
    for n in AXIS_OPT:
        if n in opt:
            s.append([f"{prefix}_{n}", w[n], init])
    return s

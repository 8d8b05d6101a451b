"""Offline oracle: AXI master operations against the bursts seen on the bus."""
from .axibfm import FIXED, INCR, WRAP, beat

ATTRS = ("lock", "cache", "prot", "qos", "region", "user")


def legal(env, b, ch, bus_bytes, max_len, size_req=None):
    """C03: legality of a single burst."""
    p = "aw" if ch == "w" else "ar"
    bad = []
    for k in ("addr", "len", "size", "burst", "id"):
        if b[k] is None:
            return [f"{k} undefined"]
    if (1 << b["size"]) > bus_bytes:
        bad.append(f"beat size 2^{b['size']} exceeds the bus")
    if b["burst"] not in (FIXED, INCR, WRAP):
        bad.append("reserved burst type")
        return bad
    lim = min(max_len, 256)
    if b["burst"] == FIXED:
        lim = min(lim, 16)
    if b["len"] > lim:
        bad.append(f"{b['len']} beats exceed the limit {lim}")
    nb = 1 << b["size"]
    al = b["addr"] // nb * nb
    if b["burst"] == INCR and (al & ~0xfff) != ((al + nb * b["len"] - 1) & ~0xfff):
        bad.append("crosses a 4 KiB boundary")
    if b["burst"] == WRAP and (b["len"] not in (2, 4, 8, 16) or b["addr"] % nb):
        bad.append("illegal WRAP length or alignment")
    if ch == "w":
        for n, w in enumerate(b["beats"]):
            last = n == b["len"] - 1
            if bool(w["wlast"]) != last:
                bad.append(f"WLAST={w['wlast']} on beat {n+1} of {b['len']}")
                break
        if b.get("tw") is not None and len(b["beats"]) != b["len"]:
            bad.append(f"{len(b['beats'])} W beats for a burst of {b['len']}")
    return bad


def match_writes(env, ops, bursts, bus_bytes, max_len, strobes, complete=True):
    """Partition the AW/W stream over the operations in call order, checking C01, C03, C04 on the way.

    Fills op['bursts'].  Returns True when everything matched."""
    i = 0
    ok = True
    kbeat = 0
    full = (1 << bus_bytes) - 1
    for op in ops:
        op["bursts"] = []
        data = op["data"]
        n = len(data)
        done = 0                      # bytes presented
        k = 0                         # beat index within the op
        want_one = op["burst"] == WRAP
        if n == 0:
            # nothing to write: at most one beat without strobes
            if i < len(bursts) and bursts[i]["addr"] == op["addr"] and bursts[i]["len"] == 1 and \
                    all(w.get("wstrb") == 0 or not strobes for w in bursts[i]["beats"]):
                op["bursts"].append(bursts[i])
                i += 1
            continue
        total = n
        low = op["addr"] // total * total if op["burst"] == WRAP else 0
        while done < n:
            if i >= len(bursts):
                if complete:
                    env.v(("C01", "C03", "C20"), "operation issued too few bursts", op=desc(op), presented=done)
                return False
            b = bursts[i]
            i += 1
            op["bursts"].append(b)
            bad = legal(env, b, "w", bus_bytes, max_len)
            if bad:
                env.v("C03", f"illegal write burst: {bad}", op=desc(op), burst=bdesc(b))
                ok = False
                if any("undefined" in x for x in bad):
                    return False
            if b["burst"] != op["burst"]:
                env.v(("C03", "C04", "C20"), "burst type differs from the requested one", op=desc(op), burst=bdesc(b))
                return False
            if b["size"] > op["size"]:
                env.v(("C03",), "beat size exceeds the requested one", op=desc(op), burst=bdesc(b))
                ok = False
            if op["burst"] == WRAP and len(op["bursts"]) > 1:
                env.v(("C03", "C01"), "WRAP request split into several bursts", op=desc(op))
                return False
            for q in range(b["len"]):
                if q >= len(b["beats"]):
                    if complete:
                        env.v(("C01", "C03"), "W beats missing", op=desc(op), burst=bdesc(b))
                    return False
                w = b["beats"][q]
                a, lo, up = beat(b["burst"], b["addr"], b["size"], b["len"], q, bus_bytes)
                word = a // bus_bytes * bus_bytes
                strb = w["wstrb"] if strobes else ((1 << (up + 1)) - 1) & ~((1 << lo) - 1) & full
                if strb is None or w["wdata"] is None:
                    env.v(("C01", "C16"), "undefined strobes or data", op=desc(op))
                    return False
                if strb & ~(((1 << (up + 1)) - 1) & ~((1 << lo) - 1)):
                    env.v(("C01", "C03"), f"strobe {strb:#x} outside the lanes {lo}..{up} of the beat", op=desc(op), burst=bdesc(b), beat=q)
                    return False
                lanes = [j for j in range(lo, up + 1) if strb >> j & 1]
                if strobes and not lanes:
                    env.v(("C03",), "beat without any byte of the request", op=desc(op), burst=bdesc(b), beat=q)
                    ok = False
                for j in lanes:
                    addr = word + j
                    if op["burst"] == FIXED:
                        want = op["addr"] + done % (1 << op["size"])
                    elif op["burst"] == WRAP:
                        want = low + (op["addr"] - low + done) % total
                    else:
                        want = op["addr"] + done
                    if not strobes and (addr < want or done >= n):
                        continue          # without strobes the edges are padded; content is checked below
                    if done >= n or addr != want:
                        props = ("C01", "C03", "C20")
                        env.v(props, f"byte at {addr:#x} written where {want:#x} (byte {done} of {n}) was expected",
                              op=desc(op), burst=bdesc(b), beat=q)
                        return False
                    got = w["wdata"] >> 8 * j & 0xff
                    if got != data[done]:
                        env.v("C01", f"wrong data for byte {done} of the request: {got:#04x} instead of {data[done]:#04x}",
                              op=desc(op), burst=bdesc(b), beat=q)
                        return False
                    done += 1
                    env.count["bytes_checked"] += 1
                # wuser
                wu = w.get("wuser")
                if "wuser" in w:
                    u = op.get("wuser", 0)
                    if u is None:
                        exp = 0
                    elif isinstance(u, int):
                        exp = u
                    else:
                        exp = u[k] if k < len(u) else 0
                    if wu != exp:
                        env.v("C04", f"wuser {wu} on beat {k} of the operation, expected {exp}", op=desc(op))
                        ok = False
                k += 1
                if done >= n and q < b["len"] - 1:
                    env.v(("C03", "C01"), "beats beyond the end of the request", op=desc(op), burst=bdesc(b))
                    return False
            kbeat += b["len"]
        ok &= attrs(env, op, "aw")
    if i < len(bursts):
        env.v(("C01", "C03", "C20", "C21"), "bursts on the bus that no operation asked for", burst=bdesc(bursts[i]))
        ok = False
    return ok


def match_reads(env, ops, bursts, bus_bytes, max_len, complete=True):
    i = 0
    ok = True
    for op in ops:
        op["bursts"] = []
        n = op["n"]
        if n == 0:
            if i < len(bursts) and bursts[i]["addr"] == op["addr"] and bursts[i]["len"] == 1:
                op["bursts"].append(bursts[i])
                i += 1
            continue
        done = 0
        first = True
        while done < n:
            if i >= len(bursts):
                if complete:
                    env.v(("C02", "C03", "C20"), "operation issued too few bursts", op=desc(op), covered=done)
                return False
            b = bursts[i]
            i += 1
            op["bursts"].append(b)
            bad = legal(env, b, "r", bus_bytes, max_len)
            if bad:
                env.v("C03", f"illegal read burst: {bad}", op=desc(op), burst=bdesc(b))
                ok = False
                if any("undefined" in x for x in bad):
                    return False
            if b["burst"] != op["burst"]:
                env.v(("C03", "C04", "C20"), "burst type differs from the requested one", op=desc(op), burst=bdesc(b))
                return False
            if b["size"] > op["size"]:
                env.v(("C03",), "beat size exceeds the requested one", op=desc(op), burst=bdesc(b))
                ok = False
            nb = 1 << b["size"]
            if op["burst"] == WRAP:
                if b["addr"] != op["addr"] or b["len"] * nb != n:
                    env.v(("C03", "C02", "C20"), "WRAP read burst differs from the request", op=desc(op), burst=bdesc(b))
                    return False
                done = n
            elif op["burst"] == FIXED:
                if b["addr"] != op["addr"]:
                    env.v(("C03", "C02", "C20"), "FIXED read burst at another address", op=desc(op), burst=bdesc(b))
                    return False
                if b["len"] > -(-(n - done) // nb):
                    env.v(("C03",), "beats beyond the end of the request", op=desc(op), burst=bdesc(b))
                    return False
                done += b["len"] * nb
            else:
                pos = op["addr"] + done
                al = b["addr"] // nb * nb
                if not (al <= b["addr"] <= pos and al == pos // nb * nb) or (done and b["addr"] != pos):
                    env.v(("C03", "C02", "C20"), f"read burst does not continue at {pos:#x}", op=desc(op), burst=bdesc(b))
                    return False
                endb = al + b["len"] * nb
                if endb - nb >= op["addr"] + n:
                    env.v(("C03",), "beats beyond the end of the request", op=desc(op), burst=bdesc(b))
                    return False
                done = endb - op["addr"]
        ok &= attrs(env, op, "ar")
    if i < len(bursts):
        env.v(("C02", "C03", "C20", "C21"), "bursts on the bus that no operation asked for", burst=bdesc(bursts[i]))
        ok = False
    return ok


def attrs(env, op, p):
    ok = True
    ids = {b["id"] for b in op["bursts"]}
    if len(ids) > 1:
        env.v("C04", f"operation used several IDs {sorted(ids)}", op=desc(op))
        ok = False
    if op.get("id") is not None and ids and ids != {op["id"]}:
        env.v("C04", f"operation used ID {sorted(ids)} instead of the requested {op['id']}", op=desc(op))
        ok = False
    for b in op["bursts"]:
        for a in ATTRS:
            k = p + a
            if k in b["attr"] and b["attr"][k] != op["attr"][a]:
                env.v("C04", f"{k} is {b['attr'][k]}, requested {op['attr'][a]}", op=desc(op), burst=bdesc(b))
                ok = False
            elif k in b["attr"]:
                env.count["attributes_checked"] += 1
    return ok


def check_write_result(env, op, has_resp, has_user):
    r = op["result"]
    if r is None:
        env.v(("C05", "C06"), "operation completed without a result", op=desc(op))
        return
    bs = op["bursts"]
    for b in bs:
        if not b["done"] or b["tb"] > op["t_done"]:
            env.v("C05", "operation completed before all of its responses were delivered", op=desc(op), burst=bdesc(b))
            return
    want = [b["resp"] for b in bs]
    _resp(env, op, want, has_resp)
    if r.address != op["addr"] or r.length != len(op["data"]):
        env.v("C06", f"response object has address {r.address:#x} length {r.length}", op=desc(op))
    exp = [b["user"] for b in bs] if has_user else None
    if (list(r.user) if r.user is not None else None) != exp:
        env.v(("C05", "C06"), f"buser values {r.user}, expected {exp}", op=desc(op))


def check_read_result(env, op, has_resp, has_user, bus_bytes):
    r = op["result"]
    if r is None:
        env.v(("C05", "C06"), "operation completed without a result", op=desc(op))
        return
    bs = op["bursts"]
    for b in bs:
        if not b["done"] or b["tb"] > op["t_done"]:
            env.v("C05", "operation completed before all of its responses were delivered", op=desc(op), burst=bdesc(b))
            return
    beats = [x for b in bs for x in b["beats"]]
    data = b"".join(x["data"] for x in beats)
    # unaligned request: drop bytes below the requested address (burst may start aligned down)
    skip = op["addr"] - bs[0]["addr"] if bs and op["burst"] == INCR else 0
    exp = data[skip:skip + op["n"]]
    got = bytes(r.data)
    if got != exp:
        k = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
        env.v(("C02", "C05"), f"read returned {len(got)} bytes, differing from the slave's {len(exp)} bytes at index {k}",
              op=desc(op), got=got, expected=exp)
    env.count["bytes_checked"] += len(exp)
    if bytes(r) != got:
        env.v("C02", "bytes(response) differs from response.data", op=desc(op))
    _resp(env, op, [x["resp"] for x in beats], has_resp)
    if r.address != op["addr"]:
        env.v("C06", f"response object has address {r.address:#x}", op=desc(op))
    exp = [x["user"] for x in beats] if has_user else None
    if (list(r.user) if r.user is not None else None) != exp:
        env.v(("C05", "C06"), f"ruser values {r.user}, expected {exp}", op=desc(op))


def _resp(env, op, want, has_resp):
    got = int(op["result"].resp)
    if not has_resp or not want or all(x == 0 for x in want):
        if got != 0:
            env.v(("C06", "C05"), f"operation reports response {got} although all of its responses were OKAY", op=desc(op), responses=want)
    elif len(set(want)) == 1:
        if got != want[0]:
            env.v(("C06", "C05"), f"operation reports response {got}, all of its responses were {want[0]}", op=desc(op))
        env.count["error_ops"] += 1
    else:
        if got == 0 or got not in want:
            env.v(("C06", "C05"), f"operation reports response {got}, its responses were {sorted(set(want))}", op=desc(op), responses=want)
        env.count["error_ops"] += 1


def desc(op):
    d = {k: v for k, v in op.items() if k in ("kind", "addr", "n", "size", "burst", "id", "attr", "wuser", "seq", "style", "t_call", "t_done")}
    if "data" in op:
        d["data"] = op["data"].hex() if len(op["data"]) < 64 else f"{len(op['data'])} bytes"
    if "addr" in d:
        d["addr"] = hex(d["addr"])
    return d


def bdesc(b):
    return {"addr": hex(b["addr"]) if b["addr"] is not None else None, "len": b["len"], "size": b["size"], "burst": b["burst"],
            "id": b["id"], "index": b["i"], "t": b["t"],
            "beats": [{k: (hex(v) if isinstance(v, int) else repr(v)) for k, v in x.items()} for x in b["beats"][:8]]}

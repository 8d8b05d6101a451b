"""Offline oracle: AXI-Lite and APB master operations against the transfers seen on the bus."""
from .axiops import desc


def words(op, bb):
    """(word address, first lane, end lane, offset into the data) of every transfer of the operation."""
    out = []
    a, end = op["addr"], op["addr"] + op["n"]
    while a < end:
        w = a // bb * bb
        e = min(end, w + bb)
        out.append((w, a - w, e - w, a - op["addr"]))
        a = e
    return out


def match(env, ops, xfers, bb, P, kind_of, prot_present, complete=True):
    """Pairs the transfers with the operations in call order.  P: property id of the data/tiling rule."""
    i = 0
    for op in ops:
        op["xf"] = []
        op["full"] = False
        if op["n"] == 0:
            # at most one transfer that writes nothing
            if i < len(xfers):
                x = xfers[i]
                nxt = next((o for o in ops[ops.index(op) + 1:] if o["n"]), None)
                if x["addr"] is not None and x["addr"] // bb == op["addr"] // bb and kind_of(x) == op["kind"] and \
                        (op["kind"] == "r" or not x.get("strb")) and not (nxt and op["addr"] % bb == 0):
                    op["xf"].append(x)
                    i += 1
            op["full"] = True
            continue
        for w, lo, hi, off in words(op, bb):
            if i >= len(xfers):
                if complete:
                    env.v((P, "C20"), "operation issued too few transfers", op=desc(op), issued=len(op["xf"]))
                return False
            x = xfers[i]
            i += 1
            op["xf"].append(x)
            if x["addr"] is None or kind_of(x) != op["kind"]:
                env.v((P, "C20"), "transfer does not belong to the operation that is due", op=desc(op), transfer=tdesc(x))
                return False
            if x["addr"] // bb * bb != w:
                env.v((P, "C20"), f"transfer addresses {x['addr']:#x}, word {w:#x} was due", op=desc(op), transfer=tdesc(x))
                return False
            if prot_present and x["prot"] != op["prot"]:
                env.v((P,), f"transfer carries prot {x['prot']}, requested {op['prot']}", op=desc(op), transfer=tdesc(x))
                return False
            if op["kind"] == "w":
                if x.get("data") is None or (x.get("has_strb") and x.get("strb") is None):
                    if not complete and x.get("t_w", 1) is None:
                        return False
                    env.v((P,), "undefined write data or strobes", op=desc(op), transfer=tdesc(x))
                    return False
                want = (1 << hi) - (1 << lo)
                if x.get("has_strb") and x["strb"] != want:
                    env.v((P,), f"strobes {x['strb']:#x}, the request covers {want:#x} of this word", op=desc(op), transfer=tdesc(x))
                    return False
                for j in range(lo, hi):
                    got = x["data"] >> 8 * j & 0xff
                    if got != op["data"][off + j - lo]:
                        env.v((P,), f"wrong data for byte {off + j - lo} of the request", op=desc(op), transfer=tdesc(x))
                        return False
                    env.count["bytes_checked"] += 1
            elif x.get("has_strb") and x.get("strb"):
                env.v((P, "C13"), f"read transfer drives strobes {x['strb']:#x}", op=desc(op), transfer=tdesc(x))
                return False
        op["full"] = True
    if i < len(xfers):
        env.v((P, "C20", "C21", "C22"), "transfer on the bus that no operation asked for", transfer=tdesc(xfers[i]))
        return False
    return True


def check_result(env, op, bb, P, has_resp, err_of, prop="C06"):
    r = op["result"]
    if r is None:
        env.v((P, "C06"), "operation completed without a result", op=desc(op))
        return
    xs = op["xf"]
    for x in xs:
        if x["t_done"] is None or x["t_done"] > op["t_done"]:
            env.v((P,), "operation completed before all of its transfers were answered", op=desc(op), transfer=tdesc(x))
            return
    errs = [err_of(x) for x in xs]
    got = int(r.resp)
    bad = [e for e in errs if e]
    if has_resp and bad:
        env.count["error_ops"] += 1
        if got == 0 or got not in bad:
            env.v(("C06",), f"operation reports response {got}, its transfers were answered {sorted(set(errs))}", op=desc(op))
    elif got:
        env.v(("C06",), f"operation reports response {got} although no transfer failed", op=desc(op))
    if r.address != op["addr"]:
        env.v("C06", f"response object has address {r.address:#x}", op=desc(op))
    if op["kind"] == "w":
        if r.length != op["n"]:
            env.v("C06", f"response object has length {r.length}", op=desc(op))
        return
    key = "rdata" if xs and "rdata" in xs[0] else "data"
    exp = bytearray()
    for (w, lo, hi, off), x in zip(words(op, bb), xs):
        exp += bytes(x[key] >> 8 * j & 0xff for j in range(lo, hi))
    got = bytes(r.data)
    if got != exp:
        k = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
        env.v((P,), f"read returned {len(got)} bytes, differing from the {len(exp)} bytes of the slave at index {k}",
              op=desc(op), got=got, expected=exp)
    env.count["bytes_checked"] += len(exp)
    if bytes(r) != got:
        env.v(P, "bytes(response) differs from response.data", op=desc(op))


def tdesc(x):
    return {k: (hex(v) if isinstance(v, int) and not k.startswith("t_") else v) for k, v in x.items() if k != "held"}

"""C08: UTF-8 decoding and encoding conform to the standard."""
import itertools, random, struct
from .common import *

ID = "C08"
VARIANTS = ["asan", "rel"]
RULE = ("Every codepoint encoded and decoded; every one-, two- and three-byte sequence and the boundary four-byte "
        "sequences decoded; generated texts with ill-formed sequences decoded and encoded through output buffers of "
        "generated sizes, resuming until finished. Oracle: Python's strict UTF-8 codec. Non-trivial: multi-byte or "
        "ill-formed input, or a resumed call.")


def decode_model(data, cap):
    """(status, consumed, cps, widths) of one call"""
    cps, widths, bad = model.utf8_decode(data)
    if len(cps) >= cap and (len(cps) > cap or bad is not None or cap == 0):
        c, w = cps[:cap], widths[:cap]
        used = sum(w)
        return (1 if used < len(data) else 0), used, c, w
    if bad is not None:
        return -1, bad, cps, widths
    return 0, len(data), cps, widths


def check_decode(ctx, case):
    data, caps = case["data"], case["caps"]
    r = ctx.w(case["variant"]).call(W.u8(2) + W.blob(data) + W.u8(1 if case["widths"] else 0) + W.u32(len(caps)) +
                                    b"".join(W.u32(c) for c in caps))
    pos = 0
    for i, cap in enumerate(caps):
        ret, used, cps, widths, last = r.i32(), r.u64(), r.cps(), r.blob(), r.u8()
        want = decode_model(data[pos:], cap)
        need(ret < 0 if want[0] < 0 else ret == want[0], "call %d with room for %d: status %d, not %d", i, cap, ret, want[0])
        need(cps == want[2], "call %d: decoded %s, not %s", i, ascii(cps), ascii(want[2]))
        need(used == want[1], "call %d: %d bytes consumed, not %d", i, used, want[1])
        need(not case["widths"] or list(widths) == want[3], "call %d: widths %s, not %s", i, list(widths), want[3])
        pos += used
        if i:
            ctx.label("resumed")
        ctx.label("status %d" % ret)
        if last:
            break
    ctx.nontrivial(any(b >= 128 for b in data))


def text_bytes(t):
    parts = []
    for _ in range(t.n(0, 12)):
        k = t.n(0, 9)
        if k < 4:
            parts.append(chr(t.pick([gens.scalar(t), t.n(32, 126)])).encode())
        elif k < 7:
            parts.append(chr(gens.scalar(t)).encode())
        elif k == 7:
            parts.append(t.bytes(t.n(1, 4)))
        elif k == 8 and t.chance(1, 2):
            parts.append(t.pick(gens.BAD_UTF8))
        else:
            parts.append(chr(t.pick(gens.EDGE)).encode() * t.n(1, 6))
    data = b"".join(parts)
    if t.chance(1, 4) and data:
        data = data[:t.n(0, len(data))]
    return data


def caps_of(t):
    k = t.n(0, 3)
    if k == 0:
        return [1000]
    return [t.pick([0, 1, 1, 2, 3, 4, 5, 8, 1000]) if k > 1 else 1 for _ in range(t.n(1, 14))]


def decode_case(t):
    return {"data": text_bytes(t), "caps": caps_of(t), "widths": t.n(0, 3) < 3, "variant": t.pick(["asan", "rel"])}


def bulk(ctx, inputs, variant="asan"):
    r = ctx.w(variant).call(W.u8(23) + W.u32(len(inputs)) + b"".join(bytes([len(x)]) + x for x in inputs))
    for x in inputs:
        ret, used, got = r.u8(), r.u8(), r.u8()
        cps = struct.unpack("<%dI" % got, r.raw(4 * got))
        widths = r.raw(got)
        try:
            s = x.decode()
            ok, bad = True, len(x)
        except UnicodeDecodeError as e:
            s = x[:e.start].decode()
            ok, bad = False, e.start
        want = tuple(map(ord, s))
        if not ((ret == 0) == ok and (ok or ret >= 128) and used == bad and cps == want and
                all(w == len(c.encode()) for w, c in zip(widths, s))):
            raise Violation("%s: status %d, consumed %d, codepoints %s, widths %s" % (
                x.hex(), ret if ret < 128 else ret - 256, used, [hex(c) for c in cps], list(widths)))
    r.end()


def check_bulk(ctx, case):
    kind = case["kind"]
    tail = case["tail"]
    if kind == 1:
        inputs = [bytes([a]) + tail for a in range(256)]
    elif kind == 2:
        inputs = [bytes([case["first"], b]) + tail for b in range(256)]
    elif kind == 3:
        inputs = [bytes([case["first"], case["second"], c]) + tail for c in range(256)]
    else:
        edge = [0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xb7, 0xbf, 0xc0, 0xc2, 0xe0, 0xff]
        inputs = [bytes([case["first"], case["second"], c, d]) + tail for c in edge for d in edge]
    bulk(ctx, inputs, "rel" if kind == 3 and ctx.tier == "quick" else "asan")
    ctx.evaluations += len(inputs) - 1
    ctx.nontrivial(True)


def bulk_cases():
    for tail in (b"", b"a", b"\xc3\xa9", b"\x80", b"\xe2\x82"):
        yield {"kind": 1, "tail": tail}
        for a in range(256):
            yield {"kind": 2, "first": a, "tail": tail}
    for a in list(range(0xc0, 0x100)) + [0x41, 0x80, 0xbf]:
        for b in range(256):
            yield {"kind": 3, "first": a, "second": b, "tail": b""}
    for tail in (b"", b"a", b"\x80"):
        for a in range(0xee, 0x100):
            for b in range(256):
                yield {"kind": 4, "first": a, "second": b, "tail": tail}


def check_points(ctx, case):
    """Every codepoint: single encoding, block encoding and decoding agree with the standard."""
    a, b = case["from"], case["to"]
    w = ctx.w("asan")
    r = w.call(W.u8(4) + W.u32(b - a) + b"".join(W.u32(c) for c in range(a, b)))
    for c in range(a, b):
        ret, raw = r.i32(), r.raw(4)
        if c > 0x10ffff:
            need(ret < 0, "U+%X encoded", c)
        elif model.is_scalar(c):
            e = chr(c).encode()
            need(ret == len(e) and raw[:ret] == e, "U+%04X encoded as %s (%d)", c, raw.hex(), ret)
            need(raw[ret:] == b"\xa5" * (4 - ret), "U+%04X: written beyond the encoding", c)
    cps = [c for c in range(a, b) if model.is_scalar(c)]
    if cps:
        text = "".join(map(chr, cps)).encode()
        r = w.call(W.u8(3) + W.cps(cps) + W.u32(1) + W.u32(len(text)) + W.u32(0))
        need((r.i32(), r.u64(), r.u64(), r.blob()) == (0, len(text), len(cps), text), "U+%04X..: wrong encoding", a)
        r = w.call(W.u8(2) + W.blob(text) + W.u8(1) + W.u32(1) + W.u32(len(cps)))
        need(r.i32() == 0 and r.u64() == len(text) and r.cps() == cps, "U+%04X..: wrong decoding", a)
    ctx.nontrivial(True)


def point_cases():
    for i in range(0, 0x110000 + 4096, 1024):
        yield {"from": i, "to": i + 1024}
    for i in (0x1fff00, 0x200000, 0x400000, 0x3ffff00, 0x7fffff00, 0x80000000, 0xd7ffff00, 0xffffff00):
        yield {"from": i, "to": i + 255}


def encode_case(t):
    n = t.n(0, 12)
    cps = [t.pick([gens.scalar(t), t.n(32, 126), t.pick(gens.EDGE)]) for _ in range(n)]
    if t.chance(1, 4) and n:
        cps[t.n(0, n - 1)] = t.pick([0x110000, 0x110041, 0x1fffff, 0x200000, 0x7fffffff, 0x80000000, 0xffffffff, 0x40000041])
    return {"cps": cps, "calls": [(t.pick([0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 48, 100]), t.pick([0, 0, 0, 1, 2, 3]))
                                  for _ in range(t.n(1, 12))], "variant": t.pick(["asan", "rel"])}


def check_encode(ctx, case):
    cps = case["cps"]
    calls = [(cap, min(start, cap)) for cap, start in case["calls"]]
    r = ctx.w(case["variant"]).call(W.u8(3) + W.cps(cps) + W.u32(len(calls)) +
                                    b"".join(W.u32(c) + W.u32(s) for c, s in calls))
    at = 0
    for i, (cap, start) in enumerate(calls):
        ret, opos, ipos, buf = r.i32(), r.u64(), r.u64(), r.blob()
        want, j, status = b"", at, 0
        allowed = None
        while j < len(cps):
            if cps[j] > 0x10ffff:
                allowed = {-1} if start + len(want) < cap else {-1, 1}
                break
            e = chr(cps[j]).encode()
            if start + len(want) + len(e) > cap:
                allowed = {1}
                break
            want += e
            j += 1
        if allowed is None:
            allowed = {0}
        need((ret if ret >= 0 else -1) in allowed, "call %d: status %d, not %s", i, ret, allowed)
        need(ipos == j, "call %d: %d codepoints consumed, not %d", i, ipos, j)
        need(opos == start + len(want), "call %d: output position %d, not %d", i, opos, start + len(want))
        need(buf[start:start + len(want)] == want, "call %d: wrote %s, not %s", i, buf[start:opos].hex(), want.hex())
        need(buf[:start] == b"\xa5" * start, "call %d: changed what was there before", i)
        at = j
        ctx.label("encode status %d" % ret)
    ctx.nontrivial(any(c > 127 for c in cps))


def long_case(t):
    return {"op": t.n(0, 2), "size": t.pick([255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000, 100000, 131072, 131073,
                             140000, 200000]) + t.pick([0, 0, 1, 3]),
            "mix": t.n(0, 4), "seed": t.n(0, 1 << 40), "bad": t.pick([None, None, 0, 1, 2]), "step": t.n(0, 5),
            "calls": t.n(1, 5), "widths": t.n(0, 4) < 4, "variant": t.pick(["rel", "rel", "asan"])}


def check_long(ctx, c):
    """Texts longer than any counter of 8 or 16 bits, in one call or in several."""
    rng = random.Random(c["seed"])
    ranges = [[(32, 127)], [(0x80, 0x800)], [(0x800, 0xd800)], [(0x10000, 0x110000)],
              [(32, 127), (0x80, 0x800), (0x800, 0xd800), (0xe000, 0x10000), (0x10000, 0x110000)]][c["mix"]]
    base = [rng.randrange(*rng.choice(ranges)) for _ in range(997)]
    n = c["size"]
    cps = (base * (n // 997 + 1))[:n]
    step = [n + 5, n, n - 1, n // 2, 65536, 4096][c["step"]]
    try:
        if c["op"] < 2:
            data = "".join(map(chr, cps)).encode()
            if c["bad"] is not None:
                tail = [b"\xff", b"\xe2\x82", b"\xed\xa0\x80abc"][c["bad"]]
                data += tail
            check_decode(ctx, {"data": data, "caps": [step] * c["calls"], "widths": c["widths"], "variant": c["variant"]})
        else:
            if c["bad"]:
                cps.append(0x110000)
            check_encode(ctx, {"cps": cps, "calls": [(step * (1 + c["mix"] % 4), c["seed"] % 3)] * c["calls"],
                               "variant": c["variant"]})
    except Violation as v:
        raise Violation(str(v)[:300])
    ctx.nontrivial(n > 256)


def far_case(t):
    size = t.pick([2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 2, 2**32 + 5, 2**33 + 1, 2**33]) + t.n(0, 4)
    c = {"mode": t.n(0, 1), "size": size, "start": 0, "variant": t.pick(["asan", "rel"])}
    c["text"] = [gens.scalar(t) for _ in range(t.n(0, 12))]
    if t.chance(1, 2) and not c["mode"]:
        c["start"] = t.pick([1, size // 2, size - 1, size - t.n(0, 30), size, min(size, 2**32) - t.n(0, 9)])
    return c


def check_far(ctx, c):
    """Space of more than 2^32 bytes or codepoints, also nearly used up."""
    text = "".join(map(chr, c["text"]))
    raw = text.encode() if c["mode"] else struct.pack("<%dI" % len(c["text"]), *c["text"])
    r = ctx.w(c["variant"]).call(W.u8(34) + W.u8(c["mode"]) + W.u64(c["size"]) + W.u64(c["start"]) + W.blob(raw))
    if r.u8() == 0:
        raise Skip("no address space")
    ret, used, got = r.i32(), r.u64(), r.u64()
    if c["mode"]:
        cps, widths = W.unpack_cps(r.blob()), list(r.blob())
        need((ret, used, got) == (0, len(raw), len(text)), "%d bytes decoded with room for %d: status %d, consumed %d, produced %d",
             len(raw), c["size"], ret, used, got)
        need(cps == c["text"] and widths == [len(x.encode()) for x in text], "decoded %s, widths %s", ascii(cps), widths)
    else:
        want, j = b"", 0
        for x in text:
            e = x.encode()
            if len(want) + len(e) > c["size"] - c["start"]:
                break
            want += e
            j += 1
        data = r.blob()
        need((ret, used, got) == (0 if j == len(text) else 1, j, len(want)), "%d codepoints encoded at %d of %d: status %d, consumed %d, "
             "produced %d, not %d and %d", len(text), c["start"], c["size"], ret, used, got, j, len(want))
        need(data == want, "encoded %s, not %s", data.hex(), want.hex())
        need(r.u8() == 0, "changed what was there before")
    r.end()
    ctx.label("far: " + ("decode" if c["mode"] else "encode"))
    ctx.nontrivial(len(raw) > 4)


TESTS = [
    Test("far", check_far, lambda: gens.from_tape(far_case, 6, 60), quick=600),
    Test("codepoints", check_points, cases=point_cases, exhaustive=True),
    Test("sequences", check_bulk, cases=bulk_cases, exhaustive=True),
    Test("decode", check_decode, lambda: gens.from_tape(decode_case, 6, 120), quick=40000),
    Test("encode", check_encode, lambda: gens.from_tape(encode_case, 6, 120), quick=24000),
    Test("long texts", check_long, lambda: gens.from_tape(long_case, 6, 60), quick=400),
]

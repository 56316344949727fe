"""C12: bounded random integers are in range and exactly uniform."""
import struct
from .common import *

ID = "C12"
VARIANTS = ["asan", "rel"]
P_MIN = 1e-9
RULE = ("Bounded draws of every width fed with complete enumerations of the source values (all bytes for all 8-bit "
        "bounds, all 16-bit values for generated bounds), with values placed around the bound and its power of two, "
        "and with a splitmix64 stream under a chi-square test (p < 1e-9 fails). Oracle: exact counts and the "
        "documented rejection rule. Non-trivial: a bound above one.")
WIDTH = {6: 8, 7: 16, 8: 32, 9: 64}


def ops(w, spec, l):
    r = w.call(W.u8(6) + W.u8(1) + spec + W.u32(len(l)) + b"".join(W.u8(o) + W.u64(a) for o, a in l))
    need(r.u8() == 1, "source refused")
    out = [r.blob() if o == 0 else r.u64() for o, a in l]
    r.end()
    return out


def hist(w, spec, op, top, count, buckets):
    r = w.call(W.u8(7) + spec + W.u8(op) + W.u64(top) + W.u32(count) + W.u32(buckets))
    need(r.u8() == 1, "source refused")
    bad = r.u64()
    return bad, [r.u64() for _ in range(buckets)]


def accepted(top, bits):
    mask = (1 << top.bit_length()) - 1
    return top * (1 << bits) // (mask + 1)


def check_bytes(ctx, case):
    """All 256 bytes, in a generated order, through one bound."""
    top = case["max"]
    w = ctx.w("asan" if top % 2 else "rel")
    order = sorted(range(256), key=lambda b: (b * case["mul"] + case["add"]) & 255)
    mask = (1 << top.bit_length()) - 1
    want = [b & mask for b in order if b & mask < top]
    got = ops(w, W.r_script(bytes(order), 1), [(6, top)] * len(want))
    need(all(v < top for v in got), "value %d for bound %d", max(got), top)
    counts = [got.count(v) for v in range(top)]
    need(len(set(counts)) == 1, "bound %d: over all bytes the values occur %s times", top, sorted(set(counts)))
    need(got == want, "bound %d: draws %s.., expected %s..", top, got[:8], want[:8])
    ctx.nontrivial(top > 1)


def check_bool(ctx, case):
    order = case["order"]
    w = ctx.w("asan")
    got = ops(w, W.r_script(bytes(order), 1), [(5, 0)] * 256)
    need(sum(got) == 128, "%d of 256 bytes are true", sum(got))
    need(got == [1 if b < 128 else 0 for b in order], "booleans depend on other bits")
    for op, fmt in ((1, "B"), (2, "<H"), (3, "<I"), (4, "<Q")):
        size = struct.calcsize(fmt)
        data = bytes(order) * 2
        n = len(data) // size
        got = ops(w, W.r_script(data, 1), [(op, 0)] * n)
        need(got == [struct.unpack_from(fmt, data, i * size)[0] for i in range(n)], "unbounded integers differ")
    ctx.nontrivial(True)


def check_words(ctx, case):
    """All 65536 values through one 16-bit bound: exactly flat."""
    top = case["max"]
    mul = case["mul"] | 1
    data = struct.pack("<65536H", *[(i * mul + case["add"]) & 0xffff for i in range(65536)])
    n = accepted(top, 16)
    bad, h = hist(ctx.w(case["variant"]), W.r_script(data, 1), 7, top, n, top)
    need(bad == 0, "%d values out of range for bound %d", bad, top)
    need(min(h) == max(h), "bound %d: over all 16-bit values the counts range from %d to %d", top, min(h), max(h))
    ctx.nontrivial(top > 1)


def some_max(t, bits):
    k = t.n(0, 4)
    if k == 0:
        v = t.n(1, 300)
    elif k == 1:
        v = (1 << t.n(0, bits)) + t.n(0, 4) - 2
    elif k == 2:
        v = (1 << bits) - t.n(1, 5)
    elif k == 3:
        v = int.from_bytes(t.bytes(bits // 8), "little") >> t.n(0, bits - 1)
    else:
        v = 3 << t.n(0, bits - 2)
    return max(1, min(v, (1 << bits) - 1))


def around(t, top, bits):
    """Source values around the bound, and the same with bits above the mask."""
    m = 1 << top.bit_length()
    v = t.pick([0, 1, top - 1, top, top + 1, m - 1, m, m + top - 1, m + top, top // 2, 2 * m + 1])
    v += m * t.pick([0, 0, 1, t.n(0, 1 << 16)])
    if t.chance(1, 4):
        v = int.from_bytes(t.bytes(bits // 8), "little")
    return v & ((1 << bits) - 1)


def edge_case(t):
    seq, data = [], b""
    for _ in range(t.n(1, 14)):
        op = t.n(6, 9)
        bits = WIDTH[op]
        top = some_max(t, bits)
        for _ in range(t.n(0, 3)):
            data += around(t, top, bits).to_bytes(bits // 8, "little")
        seq.append((op, top))
        if t.chance(1, 6):
            seq.append((t.n(1, 5), 0))
    return {"ops": seq, "data": data, "seed": t.n(0, 2**32 - 1), "variant": t.pick(["asan", "rel"])}


def check_edge(ctx, case):
    m = model.RandomModel(model.TakeSource(model.ScriptStream(case["data"], case["seed"])), True)
    want = [m.op(o, a) for o, a in case["ops"]]
    got = ops(ctx.w(case["variant"]), W.r_script(case["data"], case["seed"]), case["ops"])
    for i, (g, e, (o, a)) in enumerate(zip(got, want, case["ops"])):
        need(o < 6 or g < a, "draw %d: %d is not below %d", i, g, a)
        need(g == e, "draw %d (operation %d, bound %d): %d, expected %d", i, o, a, g, e)
        ctx.label("width %d" % WIDTH.get(o, 0))
    ctx.nontrivial(any(a > 1 for _, a in case["ops"]))


def stubborn_case(t):
    """Very many rejected values in a row."""
    op = t.n(6, 9)
    top = some_max(t, WIDTH[op])
    if top & (top + 1) == 0:
        top = max(1, top - 1)     # something must be rejected
    return {"op": op, "max": top, "n": t.pick([7, 15, 16, 31, 32, 33, 63, 64, 99, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1023, 1024,
                                               1025, 4095, 4096, 5000, t.n(1, 3000)]), "seed": t.n(0, 2**32 - 1), "at": t.n(0, 20)}


def check_stubborn(ctx, case):
    op, top = case["op"], case["max"]
    bits = WIDTH[op]
    m = 1 << top.bit_length()
    if m - top < 1:
        raise Skip
    rnd = model.ScriptStream(b"", case["seed"])
    data = b"".join((top + int.from_bytes(rnd.take(8), "little") % (m - top)).to_bytes(bits // 8, "little")
                    for _ in range(case["n"]))
    data = rnd.take(case["at"]) + data
    l = [(1, 0)] * case["at"] + [(op, top)] * 3
    r = model.RandomModel(model.TakeSource(model.ScriptStream(data, case["seed"])), True)
    want = [r.op(o, a) for o, a in l]
    got = ops(ctx.w("rel" if case["n"] % 2 else "asan"), W.r_script(data, case["seed"]), l)
    need(got == want, "after %d rejected values in a row: %s, expected %s", case["n"], got[-3:], want[-3:])
    ctx.label("many rejections", case["n"] > 30)
    ctx.nontrivial(True)


def stat_case(t):
    op = t.n(6, 9)
    return {"op": op, "max": some_max(t, WIDTH[op]), "seed": t.n(0, 2**32 - 1), "k": t.pick([2, 3, 7, 16, 64, 200])}


def check_stat(ctx, case):
    op, top = case["op"], case["max"]
    k = min(case["k"], top)
    if k < 2:
        raise Skip
    n = 60000
    bad, h = hist(ctx.w("rel"), W.r_script(b"", case["seed"]), op, top, n, k)
    need(bad == 0, "%d values out of range for bound %d", bad, top)
    # bucket i holds the values v with v * k // top == i
    sizes = [-(-(i + 1) * top // k) + (-(i * top) // k) for i in range(k)]
    sizes = [-((-(i + 1) * top) // k) - -((-i * top) // k) for i in range(k)]
    p = chi2(dict(enumerate(h)), {i: s / top for i, s in enumerate(sizes)})
    need(p > P_MIN, "bound %d: p=%.3g for %s", top, p, h[:20])
    ctx.nontrivial(True)


def check_bool_stat(ctx, case):
    bad, h = hist(ctx.w("rel"), W.r_script(b"", case["seed"]), 5, 0, 100000, 2)
    p = chi2({0: h[0], 1: h[1]}, {0: 0.5, 1: 0.5})
    need(bad == 0 and p > P_MIN, "booleans: %s", h)
    ctx.nontrivial(True)


TESTS = [
    Test("all bytes", check_bytes, cases=lambda: ({"max": m, "mul": k, "add": a} for m in range(1, 256)
                                                  for k, a in ((1, 0), (77, 13), (165, 200))), exhaustive=True),
    Test("all 16-bit values", check_words, lambda: gens.from_tape(
        lambda t: {"max": some_max(t, 16), "mul": t.n(1, 65535), "add": t.n(0, 65535), "variant": t.pick(["rel", "asan"])},
        8, 20), quick=1600),
    Test("unbounded", check_bool, lambda: st.permutations(range(256)).map(lambda l: {"order": list(l)}), quick=200),
    Test("around the bound", check_edge, lambda: gens.from_tape(edge_case, 12, 160), quick=30000),
    Test("stubborn", check_stubborn, lambda: gens.from_tape(stubborn_case, 8, 30), quick=1500),
    Test("statistics", check_stat, lambda: gens.from_tape(stat_case, 12, 40), quick=4000),
    Test("booleans", check_bool_stat, lambda: gens.from_tape(lambda t: {"seed": t.n(0, 2**32 - 1)}, 4, 8), quick=80),
]

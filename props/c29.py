"""C29: keyed hashing agrees with SipHash-2-4 for every input."""
import os
from .common import *

ID = "C29"
VARIANTS = ["asan", "rel", "msan", "rasan"]
RULE = ("Generated inputs and keys of every length (0 to 300 enumerated, up to 100,000 generated, around 2^31 and 2^32 bytes) "
        "and alignment, in 64- and 128-bit form, in blocks of exactly their size under memory sanitizers, against a model of "
        "SipHash-2-4, itself checked against the vectors of its authors. Non-trivial: an input that is not a whole number of "
        "words, or longer than one.")

# first entries of the reference test vectors, key 00..0f, input 00, 01, ...
VECTORS64 = ["310e0edd47db6f72", "fd67dc93c539f874", "5a4fa9d909806c0d", "2d7efbd796666785", "b7877127e09427cf", "8da699cd64557618",
             "cee3fe586e46c9cb", "37d1018bf50002ab", "6224939a79f5f593", "b0e4a90bdf82009e"]
VECTORS128 = ["a3817f04ba25a8e66df67214c7550293", "da87c1d86b99af44347659119b22fc45", "8177228da4a45dc7fca38bdef60affe4"]


def sip(w, data, key, outlen, at=0, kat=0, oat=0):
    r = w.call(W.u8(15) + W.blob(data) + W.blob(key) + W.u32(outlen) + W.u8(at) + W.u8(kat) + W.u8(oat))
    ret, out, ok = r.i32(), r.blob(), r.u8()
    r.end()
    need(ret == 0, "returns %d", ret)
    need(ok, "writes outside of its output")
    return out


def lengths():
    for n in range(0, 301):
        yield {"n": n}


def check_lengths(ctx, c):
    n = c["n"]
    seq = bytes(i & 255 for i in range(n))
    key = bytes(range(16))
    if n < len(VECTORS64):
        need(model.siphash24(key, seq, 8).hex() == VECTORS64[n], "the model is wrong")
    if n < len(VECTORS128):
        need(model.siphash24(key, seq, 16).hex() == VECTORS128[n], "the model is wrong")
    for v in VARIANTS:
        for outlen in (8, 16):
            for at in (0, n % 8):
                need(sip(ctx.w(v), seq, key, outlen, at) == model.siphash24(key, seq, outlen), "%d bytes, %d bit", n, outlen * 8)
    ctx.nontrivial(n > 8 or n % 8)


def case(t):
    k = t.n(0, 6)
    if k < 3:
        data = t.bytes(t.n(0, 64))
    elif k == 3:
        data = bytes([t.pick([0, 255, 128, 1])]) * t.n(0, 600)
    elif k == 4:
        data = model.ScriptStream(b"", t.n(0, 1 << 40)).take(t.n(0, 2000))
    elif k == 5:
        data = model.ScriptStream(b"", t.n(0, 1 << 40)).take(256 * t.n(1, 20) + t.n(0, 2) - 1)
    else:
        data = t.bytes(t.n(0, 16)) + b"\0" * t.n(0, 20)
    key = t.pick([t.bytes(16), model.ScriptStream(b"", t.n(0, 1 << 40)).take(16), b"\xff" * 16, b"\0" * 15 + t.bytes(1)])
    return {"data": data, "key": key, "len": t.pick([8, 16]), "at": [t.n(0, 7) for _ in range(3)], "variant": t.pick(VARIANTS)}


def check(ctx, c):
    got = sip(ctx.w(c["variant"]), c["data"], c["key"], c["len"], *c["at"])
    want = model.siphash24(c["key"], c["data"], c["len"])
    need(got == want, "%d bytes, key %s: %s, expected %s", len(c["data"]), c["key"].hex(), got.hex(), want.hex())
    ctx.label("%d bit" % (8 * c["len"]))
    ctx.label("whole words", len(c["data"]) % 8 == 0)
    ctx.label("high bytes", any(b > 127 for b in c["data"]))
    ctx.nontrivial(len(c["data"]) > 8 or len(c["data"]) % 8)


def long_case(t):
    return {"n": t.n(2000, 100000), "seed": t.n(0, 1 << 40), "len": t.pick([8, 16]), "variant": t.pick(VARIANTS), "at": t.n(0, 7)}


def check_long(ctx, c):
    data = model.ScriptStream(b"", c["seed"]).take(c["n"])
    got = sip(ctx.w(c["variant"]), data, data[-16:], c["len"], c["at"])
    need(got == model.siphash24(data[-16:], data, c["len"]), "%d bytes", c["n"])
    ctx.nontrivial(True)


def big_cases():
    sizes = [(1 << 31) + 5, (1 << 32) + 11]
    if os.environ.get("VERIF_TIER") == "thorough":
        sizes += [(1 << 31) - 1, 1 << 31, (1 << 32) - 3, 1 << 32, 3 << 30, (1 << 33) + 77]
    for i, n in enumerate(sizes):
        yield {"n": n, "seed": 99 + i, "len": 8 if i % 2 else 16}


def check_big(ctx, c):
    r = ctx.w("rel", 200).call(W.u8(25) + W.u64(c["n"]) + W.u64(c["seed"]) + W.u32(c["len"]))
    if not r.u8():
        raise Skip("no memory")
    got, want = r.blob(), r.blob()
    r.end()
    need(got == want, "%d bytes: %s, expected %s", c["n"], got.hex(), want.hex())
    ctx.nontrivial(True)


TESTS = [
    Test("large", check_big, cases=big_cases),
    Test("lengths", check_lengths, cases=lengths, exhaustive=True),
    Test("inputs", check, lambda: gens.from_tape(case, 20, 120), quick=12000),
    Test("long", check_long, lambda: gens.from_tape(long_case, 2, 16), quick=150),
]

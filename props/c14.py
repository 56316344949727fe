"""C14: deterministic random sources produce their published streams."""
import os, struct
from .common import *
from . import rnd

ID = "C14"
VARIANTS = ["asan", "rel", "rasan"]
RULE = ("Read histories (all kinds and sizes of reads, reloads, seeks to any position) on chacha20, xorshift, file and "
        "zero sources with generated keys, nonces, seeds and contents, opened by parameters or by description, compared "
        "with independent models of the generators; generated malformed descriptions. Non-trivial: a refill, direct "
        "read, seek or reload happens, or the description is refused.")
DEFAULT_IV = b"passgen\0"


def key_bytes(t):
    k = t.n(0, 4)
    if k == 0:
        return t.bytes(32)
    if k == 1:
        return struct.pack("<Q", t.u64()).ljust(32, b"\0")
    if k == 2:
        return b"\xff" * 32
    return (t.bytes(t.n(1, 32)) * 32)[:32]


def chacha_case(t):
    return {"key": key_bytes(t), "iv": t.bytes(8) if t.chance(3, 4) else t.pick([b"\0" * 8, b"\xff" * 8, DEFAULT_IV]),
            "ops": rnd.history(t, 25, seek=True), "heap": t.n(0, 1), "variant": t.pick(VARIANTS)}


def check_chacha(ctx, c):
    ops = rnd.concrete(c["ops"])
    got = rnd.run_ops(ctx.w(c["variant"]), W.r_chacha(c["key"], c["iv"]), ops, c["heap"])
    rnd.compare(ctx, got, lambda: model.ChachaSource(c["key"], c["iv"]), ops)
    ctx.label("seek", any(o == 11 for o, a in ops))
    ctx.label("unaligned seek", any(o == 11 and a % 64 for o, a in ops))
    ctx.label("counter above 32 bits", any(o == 11 and a >= (1 << 38) - 1024 for o, a in ops))


def random_access_case(t):
    return {"key": key_bytes(t), "iv": t.bytes(8), "pos": t.n(0, 3000) if t.chance(1, 2) else (1 << 38) - t.n(0, 2000),
            "len": t.n(1, 3000), "cut": t.n(0, 3000), "variant": t.pick(["asan", "rel"])}


def check_access(ctx, c):
    """Seeking to a position equals reading up to it."""
    a = c["pos"] // 4096 * 4096
    skip = c["pos"] - a
    w = ctx.w(c["variant"])
    spec = W.r_chacha(c["key"], c["iv"])
    whole = rnd.run_ops(w, spec, [(11, a)] + [(0, 1000)] * ((skip + c["len"]) // 1000 + 1), True)
    stream = b"".join(whole[1:])[:skip + c["len"]]
    n = c["len"]
    cut = c["cut"] % (n + 1)
    at = 0
    ops = [(11, c["pos"])]
    while at < n:
        k = min(1024, n - at, cut - at if at < cut else n - at)
        ops.append((0, k))
        at += k
    direct = b"".join(rnd.run_ops(w, spec, ops, True)[1:])
    need(direct == stream[skip:], "bytes at position %d depend on how it is reached", c["pos"])
    need(direct == model.chacha20_bytes(c["key"], c["iv"], c["pos"], n), "bytes at position %d are not ChaCha20",
         c["pos"])
    ctx.nontrivial(True)


def xor_case(t):
    k = t.n(0, 3)
    seed = t.u64() or 1
    return {"seed": seed, "ops": rnd.history(t, 25), "heap": t.n(0, 1), "variant": t.pick(VARIANTS), "desc": t.n(0, 1)}


def check_xorshift(ctx, c):
    ops = rnd.concrete(c["ops"])
    if c["seed"] == 0:
        raise Skip
    spec = W.r_desc("xorshift:%d" % c["seed"]) if c["desc"] else W.r_xorshift(c["seed"])
    got = rnd.run_ops(ctx.w(c["variant"]), spec, ops, c["heap"])
    rnd.compare(ctx, got, lambda: model.XorshiftSource(c["seed"]), ops)


def plain_ops(ops):
    """No bounded draws: they need not end on constant data."""
    return [(o, a) for o, a in ops if o < 6 or o == 10]


def file_case(t):
    return {"kind": t.n(0, 2), "data": t.bytes(t.n(1, 40)), "ops": rnd.history(t, 25), "heap": t.n(0, 1),
            "variant": t.pick(VARIANTS), "name": t.pick(["r", "with space", "a:b", "\u00e4", "x" * 200, "/".join(["y" * t.n(201, 250)] * t.n(1, 12) + ["z"]), "c:d/" * t.n(1, 500) + "z"])}


def check_file(ctx, c):
    ops = plain_ops(rnd.concrete(c["ops"]))
    w = ctx.w(c["variant"])
    if c["kind"] == 0:
        got = rnd.run_ops(w, W.r_desc("zero") if c["heap"] else W.r_zero(), ops, c["heap"])
        rnd.compare(ctx, got, model.ZeroSource, ops)
        ctx.label("zero")
        return
    total = sum(a for o, a in ops if o == 0) + 1024 * (len(ops) + 3)
    data = c["data"] + model.ScriptStream(b"", len(c["data"])).take(total)
    if c["kind"] == 1:
        path = os.path.join(ctx.scratch, c["name"])
        if len(path.encode()) > 4000:
            path = path[:4000].rstrip("/")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if os.path.isdir(path):
            path += "x"
        ctx.label("long path", len(path) > 255)
        with open(path, "wb") as f:
            f.write(data)
        spec = W.r_desc("file:" + path)
    else:
        spec = W.r_file(data)
    got = rnd.run_ops(w, spec, ops, c["heap"])
    rnd.compare(ctx, got, lambda: model.TakeSource(model.BytesStream(data)), ops)
    ctx.label("file by description" if c["kind"] == 1 else "file")


FIELD = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 ./-_%@#{}[]"


def field(t, most):
    s = ""
    for _ in range(t.n(1, most)):
        s += t.pick(FIELD) if t.chance(9, 10) else chr(t.pick([0xe4, 0x20ac, 0x1f600, 0x7f, 1]))
    return s


def desc_case(t):
    kind = t.n(0, 1)
    c = {"kind": kind, "variant": t.pick(VARIANTS), "ops": rnd.history(t, 6, seek=True)}
    if kind == 0:
        key = field(t, 40).encode()
        while True:
            try:
                key[:32].decode()
                break
            except UnicodeDecodeError:
                key = key[:-1]
        c["key"] = key if t.chance(1, 4) else field(t, 8).encode()[:32]
        c["iv"] = t.pick([field(t, 8).encode()[:8], field(t, 8).encode()[:8], field(t, 30).encode(), b"", None,
                          ":".join(field(t, 3) for _ in range(t.n(2, 4))).encode()[:t.n(1, 12)]])
    else:
        most = 700 if t.chance(1, 8) else 30
        c["fields"] = [field(t, most) for _ in range(t.n(1, 3))]
    return c


def check_desc(ctx, c):
    """A description equals the parameters it spells."""
    w = ctx.w(c["variant"])
    ops = rnd.concrete(c["ops"])
    if c["kind"] == 0:
        key, iv = c["key"], c["iv"]
        desc = b"chacha20:" + key + (b":" + iv if iv is not None else b"")
        got = rnd.run_ops(w, W.u8(1) + W.blob(desc), ops, True)
        if len(key) > 32:
            need(got is None, "a key of %d bytes is accepted", len(key))
            ctx.label("oversized key")
            ctx.nontrivial(True)
            return
        key = key.ljust(32, b"\0")
        iv = DEFAULT_IV if iv is None else iv[:8].ljust(8, b"\0")
        ctx.label("colon in the nonce", b":" in iv)
        same = rnd.run_ops(w, W.r_chacha(key, iv), ops, True)
        ctx.label("chacha20 description")
    else:
        f = [x.encode() for x in c["fields"]]
        got = rnd.run_ops(w, W.u8(1) + W.blob(b"chacha20-argon2:" + b":".join(f)), ops, True)
        f += [None] * (3 - len(f))
        same = rnd.run_ops(w, W.r_argon(f[0], f[1], f[2]), ops, True)
        key, iv = model.master_key(f[0], f[1] or b"", f[2] or b""), DEFAULT_IV
        ctx.label("chacha20-argon2 description")
        ctx.label("long field", max(len(x) for x in c["fields"]) > 100)
    need(got is not None and same is not None, "a valid description is refused")
    need(got == same, "description and parameters give different streams")
    rnd.compare(ctx, got, lambda: model.ChachaSource(key, iv), ops)
    ctx.nontrivial(True)


KNOWN = ["zero", "system", "file:", "xorshift:", "chacha20:", "chacha20-argon2:"]


def bad_desc(t):
    k = t.n(0, 9)
    d = t.pick(KNOWN)
    if k == 0:
        return t.pick(["", " ", ":", "none", "default", "getrandom", "urandom", "/dev/zero", "chacha", "argon2:x"])
    if k == 1:  # truncated
        d = d.rstrip(":")
        return d[:t.n(0, len(d) - 1)]
    if k == 2:  # other case, leading space
        return t.pick([d.upper() + "1", " " + d + "1", d.capitalize() + "1"])
    if k == 3:
        return t.pick(["zero", "system"]) + t.pick([" ", ":", "0", "\t", "\n", ":1"])
    if k == 4:
        return t.pick(["xorshift", "file", "chacha20", "chacha20-argon2"]) + t.pick(["", " ", ";", "=", "-", "1", "."])
    if k == 5:
        n = t.pick(["", "0", "00", "000000", "abc", "x", "-", "+", "0x", "1x", "12 ", "1:2", "1.5", "1,2", "1e3", "0x10",
                    "18446744073709551616", "99999999999999999999", "1" * 30, str(2**64 + t.n(0, 1000)),
                    str(t.n(1, 1 << 60)) + t.pick(["a", " ", ":", "-", "\n"])])
        return "xorshift:" + n
    if k == 6:
        return "chacha20:" + "k" * t.pick([33, 34, 40, 64, 65, 100, 1000, 100000]) + t.pick(["", ":", ":iv"])
    if k == 7:
        return "file:" + t.pick(["", "/nonexistent/r", "/dev/null/x", "/proc/1/nothing", "x" * 5000])
    if k == 8:
        return "xorshift:" + "".join(t.pick("0123456789abcxXeE.") for _ in range(t.n(1, 8))) + t.pick("axyz.,;")
    return "".join(chr(t.n(97, 122)) for _ in range(t.n(1, 12))) + t.pick(["", ":", ":1"])


def check_refused(ctx, c):
    d = c["desc"]
    if d.startswith(("chacha20-argon2:", "zero", "system")) and d in ("zero", "system", "chacha20-argon2:"):
        raise Skip
    got = rnd.run_ops(ctx.w(c["variant"]), W.r_desc(d), [(4, 0)], c["heap"])
    need(got is None, "the description %s is accepted", ascii(d[:80]))
    ctx.label("refused")
    ctx.nontrivial(True)


def check_seeds(ctx, c):
    """Every decimal spelling of a seed, with leading zeroes, is that seed."""
    got = rnd.run_ops(ctx.w("asan"), W.r_desc("xorshift:" + "0" * c["pad"] + str(c["seed"])), [(4, 0)] * 4, True)
    m = model.RandomModel(model.XorshiftSource(c["seed"]), True)
    need(got == [m.op(4, 0) for _ in range(4)], "seed %d spelled with %d zeroes: other stream", c["seed"], c["pad"])
    ctx.nontrivial(True)


TESTS = [
    Test("chacha20", check_chacha, lambda: gens.from_tape(chacha_case, 20, 400), quick=4000),
    Test("access", check_access, lambda: gens.from_tape(random_access_case, 4, 60), quick=2400),
    Test("xorshift", check_xorshift, lambda: gens.from_tape(xor_case, 10, 300), quick=3000),
    Test("file", check_file, lambda: gens.from_tape(file_case, 10, 300), quick=3000),
    Test("descriptions", check_desc, lambda: gens.from_tape(desc_case, 10, 200), quick=1600),
    Test("seeds", check_seeds, lambda: gens.from_tape(lambda t: {"seed": max(1, min(2**64 - 1, t.u64())),
                                                               "pad": t.pick([0, 0, 1, 3, 50])}, 2, 20), quick=1600),
    Test("refused", check_refused, lambda: gens.from_tape(lambda t: {"desc": bad_desc(t), "heap": t.n(0, 1),
                                                                    "variant": t.pick(VARIANTS)}, 2, 40), quick=2400),
]

"""C03: a fixed randomness stream always reproduces the same outputs."""
import os, subprocess
from .common import *

ID = "C03"
VARIANTS = ["asan", "rasan", "rel", "dbg"]
RULE = ("Grammar-built patterns, wordlists and streams; the outputs and the number of stream bytes consumed must equal "
        "those of a reference interpreter of the documented choice rules, in debug and release builds, for scripted, "
        "ChaCha20, xorshift and master-passphrase streams. Non-trivial: two kinds of construct and at least "
        "16 bytes consumed beyond the group choice.")


def expect(p, words, stream, n, depth=1024):
    run = model.Run(p, stream, words, depth)
    out = []
    for _ in range(n):
        out.append(run.output())
    return out


def check(ctx, case):
    p = well_formed(case["pattern"])
    words = load_words(case["wl"])
    s = model.ScriptStream(case["prefix"], case["seed"])
    try:
        want = expect(p, words, s, case["n"])
    except model.GenFail as e:
        raise Skip(str(e))
    g = library_gen(ctx, case)
    need(not g.rejected, "rejected")
    compare(g, want)
    need(g.consumed == s.pos, "consumed %d bytes of the stream, not %d", g.consumed, s.pos)
    features(ctx, p)
    ctx.label("crosses the refill", s.pos > 1024)
    ctx.label("redraws", bool(case["prefix"]))
    ctx.nontrivial(len(p.features) >= 2 and s.pos >= 24)


def compare(g, want):
    for i, ((ret, ent, data), (out, bits)) in enumerate(zip(g.out, want)):
        need(ret == 0, "output %d failed with %d", i, ret)
        got = W.unpack_cps(data)
        need(got == out, "output %d is %s, not %s", i, show_cps(got), show_cps(out))


def show_cps(l):
    return ascii("".join(chr(c) if c < 0x110000 else "<%x>" % c for c in l[:80]))


def long_case(t):
    c = gen_case(t, variants=("asan", "rasan", "rel", "dbg"), depth=2)
    c["n"] = t.n(20, 120)
    c["wl"] = c["wl"][:1] if len(c["wl"]) else []
    return c


def source_case(t):
    c = gen_case(t, variants=("asan", "rel", "rasan"), depth=2, most_wl=0, most_gen=6)
    k = t.n(0, 3)
    if k == 0:
        c["src"] = ("xorshift", t.n(1, 2**64 - 1))
    elif k == 1:
        c["src"] = ("chacha20", t.bytes(32), t.bytes(8))
    elif k == 2:
        c["src"] = ("master", t.pick(["pw", "hunter2", "ü€", "p" * 70]), t.pick(["", "example.com", "d"]),
                    t.pick(["", "1", "tok"]))
    else:
        c["src"] = ("zero",)
    return c


def source(src):
    """(spec, model stream)"""
    if src[0] == "xorshift":
        return W.r_xorshift(src[1]), model.xorshift_stream(src[1])
    if src[0] == "chacha20":
        return W.r_chacha(src[1], src[2]), model.chacha20_stream(src[1], src[2])
    if src[0] == "master":
        return (W.r_argon(src[1], src[2], src[3]),
                model.master_stream(src[1].encode(), src[2].encode(), src[3].encode()))
    return W.r_zero(), model.FuncStream(lambda i: bytes(1024))


def check_source(ctx, case):
    p = well_formed(case["pattern"])
    spec, s = source(case["src"])
    try:
        want = expect(p, {}, s, case["n"])
    except model.GenFail as e:
        raise Skip(str(e))
    g = library_gen(ctx, case, random=spec)
    need(not g.rejected and not g.random_failed, "refused")
    compare(g, want)
    ctx.label("source " + case["src"][0])
    ctx.nontrivial(s.pos >= 24)


def cli_case(t):
    c = source_case(t)
    if c["src"][0] not in ("xorshift", "master"):
        c["src"] = ("xorshift", t.n(1, 2**63))
    c["variant"] = t.pick(["asan", "rel", "dbg"])
    return c


def check_cli(ctx, case):
    """The command line derives the same outputs from the same stream."""
    p = well_formed(case["pattern"])
    if case["pattern"].startswith("-") or "\0" in case["pattern"]:
        raise Skip
    spec, s = source(case["src"])
    try:
        want = expect(p, {}, s, case["n"])
    except model.GenFail as e:
        raise Skip(str(e))
    if any(0 in out for out, _ in want):
        raise Skip
    if case["src"][0] == "xorshift":
        opts = ["-r", "xorshift:%d" % case["src"][1]]
    else:
        opts = ["-m", case["src"][1]]
        opts += ["-d", case["src"][2]] if case["src"][2] else []
        opts += ["-t", case["src"][3]] if case["src"][3] else []
    from . import cli
    r = cli.run(ctx, case["variant"], opts + ["-z", "-a", str(case["n"]), case["pattern"]])
    need(r.code == 0, "passgen failed: %s", r.describe())
    text = "\0".join("".join(map(chr, o)) for o, _ in want).encode()
    need(r.out.rstrip(b"\n") == text.rstrip(b"\n"), "printed %s, not %s", sh(r.out), sh(text))
    ctx.label("command line")
    ctx.nontrivial(s.pos >= 24)


def check_large(ctx, case):
    """The same for many repetitions, alternatives, ranges, items, words."""
    check(ctx, expanded(case))
    ctx.label("large: " + case["large"]["kind"])
    ctx.nontrivial(True)


TESTS = [
    Test("extremes", check_large, cases=extreme_cases),
    Test("large", check_large, large_cases, quick=240),
    Test("stream", check, lambda: gen_cases(depth=3, nul=True, variants=("asan", "rasan", "rel")), quick=40000),
    Test("edges", check, edge_cases, quick=8000),
    Test("modifiers", check, modified_cases, quick=5000),
    Test("long", check, lambda: gens.from_tape(long_case, 20, 300), quick=3000),
    Test("sources", check_source, lambda: gens.from_tape(source_case, 30, 300), quick=4000),
    Test("cli", check_cli, lambda: gens.from_tape(cli_case, 30, 300), quick=1200),
]

"""C06: a rejected pattern is reported at the position of the offence."""
import re
from .common import *
from . import c05, cli

ID = "C06"
VARIANTS = ["asan", "rasan", "rel", "dbg"]
RULE = ("Malformed patterns (mutated, soups of tokens, malformed escapes, truncations, ill-formed UTF-8, behind paddings "
        "of multi-byte characters); codepoint and byte offset must be those the reference parser computes. "
        "Non-trivial: the offence lies beyond the first token.")


def check_data(ctx, data, variant):
    if b"\0" in data:
        raise Skip
    try:
        p = model.parse(data)
        raise Skip
    except model.ParseError as e:
        err = e
    if getattr(err, "contested", False):
        raise Skip
    g = W.gen(ctx.w(variant), data, W.r_zero(), 0)
    need(g.rejected, "malformed pattern accepted: %s", err.why)
    need(g.message.strip() != "", "no message")
    cps, widths, bad = model.utf8_decode(data)
    got = (g.codepoint, g.byte)
    # the two offsets denote the same place, inside the pattern
    need(g.byte <= len(data), "byte offset %d beyond the %d bytes", g.byte, len(data))
    if bad is None:
        need(g.codepoint <= len(cps) and sum(widths[:g.codepoint]) == g.byte,
             "codepoint %d is not at byte %d", g.codepoint, g.byte)
    want = {(err.cp, err.byte)}
    if err.kind == "utf8":
        # inside of an escape, the escape itself may be named
        starts = escape_start(cps, widths)
        if starts:
            want.add(starts)
        if truncated(data, bad):
            want.add((len(cps), len(data)))
            want.add((len(cps) + 1, len(data)))
    need(got in want, "%s: reported at codepoint %d, byte %d, not %s", err.why, g.codepoint, g.byte,
         " or ".join("%d, %d" % x for x in sorted(want)))
    ctx.label(err.kind + ": " + err.why)
    ctx.label("multi-byte before", any(w > 1 for w in widths[:err.cp]))
    ctx.nontrivial(err.cp >= 2)
    return g, err


def escape_start(cps, widths):
    """Start of the escape left open at the end of cps, if any."""
    off = 0
    toks = []
    try:
        for tok in model.tokenize(cps, widths):
            pass
        return None
    except model.ParseError as e:
        if e.kind != "end":
            return None
    # the open escape begins at the last backslash that is not itself escaped
    i, start = 0, None
    while i < len(cps):
        if cps[i] == 92:
            start = i
            i += 1
            if i < len(cps) and cps[i] == 117:
                i += 1
                if i < len(cps) and cps[i] == 123:
                    i += 1
                    while i < len(cps) and cps[i] != 125:
                        i += 1
        i += 1
    return (start, sum(widths[:start])) if start is not None else None


def truncated(data, bad):
    """The ill-formed sequence is the beginning of a character, cut off."""
    tail = data[bad:]
    for more in (b"\x80", b"\x80\x80", b"\x80\x80\x80", b"\xa0\x80", b"\x90\x80\x80", b"\xa0", b"\x90\x80"):
        try:
            if len((tail + more).decode()) == 1:
                return True
        except UnicodeDecodeError:
            pass
    return False


def check(ctx, case):
    check_data(ctx, case["pattern"].encode("utf-8", "surrogatepass"), case["variant"])


def check_bytes(ctx, case):
    check_data(ctx, case["data"], case["variant"])


BAD = ["{", ")", "}?", "?", "[z-a]", "[\U0001F600-\u20ac]", "[a-", "[a-]", "a{3,1}", "a{x}", "{1}{x", "\\q", "\\\u00e9",
       "\\u{zz}", "\\u{1234567}", "\\u{110000}", "\\u{d800}", "\\ux", "\\w[", "\\w{", "\\w{}", "\\m{}", "(", "[", "\\", "\\u",
       "\\u{", "\\u{12", "a{1", "a{1,", "a{18446744073709551616}", "[\\q]", "[a-\\q]", "|?", "(?", "a{1,2,3}", "a{ 1}",
       "[a-\\u{ffffff}]", "{99999999999999999999}", "a{2,\u0661}", "\\u{\u0661}", "\\U{41}", "\\x41", "\\d", "\\{1}{",
       "\\?", "\\-", "\\ ", "[\\w]", "[[:alpha:]-\\[", "({18446744073709551615}a|{1}b)", "{1}a|{18446744073709551615}b"]


def after_case(t):
    """A well-formed prefix, an offence, and anything behind it."""
    pre = gens.pattern(t, 2, 12)
    pad = t.pick(["", "é", "€", "😀", "\\u{1f600}", "a"]) * t.pick([0, 0, 1, 3, 60, 255, 256, 1023, 1024, 3000])
    post = t.pick(["", "x", gens.pattern(t, 1, 5), "😀é", ")"])
    return {"pattern": pad + pre + t.pick(BAD) + post, "variant": t.pick(["asan", "rasan", "rel"])}


def cut_case(t):
    """Well-formed patterns, cut off."""
    p = gens.pattern(t, 4, 30)
    return {"pattern": p[:t.n(0, len(p))], "variant": t.pick(["asan", "rasan", "rel"])}


def all_bad():
    for pre in ("", "a", "é", "😀😀", "(é|", "[é]", "\\u{e9}", "x" * 300):
        for b in BAD:
            for post in ("", "é", "]"):
                yield {"pattern": pre + b + post, "variant": "asan"}


def check_cli(ctx, case):
    """The tool shows the message, prints no output, and fails with status 3."""
    data = case["pattern"].encode("utf-8", "surrogatepass")
    if data.startswith(b"-") or b"\0" in data or len(data) > 100000:
        raise Skip
    g, err = check_data(ctx, data, "asan")
    r = cli.run(ctx, case["variant"], ["-r", "zero", data])
    need(r.code == 3, "malformed pattern: %s", r.describe())
    need(r.out == b"", "printed %s for a malformed pattern", sh(r.out))
    need(g.message.encode() in r.err, "message not shown: %s", sh(r.err))
    # the pattern is shown, and below it, the place: one column for each codepoint
    text = re.sub(rb"\x1b\[[0-9;]*m", b"", r.err)
    if any(x < 32 for x in data) or text.count(data + b"\n") != 1:
        return
    before, after = text.split(data + b"\n")
    indent = len(before) - (before.rfind(b"\n") + 1)
    mark = after.split(b"\n")[0]
    need(mark.strip() == b"^", "no mark below the pattern: %s", sh(text))
    need(mark.index(b"^") - indent == g.codepoint, "mark in column %d, the error is at codepoint %d: %s",
         mark.index(b"^") - indent, g.codepoint, sh(text))
    ctx.label("mark")


def check_large(ctx, case):
    data = edited(case).encode("utf-8", "surrogatepass")
    check_data(ctx, data, case["variant"])
    ctx.label("large: " + case["large"]["kind"])
    ctx.nontrivial(True)


def check_far(ctx, case):
    """What lies before an offence shifts the offsets, and nothing else."""
    near, far = far_results(ctx, case)
    if near is None:
        raise Skip
    need(near == far, "behind %d codepoints: %r instead of %r", case["n"], far, near)
    ctx.label("far")
    ctx.nontrivial(True)


def object_case(t):
    return {"rounds": [[t.pick([0, 0, 1, 2, 3, 8, 9, t.n(0, 40), t.n(0, 600)])] +
                       [t.pick([0, 1, 255, 256, 65536, 1 << 32, (1 << 64) - 1, t.n(0, 1 << 20)]) for _ in range(3)]
                       for _ in range(t.n(1, 4))], "variant": t.pick(["asan", "rasan", "rel"])}


def check_object(ctx, c):
    """An error holds what was put into it."""
    r = ctx.w(c["variant"]).call(
        W.u8(30) + W.u32(len(c["rounds"])) +
        b"".join(W.text("message %d" % i) + W.text("file.c") + W.u32(x[0]) + b"".join(W.u64(v) for v in x[1:])
                 for i, x in enumerate(c["rounds"])))
    for n, line, codepoint, byte in c["rounds"]:
        need(r.u32() == 1, "a new error is not empty")
        need(r.u32() == 1, "the message or the source is lost")
        got = [r.u64() for _ in range(4)]
        need(got == [line, codepoint, byte, n], "line, offsets and causes are %s, not %s", got, [line, codepoint, byte, n])
        need(r.u32() == n, "not all of the %d causes are what was added", n)
    r.end()
    ctx.label("error with causes", any(x[0] for x in c["rounds"]))
    ctx.nontrivial(any(x[0] > 1 for x in c["rounds"]))


TESTS = [
    Test("object", check_object, lambda: gens.from_tape(object_case, 4, 30), quick=500),
    Test("table", check, cases=all_bad, exhaustive=True),
    Test("mutated", check, lambda: gens.from_tape(c05.mutated_case, 20, 200), quick=25000),
    Test("soup", check, lambda: gens.from_tape(c05.soup_case, 8, 120), quick=20000),
    Test("dense", check, lambda: gens.from_tape(c05.dense_case, 6, 20), quick=15000),
    Test("after", check, lambda: gens.from_tape(after_case, 16, 150), quick=12000),
    Test("cut", check, lambda: gens.from_tape(cut_case, 20, 200), quick=10000),
    Test("large", check_large, lambda: gens.from_tape(lambda t: dict(edited_large(t), edit=t.n(1, 3)), 12, 60), quick=400),
    Test("far", check_far, lambda: gens.from_tape(
        lambda t: far_case(t, lambda t: gens.pattern(t, 1, 4) + t.pick(BAD) + t.pick(["", "x", ")"])), 12, 100), quick=150),
    Test("bytes", check_bytes, lambda: gens.from_tape(c05.bytes_case, 16, 150), quick=8000),
    Test("cli", check_cli, lambda: gens.from_tape(lambda t: dict(after_case(t), variant=t.pick(["asan", "dbg", "rel"])),
                                                  16, 100), quick=800),
]

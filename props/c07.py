"""C07: escapes denote exactly the character they spell."""
import struct
from .common import *

ID = "C07"
VARIANTS = ["asan", "rel"]
RULE = ("The tokenizer is fed generated codepoint sequences rich in escapes, and every codepoint after a backslash, and "
        "compared step by step with a reference state machine; every Unicode scalar value is spelled as an escape in "
        "both cases with and without leading zeros and must generate itself as a literal and in sets; malformed "
        "escapes must be rejected. Non-trivial: a complete or malformed escape takes part.")
ESC = 1 << 30
HEX = "0123456789abcdefABCDEF"


class Tokens:
    """Reference tokenizer: feed returns 'more', 'error' or (codepoint, offset, byte)."""

    def __init__(self):
        self.off = self.byte = 0
        self.state = "init"

    def feed(self, cp, width):
        if self.state == "error":
            return "error"
        if self.state == "init":
            self.so, self.sb = self.off, self.byte
        self.off += 1
        self.byte += width
        if self.state == "init":
            if cp == 92:
                self.state = "esc"
                return "more"
            return cp, self.so, self.sb
        if self.state == "esc":
            if cp == ord("u"):
                self.state = "u"
                return "more"
            self.state = "init"
            c = chr(cp) if cp < 128 else ""
            if c in model.SIMPLE and c:
                return model.SIMPLE[c], self.so, self.sb
            return cp | ESC, self.so, self.sb
        if self.state == "u":
            if cp != ord("{"):
                self.state = "error"
                return "error"
            self.state, self.v, self.digits = "hex", 0, 0
            return "more"
        c = chr(cp) if cp < 128 else " "
        if c == "}":
            if not self.digits:
                self.state = "error"
                return "error"
            self.state = "init"
            return self.v, self.so, self.sb
        if c not in HEX or self.digits == 6:
            self.state = "error"
            return "error"
        self.v = self.v * 16 + int(c, 16)
        self.digits += 1
        return "more"


def run_tokens(w, seq):
    r = w.call(W.u8(5) + W.u32(len(seq)) + b"".join(struct.pack("<IB", c, wd) for c, wd in seq))
    out = []
    for _ in seq:
        out.append((r.i32(), r.u32(), r.u32(), r.u64(), r.u64(), r.u64(), r.u64(), r.u8()))
    r.end()
    return out


def compare_tokens(ctx, w, seq):
    m = Tokens()
    failed = None
    for i, ((cp, wd), got) in enumerate(zip(seq, run_tokens(w, seq))):
        want = m.feed(cp, wd)
        ret, tcp, masked, off, byte, poff, pbyte, has = got
        where = "at input %d (U+%04X) of %s" % (i, cp, ascii([c for c, _ in seq[max(0, i - 10):i + 1]]))
        if want == "error":
            need(ret < 0, "malformed escape accepted %s (status %d)", where, ret)
            need(failed in (None, ret), "error changed from %s to %d %s", failed, ret, where)
            need(has == 1, "no description of error %d", ret)
            failed = ret
            ctx.label("failed")
        elif want == "more":
            need(ret > 0, "status %d %s, inside of an escape", ret, where)
        else:
            if want[0] < ESC and not model.is_scalar(want[0]) and ret < 0:
                return
            need(ret == 0, "status %d %s, expected a complete token", ret, where)
            if tcp & ~ESC <= 0x10FFFF:
                need(masked == tcp & ~ESC, "token %x masked with PASSGEN_TOKEN_UNICODE_MASK is %x %s", tcp, masked, where)
            need((tcp, off, byte) == want, "token %x at %d/%d, expected %x at %d/%d, %s", tcp, off, byte, *want, where)
        if want != "error":
            need((poff, pbyte) == (m.off, m.byte), "tokenizer is at %d/%d, not %d/%d, %s", poff, pbyte, m.off, m.byte, where)


def tok_case(t):
    seq = []
    for _ in range(t.n(1, 24)):
        k = t.n(0, 8)
        if k == 8:
            # the automaton's own alphabet
            s = [ord(c) for c in t.pick(["", "\\", "\\u", "\\u{", "\\u{"]) + "".join(t.pick("\\u{}0fF1g") for _ in range(t.n(0, 8)))]
        elif k < 2:
            s = [gens.scalar(t)]
        elif k == 2:
            s = [92, t.pick([ord(c) for c in "abefnrtv\\|(){}[]?-ux0mwp"] + [gens.scalar(t)])]
        elif k == 3:
            s = [ord(c) for c in "\\u{%s}" % "".join(t.pick(HEX) for _ in range(t.n(1, 6)))]
        elif k == 4:
            s = [ord(c) for c in "\\u{%s}" % ("0" * t.n(0, 5) + "%x" % t.n(0, 0xffff))]
        elif k == 5:
            s = [t.pick([92, 92, 117, 123, 125] + [ord(c) for c in "0af"] + [gens.scalar(t)]) for _ in range(t.n(1, 4))]
        elif k == 6:
            s = [ord(c) for c in "\\u{" + "".join(t.pick(HEX) for _ in range(t.n(0, 5)))]
            s.append(t.pick([103, 71, 64, 96, 47, 58, 32, 0x130, 0x161, 0x1f630, 45, 92, 123, 0x17d]))
        else:
            s = [t.n(0, 0x10ffff)]
        seq += s
    return {"seq": [(c, (1 if c < 128 else 2 if c < 2048 else 3 if c < 65536 else 4) if t.n(0, 3) else t.n(1, 4))
                    for c in seq], "variant": t.pick(["asan", "rel"])}


def check_tok(ctx, case):
    compare_tokens(ctx, ctx.w(case["variant"]), case["seq"])
    ctx.nontrivial(any(c == 92 for c, _ in case["seq"]))


def blocks(step, top=0x110000):
    for i in range(0, top, step):
        yield {"from": i, "to": min(top, i + step)}


def check_backslash(ctx, case):
    """Every codepoint after a backslash, and plain."""
    w = ctx.w("asan")
    cps = [c for c in range(case["from"], case["to"])]
    seq = [(x, 1) for c in cps if c != 117 for x in (92, c)]
    compare_tokens(ctx, w, seq)
    compare_tokens(ctx, w, [(c, 2) for c in cps if c != 92])
    # inside of a unicode escape only hexadecimal digits and the brace go on
    if case["from"] < 0x3000 or case["from"] % 0x1f000 == 0:
        for c in cps[::1 if case["from"] < 0x3000 else 97]:
            compare_tokens(ctx, w, [(x, 1) for x in (92, 117, 123, 49, c, 50)])
            compare_tokens(ctx, w, [(x, 1) for x in (92, 117, c, 49, 125)])
    ctx.nontrivial(True)


def check_unicode(ctx, case):
    """Every scalar value spelled as an escape denotes itself."""
    w = ctx.w("rel")
    cps = [c for c in range(case["from"], case["to"]) if model.is_scalar(c) and not (c < 128 and chr(c) in gens.META)]
    if not cps:
        raise Skip
    for style in ("%x", "%X", "%06x", "%06X"):
        text = "".join("\\u{" + style % c + "}" for c in cps)
        g = W.gen(w, text.encode(), W.r_zero(), 1, 0)
        need(not g.rejected, "rejected: %s at %s", getattr(g, "message", ""), getattr(g, "codepoint", ""))
        got = W.unpack_cps(g.out[0][2])
        need(g.out[0][0] == 0 and got == cps, "escapes of U+%04X.. (%s) denote others: %s", cps[0], style,
             [(hex(a), hex(b)) for a, b in zip(cps, got) if a != b][:4])
    # as range ends
    if (case["from"] // 256) % (16 if ctx.tier == "quick" else 1) == 0:
        for a in cps[:: 1 if case["from"] < 0x400 else 37]:
            if a in (45,):
                continue
            g = W.gen(w, ("[\\u{%x}-\\u{%X}]" % (a, a)).encode(), W.r_zero(), 1, 0)
            need(not g.rejected and W.unpack_cps(g.out[0][2]) == [a], "range of U+%04X alone fails", a)
    ctx.nontrivial(True)


def check_nonscalar(ctx, case):
    """Surrogates and values beyond U+10FFFF are errors wherever they stand."""
    w = ctx.w("asan")
    for c in case["cps"]:
        for form in ("\\u{%x}", "[\\u{%X}]", "[a-\\u{%x}]", "a(b|\\u{%06x})", "[\\u{%x}-\\u{10ffff}]"):
            text = form % c
            g = W.gen(w, text.encode(), W.r_zero(), 0)
            need(g.rejected, "%s accepted", text)
    ctx.nontrivial(True)


def nonscalar_cases():
    for i in range(0xd800, 0xe000, 64):
        yield {"cps": list(range(i, i + 64))}
    yield {"cps": [0x110000, 0x110001, 0x110041, 0x120000, 0x1fffff, 0x200000, 0x200041, 0x210041, 0xffffff, 0xd80000,
                   0xabcdef, 0x800041, 0x40005b, 0x11ffff, 0x130000]}


def check_random_nonscalar(ctx, case):
    check_nonscalar(ctx, case)


SET_ESC = {}


def escape_case(t):
    """One escape inside of a pattern: whole output compared with the reference."""
    kind = t.n(0, 3)
    parts = []
    for _ in range(t.n(1, 8)):
        k = t.n(0, 5)
        if k == 0:
            parts.append("\\" + t.pick("abefnrtv\\"))
        elif k == 1:
            parts.append("\\" + t.pick("|(){}[]"))
        elif k == 2:
            parts.append("[" + t.pick(["\\]", "\\-", "\\\\", "\\n", "\\t", "a-\\]", "\\n-\\r", "\\\\-a", "+-\\-"]) + "]")
        elif k == 3:
            parts.append(gens.hexesc(gens.scalar(t), t.n(0, 15)))
        elif k == 4:
            parts.append("[%s-%s]" % tuple(gens.hexesc(c, t.n(0, 15)) for c in sorted((gens.scalar(t), gens.scalar(t)))))
        else:
            parts.append(chr(t.pick(gens.ORD_ASCII)))
        parts.append(t.pick(["", "", "", "?", "{2}", "{0,2}"]))
    return {"pattern": "".join(parts), "seed": t.n(0, 2**32 - 1), "variant": t.pick(["asan", "rel"])}


def check_escape(ctx, case):
    p = well_formed(case["pattern"])
    if p.contested:
        raise Skip
    g = W.gen(ctx.w(case["variant"]), case["pattern"].encode(), W.r_script(b"", case["seed"]), 2, 0)
    need(not g.rejected, "rejected: %s", getattr(g, "message", ""))
    run = model.Run(p, model.ScriptStream(b"", case["seed"]), {}, 1024)
    for ret, e, d in g.out:
        out, _ = run.output()
        need(ret == 0 and W.unpack_cps(d) == out, "generates %s, not %s", ascii(W.unpack_cps(d)), ascii(out))
    ctx.nontrivial("\\" in case["pattern"])


def unknown_case(t):
    """A backslash before anything that has no meaning there is an error."""
    c = t.pick([t.n(1, 255), gens.scalar(t), t.pick(gens.LOOKALIKE)])
    return {"c": c, "form": t.n(0, 3), "variant": t.pick(["asan", "rel"])}


def check_unknown(ctx, case):
    c = case["c"]
    text = ["\\%s", "ab(\\%s)", "x|\\%sy", "[a\\%s]"][case["form"]] % chr(c)
    try:
        p = model.parse(text.encode())
        ok = True
        if p.contested:
            raise Skip
    except model.ParseError as e:
        if getattr(e, "contested", False):
            raise Skip
        ok = False
    g = W.gen(ctx.w(case["variant"]), text.encode(), W.r_zero(), 0)
    need(g.rejected == (not ok), "%s is %s", ascii(text), "rejected" if ok else "accepted")
    ctx.label("known" if ok else "unknown")
    ctx.nontrivial(True)


TESTS = [
    Test("tokens", check_tok, lambda: gens.from_tape(tok_case, 10, 200), quick=24000),
    Test("backslash", check_backslash, cases=lambda: blocks(2048), exhaustive=True),
    Test("unicode", check_unicode, cases=lambda: blocks(256), exhaustive=True),
    Test("not scalar", check_nonscalar, cases=nonscalar_cases, exhaustive=True),
    Test("not scalar (random)", check_random_nonscalar, lambda: gens.from_tape(
        lambda t: {"cps": [t.n(0x110000, 0xffffff) for _ in range(8)]}, 24, 40), quick=1500),
    Test("escapes", check_escape, lambda: gens.from_tape(escape_case, 10, 100), quick=10000),
    Test("unknown", check_unknown, lambda: gens.from_tape(unknown_case, 6, 20), quick=8000),
]

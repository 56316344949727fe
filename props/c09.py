"""C09: any Unicode character passes through patterns unchanged."""
from .common import *
from . import cli

ID = "C09"
VARIANTS = ["asan", "rel", "dbg"]
RULE = ("Every Unicode scalar value except the ASCII metacharacters as a literal, with modifiers, as set member and "
        "range end (written directly and as an escape); every character whose low byte is a metacharacter and a "
        "sample of the others as wordlist name, word and Markov alphabet; generated patterns respelled with escapes. "
        "Output must be the same characters, as codepoints and as UTF-8. Non-trivial: characters beyond ASCII.")
SPECIAL = set(gens.META.encode()) | set(b"-,\n\r\t ^wmpu0")


def ordinary(a, b):
    return [c for c in range(a, b) if c and model.is_scalar(c) and not (c < 128 and chr(c) in gens.META)]


def expect(ctx, w, text, want, mode=0, what=""):
    g = W.gen(w, text.encode(), W.r_zero(), 1, mode, max(64, 8 * len(want)))
    need(not g.rejected, "%s: %s rejected: %s at %s", what, ascii(text[:60]), getattr(g, "message", ""),
         getattr(g, "codepoint", ""))
    ret, _, data = g.out[0]
    if mode == 0:
        got = W.unpack_cps(data)
        need(ret == 0, "%s: failed", what)
    else:
        try:
            got = [ord(c) for c in data.decode("utf-8")]
        except UnicodeDecodeError:
            raise Violation("%s: output is not UTF-8: %s" % (what, sh(data)))
    if got != want:
        i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        raise Violation("%s: U+%04X became %s" % (what, want[i] if i < len(want) else 0,
                                                  "U+%04X" % got[i] if i < len(got) else "nothing"))


def check_block(ctx, case):
    cps = ordinary(case["from"], case["to"])
    if not cps:
        raise Skip
    w = ctx.w("rel" if case["from"] % 0x800 else "asan")
    s = list(map(chr, cps))
    expect(ctx, w, "".join(s), cps, 0, "literal")
    expect(ctx, w, "".join(s), cps, 2, "literal, UTF-8")
    # the zero stream takes the first choice and every optional item
    expect(ctx, w, "".join(c + "{2}" for c in s), [c for c in cps for _ in (0, 1)], 0, "repeated literal")
    expect(ctx, w, "".join(c + "?" for c in s), cps, 0, "optional literal")
    expect(ctx, w, "".join("(%s|x)" % c for c in s), cps, 0, "alternative")
    sets = [c for c in cps if c != 45]
    expect(ctx, w, "".join("[%sa]" % chr(c) for c in sets), sets, 0, "first set member")
    expect(ctx, w, "".join("[%s-%s]" % (chr(c), chr(c)) for c in sets), sets, 2, "range of one")
    up = [c for c in sets if c > 97]
    expect(ctx, w, "".join("[%s-\U0010ffff]" % chr(c) for c in sets), sets, 0, "range start")
    # last member of the set: index 1
    if up:
        # each draw of one of two: 8 bytes, value 1
        text = "".join("[!%s]{1}" % chr(c) for c in up)
        stream = W.r_script(b"\0" * 8 + (b"\1" + b"\0" * 7) * len(up), 0)
        g = W.gen(w, text.encode(), stream, 1, 0)
        need(not g.rejected and W.unpack_cps(g.out[0][2]) == up, "second set member of U+%04X..: wrong", up[0])
        ends = [c for c in up if model.is_scalar(c - 1)]
        text = "".join("[%s-%s]" % (gens.hexesc(c - 1, 0), chr(c)) for c in ends)
        stream = W.r_script(b"\0" * 8 + (b"\1" + b"\0" * 7) * len(ends), 0)
        g = W.gen(w, text.encode(), stream, 1, 0)
        need(not g.rejected and W.unpack_cps(g.out[0][2]) == ends, "range end of U+%04X..: wrong", ends[0])
    ctx.nontrivial(case["from"] >= 128)


def check_words(ctx, case):
    """As name of a wordlist and inside words, for \\w and \\m."""
    cps = [c for c in ordinary(case["from"], case["to"])
           if ctx.tier != "quick" or (c & 0xff) in SPECIAL or c % 23 == 0]
    cps = [c for c in cps if c not in (10,)]
    if not cps:
        raise Skip
    w = ctx.w("rel" if case["from"] % 0x1000 else "asan")
    s = list(map(chr, cps))
    wl = [(c, ("q%sz\n" % c).encode(), 2) for c in s]
    text = "".join("\\w{%s}\\m{%s}\\w{%s}{2}" % (c, c, c) for c in s)
    want = [x for c in cps for _ in range(4) for x in (113, c, 122)]
    g = W.gen(w, text.encode(), W.r_zero(), 1, 2, 8 * len(want), True, wl)
    need(not g.rejected, "rejected: %s", getattr(g, "message", ""))
    ret, _, data = g.out[0]
    need(ret > 0, "words from lists named U+%04X..: failed", cps[0])
    need(data == "".join(map(chr, want)).encode(), "words from lists named U+%04X..: %s", cps[0], sh(data, 400))
    # bare and at both ends of words
    wl = [("n", ("%s\n" % c).encode(), 1) for c in s[:1]]
    g = W.gen(w, b"\\w{n}\\m{n}", W.r_zero(), 1, 0, 64, True, wl)
    need(W.unpack_cps(g.out[0][2])[:1] == cps[:1], "word U+%04X alone: wrong", cps[0])
    ctx.nontrivial(case["from"] >= 128)


def blocks(step):
    for i in range(0, 0x110000, step):
        yield {"from": i, "to": i + step}


def respell(text, flip):
    """The same pattern with ordinary characters written as escapes."""
    cps, widths, _ = model.utf8_decode(text.encode())
    out, state, k = [], "group", 0
    toks = list(model.tokenize(cps, widths))
    for i, tok in enumerate(toks):
        end = toks[i + 1].off if i + 1 < len(toks) else len(cps)
        src = "".join(map(chr, cps[tok.off:end]))
        plain = not tok.esc and not tok.uni
        ch = chr(tok.cp)
        if state == "group":
            if plain and ch == "[":
                state = "set"
            elif plain and ch == "{":
                state = "brace"
            elif tok.esc and ch in "wm":
                state = "name"
            elif plain and ch not in gens.META:
                k += 1
                src = gens.hexesc(tok.cp, flip[k % len(flip)]) if flip[k % len(flip)] >= 4 else src
        elif state == "set":
            if plain and ch == "]":
                state = "group"
            elif plain and ch != "-":
                k += 1
                src = gens.hexesc(tok.cp, flip[k % len(flip)]) if flip[k % len(flip)] >= 4 else src
        elif plain and ch == "}":
            state = "group"
        out.append(src)
    return "".join(out)


def respell_case(t):
    c = gen_case(t, depth=3, budget=30)
    c["flip"] = [t.n(0, 15) for _ in range(t.n(1, 7))]
    return c


def check_respell(ctx, case):
    p = well_formed(case["pattern"])
    words = load_words(case["wl"])
    other = respell(case["pattern"], case["flip"])
    if model.parse(other.encode()).contested or p.contested:
        raise Skip
    a = library_gen(ctx, case, mode=2)
    b = library_gen(ctx, dict(case, pattern=other), mode=2)
    need(not a.rejected and not b.rejected, "rejected: %s", ascii(other))
    need(a.out == b.out, "spelled with escapes: %s instead of %s", sh(b.out), sh(a.out))
    run = model.Run(p, model.ScriptStream(case["prefix"], case["seed"]), words, 1024)
    for ret, e, d in a.out:
        try:
            out, _ = run.output()
        except model.GenFail:
            break
        need(d == "".join(map(chr, out)).encode(), "generated %s, not %s", sh(d), ascii(out)[:300])
    ctx.nontrivial(other != case["pattern"])


def cli_case(t):
    return {"cps": [t.pick([gens.scalar(t), t.pick(gens.LOOKALIKE), t.pick(gens.EDGE)]) for _ in range(t.n(1, 12))],
            "variant": t.pick(["asan", "rel", "dbg"])}


def check_cli(ctx, case):
    cps = [c for c in case["cps"] if not (c < 128 and chr(c) in gens.META + "-")]
    if not cps:
        raise Skip
    s = "".join(map(chr, cps))
    pat = "<%s>%s" % (s, "".join("[%s]%s" % (c, c + "{2}") for c in s))
    want = "<%s>%s\n" % (s, "".join(c * 3 for c in s))
    import os
    path = os.path.join(ctx.scratch, "w.txt")
    name = "n" + s
    with open(path, "wb") as f:
        f.write((s.replace("\n", "") + "\n").encode())
    r = cli.run(ctx, case["variant"], ["-r", "zero", "-w", "%s:%s" % (name.replace(":", ""), path),
                                       pat + "\\w{%s}" % name.replace(":", "")])
    need(r.code == 0, "failed: %s", r.describe())
    need(r.out.decode() == want[:-1] + s.replace("\n", "") + "\n", "printed %s", sh(r.out))
    ctx.nontrivial(any(c > 127 for c in cps))


TESTS = [
    Test("characters", check_block, cases=lambda: blocks(256), exhaustive=True),
    Test("words", check_words, cases=lambda: blocks(256), exhaustive=True),
    Test("respelled", check_respell, lambda: gens.from_tape(respell_case, 20, 300), quick=12000),
    Test("cli", check_cli, lambda: gens.from_tape(cli_case, 10, 80), quick=800),
]

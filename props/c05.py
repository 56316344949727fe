"""C05: well-formed patterns are accepted, malformed ones rejected."""
from .common import *

ID = "C05"
VARIANTS = ["asan", "rasan", "rel"]
RULE = ("Grammar-built patterns, mutated patterns, soups of tokens, counts at the limits of 64 bits, ill-formed UTF-8 "
        "and long paddings; acceptance must agree with a reference parser, whether the text is parsed whole, in chunks "
        "or codepoint by codepoint, and an accepted one must then generate what the reference generates. Non-trivial: "
        "at least four bytes of pattern using a metacharacter.")

META = set(b"\\|(){}[]?")


def reference(data):
    """(accepted, error or Parsed); Skip where the documentation leaves it open."""
    try:
        p = model.parse(data)
    except model.ParseError as e:
        if getattr(e, "contested", False):
            raise Skip
        return False, e
    if p.contested:
        raise Skip
    return True, p


def judge(ctx, data, variant, whole_only=False, gen=True, seed=1):
    ok, what = reference(data)
    w = ctx.w(variant)
    gen = gen and (not ok or model.max_len(what.root) <= 1 << 14)
    g = W.gen(w, data, W.r_script(b"", seed), 2 if gen else 0, 0, 1 << 16)
    need(g.rejected == (not ok), "%s %s pattern %s: %s", "rejects" if g.rejected else "accepts",
         "well-formed" if ok else "malformed", sh(data), "" if ok else what.why)
    ctx.label("accepted" if ok else "rejected: " + what.why)
    if ok and gen:
        run = model.Run(what, model.ScriptStream(b"", seed), {}, 1024, 1 << 15)
        for ret, e, d in g.out:
            try:
                out, _ = run.output()
            except model.GenFail:
                break
            need(ret == 0 and W.unpack_cps(d) == out, "accepted with another meaning: generates %s, not %s",
                 sh(W.unpack_cps(d)), sh(out))
    # the same codepoints, fed in other ways
    cps, _, bad = model.utf8_decode(data)
    if whole_only or bad is not None:
        return ok
    r = w.call(W.u8(17) + W.u32(2 + len(cps)) + W.u8(6) + W.u8(0) +
               b"".join(W.u8(7) + W.u8(0) + W.cps([c]) for c in cps) + W.u8(8) + W.u8(0))
    for _ in cps:
        r.u8()
    need((r.u8() == 0) == ok, "parsed codepoint by codepoint, %s pattern %s is %s",
         "well-formed" if ok else "malformed", sh(data), "rejected" if ok else "accepted")
    return ok


def check_text(ctx, case):
    data = case["pattern"].encode("utf-8", "surrogatepass")
    if b"\0" in data:
        raise Skip
    judge(ctx, data, case["variant"])
    ctx.nontrivial(len(data) >= 4 and bool(META & set(data)))


def valid_case(t):
    return {"pattern": gens.pattern(t, 4, 40), "variant": t.pick(["asan", "rasan", "rel"])}


def mutated_case(t):
    return {"pattern": gens.mutate(t, gens.pattern(t, 3, 20)), "variant": t.pick(["asan", "rasan", "rel"])}


def soup_case(t):
    return {"pattern": gens.token_soup(t), "variant": t.pick(["asan", "rasan", "rel"])}


DENSE = list("\\|(){}[]?-,01239ab") + ["u{", "w{", "m{", "é", "\u0128"]


def dense_case(t):
    """Short texts over the alphabet of metacharacters."""
    return {"pattern": "".join(t.pick(DENSE) for _ in range(t.n(1, 9))), "variant": t.pick(["asan", "rasan", "rel"])}


COUNTS = [0, 1, 2, 9, 10, 99, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63,
          2**64 - 2, 2**64 - 1, 2**64, 2**64 + 1, 2**64 + 9, 2**65, 10**19, 10**20, 10**25,
          18446744073709551609, 18446744073709551610, 18446744073709551619, 18446744073709551620, 184467440737095516150,
          184467440737095516160, 2**128, 2**128 + 1]


def counts_case(t):
    parts = []
    for _ in range(t.n(1, 4)):
        a, b = t.pick(COUNTS) + t.n(0, 2), t.pick(COUNTS) + t.n(0, 2)
        z = "0" * t.pick([0, 0, 0, 1, 5, 30])
        one = "%s%d" % (z, a)
        two = "%d,%s%d" % (a, z, b)
        k = t.n(0, 4)
        if k < 2:
            parts.append("{%s}%s" % (one, t.pick(["a", "", "(b|c)", "|"])))
        elif k == 2:
            parts.append(t.pick(["a", "[b]", "(c)", "\\w{x}"]) + "{%s}" % one)
        elif k == 3:
            parts.append(t.pick(["a", "[b]", "(c)", "\\w{x}"]) + "{%s}" % two)
        else:
            parts.append("({%s}x|{%s}y)" % (one, t.pick(COUNTS)))
    return {"pattern": t.pick(["", "", "|", "x|"]).join(parts), "variant": t.pick(["asan", "rasan", "rel"])}


def check_counts(ctx, case):
    data = case["pattern"].encode()
    judge(ctx, data, case["variant"], gen=False)
    ctx.nontrivial(True)


PADS = ["a", "é", "€", "😀", "\\u{41}", "[ab]", "(a|b)", "a?", "b{2}", "{0}x|", "\\|", "\\n", "()", "c|", "\\\\", "\\\\", "\\{\\}", "x\\t", "{3}\\\\|", "[\\]]"]


def padded_case(t):
    """A construct far into the pattern: acceptance must not depend on where."""
    pad = t.pick(PADS)
    base = t.pick([1, 15, 16, 31, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 1025, 2047, 4096, 8192, 20000])
    count = max(0, base + t.n(0, 8) - 4)
    core = t.pick([lambda: gens.pattern(t, 2, 10), lambda: gens.mutate(t, gens.pattern(t, 2, 10)),
                   lambda: gens.token_soup(t, 6)])()
    tail = t.pick(["", "", "z", "é", "😀", "{3}", "?"])
    return {"lead": t.pick(["", "", "x", "ab", "é"]), "pad": pad, "count": count, "core": core, "tail": tail, "variant": t.pick(["asan", "rasan", "rel"])}


def check_padded(ctx, case):
    data = (case["lead"] + case["pad"] * case["count"] + case["core"] + case["tail"]).encode("utf-8", "surrogatepass")
    if b"\0" in data:
        raise Skip
    ok = judge(ctx, data, case["variant"], whole_only=case["count"] > 700, gen=case["count"] < 600)
    ctx.label("longer than 1024 codepoints", case["count"] * len(case["pad"]) > 1024)
    ctx.nontrivial(case["count"] > 3)


def bytes_case(t):
    """Well-formed text with ill-formed UTF-8 somewhere, or raw bytes."""
    k = t.n(0, 3)
    a = gens.pattern(t, 2, 10).encode("utf-8", "surrogatepass")
    b = gens.pattern(t, 1, 6).encode("utf-8", "surrogatepass")
    if k == 0:
        data = a + t.pick(gens.BAD_UTF8) + b
    elif k == 1:
        data = a + "é€😀"[t.n(0, 2)].encode()[:t.n(1, 3)]
    elif k == 2:
        i = t.n(0, len(a))
        data = a[:i] + bytes([t.n(0x80, 255)]) + a[i:]
    else:
        data = b"a" * t.pick([0, 1022, 1023, 1024, 255, 256, 511]) + a + t.pick(gens.BAD_UTF8)
        data += t.pick([b"", b"b", b"]", b"}"])
    return {"data": data, "variant": t.pick(["asan", "rasan", "rel"])}


def check_bytes(ctx, case):
    data = case["data"]
    if b"\0" in data:
        raise Skip
    ok = judge(ctx, data, case["variant"], gen=False)
    ctx.label("ill-formed UTF-8", not ok)
    ctx.nontrivial(len(data) >= 3 and any(b >= 128 for b in data))


def chunks_case(t):
    c = t.pick([valid_case, mutated_case])(t)
    c["cuts"] = [t.n(1, 12) for _ in range(t.n(1, 12))]
    c["seed"] = t.n(0, 65535)
    return c


def after_tokens(cps, widths):
    """Where the first malformed token starts."""
    n = 0
    while n < len(cps):
        w = 1
        if cps[n] == 92:
            w = 2
            if cps[n + 1:n + 2] == [ord("u")]:
                w = 3
                while n + w <= len(cps) and cps[n + w - 1] != ord("}"):
                    w += 1
        try:
            list(model.tokenize(cps[n:n + w], widths[n:n + w]))
        except model.ParseError:
            return n
        n += w
    return n


def check_chunks(ctx, case):
    """Parsing in chunks that end between tokens equals parsing at once."""
    data = case["pattern"].encode("utf-8", "surrogatepass")
    if b"\0" in data:
        raise Skip
    ok, what = reference(data)
    cps, widths, bad = model.utf8_decode(data)
    if bad is not None:
        raise Skip
    marks = []
    try:
        for tok in model.tokenize(cps, widths):
            marks.append(tok.off)
        marks.append(len(cps))
    except model.ParseError as e:
        # the malformed token starts a chunk or lies within one
        marks.append(after_tokens(cps, widths))
        ctx.label("chunked, malformed token")
    chunks, i = [], 0
    for n in case["cuts"]:
        nxt = min(len(marks) - 1, i + n)
        chunks.append(cps[marks[i]:marks[nxt]])
        i = nxt
    chunks.append(cps[marks[i]:])
    r = ctx.w(case["variant"]).call(
        W.u8(16) + W.u32(0) + W.u32(len(chunks)) + b"".join(W.cps(c) for c in chunks) +
        W.r_script(b"", case["seed"]) + W.u32(1 if ok and model.max_len(what.root) <= 1 << 14 else 0))
    ret, fin = r.i32(), r.i32()
    need((ret == 0 and fin == 0) == ok, "in chunks, %s pattern gives %d, %d", "well-formed" if ok else "malformed", ret, fin)
    if ok and model.max_len(what.root) <= 1 << 14:
        run = model.Run(what, model.ScriptStream(b"", case["seed"]), {}, 1024, 1 << 15)
        try:
            out, _ = run.output()
        except model.GenFail:
            return
        need(r.i64() == 0, "generation failed")
        r.f64()
        need(r.cps() == out, "in chunks, the pattern has another meaning")
    ctx.label("chunked, " + ("accepted" if ok else "rejected"))
    ctx.nontrivial(len(chunks) >= 2 and len(cps) >= 4)


def all_short():
    """Every text of up to four characters over the metacharacters."""
    import itertools
    alpha = "\\|(){}[]?-,1a"
    for n in range(0, 4):
        for head in itertools.product(alpha, repeat=n):
            yield {"head": "".join(head), "alpha": alpha}


def check_short(ctx, case):
    for c in case["alpha"]:
        for v in ("asan",):
            data = (case["head"] + c).encode()
            try:
                ok, what = reference(data)
            except Skip:
                continue
            g = W.gen(ctx.w(v), data, W.r_zero(), 0)
            need(g.rejected == (not ok), "%s %s pattern %s", "rejects" if g.rejected else "accepts",
                 "well-formed" if ok else "malformed", sh(data))
            ctx.evaluations += 1
    ctx.nontrivial(len(case["head"]) == 3)


def check_large(ctx, case):
    """Large structures, whole and with something wrong in them."""
    data = edited(case).encode("utf-8", "surrogatepass")
    if b"\0" in data:
        raise Skip
    judge(ctx, data, case["variant"], whole_only=len(data) > 5000, gen=False)
    ctx.label("large: " + case["large"]["kind"])
    ctx.nontrivial(True)


def check_far(ctx, case):
    """What lies before it does not change whether a text is accepted."""
    near, far = far_results(ctx, case)
    need((near is None) == (far is None), "%s alone is %s, behind %d codepoints it is %s", sh(case["core"]),
         "rejected" if near else "accepted", case["n"], "rejected" if far else "accepted")
    ctx.label("far, " + ("rejected" if near else "accepted"))
    ctx.nontrivial(True)


def far_core(t):
    return t.pick([gens.pattern, lambda t, *a: gens.mutate(t, gens.pattern(t, *a))])(t, 2, 8)


TESTS = [
    Test("short", check_short, cases=all_short, exhaustive=True),
    Test("valid", check_text, lambda: gens.from_tape(valid_case, 20, 300), quick=12000),
    Test("mutated", check_text, lambda: gens.from_tape(mutated_case, 20, 200), quick=20000),
    Test("soup", check_text, lambda: gens.from_tape(soup_case, 8, 120), quick=14000),
    Test("dense", check_text, lambda: gens.from_tape(dense_case, 6, 20), quick=20000),
    Test("counts", check_counts, lambda: gens.from_tape(counts_case, 12, 60), quick=6000),
    Test("padded", check_padded, lambda: gens.from_tape(padded_case, 16, 120), quick=3000),
    Test("bytes", check_bytes, lambda: gens.from_tape(bytes_case, 16, 150), quick=8000),
    Test("large", check_large, lambda: gens.from_tape(edited_large, 12, 60), quick=400),
    Test("far", check_far, lambda: gens.from_tape(lambda t: far_case(t, far_core), 12, 100), quick=150),
    Test("chunks", check_chunks, lambda: gens.from_tape(chunks_case, 20, 200), quick=5000),
]

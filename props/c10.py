"""C10: output buffers are never overrun and all output forms agree."""
import json
from .common import *

ID = "C10"
VARIANTS = ["asan", "rel", "rasan"]
RULE = ("Grammar-built patterns, wordlists and streams generated into exact-size heap buffers of every size around the "
        "one needed (and zero, and large) in the codepoint, UTF-8 and JSON forms, and through a callback that fails "
        "after a generated number of codepoints; compared with a reference interpreter. Non-trivial: an output of at "
        "least two units that exactly fits or just does not.")


class Abort(Exception):
    pass


class Limited(list):
    """Output list that stops generation as a failing callback does."""

    def __init__(self, fits):
        list.__init__(self)
        self.fits = fits

    def append(self, cp):
        if not self.fits(cp):
            raise Abort
        list.append(self, cp)

    def __iadd__(self, cps):
        for c in cps:
            self.append(c)
        return self


class LimitedRun(model.Run):
    def limited(self, fits):
        self.out = Limited(fits)
        self.bits = 0.0
        self.group(self.root, self.depth_limit)
        return self.out, self.bits


def json_text(b):
    try:
        return json.loads('"' + b.decode("utf-8") + '"', strict=True)
    except ValueError as e:
        raise Violation("JSON form is not a JSON string: %s (%s)" % (sh(b), e))


def units(mode, data, cps):
    """Checks the content of a complete output and returns its size in units."""
    if mode < 2:
        need(W.unpack_cps(data) == cps, "form %d: %s, not %s", mode, ascii(W.unpack_cps(data)[:80]), ascii(cps[:80]))
        return len(cps)
    text = "".join(map(chr, cps))
    if mode == 2:
        need(data == text.encode("utf-8"), "UTF-8 form: %s, not %s", sh(data), ascii(text[:80]))
    else:
        need(json_text(data) == text, "JSON form: %s, not %s", sh(data), ascii(text[:80]))
    return len(data)


def check(ctx, case):
    p = well_formed(case["pattern"])
    words = load_words(case["wl"])
    run = model.Run(p, model.ScriptStream(case["prefix"], case["seed"]), words, 1024)
    try:
        want = [run.output() for _ in range(case["n"])]
    except model.GenFail as e:
        raise Skip(str(e))
    if len(want[0][0]) > case.get("most", 3000):
        raise Skip
    sizes = {}
    entropies = {}
    for mode in (0, 1, 2, 3):
        g = library_gen(ctx, case, mode=mode)
        need(not g.rejected, "rejected")
        sizes[mode] = []
        for (ret, e, data), (cps, bits) in zip(g.out, want):
            n = units(mode, data, cps)
            if mode:
                need(ret == n and len(data) == (n * 4 if mode == 1 else n), "form %d: returned %d for %d units", mode, ret, n)
            else:
                need(ret == 0, "callback form returned %d", ret)
            sizes[mode].append(n)
        ents = [e for _, e, _ in g.out]
        need(entropies.setdefault("e", ents) == ents, "entropy depends on the form: %s, %s", ents, entropies["e"])
    # sizes around the one needed
    for mode, delta in case["tight"]:
        full = sizes[mode][0]
        size = max(0, full + delta)
        if mode == 0 and size >= full:
            continue
        g = library_gen(ctx, case, n=1, mode=mode, buflen=size)
        ret, e, data = g.out[0]
        if size >= full:
            need(ret == full, "form %d, buffer of %d for %d units: returned %d", mode, size, full, ret)
            units(mode, data, want[0][0])
            need(e == entropies["e"][0], "entropy depends on the buffer size")
            ctx.label("exact fit" if size == full else "fits")
        elif mode == 0:
            need(ret == 55, "error 55 of the callback became %d", ret)
            need(W.unpack_cps(data) == want[0][0][:size], "callback called with other codepoints")
            ctx.label("callback fails")
        else:
            need(ret == 0, "form %d, buffer of %d for %d units: returned %d instead of failing", mode, size, full, ret)
            ctx.label("too small")
        ctx.nontrivial(full >= 2 and abs(delta) <= 1)
    features(ctx, p)


def case10(t):
    c = gen_case(t, depth=3, most_gen=3, nul=True, variants=("asan", "rasan", "rel"))
    c["tight"] = [(t.n(0, 3), t.pick([0, -1, 1, -2, -3, 2, 3, 4, -4, -100000])) for _ in range(t.n(1, 4))]
    return c


def abort_case(t):
    c = gen_case(t, depth=3, most_gen=4, variants=("asan", "rel"))
    c["limit"] = t.n(0, 12)
    if t.chance(1, 20):
        # repetitions that no output could hold
        n = t.pick([2**31, 2**32, 2**32 + 1, 2**33, 2**53, 2**63, 2**64 - 1])
        m = t.pick([n, n, min(n + t.n(1, 9), 2**64 - 1)])
        c["pattern"] = t.pick(["x", "[ab]", "(a|b)", "(c)", "ab", "(a(b|cd))", "\\u{1f600}", "e?"]) + (
            "{%d}" % n if m == n else "{%d,%d}" % (n, m)) + t.pick(["", "z", "?"])
        c["wl"] = []
    return c


def check_abort(ctx, case):
    """A failing callback stops generation at once: nothing further is drawn."""
    p = well_formed(case["pattern"])
    words = load_words(case["wl"])
    s = model.ScriptStream(case["prefix"], case["seed"])
    run = LimitedRun(p, s, words, 1024)
    want = []
    for _ in range(case["n"]):
        left = [case["limit"]]

        def fits(cp):
            left[0] -= 1
            return left[0] >= 0
        try:
            run.limited(fits)
            want.append((0, list(run.out)))
        except Abort:
            want.append((55, list(run.out)))
        except model.GenFail as e:
            raise Skip(str(e))
    g = library_gen(ctx, case, mode=0, buflen=case["limit"])
    need(not g.rejected, "rejected")
    for i, ((ret, e, data), (r, cps)) in enumerate(zip(g.out, want)):
        need(ret == r, "output %d: returned %d, not %d", i, ret, r)
        need(W.unpack_cps(data) == cps, "output %d: callback saw %s, not %s", i, ascii(W.unpack_cps(data)), ascii(cps))
    need(g.consumed == s.pos, "%d bytes of randomness used, not %d", g.consumed, s.pos)
    ctx.label("aborted", any(r for r, _ in want))
    ctx.nontrivial(any(r for r, _ in want) and case["limit"] > 0)


def literal_case(t):
    """Every small buffer size for texts of mixed widths."""
    n = t.n(0, 10)
    cps = [t.pick([gens.scalar(t), t.pick([34, 92, 8, 9, 10, 12, 13, 1, 31, 127, 0x80, 0x7ff, 0x800, 0xffff, 0x10000]),
                   t.pick(gens.EDGE)]) for _ in range(n)]
    return {"cps": cps, "variant": t.pick(["asan", "rasan"])}


def check_literal(ctx, case):
    cps = [c for c in case["cps"]]
    text = "".join("\\u{%x}" % c if not (c < 128 and chr(c) in gens.META) else "\\" + chr(c) for c in cps)
    if "\\?" in text:
        raise Skip
    try:
        model.parse(text.encode())
    except model.ParseError:
        raise Skip
    w = ctx.w(case["variant"])
    for mode in (1, 2, 3):
        full = W.gen(w, text.encode(), W.r_zero(), 1, mode, 1000).out[0]
        n = units(mode, full[2], cps)
        need(full[0] == n, "returned %d for %d units", full[0], n)
        for size in range(0, n + 6):
            ret, _, data = W.gen(w, text.encode(), W.r_zero(), 1, mode, size).out[0]
            if size < n:
                need(ret == 0, "form %d, buffer of %d for %d units: returned %d instead of failing", mode, size, n, ret)
            else:
                need(ret == n and data == full[2], "form %d, buffer of %d for %d units: returned %d", mode, size, n, ret)
    ctx.label("literal sizes")
    ctx.nontrivial(len(cps) >= 2)


def check_json(ctx, case):
    cps = [c for c in range(case["from"], case["to"]) if model.is_scalar(c) and not (c < 128 and chr(c) in "|(){}[]?")]
    if not cps:
        raise Skip
    text = "".join("\\u{%x}" % c for c in cps)
    g = W.gen(ctx.w("asan"), text.encode(), W.r_zero(), 1, 3, 8 * len(cps))
    need(g.out[0][0] > 0, "failed")
    need(json_text(g.out[0][2]) == "".join(map(chr, cps)), "JSON form of U+%04X.. differs", cps[0])
    ctx.nontrivial(True)


def huge_cases():
    i = 0
    for text in ("x", "\u00e9", "\u20ac", "\U0001f600", "\\\\", "abcdefgh", "\u00e9\u20ac"):
        for n in (65536, 262144, 2**20 - 1, 2**20, 2**20 + 1, 2**22 + 1):
            for mode in ((0, 1, 2, 3) if len(text) == 1 and n > 2**20 else ((i % 4,))):
                i += 1
                yield {"text": text, "n": n, "mode": mode, "less": i % 3 == 2}


def check_huge(ctx, c):
    """Outputs of millions of codepoints."""
    text, n, mode = c["text"], c["n"], c["mode"]
    out = text.replace("\\\\", "\\")
    one = [lambda: out.encode("utf-32-le"), out.encode, lambda: json.dumps(out, ensure_ascii=False)[1:-1].encode()][max(0, mode - 1)]()
    want = one * n
    units_ = len(want) // (4 if mode < 2 else 1)
    size = units_ - 1 if c["less"] else units_ + n % 7
    pattern = text + "{%d}" % n if len(out) == 1 else "(" + text + "){%d}" % n
    (ret, e, data), = W.gen(ctx.w("rel"), pattern.encode(), W.r_zero(), 1, mode, size).out
    if c["less"]:
        need(ret == (55 if mode == 0 else 0), "%s into %d units of space: returned %d", pattern, size, ret)
    else:
        need(ret == (0 if mode == 0 else units_), "%s: returned %d, not %d units", pattern, ret, units_)
        need(len(data) == len(want) and data == want, "%s: %d bytes come out, not the %d expected", pattern, len(data), len(want))
    ctx.label("millions", n >= 2**20)
    ctx.nontrivial()


def far_buffer_case(t):
    c = gen_case(t, depth=2, most_gen=1, variants=("asan", "rel"))
    c["size"] = t.pick([2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 2, 2**32 + 5, 2**33 + 1, 2**33]) + t.n(0, 4)
    c["mode"] = t.n(1, 3)
    return c


def check_far_buffer(ctx, c):
    """Space of more than 2^32 units."""
    p = well_formed(c["pattern"])
    run = model.Run(p, model.ScriptStream(c["prefix"], c["seed"]), load_words(c["wl"]), 1024)
    try:
        want, _ = run.output()
    except model.GenFail as e:
        raise Skip(str(e))
    r = ctx.w(c["variant"]).call(W.u8(32) + W.blob(c["pattern"].encode("utf-8", "surrogatepass")) + W.wordlists(c["wl"]) +
                                 W.r_script(c["prefix"], c["seed"]) + W.u8(c["mode"]) + W.u64(c["size"]))
    if r.u8() == 0:
        raise Skip("no address space")
    n = r.u64()
    data = r.blob()
    r.end()
    need(n == units(c["mode"], data, want), "%d units returned", n)
    ctx.nontrivial(n >= 2)


def large10(t):
    c = {"large": gens.large(t), "prefix": b"", "seed": t.n(0, 2**32 - 1), "n": t.n(1, 2), "variant": t.pick(["asan", "rel"])}
    c["tight"] = [(m, t.pick([0, -1, 1, -1000000])) for m in (0, 1, 2, 3)]
    return c


def check_large(ctx, case):
    """Long outputs."""
    check(ctx, dict(expanded(case), most=500000))
    ctx.label("large: " + case["large"]["kind"])
    ctx.nontrivial(True)


TESTS = [
    Test("huge", check_huge, cases=huge_cases, exhaustive=True),
    Test("far buffers", check_far_buffer, lambda: gens.from_tape(far_buffer_case, 20, 300), quick=600),
    Test("large", check_large, lambda: gens.from_tape(large10, 12, 60), quick=150),
    Test("json characters", check_json,
         cases=lambda: ({"from": i, "to": i + 256} for i in range(0, 0x110000, 256)), exhaustive=True),
    Test("forms", check, lambda: gens.from_tape(case10, 20, 300), quick=14000),
    Test("abort", check_abort, lambda: gens.from_tape(abort_case, 20, 300), quick=16000),
    Test("literals", check_literal, lambda: gens.from_tape(literal_case, 4, 60), quick=1600),
]

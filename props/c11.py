"""C11: JSON output is always valid JSON carrying the exact outputs."""
import json, math
from .common import *
from . import cli

ID = "C11"
VARIANTS = ["asan", "rel", "dbg"]
RULE = ("Command line runs with JSON output over generated patterns, amounts and seeds, among them every control "
        "character, quotes, backslashes and any Unicode; parsed by a strict JSON parser and compared with the "
        "reference interpreter and with plain NUL-separated output. Non-trivial: an output that needs escaping or "
        "several outputs.")
LIMIT_BITS = 1000


def reject(x):
    raise ValueError("not a JSON number: " + x)


def unique(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ValueError("repeated key")
    return d


def parse_json(out):
    need(out.endswith(b"\n") and out.count(b"\n") == 1, "not one line: %s", sh(out))
    try:
        text = out.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Violation("not UTF-8: %s" % sh(out))
    try:
        v = json.loads(text, strict=True, parse_constant=reject, object_pairs_hook=unique)
    except ValueError as e:
        raise Violation("not JSON (%s): %s" % (e, sh(out, 400)))
    need(isinstance(v, list) and all(isinstance(o, dict) for o in v), "not an array of objects: %s", sh(out))
    return v


def spread(t):
    """Characters that need care in JSON."""
    k = t.n(0, 4)
    if k == 0:
        return "\\u{%x}" % t.n(1, 31)
    if k == 1:
        return t.pick(['"', "\\\\", "/", "\\u{7f}", "\\u{22}", "\\u{85}", "\\u{2028}", "\\u{fffe}", "\\u{feff}", "'", "\\n", "\\b", "\\f",
                       "\\r", "\\t", "\\v", "\\a", "\\e", "\\u{10ffff}", "\\u{fffd}"])
    if k == 2:
        return t.pick(['["\\\\]', "[\\u{1}-\\u{1f}]", "[ -~]", '["-\\\\]', "[\\u{80}-\\u{a0}]", "(\\\\|\")", "\\u{1}?", '"{2}'])
    return chr(t.pick([gens.scalar(t), t.pick(gens.ORD_ASCII)]))


def case11(t):
    k = t.n(0, 2)
    if k < 2:
        pat = "".join(spread(t) for _ in range(t.n(1, 14)))
    else:
        pat = gens.pattern(t, 2, 20)
    return {"pattern": pat, "n": t.pick([1, 1, 2, 3, 7, 40]), "rseed": t.n(1, 2**63), "entropy": t.n(0, 1),
            "long": t.n(0, 1), "z": t.n(0, 3) == 3, "variant": t.pick(["asan", "rel", "dbg"])}


def check(ctx, case):
    if case["pattern"].startswith("-") or "\0" in case["pattern"]:
        raise Skip
    p = well_formed(case["pattern"])
    run = model.Run(p, model.xorshift_stream(case["rseed"]), {}, 1024)
    try:
        want = [run.output() for _ in range(case["n"])]
    except model.GenFail:
        raise Skip
    if any(b > LIMIT_BITS or 0 in o for o, b in want):
        raise Skip
    texts = ["".join(map(chr, o)) for o, _ in want]
    base = ["--random" if case["long"] else "-r", "xorshift:%d" % case["rseed"],
            "--amount" if case["long"] else "-a", str(case["n"])]
    opts = ["--json" if case["long"] else "-j"]
    opts += [("--entropy" if case["long"] else "-e")] if case["entropy"] else []
    opts += ["-z"] if case["z"] else []
    r = cli.run(ctx, case["variant"], base + opts + [case["pattern"]])
    need(r.code == 0, "failed: %s", r.describe())
    v = parse_json(r.out)
    need(len(v) == case["n"], "%d objects for %d outputs", len(v), case["n"])
    for o, text, (_, bits) in zip(v, texts, want):
        need(o.get("output") == text, "output %s, not %s", ascii(o.get("output"))[:200], ascii(text)[:200])
        need(("entropy" in o) == bool(case["entropy"]), "entropy %s", "missing" if case["entropy"] else "not requested")
        if case["entropy"]:
            e = o["entropy"]
            need(isinstance(e, (int, float)) and not isinstance(e, bool) and math.isfinite(e), "entropy %r", e)
            need(abs(e - bits) < 1e-5 + 1e-9 * bits, "entropy %r, not %.6f", e, bits)
        need(set(o) <= {"output", "entropy"}, "unexpected members %s", sorted(o))
    if case["n"] < 10 and case["rseed"] % 2:
        plain = cli.run(ctx, case["variant"], base + ["-z", case["pattern"]])
        need(plain.out == "\0".join(texts).encode() + b"\n", "plain output differs: %s, not %s", sh(plain.out), ascii(texts)[:300])
    ctx.label("needs escaping", any(ord(c) < 32 or c in '"\\' for x in texts for c in x))
    ctx.label("several", case["n"] > 1)
    ctx.nontrivial(any(ord(c) < 32 or c in '"\\' or ord(c) > 126 for x in texts for c in x) or case["n"] > 1)


def all_cases():
    for i in range(1, 0x800, 64):
        yield {"from": i, "to": i + 64}
    for i in list(range(0x800, 0x3000, 512)) + [0xd780, 0xe000, 0xfe80, 0xff80, 0x1f600, 0x10ff80]:
        yield {"from": i, "to": i + 128}


def check_all(ctx, case):
    """Every character, one object each."""
    cps = [c for c in range(case["from"], case["to"]) if model.is_scalar(c) and not (c < 128 and chr(c) in "|(){}[]?")]
    for variant in ("asan", "rel"):
        r = cli.run(ctx, variant, ["-r", "zero", "-j", "x" + "".join("\\u{%x}" % c for c in cps)])
        need(r.code == 0, "failed: %s", r.describe())
        got = parse_json(r.out)[0].get("output")
        need(got == "x" + "".join(map(chr, cps)), "U+%04X.. becomes %s", cps[0], ascii(got)[:300])
    ctx.nontrivial(True)


def words_case(t):
    return {"words": t.some(6, lambda: "".join(t.pick([chr(t.n(1, 31)), '"', "\\", "é", "\u0122", "a", "\x7f", "😀"]).replace("\n", "")
                                               for _ in range(t.n(1, 6)))),
            "n": t.n(1, 6), "rseed": t.n(1, 2**60), "variant": t.pick(["asan", "rel", "dbg"])}


def check_words(ctx, case):
    import os
    path = os.path.join(ctx.scratch, "words.txt")
    data = "\n".join(case["words"] + ["q\"\\\x01"]).encode()
    with open(path, "wb") as f:
        f.write(data)
    words = {"w": model.Words(data, 3)}
    p = model.parse(b"\\w{w}-\\m{w}")
    run = model.Run(p, model.xorshift_stream(case["rseed"]), words, 1024)
    texts = ["".join(map(chr, run.output()[0])) for _ in range(case["n"])]
    r = cli.run(ctx, case["variant"], ["-r", "xorshift:%d" % case["rseed"], "-w", "w:" + path, "-j", "-a", str(case["n"]),
                                       "\\w{w}-\\m{w}"])
    need(r.code == 0, "failed: %s", r.describe())
    got = [o.get("output") for o in parse_json(r.out)]
    need(got == texts, "outputs %s, not %s", ascii(got)[:300], ascii(texts)[:300])
    ctx.nontrivial(True)


def check_many(ctx, case):
    """Thousands of objects, outputs of thousands of characters."""
    n, pattern = case["n"], case["pattern"]
    run = model.Run(model.parse(pattern.encode()), model.xorshift_stream(case["rseed"]), {}, 1024)
    want = [run.output() for _ in range(n)]
    r = cli.run(ctx, case["variant"], ["-r", "xorshift:%d" % case["rseed"], "-a", str(n), "-j"] + ["-e"] * case["entropy"] + [pattern])
    need(r.code == 0, "failed: %s", r.describe())
    v = parse_json(r.out)
    need(len(v) == n, "%d objects for %d outputs", len(v), n)
    for i, (o, (cps, bits)) in enumerate(zip(v, want)):
        need(o.get("output") == "".join(map(chr, cps)), "output %d of %d: %s", i, n, ascii(o.get("output"))[:200])
        if case["entropy"]:
            need(abs(o["entropy"] - bits) < 1e-5 + 1e-9 * bits, "entropy %r, not %.6f", o["entropy"], bits)
    ctx.nontrivial(True)


def many_case(t):
    big = t.n(0, 2)
    n = t.pick([255, 256, 257, 1000, 1024, 4096, 4097, 5000, 10000, 65537 if big == 2 else 2000, t.n(1, 9000)])
    pattern = t.pick(["[a-c\"]", "(x|\\\\|\\t)", "[0-9]", "(\\u{e9}|\\u{1f600}|b)"])
    if n < 300:
        pattern = t.pick(["(a|\\\\|\"|\\n){%d}" % t.n(1000, 9000), "\"{%d}[a-z]" % t.n(2000, 40000),
                          "[a-b\\u{1}]{10}\\n{%d}" % t.n(1000, 20000), "\\u{1f600}{%d}x" % t.n(1000, 20000)])
        n = t.n(1, 3)
    return {"n": n, "pattern": pattern, "rseed": t.n(1, 2**60), "entropy": t.n(0, 1) if n > 3 else 0, "variant": t.pick(["rel", "asan", "dbg"])}


TESTS = [
    Test("many", check_many, lambda: gens.from_tape(many_case, 6, 20), quick=80),
    Test("every character", check_all, cases=all_cases, exhaustive=True),
    Test("patterns", check, lambda: gens.from_tape(case11, 10, 200), quick=2400),
    Test("words", check_words, lambda: gens.from_tape(words_case, 8, 80), quick=600),
]


def probes(ctx):
    r = cli.run(ctx, "rel", ["-r", "zero", "-e", "-j", "[a-zA-Z0-9]{200}"])
    if b"inf" in r.out:
        return ["entropy-overflow: `passgen -e -j '[a-zA-Z0-9]{200}'` prints \"entropy\":inf, which is not JSON "
                "(product of choices exceeds 2^1024)"]
    return []

"""C01: generated output always belongs to the language of the pattern."""
from hypothesis import strategies as st
from .common import *

ID = "C01"
VARIANTS = ["asan", "rel"]
RULE = ("Grammar-built well-formed patterns (literals in every spelling, sets, weighted groups, all modifiers, "
        "wordlists, Markov) times scripted streams; each output is matched against the pattern by a position-set "
        "matcher. Non-trivial: at least two kinds of construct in the pattern and a non-empty output.")


def check(ctx, case):
    p = well_formed(case["pattern"])
    words = load_words(case["wl"])
    if p.root.total() == 0:
        raise Skip
    g = library_gen(ctx, case)
    need(not g.rejected, "well-formed pattern rejected: %s at %s", getattr(g, "message", ""),
         getattr(g, "codepoint", ""))
    features(ctx, p)
    some = False
    for ret, ent, data in g.out:
        need(ret == 0, "generation failed with %d", ret)
        out = W.unpack_cps(data)
        some = some or bool(out)
        need(model.members(p, words, out), "output %s is not in the language of the pattern",
             sh("".join(map(chr, out))) if all(c < 0x110000 for c in out) else out)
    ctx.label("all outputs empty", not some)
    ctx.label("long output", any(len(d) > 400 for _, _, d in g.out))
    ctx.nontrivial(len(p.features) >= 2 and some)


def literal_run(t):
    """Long literal runs, which cross the storage chunks of literals."""
    parts = []
    for _ in range(t.n(1, 4)):
        parts += [chr(t.pick(gens.ORD_ASCII + gens.LOOKALIKE)) for _ in range(t.n(1, 24))]
        parts.append(t.pick(["", "?", "{2}", "{0}", "{1,3}", "{3}?"]))
    return {"pattern": "".join(parts) + t.pick(["", "|x", "|{3}y"]), "wl": [], "prefix": b"",
            "seed": t.n(0, 65535), "n": 2, "variant": t.pick(["asan", "rel"])}


def check_exact(ctx, case):
    """The member the stream stands for, by the reference interpreter: what is never generated counts too."""
    p = well_formed(case["pattern"])
    words = load_words(case["wl"])
    s = model.ScriptStream(case["prefix"], case["seed"])
    run = model.Run(p, s, words, 1024)
    try:
        want = [run.output()[0] for _ in range(case["n"])]
    except model.GenFail as e:
        raise Skip(str(e))
    g = library_gen(ctx, case)
    need(not g.rejected, "well-formed pattern rejected: %s", getattr(g, "message", ""))
    for (ret, ent, data), w in zip(g.out, want):
        out = W.unpack_cps(data)
        need(ret == 0, "generation failed with %d", ret)
        need(out == w, "the stream stands for %s, generated was %s", sh(w), sh(out))
    features(ctx, p)
    ctx.nontrivial(len(p.features) >= 2 and any(want))


def check_large(ctx, case):
    """The same for many repetitions, alternatives, ranges, items, words."""
    check_exact(ctx, expanded(case))
    ctx.label("large: " + case["large"]["kind"])
    ctx.nontrivial(True)


TESTS = [
    Test("extremes", check_large, cases=extreme_cases),
    Test("large", check_large, large_cases, quick=240),
    Test("exact", check_exact, lambda: gen_cases(depth=4, budget=60, nul=True), quick=10000),
    Test("language", check, lambda: gen_cases(depth=4, nul=True), quick=50000),
    Test("edges", check_exact, lambda: edge_cases(variants=("asan", "rel")), quick=8000),
    Test("modifiers", check_exact, modified_cases, quick=12000),
    Test("literals", check, lambda: gens.from_tape(literal_run, 30, 200), quick=16000),
]

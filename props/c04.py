"""C04: the reported entropy equals the information actually chosen."""
import math, json
from .common import *
from . import cli

ID = "C04"
VARIANTS = ["asan", "rel", "dbg"]
RULE = ("Grammar-built patterns, wordlists and streams; the entropy of every output, in all four output forms, must be "
        "the negative base-two logarithm of the product of the probabilities of the choices a reference interpreter "
        "makes on the same stream; requesting it must not change the outputs. Non-trivial: at least two kinds of "
        "construct and an entropy above one bit.")
LIMIT_BITS = 1000


def model_run(case, p, words):
    s = model.ScriptStream(case["prefix"], case["seed"])
    run = model.Run(p, s, words, 1024)
    try:
        out = [run.output() for _ in range(case["n"])]
    except model.GenFail as e:
        raise Skip(str(e))
    if any(b > LIMIT_BITS for _, b in out):
        raise Skip("entropy not representable (known finding)")
    return out


def check(ctx, case):
    p = well_formed(case["pattern"])
    words = load_words(case["wl"])
    want = model_run(case, p, words)
    ref = None
    for mode in (0, 1, 2, 3):
        for ent in ((True, False) if mode in case["off"] else (True,)):
            g = library_gen(ctx, case, mode=mode, entropy=ent)
            need(not g.rejected, "rejected")
            for i, ((ret, e, data), (cps, bits)) in enumerate(zip(g.out, want)):
                if not ent:
                    need(e == -7.0, "entropy written although not requested")
                    continue
                need(e > 0 and math.isfinite(e), "output %d: entropy factor %r", i, e)
                got = math.log2(e) if mode == 0 else entropy_bits(mode, e)
                need(bits_equal(got, bits), "output %d, form %d: %.9f bits reported, %.9f chosen", i, mode, got, bits)
            if ent:
                first = [(r, d) for r, _, d in g.out]
                used = g.consumed
            else:
                need([(r, d) for r, _, d in g.out] == first, "requesting the entropy changes the output (form %d)", mode)
                need(g.consumed == used, "requesting the entropy changes the randomness used")
    features(ctx, p)
    ctx.label("several outputs", case["n"] > 1)
    ctx.nontrivial(len(p.features) >= 2 and any(b > 1 for _, b in want))


def entropy_bits(mode, e):
    return math.log2(e)


def case4(t):
    c = gen_case(t, depth=3, most_gen=3)
    c["off"] = [t.n(0, 3)]
    return c


def one_construct(t):
    """A single construct with many sizes, exact expectation."""
    k = t.n(0, 5)
    reps = t.n(0, 6)
    if k == 0:
        a = t.n(0xa0, 0xffff)
        b = min(a + t.n(0, 3000), 0x10ffff)
        if b >= 0xd800:
            a, b = 0xe000, 0xe000 + b - a
        pat = "[%s-%s]" % (chr(a), chr(b))
        pat += "{%d}" % reps if reps != 1 else ""
    elif k == 1:
        lo = t.n(0, 40)
        pat = "%s{%d,%d}" % (t.pick(["a", "[ab]", "(x|{2}y)", "[a-z]"]), lo, lo + t.n(0, 9))
    elif k == 2:
        pat = "|".join("{%d}%c" % (t.pick(gens.WEIGHTS), 97 + i) for i in range(t.n(1, 6)))
    elif k == 3:
        pat = "".join(t.pick(["a?", "[a-p]?", "(b|c)?", "(d|e){2}?", "x{0,3}?", "[]?", "()?"]) for _ in range(t.n(1, 6)))
    elif k == 4:
        pat = "(" * 3 + "[a-h]|b" + ")" + "{%d}" % t.n(1, 3) + ")" + "{%d}" % t.n(1, 3) + ")?"
    else:
        pat = "\\w{a}{%d}\\m{a}{%d}" % (t.n(1, 3), t.n(1, 3))
    wl = [("a", gens.word_file(t, 12), t.n(1, 3))] if k == 5 else []
    prefix, seed = gens.stream(t)
    return {"pattern": pat, "wl": wl, "prefix": prefix, "seed": seed, "n": t.n(1, 3),
            "variant": t.pick(["asan", "rel"]), "off": [t.n(0, 3)]}


def long_case(t):
    """Many choices: close to the representable limit."""
    pat = t.pick(["[a-z]{%d}", "(a|b|{3}c){%d}", "[a-f][0-9]{%d}x?", "(x[ab]?|{2}y){%d}", "\\w{a}{%d}"]) % t.n(20, 240)
    return {"pattern": pat, "wl": [("a", gens.word_file(t, 12), 2)] if "w" in pat else [], "prefix": b"",
            "seed": t.n(0, 2**32 - 1), "n": 2, "variant": t.pick(["asan", "rel"]), "off": []}


def cli_case(t):
    c = gen_case(t, depth=2, most_wl=0, variants=("asan", "rel", "dbg"))
    c["rseed"] = t.n(1, 2**63)
    c["opt"] = t.n(0, 3)
    return c


def check_cli(ctx, case):
    if case["pattern"].startswith("-") or "\0" in case["pattern"]:
        raise Skip
    p = well_formed(case["pattern"])
    run = model.Run(p, model.xorshift_stream(case["rseed"]), {}, 1024)
    try:
        want = [run.output() for _ in range(case["n"])]
    except model.GenFail:
        raise Skip
    if any(b > LIMIT_BITS or 0 in o for o, b in want):
        raise Skip
    base = ["-r", "xorshift:%d" % case["rseed"], "-a", str(case["n"])]
    flags = [["-e"], ["--entropy"], ["-e", "-z"], ["-e", "-j"]][case["opt"]]
    r = cli.run(ctx, case["variant"], base + flags + [case["pattern"]])
    need(r.code == 0, "passgen failed: %s", r.describe())
    if case["opt"] == 3:
        a = json.loads(r.out, strict=True)
        got = [o["entropy"] for o in a]
        tol = 1e-6
    else:
        lines = r.err.decode().splitlines()
        need(all(l.startswith("entropy: ") and l.endswith(" bits") for l in lines), "stderr: %s", sh(r.err))
        got = [float(l[9:-5]) for l in lines]
        tol = 0.00501
        plain = cli.run(ctx, case["variant"], base + [f for f in flags if f == "-z"] + [case["pattern"]])
        need(plain.out == r.out, "outputs differ when the entropy is requested: %s, %s", sh(plain.out), sh(r.out))
        need(not plain.err, "unrequested text on stderr: %s", sh(plain.err))
    need(len(got) == len(want), "%d entropy values for %d outputs", len(got), len(want))
    for g, (_, b) in zip(got, want):
        need(abs(g - b) <= tol + 1e-9 * b, "%r bits reported, %.6f chosen", g, b)
    ctx.label("command line " + " ".join(flags))
    ctx.nontrivial(any(b > 1 for _, b in want))


def check_large(ctx, case):
    """The same for many repetitions, alternatives, ranges, items, words."""
    check(ctx, dict(expanded(case), off=[case["seed"] % 4]))
    ctx.label("large: " + case["large"]["kind"])
    ctx.nontrivial(True)


TESTS = [
    Test("extremes", check_large, cases=extreme_cases),
    Test("large", check_large, large_cases, quick=200),
    Test("entropy", check, lambda: gens.from_tape(case4, 20, 300), quick=12000),
    Test("construct", check, lambda: gens.from_tape(one_construct, 6, 80), quick=8000),
    Test("edges", check, lambda: gens.from_tape(lambda t: dict(edge_case(t, variants=("asan", "rel")), off=[t.n(0, 3)]), 12, 160), quick=6000),
    Test("modifiers", check, lambda: gens.from_tape(lambda t: dict(modified_case(t), off=[t.n(0, 3)]), 10, 120), quick=5000),
    Test("long", check, lambda: gens.from_tape(long_case, 6, 40), quick=800),
    Test("cli", check_cli, lambda: gens.from_tape(cli_case, 20, 200), quick=1200),
]


def probes(ctx):
    """The overflow of the entropy product beyond 2^1024 is a recorded finding."""
    out = []
    try:
        g = W.gen(ctx.w("asan"), b"[a-zA-Z0-9]{200}", W.r_script(b"", 1), 1, 0, 4096, True)
        if not math.isfinite(g.out[0][1]):
            out.append("entropy-overflow: passgen_generate reports an infinite entropy for '[a-zA-Z0-9]{200}' "
                       "(product of choices exceeds 2^1024)")
    finally:
        ctx.close()
    return out

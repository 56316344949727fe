"""C23: presets produce the formats they promise and can be redefined."""
import re, uuid
from . import cli, cmdline
from .common import *

ID = "C23"
VARIANTS = ["asan", "rel", "dbg", "sec"]
RULE = ("Every built-in preset with generated sources and amounts against the documented shape (parsed as UUID version 4, "
        "matched against the alphabet of each position, which thousands of outputs must cover evenly); generated "
        "definitions and redefinitions (any names, up to some hundred at once, on the command line) listed, used, and "
        "compared with giving the listed pattern directly. Non-trivial: a preset is redefined, or at least 2000 outputs.")

ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
HEX = "0123456789abcdef"
EDGE = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef0123456789:_-"
CON, VOW = "bdfghjklmnprstvz", "aiou"
QUINT = [CON, VOW, CON, VOW, CON]


def blocks(n, size, alphabet):
    out = []
    for i in range(n):
        out += (["-"] if i else []) + [alphabet] * size
    return out


SHAPES = {
    "apple1": blocks(4, 3, ALNUM),
    "apple2": blocks(3, 6, ALNUM),
    "firefox": [ALNUM] * 15,
    "edge": [EDGE] * 15,
    "uuid": [HEX] * 8 + ["-"] + [HEX] * 4 + ["-", "4"] + [HEX] * 3 + ["-", "89ab"] + [HEX] * 3 + ["-"] + [HEX] * 12,
}
for _n in range(1, 9):
    SHAPES["proquint%d" % (16 * _n)] = [x for i in range(_n) for x in (["-"] if i else []) + QUINT]


def builtin_cases():
    for variant in ("rel", "asan", "dbg", "sec"):
        for name in SHAPES:
            for src in ("xorshift", "system", "chacha20", "zero"):
                for n in ((1, 4000) if src in ("xorshift", "system") else (50,)):
                    yield {"variant": variant, "name": name, "src": src, "n": n}


def check_builtin(ctx, c):
    name, n = c["name"], c["n"]
    src = {"xorshift": "xorshift:%d" % (1 + hash_of(name)), "system": "system", "zero": "zero",
           "chacha20": "chacha20-argon2:" + name}[c["src"]]
    r = cli.run(ctx, c["variant"], ["-r", src, "-a", str(n), "-p", name])
    need(r.code == 0, "%s", r.describe())
    lines = r.out.decode("utf-8", "replace").split("\n")
    need(len(lines) == n + 1 and lines[-1] == "", "%d lines for %d outputs: %s", len(lines), n, r.describe())
    shape = SHAPES[name]
    counts = [dict.fromkeys(s, 0) for s in shape]
    for x in lines[:-1]:
        need(len(x) == len(shape), "%r has not the length %d of %s", x, len(shape), name)
        for i, ch in enumerate(x):
            need(ch in counts[i], "%r: character %d of %s is one of %r", x, i, name, shape[i])
            counts[i][ch] += 1
        if name == "uuid":
            u = uuid.UUID(x)
            need(u.version == 4 and u.variant == uuid.RFC_4122 and str(u) == x, "%r is not a version 4 UUID", x)
    if n >= 2000:
        for i, k in enumerate(counts):
            need(all(k.values()), "%s: character %d never is one of %r in %d outputs", name, i,
                 "".join(x for x in k if not k[x]), n)
            if c["src"] == "xorshift":
                p = chi2(k, {x: 1.0 / len(k) for x in k})
                need(p > 1e-9, "%s: character %d is not uniform: %s", name, i, k)
        need(len(set(lines[:-1])) == n or name in ("proquint16", "proquint32"), "%s: outputs repeat", name)
        ctx.nontrivial()
    elif c["src"] == "zero":
        need(all(x == "".join(expected_zero(shape))
                 for x in lines[:-1]), "%s from zeroes: %r", name, lines[0])
    ctx.label(name)


def expected_zero(shape):
    first = {ALNUM: "a", HEX: "0", EDGE: "A", "89ab": "8"}
    return [first.get(s, s[0]) for s in shape]


def hash_of(s):
    v = 5381
    for ch in s:
        v = (v * 33 + ord(ch)) % 2**61
    return v


# ---------------------------------------------------------------------- definitions
def preset_name(t):
    k = t.n(0, 7)
    if k < 2:
        return t.pick(sorted(cmdline.BUILTIN))
    if k == 2:
        return t.pick(["mine", "a", "b", "x y", "größe", "名前", "-", "--", "uuid ", "Uuid", "apple", "apple11", "", "\u0128",
                       "0", "p/q", "\\w{a}", "[a]"])
    if k == 3:
        return "preset%d" % t.n(0, 50)
    if k == 4:
        return t.pick(["a", "xy", "long"]) * t.n(1, 60)
    return "".join(t.pick("abcdefghij") for _ in range(t.n(1, 6)))


def preset_pattern(t):
    k = t.n(0, 4)
    if k == 0:
        return t.pick(["[a-z]{8}", "a:b:[0-9]", ":", "", "x", "([a-z]{3}:){2}", "-", "é[a-c]", "a b  c "])
    p = cmdline.clean(gens.pattern(t, 2, 15))
    return p.replace("\n", "n").replace("\r", "r")


def case(t):
    many, more = t.chance(1, 8), t.pick([20, 60, 200])
    defs = [[preset_name(t), preset_pattern(t)] for _ in range(t.n(1, 12))]
    if many:
        defs += [["many%d" % (i % (more // 2 + 1)), "m%d[a-z]{3}" % i] for i in range(more)]
    for _ in range(t.n(0, 3)):
        defs.append([t.pick(defs)[0], preset_pattern(t)])
    use = t.pick(defs)[0] if t.chance(4, 5) else t.pick(sorted(cmdline.BUILTIN))
    return {"defs": defs, "use": use, "pos": t.n(0, len(defs)), "seed": t.n(1, 2**60), "n": t.pick([1, 2, 5, 20]),
            "opts": t.pick([[], ["-e"], ["-j"], ["-z"], ["-j", "-e"]]), "styles": [t.n(0, 3) for _ in range(3)],
            "variant": t.pick(["rel", "asan", "dbg", "sec"])}


def check(ctx, c):
    want = dict(cmdline.BUILTIN)
    args = []
    for i, (name, text) in enumerate(c["defs"]):
        v = name + ":" + text
        s = c["styles"][i % 3]
        args.append([["-P", v], ["-P" + v], ["--define-preset", v], ["--define-preset=" + v]][s])
        want[name] = text
    flat = [x for a in args for x in a]
    # listing: each preset exactly once, with the pattern it has now
    r = cli.run(ctx, c["variant"], flat + ["-l" if c["pos"] % 2 else "--list"])
    need(r.code == 0, "listing fails: %s", r.describe())
    got = sorted(r.out.decode("utf-8").split("\n")[:-1])
    lines = sorted("preset %s %s" % x for x in want.items())
    for x in got:
        need(got.count(x) == lines.count(x), "the listing shows %s %d times, expected %d times: %s", ascii(x), got.count(x),
             lines.count(x), r.describe())
    need(got == lines, "the listing lacks %s: %s", ascii(sorted(set(lines) - set(got)))[:300], r.describe())
    # a use before, among or after the definitions is a use of the last one
    base = ["-r", "xorshift:%d" % c["seed"], "-a", str(c["n"])] + c["opts"]
    mixed = [x for a in args[:c["pos"]] for x in a] + ["-p", c["use"]] + [x for a in args[c["pos"]:] for x in a]
    a = cli.run(ctx, c["variant"], base + mixed)
    b = cli.run(ctx, c["variant"], base + flat + ["--", want[c["use"]]])
    need((a.code, a.out, a.err) == (b.code, b.out, b.err) or a.code == b.code == 3,
         "using %s and giving its pattern %s differ: %s AND %s", ascii(c["use"]), ascii(want[c["use"]]), a.describe(), b.describe())
    # and what the pattern means
    try:
        p = model.parse(want[c["use"]].encode())
        run = model.Run(p, model.xorshift_stream(c["seed"]), {}, 1024)
        texts = ["".join(map(chr, run.output()[0])) for _ in range(c["n"])]
    except (model.ParseError, model.GenFail):
        texts = None
    if texts is not None and not p.contested and "-j" not in c["opts"] and "\0" not in "".join(texts):
        sep = "\0" if "-z" in c["opts"] else "\n"
        need(a.code == 0 and a.out == (sep.join(texts) + "\n").encode(), "preset %s prints %s, expected %s: %s",
             ascii(c["use"]), sh(a.out), ascii(texts)[:200], a.describe())
    redefined = len(set(n for n, _ in c["defs"])) < len(c["defs"]) or any(n in cmdline.BUILTIN for n, _ in c["defs"])
    ctx.label("redefined", redefined)
    ctx.label("built-in redefined", any(n in cmdline.BUILTIN for n, _ in c["defs"]))
    ctx.label("over 50 presets", len(want) > 50)
    ctx.nontrivial(redefined)


def unknown_case(t):
    return {"name": preset_name(t) + t.pick(["", "x", " ", "1", ":"]), "defs": [[preset_name(t), "a"] for _ in range(t.n(0, 3))],
            "variant": t.pick(["rel", "asan", "dbg", "sec"])}


def check_unknown(ctx, c):
    args = []
    known = set(cmdline.BUILTIN)
    for n, x in c["defs"]:
        args += ["-P", n + ":" + x]
        known.add(n)
    if c["name"] in known:
        raise Skip
    r = cli.run(ctx, c["variant"], args + ["-p", c["name"]])
    need(r.code == 8, "unknown preset %s: %s", ascii(c["name"]), r.describe())
    ctx.label("unknown preset")
    ctx.nontrivial(len(c["defs"]) > 0)


TESTS = [
    Test("built-in", check_builtin, cases=builtin_cases, exhaustive=True),
    Test("definitions", check, lambda: gens.from_tape(case, 10, 300), quick=1500),
    Test("unknown", check_unknown, lambda: gens.from_tape(unknown_case, 2, 40), quick=400),
]

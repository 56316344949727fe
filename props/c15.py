"""C15: master passphrase mode derives stable, separate secrets."""
from . import cli
from .common import *
from . import rnd

ID = "C15"
VARIANTS = ["asan", "rel", "dbg", "sec"]
RULE = ("Argon2 d/i/id over generated sizes, passes, lanes, tag and input lengths against an RFC 9106 model; streams of "
        "generated passphrase, domain and token triples (also ones whose concatenations coincide) against Argon2id and "
        "ChaCha20 models through the library, and whole command lines in debug, release and sandboxed builds: flags in "
        "any form and order, amounts, and the equivalent description. Non-trivial: a domain or token is given, or (for "
        "the primitive) more than one lane, pass or slice is in use.")
IV = b"passgen\0"


def size(t):
    return t.pick([0, 1, 7, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, t.n(0, 300), t.n(0, 40)])


def argon_case(t):
    lanes = t.n(1, 4)
    return {"alg": t.n(0, 2), "lanes": lanes, "blocks": 8 * lanes + t.n(0, 70), "passes": t.n(1, 4),
            "taglen": t.pick([4, 16, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 129, t.n(4, 200)]),
            "pass": t.bytes(size(t)), "salt": t.bytes(max(8, size(t))), "key": t.bytes(size(t)), "ad": t.bytes(size(t))}


def check_argon(ctx, c):
    r = ctx.w("asan" if c["taglen"] % 2 else "rel").call(
        W.u8(14) + b"".join(W.u32(c[k]) for k in ("alg", "blocks", "passes", "lanes", "taglen")) +
        b"".join(W.blob(c[k]) for k in ("pass", "salt", "key", "ad")))
    got = r.blob()
    want = model.argon2(c["alg"], c["blocks"], c["passes"], c["lanes"], c["taglen"], c["pass"], c["salt"], c["key"],
                        c["ad"])
    need(got == want, "tag %s, expected %s", got[:16].hex(), want[:16].hex())
    ctx.label(["Argon2d", "Argon2i", "Argon2id"][c["alg"]])
    ctx.label("lanes", c["lanes"] > 1)
    ctx.label("secret key and data", c["key"] and c["ad"])
    ctx.label("blocks not a multiple of four lanes", c["blocks"] % (4 * c["lanes"]))
    ctx.nontrivial(c["lanes"] > 1 or c["passes"] > 1 or c["blocks"] > 16)


LETTERS = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789.-_@ !"


def field(t, empty=True, colon=False):
    k = t.n(0, 5)
    if k == 0 and empty:
        return ""
    if k <= 3:
        return "".join(t.pick(LETTERS) for _ in range(t.n(1, 12)))
    if k == 4:
        return "".join(t.pick([t.pick(LETTERS), chr(gens.scalar(t) or 97), ":" if colon else "."])
                       for _ in range(t.n(1, 20)))
    return t.pick(LETTERS) * t.n(1, 300)


def triple(t, colon=False):
    a = [field(t, False, colon), field(t, True, colon) if t.chance(2, 3) else None,
         field(t, True, colon) if t.chance(2, 3) else None]
    return [x if x is None else x.replace("\0", "0") for x in a]


def related(t, a):
    """A triple that is easily confused with a."""
    p, d, k = a
    d, k = d or "", k or ""
    opts = [[p, k, d], [p + d, "", k], [p, d + k, ""], [p, "", d + k], [d or "x", p, k], [p + "\x01", d, k],
            [p, d + " ", k], [p, d, k + "0"], [p.swapcase() if p.swapcase() != p else p + "x", d, k], [p[:-1] or "y", d, k],
            [p, d[1:], k], [p, d, k[:-1]], [p, None, k], [p, d, None]]
    return t.pick(opts)


def norm(a):
    return tuple((x or "").encode() for x in a)


def lib_case(t):
    a = triple(t, True)
    return {"a": a, "b": related(t, a), "n": t.n(1, 2000), "variant": t.pick(["asan", "rel"])}


def bits_differ(a, b):
    return sum(bin(x ^ y).count("1") for x, y in zip(a, b))


def check_lib(ctx, c):
    w = ctx.w(c["variant"])
    streams = []
    for x in (c["a"], c["b"]):
        spec = W.r_argon(*x)
        got = rnd.run_ops(w, spec, [(0, 256), (0, c["n"])], True)
        m = model.RandomModel(model.ChachaSource(model.master_key(*norm(x)), IV), True)
        need(got == [m.op(0, 256), m.op(0, c["n"])], "stream of %s differs from Argon2id and ChaCha20", ascii(x))
        streams.append(got[0])
    if norm(c["a"]) == norm(c["b"]):
        need(streams[0] == streams[1], "absent and empty fields differ")
        ctx.label("same")
    else:
        d = bits_differ(*streams)
        need(850 < d < 1200, "streams of %s and %s differ in %d of 2048 bits", ascii(c["a"]), ascii(c["b"]), d)
        ctx.label("different")
    ctx.nontrivial(c["a"][1] or c["a"][2])


def config_case(t):
    lanes = t.n(1, 3)
    a = triple(t)
    config = [t.n(0, 2), 8 * lanes + t.pick([0, 0, 1, t.n(0, 40)]), t.n(1, 5), lanes]
    if t.chance(1, 3):
        config = [2, 8, 8, 1]
    other = list(config)
    other[t.n(0, 2)] += 1
    other[0] %= 3
    return {"a": a, "config": config, "other": other, "n": t.n(1, 300), "variant": t.pick(["asan", "rel"])}


def check_config(ctx, c):
    """The cost settings handed to the library are the ones used."""
    w = ctx.w(c["variant"])
    got = []
    for config in (c["config"], c["other"], None):
        config = config and tuple(config)
        m = model.RandomModel(model.ChachaSource(model.master_key(*norm(c["a"]), config=config), IV), True)
        want = m.op(0, 256)
        got.append(rnd.run_ops(w, W.r_argon(*c["a"], config=config), [(0, 256), (0, c["n"])], True))
        need(got[-1] == [want, m.op(0, c["n"])], "stream of %s at settings %s differs from Argon2 and ChaCha20",
             ascii(c["a"]), config)
    same = c["config"] == [2, 8, 8, 1]
    need((got[0] == got[2]) == same, "settings %s and the default ones", c["config"])
    ctx.label("default settings" if same else "other settings")
    ctx.nontrivial(not same)


PATTERNS = ["[a-z]{12}", "[a-zA-Z0-9]{20}", "(a|b|c){3,9}", "([bdf][aiu]){2}-[0-9]{4}", "[a-f]{400}", "x?y?z?[01]{3}"]


def option(t, short, long, value):
    k = t.n(0, 3)
    if k == 0:
        return [long, value]
    if k == 1:
        return [long + "=" + value]
    if k == 2 or value == "":
        return [short, value]
    return [short + value]


def cli_case(t):
    a = [x if x is None else x.replace("\ufeff", "") for x in triple(t)]
    args = [option(t, s, l, v) for s, l, v in (("-m", "--master", a[0]), ("-d", "--domain", a[1]), ("-t", "--token", a[2]))
            if v is not None]
    n = t.n(1, 40)
    args.append(option(t, "-a", "--amount", str(n)))
    pattern = t.pick(PATTERNS)
    args.append([pattern])
    order = []
    while args:
        order += args.pop(t.n(0, len(args) - 1))
    return {"a": a, "n": n, "pattern": pattern, "args": order, "variant": t.pick(["dbg", "rel", "sec", "asan"]),
            "desc": t.n(0, 3) == 3}


def check_cli(ctx, c):
    p = model.parse(c["pattern"].encode())
    run = model.Run(p, model.master_stream(*norm(c["a"])), {}, 100)
    want = "\n".join("".join(map(chr, run.output()[0])) for _ in range(c["n"])).encode() + b"\n"
    r = cli.run(ctx, c["variant"], c["args"])
    need(r.code == 0 and r.out == want, "outputs %s, expected %s; %s", sh(r.out, 80), sh(want, 80), r.describe())
    if c["desc"]:
        f = list(c["a"])
        while f and f[-1] in (None, ""):
            f.pop()
        f = [x or "" for x in f]
        if f and f[0] and ":" not in "".join(f):
            r = cli.run(ctx, c["variant"], ["-r", "chacha20-argon2:" + ":".join(f), "-a", str(c["n"]), c["pattern"]])
            need(r.out == want and r.code == 0, "the description gives other outputs: %s", r.describe())
            ctx.label("description")
    ctx.label("command line " + c["variant"])
    ctx.nontrivial(c["a"][1] or c["a"][2])


def check_random_wins(ctx, c):
    """An explicit source is used instead; domain and token alone change nothing."""
    args = ["-r", "xorshift:%d" % c["seed"], "-d", c["a"][1] or "d", "-t", c["a"][2] or "t", "-a", "3", "[a-z]{20}"]
    run = model.Run(model.parse(b"[a-z]{20}"), model.xorshift_stream(c["seed"]), {}, 100)
    want = "\n".join("".join(map(chr, run.output()[0])) for _ in range(3)).encode() + b"\n"
    r = cli.run(ctx, "rel", args)
    need(r.code == 0 and r.out == want, "%s", r.describe())
    ctx.nontrivial(True)


def large_case(t):
    """Memory beyond one block of data-independent addresses per segment, and long tags."""
    lanes = t.pick([1, 1, 2, 3])
    segment = t.pick([127, 128, 129, 130, 200, 256, 257])
    c = argon_case(t)
    c.update(lanes=lanes, blocks=4 * lanes * segment + t.n(0, 4 * lanes - 1), passes=t.n(1, 2) if lanes == 1 else 1, alg=t.pick([1, 2, 2, 0]))
    if t.chance(1, 2):
        c["taglen"] = t.pick([256, 512, 1000, 1024, 1025, 2048])
    return c


def long_cases():
    for n in (255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 8193, 16385, 32769, 65535, 65536, 65537, 130000):
        for which in range(3):
            yield {"n": n, "which": which, "end": n % 3 if n != 255 else 2}


def check_long(ctx, c):
    """Every character of a long field counts, up to the last one."""
    base = ["pass", "domain", "token"]
    base[c["which"]] = "k" * c["n"]
    other = list(base)
    other[c["which"]] = base[c["which"]][:-1] + ["", "l", "kk"][c["end"]]
    for variant in ("asan", "rel"):
        for x in (base, other):
            got = rnd.run_ops(ctx.w(variant), W.r_argon(*x), [(0, 256)], True)
            m = model.RandomModel(model.ChachaSource(model.master_key(*norm(x)), IV), True)
            need(got == [m.op(0, 256)], "stream with a %s of %d characters differs from Argon2id and ChaCha20",
                 ("passphrase", "domain", "token")[c["which"]], len(x[c["which"]]))
    x = other
    run = model.Run(model.parse(b"[a-z]{30}"), model.master_stream(*norm(x)), {}, 100)
    want = "".join(map(chr, run.output()[0])).encode() + b"\n"
    for args in (["-m", x[0], "-d", x[1], "-t", x[2]], ["--master=" + x[0], "--domain=" + x[1], "--token=" + x[2]],
                 ["-r", "chacha20-argon2:" + ":".join(x)]):
        if len(args[-1]) > 131000 or len(args[0]) > 131000:
            continue
        r = cli.run(ctx, "rel", args + ["[a-z]{30}"])
        need(r.code == 0 and r.out == want, "with a %s of %d characters: %s", ("passphrase", "domain", "token")[c["which"]], c["n"], r.describe())
    ctx.nontrivial(True)


TESTS = [
    Test("long fields", check_long, cases=long_cases, exhaustive=True),
    Test("argon2 large", check_argon, lambda: gens.from_tape(large_case, 30, 400), quick=60),
    Test("argon2", check_argon, lambda: gens.from_tape(argon_case, 30, 400), quick=500),
    Test("settings", check_config, lambda: gens.from_tape(config_case, 10, 200), quick=300),
    Test("streams", check_lib, lambda: gens.from_tape(lib_case, 10, 200), quick=1500),
    Test("command line", check_cli, lambda: gens.from_tape(cli_case, 10, 200), quick=1200),
    Test("no master", check_random_wins, lambda: gens.from_tape(
        lambda t: {"a": [None, field(t).replace("\0", "") if t.chance(1, 2) else "x", "y"], "seed": t.n(1, 1 << 62)}, 4, 60),
         quick=100),
]

"""C22: the command line prints exactly what was asked for, or fails."""
import json, os
from . import cli, cmdline
from .common import *

ID = "C22"
VARIANTS = ["asan", "rel", "dbg", "sec"]
RULE = ("Generated command lines: any combination, order, repetition and spelling (short, joined, grouped, long, long with "
        "'=') of the options with generated patterns, presets, wordlists and sources, with and without misuses and "
        "patterns that cannot be generated, compared with a reference model of the command line: standard output byte "
        "for byte, entropy lines, exit status. Non-trivial: at least three options, or a documented misuse.")


def good(t):
    """items and files of a command line without misuse"""
    files, items = [], []
    wl, level = [], 3
    if t.chance(2, 5):
        for name in cmdline.names(t, t.n(1, 2)):
            if t.chance(1, 3):
                items.append(("M", str(t.pick([1, 2, 3, 4, 7, 255]))))
            files.append(gens.word_file(t, 10))
            items.append(("w", "%s:{F%d}" % (name, len(files) - 1)))
            wl.append(name)
    if t.chance(1, 6) and wl:  # the same name again, replaces the list
        files.append(gens.word_file(t, 5))
        items.append(("w", "%s:{F%d}" % (wl[0], len(files) - 1)))
    fixed = items
    free = []
    k = t.n(0, 5)
    if k == 5 and t.chance(1, 3):
        pass  # the system's randomness
    elif k == 4:
        free.append(("m", "".join(t.pick("abcXYZ 09.@") for _ in range(t.n(1, 12)))))
        if t.chance(1, 2):
            free.append(("d", "".join(t.pick("abc.org") for _ in range(t.n(0, 12)))))
        if t.chance(1, 2):
            free.append(("t", str(t.n(0, 99))))
    else:
        d = cmdline.random_desc(t, files)
        free.append(("r", d))
        if t.chance(1, 12):
            free.append(("r", d))
    if t.chance(2, 3):
        n = t.pick([1, 2, 3, 5, 10, 30, 200])
        if t.chance(1, 10):  # the last one counts
            fixed = fixed + [("a", str(t.n(1, 50)))]
        free.append(("a", str(n)))
        if len(fixed) and fixed[-1][0] == "a":
            fixed.append(free.pop())
    for f, p in (("e", 3), ("z", 4), ("j", 5)):
        if t.chance(1, p):
            free.append((f,))
    if ("j",) in free and ("z",) in free:
        free.remove(("z",))
    if t.chance(1, 8):
        free.append(("D", str(t.n(1, 200))))
    pattern = clean_pattern(t, wl)
    how = t.n(0, 5)
    if how < 4:
        last = ("pat", pattern)
    elif how == 4:
        last = ("p", t.pick(sorted(cmdline.BUILTIN)))
    else:
        name = t.pick(["mine", "uuid", "x y", "größe", "a", "apple1"])
        free.append(("P", "%s:%s" % (name, pattern)))
        last = ("p", name)
    return files, fixed, free, last


def clean_pattern(t, wl):
    k = t.n(0, 9)
    if k == 0:
        return "".join(t.pick(["a", "-", "[0-9]", "é", "x{2}", "[a-z]{12}"]) for _ in range(t.n(0, 6)))
    if k == 1:
        return "%s{%d}" % (t.pick(["[a-z]", "é", "[a-zé]", "ab?"]), t.pick([127, 128, 255, 256, 1000, 5000]))
    if k == 2 and wl:
        return "(\\w{%s}-){%d}\\m{%s}" % (t.pick(wl), t.n(0, 5), t.pick(wl))
    return cmdline.clean(gens.pattern(t, 2, 20, wl=wl, mk=wl))


def join(t, fixed, free, last):
    """fixed keep their order, everything else goes anywhere"""
    items = list(fixed)
    for x in free:
        items.insert(t.n(0, len(items)), x)
    if last[0] == "pat" and (last[1].startswith("-") or t.chance(1, 6)):
        return items + [("--",), last]
    items.insert(len(items) - t.n(0, len(items)), last)
    return items


def case(t):
    files, fixed, free, last = good(t)
    return {"items": join(t, fixed, free, last), "files": files, "styles": [t.n(0, 29) for _ in range(t.n(1, 12))],
            "variant": t.pick(["rel", "asan", "dbg", "sec"])}


MISUSES = [
    [("a", "0")], [("a", "-1")], [("a", "-2147483648")], [("a", "abc")], [("a", "")], [("a", "-7")],
    [("M", "0")], [("M", "-1")], [("M", "256")], [("M", "abc")], [("M", "")], [("M", "100000")], [("M", "512")], [("M", "513")],
    [("a", "4294967297")], [("a", "4294967298")], [("a", "-4294967295")], [("a", "18446744073709551617")], [("a", "2147483648")],
    [("a", "99999999999999999999999999")], [("M", "4294967299")], [("M", "-4294967293")], [("M", "18446744073709551618")],
    [("p", "nothere")], [("p", "")], [("p", "UUID")], [("p", "uuid ")], [("p", "apple")], [("p", "proquint8")],
    [("r", "xorshift")], [("r", "xorshift:")], [("r", "xorshift:abc")], [("r", "nothere")], [("r", "")],
    [("r", "file:/nonexistent/x")], [("r", "file:")], [("r", "zeros")], [("r", "xorshift:12x")], [("r", "ZERO")],
    [("pat", "b[c]")], [("pat", "")], [("pat", "x"), ("pat", "y")],
    [("raw", "-q", 7)], [("raw", "--nope", 7)], [("raw", "--json=1", 7)], [("raw", "-A", 7)], [("raw", "--amounts=3", 7)],
    [("raw", "-x", 7)], [("raw", "--entropy=yes", 7)], [("raw", "-0", 7)], [("raw", "--nope=1", 7)],
    [("w", "a:/nonexistent/x")], [("w", "nocolon")], [("w", "")], [("P", "nocolon")], [("P", "")],
]
BAD_PATTERNS = ["(", ")", "a{", "a{2", "[a", "\\u{", "a{3,1}", "[z-a]", "(a|b", "a)b", "\\q", "{a}", "a{99999999999999999999}",
                "\\u{110000}", "\\u{d800}", "\\", "(()", "[a-", "x{1,", "\\w{a", "\\w", "??x(" ]


def misuse_case(t):
    m, k = t.pick(MISUSES), t.n(0, 7)
    bad = t.pick(BAD_PATTERNS)
    files, fixed, free, last = good(t)
    free = list(free)
    tail = []
    if k == 7:
        text = t.pick(["", "ab", "é", "[a-z]{3}"]) + bad
        free = [x for x in free if x[0] != "P"]
        last = ("pat", text)
    elif k == 1:
        # an option at the end without its argument
        tail = [("raw", t.pick(["-a", "-w", "-r", "-p", "-P", "-M", "-m", "-d", "-t", "-D", "--amount", "--random",
                                "--wordlist", "--preset", "--define-preset", "--markov-length", "--master",
                                "--domain", "--token", "--depth"]), 7)]
    elif k == 2:
        last = (t.pick("hv"),)
    elif k == 3 and t.chance(1, 2):
        last = ("e",)  # no pattern at all
        free = [x for x in free if x != ("e",)]
    else:
        if m[0][0] == "p":
            if last[0] == "p":
                last = m[0]
                m = []
            elif t.chance(3, 4):
                last = m[0]
                m = []
        elif m[0][0] in "aMr":
            free = [x for x in free if x[0] != m[0][0]]
        free += m
    items = join(t, fixed, free, last)
    if tail:
        items = [x for x in items if x[0] != "--"]
        items = [x for x in items if not (x[0] == "pat" and x[1].startswith("-"))] + tail
    return {"items": items, "files": files, "styles": [t.n(0, 29) for _ in range(t.n(1, 12))],
            "variant": t.pick(["rel", "asan", "dbg", "sec"])}


FAILING = ["\\w{nothere}", "\\m{nothere}", "\\w{empty}", "\\m{empty}", "(" * 1024 + "a" + ")" * 1024, "a|\\w{nothere}",
           "(ab|cd|\\m{nothere})", "x{0,1}\\w{empty}", "[a-z]{3}(\\w{nothere})?", "{0}a", "({0}a|{0}b)?c", "[a-f]{2}(\\m{empty})?",
           "abc(def|(gh|\\w{nothere}))", "a\\w{w}\\w{nothere}", "({0})", "z{3}(y|({0}))"]


def failing_case(t):
    files = [b"\n\n", b"one\ntwo\nthree\n"]
    items = [("w", "empty:{F0}"), ("w", "w:{F1}")]
    pattern = t.pick(FAILING)
    if t.chance(1, 2):
        pattern = t.pick(["", "pre", "[a-c]", "é"]) + pattern
        if pattern.find("|") > 0 and not pattern.startswith("("):
            pattern = "(" + pattern + ")"
    free = [("r", cmdline.random_desc(t, files)), ("a", str(t.pick([1, 1, 2, 3, 10, 50])))]
    for f, p in (("e", 3), ("z", 4), ("j", 4)):
        if t.chance(1, p):
            free.append((f,))
    if ("j",) in free and ("z",) in free:
        free.remove(("z",))
    return {"items": join(t, items, free, ("pat", pattern)), "files": files, "styles": [t.n(0, 29) for _ in range(4)],
            "variant": t.pick(["rel", "asan", "dbg", "sec"])}


MARK = "\u00a7\u00a7"


def check(ctx, c):
    paths = cmdline.write_files(ctx, c["files"])
    items = cmdline.resolve([tuple(x) for x in c["items"]], paths)
    args = cmdline.render([tuple(x) for x in c["items"]], c["styles"], paths)
    if any("\0" in a for a in args):
        raise Skip
    contents = dict(zip(paths, c["files"]))
    plan = cmdline.Plan()
    plan.read(items, contents)
    o = cmdline.expect(plan, contents)
    if o.open and (not o.parsed or not plan.json and ("\n" in o.text or not lines_only(o.parsed, plan.words, plan.null))):
        raise Skip("cannot be told apart")
    r = cli.run(ctx, c["variant"], args)
    cmdline.judge(ctx, o, r)
    if o.codes:
        for code in o.codes:
            ctx.label("misuse, status %s" % code)
        # nothing generated may be printed
        body = r.out.replace(b"\x1b[1;31m", b"").replace(b"\x1b[0m", b"")
        if None not in o.codes and 3 not in o.codes and not o.info:
            need(body == b"" or body.startswith(b"error"), "prints %s besides status %d", sh(r.out), r.code)
    ctx.label("help or version", o.info)
    ctx.label("fails while generating", o.fail_at is not None)
    ctx.label("fails after some outputs", o.fail_at)
    ctx.label("several outputs", len(o.texts) > 1)
    ctx.label("entropy", plan.entropy and o.texts)
    ctx.label("separated by NUL", plan.null and len(o.texts) > 1)
    ctx.label("system randomness", o.open)
    ctx.nontrivial(len(items) >= 3 or o.codes or o.fail_at is not None)


def lines_only(parsed, words, null):
    """Outputs cannot contain the separator"""
    sep = 0 if null else 10

    def group(g):
        for seg in g.segs:
            for it in seg.items:
                if it.kind == "lit" and it.data == sep:
                    return False
                if it.kind == "set" and any(a <= sep <= b for a, b in it.data):
                    return False
                if it.kind == "grp" and not group(it.data):
                    return False
        return True
    return group(parsed.root)


# ---------------------------------------------------------------- metamorphic relations
def same_case(t):
    files, fixed, free, last = good(t)
    if not any(x[0] in "rm" for x in free):
        free.append(("r", "xorshift:%d" % t.n(1, 1 << 60)))
    a = join(t, fixed, free, last)
    b = join(t, fixed, free, last)
    return {"a": a, "b": b, "files": files, "styles": [[t.n(0, 29) for _ in range(t.n(1, 12))] for _ in range(2)],
            "variants": [t.pick(["rel", "asan", "dbg", "sec"]) for _ in range(2)]}


def check_same(ctx, c):
    """The same options otherwise written and ordered, in another build: the same run"""
    paths = cmdline.write_files(ctx, c["files"])
    if any(x[0] == "r" and "system" in x[1] for x in c["a"]):
        raise Skip
    rs = []
    for items, styles, variant in zip((c["a"], c["b"]), c["styles"], c["variants"]):
        args = cmdline.render([tuple(x) for x in items], styles, paths)
        if any("\0" in a for a in args):
            raise Skip
        rs.append(cli.run(ctx, variant, args))
    x, y = rs
    strange = {-6: 1, -31: 1}
    need(strange.get(x.code, x.code) == strange.get(y.code, y.code), "different status: %s AND %s", x.describe(), y.describe())
    if x.code == 0:
        need(x.out == y.out and x.err == y.err, "different outputs: %s AND %s", x.describe(), y.describe())
    ctx.label("compared", x.code == 0)
    ctx.nontrivial(len(c["a"]) > 2)


def full_case():
    for variant in ("rel", "dbg", "sec", "asan"):
        for opts in ([], ["-j"], ["-e", "-z", "-a", "3"], ["-a", "3000"], ["-j", "-e", "-a", "2000"]):
            for pattern in ("abc", "[a-z]{12}", "x{9000}", ""):
                yield {"variant": variant, "opts": opts, "pattern": pattern}


def check_full(ctx, c):
    """Outputs that cannot be written (no space left): failure"""
    with open("/dev/full", "wb") as f:
        r = cli.run(ctx, c["variant"], c["opts"] + ["-r", "xorshift:7", c["pattern"]], stdout=f)
    need(r.code != 0 and r.code != 99, "succeeds although nothing can be written: %s", r.describe())
    need(r.code > 0, "ended by a signal: %s", r.describe())
    path = os.path.join(ctx.scratch, "out")
    with open(path, "wb") as f:
        r = cli.run(ctx, c["variant"], c["opts"] + ["-r", "xorshift:7", c["pattern"]], stdout=f)
    with open(path, "rb") as f:
        data = f.read()
    p = cli.run(ctx, c["variant"], c["opts"] + ["-r", "xorshift:7", c["pattern"]])
    need(r.code == 0 and p.code == 0 and p.out == data and data, "a file receives %s, a pipe %s", sh(data), sh(p.out))
    ctx.nontrivial(True)


def many_case(t):
    n = t.pick([255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10000, 10001, 32767, 32768, 32769, 65535, 65536, 65537, 100000, t.n(200, 6000),
                t.n(200, 40000)])
    return {"n": n, "form": t.pick(["", "", "-z", "-z", "-j", "-e"]), "pattern": t.pick(["x", "", "ab", "\u00e4\u20ac"]) if n > 5000 else
            t.pick(["[ab]", "a?", "[a-z]{3}|[0-9]", "x", "\u00e4{0,3}"]), "seed": t.n(1, 1 << 30), "style": t.n(0, 2),
            "variant": t.pick(["rel", "asan", "dbg", "sec"])}


def check_many(ctx, c):
    n, form = c["n"], c["form"]
    if c["pattern"] in ("x", "", "ab", "\u00e4\u20ac"):
        outs = [c["pattern"]] * n
    else:
        run = model.Run(model.parse(c["pattern"].encode()), model.xorshift_stream(c["seed"]), {}, 1024)
        outs = ["".join(map(chr, run.output()[0])) for _ in range(n)]
    args = [["-a", str(n)], ["-a%d" % n], ["--amount=%d" % n]][c["style"]] + ["-r", "xorshift:%d" % c["seed"]] + ([form] if form else []) + ["--", c["pattern"]]
    r = cli.run(ctx, c["variant"], args)
    need(r.code == 0, "%s", r.describe())
    if form == "-j":
        want = "[" + ",".join('{"output":"%s"}' % x for x in outs) + "]\n"
    else:
        want = ("\0" if form == "-z" else "\n").join(outs) + "\n"
    want = want.encode()
    if r.out != want:
        at = next((i for i, (a, b) in enumerate(zip(r.out, want)) if a != b), min(len(r.out), len(want)))
        raise Violation("%d outputs of %s with %s: %d bytes instead of %d, differ at %d (%s, expected %s)" % (
            n, ascii(c["pattern"]), form or "no option", len(r.out), len(want), at, sh(r.out[at:at + 20]), sh(want[at:at + 20])))
    if form == "-e":
        need(r.err.count(b"entropy: ") == n, "%d lines of entropy for %d outputs", r.err.count(b"entropy: "), n)
    ctx.label("amount above 32767", n > 32767)
    ctx.nontrivial(True)


LONG = [1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131071, 131072, 131073, 200000,
        262144, 262145, 400000, 524288, 600000, 1048576, 1048577, 1500000]


def long_case(t):
    n = t.pick(LONG) + t.n(0, 4) - 2
    return {"n": n, "form": t.pick(["", "-z", "-j", "-e", "-j"]), "unit": t.pick(["x", "x", "\u00e4", "\u20ac", "\U0001f600", "ab", "\"", "\\\\"]),
            "amount": t.n(1, 3), "random": t.n(0, 2) == 0 and n < 300000, "seed": t.n(1, 1 << 30), "variant": t.pick(["rel", "rel", "asan", "dbg", "sec"])}


def check_long(ctx, c):
    """Outputs of any length are printed whole"""
    n, form, unit = c["n"], c["form"], c["unit"]
    if c["random"]:
        pattern = "[ab]{%d}" % n
        run = model.Run(model.parse(pattern.encode()), model.xorshift_stream(c["seed"]), {}, 1 << 22)
        outs = ["".join(map(chr, run.output()[0])) for _ in range(c["amount"])]
    else:
        pattern = ("(%s)" if len(unit.replace("\\\\", "b")) > 1 else "%s") % unit + "{%d}" % n
        outs = [unit.replace("\\\\", "\\") * n] * c["amount"]
    args = ["-a", str(c["amount"]), "-r", "xorshift:%d" % c["seed"]] + ([form] if form else []) + ["--", pattern]
    r = cli.run(ctx, c["variant"], args)
    need(r.code == 0, "%s", r.describe())
    if "j" in form:
        try:
            got = [x["output"] for x in json.loads(r.out)]
        except ValueError as e:
            raise Violation("%s with %s: not JSON (%s)" % (ascii(pattern), form, e))
    else:
        sep = "\0" if form == "-z" else "\n"
        need(r.out.endswith(b"\n"), "no newline at the end")
        got = r.out[:-1].decode("utf-8", "replace").split(sep)
    if got != outs:
        raise Violation("%s with %s: outputs of %s characters instead of %s" % (ascii(pattern), form or "no option", [len(x) for x in got], [len(x) for x in outs]))
    ctx.label("long output", n > 131072)
    ctx.nontrivial(True)


TESTS = [
    Test("long", check_long, lambda: gens.from_tape(long_case, 4, 30), quick=160),
    Test("many", check_many, lambda: gens.from_tape(many_case, 4, 30), quick=300),
    Test("cannot be written", check_full, cases=full_case, exhaustive=True),
    Test("outputs", check, lambda: gens.from_tape(case, 20, 300), quick=3500),
    Test("misuses", check, lambda: gens.from_tape(misuse_case, 20, 200), quick=3000),
    Test("cannot be generated", check, lambda: gens.from_tape(failing_case, 8, 60), quick=1000),
    Test("spelling and order", check_same, lambda: gens.from_tape(same_case, 20, 300), quick=800),
]

"""C17: wordlists offer exactly the words of the file."""
import os, random
from . import cli
from .common import *

ID = "C17"
VARIANTS = ["asan", "rel", "dbg"]
RULE = ("Generated files of lines (any number and length, blank lines, CR, missing final newline, any Unicode, prefixes "
        "of each other, sizes around powers of two) loaded through the library and the command line (file and pipe); "
        "the loaded words are compared with the lines, drawn words with the reference index, several lists are used "
        "side by side, and missing, empty or unreadable lists must be errors. Non-trivial: at least two words, or an "
        "error expected.")


def line(t):
    k = t.n(0, 9)
    if k < 4:
        return gens.word(t).encode("utf-8")
    if k == 4:
        return gens.small_word(t).encode("utf-8")
    if k == 5:
        return t.pick(["x", "ab", "\u00e4", "\u20ac", "\U0001f600"]).encode() * t.pick(
            [1, 63, 64, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1000, t.n(1, 2000)])
    if k == 6:
        return t.pick([b" ", b"\t", b"a b", b" a", b"a ", b"a\r", b"\r", b"#a", b"a:b", b"a,b", b"\"a\"", b"\x7f", b"\\n",
                       b"\xef\xbb\xbfa", b"-", b"a\x0bb", b"\x01"])
    if k == 7:
        return "".join(chr(gens.scalar(t)) for _ in range(t.n(1, 8))).replace("\n", "x").replace("\0", "y").encode()
    if k == 8:
        return b"word%d" % t.n(0, 30)
    return b"".join(t.pick([b"a", b"aa", b"b"]) for _ in range(t.n(1, 4)))


def content(t, most=40):
    out = b""
    n = t.n(1, most) if t.chance(9, 10) else t.pick([127, 128, 129, 255, 256, 257, 1000, 1025])
    if n > most:
        base = [line(t) for _ in range(5)]
        ls = [b"%d" % i + base[i % 5] for i in range(n)]
    else:
        ls = [line(t) for _ in range(n)]
    if t.chance(1, 4):
        out += b"\n" * t.n(1, 4)
    for l in ls:
        out += l + b"\n" * (t.pick([1, 1, 1, 1, 2, 5]))
    if t.chance(1, 3):
        out = out.rstrip(b"\n")
    return out


def lines(data):
    return [l for l in data.split(b"\n") if l]


def load_case(t):
    return {"data": content(t), "how": t.n(0, 1) if t.chance(3, 4) else t.n(0, 63), "level": t.n(1, 4), "seed": t.n(0, 1 << 30), "draws": t.n(0, 40),
            "variant": t.pick(["asan", "rel"])}


def check_load(ctx, c):
    r = ctx.w(c["variant"]).call(W.u8(13) + W.blob(c["data"]) + W.u32(c["level"]) + W.u8(c["how"]) +
                                 W.r_script(b"", c["seed"]) + W.u32(c["draws"]))
    ret = r.u32()
    n = r.u64()
    want = lines(c["data"])
    need(ret == 0, "loading failed with %d", ret)
    need(n == len(want), "%d words loaded from %d lines", n, len(want))
    got = [r.blob() for _ in range(n)]
    for i, (a, b) in enumerate(zip(got, want)):
        need(a == b, "word %d is %s, the line is %s", i, sh(a), sh(b))
    s = model.ScriptStream(b"", c["seed"])
    for _ in range(c["draws"]):
        w = r.blob()
        need(w == want[model.draw(s, len(want))], "word %s drawn", sh(w))
    r.end()
    ctx.label("file read before", c["how"] & 2)
    ctx.label("no final newline", not c["data"].endswith(b"\n"))
    ctx.label("blank lines", b"\n\n" in c["data"] or c["data"][:1] == b"\n")
    ctx.label("long word", any(len(x) > 127 for x in want))
    ctx.label("more than 128 words", len(want) > 128)
    ctx.nontrivial(n >= 2)


ODD = [b" ", b"\t", b"a b", b" a", b"a ", b"a\r", b"\r", b"#a", b"a:b", b"a,b", b"\"a\"", b"\x7f", b"\\n", b"\xef\xbb\xbfa", b"-", b"a\x0bb",
       b"\x01", b";", b"\xff", b"\xc3", b"\xe2\x80\xa8", b"\x0c", b"//a", b"\x80x", b"a\ta", b"A", b"\x1a", b"%s"]


def large_file(c):
    out = large_plain(c)
    if c["odd"]:
        # unusual lines among the many
        rng = random.Random(c["seed"])
        ls = out.split(b"\n")
        for _ in range(max(4, len(ls) // 100) if len(ls) > 20 else 0):
            ls[rng.randrange(len(ls))] = rng.choice(ODD)
        out = b"\n".join(ls)
    # an unusual line as the first, as the last, with and without newline
    if c.get("first"):
        out = c["first"] + out
    if c.get("last"):
        out = out.rstrip(b"\n") + b"\n" + c["last"] + b"\n" * c["nl"]
    return out


def large_plain(c):
    rng = random.Random(c["seed"])
    if c["kind"] == 0:
        # numbers, or a word and its number
        out = b"\n".join(c["stem"] + b"%d" % i for i in range(c["n"]))
    elif c["kind"] == 1:
        out = b"\n".join(rng.choice([b"a", b"bc", b"def", c["stem"] or b"x", b"word" * 9]) for _ in range(c["n"]))
    elif c["kind"] == 2:
        # few lines, long
        out = b"\n".join(bytes([97 + i % 26]) * rng.choice([c["n"], 70000, 4095, 4096, 65535, 65536, 3]) for i in range(5))
    else:
        out = b"\n" * rng.randrange(c["n"]) + b"ab\n" + b"\n" * rng.randrange(c["n"]) + b"cd"
    if c["size"]:
        # exactly this size, whatever word is cut
        out = out[:c["size"] - 1] + b"z" * (c["size"] - 1 - len(out))
    return out + b"\n" * c["nl"]


def large_case(t):
    kind = t.pick([0, 0, 1, 1, 2, 3])
    n = t.pick([2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 131073, t.n(300, 5000), t.n(300, 150000)])
    return {"kind": kind, "n": n, "stem": t.pick([b"", b"w", b"\xc3\xa4", b"a longer stem than most "]), "seed": t.n(0, 1 << 30), "nl": t.n(0, 1),
            "size": t.pick([0, 0, 4096, 8192, 65536, 1 << 20, 12288, 4097, 8191, 256 * t.n(1, 400)]), "how": t.n(0, 1), "level": 1,
            "draws": 40, "variant": t.pick(["asan", "rel"]), "odd": t.chance(1, 2),
            "first": t.pick([b"", b"", b"\n", t.pick(ODD) + b"\n"]), "last": t.pick([b"", t.pick(ODD), b"w" + t.pick([b"\r", b" ", b"\t", b"\x0b", b"\x1a", b"."])])}


def check_large(ctx, c):
    data = large_file(c)
    check_load(ctx, dict(c, data=data, draws=40 if lines(data) else 0))
    ctx.label("large file")


def byte_cases():
    # every character, in every position of a line and alone
    for b in list(range(1, 10)) + list(range(11, 256)):
        for sep in (b"\n", b"\n\n"):
            x = bytes([b])
            ls = [b"one", x, x + b"a", b"a" + x, b"a" + x + b"b", x + x, b"two", b"a" + x]
            yield {"data": sep.join(ls) + b"\n", "how": b % 2, "level": 1, "seed": b, "draws": 5, "variant": "asan"}
            yield {"data": x + sep + sep.join(reversed(ls)), "how": b % 2, "level": 1, "seed": b, "draws": 5, "variant": "rel"}


def alike_case(t):
    """Many lists under names that agree in most of their length, in every number."""
    k = t.n(2, 12) if t.chance(7, 8) else t.pick([30, 41, 64, 90])
    stem = "n" * t.pick([0, 1, 7, 15, 31, 63, 64, 65, 127, 128, 200, 254, 255, 256, 300, 1000])
    names = [stem + (chr(97 + i) if t.n(0, 1) else "%d" % i) + t.pick(["", "x"]) for i in range(k)]
    names = sorted(set(names), key=names.index)
    return {"wl": [(n, b"of-%d\nto-%d" % (i, i), 1) for i, n in enumerate(names)], "seed": t.n(0, 1 << 30), "n": t.n(1, 3),
            "order": [t.pick(names) for _ in range(t.n(1, 6))] + names[:4], "variant": t.pick(["asan", "rel"]), "count": 1,
            "replace": t.chance(1, 4)}


def utf8_ok(data):
    try:
        data.decode("utf-8")
        return b"\0" not in data
    except UnicodeDecodeError:
        return False


def ref_case(t):
    names = []
    for _ in range(t.n(1, 3)):
        n = t.pick(gens.NAMES)
        if n not in names:
            names.append(n)
    return {"wl": [(n, content(t, 12), t.n(1, 3)) for n in names], "seed": t.n(0, 1 << 30), "n": t.n(1, 6),
            "order": [t.pick(names) for _ in range(t.n(1, 5))], "variant": t.pick(["asan", "rel"]), "count": t.n(1, 3),
            "replace": t.chance(1, 4)}


def check_ref(ctx, c):
    """Several lists, referenced in any order, give lines of their own file."""
    words = {n: lines(d) for n, d, l in c["wl"]}
    wl = list(c["wl"])
    if c["replace"]:
        # loading another list under the same name replaces it
        n, d, l = wl[0]
        wl.append((n, b"replaced\nnew " + d[:20].replace(b"\n", b"").replace(b"\0", b"") + b"\n", l))
        if not utf8_ok(wl[-1][1]):
            raise Skip
        words[n] = lines(wl[-1][1])
    if not all(utf8_ok(d) and words[n] for n, d, l in wl):
        raise Skip
    pattern = "-".join("\\w{%s}" % n + ("{%d}" % c["count"] if c["count"] > 1 else "") for n in c["order"])
    g = W.gen(ctx.w(c["variant"]), pattern.encode(), W.r_script(b"", c["seed"]), c["n"], 2, 1 << 18, True, wl)
    need(not g.rejected, "rejected")
    s = model.ScriptStream(b"", c["seed"])
    for ret, e, data in g.out:
        model.draw(s, 1)  # the only alternative; a repetition `{n}` draws no count
        want = b"-".join(b"".join(words[n][model.draw(s, len(words[n]))] for _ in range(c["count"]))
                         for n in c["order"])
        need(data == want, "%s gives %s, expected %s", ascii(pattern), sh(data), sh(want))
    ctx.label("several lists", len(words) > 1)
    ctx.label("replaced list", c["replace"])
    ctx.nontrivial(any(len(w) > 1 for w in words.values()))


def error_case(t):
    k = t.n(0, 3)
    other = [("other", b"a\nb\n", 2)] if t.chance(1, 2) else []
    bad = {0: [], 1: [("x", b"", 2)], 2: [("x", b"\n" * t.n(1, 5), 2)], 3: [("X", b"a\nb\n", 2), ("xx", b"c\n", 2)]}[k]
    return {"wl": other + bad, "pattern": t.pick(["\\w{x}", "a\\w{x}", "\\w{x}{3}", "\\w{x}?", "(b|\\w{x})", "\\m{x}", "a\\m{x}b",
                                                  "\\w{other}\\w{x}" if other else "\\w{x}-", "\\w{x}{0,2}"]),
            "mode": t.n(0, 3), "seed": t.n(0, 1 << 30), "variant": t.pick(["asan", "rel"]), "n": t.n(1, 4)}


def check_error(ctx, c):
    """Using a list that is not there, or has no words, is an error."""
    p = model.parse(c["pattern"].encode())
    words = {n: model.Words(d, l) for n, d, l in c["wl"]}
    g = W.gen(ctx.w(c["variant"]), c["pattern"].encode(), W.r_script(b"", c["seed"]), c["n"], c["mode"], 4096, True,
              c["wl"])
    need(not g.rejected, "rejected")
    run = model.Run(p, model.ScriptStream(b"", c["seed"]), words, 1024)
    for i, (ret, e, data) in enumerate(g.out):
        try:
            cps, bits = run.output()
        except model.GenFail:
            need(ret != 0 if c["mode"] == 0 else ret == 0, "output %d: using %s without words returned %d", i,
                 ascii(c["pattern"]), ret)
            ctx.label("error")
            ctx.nontrivial(True)
            return  # the state of the stream after an error is not specified
        if c["mode"] == 0:
            need(ret == 0 and W.unpack_cps(data) == cps, "output %d: %d, %s", i, ret, data)


def cli_case(t):
    return {"data": content(t), "data2": content(t, 8), "seed": t.n(1, 1 << 30), "n": t.n(1, 30),
            "how": t.pick(["file", "fifo", "both", "stdin"]), "name": t.pick(["w", "english", "a b", "\u00e4", "x-1"]),
            "long": t.n(0, 2), "variant": t.pick(["dbg", "rel", "asan"])}


def check_cli(ctx, c):
    if not utf8_ok(c["data"]) or not utf8_ok(c["data2"]):
        raise Skip
    path = os.path.join(ctx.scratch, "list:1.txt")
    path2 = os.path.join(ctx.scratch, "list2")
    with open(path, "wb") as f:
        f.write(c["data"])
    with open(path2, "wb") as f:
        f.write(c["data2"])
    w1, w2 = lines(c["data"]), lines(c["data2"])
    if not w1 or not w2:
        raise Skip
    spec = "%s:%s" % (c["name"], path)
    stdin = None
    if c["how"] == "stdin":
        spec = c["name"] + ":/dev/stdin"
        stdin = c["data"]
    elif c["how"] == "fifo":
        fifo = os.path.join(ctx.scratch, "fifo")
        if not os.path.exists(fifo):
            os.mkfifo(fifo)
        spec = "%s:%s" % (c["name"], fifo)
    opt = {0: ["-w", spec], 1: ["--wordlist", spec], 2: ["--wordlist=" + spec]}[c["long"]]
    args = ["-r", "xorshift:%d" % c["seed"], "-z", "-a", str(c["n"])] + opt
    pattern = "\\w{%s}" % c["name"]
    if c["how"] == "both":
        args += ["-w", "second:" + path2]
        pattern += ">\\w{second}"
    s = model.xorshift_stream(c["seed"])
    want = []
    for _ in range(c["n"]):
        model.draw(s, 1)  # the only alternative
        x = w1[model.draw(s, len(w1))]
        if c["how"] == "both":
            x += b">" + w2[model.draw(s, len(w2))]
        want.append(x)
    feeder = None
    if c["how"] == "fifo":
        import threading

        def feed():
            try:
                with open(fifo, "wb", 0) as f:
                    v = memoryview(c["data"])
                    while len(v):
                        v = v[f.write(v[:1000]):]
            except OSError:
                pass
        feeder = threading.Thread(target=feed, daemon=True)
        feeder.start()
    r = cli.run(ctx, c["variant"], args + [pattern], stdin=stdin)
    if feeder:
        try:
            os.close(os.open(fifo, os.O_RDONLY | os.O_NONBLOCK))
        except OSError:
            pass
        feeder.join(10)
    need(r.code == 0 and r.out == b"\0".join(want) + b"\n", "printed %s, expected %s; status %d %s", sh(r.out),
         sh(b"\0".join(want)), r.code, sh(r.err[-300:]))
    ctx.label("command line " + c["how"])
    ctx.nontrivial(len(w1) > 1)


def all_words_case(t):
    return {"n": t.pick([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 33, t.n(1, 64)]), "seed": t.n(0, 1 << 30),
            "variant": t.pick(["asan", "rel"])}


def check_all(ctx, c):
    """Every word of the list is reachable through the value that selects it, and nothing else is."""
    n = c["n"]
    ws = [b"w%d\xc3\xa4" % i for i in range(n)]
    # the only alternative, then the word
    prefix = b"".join(bytes(8) + i.to_bytes(8, "little") for i in range(n))
    g = W.gen(ctx.w(c["variant"]), b"\\w{w}", W.r_script(prefix, c["seed"]), n, 2, 64, True, [("w", b"\n".join(ws), 1)])
    need([d for _, _, d in g.out] == ws, "the words for the values 0..%d are %s", n - 1, [d for _, _, d in g.out])
    for _, e, _ in g.out:
        need(abs(e - n) < 1e-9, "entropy %f for %d words", e, n)
    ctx.nontrivial(n > 1)


def fault_case(t):
    data = content(t)
    if t.chance(1, 3):
        data = large_plain(dict(large_case(t), n=t.n(300, 9000), kind=t.n(0, 1)))
    return {"data": data, "at": t.pick([0, len(data) - 1, len(data), len(data) // 2, t.n(0, len(data)), 4096, 255, 256]),
            "pattern": t.pick(["\\w{x}", "\\m{x}", "(\\w{x}|\\m{x})", "\\w{x}{2}"]), "good": t.chance(1, 6), "mode": t.n(0, 3),
            "seed": t.n(0, 1 << 30), "variant": t.pick(["asan", "rel"])}


def check_fault(ctx, c):
    """A list that cannot be read to its end is an error, whatever could be read of it."""
    data, at = c["data"], min(c["at"], len(c["data"]))
    if not utf8_ok(data) or not lines(data):
        raise Skip
    r = ctx.w(c["variant"]).call(W.u8(31) + W.text(c["pattern"]) + W.blob(data) + W.u64(len(data) + 1 if c["good"] else at) +
                                 W.r_script(b"", c["seed"]) + W.u8(c["mode"]))
    got = [r.i32() for _ in range(3)]
    r.end()
    need(all((x == 0) == c["good"] for x in got), "reading fails after %s of %d bytes, generating returns %s",
         "more than all" if c["good"] else at, len(data), got)
    ctx.label("readable" if c["good"] else "read error")
    ctx.nontrivial(at > 0)


def unreadable():
    for variant in ("rel", "dbg", "asan"):
        for spec, body in (("x:/nonexistent", None), ("x:", None), ("x", None), ("x:/proc/self/mem", None), ("x:/", None),
                           ("x:/dev/null", None), ("x:EMPTY", b""), ("x:EMPTY", b"\n\n\n")):
            for pattern in ("\\w{x}", "a\\w{x}b", "\\m{x}"):
                for fmt in ([], ["-j"], ["-e"], ["-z", "-a", "3"]):
                    yield {"spec": spec, "body": body, "pattern": pattern, "args": fmt, "variant": variant}


def check_unreadable(ctx, c):
    spec = c["spec"]
    if "EMPTY" in spec:
        path = os.path.join(ctx.scratch, "empty-%d" % len(c["body"]))
        with open(path, "wb") as f:
            f.write(c["body"])
        spec = "x:" + path
    r = cli.run(ctx, c["variant"], ["-r", "zero", "-w", spec] + c["args"] + [c["pattern"]])
    need(r.code not in (0, 99), "a wordlist that cannot be used is not an error: %s", r.describe())
    need(r.code > 0, "crashed: %s", r.describe())
    need(r.out in (b"", b"["), "something is printed: %s", r.describe())
    ctx.nontrivial(True)


TESTS = [
    Test("read faults", check_fault, lambda: gens.from_tape(fault_case, 10, 300), quick=1500),
    Test("bytes", check_load, cases=byte_cases, exhaustive=True),
    Test("large files", check_large, lambda: gens.from_tape(large_case, 4, 40), quick=200),
    Test("names alike", check_ref, lambda: gens.from_tape(alike_case, 4, 60), quick=600),
    Test("unreadable", check_unreadable, cases=unreadable, exhaustive=True),
    Test("load", check_load, lambda: gens.from_tape(load_case, 10, 400), quick=10000),
    Test("references", check_ref, lambda: gens.from_tape(ref_case, 10, 400), quick=9000),
    Test("errors", check_error, lambda: gens.from_tape(error_case, 4, 40), quick=4000),
    Test("every word", check_all, lambda: gens.from_tape(all_words_case, 2, 16), quick=600),
    Test("command line", check_cli, lambda: gens.from_tape(cli_case, 10, 400), quick=1000),
]

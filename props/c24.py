"""C24: configuration files act exactly like the equivalent options."""
import os, shutil
from . import cli, cmdline
from .common import *
from vlib import build as B

SHIM = None


def setup(builds, work):
    global SHIM
    SHIM = B.compile_shared(work, "etc_shim.so", "etc_shim.c")


ID = "C24"
VARIANTS = ["asan", "rel", "dbg", "sec"]
RULE = ("Generated configuration files (preset, wordlist and random lines with every separator and indentation, comments, "
        "blank and unknown lines, fillers that move a line across any multiple of the read size, missing final newline, "
        "arbitrary bytes) in home and XDG directories with paths of any length, combined with generated options; the run is "
        "compared with the one that gets the same settings as options before all others, and with a reference model. "
        "Non-trivial: at least two effective lines, or a filler over 4 KiB, or a path over 200 bytes.")

NAMES = ["a", "w", "eng", "größe", "名前", "mine", "uuid", "apple1", "n1", "x-y", "long" * 30, "firefox", "\u0128"]


def value_pattern(t, wl):
    k = t.n(0, 3)
    if k == 0:
        return t.pick(["[a-z]{8}", "x:y:[0-9]", "a b  c", "([a-z]{3}-){2}[a-z]", "#x", "a#b", "preset", "é[a-c]", "a\tb"])
    p = cmdline.clean(gens.pattern(t, 2, 12, wl=wl, mk=wl))
    p = p.replace("\n", "n").replace("\r", "r").strip(" \t\v\f").lstrip(":")
    return p or "q"


def junk(t):
    """A line without meaning"""
    k = t.n(0, 9)
    if k == 0:
        return ""
    if k == 1:
        return t.pick([" ", "\t", "   ", " \t "])
    if k == 2:
        return "#" + t.pick(["", " ", " preset a b", "random zero", "wordlist a /b", "é", "#", "\\", "'", '"'])
    if k == 3:
        return t.pick(["  ", "\t"]) + "# preset uuid x"
    if k == 4:
        return t.pick(["presets a b", "presetuuid x", "Preset uuid x", "randoms zero", "randomzero", "wordlists a b", "PRESET a b",
                       "set x y", "xpreset a b", "pre set a b", "preseta b", "word list", "rando", "amount 5", "json", "entropy",
                       "; random zero", "// preset a b", "-P a:b", "--json", "include x", "=", ":", "a:b", "random_ zero"])
    if k == 5:
        return "#" + "x" * t.n(0, 300)
    if k == 6:
        return "".join(t.pick("abcxyz :#\t-=[]{}()\\\"'é\u0128") for _ in range(t.n(0, 30))).lstrip(" \t").replace("p", "") or "x"
    if k == 7:
        return "# " + t.pick(["random", "preset", "wordlist"]) * t.n(1, 40)
    if k == 8:
        return "x" * t.n(1, 2000)
    return "#" + "".join(chr(gens.scalar(t) or 1) for _ in range(t.n(0, 20))).replace("\n", "")


def filler(t):
    """Comment or blank lines of about a size at which reading or parsing may change"""
    size = t.pick([4096, 8192, 10240, 16384, 20480, 10239, 512, 1024, 65536, 32768]) + t.n(0, 80) - 60
    k = t.n(0, 3)
    if k == 0:
        return "#" + "c" * max(0, size - 2)
    if k == 1:
        return "\n" * max(0, size - 1)
    if k == 2:
        return "\n".join(["# preset uuid broken"] * (size // 21))
    return " " * max(0, size - 1)


def line(t, kind, name, value):
    pre = t.pick(["", "", "", " ", "\t", "  \t"])
    gap = t.pick([" ", " ", "\t", "   ", " \t "])
    if kind == "r":
        return pre + "random" + gap + value
    sep = t.pick([" ", ":", "\t", "    ", " \t"])
    return pre + {"P": "preset", "w": "wordlist"}[kind] + gap + name + sep + value


def case(t):
    big = t.chance(1, 5)
    far = t.n(0, 7)
    files, items, lines, wl = [], [], [], []
    for _ in range(t.n(1, 8)):
        k = t.n(0, 6)
        if k < 3:
            n, v = t.pick(NAMES), value_pattern(t, wl)
            items.append(("P", n + ":" + v))
            lines.append(line(t, "P", n, v))
        elif k == 3:
            n = t.pick(NAMES)
            files.append(gens.word_file(t, 6))
            items.append(("w", "%s:{F%d}" % (n, len(files) - 1)))
            lines.append(line(t, "w", n, "{F%d}" % (len(files) - 1)))
            wl.append(n)
        elif k == 4:
            d = cmdline.random_desc(t, files, False)
            if d == "system":
                d = "xorshift:9"
            items.append(("r", d))
            lines.append(line(t, "r", None, d))
        else:
            lines.append(junk(t))
        if t.chance(1, 6):
            lines.append(junk(t))
    if big:
        lines.insert(t.n(0, len(lines)), filler(t))
    after = []
    if not any(i[0] == "r" for i in items) or t.chance(1, 3):
        after.append(("r", "xorshift:%d" % (1 + t.n(0, 2**60))))
    if t.chance(1, 4):
        after.append(("P", "%s:%s" % (t.pick(NAMES), value_pattern(t, wl))))
    if t.chance(1, 5):
        files.append(gens.word_file(t, 6))
        n = t.pick(wl or NAMES)
        after.append(("w", "%s:{F%d}" % (n, len(files) - 1)))
        wl.append(n)
    if t.chance(1, 2):
        after.append(("a", str(t.n(1, 6))))
    for f in "ej":
        if t.chance(1, 4):
            after.append((f,))
    presets = [i[1].split(":")[0] for i in items + after if i[0] == "P"]
    k = t.n(0, 4)
    if k < 3 and presets:
        after.append(("p", t.pick(presets)))
    elif k < 4:
        pat = value_pattern(t, wl)
        after.append(("pat", pat) if not pat.startswith("-") else ("p", "uuid"))
    else:
        after.append(("l",))
    # the first lines may be those of the system-wide configuration
    split = t.n(0, len(lines)) if t.chance(1, 4) else None
    return {"items": items, "lines": lines, "after": after, "files": files, "final": t.n(0, 2) > 0, "split": split,
            "where": t.pick(["xdg", "home", "both"]), "far": t.n(100, 4050) if far > 5 else 0, "styles": [t.n(0, 29) for _ in range(5)],
            "variant": t.pick(["rel", "asan", "dbg", "sec"] if split is None else ["rel", "rel", "dbg", "sec"])}


def place(ctx, content, where, far, sub="conf"):
    """Writes the file; returns the environment that makes it the user's configuration"""
    base = os.path.join(ctx.scratch, sub)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(os.path.join(base, "home", ".config"))
    os.makedirs(os.path.join(base, "xdg"))

    def write(*parts):
        with open(os.path.join(base, *parts), "wb") as f:
            f.write(content)

    def longer(path):
        # another, longer way to write the same directory
        return path + "/." * max(0, (far - len(path)) // 2)
    if where == "home":
        write("home", ".config", "passgen.conf")
        return {"HOME": longer(os.path.join(base, "home"))}
    write("xdg", "passgen.conf")
    if where == "both":
        with open(os.path.join(base, "home", ".config", "passgen.conf"), "wb") as f:
            f.write(b"random nothere\npreset uuid wrong\n")
    return {"HOME": os.path.join(base, "home"), "XDG_CONFIG_PATH": longer(os.path.join(base, "xdg"))}


def check(ctx, c):
    paths = cmdline.write_files(ctx, c["files"])
    contents = dict(zip(paths, c["files"]))
    before, after = [tuple(x) for x in c["items"]], [tuple(x) for x in c["after"]]
    text = "\n".join(cmdline.subst(x, paths) for x in c["lines"]) + ("\n" if c["final"] else "")
    if "\0" in text or not c["lines"]:
        raise Skip
    k = c["split"]
    if k is None:
        env = place(ctx, text.encode(), c["where"], c["far"])
    else:
        system, user = ("\n".join(cmdline.subst(x, paths) for x in part) + ("\n" if c["final"] else "") for part in (c["lines"][:k], c["lines"][k:]))
        env = place(ctx, user.encode(), c["where"], c["far"])
        env["SHIM_ETC"] = os.path.join(ctx.scratch, "etc.conf")
        with open(env["SHIM_ETC"], "wb") as f:
            f.write(system.encode())
        text = system + "\n-- user: --\n" + user
        ctx.label("system-wide configuration", k > 0)
    args = cmdline.render(after, c["styles"], paths)
    opts = cmdline.render(before, c["styles"], paths)
    if any("\0" in a for a in args + opts):
        raise Skip
    a = cli.run(ctx, c["variant"], args, env=env, preload=None if k is None else SHIM)
    b = cli.run(ctx, c["variant"], opts + args)
    where = "configuration %r" % text[-300:]
    if after[-1] == ("l",):
        need(a.code == b.code == 0 and sorted(a.out.split(b"\n")) == sorted(b.out.split(b"\n")),
             "%s: %s AND with options %s", where, a.describe(), b.describe())
    else:
        need(a.code == b.code, "%s: %s AND with options %s", where, a.describe(), b.describe())
        need(a.code < 0 or (a.out, a.err) == (b.out, b.err), "%s: %s AND with options %s", where, a.describe(), b.describe())
    plan = cmdline.Plan()
    plan.read(cmdline.resolve(before, paths), contents)
    plan.read(cmdline.resolve(after, paths), contents)
    ctx.label("effective lines", len(before) > 1)
    ctx.label("filler", len(text) > 4000)
    ctx.label("long path", c["far"])
    ctx.label("no final newline", not c["final"])
    ctx.label("random", any(i[0] == "r" for i in before))
    ctx.label("wordlist", any(i[0] == "w" for i in before))
    ctx.label("overridden", set(i[1].split(":")[0] for i in before if i[0] in "Pw") &
              set(i[1].split(":")[0] for i in after if i[0] in "Pw"))
    ctx.nontrivial(len(before) > 1 or len(text) > 4000 or c["far"] > 200)
    cmdline.judge(ctx, cmdline.expect(plan, contents), a)


# ----------------------------------------------------- boundaries of size and path length
def edge_cases():
    for variant in ("asan", "dbg", "rel"):
        for size in list(range(10200, 10260)) + [1, 2, 3, 100, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 20479, 20480, 20481,
                                                 40959, 40960, 40961, 81920, 200000, 1000000]:
            yield {"variant": variant, "size": size, "kind": size % 4, "path": 0}
        for path in list(range(90, 130)) + list(range(225, 300, 3)) + [500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4000, 4050,
                                                                       4060, 4070, 4090, 4095, 4096, 4097, 5000, 8192, 60000, 120000]:
            yield {"variant": variant, "size": 0, "kind": path % 2, "path": path}


def check_edge(ctx, c):
    """A preset that ends exactly at some offset of the file, or a path of exactly some length"""
    size = c["size"]
    if size:
        last = b"preset mine [a-c]{9}"
        if size < len(last) + 2:
            content = b"#" * size
        else:
            k = c["kind"]
            pad = size - len(last)
            content = (b"#" + b"x" * (pad - 2) + b"\n" if k == 0 else b"\n" * pad if k == 1 else b"preset p%s x\n" % (b"q" * (pad - 12))
                       if k == 2 and pad > 13 else b" " * (pad - 1) + b"\n") + last
        known = size >= len(last) + 2
        env = place(ctx, content, "home" if c["kind"] & 1 else "xdg", 0)
    else:
        env = place(ctx, b"preset mine [a-c]{9}", "home" if c["kind"] else "xdg", 0)
        key = "HOME" if c["kind"] else "XDG_CONFIG_PATH"
        base = env[key]
        n = c["path"]
        if n < len(base) + 2:
            raise Skip
        env[key] = base + "/" * ((n - len(base)) % 2) + "/." * ((n - len(base)) // 2)
        need(len(env[key]) == n, "path")
        total = n + len("/passgen.conf") + (len("/.config") if c["kind"] else 0)
        known = total < 4096
    for args in (["-p", "mine"], ["-p", "uuid"]):
        r = cli.run(ctx, c["variant"], ["-r", "xorshift:%d" % (c["size"] + c["path"])] + args, env=env)
        text = "[a-c]{9}" if args[1] == "mine" else cmdline.BUILTIN["uuid"]
        want = "".join(map(chr, model.Run(model.parse(text.encode()), model.xorshift_stream(c["size"] + c["path"]), {}).output()[0]))
        if args[1] == "uuid" or known:
            need(r.code == 0 and r.out == want.encode() + b"\n", "expected %s: %s", want, r.describe())
        else:
            need(r.code == 8, "%s", r.describe())
    ctx.label("known", known)
    ctx.nontrivial()


# ------------------------------------------------------------------------- any content
def fuzz_case(t):
    parts = []
    for _ in range(t.n(0, 12)):
        k = t.n(0, 5)
        if k == 0:
            parts.append(t.pick([b"preset", b"random", b"wordlist", b"#", b"preset ", b"random ", b"wordlist ", b"preset\t", b"preset a",
                                 b"preset a:", b"preset :a", b"preset a ", b"wordlist a", b"wordlist a:", b"random :", b"random xorshift:1",
                                 b"wordlist : ", b"preset  ", b"wordlist a /nonexistent", b"wordlist a /",
                                 b"random\0zero", b"preset a\0b"]))
        elif k == 1:
            parts.append(t.bytes(t.n(0, 30)))
        elif k == 2:
            parts.append(t.pick([b"\n", b"\n\n", b"\r\n", b"\0", b" ", b"\t", b":", b"\xff"]) * t.n(1, 5))
        elif k == 3:
            parts.append(b"\n")
        elif k == 4:
            parts.append(b"x" * t.pick([10, 255, 256, 1000, 10238, 10239, 10240, 20479]))
        else:
            parts.append(b"\npreset good [a-z]{3}\n")
    return {"data": b"".join(parts), "where": t.pick(["xdg", "home"]), "variant": t.pick(["asan", "asan", "dbg", "sec"])}


def check_fuzz(ctx, c):
    env = place(ctx, c["data"], c["where"], 0)
    for args in (["-r", "xorshift:5", "x[a-c]{4}"], ["-l"]):
        r = cli.run(ctx, c["variant"], args, env=env)
        need(r.code >= 0 and r.code != 99, "configuration %s: %s", sh(c["data"]), r.describe())
        if r.code == 0 and args[0] == "-r":
            run = model.Run(model.parse(b"x[a-c]{4}"), model.xorshift_stream(5), {})
            need(r.out == "".join(map(chr, run.output()[0])).encode() + b"\n", "configuration %s: %s", sh(c["data"]), r.describe())
        ctx.label("accepted", r.code == 0)
    ctx.nontrivial(len(c["data"]) > 20)


def odd_cases():
    for variant in ("asan", "dbg", "sec", "rel"):
        for kind in ("directory", "missing", "empty", "no home", "empty home", "empty xdg", "loop", "fifo-like"):
            yield {"variant": variant, "kind": kind}


def check_odd(ctx, c):
    k = c["kind"]
    env = place(ctx, b"", "xdg", 0)
    f = os.path.join(env["XDG_CONFIG_PATH"], "passgen.conf")
    pre = None
    if k == "directory":
        os.unlink(f)
        os.mkdir(f)
    elif k == "missing":
        os.unlink(f)
    elif k == "loop":
        os.unlink(f)
        os.symlink("passgen.conf", f)
    elif k == "no home":
        env = {}
    elif k == "empty home":
        env = {"HOME": ""}
    elif k == "empty xdg":
        env["XDG_CONFIG_PATH"] = ""
    elif k == "fifo-like":
        os.unlink(f)
        os.symlink("/dev/null", f)
    args = ["-r", "xorshift:5", "x[a-c]{4}"]
    run = model.Run(model.parse(b"x[a-c]{4}"), model.xorshift_stream(5), {})
    want = "".join(map(chr, run.output()[0])).encode() + b"\n"
    if k == "no home":
        import subprocess
        e = dict(cli.clean_env({}))
        e.pop("HOME", None)
        p = subprocess.run([ctx.cli(c["variant"])] + args, env=e, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        code, out = p.returncode, p.stdout
    else:
        r = cli.run(ctx, c["variant"], args, env=env)
        code, out = r.code, r.out
    need(code == 0 and out == want, "%s configuration: status %d, output %s", k, code, sh(out))
    ctx.nontrivial()


# ------------------------------------------------------------- the configuration that is shipped
def shipped_cases():
    for variant in ("asan", "dbg", "sec", "rel"):
        for n in (1, 20, 500):
            yield {"variant": variant, "n": n}


def check_shipped(ctx, c):
    with open(os.path.join(B.REPO, "data", "passgen.conf"), "rb") as f:
        content = f.read()
    env = place(ctx, content, "home", 0)
    for line in content.split(b"\n"):
        if not line.startswith(b"preset "):
            continue
        name, pattern = line[7:].split(b":", 1)
        if b"\\w" in pattern:
            continue
        r = cli.run(ctx, c["variant"], ["-r", "xorshift:%d" % c["n"], "-a", str(c["n"]), "-p", name.decode()], env=env)
        run = model.Run(model.parse(pattern), model.xorshift_stream(c["n"]), {})
        want = b"".join("".join(map(chr, run.output()[0])).encode() + b"\n" for _ in range(c["n"]))
        need(r.code == 0 and r.out == want, "shipped preset %s: %s", name.decode(), r.describe())
        ctx.label("shipped " + name.decode())
    ctx.nontrivial()


# ------------------------------------------------------------- every byte, lines of any length
def byte_cases():
    for variant in ("rel", "asan"):
        for b in range(1, 256):
            if b == 10:
                continue
            for place_ in ("first", "middle", "last", "name", "twice"):
                if chr(b) in " \t:" and place_ in ("first", "name"):
                    continue
                for kind in ("P", "w", "r"):
                    if kind != "P" and (variant == "asan" or place_ == "twice"):
                        continue
                    yield {"variant": variant, "byte": b, "place": place_, "kind": kind}


def check_byte(ctx, c):
    """A line with one particular byte means what the option with this byte means"""
    b, kind = bytes([c["byte"]]), c["kind"]
    name = b"a%sb" % b if c["place"] == "name" else b"mine"
    inner = {"first": b + b"xy", "middle": b"x" + b + b"y", "last": b"xy" + b, "name": b"xy", "twice": b"x" + b + b"y" + b + b"z"}[c["place"]]
    if kind == "P":
        item, last = name + b":" + inner, [b"-p", name]
    elif kind == "w":
        words = os.path.join(ctx.scratch.encode(), b"words" + inner.replace(b"/", b"_"))
        if b"/" in inner:
            raise Skip
        with open(words, "wb") as f:
            f.write(b"alpha\nbeta\ngamma\n")
        item, last = name + b":" + words, [b"--", b"\\w{%s}{3}" % name]
    else:
        if c["place"] == "name":
            raise Skip
        item, last = {"first": b + b"xorshift:7", "middle": b"xorshift" + b + b"7", "last": b"xorshift:7" + b}[c["place"]], [b"[a-z]{20}"]
    line_ = {"P": b"preset ", "w": b"wordlist ", "r": b"random "}[kind] + item
    rs = []
    tail = ["-r", "xorshift:99"] if kind != "r" else []
    for final in (b"", b"\n", b"\nx\n"):
        env = place(ctx, b"# c\n" + line_ + final, "xdg", 0)
        rs.append(cli.run(ctx, c["variant"], tail + last, env=env))
    opt = cli.run(ctx, c["variant"], ["-" + kind, item] + tail + last)
    for r in rs:
        same = r.code == opt.code and (opt.code < 0 or (r.out, r.err) == (opt.out, opt.err))
        if not same and kind == "r" and r.code == opt.code == 0 and opt.out != cli.run(ctx, c["variant"], ["-r", item] + last).out:
            continue                                          # real randomness
        need(same, "line %s: %s AND as an option %s", sh(line_), r.describe(), opt.describe())
    if kind == "P" and c["byte"] < 128 and chr(c["byte"]) not in "[](){}|?\\*+$#^.":
        need(opt.code == 0 and opt.out == inner + b"\n", "%s", opt.describe())
    ctx.label("works", opt.code == 0)
    ctx.nontrivial()
    if kind == "w":
        os.unlink(words)


LENGTHS = [100, 255, 256, 257, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4093, 4094, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000,
           10220, 16383, 16384, 16385, 20000, 32767, 32768, 40000, 65535, 65536, 65537, 100000]


def long_cases():
    for variant in ("rel", "asan"):
        for n in LENGTHS:
            for kind in ("preset", "comment", "blank", "unknown", "gap", "name"):
                for position in ("only", "last", "first", "middle"):
                    yield {"variant": variant, "n": n, "kind": kind, "position": position, "final": (n + len(position)) & 1}
    for n in (1 << 20, 1100000, 4200001):
        for kind in ("comment", "unknown", "gap"):
            for position in ("last", "first"):
                yield {"variant": "rel", "n": n, "kind": kind, "position": position, "final": n & 1}


def check_long(ctx, c):
    """A line of any length, with or without final newline, at any place of the file"""
    n, kind, position = c["n"], c["kind"], c["position"]
    name = "mine"
    if kind == "preset":
        line_ = "preset mine " + "z" * (n - 20) + "[a-c]{8}"
    elif kind == "gap":
        line_ = " " * (n // 3) + "preset" + "\t" * (n // 3) + "mine" + " " * (n // 3) + "[a-c]{8}"
    elif kind == "name":
        name = "n" * n
        line_ = "preset %s:[a-c]{8}" % name
    else:
        line_ = {"comment": "#", "blank": " ", "unknown": "u"}[kind] * n
    others = ["preset one 1[a-c]{5}", "preset two 2[a-c]{5}", "preset three 3[a-c]{5}"]
    at = {"only": None, "last": 3, "first": 0, "middle": 1}[position]
    lines = [line_] if at is None else others[:at] + [line_] + others[at:]
    env = place(ctx, ("\n".join(lines) + "\n" * c["final"]).encode(), "xdg", 0)
    known = {} if at is None else {"one": "1[a-c]{5}", "two": "2[a-c]{5}", "three": "3[a-c]{5}"}
    if kind in ("preset", "gap", "name"):
        known[name] = ("z" * (n - 20) if kind == "preset" else "") + "[a-c]{8}"
    for ask in ("one", "two", "three", name, name[:-1]):
        r = cli.run(ctx, c["variant"], ["-r", "xorshift:%d" % n, "-p", ask], env=env)
        if ask in known:
            want = "".join(map(chr, model.Run(model.parse(known[ask].encode()), model.xorshift_stream(n), {}).output()[0]))
            need(r.code == 0 and r.out == want.encode() + b"\n", "%s line of %d bytes (%s), preset %s: %s", kind, n, position, ask[:20], r.describe())
        else:
            need(r.code == 8, "%s line of %d bytes (%s), preset %s: %s", kind, n, position, ask[:20], r.describe())
    ctx.nontrivial()


TESTS = [
    Test("every byte", check_byte, cases=byte_cases, exhaustive=True),
    Test("long lines", check_long, cases=long_cases, exhaustive=True),
    Test("sizes and paths", check_edge, cases=edge_cases, exhaustive=True),
    Test("unusual files", check_odd, cases=odd_cases, exhaustive=True),
    Test("shipped", check_shipped, cases=shipped_cases, exhaustive=True),
    Test("equivalent options", check, lambda: gens.from_tape(case, 20, 300), quick=2200),
    Test("any content", check_fuzz, lambda: gens.from_tape(fuzz_case, 4, 200), quick=700),
]

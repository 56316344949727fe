"""C16: failing randomness never yields an output."""
import os, threading
from vlib import build as B
from vlib.worker import Crash
from . import cli, rnd
from .common import *

ID = "C16"
VARIANTS = ["asan", "rel", "dbg", "sec"]
RULE = ("Sources that end, read short or report an error after a generated number of bytes, on first read, refill and "
        "large read, under generated patterns and read histories (scripted source), command lines with files and pipes "
        "of any length, unreadable files, and an interposed getrandom() that fails at a generated call or allocation that does, in debug, "
        "release, sanitized and sandboxed builds. Oracle: a normal end means the model's outputs from delivered bytes "
        "only; standard output is a prefix of those. Non-trivial: the source fails before all is generated.")
SHIM = None


def setup(builds, work):
    global SHIM
    SHIM = B.compile_shared(work, "getrandom_shim.so", "getrandom_shim.c")


def judge(ctx, delivered, consumed, call, compare):
    """Runs call(); a normal return must be right and possible."""
    enough = (consumed // 1024 + 1) * 1024
    try:
        r = call()
    except Crash as e:
        need(e.kind in ("abort", "assertion"), "%s", e)
        need(delivered < enough, "stopped although %d bytes are delivered and %d used", delivered, consumed)
        ctx.label("stopped")
        ctx.nontrivial(True)
        return
    compare(r)
    need(consumed <= delivered, "%d bytes were used although only %d were delivered", consumed, delivered)
    ctx.label("enough")


def lib_case(t):
    c = gen_case(t, depth=3, most_gen=4, variants=("asan", "rel"))
    c["mode"] = t.n(1, 3)
    c["after"] = t.pick([0, 1, 512, 1023, 1024, 1025, 2047, 2048, 3000, 4095, 4096, t.n(0, 1100), t.n(0, 9000)])
    c["n"] = t.pick([1, 3, 20, 60])
    return c


def check_lib(ctx, c):
    p = well_formed(c["pattern"])
    s = model.ScriptStream(c["prefix"], c["seed"])
    run = model.Run(p, s, load_words(c["wl"]), 1024)
    try:
        want = [run.output()[0] for _ in range(c["n"])]
    except model.GenFail as e:
        raise Skip(str(e))
    spec = W.r_script(c["prefix"], c["seed"], c["mode"], c["after"])

    def compare(g):
        need(not g.rejected, "rejected")
        for (ret, e, data), cps in zip(g.out, want):
            need(ret == 0 and W.unpack_cps(data) == cps, "output %s, expected %s", ascii(W.unpack_cps(data)[:40]),
                 ascii(cps[:40]))
    judge(ctx, c["after"], s.pos, lambda: library_gen(ctx, c, random=spec), compare)


def ops_case(t):
    prefix, seed = gens.stream(t)
    return {"ops": rnd.history(t, 12), "prefix": prefix, "seed": seed, "heap": t.n(0, 1), "mode": t.n(1, 3),
            "after": t.pick([0, 1, 1023, 1024, 1025, 2048, 3072, 5000, t.n(0, 20000)]), "variant": t.pick(["asan", "rel"])}


def check_ops(ctx, c):
    ops = rnd.concrete(c["ops"])
    least = most = None
    for eager in (True, False):
        s = model.ScriptStream(c["prefix"], c["seed"])
        m = model.RandomModel(model.TakeSource(s), eager)
        for o, a in ops:
            m.op(o, a)
        least = s.pos if least is None else min(least, s.pos)
        most = s.pos if most is None else max(most, s.pos)
    spec = W.r_script(c["prefix"], c["seed"], c["mode"], c["after"])
    try:
        got = rnd.run_ops(ctx.w(c["variant"]), spec, ops, c["heap"])
    except Crash as e:
        need(e.kind in ("abort", "assertion"), "%s", e)
        need(c["after"] < most, "stopped although all was delivered")
        ctx.label("stopped")
        ctx.nontrivial(True)
        return
    need(got is not None, "not opened")
    need(c["after"] >= least, "%d bytes read although %d were delivered", least, c["after"])
    rnd.compare(ctx, got, lambda: model.TakeSource(model.ScriptStream(c["prefix"], c["seed"])), ops)


PATTERNS = ["[a-z]{12}", "[a-zA-Z0-9]{1,40}", "(a|bc|def){3,9}", "x?y?z?[01]{3}", "abc", "[a-z]{200}", "(ab?c){1,5}-",
            "[\u00e4\u20ac]{3}"]


def expected(pattern, stream, n):
    """The text printed before the stream ends, and whether it is all of it."""
    run = model.Run(model.parse(pattern.encode()), stream, {}, 100)
    parts = []
    for _ in range(n):
        try:
            parts.append("".join(map(chr, run.output()[0])))
        except EOFError:
            return "\n".join(parts + [""]).encode() if parts else b"", False
    return ("\n".join(parts) + "\n").encode(), True


def form(t):
    return t.pick(["plain", "plain", "json", "null", "entropy"])


ARGS = {"plain": [], "json": ["-j"], "null": ["-z"], "entropy": ["-e"]}


def shape(text, form, pattern):
    """Expected stdout in another form."""
    if form == "json":
        return b"[" + b",".join(b'{"output":"' + x + b'"}' for x in text[:-1].split(b"\n")) + b"]\n" if text else b"["
    if form == "null":
        return text[:-1].replace(b"\n", b"\0") + b"\n"
    return text


def judge_cli(ctx, r, full, text, complete, form, must_work):
    """full: the outputs from an endless stream; text: those from delivered bytes."""
    if r.code == 0:
        need(complete, "succeeds although the source does not deliver enough: %s", r.describe())
        need(r.out == shape(text, form, None), "printed %s, expected %s", sh(r.out, 80), sh(text, 80))
        ctx.label("enough")
        return
    need(not must_work, "fails although the source delivers enough: %s", r.describe())
    need(r.code not in (99,), "%s", r.describe())
    out = r.out
    allowed = shape(full, form, None)
    need(allowed.startswith(out) or out.startswith(b"error"), "printed something else than the outputs: %s", r.describe())
    limit = len(shape(text, form, None)) + 2 if text else 2
    if allowed.startswith(out):
        need(len(out) <= limit, "printed %d bytes, of which only %d were generated from delivered bytes", len(out), limit)
    ctx.label("stopped")
    ctx.label("stopped after printing", len(out) > 2)
    ctx.nontrivial(True)


def file_case(t):
    return {"pattern": t.pick(PATTERNS), "n": t.pick([1, 1, 2, 5, 40, 400, 1500, 1500, 1500]), "seed": t.n(0, 1 << 30),
            "len": t.pick([0, 1, 8, 1000, 1023, 1024, 1025, 2047, 2048, 4096, 10000, 50000, t.n(0, 3000), t.n(0, 80000)]),
            "how": t.pick(["file", "file", "fifo", "config"]), "form": form(t), "variant": t.pick(["rel", "dbg", "sec", "asan"])}


def check_file(ctx, c):
    data = model.ScriptStream(b"", c["seed"]).take(c["len"])
    s = model.BytesStream(data)
    text, complete = expected(c["pattern"], s, c["n"])
    if c["pattern"] == "abc":
        complete = True
    full, _ = expected(c["pattern"], model.ScriptStream(b"", c["seed"]), c["n"])
    must = complete and c["len"] >= (s.pos // 1024 + 1) * 1024
    if complete and c["len"] < 1024 and c["pattern"] == "abc":
        complete = must = None
    path = os.path.join(ctx.scratch, "source")
    if os.path.lexists(path):
        os.unlink(path)
    args = ARGS[c["form"]] + ["-a", str(c["n"]), c["pattern"]]
    env = {}
    if c["how"] == "fifo":
        os.mkfifo(path)

        def feed():
            try:
                with open(path, "wb", 0) as f:
                    v = memoryview(data)
                    while len(v):
                        v = v[f.write(v[:777]):]
            except OSError:
                pass
        th = threading.Thread(target=feed, daemon=True)
        th.start()
    else:
        with open(path, "wb") as f:
            f.write(data)
    if c["how"] == "config":
        d = os.path.join(ctx.scratch, "conf")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "passgen.conf"), "w") as f:
            f.write("random file:%s\n" % path)
        env["XDG_CONFIG_PATH"] = d
    else:
        args = ["-r", "file:" + path] + args
    r = cli.run(ctx, c["variant"], args, env=env)
    if c["how"] == "fifo":
        try:  # release a writer the tool never connected to
            fd = os.open(path, os.O_RDONLY | os.O_NONBLOCK)
            os.close(fd)
        except OSError:
            pass
        th.join(10)
    ctx.label(c["how"])
    if complete is None:
        # nothing random is needed: printing it or failing is both fine
        need(full.startswith(r.out) or r.out == shape(full, c["form"], None) or r.code != 0, "%s", r.describe())
        return
    judge_cli(ctx, r, full, text, complete, c["form"], must)


def shim_case(t):
    return {"pattern": t.pick(PATTERNS), "n": t.pick([1, 2, 5, 40, 400, 1500]), "seed": t.n(1, 1 << 30),
            "call": t.pick([0, 0, 1, 1, 2, 3, t.n(0, 60)]), "mode": t.n(0, 5), "short": t.pick([0, 1, 8, 512, 1016, 1023,
                                                                                            t.n(0, 1023)]),
            "forever": t.n(0, 1), "form": form(t), "variant": t.pick(["rel", "dbg", "sec"])}


def check_shim(ctx, c):
    """getrandom() itself fails, reads short or is interrupted."""
    full, _ = expected(c["pattern"], model.ScriptStream(b"", c["seed"]), c["n"])
    # before the failing call only whole buffers were delivered
    delivered = 1024 * c["call"] + (c["short"] if c["mode"] == 0 else 0)
    s = model.BytesStream(model.ScriptStream(b"", c["seed"]).take(delivered))
    text, complete = expected(c["pattern"], s, c["n"])
    r = cli.run(ctx, c["variant"], ARGS[c["form"]] + ["-a", str(c["n"]), c["pattern"]], preload=SHIM,
                env={"SHIM_SEED": str(c["seed"]), "SHIM_CALL": str(c["call"]), "SHIM_MODE": str(c["mode"]),
                     "SHIM_SHORT": str(c["short"]), "SHIM_FOREVER": str(c["forever"])})
    ctx.label("getrandom")
    if c["pattern"] == "abc":
        need(r.code != 0 or r.out == shape(full, c["form"], None), "%s", r.describe())
        return
    if not c["forever"] and c["mode"] in (0, 1, 4) and r.code == 0:
        # asking again is fine, if the outputs come from delivered bytes only
        need(r.out == shape(full, c["form"], None), "printed %s, expected %s", sh(r.out, 80), sh(full, 80))
        return
    judge_cli(ctx, r, full, text, complete, c["form"], complete and s.pos // 1024 < c["call"])


def unopened():
    for variant in ("rel", "dbg", "sec", "asan"):
        for pattern in ("abc", "[a-z]{5}"):
            for src in ("file:/nonexistent", "file:/proc/self/mem", "file:/", "file:", "file:/dev/null", "none", "",
                        "xorshift:", "xorshift:0", "chacha20", "file:/etc/shadow/x"):
                for fmt in ([], ["-j"], ["-e"]):
                    yield {"variant": variant, "pattern": pattern, "src": src, "args": fmt, "how": "option"}
                if src:
                    yield {"variant": variant, "pattern": pattern, "src": src, "args": [], "how": "second option"}
                    yield {"variant": variant, "pattern": pattern, "src": src, "args": [], "how": "config"}


def check_unopened(ctx, c):
    args, env = ["-r", c["src"]] + c["args"] + [c["pattern"]], {}
    if c["how"] == "second option":
        args = ["-r", "xorshift:7"] + args
    elif c["how"] == "config":
        args = [c["pattern"]]
        d = os.path.join(ctx.scratch, "conf")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "passgen.conf"), "w") as f:
            f.write("random %s\n" % c["src"])
        env["XDG_CONFIG_PATH"] = d
    r = cli.run(ctx, c["variant"], args, env=env)
    ctx.label("not opened: " + c["how"])
    need(r.code != 0, "succeeds without a source: %s", r.describe())
    need(r.code != 99, "%s", r.describe())
    for line in r.out.replace(b"\x1b[1;31m", b"").splitlines():
        need(line.startswith(b"error") or line in (b"[",), "prints %s without a source", sh(line))
    ctx.nontrivial(True)


def memory_case(t):
    return {"pattern": t.pick(PATTERNS), "n": t.pick([1, 2, 5, 40]), "source": t.pick(["system", "system", "master", "master", "xorshift", "chacha", "argon2"]),
            "alloc": t.pick([1, 2, 3, t.n(1, 12), t.n(1, 30), t.n(1, 100)]), "all": t.n(0, 1), "words": t.n(0, 3) == 0,
            "form": form(t), "variant": t.pick(["rel", "rel", "dbg", "sec"])}


def check_memory(ctx, c):
    """An allocation fails: the output is the right one all the same, or none is."""
    args = ARGS[c["form"]] + ["-a", str(c["n"])]
    args += {"system": [], "master": ["-m", "pass", "-d", "dom"], "xorshift": ["-r", "xorshift:5"], "chacha": ["-r", "chacha20:00ff"],
             "argon2": ["-r", "chacha20-argon2:pass:dom"]}[c["source"]]
    if c["words"]:
        path = os.path.join(ctx.scratch, "words")
        if not os.path.exists(path):
            with open(path, "w") as f:
                f.write("\n".join("word%d" % i for i in range(300)))
        args += ["-w", "l:" + path, c["pattern"] + "\\w{l}"]
    else:
        args.append(c["pattern"])
    env = {"SHIM_SEED": "5"}
    want = cli.run(ctx, c["variant"], args, preload=SHIM, env=env)
    need(want.code == 0, "%s", want.describe())
    r = cli.run(ctx, c["variant"], args, preload=SHIM, env=dict(env, SHIM_ALLOC=str(c["alloc"]), SHIM_ALLOC_ALL=str(c["all"])))
    if r.code == 0:
        need(r.out == want.out, "with allocation %d failing, %s instead of %s", c["alloc"], r.describe(), sh(want.out, 80))
        ctx.label("allocation of no consequence")
        return
    need(want.out.startswith(r.out) or b"error" in r.out[:20], "with allocation %d failing, printed something else than the outputs: %s", c["alloc"],
         r.describe())
    ctx.label("stopped for lack of memory")
    ctx.nontrivial(True)


TESTS = [
    Test("memory", check_memory, lambda: gens.from_tape(memory_case, 4, 40), quick=1200),
    Test("cannot be opened", check_unopened, cases=unopened, exhaustive=True),
    Test("patterns", check_lib, lambda: gens.from_tape(lib_case, 20, 300), quick=5000),
    Test("reads", check_ops, lambda: gens.from_tape(ops_case, 10, 200), quick=4000),
    Test("files", check_file, lambda: gens.from_tape(file_case, 4, 40), quick=1000),
    Test("getrandom", check_shim, lambda: gens.from_tape(shim_case, 4, 40), quick=1000),
]

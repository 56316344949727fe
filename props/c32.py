"""C32: running out of memory stops a run, it never changes a result."""
import os, re
from . import c18, c19, c20, cli
from .c16 import PATTERNS
from .common import *
from vlib import build as B

ID = "C32"
VARIANTS = ["oom", "oomrel", "rel", "dbg", "sec"]
RULE = ("Generated uses of the library (patterns with generation, wordlists, Markov chains, every container, every kind of "
        "source) are run with one allocation refused, or all from one on, and compared with the same run that gets all its "
        "memory; command lines likewise. Non-trivial: an allocation was refused and the run ended differently from "
        "the one with memory, or went on after the refusal.")

SHIM = None


def setup(builds, work):
    global SHIM
    SHIM = B.compile_shared(work, "getrandom_shim.so", "getrandom_shim.c")


SOURCES = ["xorshift", "chacha", "argon", "desc", "file", "zero", "script"]


def source(kind, seed):
    return {"xorshift": lambda: W.r_xorshift(seed | 1), "chacha": lambda: W.r_chacha(bytes(range(32)), b"12345678"),
            "argon": lambda: W.r_argon("pass", "dom", None), "desc": lambda: W.r_desc("chacha20-argon2:pass:dom:%d" % (seed % 7)),
            "file": lambda: W.r_file(bytes((seed * i * 31 + i // 7) & 255 for i in range(5000))), "zero": W.r_zero,
            "script": lambda: W.r_script(b"", seed)}[kind]()


def pattern_request(t):
    wl = gens.word_specs(t, 2) if t.chance(1, 2) else []
    names = [n for n, c, l in wl]
    if wl and t.chance(1, 4):
        # another one of the same name takes the place of the first
        n, content, level = wl[t.n(0, len(wl) - 1)]
        wl.append((n, t.pick([b"one\ntwo\nthree\n", b"zzz", content + b"\nmore\n"]), level))
    if t.chance(1, 5):
        pattern = t.pick(["(" * 60 + "a" + ")" * 60, "|".join("[a-c]%d" % i for i in range(70)), "ab" * 300, "[" + "".join("%c-%c" % (33 + 2 * i, 33 + 2 * i)
                          for i in range(4, 9)) + "a-z" * 3 + "]{5}", "\\p{%s}" % ("x" * 40), "\\w{%s}" % ("y" * 500), "(a|b){2}" * 50])
    else:
        pattern = gens.pattern(t, 3, 40, wl=names, mk=names)
    kind = t.pick(SOURCES + ["xorshift"] * 5)
    return {"op": "gen", "pattern": pattern, "wl": wl, "source": kind, "seed": t.n(0, 1 << 30), "n": t.n(1, 3)}


def request(t):
    k = t.n(0, 11)
    if k < 5:
        return pattern_request(t)
    if k == 5:
        c = c19.case(t)
        return {"op": "map", "wide": c["wide"], "keys": c["keys"], "ops": c["ops"]}
    if k == 6:
        c = c20.stack_case(t)
        return {"op": "stack", "esize": c["esize"], "ops": c["ops"][:600]}
    if k == 7:
        n = t.n(1, 200)
        return {"op": "array", "cap": t.n(0, 40), "ops": [(0, i + 1) for i in range(n)] + [(2, i) for i in range(n)] + [(1, 0)] * n}
    if k == 8:
        c = c18.train_case(t)
        return {"op": "markov", "level": c["level"], "words": c["words"], "seed": t.n(0, 1 << 30), "gen": t.n(1, 4)}
    if k == 9:
        leaf = [(t.n(1, 0x10ffff) if t.chance(1, 2) else 97 + i, t.n(1, 9)) for i in range(t.n(1, 120))]
        return {"op": "leaf", "cap": t.pick([1, 3, 5, 163]), "leaf": leaf}
    lines = t.pick([1, 10, 400, 1023, 1024, 1025, 3000])
    return {"op": "words", "lines": lines, "width": t.n(1, 12), "level": t.n(2, 5), "how": t.n(0, 1), "seed": t.n(0, 1 << 30)}


def encode(c):
    op = c["op"]
    if op == "gen":
        return (W.u8(1) + W.blob(c["pattern"].encode()) + W.u32(W.NO_DEPTH) + W.wordlists(c["wl"]) + source(c["source"], c["seed"]) +
                W.u32(c["n"]) + W.u8(0) + W.u32(1 << 16) + W.u8(1))
    if op == "map":
        enc = [k.encode("utf-32-le") if c["wide"] == 1 else k.encode("utf-8") for k in c["keys"]]
        return (W.u8(8) + W.u8(c["wide"]) + W.u32(len(enc)) + b"".join(map(W.blob, enc)) + W.u32(len(c["ops"])) +
                b"".join(W.u8(o) + W.u32(k) + W.u64(v) for o, k, v in c["ops"]))
    if op == "stack":
        return W.u8(9) + W.u32(c["esize"]) + W.u32(len(c["ops"])) + b"".join(W.u8(o) + W.u32(a) for o, a in c["ops"])
    if op == "array":
        return W.u8(10) + W.u32(c["cap"]) + W.u32(len(c["ops"])) + b"".join(W.u8(o) + W.u64(a) for o, a in c["ops"])
    if op == "markov":
        return (W.u8(11) + W.u32(c["level"]) + W.u32(len(c["words"])) + b"".join(W.cps(w) + W.u32(k) for w, k in c["words"]) +
                W.r_script(b"", c["seed"]) + W.u32(0) + W.u32(c["gen"]))
    if op == "leaf":
        return (W.u8(12) + W.u32(c["cap"]) + W.u32(len(c["leaf"])) + b"".join(W.u32(a) + W.u64(b) for a, b in c["leaf"]) +
                W.u32(len(c["leaf"])) + b"".join(W.u32(a) for a, b in c["leaf"]))
    content = b"".join(b"%0*d\n" % (c["width"], i * 7919) for i in range(c["lines"]))
    return W.u8(13) + W.blob(content) + W.u32(c["level"]) + W.u8(c["how"]) + W.r_script(b"", c["seed"]) + W.u32(20)


def case(t):
    return {"request": request(t), "at": t.n(0, 1 << 30), "near": t.n(0, 3), "all": t.n(0, 1), "variant": t.pick(["oom", "oomrel"])}


def outputs(data, n):
    """-> (state, list of outputs) of a reply to a generation"""
    r = W.Reader(data)
    if r.u8():
        return "rejected", []
    if r.u8():
        return "no source", []
    return "generated", [(r.i64(), r.f64(), r.blob()) for _ in range(n)]


def check(ctx, c):
    q = c["request"]
    try:
        payload = encode(q)
    except UnicodeEncodeError:
        raise Skip
    w = ctx.w(c["variant"])

    def ask(at):
        r = w.call(W.u8(29) + W.u64(at) + W.u8(c["all"]) + payload)
        kind, code, reply, text = r.u8(), r.u32(), r.blob(), r.blob()
        r.end()
        return kind, code, reply[:4], reply[4:], text.decode("utf-8", "replace")
    kind, code, count, ref, text = ask(0)
    if kind != 0:
        raise Skip("fails with memory as well")
    total = int.from_bytes(count, "little")
    if not total:
        raise Skip("allocates nothing")
    at = 1 + c["at"] % total
    if c["near"] == 0:
        at = max(1, total - c["at"] % min(total, 6))
    kind, code, count, got, text = ask(at)
    where = "allocation %d of %d refused%s" % (at, total, ", and all after it" if c["all"] else "")
    ctx.label(q["op"])
    if kind != 0:
        # it stopped: by an assertion, or by following the NULL it was given
        if code == 99 and kind == 1:
            m = re.search(r"SEGV on unknown address (0x[0-9a-f]+)?", text)
            harmless = m and (not m.group(1) or int(m.group(1), 16) < 1 << 32) or "null pointer" in text or "applying" in text and "null" in text
            need(harmless, "%s: %s", where, W.summary(text))
        else:
            need(code != 97 and code != 96 and not (kind == 2 and code in (9, 27)), "%s: does not end (%d)", where, code)
        ctx.label("stopped")
        ctx.nontrivial()
        return
    if q["op"] in ("stack", "array"):
        got, ref = got[:-8], ref[:-8]           # what is left allocated
    if got == ref:
        ctx.label("of no consequence")
        ctx.nontrivial(at < total)
        return
    if q["op"] == "gen":
        state, outs = outputs(got, q["n"])
        want, full = outputs(ref, q["n"])
        if want == "generated":
            for i, (a, b) in enumerate(zip(outs, full)):
                if a == b:
                    continue
                need(a[0] != 0, "%s: output %d is %s instead of %s", where, i, a, b)
                break
        else:
            need(state == want, "%s: is %s instead of %s", where, state, want)
        ctx.label("reported")
        ctx.nontrivial()
        return
    if q["op"] == "words" and q["how"] == 1 and got[:4] != b"\0\0\0\0":
        ctx.label("reported")
        ctx.nontrivial()
        return
    at_ = next((i for i, (a, b) in enumerate(zip(got, ref)) if a != b), min(len(got), len(ref)))
    raise Violation("%s: %s ends well with another result (%d bytes, with memory %d; byte %d differs)" % (where, q["op"], len(got), len(ref), at_))


# ------------------------------------------------------------------------ command lines
def cli_case(t):
    n = t.n(1, 12)
    args = ["-a", str(n)] if t.chance(1, 2) else []
    lists = []
    form = t.pick(["", "", "-z", "-j", "-e", "-je"])
    if form:
        args.append(form)
    for i in range(t.pick([0, 0, 1, 1, 2])):
        lists.append(t.pick([1, 20, 300, 1030, 3000]))
        if t.chance(1, 2):
            args += ["-M", str(t.n(2, 4))]
        args += ["-w", "l%d:{F%d}" % (i, i)]
        if t.chance(1, 6):
            args[-1:] = ["l%d:/dev/null" % i, "-w", args[-1]]
        elif i and t.chance(1, 4):
            args[-1] = "l0:{F1}"
    refs = ["\\w{l%d}" % i for i in range(len(lists))] + ["\\m{l%d}" % i for i in range(len(lists))]
    pattern = "".join(t.pick(refs + PATTERNS + ["-", "x{%d}" % t.n(1, 3000), "([ab]|c){%d}" % t.n(1, 40), "é"]) for _ in range(t.n(1, 4)))
    args += ["-r", t.pick(["xorshift:%d" % t.n(1, 999), "xorshift:5", "chacha20:0a0b0c", "file:/dev/zero"])] if t.chance(2, 3) else \
        t.pick([["-m", "master"], ["-m", "p", "-d", "d", "-t", "t"], []])
    k = t.n(0, 5)
    if k == 0:
        args += ["-P", "own:old"] * t.n(0, 1) + ["-P", "own:" + pattern, "-p", "own"]
    elif k == 1:
        args += ["-P", "a:x"] * t.n(0, 3) + ["-p", t.pick(["uuid", "apple1", "proquint128"])]
    elif k == 2:
        args += ["-l"]
    else:
        args += ["--", pattern]
    return {"args": args, "lists": lists, "at": t.n(0, 1 << 20) if t.chance(1, 2) else t.n(0, 60), "all": t.n(0, 1), "variant": t.pick(["rel", "rel", "dbg", "sec"])}


def check_cli(ctx, c):
    args = list(c["args"])
    for i, n in enumerate(c["lists"]):
        path = os.path.join(ctx.scratch, "oom%d" % n)
        if not os.path.exists(path):
            with open(path, "w") as f:
                f.write("".join("word%d\n" % j for j in range(n)))
        args = [a.replace("{F%d}" % i, path) for a in args]
    env = {"SHIM_SEED": "5"}
    want = cli.run(ctx, c["variant"], args, preload=SHIM, env=env)
    if want.code != 0:
        raise Skip("fails with memory as well")
    total = 8 + sum(30 if n < 100 else 4000 for n in c["lists"])
    at = 1 + (c["at"] % total if c["at"] > 60 else c["at"])
    r = cli.run(ctx, c["variant"], args, preload=SHIM, env=dict(env, SHIM_ALLOC=str(at), SHIM_ALLOC_ALL=str(c["all"])))
    if r.code == 0:
        same = sorted(r.out.split(b"\n")) == sorted(want.out.split(b"\n")) if "-l" in args else r.out == want.out
        need(same, "with allocation %d failing, %s instead of %s", at, r.describe(), sh(want.out, 80))
        ctx.label("tool: of no consequence")
        return
    need(want.out.startswith(r.out) or r.out.startswith((b"error", b"\x1b[1;31merror", b"Assertion")) or b"error" in r.out[-80:] and want.out.startswith(
        r.out[:r.out.rfind(b"error")].replace(b"\x1b[1;31m", b"")) or "-l" in args,
         "with allocation %d failing, printed something else than the outputs: %s", at, r.describe())
    ctx.label("tool: stopped")
    ctx.nontrivial()


TESTS = [
    Test("library", check, lambda: gens.from_tape(case, 20, 300), quick=13000),
    Test("tool", check_cli, lambda: gens.from_tape(cli_case, 8, 60), quick=2000),
]

"""C25: no input can corrupt memory, hang or leak."""
import os, re, subprocess
from . import cli, cmdline
from .common import *
from vlib.worker import clean_env

ID = "C25"
VARIANTS = ["asan", "rasan", "msan", "fuzz"]
RULE = ("Raw bytes, token soups, mutated patterns and generated ones through parse, generate in every form, and free under "
        "address, undefined-behaviour and uninitialised-memory sanitizers, with all allocations counted, assertions on and "
        "time limited; arbitrary wordlist files and command lines likewise; a coverage-guided fuzzer over all entry points "
        "that take text. Non-trivial: input of at least six bytes with a metacharacter (patterns), two lines (wordlists), "
        "two arguments (command lines), at least 150,000 executions per fuzzing case.")
ASSUMPTIONS = ["Patterns whose repeat counts multiply to more than some 10^5 are parsed and freed but not generated from: "
               "they do what they say, for too long to wait for."]
META = set(b"\\|(){}[]?")


def work(text, p):
    """upper bound of the steps one output takes; counts multiply"""
    product, run = 1, 0
    for b in text + b" ":
        if 48 <= b <= 57:
            run = run * 10 + b - 48
        else:
            product *= max(1, run)
            run = 0
        if product > 1 << 40:
            break
    return product * (len(text) + 1)


def raw(t):
    k = t.n(0, 6)
    if k == 0:
        return t.bytes(t.n(0, 60))
    if k == 1:
        return gens.token_soup(t, 20).encode("utf-8", "surrogatepass")
    if k == 2:
        return gens.mutate(t, gens.pattern(t, 3, 20)).encode("utf-8", "surrogatepass")
    if k == 3:
        return gens.pattern(t, 4, 40, nul=False).encode("utf-8", "surrogatepass")
    if k == 4:
        s = bytearray(gens.pattern(t, 2, 20).encode("utf-8", "surrogatepass"))
        for _ in range(t.n(1, 4)):
            s[t.n(0, len(s)):t.n(0, len(s))] = t.pick(gens.BAD_UTF8 + [b"\\", b"\\u{", b"(", b"\xff"])
        return bytes(s)
    if k == 5:
        return bytes(t.pick(b"\\|(){}[]?-,0192amuw{}n\xc3\xa9\xe2\x82\xac") for _ in range(t.n(0, 60)))
    # around the pieces in which patterns are decoded
    n = t.pick([255, 256, 257, 511, 512, 513, 1023, 1024]) - t.n(0, 4)
    return (t.pick(["a", "é", "€", "😀", "()", "[a]", "\\u{e9}", "(", "x|", "[", "{1}"]).encode() * n)[:4096] + \
        t.pick([b"", b"\xc3", b"\\", b"\\u{12", b"{", b"(", b"\xe2\x82", b"[a-"])


def pattern_case(t):
    return {"data": raw(t).replace(b"\0", b"0"), "seed": t.n(0, 2**40), "room": t.pick([0, 1, 2, 3, 7, 20, 255, 256, 4096]),
            "variant": t.pick(["asan", "rasan", "msan"])}


def check_pattern(ctx, c):
    data = c["data"]
    w = ctx.w(c["variant"], 10)
    if work(data, None) < 200000:
        r = w.call(W.u8(22) + W.blob(data) + W.u32(c["room"]) + W.u64(c["seed"]))
        rejected, emitted, live = r.u8(), r.u64(), r.i64()
        r.end()
        need(emitted <= 2 * c["room"], "%d bytes in a buffer of %d", emitted, c["room"])
        # and once more, into other forms, from another stream
        for mode in (0, 1):
            g = W.gen(w, data, W.r_script(b"", c["seed"] & 0xffffffff), 2, mode, max(1, c["room"]))
            need(g.rejected == rejected, "parsed twice with different results")
        ctx.label("rejected" if rejected else "generated")
    else:
        g = W.gen(w, data, W.r_script(b"", 1), 0, 0, 1)
        live = g.live if g.rejected else 0
        ctx.label("parsed only")
    need(live == 0, "%d allocations left for pattern %s", live, sh(data))
    ctx.nontrivial(len(data) >= 6 and META & set(data))


# ------------------------------------------------------------------------- wordlists
def words_case(t):
    k = t.n(0, 3)
    parts = []
    for _ in range(t.n(0, 20)):
        j = t.n(0, 9)
        if j < 3:
            parts.append(gens.word(t).encode("utf-8", "surrogatepass"))
        elif j == 3:
            parts.append(t.pick(gens.BAD_UTF8))
        elif j == 4:
            parts.append(t.bytes(t.n(0, 20)))
        elif j == 5:
            parts.append(t.pick([b"a", b"\xc3\xa9", b"\xff", b"ab"]) * t.pick([1, 127, 128, 129, 255, 256, 257, 1000]))
        elif j == 6:
            parts.append(b"\n" * t.n(1, 5))
        elif j == 7:
            parts.append(t.pick([b"\0", b"\r\n", b" ", b"\t", b"\n\0\n"]))
        else:
            parts.append(b"\n")
    data = (b"" if k == 1 else b"\n").join(parts)
    if t.chance(1, 3) and data:
        data = data[:t.n(0, len(data))]
    return {"data": data, "level": t.pick([1, 1, 2, 3, 3, 4, 5, 8, 20, 255]), "how": t.n(0, 1), "seed": t.n(0, 2**31),
            "variant": t.pick(["asan", "rasan", "msan"])}


def check_words(ctx, c):
    w = ctx.w(c["variant"], 10)
    # reference: the chain must be able to end, so that a word is finite
    wl = [("a", c["data"], c["level"])]
    for mode in (0, 2, 3):
        g = W.gen(w, b"(\\w{a}|\\m{a}){4}", W.r_script(b"", c["seed"]), 3, mode, 3000, True, wl)
        need(not g.rejected and not g.random_failed, "rejected")
    ctx.label("ill-formed UTF-8", model.utf8_decode(c["data"])[2] is not None)
    ctx.nontrivial(c["data"].count(b"\n") >= 1)


def many_words_case(t):
    """Thousands of words, the longest anywhere among them."""
    return {"n": t.pick([300, 1000, 4095, 4096, 4097, 8192, 10000, t.n(10, 5000)]), "long": t.pick([1, 16, 128, 129, 1000, 5000, t.n(1, 2000)]),
            "char": t.pick(["a", "\u00e4", "\u20ac", "\U0001f600"]), "at": t.pick([0, 50, 99, 100]), "level": t.pick([1, 2, 3, 8, 100, 200, 254, 255]),
            "seed": t.n(0, 2**31), "bad": t.n(0, 3), "variant": t.pick(["asan", "rasan", "msan"])}


def check_many_words(ctx, c):
    ws = [b"w%d" % (i % 500) for i in range(c["n"])]
    ws.insert(c["n"] * c["at"] // 100, c["char"].encode() * c["long"])
    if c["bad"] == 0:
        ws.insert(c["n"] // 2, b"w1\xff" * c["long"])
    w = ctx.w(c["variant"], 20)
    g = W.gen(w, b"(\\w{a}|\\m{a}){4}", W.r_script(b"", c["seed"]), 3, 2, 30000, True, [("a", b"\n".join(ws), c["level"])])
    need(not g.rejected and not g.random_failed, "rejected")
    wl = [("a", b"\n".join(ws), c["level"])]
    r = w.call(W.u8(28) + W.blob(b"(\\w{a}|\\m{a}){4}") + W.u32(2) + W.u32(30000) + W.u64(c["seed"]) + W.wordlists(wl))
    r.u32()
    live, files = r.i64(), r.i64()
    r.end()
    need(live == 0 and files == 0, "%d allocations left of a list of %d words, level %d, longest %d", live, len(ws), c["level"], c["long"])
    ctx.label("many words")
    ctx.nontrivial(True)


def env_case(t):
    k = t.n(1, 5)
    stem = t.pick(["", "a", "n" * 31, "n" * 40, "n" * 64, "n" * 255, "n" * 1000])
    names = [stem + chr(97 + t.n(0, k - 1)) for _ in range(t.n(1, 12))]
    wl = [(n, t.pick([b"a\nb\n", b"", b"\n", b"one\ntwo\nthree", b"\xff\n", b"x" * t.n(1, 600), b"\n".join(b"%d" % i for i in range(t.n(1, 300)))]),
           t.pick([1, 2, 3, 4, 8, 64, 200, 255])) for n in names]
    if t.chance(1, 16):
        # very many lists, some of them twice
        many = t.pick([17, 33, 65, 130, 300])
        names = names[:2] + [stem[:40] + "%d" % i for i in range(many)] + [stem[:40] + "%d" % t.n(0, many - 1) for _ in range(t.n(1, 9))]
        wl = wl[:2] + [(n, b"a\n%d" % i, 1 + i % 3) for i, n in enumerate(names[2:])]
    ref = [t.pick(names + ["missing"]) for _ in range(t.n(0, 4))]
    return {"wl": wl, "pattern": "".join(t.pick(["\\w{%s}", "\\m{%s}", "(\\w{%s}|x)"]) % r for r in ref) + t.pick(["", "a", "("]), "n": t.n(0, 4),
            "room": t.pick([0, 1, 5, 4096]), "seed": t.n(0, 2**40), "variant": t.pick(["asan", "rasan"])}


def check_env(ctx, c):
    """Everything an environment took is given back, whatever was added, replaced, used or not."""
    r = ctx.w(c["variant"], 10).call(W.u8(28) + W.blob(c["pattern"].encode()) + W.u32(c["n"]) + W.u32(c["room"]) + W.u64(c["seed"]) + W.wordlists(c["wl"]))
    r.u32()
    live, files = r.i64(), r.i64()
    r.end()
    need(live == 0, "%d allocations left of an environment with lists %s", live, [n[-8:] for n, d, l in c["wl"]])
    need(files == 0, "%d files left open", files)
    ctx.label("replaced lists", len({n for n, d, l in c["wl"]}) < len(c["wl"]))
    ctx.nontrivial(len(c["wl"]) > 1)


# --------------------------------------------------------------------- command lines
TOKENS = ["-a", "3", "-a2", "--amount=2", "--amount", "-j", "-e", "-z", "-je", "-p", "uuid", "-puuid", "--preset=edge", "-P", "x:a", "x", ":",
          "-Px:[a-z]{3}", "-D", "0", "-D9", "-M", "-M1", "-M255", "-M256", "-m", "master", "-d", "-t", "", "-r", "zero", "-rxorshift:1",
          "xorshift:", "--random=chacha20-argon2:a:b:c", "chacha20:a:b", "--", "-", "-l", "-h", "-v", "--help", "-w", "a:{F0}", "-wa:{F0}",
          "-wb:{F1}", "a", "[a-z]", "\\w{a}", "\\m{a}{2}", "\\m{b}", "(", "a{2", "é", "--json", "-?", "--x", "-q", "--markov-length=2",
          "-rsystem", "-rfile:{F2}", "file:{F1}", "--am", "--d", "--entropy", "\udcff", "\udcc3", "a\udce2\udc82", "x" * 300, "[]", "(){9}",
          "--preset", "--wordlist=:", "--wordlist=a:", "-w:", "a:b:c", "%s%n", "-P%s:%d"]


def argv_case(t):
    args = []
    for _ in range(t.n(0, 9)):
        k = t.n(0, 7)
        if k < 6:
            args.append(t.pick(TOKENS))
        elif k == 6:
            args.append(gens.mutate(t, gens.pattern(t, 2, 10)).replace("\0", "0"))
        else:
            args.append(t.bytes(t.n(0, 12)).replace(b"\0", b"0").decode("utf-8", "surrogateescape"))
    return {"args": args, "files": [b"one\ntwo\nthree", t.bytes(t.n(0, 30)), b"r" * 70000], "variant": t.pick(["asan", "rasan", "msan"])}


def check_argv(ctx, c):
    # no large amounts or counts, as they take what they take
    if any(work(a.encode("utf-8", "surrogateescape"), None) > 100000 or
           max([int(x) for x in re.findall("[0-9]{1,30}", a)] or [0]) > 9999 for a in c["args"]):
        raise Skip
    paths = cmdline.write_files(ctx, c["files"])
    args = [cmdline.subst(a, paths) for a in c["args"]]
    try:
        [a.encode("utf-8", "surrogateescape") for a in args]
    except UnicodeEncodeError:
        raise Skip
    r = cli.run(ctx, c["variant"], args, timeout=60)
    need(r.code != 99, "memory error: %s", r.describe())
    if r.code < 0:
        # running out of randomness is the one thing that aborts
        need(r.code == -6 and b"andomness" in r.err, "ended by a signal: %s", r.describe())
    need(b"runtime error" not in r.err and b"Assertion" not in r.err, "%s", r.describe())
    ctx.label("status %d" % r.code)
    ctx.nontrivial(len(args) > 1)


# ------------------------------------------------- every length of every kind of text
LAST = ["", "a", "\u00e9", "\u20ac", "\U0001f600"]


def length_cases():
    """Each growing part of a pattern at each length up to 300, ending in a character of each width."""
    kinds = {"name": ("\\w{", "", "}"), "chain": ("\\m{", "", "}"), "literal": ("", "", ""), "set": ("[", "", "]"), "items": ("", "a?", ""),
             "group": ("(", "b|", ")"), "groups": ("", "(x)", ""), "alternatives": ("", "|", ""), "depth": None, "escapes": ("", "\\u{e9}", "")}
    for kind in kinds:
        for variant in ("asan", "rasan", "msan"):
            for last in LAST:
                yield {"kind": kind, "last": last, "variant": variant, "parts": kinds[kind]}


def count_cases():
    for variant in ("rasan", "asan"):
        for n in (1000, 4097, 32768, 65535, 65536, 70000, 131073):
            for text in ("[a]", "(b)", "x", "a?", "([a-c]|(d))", "|[a]", "\\w{n}", "[a]{2}|"):
                yield {"variant": variant, "n": n, "text": text, "inner": n % 3}


def check_counts(ctx, c):
    """Everything a pattern with very many parts took is given back."""
    text = c["text"] * c["n"]
    text = [text, "(" + text + ")", "((" + text + "){1}|x)"][c["inner"]]
    r = ctx.w(c["variant"], 20).call(W.u8(22) + W.blob(text.encode()) + W.u32(2000) + W.u64(c["n"]))
    r.u8(), r.u64()
    live = r.i64()
    r.end()
    need(live == 0, "%d allocations left of %d times %s", live, c["n"], c["text"])
    ctx.nontrivial(True)


def check_lengths(ctx, c):
    w = ctx.w(c["variant"], 10)
    for n in range(301):
        if c["parts"] is None:
            text = "(" * n + c["last"] + ")" * n
        else:
            a, x, b = c["parts"]
            text = a + (x or "n") * n + c["last"] + b
        data = text.encode()
        if c["kind"] in ("name", "chain"):
            name = "n" * n + c["last"]
            wl = [(name, b"one\ntwo", 1)] if name else []
            if not name:
                continue
            g = W.gen(w, data, W.r_script(b"", n), 2, 0, 2000, True, wl)
            need(not g.rejected and not g.random_failed, "rejected for a name of %d bytes", len(name.encode()))
            words = [(list(b"one")), list(b"two")]
            need(all(ret == 0 and (W.unpack_cps(d) in words or c["kind"] == "chain") for ret, _, d in g.out), "name of %d bytes: %s",
                 len(name.encode()), g.out)
            live = 0
        else:
            r = w.call(W.u8(22) + W.blob(data) + W.u32(2000) + W.u64(n))
            r.u8(), r.u64()
            live = r.i64()
            r.end()
        need(live == 0, "%d allocations left at length %d", live, n)
    ctx.label("lengths of " + c["kind"])
    ctx.nontrivial(True)


# ------------------------------------------------------------- coverage-guided fuzzing
SEEDS = [b"a", b"[a-z]{3,9}", b"(ab|{3}cd)?x{2}", b"\\u{1f600}|\\n\\w{a}", b"{2}a|{3}(b|c){1,2}", b"[\\u{61}-\\u{7a}\\]-]",
         b"\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80", b"((((a))))", b"\\m{a}{2}?", b"()[]{0}"]
DICT = ["\\\\u{", "\\\\w{", "\\\\m{", "{1,2}", "{0}", "(", ")", "[a-z]", "]?", "|", "}?", "\\xc3\\xa9", "\\\\]", "\\\\-", ":", "\\x0a"]


def fuzz_cases():
    runs = 350000 if os.environ.get("VERIF_TIER", "quick") != "thorough" else 12000000
    for i in range(8):
        yield {"part": i, "runs": runs if i else runs // 2, "seed": int(os.environ.get("VERIF_SEED", "1")) * 8 + i + 1}


def fuzz_env():
    e = clean_env()
    e["ASAN_OPTIONS"] += ":handle_abort=1"
    return e


def check_fuzz(ctx, c):
    exe = ctx.builds["fuzz"]["worker"]
    d = os.path.join(ctx.scratch, "fuzz%d" % c.get("part", 9))
    os.makedirs(d, exist_ok=True)
    if "input" in c:
        f = os.path.join(d, "input")
        with open(f, "wb") as h:
            h.write(c["input"])
        p = subprocess.run([exe, "-timeout=20", f], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=fuzz_env(),
                           cwd=d, timeout=300)
        need(p.returncode == 0, "input %s: %s", sh(c["input"]), p.stdout.decode("utf-8", "replace")[-1500:])
        return
    corpus = os.path.join(d, "corpus")
    os.makedirs(corpus, exist_ok=True)
    first = {0: [0], 1: [0], 2: [0], 3: [0], 4: [160], 5: [190], 6: [220], 7: [240, 0]}[c["part"]]
    for i, s in enumerate(SEEDS):
        for m in first:
            with open(os.path.join(corpus, "s%d-%d" % (i, m)), "wb") as h:
                h.write(bytes([m, 200]) + s)
    with open(os.path.join(d, "dict"), "w") as h:
        h.write("".join('"%s"\n' % x for x in DICT))
    p = subprocess.run([exe, "-runs=%d" % c["runs"], "-seed=%d" % c["seed"], "-max_len=%d" % (60 if c["part"] & 1 else 200), "-timeout=20",
                        "-rss_limit_mb=2500", "-dict=dict", "-print_final_stats=1", "-artifact_prefix=" + d + "/", corpus],
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=fuzz_env(), cwd=d, timeout=700)
    text = p.stdout.decode("utf-8", "replace")
    m = re.search("number_of_executed_units: *([0-9]+)", text)
    ctx.label("fuzzer executions", m is not None)
    ctx.labels["fuzzer executions"] = ctx.labels.get("fuzzer executions", 0) + (int(m.group(1)) - 1 if m else 0)
    ctx.nontrivial(c["runs"] >= 150000)
    if p.returncode != 0:
        found = [f for f in os.listdir(d) if f.startswith(("crash-", "timeout-", "oom-", "leak-"))]
        if found:
            with open(os.path.join(d, found[0]), "rb") as h:
                c["input"] = shrink(exe, d, h.read())
        raise Violation("fuzzing, input %s: %s" % (sh(c.get("input")), text[-1500:]))


def shrink(exe, d, data):
    """Deletes pieces while the target still fails"""
    def fails(x):
        f = os.path.join(d, "try")
        with open(f, "wb") as h:
            h.write(x)
        try:
            return subprocess.run([exe, "-timeout=5", f], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  env=fuzz_env(), cwd=d, timeout=60).returncode != 0
        except subprocess.TimeoutExpired:
            return True
    size = len(data) // 2
    tries = 0
    while size and tries < 150:
        i = 2
        while i < len(data) and tries < 150:
            shorter = data[:i] + data[i + size:]
            tries += 1
            if fails(shorter):
                data = shorter
            else:
                i += size
        size //= 2
    return data


TESTS = [
    Test("patterns", check_pattern, lambda: gens.from_tape(pattern_case, 6, 200), quick=9000),
    Test("many parts", check_counts, cases=count_cases, exhaustive=True),
    Test("lengths", check_lengths, cases=length_cases, exhaustive=True),
    Test("wordlists", check_words, lambda: gens.from_tape(words_case, 6, 300), quick=2500),
    Test("many words", check_many_words, lambda: gens.from_tape(many_words_case, 4, 30), quick=80),
    Test("environments", check_env, lambda: gens.from_tape(env_case, 6, 80), quick=2500),
    Test("command lines", check_argv, lambda: gens.from_tape(argv_case, 6, 120), quick=1500),
    Test("fuzzing", check_fuzz, cases=fuzz_cases),
]

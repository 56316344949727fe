"""C18: Markov generation follows exactly the learned statistics."""
import math
import os
import random
from . import cli
from .common import *

ID = "C18"
VARIANTS = ["asan", "rel", "rasan", "dbg"]
RULE = ("Chains of order 1 to 8 (and up to 255) trained on generated weighted words over alphabets chosen to collide in "
        "the tables; for every context the draws for all values below the total are enumerated and must occur exactly "
        "as often as the model counted; generated words are walked through the model. The same through wordlist files "
        "and patterns and the command line. Non-trivial: a context with at least two continuations.")
# steps at which codepoints coincide in tables of 3, 7, 17, 37, 79, 163 entries
STEPS = [1, 3, 7, 17, 21, 37, 51, 79, 163, 119, 357, 13209, 331, 1043511]


def alphabet(t):
    k = t.n(0, 3)
    if k == 0:
        return [97 + i for i in range(t.n(1, 4))]
    if k == 1:
        base, step = t.n(1, 300), t.pick(STEPS)
        return [c for c in (base + step * i for i in range(t.n(1, 9))) if model.is_scalar(c)] or [97]
    if k == 2:
        return [c for c in (gens.scalar(t) for _ in range(t.n(1, 12))) if c] or [97]
    return list(range(33, 33 + t.n(1, 60)))


def train_case(t):
    al = alphabet(t)
    level = t.pick([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 16, 100, 255]) if t.chance(3, 4) else t.n(1, 4)
    longest = t.pick([3, 6, 12, 40])
    most = t.chance(7, 8)
    words = []
    for _ in range(t.n(1, 14)):
        if words and t.chance(1, 5):
            words.append((t.pick(words)[0], t.n(1, 3)))
        else:
            words.append(([t.pick(al) for _ in range(t.n(0, longest))], t.pick([1, 1, 1, 2, 3, 5, 10, 1000, 0] if most else
                                                                                        [1, 1000, 65536, 99999, 1 << 20, (1 << 22) - 1])))
    return {"level": level, "words": words, "seed": t.n(0, 1 << 30), "gen": t.n(0, 6), "variant": t.pick(["asan", "rel", "rasan"]),
            "pick": t.n(0, 1 << 16)}


def big_case(t):
    """Many words over a large alphabet: tables grow through several sizes."""
    import random
    rng = random.Random(t.n(0, 1 << 40))
    k = t.n(0, 2)
    size = t.n(2, 120)
    if k == 0:
        al = list(range(97, 97 + size))
    elif k == 1:
        step = t.pick(STEPS[:12])
        al = [c for c in (33 + step * i for i in range(size)) if model.is_scalar(c)]
    else:
        al = [c for c in (rng.randrange(1, 0x110000) for _ in range(size)) if model.is_scalar(c)]
    words = [([rng.choice(al) for _ in range(rng.randrange(0, 7))], rng.choice([1, 1, 1, 2, 5]))
             for _ in range(t.n(20, 300))]
    return {"level": t.pick([1, 1, 2, 3]), "words": words, "seed": t.n(0, 1 << 30), "gen": 3,
            "variant": t.pick(["asan", "rel", "rasan"]), "pick": t.n(0, 1 << 16)}


def call(ctx, c, script, queries, gen):
    lv = c["level"]
    r = ctx.w(c["variant"]).call(
        W.u8(11) + W.u32(lv) + W.u32(len(c["words"])) + b"".join(W.cps(w) + W.u32(k) for w, k in c["words"]) +
        W.r_script(script, c["seed"]) + W.u32(len(queries)) +
        b"".join(W.cps(q)[4:] + W.u32(n) for q, n in queries) + W.u32(gen))
    count = r.u64()
    draws = [[(r.u32(), r.f64()) for _ in range(n)] for q, n in queries]
    words = [(r.u8(), r.f64(), r.cps()) for _ in range(gen)]
    r.end()
    return count, draws, words


def walk(chain, word):
    """Bits of a generated word; raises Violation on an unknown transition."""
    at = (0,) * chain.level
    bits = 0.0
    for cp in list(word) + [0]:
        t = chain.table.get(at)
        need(t is not None and cp in t, "after %s comes %s, which no training word does", ascii(at[-8:]), hex(cp))
        bits += math.log2(sum(t.values())) - math.log2(t[cp])
        at = at[1:] + (cp,)
    return bits


def check_train(ctx, c):
    chain = model.Chain(c["level"], c["words"])
    if not chain.count:
        raise Skip
    # all values of some contexts: exact counts
    seqs = sorted(chain.table)
    queries, script = [], []
    left = 1500
    start = c["pick"] % len(seqs)
    for q in seqs[start:] + seqs[:start]:
        total = sum(chain.table[q].values())
        if total > left:
            continue
        left -= total
        queries.append((q, total))
        script += range(total)
    # contexts seen too often for that: random values, each with its exact entropy
    heavy = [q for q in seqs if sum(chain.table[q].values()) > 1500][:6]
    queries += [(q, 200) for q in heavy]
    count, draws, words = call(ctx, c, b"".join(v.to_bytes(8, "little") for v in script), queries, c["gen"])
    need(count == chain.count, "%d transitions recorded, not %d", count, chain.count)
    for (q, _), ds in zip(queries, draws):
        t = chain.table[q]
        total = sum(t.values())
        got = {}
        for cp, e in ds:
            got[cp] = got.get(cp, 0) + 1
            need(cp in t, "after %s comes %s, which no training word does", ascii(q[-8:]), hex(cp))
            need(abs(e - total / t[cp]) <= 1e-9 * e, "entropy factor %f for a choice of %d in %d", e, t[cp], total)
        if q in heavy:
            # a chance of about 10^-12 to exceed this
            for cp, k in t.items():
                mean = len(ds) * k / total
                need(abs(got.get(cp, 0) - mean) <= 7 * math.sqrt(mean * (1 - k / total)) + 5, "after %s, %s is chosen %d times of %d, "
                     "its count is %d of %d", ascii(q[-8:]), hex(cp), got.get(cp, 0), len(ds), k, total)
            ctx.label("heavy context")
            continue
        need(got == t, "after %s the continuations are chosen %s times, counted %s", ascii(q[-8:]), got, t)
        ctx.nontrivial(len(t) > 1)
    for done, e, word in words:
        if not done:
            need(len(word) > 4000, "unfinished after %d", len(word))
            continue
        bits = walk(chain, word)
        need(bits > 1000 or abs(math.log2(e) - bits) < 1e-6, "entropy of %s is %f bits, not %f", ascii(word[:20]),
             math.log2(e), bits)
    ctx.label("order above 4", c["level"] > 4)
    ctx.label("order above 50", c["level"] > 50)
    ctx.label("large table", any(len(t) > 17 for t in chain.table.values()))
    ctx.label("word shorter than the order", any(len(w) < c["level"] for w, k in c["words"]))
    ctx.label("word longer than the order", any(len(w) > c["level"] for w, k in c["words"]))


def leaf_case(t):
    al = alphabet(t) if t.chance(1, 2) else [t.n(0, 0x10ffff) for _ in range(t.n(1, 40))]
    return {"size": t.n(0, 3), "ops": [(t.pick(al), t.pick([0, 1, 1, 2, 7, 1000, 1 << 20])) for _ in range(t.n(1, 60))],
            "others": [t.n(0, 0x10ffff) for _ in range(t.n(0, 10))], "variant": t.pick(["asan", "rel"])}


def check_leaf(ctx, c):
    want = {}
    for cp, k in c["ops"]:
        want[cp] = want.get(cp, 0) + k
    q = sorted(want) + [x for x in c["others"] if x not in want]
    r = ctx.w(c["variant"]).call(W.u8(12) + W.u32(c["size"]) + W.u32(len(c["ops"])) +
                                 b"".join(W.u32(a) + W.u64(b) for a, b in c["ops"]) + W.u32(len(q)) +
                                 b"".join(W.u32(x) for x in q))
    need(r.u64() == sum(want.values()), "wrong total")
    for x in q:
        n = r.u64()
        need(n == want.get(x, 0), "count of %x is %d, not %d", x, n, want.get(x, 0))
    ctx.label("leaf")
    ctx.nontrivial(len(want) > 1)


def often_case(t):
    """Few words, each seen very often: counts pass every power of two up to 2^17."""
    words = []
    for i in range(t.n(2, 3)):
        k = t.pick([255, 256, 257, 1000, 4096, 32768, 65534, 65535, 65536, 65537, 70000, t.n(1, 3000), t.n(1, 70000)])
        w = [97 + t.n(0, 2) for _ in range(t.n(1, 3))]
        words += [(w, 1)] * k if t.chance(2, 3) else [(w, k)]
    return {"level": t.n(1, 3), "words": words, "seed": t.n(0, 1 << 30), "gen": 12, "variant": t.pick(["asan", "rel"]), "pick": 0}


def heavy_case(t):
    """Totals of a context beyond 2^32, each count below."""
    cps = sorted({t.n(1, 300) for _ in range(t.n(2, 9))})
    return {"size": t.n(0, 3), "ops": [(x, t.pick([2**32 - 1, 2**31, 2**31 - 1, 2**32 - 2, 1, t.n(1, 2**32 - 1)])) for x in cps], "others": [0, 301],
            "variant": t.pick(["asan", "rel"])}


def file_case(t):
    al = [c for c in alphabet(t) if c not in (0, 10)] or [97]
    longest = t.pick([4, 8, 30, 150, 300]) if t.chance(15, 16) else t.pick([1030, 2050, 4100, 5000])
    words = ["".join(map(chr, (t.pick(al) for _ in range(t.n(1, longest))))) for _ in range(t.n(1, 14))]
    words = words + [t.pick(words) for _ in range(t.n(0, 4))]
    bad = t.pick([b"", b"a", words[0].encode(), b"abc"]) + t.pick(gens.BAD_UTF8) + t.pick([b"", b"x"]) if t.chance(1, 6) else None
    return {"words": words, "level": t.pick([1, 2, 3, 3, 4, 6, 20, 255]), "seed": t.n(1, 1 << 30), "n": t.n(1, 8), "bad": bad,
            "variant": t.pick(["asan", "rel"]), "nl": t.n(0, 1)}


def large_case(t):
    """Lists of very many words, a few of them unlike the others, wherever they stand."""
    total = t.pick([300, 1000, 1025, 2049, 4097, 5000, 8193, 10000, 16385, 20000, 33000, 65537, 70000, 131073])
    rng = random.Random(t.n(0, 1 << 30))
    short = ["".join(rng.choice("abcdef") for _ in range(rng.randint(1, 3))) for _ in range(t.n(1, 12))]
    words = [short[int(rng.random() ** 2 * len(short))] for _ in range(total)]
    for _ in range(t.n(1, 4)):
        odd = "".join(rng.choice("abcxyz\u00e9\u20ac\U0001f600") for _ in range(t.pick([4, 5, 9, 17, 40, 129])))
        at = t.pick([0, total - 1, total - 1, total // 2, min(total - 1, 4096), t.n(0, total - 1)])
        words[at] = odd
    return {"words": words, "level": t.pick([1, 2, 3]), "seed": t.n(1, 1 << 30), "n": 6, "bad": None,
            "variant": t.pick(["asan", "rel"]), "nl": t.n(0, 1)}


def content(c):
    ws = [w.encode() for w in c["words"]]
    if c["bad"] and b"\n" not in c["bad"] and b"\0" not in c["bad"]:
        ws.insert(1, c["bad"])
    return b"\n".join(ws) + b"\n" * c["nl"]


def check_file(ctx, c):
    """Training on a file; generation through a pattern."""
    chain = model.Words(content(c), c["level"]).chain()
    if not chain.count:
        raise Skip
    most = 1 << 15 if max(map(len, c["words"])) > 1000 else 1 << 14
    g = W.gen(ctx.w(c["variant"]), b"<\\m{x}>", W.r_xorshift(c["seed"]), c["n"], 0, most, True,
              [("x", content(c), c["level"])])
    need(not g.rejected, "rejected")
    for ret, e, data in g.out:
        cps = W.unpack_cps(data)
        if ret != 0:
            need(len(cps) > most - 300, "fails with %d after %d characters", ret, len(cps))
            return
        need(cps[0] == 60 and cps[-1] == 62, "not delimited")
        bits = walk(chain, cps[1:-1])
        need(bits > 1000 or abs(math.log2(e) - bits) < 1e-6, "entropy is %f bits, not %f", math.log2(e), bits)
    ctx.label("words of a file")
    ctx.label("long words", max(map(len, c["words"])) > 128)
    ctx.label("very many words", len(c["words"]) > 4096)
    ctx.label("invalid UTF-8 among the words", c["bad"])
    ctx.nontrivial(any(len(t) > 1 for t in chain.table.values()))


def stat_case(t):
    al = [97 + i for i in range(t.n(2, 5))]
    words = [["".join(chr(t.pick(al)) for _ in range(t.n(1, 5))), t.n(1, 4)] for _ in range(t.n(2, 8))]
    return {"words": words, "level": t.n(1, 3), "seed": t.n(1, 1 << 40)}


def check_stat(ctx, c):
    """Transition frequencies over many generated words."""
    lines = [w for w, k in c["words"] for _ in range(k)]
    chain = model.Words("\n".join(lines).encode(), c["level"]).chain()
    n = 1500
    g = W.gen(ctx.w("rel"), b"\\m{x}", W.r_script(b"", c["seed"]), n, 0, 1 << 14, True,
              [("x", "\n".join(lines).encode(), c["level"])])
    seen = {}
    for ret, e, data in g.out:
        if ret != 0:
            continue
        at = (0,) * c["level"]
        for cp in W.unpack_cps(data) + [0]:
            seen.setdefault(at, {}).setdefault(cp, 0)
            seen[at][cp] += 1
            at = at[1:] + (cp,)
    for at, counts in seen.items():
        t = chain.table.get(at)
        need(t is not None and set(counts) <= set(t), "unknown transition after %s", ascii(at))
        total = sum(t.values())
        p = chi2(counts, {k: v / total for k, v in t.items()})
        need(p > 1e-10, "after %s: %s, expected in the ratio %s (p=%g)", ascii(at), counts, t, p)
    ctx.label("statistics")
    ctx.nontrivial(len(seen) > 1)


def cli_case(t):
    c = file_case(t)
    c["bad"] = None
    c["words"] = [w.replace("\0", "x").replace("\n", "x") for w in c["words"]]
    c["order"] = t.pick(["before", "default", "two"])
    c["variant"] = t.pick(["dbg", "rel"])
    return c


def check_cli(ctx, c):
    """The command line's chain length applies to the wordlists that follow it."""
    path = os.path.join(ctx.scratch, "markov.txt")
    with open(path, "wb") as f:
        f.write(content(c))
    words = model.Words(content(c), c["level"])
    m = ["-M", str(c["level"])]
    if c["order"] == "default":
        words = model.Words(content(c), 3)
        args = ["-w", "x:" + path]
        pattern = "\\m{x}"
        lists = {"x": words}
    elif c["order"] == "before":
        args = m + ["-w", "x:" + path]
        pattern = "\\m{x}"
        lists = {"x": words}
    else:
        args = ["-w", "y:" + path] + m + ["--wordlist=x:" + path]
        pattern = "\\m{y}-\\m{x}"
        lists = {"x": words, "y": model.Words(content(c), 3)}
    run = model.Run(model.parse(pattern.encode()), model.xorshift_stream(c["seed"]), lists, 100)
    try:
        want = [run.output()[0] for _ in range(c["n"])]
    except model.GenFail as e:
        raise Skip(str(e))
    want = "\n".join("".join(map(chr, w)) for w in want).encode() + b"\n"
    r = cli.run(ctx, c["variant"], args + ["-r", "xorshift:%d" % c["seed"], "-a", str(c["n"]), pattern])
    need(r.code == 0 and r.out == want, "printed %s, expected %s; status %d %s", sh(r.out), sh(want), r.code,
         sh(r.err[-300:]))
    ctx.label("command line")
    ctx.nontrivial(len(set(c["words"])) > 1)


def probes(ctx):
    """Counts of 2^32 and more are a recorded finding."""
    try:
        r = ctx.w("rel").call(W.u8(12) + W.u32(0) + W.u32(1) + W.u32(97) + W.u64(1 << 32) + W.u32(1) + W.u32(97))
        total, n = r.u64(), r.u64()
        if total == 1 << 32 and n == 0:
            return ["heavy-counts: a character that follows a context 2^32 times is counted 0 times (the counts of a Markov leaf have 32 "
                    "bits, its weights and its total 64)"]
        return [] if (total, n) == (1 << 32, 1 << 32) else ["heavy-counts: a character inserted with weight 2^32 has count %d of %d" % (n, total)]
    finally:
        ctx.close()


TESTS = [
    Test("training", check_train, lambda: gens.from_tape(train_case, 10, 400), quick=14000),
    Test("big", check_train, lambda: gens.from_tape(big_case, 4, 30), quick=1500),
    Test("often", check_train, lambda: gens.from_tape(often_case, 4, 30), quick=80),
    Test("heavy leaf", check_leaf, lambda: gens.from_tape(heavy_case, 4, 60), quick=600),
    Test("leaf", check_leaf, lambda: gens.from_tape(leaf_case, 4, 200), quick=4000),
    Test("files", check_file, lambda: gens.from_tape(file_case, 10, 400), quick=8000),
    Test("large files", check_file, lambda: gens.from_tape(large_case, 10, 40), quick=160),
    Test("statistics", check_stat, lambda: gens.from_tape(stat_case, 10, 60), quick=400),
    Test("command line", check_cli, lambda: gens.from_tape(cli_case, 10, 400), quick=1200),
]

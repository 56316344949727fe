"""C02: choices are fair: weighted, uniform, independent."""
import math
from collections import Counter
from .common import *

ID = "C02"
VARIANTS = ["rel", "asan"]
P_MIN = 1e-9
RULE = ("Small generated patterns whose exact output distribution is computed by enumeration; thousands to millions of "
        "outputs are drawn from a splitmix64 stream and compared by chi-square (p < 1e-9 fails) for the outputs, for pairs of "
        "successive outputs and, for large sets, ranges, wordlists and "
        "alternatives, for quantiles and residues. Non-trivial: at least two "
        "outcomes of probability above 1/200.")


def convolve(a, b, cap):
    r = {}
    for x, p in a.items():
        for y, q in b.items():
            k = x + y
            r[k] = r.get(k, 0.0) + p * q
    if len(r) > cap:
        raise Skip("too many outcomes")
    return r


def dist_group(g, words, cap):
    total = g.total()
    if total == 0:
        raise Skip
    out = {}
    for seg in g.segs:
        if not seg.weight:
            continue
        d = {(): 1.0}
        for it in seg.items:
            d = convolve(d, dist_item(it, words, cap), cap)
        for k, p in d.items():
            out[k] = out.get(k, 0.0) + p * seg.weight / total
    if len(out) > cap:
        raise Skip("too many outcomes")
    return out


def dist_item(it, words, cap):
    if it.kind == "lit":
        one = {(it.data,): 1.0}
    elif it.kind == "set":
        members = [c for a, b in it.data for c in range(a, min(b, a + cap + 1) + 1)]
        if len(members) > cap or len(set(members)) != len(members):
            raise Skip
        one = {(c,): 1.0 / len(members) for c in members} if members else {(): 1.0}
    elif it.kind == "grp":
        one = dist_group(it.data, words, cap)
    elif it.kind == "wl":
        ws = words[it.data].words
        one = {}
        for w in ws:
            k = tuple(ord(c) for c in w.decode())
            one[k] = one.get(k, 0.0) + 1.0 / len(ws)
    else:
        raise Skip
    n = it.hi - it.lo + 1
    out = {}
    power = {(): 1.0}
    for i in range(it.hi + 1):
        if i >= it.lo:
            for k, p in power.items():
                out[k] = out.get(k, 0.0) + p / n
        if i < it.hi:
            power = convolve(power, one, cap)
    if it.maybe:
        out = {k: p / 2 for k, p in out.items()}
        out[()] = out.get((), 0.0) + 0.5
    return out


def sample(ctx, case, count):
    g = W.gen(ctx.w(case["variant"]), case["pattern"].encode(), W.r_script(b"", case["seed"]), count, 0,
              4096, False, case["wl"])
    need(not g.rejected, "rejected: %s", getattr(g, "message", ""))
    for ret, e, d in g.out:
        if ret:
            raise Violation("generation failed with %d" % ret)
    return [d for _, _, d in g.out]


def check_small(ctx, case):
    p = well_formed(case["pattern"])
    words = load_words(case["wl"])
    dist = dist_group(p.root, words, 300)
    big = [k for k, v in dist.items() if v > 1 / 200]
    if len(dist) < 2:
        raise Skip
    count = case["count"]
    outs = [W.unpack_cps(d) for d in sample(ctx, case, count)]
    outs = [tuple(o) for o in outs]
    c = Counter(outs)
    alien = [o for o in c if o not in dist]
    need(not alien, "output %s has probability zero", alien[:1])
    pv = chi2(c, dist)
    need(pv > P_MIN, "distribution of outputs is off: p=%.3g, observed %s, expected %s", pv,
         [("".join(map(chr, k)), n) for k, n in c.most_common(8)],
         [("".join(map(chr, k)), round(v * count, 1)) for k, v in
          sorted(dist.items(), key=lambda kv: -kv[1])[:8]])
    # any single outcome far off its expectation
    for k, v in dist.items():
        e = v * count
        if e > 30:
            need(abs(c.get(k, 0) - e) < 8 * math.sqrt(e) + 8, "outcome %s: %d instead of %.1f",
                 "".join(map(chr, k)), c.get(k, 0), e)
    # independence of successive outputs
    top = sorted(dist, key=lambda k: -dist[k])[:12]
    idx = {k: i for i, k in enumerate(top)}
    pd = {i: dist[k] for k, i in idx.items()}
    rest = 1.0 - sum(pd.values())
    if rest > 1e-9:
        pd[-1] = rest
    pairs = Counter(zip((idx.get(o, -1) for o in outs), (idx.get(o, -1) for o in outs[1:])))
    pv = chi2(pairs, {(a, b): x * y for a, x in pd.items() for b, y in pd.items()})
    need(pv > P_MIN, "successive outputs are not independent: p=%.3g", pv)
    features(ctx, p)
    ctx.label("weights differ", any(len({s.weight for s in g.segs if s.weight}) > 1 for g in [p.root]))
    ctx.nontrivial(len(big) >= 2)


def small_case(t):
    wl = gens.word_specs(t, 1, levels=(1,), count=6) if t.chance(1, 4) else []
    m = gens.PatternMaker(t, wl=[n for n, c, l in wl], unicode=t.chance(1, 3), maxrep=3, control=False)
    m.cset = lambda overlap=True: gens.PatternMaker.cset(m, False)
    return {"pattern": m.body(t.n(0, 2), 5), "wl": wl, "seed": t.n(0, 2**32 - 1), "count": 6000,
            "variant": t.pick(["rel", "rel", "asan"])}


def ratio_case(t):
    """One group of weighted single letters: the precise law."""
    n = t.n(2, 9)
    ws = [t.pick([1, 1, 2, 3, 4, 5, 7, 10, 13, 33, 64, 100, 999, 2**32, 2**33 + 5]) if t.chance(2, 3) else None
          for _ in range(n)]
    body = "|".join(("{%d}" % w if w is not None else "") + chr(97 + i) for i, w in enumerate(ws))
    if t.chance(1, 2):
        body = "(" + body + ")" + t.pick(["", "{2}", "?"])
    return {"pattern": body, "wl": [], "seed": t.n(0, 2**32 - 1), "count": 6000, "variant": "rel"}


def precise_case(t):
    """Few outcomes, drawn millions of times: a bias of a fraction of a percent shows."""
    k = t.n(0, 7)
    wl = []
    if k == 0:
        p = t.pick(["a?", "a?b?", "[x]?", "(a?)?", "x{2}?", "(a|b)?", "a?{1}", "(a?b?|c?)"])
    elif k == 1:
        n = t.pick([2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257])
        p = "[" + chr(0x100) + "-" + chr(0xff + n) + "]"
    elif k == 2:
        lo = t.n(0, 5)
        p = "x{%d,%d}" % (lo, lo + t.pick([1, 2, 3, 4, 6, 7, 8, 15, 16, 31, 32, 63, 64, 100]))
    elif k == 3:
        ws = [t.pick([1, 1, 2, 3, 5, 10, 100, 127, 128, 255, 256, 1000, 2**31, 2**32 - 1, 2**32, 2**40]) for _ in range(t.n(2, 6))]
        p = "|".join("{%d}%c" % (w, 97 + i) for i, w in enumerate(ws))
    elif k == 4:
        n = t.n(2, 20)
        wl = [("w", "\n".join("w%d" % i for i in range(n)).encode(), 1)]
        p = "\\w{w}"
    elif k == 5:
        p = t.pick(["[a-c][d-f]", "[ab]{3}", "(a|{2}b){2}", "[a-c]?[a-c]?", "(a{0,2}|b{1,2}){2}", "[a-e]{0,2}", "(a?|b?){2}", "a?{0,3}"])
    else:
        return dict(small_case(t), count=1200000, variant="rel")
    return {"pattern": p, "wl": wl, "seed": t.n(0, 2**32 - 1), "count": 2500000, "variant": "rel"}


def check_precise(ctx, case):
    p = well_formed(case["pattern"])
    dist = dist_group(p.root, load_words(case["wl"]), 300)
    if len(dist) < 2:
        raise Skip
    count = case["count"]
    got, pairs = W.tally(ctx.w(case["variant"]), case["pattern"].encode(), W.r_script(b"", case["seed"]), count, case["wl"])
    need(isinstance(got, list), "generation failed")
    c = {tuple(W.unpack_cps(o)): n for o, n in got}
    alien = [o for o in c if o not in dist]
    need(not alien, "output %s has probability zero", alien[:1])
    pv = chi2(c, dist)
    need(pv > P_MIN, "distribution of %d outputs is off: p=%.3g, observed %s", count, pv,
         [("".join(map(chr, k)), n, round(dist[k] * count)) for k, n in sorted(c.items(), key=lambda kv: -kv[1])[:8]])
    if len(got) <= 24:
        names = [tuple(W.unpack_cps(o)) for o, n in got]
        co = {(a, b): pairs[i][j] for i, a in enumerate(names) for j, b in enumerate(names)}
        pv = chi2(co, {(a, b): dist[a] * dist[b] for a in names for b in names})
        need(pv > P_MIN, "successive outputs are not independent: p=%.3g", pv)
        ctx.label("pairs")
    ctx.label("precise")
    ctx.nontrivial(True)


def large_case(t):
    """One choice among many: set members, repetitions, words, alternatives."""
    return {"kind": t.pick(["set", "set", "set", "repeat", "words", "words", "alts"]), "seed": t.n(0, 2**32 - 1),
            "ranges": [(t.n(0xa0, 0x10f000), t.pick([1, 2, 10, 26, 100, 255, 256, 257, 1000, 4095, 4096, 65536]))
                       for _ in range(t.n(1, 6))],
            "lo": t.n(0, 300), "width": t.n(1, 700), "n": gens.count(t, 70000), "step": t.pick([1, 1, 2, 3, 1000, 2**33])}


def check_large(ctx, case):
    wl, weights = [], None
    if case["kind"] == "repeat":
        lo, w = case["lo"], case["width"]
        pattern = "x{%d,%d}" % (lo, lo + w)
        total = w + 1
        index = lambda o: len(o) // 4 - lo
    elif case["kind"] == "words":
        total = case["n"]
        wl = [("w", "\n".join(map(str, range(total))).encode(), 1)]
        pattern = "\\w{w}"
        index = lambda o: int(o[::4])
    elif case["kind"] == "alts":
        # alternating weights; the outcome is the number written out
        total = min(case["n"], 5000)
        step = case["step"]
        weights = [step if i % 3 == 1 else 1 if step < 2000 else step // 2 for i in range(total)]
        pattern = "|".join(("{%d}" % x if x != 1 else "") + str(i) for i, x in enumerate(weights))
        index = lambda o: int(o[::4])
    else:
        rs = []
        for a, k in sorted(case["ranges"]):
            b = min(a + k - 1, 0x10ffff)
            if rs and a <= rs[-1][1]:
                continue
            if a <= 0xdfff and b >= 0xd800:
                continue
            rs.append((a, b))
        if not rs:
            raise Skip
        # written in a scrambled but fixed order
        rs = rs[1::2] + rs[::2]
        pattern = "[" + "".join(chr(a) + ("-" + chr(b) if b > a else "") for a, b in rs) + "]"
        bases, total = [], 0
        for a, b in rs:
            bases.append((a, b, total))
            total += b - a + 1

        def index(o):
            c = W.unpack_cps(o)
            need(len(c) == 1, "one character expected")
            for a, b, base in bases:
                if a <= c[0] <= b:
                    return base + c[0] - a
            raise Violation("U+%04X is not in the set" % c[0])
    if total < 2:
        raise Skip
    n = 250000 if total < 2000 else 60000
    got, _ = W.tally(ctx.w("rel"), pattern.encode(), W.r_script(b"", case["seed"]), n, wl)
    need(isinstance(got, list), "generation failed")
    try:
        idx = {index(o): c for o, c in got}
    except ValueError:
        raise Violation("not one of the choices")
    need(min(idx) >= 0 and max(idx) < total, "choice out of range")
    # one after another up to some hundred, and in quantiles and residues
    tests = [("quantiles of %d" % k, (lambda i, k=k: i * k // total), k) for k in (64, 1000) if k <= total]
    tests += [("residues of %d" % m, (lambda i, m=m: i % m), m) for m in (2, 3, 5, 16, 256) if m < total]
    if total <= 3000:
        tests.append(("each", lambda i: i, total))
    s = sum(weights) if weights else total
    for name, f, k in tests:
        co = Counter()
        for i, c in idx.items():
            co[f(i)] += c
        if name[0] == "q" or weights or name == "each":
            ex = Counter()
            if weights:
                for i in range(total):
                    ex[f(i)] += weights[i]
            else:
                # i * k // total == q  iff  ceil(q * total / k) <= i < ceil((q + 1) * total / k)
                ex = {q: -(-(q + 1) * total // k) + (-q * total // k) for q in range(k)}
            ex = {q: x / s for q, x in ex.items()}
        else:
            ex = {r: len(range(r, total, k)) / total for r in range(k)}
        pv = chi2(co, ex)
        need(pv > P_MIN, "choices among %d %s are not fair (%s): p=%.3g", total, case["kind"], name, pv)
    ctx.label(case["kind"] + (" up to 256" if total <= 256 else " larger"))
    ctx.nontrivial(True)


def refused_case(t):
    c = small_case(t)
    c["pattern"] = c["pattern"].replace("?", "")
    c["k"] = t.pick([1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 200, t.n(1, 300)])
    c["n"] = t.n(1, 6)
    return c


def check_refused(ctx, c):
    """Values that stand for no choice are drawn again, however many come: all ones stand for none."""
    p = well_formed(c["pattern"])
    if c["k"] < 10 and c["seed"] % 2:
        k = lambda i: (i * i + c["seed"]) % (c["k"] + 1)
    else:
        k = lambda i: c["k"]
    words = model.ScriptStream(b"", c["seed"]).take(8 * (400 if c["k"] < 40 else 60))
    words = [words[i:i + 8] for i in range(0, len(words), 8)]
    a = b"".join(words)
    b = b"".join(b"\xff" * (8 * k(i)) + w for i, w in enumerate(words))
    outs = []
    for data in (a, b):
        g = W.gen(ctx.w(c["variant"]), c["pattern"].encode(), W.r_script(data, c["seed"]), c["n"], 0, 4096, False, c["wl"])
        need(not g.rejected, "rejected: %s", getattr(g, "message", ""))
        outs.append([(ret, d) for ret, _, d in g.out])
    need(outs[0] == outs[1], "choices depend on values of the source that stand for no choice (%d before each that does)", c["k"])
    features(ctx, p)
    ctx.label("many refused values", c["k"] > 30)
    ctx.nontrivial(any(d for _, d in outs[0]))


TESTS = [
    Test("refused values", check_refused, lambda: gens.from_tape(refused_case, 10, 150), quick=1500),
    Test("distribution", check_small, lambda: gens.from_tape(small_case, 10, 150), quick=2600),
    Test("ratios", check_small, lambda: gens.from_tape(ratio_case, 10, 60), quick=1200),
    Test("large", check_large, lambda: gens.from_tape(large_case, 12, 60), quick=700),
    Test("precise", check_precise, lambda: gens.from_tape(precise_case, 6, 100), quick=220),
]

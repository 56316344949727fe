import math, struct
from hypothesis import strategies as st
from vlib import gens, model
from vlib import worker as W
from vlib.runner import Test, Violation, Skip

Violated = Violation


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def sh(b, n=200):
    r = repr(b)
    return r if len(r) <= n else r[:n] + "...(%d)" % len(b)


def gen_case(t, depth=3, budget=40, most_wl=2, most_gen=4, variants=("asan", "rel"), markov=True, **kw):
    variant = t.pick(variants)
    n = t.n(1, most_gen)
    wl = gens.word_specs(t, most_wl) if most_wl and t.chance(1, 3) else []
    mk = [n for n, c, l in wl] if markov else []
    prefix, seed = gens.stream(t)
    pattern = gens.pattern(t, depth, budget, wl=[n for n, c, l in wl], mk=mk, **kw)
    return {"pattern": pattern, "wl": wl, "prefix": prefix, "seed": seed, "n": n, "variant": variant}


def modified_case(t, variants=("asan", "rel")):
    wl = gens.word_specs(t, 1) if t.chance(1, 4) else []
    prefix, seed = gens.stream(t)
    return {"pattern": gens.modified(t, [n for n, c, l in wl]), "wl": wl, "prefix": prefix, "seed": seed, "n": t.n(1, 3),
            "variant": t.pick(variants)}


def modified_cases(**kw):
    return gens.from_tape(lambda t: modified_case(t, **kw), 10, 120)


# Draws at the edges of every choice: the first and last of each alternative, range of characters and
# number of repetitions, and the values right above the last, which are to be drawn again.
def edge_draw(t, cum):
    """Bytes of a stream that make one of len(cum) choices, given their cumulative weights."""
    total = cum[-1]
    mask = (1 << (total - 1).bit_length()) - 1 if total & (total - 1) else 2 * total - 1
    out = b""
    for _ in range(t.pick([0, 0, 0, 1, 2])):
        # at or above the last: drawn again
        if total <= mask:
            out += (t.pick([total, mask, min(mask, total + 1)]) | (t.n(0, 1 << 20) << mask.bit_length()) & (2**64 - 1)).to_bytes(8, "little")
    i = t.n(0, len(cum) - 1)
    low = cum[i - 1] if i else 0
    v = t.pick([low, cum[i] - 1, min(low + 1, cum[i] - 1), max(cum[i] - 2, low), (low + cum[i]) // 2])
    high = t.pick([0, 1, 2**64 - 1, 0x5555555555555555])
    return out + (v | (high << mask.bit_length()) & (2**64 - 1)).to_bytes(8, "little"), v


def edge_case(t, variants=("asan", "rasan", "rel")):
    pattern, prefix = "", edge_draw(t, [1])[0]
    weight = lambda: t.pick([1, 2, 3, 5, 255, 256, 257, 65535, 65536, 65537, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1,
                             2**40 + 7, 2**53 + 1, 2**60 - 1, 1, 7]) + t.pick([0, 0, 1])
    for _ in range(t.n(1, 6)):
        maybe = t.chance(1, 5)
        lo, hi = (0, 0) if not t.chance(1, 3) else (t.n(0, 4), 0)
        hi = lo + t.n(0, 5)
        kind = t.n(0, 2)
        body, cum, weights = "", [], None
        if kind == 0:
            weights = [weight() for _ in range(t.pick([1, 2, 3, 4, 5, 9]))]
            body = "(" + "|".join("%s%s" % ("{%d}" % w if w != 1 or t.n(0, 1) else "", chr(0x61 + i)) for i, w in enumerate(weights)) + ")"
        elif kind == 1:
            start, ranges = 0x100, []
            for _ in range(t.pick([1, 2, 3, 5, 12])):
                n = t.pick([1, 1, 2, 3, 16, 64, 255, 256, 257, 1000, 4096])
                if start + n > 0xd000:
                    break
                ranges.append((start, start + n - 1))
                start += n + t.n(0, 3)
            if t.chance(1, 4):
                ranges.append((0x10000, 0x10ffff))
            if t.chance(1, 4):
                ranges.append(ranges[0])
            weights = [b - a + 1 for a, b in ranges]
            body = "[" + "".join(chr(a) if a == b else "%s-%s" % (chr(a), chr(b)) for a, b in ranges) + "]"
        else:
            body = "([%s])" % t.pick(["xy", "x", "0-9"])
            weights = None
        if weights:
            x = 0
            for w in weights:
                x += w
                cum.append(x)
        pattern += body
        reps = 1
        if maybe:
            byte = t.pick([0, 127, 128, 255, 1, 254])
            prefix += bytes([byte])
            reps = 1 if byte & 128 == 0 else 0
        if hi or lo:
            pattern += "{%d,%d}" % (lo, hi) if hi != lo or t.n(0, 1) else "{%d}" % lo
            if reps and hi != lo:
                d, v = edge_draw(t, list(range(1, hi - lo + 2)))
                prefix += d
                reps = lo + v
            elif reps:
                reps = lo
        if maybe:
            pattern += "?"
        for _ in range(reps):
            if kind == 2:
                n = {"xy": 2, "x": 1}.get(body[2:-2], 10)
                prefix += edge_draw(t, [1])[0] + edge_draw(t, list(range(1, n + 1)))[0]
            else:
                prefix += edge_draw(t, cum)[0]
    return {"pattern": pattern, "wl": [], "prefix": prefix, "seed": t.n(0, 1 << 30), "n": t.n(1, 2), "variant": t.pick(variants)}


def edge_cases(**kw):
    return gens.from_tape(lambda t: edge_case(t, **kw), 12, 160)


def gen_cases(**kw):
    return gens.from_tape(lambda t: gen_case(t, **kw))


def load_words(wl):
    return {n: model.Words(c, l) for n, c, l in wl}


def well_formed(pattern):
    """Reference parse of a generated pattern (a str)."""
    try:
        return model.parse(pattern.encode("utf-8"))
    except model.ParseError as e:
        raise Skip(str(e))


def library_gen(ctx, case, n=None, mode=0, buflen=None, entropy=True, depth=W.NO_DEPTH, random=None,
                variant=None):
    return W.gen(ctx.w(variant or case.get("variant", "asan")), case["pattern"].encode("utf-8"),
                 random or W.r_script(case["prefix"], case["seed"]), n or case["n"], mode,
                 case.get("buflen", 1 << 16) if buflen is None else buflen,
                 entropy, case["wl"], depth)


def features(ctx, parsed):
    for f in parsed.features:
        ctx.label(f)


def bits_equal(a, b):
    return abs(a - b) <= 2e-9 + 1e-11 * abs(b)


# p-value of a chi-square statistic (upper tail), by the regularised gamma function
def chi2_p(x, k):
    if x <= 0:
        return 1.0
    a, x = k / 2.0, x / 2.0
    if x < a + 1:
        term = s = 1.0 / a
        n = a
        for _ in range(10000):
            n += 1
            term *= x / n
            s += term
            if abs(term) < abs(s) * 1e-15:
                break
        return max(0.0, 1.0 - s * math.exp(-x + a * math.log(x) - math.lgamma(a)))
    tiny = 1e-300
    b = x + 1 - a
    c = 1 / tiny
    d = 1 / b
    h = d
    for i in range(1, 10000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        if abs(d) < tiny:
            d = tiny
        c = b + an / c
        if abs(c) < tiny:
            c = tiny
        d = 1 / d
        delta = d * c
        h *= delta
        if abs(delta - 1) < 1e-14:
            break
    return math.exp(-x + a * math.log(x) - math.lgamma(a)) * h


def chi2(counts, probs):
    """counts: dict key -> n; probs: dict key -> probability (positive). p-value."""
    n = sum(counts.values())
    x = 0.0
    k = 0
    # pool tiny expectations
    pool_o = pool_e = 0.0
    for key, p in probs.items():
        e = p * n
        o = counts.get(key, 0)
        if e < 5:
            pool_o += o
            pool_e += e
            continue
        x += (o - e) ** 2 / e
        k += 1
    if pool_e >= 5:
        x += (pool_o - pool_e) ** 2 / pool_e
        k += 1
    return chi2_p(x, k - 1) if k > 1 else 1.0


def large_cases(variants=("asan", "rel"), most=3, **kw):
    """Cases described compactly; expanded() writes them out."""
    def make(t):
        prefix, seed = gens.stream(t) if t.chance(1, 4) else (b"", t.n(0, 2**32 - 1))
        return {"large": gens.large(t, **kw), "prefix": prefix, "seed": seed, "n": t.n(1, most), "variant": t.pick(variants)}
    return gens.from_tape(make, 8, 40)


def extreme_cases():
    """More than 65536 of each kind of thing, and the last ones and those around the limit chosen."""
    for seed in range(1, 13, 2):
        for d in ({"kind": "set", "n": 65537 + seed * 97, "width": 1 + seed % 3, "order": seed % 3, "reps": 3},
                  {"kind": "alts", "n": 65537 + seed, "weights": 0, "inner": 1},
                  {"kind": "words", "n": 65537 + seed, "reps": 3, "unicode": 0},
                  {"kind": "words", "n": [140000, 262150, 65600][seed % 3] + seed, "reps": 2, "unicode": 0},
                  {"kind": "items", "n": 80000 + seed, "inner": 0},
                  {"kind": "sparse", "n": [300, 70000, 5000][seed % 3], "at": 1, "zero": seed % 3, "body": ["x", "[a-c]", "(y|z)"][seed % 3], "inner": (seed >> 1) % 3},
                  {"kind": "fullset", "n": 4064 + seed * 7},
                  {"kind": "wordlen", "n": 65530 + seed, "unicode": seed % 3, "markov": 0, "level": 1},
                  {"kind": "reps", "n": 65530 + seed, "atom": ["[ab]", "(x|y)", "(x)"][seed % 3]}):
            yield {"large": dict(d, seed=seed), "prefix": b"", "seed": seed, "n": 2, "variant": "rel"}


def expanded(case):
    """The written-out case."""
    pattern, wl, prefix = gens.expand_large(case["large"])
    return dict(case, pattern=pattern, wl=wl, prefix=case["prefix"] if prefix is None else prefix, buflen=1 << 21)


def edited_large(t):
    """A large structure, mostly with something wrong somewhere."""
    return {"large": gens.large(t), "edit": t.n(0, 3), "at": t.n(0, 1000), "text": t.pick(gens.TOKENS + BAD_TEXTS),
            "variant": t.pick(["asan", "rasan", "rel"])}


BAD_TEXTS = ["{", ")", "}?", "?", "[z-a]", "[a-", "a{3,1}", "\\q", "\\u{zz}", "(", "[", "\\", "{1}{", "\\u{d800}", "|?"]


def edited(case):
    p = gens.expand_large(case["large"])[0]
    # near the end, near the start, anywhere
    i = [len(p) - case["at"] % 5, case["at"] % 5, len(p) * case["at"] // 1000, len(p)][case["at"] % 4]
    i = max(0, min(len(p), i))
    if case["edit"] == 0:
        return p
    if case["edit"] == 1:
        return p[:i]
    return p[:i] + case["text"] + p[i:]


def far_case(t, core):
    """A short text behind very much padding: compared with the same text behind a little."""
    return {"pad": t.pick(["a", "\u00e9", "\u20ac", "\U0001f600", "[b]", "(c)", "d?", "\\u{41}"]),
            "n": t.pick([32768, 65535, 65536, 131072, 262144, 10**6, 2**20 - 3, 2**20, 2**20 + 1]) + t.n(-5, 5),
            "core": core(t), "variant": t.pick(["rel", "asan", "rasan"])}


def far_results(ctx, case):
    """(rejected, codepoint, byte, message) near and far, the latter shifted back"""
    r = []
    for n in (2, max(2, case["n"] // max(1, len(case["pad"]) - 1))):
        data = (case["pad"] * n + case["core"]).encode("utf-8", "surrogatepass")
        if b"\0" in data:
            raise Skip
        g = W.gen(ctx.w(case["variant"]), data, W.r_zero(), 0)
        if g.rejected:
            r.append((g.codepoint - n * len(case["pad"]), g.byte - n * len(case["pad"].encode()), g.message))
        else:
            r.append(None)
    return r

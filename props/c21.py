"""C21: nesting limits are enforced exactly and safely."""
from .common import *

ID = "C21"
VARIANTS = ["asan", "rel", "rasan", "dbg"]
RULE = ("Patterns built to nest (deep, wide, repeated, optional, alternatives of different depth, sets and repeats inside) "
        "generated with every limit around their depth and compared with a reference interpreter that counts nesting; "
        "parsers with every limit around the depth of a pattern; nesting up to a million levels on an ordinary stack. "
        "Non-trivial: the limit is within one of the depth that the pattern or its chosen path needs.")


def nest(t, depth, width):
    """A group body whose longest path has at most depth more groups"""
    segs = []
    for _ in range(t.pick([1, 1, 1, 2, 3])):
        s = ""
        for _ in range(t.n(1, width)):
            k = t.n(0, 5)
            if k < 3 and depth > 0:
                inner = nest(t, depth - 1 - t.pick([0, 0, 0, 0, depth // 2]) if depth > 1 else 0, max(1, width - 1))
                s += "(" + inner + ")" + t.pick(["", "", "", "?", "{2}", "{0,2}", "{1,2}", "{3}?", "{0}"])
            elif k == 3:
                s += t.pick(["[a-z]", "[x]", "b{2}", "[0-9]{1,3}", "c{0,2}", "d?"])
            elif k == 4:
                s += "()"
            else:
                s += t.pick(["x", "y", "zz"])
        if t.chance(1, 6):
            s = "{%d}" % t.n(0, 3) + s
        segs.append(s)
    return "|".join(segs)




def shape(t):
    k = t.n(0, 4)
    if k == 0:
        return nest(t, t.n(0, 6), 3)
    if k == 1:  # many groups one after another
        d = t.n(0, 3)
        return ("(" * d + "a" + ")" * d) * t.n(1, 60)
    if k == 2:  # one deep path
        d = t.n(0, 40)
        return "(" * d + nest(t, t.n(0, 2), 2) + ")" * d
    if k == 3:  # repeated groups
        d = t.n(1, 4)
        return "(" * d + "[a-c]" + "){%d}" % t.n(1, 4) * d + nest(t, t.n(0, 2), 2)
    # each level has a shallow and a deep alternative
    s = "e"
    for i in range(t.n(1, 30)):
        s = "(f|%s|%s)" % (s, t.pick(["", "(g)", "{2}h", "((i))"]))
    return s


def case(t):
    prefix, seed = gens.stream(t)
    return {"pattern": shape(t), "delta": t.pick([0, -1, 1, -2, 2, -3, 1000]), "abs": t.n(0, 6) if t.chance(1, 4) else None,
            "n": t.n(1, 6), "mode": t.pick([0, 0, 1, 2, 3]), "prefix": prefix, "seed": seed, "wl": [],
            "variant": t.pick(["asan", "rel", "rasan"])}


class DepthRun(model.Run):
    def group(self, g, depth):
        self.deepest = max(self.deepest, self.depth_limit - depth + 1)
        model.Run.group(self, g, depth)


def check(ctx, c):
    p = well_formed(c["pattern"])
    # how deep do the paths of this stream go?
    run = DepthRun(p, model.ScriptStream(c["prefix"], c["seed"]), {}, 10**6, 20000)
    used = []
    for _ in range(c["n"]):
        run.deepest = 0
        try:
            run.output()
        except model.GenFail as e:
            if str(e) in ("too long", "runaway"):
                raise Skip
        used.append(run.deepest)
    limit = max(0, max(used) + c["delta"]) if c["abs"] is None else c["abs"]
    run = model.Run(p, model.ScriptStream(c["prefix"], c["seed"]), {}, limit)
    g = library_gen(ctx, c, mode=c["mode"], depth=limit)
    need(not g.rejected, "pattern is rejected")
    fails = 0
    for i, (ret, bits, data) in enumerate(g.out):
        try:
            cps, want_bits = run.output()
        except model.GenFail as e:
            fails += 1
            if c["mode"] == 0:
                need(ret != 0, "output %d is reported although it fails (%s, limit %d)", i, e, limit)
            else:
                need(ret == 0, "output %d is reported as %d units although it fails (%s, limit %d)", i, ret, e, limit)
            continue
        text = "".join(map(chr, cps))
        if c["mode"] == 0:
            need(ret == 0, "output %d fails with %d, limit %d", i, ret, limit)
        if c["mode"] < 2:
            need(W.unpack_cps(data) == cps, "output %d is %s, expected %s, limit %d", i,
                 ascii(W.unpack_cps(data)[:60]), ascii(cps[:60]), limit)
        else:
            need(data.decode("utf-8", "replace") == text, "output %d is %s, expected %s, limit %d", i, sh(data),
                 ascii(text[:60]), limit)
    ctx.label("too deep", fails)
    ctx.label("fits", fails < len(g.out))
    ctx.label("fits exactly", limit in used)
    ctx.nontrivial(any(abs(limit - u) <= 1 for u in used))


# ------------------------------------------------------------------------- parser
def parser_case(t):
    k = t.n(0, 2)
    if k == 0:
        text = shape(t)
    elif k == 1:
        text = gens.pattern(t, 5, 40)
    else:
        d = t.n(0, 60)
        text = "(" * d + t.pick(["a", "[a-z]", "b{2}", "c{1,2}", "", "{2}d", "\\w{a}", "[]"]) + ")" * t.pick([d, d, max(0, d - 1)])
    prefix, seed = gens.stream(t)
    return {"text": text, "delta": t.pick([0, 1, -1, 2, -2, 5]), "abs": t.n(1, 8) if t.chance(1, 3) else None,
            "split": t.n(0, 5), "prefix": prefix, "seed": seed, "variant": t.pick(["asan", "rel"])}


def parse_limited(text, limit):
    raw = text.encode("utf-8")
    try:
        return model.parse(raw, limit)
    except model.ParseError as e:
        return e


def check_parser(ctx, c):
    text = c["text"]
    free = parse_limited(text, 0)
    if getattr(free, "contested", False):
        raise Skip("contested")
    deep = getattr(free, "depth", 3)
    limit = max(1, deep + c["delta"]) if c["abs"] is None else c["abs"]
    want = parse_limited(text, limit)
    if "\\" in text:
        chunks = [text]
    else:
        n = len(text)
        cut = sorted({i * n // (c["split"] + 1) for i in range(c["split"] + 2)})
        chunks = [text[a:b] for a, b in zip(cut, cut[1:])] or [""]
    r = ctx.w(c["variant"]).call(
        W.u8(16) + W.u32(limit) + W.u32(len(chunks)) + b"".join(W.cps([ord(x) for x in s]) for s in chunks) +
        W.r_script(c["prefix"], c["seed"]) + W.u32(1))
    ret, fin = r.i32(), r.i32()
    bad = isinstance(want, model.ParseError)
    if bad:
        need(ret != 0 or fin != 0, "a parser with limit %d accepts a pattern that %s", limit,
             "nests %d deep" % deep if not isinstance(free, model.ParseError) else "is malformed")
    else:
        need(ret == 0 and fin == 0, "a parser with limit %d rejects a pattern that nests only %d deep (%d, %d)", limit,
             want.depth, ret, fin)
        gret, bits, data = r.i64(), r.f64(), r.blob()
        try:
            cps, _ = model.Run(want, model.ScriptStream(c["prefix"], c["seed"]), {}, 1024).output()
        except model.GenFail:
            need(gret != 0, "generation succeeds")
        else:
            need(gret == 0 and W.unpack_cps(data) == cps, "output %s (%d), expected %s", ascii(W.unpack_cps(data)[:60]),
                 gret, ascii(cps[:60]))
    r.end()
    ctx.label("limit rejects", bad and not isinstance(free, model.ParseError))
    ctx.label("limit allows", not bad)
    ctx.nontrivial(abs(limit - deep) <= 1)


# ----------------------------------------------------------------------- extremes
def extremes():
    for variant in ("asan", "rel", "rasan", "dbg"):
        for shape_ in range(9):
            for d in (1000, 1022, 1023, 1024, 1025, 4000, 4093, 4094, 4095, 4096, 4097, 20000, 200000, 1000000):
                if d == 1000000 and shape_ > 1:
                    continue
                for limit in (None, d, d + 1, d + 2):
                    if limit is not None and d > 4100:
                        continue
                    yield {"variant": variant, "shape": shape_, "d": d, "limit": limit}


def check_extreme(ctx, c):
    d, k = c["d"], c["shape"]
    after = ""
    if k == 0:
        text, out = "(" * d + "a" + ")" * d, "a"
    elif k == 1:
        text, out = "(" * d, None            # never closed
    elif k == 2:
        text, out = "(" * d + "a" + "){1}" * d, "a"
    elif k == 3:
        text, out = "x(" * d + "a" + ")y" * d, "x" * d + "a" + "y" * d
    elif k == 4:
        text, out = "({0}z|" * d + "[b]" + "|{0})" * d, "b"
    elif k == 5:                             # deep group never chosen: no limit applies while generating
        text, out = "q|{0}" + "(" * d + "a" + ")" * d, "q"
    elif k == 7:                             # many groups before the deep one
        text, out = "(a)" * 300 + "(" * d + "b" + ")" * d, "a" * 300 + "b"
    elif k == 8:                             # the deep group many times
        text, out = "(" * d + "a" + ")" * (d - 1) + "){5}", "a" * 5
    else:                                    # an error deep inside
        text, out = "(" * d + "a{2,1}" + ")" * d, None
    prefix = b""
    g = W.gen(ctx.w(c["variant"], 60), text.encode(), W.r_script(prefix, 5), 2, 0, 1 << 16, True, [],
              W.NO_DEPTH if c["limit"] is None else c["limit"])
    limit = 1024 if c["limit"] is None else c["limit"]
    if out is None:
        need(g.rejected, "a malformed pattern is accepted")
        need(g.live == 0, "%d allocations left after a failed parse", g.live)
    elif d <= 4090:
        need(not g.rejected, "nesting of %d is rejected", d)
    if not g.rejected:
        for ret, bits, data in g.out:
            got = "".join(map(chr, W.unpack_cps(data)))
            if d + 1 <= limit or k == 5 and limit >= 1:
                need(ret == 0 and got == out, "%d levels fail with limit %d (%d, %s)", d, limit, ret, got[:20])
            else:
                need(ret != 0, "%d levels succeed with limit %d", d, limit)
    ctx.label("deeper than the parser accepts", g.rejected)
    ctx.label("generated", not g.rejected)
    ctx.nontrivial()


def far_limits():
    for bits in range(10, 65):
        for more in (-1, 0, 1):
            if bits < 64 or more < 0:
                for d in (0, 1, 900, 1020) + ((4000,) if bits > 12 else ()):
                    yield {"variant": ("asan", "rel", "rasan", "dbg")[(bits + d) % 4], "bits": bits, "more": more, "d": d}


def check_far_limit(ctx, c):
    """Limits far beyond the nesting, up to the largest there is."""
    d = c["d"]
    g = W.gen(ctx.w(c["variant"]), (b"(" * d + b"a" + b")" * d) * 2, W.r_zero(), 2, 0, 1 << 16, True, [],
              W.far_depth(c["bits"], c["more"]))
    need(not g.rejected, "nesting of %d is rejected", d)
    for ret, bits, data in g.out:
        need(ret == 0 and W.unpack_cps(data) == [97, 97], "%d levels fail with limit 2^%d%+d", d, c["bits"], c["more"])
    ctx.nontrivial()


TESTS = [
    Test("far limits", check_far_limit, cases=far_limits, exhaustive=True),
    Test("extremes", check_extreme, cases=extremes, exhaustive=True),
    Test("generation", check, lambda: gens.from_tape(case, 6, 200), quick=7000),
    Test("parser", check_parser, lambda: gens.from_tape(parser_case, 6, 120), quick=7000),
]

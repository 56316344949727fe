"""C13: no random byte is ever delivered twice, invented or left stale."""
import collections
from .common import *
from . import rnd

ID = "C13"
VARIANTS = ["asan", "rel", "rasan"]
RULE = ("Histories of up to 40 reads of every kind and size (around the 1024 byte buffer, exactly to its end, above it), "
        "reloads and bounded draws on a scripted and on a file source, compared with a buffered-source model, and "
        "histories over a source that never repeats a block judged without a model (every delivered byte located in "
        "the source, none twice). Non-trivial: at least one refill, direct read or reload.")


def case(t):
    prefix, seed = gens.stream(t)
    return {"ops": rnd.history(t, 40), "prefix": prefix, "seed": seed, "heap": t.n(0, 1),
            "variant": t.pick(["asan", "rel", "rasan"])}


def check(ctx, c):
    ops = rnd.concrete(c["ops"])
    got = rnd.run_ops(ctx.w(c["variant"]), W.r_script(c["prefix"], c["seed"]), ops, c["heap"])
    rnd.compare(ctx, got, lambda: model.TakeSource(model.ScriptStream(c["prefix"], c["seed"])), ops)


def check_file(ctx, c):
    ops = [(o, a) for o, a in rnd.concrete(c["ops"])]
    data = model.ScriptStream(c["prefix"], c["seed"]).take(60000)
    # bounded draws can take long to be accepted: let the model tell how much is read
    for eager in (True, False):
        s = model.BytesStream(data)
        try:
            m = model.RandomModel(model.TakeSource(s), eager)
            for o, a in ops:
                m.op(o, a)
        except (model.GenFail, IndexError, EOFError, ValueError) as e:
            raise Skip(str(e))
        if s.pos + 2048 > len(data):
            raise Skip
    got = rnd.run_ops(ctx.w(c["variant"]), W.r_file(data), ops, c["heap"])
    rnd.compare(ctx, got, lambda: model.TakeSource(model.BytesStream(data)), ops)
    ctx.label("file")


def case_exact(t):
    return {"sizes": [max(0, rnd.read_size(t)) for _ in range(t.n(1, 30))], "seed": t.n(0, 2**32 - 1),
            "reload": [t.n(0, 40) for _ in range(t.n(0, 3))], "variant": t.pick(["asan", "rel"])}


def check_exact(ctx, c):
    """Without a model: the source is a sequence of distinct 8-byte blocks, so
    every delivered byte run can be located in it."""
    ops = []
    for i, n in enumerate(c["sizes"]):
        if i in c["reload"]:
            ops.append((10, 0))
        # whole blocks, so that each run starts on a block boundary
        ops.append((0, (n + 7) // 8 * 8))
    total = sum(a for o, a in ops)
    # positions are the values: a script that counts
    script = b"".join(i.to_bytes(8, "little") for i in range(total // 8 + 130 * (len(ops) + 8)))
    got = rnd.run_ops(ctx.w(c["variant"]), W.r_script(script, 1), ops, True)
    need(got is not None, "not opened")
    seen = set()
    last_small = -1
    reloaded = False
    for (o, a), b in zip(ops, got):
        if o == 10:
            reloaded = True
            continue
        need(len(b) == a, "read of %d gave %d bytes", a, len(b))
        ids = [int.from_bytes(b[i:i + 8], "little") for i in range(0, a, 8)]
        for v in ids:
            need(v < len(script) // 8, "bytes the source did not produce: %x", v)
            need(v not in seen, "bytes %d.. of the source delivered twice", v * 8)
            seen.add(v)
        if a and a <= 1024:
            need(all(y > x for x, y in zip(ids, ids[1:])) and ids[0] > last_small, "delivered out of order: %s",
                 ids[:20])
            last_small = ids[-1]
        elif a:
            need(all(y == x + 1 for x, y in zip(ids, ids[1:])), "a large read is not contiguous")
    # with neither reloads nor large reads there are no gaps
    if not reloaded and all(a <= 1024 for o, a in ops):
        need(sorted(seen) == list(range(len(seen))), "gap in the delivered bytes")
        ctx.label("gapless")
    elif not reloaded:
        small = sorted(v for (o, a), b in zip(ops, got) if o == 0 and a <= 1024
                       for v in [int.from_bytes(b[i:i + 8], "little") for i in range(0, a, 8)])
        large = {v for (o, a), b in zip(ops, got) if o == 0 and a > 1024
                 for v in [int.from_bytes(b[i:i + 8], "little") for i in range(0, a, 8)]}
        miss = set(range(small[-1] + 1)) - set(small) - large if small else set()
        need(not miss, "bytes %s of the source skipped by small reads", sorted(miss)[:5])
    ctx.label("reload", reloaded)
    ctx.nontrivial(total > 1024)


def case_split(t):
    return {"total": t.n(1, 6000), "cuts": [t.n(0, 1 << 16) for _ in range(t.n(0, 30))], "seed": t.n(0, 2**32 - 1),
            "variant": t.pick(["asan", "rel"])}


def check_split(ctx, c):
    """Metamorphic: however a length is cut into requests, the same bytes come."""
    cuts = sorted({x % c["total"] for x in c["cuts"]} | set(range(1024, c["total"], 1024)) | {0, c["total"]})
    sizes = [b - a for a, b in zip(cuts, cuts[1:])]
    w = ctx.w(c["variant"])
    spec = W.r_script(b"", c["seed"])
    a = b"".join(rnd.run_ops(w, spec, [(0, n) for n in sizes], True))
    b = bytes(rnd.run_ops(w, spec, [(1, 0)] * c["total"], True))
    need(a == b, "reads of %s differ from the same number of single bytes", sizes)
    need(a == model.ScriptStream(b"", c["seed"]).take(c["total"]), "bytes differ from those of the source")
    ctx.nontrivial(c["total"] > 1024 and len(sizes) > 2)


TESTS = [
    Test("histories", check, lambda: gens.from_tape(case, 10, 400), quick=16000),
    Test("locate", check_exact, lambda: gens.from_tape(case_exact, 10, 200), quick=8000),
    Test("file", check_file, lambda: gens.from_tape(case, 10, 400), quick=6000),
    Test("split", check_split, lambda: gens.from_tape(case_split, 4, 100), quick=4000),
]

"""C20: stack and array containers never lose or corrupt elements."""
import functools, random
from .common import *

ID = "C20"
VARIANTS = ["asan", "rel"]
RULE = ("Histories of pushes (copying and in-place), pops (with and without destination), positional reads, top reads "
        "and iterations on stacks of every element size from 1 to 200 and on arrays of every initial capacity, growing "
        "and shrinking over bin boundaries, compared after each operation with a list; contents are read back in full. "
        "Non-trivial: at least one element is popped and the container grew past its first allocation.")

PUSH, PUSH_NULL, POP, GET, TOP, EACH = range(6)


@functools.lru_cache(None)
def places(esize):
    return int.from_bytes(bytes(j // 4 & 255 for j in range(esize)), "little")


def element(arg, esize):
    word = (arg & 0xffffffff).to_bytes(4, "little")
    return (int.from_bytes((word * (esize // 4 + 1))[:esize], "little") ^ places(esize)).to_bytes(esize, "little")


def sizes(t, most, base):
    """A walk of lengths, which dwells at powers of two and bin boundaries"""
    ops = []
    n = 0
    while not t.done() and len(ops) < most:
        k = t.n(0, 3)
        if k == 0:
            to = t.n(0, 6)
        elif k == 1:
            to = max(0, t.pick([4, 8, 16, 32, 33, 64, 65, 96, 128, 129]) + t.n(0, 4) - 2)
        elif k == 2:
            to = max(0, 32 * t.n(0, 10) + t.n(0, 2) - 1)
        else:
            to = t.n(0, 300)
        to = min(to, n + most - len(ops))
        ops.append(to)
        n = to
        if len(ops) > 14:
            break
    return ops or [base]


def stack_case(t):
    esize = t.pick([1, 2, 3, 4, 7, 8, 12, 16, 24, 31, 32, 33, 64, 100, 2047, 2048, 2049, 5000]) if t.chance(3, 4) else t.n(1, 200)
    # the details of long histories would exhaust the tape
    rng = random.Random(t.n(0, 2**32 - 1))
    often = t.pick([0.0, 0.03, 0.03, 0.2])
    ops, n = [], 0

    def look():
        k = rng.randrange(5)
        if k == 0:
            ops.append((TOP, 0))
        elif k == 1:
            ops.append((EACH, 0))
        elif k == 2:
            ops.append((GET, rng.randrange(n + 3)))
        elif k == 3:
            ops.append((GET, rng.choice([0, max(0, n - 1), n, n + 31, 2**31, 2**32 - 1])))
        else:
            ops.extend((GET, i) for i in range(0, n, 1 + rng.randrange(7)))
    for to in sizes(t, 700 if esize < 300 else 150, 3):
        while n < to:
            ops.append((PUSH_NULL if rng.random() < .33 else PUSH, rng.getrandbits(32) if rng.random() < .25 else
                        (n * 2654435761 + len(ops)) % 2**32))
            n += 1
            if rng.random() < often:
                look()
        while n > to:
            ops.append((POP, rng.randrange(2)))
            n -= 1
            if rng.random() < often:
                look()
        if to == 0 and t.chance(1, 2):
            ops += [(POP, t.n(0, 1))] * t.n(1, 2)
        look()
        if rng.random() < .5:
            ops.append((EACH, 0))
    if t.chance(1, 2):
        ops += [(GET, i) for i in range(n + 1)]
    return {"esize": esize, "ops": ops, "variant": t.pick(["asan", "asan", "rel"])}


def check_stack(ctx, c):
    es, ops = c["esize"], c["ops"]
    r = ctx.w(c["variant"]).call(W.u8(9) + W.u32(es) + W.u32(len(ops)) + b"".join(W.u8(o) + W.u32(a) for o, a in ops))
    held, popped, most = [], 0, 0
    for i, (op, arg) in enumerate(ops):
        where = "operation %d of %d" % (i, len(ops))
        if op in (PUSH, PUSH_NULL):
            held.append(element(arg, es))
            most = max(most, len(held))
            need(r.u8() == 1, "%s: the address returned by push is not the top of the stack", where)
        elif op == POP:
            how, data = r.u8(), r.blob()
            want = held.pop() if held else None
            if want is None:
                need(how == 0 and data == b"\xa5" * es, "%s: popping the empty stack has an effect (%d, %s)", where, how,
                     sh(data))
            elif arg:
                need(how == 1 and data == want, "%s: popped %s (returned %d), pushed %s", where, sh(data), how, sh(want))
            else:
                need(data == b"\xa5" * es, "%s: pop wrote without destination", where)
            popped += want is not None
        elif op == GET:
            there = r.u8()
            need(there == (arg < len(held)), "%s: reading position %d of %d %s", where, arg, len(held),
                 "succeeds" if there else "fails")
            if there:
                data = r.blob()
                need(data == held[arg], "%s: position %d of %d holds %s, pushed %s", where, arg, len(held), sh(data),
                     sh(held[arg]))
        elif op == TOP:
            there = r.u8()
            need(there == (len(held) > 0), "%s: top of %d elements is %d", where, len(held), there)
            if there:
                data = r.blob()
                need(data == held[-1], "%s: top is %s, pushed %s", where, sh(data), sh(held[-1]))
        else:
            ok, n = r.u8(), r.u64()
            need(ok and n == len(held), "%s: iteration over %d elements visits %d, %s", where, len(held), n,
                 "in order" if ok else "not in order")
        n = r.u64()
        need(n == len(held), "%s: length %d, model %d", where, n, len(held))
    live = r.i64()
    need(live == 0, "%d allocations are live after freeing the stack", live)
    r.end()
    ctx.label("over one bin", most > 32)
    ctx.label("over four bins", most > 128)
    ctx.nontrivial(popped and most > 4)


def array_case(t):
    cap = t.pick([0, 0, 1, 2, 3, 4, 5, 8, 100]) if t.chance(3, 4) else t.n(0, 300)
    ops, n = [], 0
    for to in sizes(t, 900, 3):
        to = to if to < 250 else to * t.n(1, 4)
        while n < to:
            ops.append((0, t.u64() if t.chance(1, 4) else len(ops) * 0x9E3779B97F4A7C15 % 2**64))
            n += 1
        while n > to:
            ops.append((1, 0))
            n -= 1
        if n == 0 and t.chance(1, 2):
            ops.append((1, 0))
        if n:
            k = t.n(0, 2)
            ops += [(2, t.n(0, n - 1))] if k == 0 else [(2, n - 1), (2, 0)] if k == 1 else \
                [(2, i) for i in range(0, n, 1 + t.n(0, 4))]
    return {"cap": cap, "ops": ops, "variant": t.pick(["asan", "asan", "rel"])}


def check_array(ctx, c):
    ops = c["ops"]
    r = ctx.w(c["variant"]).call(W.u8(10) + W.u32(c["cap"]) + W.u32(len(ops)) +
                                 b"".join(W.u8(o) + W.u64(a) for o, a in ops))
    held, popped, most = [], 0, 0
    for i, (op, arg) in enumerate(ops):
        where = "operation %d of %d" % (i, len(ops))
        got = r.u64()
        if op == 0:
            held.append(arg)
            most = max(most, len(held))
        elif op == 1:
            want = held.pop() if held else 0
            popped += 1
            need(got == want, "%s: popped %x, pushed %x", where, got, want)
        else:
            need(got == held[arg], "%s: position %d of %d holds %x, pushed %x", where, arg, len(held), got, held[arg])
        n = r.u64()
        need(n == len(held), "%s: %d items, model %d", where, n, len(held))
    live = r.i64()
    need(live == 0, "%d allocations are live after freeing the array", live)
    r.end()
    ctx.label("array")
    ctx.nontrivial(popped and most > max(4, c["cap"]))


def grid():
    """Grow to n, shrink to m, grow to n again, for every n and m over two bins, few sizes"""
    for es in (1, 8, 24, 40):
        for n in list(range(0, 70)) + [127, 128, 129, 160, 161]:
            for m in sorted({0, 1, 2, 3, 4, 5, 31, 32, 33, 64, n - 1, n // 2} - {-1}):
                if m > n:
                    continue
                ops = [(PUSH if i % 3 else PUSH_NULL, i * 77777) for i in range(n)]
                ops += [(POP, i & 1) for i in range(n - m)]
                ops += [(PUSH, (i + 1) * 99991) for i in range(n - m)]
                ops += [(GET, i) for i in range(n + 1)] + [(EACH, 0), (TOP, 0)]
                yield {"esize": es, "ops": ops, "variant": "asan"}


def huge_case(t):
    return {"esize": t.pick([1, 4, 8, 24]), "n": t.pick([1000, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 200000, t.n(300, 140000)]),
            "seed": t.n(0, 2**32 - 1), "walks": t.n(0, 3), "variant": t.pick(["asan", "rel"])}


def huge_ops(c, push, pop, read):
    rng = random.Random(c["seed"])
    ops, n = [], 0
    for to in [c["n"]] + [rng.randrange(c["n"] + 1) for _ in range(c["walks"])]:
        ops += [push(i) for i in range(n, to)]
        ops += [pop(i) for i in range(n - to)]
        n = to
        ops += read(n, rng)
    return ops


def check_huge(ctx, c):
    ops = huge_ops(c, lambda i: (PUSH if i % 3 else PUSH_NULL, i * 2654435761 % 2**32), lambda i: (POP, i & 1),
                   lambda n, rng: [(EACH, 0), (TOP, 0)] + [(GET, rng.randrange(n + 1)) for _ in range(200)] +
                   [(GET, x) for x in (0, 31, 32, 255, 256, n // 2, n - 1, n) if x >= 0])
    check_stack(ctx, dict(c, ops=ops))
    ctx.label("more than 65536 elements", c["n"] > 65536)


def check_huge_array(ctx, c):
    ops = huge_ops(c, lambda i: (0, i * 0x9E3779B97F4A7C15 % 2**64), lambda i: (1, 0),
                   lambda n, rng: [(2, rng.randrange(n)) for _ in range(200 if n else 0)] + [(2, x) for x in (0, n // 2, n - 1) if 0 <= x < n])
    check_array(ctx, dict(c, ops=ops, cap=c["seed"] % 3))


TESTS = [
    Test("huge stack", check_huge, lambda: gens.from_tape(huge_case, 4, 30), quick=60),
    Test("huge array", check_huge_array, lambda: gens.from_tape(huge_case, 4, 30), quick=40),
    Test("grow-shrink", check_stack, cases=grid, exhaustive=True),
    Test("stack", check_stack, lambda: gens.from_tape(stack_case, 10, 500), quick=5000),
    Test("array", check_array, lambda: gens.from_tape(array_case, 4, 200), quick=4000),
]

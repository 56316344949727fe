"""C19: the hash map behaves as a map over every history."""
from vlib.worker import Crash
from .common import *

ID = "C19"
VARIANTS = ["asan", "rel"]
RULE = ("Histories of up to several hundred insertions, replacements, removals, lookups, in-place updates and full or "
        "stopped iterations over generated keys (equal contents at different addresses, common prefixes, long, empty, "
        "numbered; byte and wide strings; default context; contexts of the caller with binary keys, another equality and weak hashes), after every operation compared with a dictionary: returned "
        "entry, addresses, values, size. Non-trivial: an entry is replaced or removed, or the table grows twice.")


def key(t, wide):
    k = t.n(0, 8)
    if k == 0:
        s = ""
    elif k == 8:
        # differ at the start, at the end or in the middle only
        n = t.pick([7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 600]) + t.n(0, 1)
        x = str(t.n(0, 9))
        s = t.pick(["p" * n + x, x + "p" * n, "p" * n + x + "q" * n])
    elif k == 1:
        s = "k%d" % t.n(0, 500)
    elif k == 2:
        s = t.pick(["a", "b", "aa", "ab", "ba", "abc", "ABC"])
    elif k == 3:
        s = t.pick(["a", "prefix", "x"]) * t.n(1, 40)
    elif k == 4:
        s = "common-prefix-" * t.n(1, 8) + str(t.n(0, 9))
    elif k == 5:
        s = str(t.n(0, 9)) + "-common-suffix" * t.n(1, 5)
    elif k == 6:
        s = "".join(chr(gens.scalar(t) or 1) for _ in range(t.n(1, 6)))
    else:
        s = "".join(chr(t.n(33, 126)) for _ in range(t.n(1, 12)))
    return s


def hashed(s):
    """What of a wide key takes part in its hash (a recorded finding)."""
    return s.encode("utf-32-le")[:len(s)]


def usable(keys, wide):
    """Leaves out wide keys of which three hash alike: see KNOWN_FINDINGS."""
    if wide != 1:
        return keys
    groups, out, seen = {}, [], set()
    for s in keys:
        g = groups.setdefault((len(s), hashed(s)), set())
        if s not in g and len(g) >= 2:
            continue
        g.add(s)
        out.append(s)
    return out


def case(t):
    wide = t.pick([0, 0, 1, 2, 3, 4])
    keys = [key(t, wide) for _ in range(t.n(1, 30))]
    if wide >= 3:
        keys = [x.replace("a", "\0") if t.chance(1, 3) else x.upper() if t.chance(1, 3) else x for x in keys]
    if t.chance(1, 3):
        keys += [t.pick(keys) for _ in range(t.n(1, 4))]
    if t.chance(1, 4):
        keys += ["n%d" % i for i in range(t.pick([10, 40, 200]))]
    keys = usable(keys, wide)
    ops = []
    style = t.n(0, 3)
    for i in range(t.n(1, 90)):
        k = t.n(0, 11)
        j = t.n(0, len(keys) - 1)
        if style == 1:
            j = i % len(keys)
        if k < 5:
            ops.append((0, j, t.n(0, 1 << 40)))
        elif k < 7:
            ops.append((1, j, 0))
        elif k < 9:
            ops.append((2, j, 0))
        elif k == 9:
            ops.append((3, t.pick([0, 1, 2, 5, 1 << 30, 1 << 30]), t.pick([77, 1, 0x7fffffff, 0xffffffff, 0x80000000])))
        elif k == 10:
            ops.append((4, j, t.n(0, 1 << 40)))
        else:
            ops += [(1, x, 0) for x in range(0, len(keys), 1 + t.n(0, 2))] if t.chance(1, 4) else [(2, j, 0)]
    if style >= 2:
        # all keys in first, so that the table is full and has grown
        ops = [(0, x, x + 1) for x in range(len(keys))] + ops
    ops.append((3, 1 << 30, 0))
    ops += [(2, x, 0) for x in range(min(len(keys), 40))]
    return {"wide": wide, "keys": keys, "ops": ops, "variant": t.pick(["asan", "rel"])}


def run(w, wide, keys, ops):
    enc = [k.encode("utf-32-le") if wide == 1 else k.encode("utf-8") for k in keys]
    return w.call(W.u8(8) + W.u8(wide) + W.u32(len(keys)) + b"".join(map(W.blob, enc)) + W.u32(len(ops)) +
                  b"".join(W.u8(o) + W.u32(k) + W.u64(v) for o, k, v in ((o, k, v or 77 if o == 3 else v) for o, k, v in ops)))


def check(ctx, c):
    keys = c["keys"]
    # what the context compares: bytes without regard to the case of letters, or contents
    ident = [x.encode().lower() if c["wide"] >= 3 else x for x in keys]
    r = run(ctx.w(c["variant"], 10), c["wide"], keys, c["ops"])
    addr = [r.u64() for _ in keys]
    held = {}  # content -> (address, value)
    replaced = removed = 0
    most = 0
    for i, (op, k, v) in enumerate(c["ops"]):
        where = "operation %d of %d" % (i, len(c["ops"]))
        if op == 0:
            got = (r.u64(), r.u64())
            want = held.get(ident[k], (0, 0))
            need(got == want, "%s: inserting %s returned (%x, %d), previous entry is (%x, %d)", where, ascii(keys[k]),
                 *(got + want))
            replaced += ident[k] in held
            held[ident[k]] = (addr[k], v)
        elif op == 1:
            got = (r.u64(), r.u64())
            want = held.pop(ident[k], (0, 0))
            need(got == want, "%s: removing %s returned (%x, %d), its entry is (%x, %d)", where, ascii(keys[k]),
                 *(got + want))
            removed += want[0] != 0
        elif op == 2:
            there, got = r.u8(), (r.u64(), r.u64())
            need(there == (ident[k] in held), "%s: looking up %s finds %d entries", where, ascii(keys[k]), there)
            need(not there or got == held[ident[k]], "%s: looking up %s gives (%x, %d), not (%x, %d)", where,
                 ascii(keys[k]), *(got + held.get(ident[k], (0, 0))))
        elif op == 3:
            got = []
            while r.u8():
                x, a = r.u64(), r.u64()
                got.append((a, x))
            ret = r.i32()
            need(len(set(a for a, _ in got)) == len(got), "%s: iteration visits an entry twice", where)
            if len(held) > k:
                stop = (v or 77) - ((v >> 31) << 32)
                need(ret == stop and len(got) == k + 1, "%s: iteration stopped with %d visits %d and returns %d", where,
                     stop, len(got), ret)
                need(set(got) <= set(held.values()), "%s: iteration visits other entries", where)
            else:
                need(ret == 0 and sorted(got) == sorted(held.values()), "%s: iteration visits %s, returns %d, held %s",
                     where, got[:9], ret, sorted(held.values())[:9])
        else:
            there = r.u8()
            need(there == (ident[k] in held), "%s: looking up %s finds %d entries", where, ascii(keys[k]), there)
            if there:
                held[ident[k]] = (held[ident[k]][0], v)
        n = r.u64()
        need(n == len(held), "%s: recorded size %d, entries %d", where, n, len(held))
        most = max(most, n)
    need(r.u8() == 1, "the freed map is not cleared")
    if c["wide"] >= 3:
        for what, times in ("initialised", 1), ("released", 1), ("called for another map", 0), ("called before it was initialised or after its release", 0):
            n = r.u32()
            need(n == times, "the context is %s %d times", what, n)
    r.end()
    ctx.label(["byte keys", "wide keys", "default keys", "own context", "own weak context"][c["wide"]])
    ctx.label("replaced", replaced)
    ctx.label("removed", removed)
    ctx.label("over 30 entries", most > 30)
    ctx.label("over 150 entries", most > 150)
    ctx.nontrivial(replaced or removed or most > 30)


def big_case(t):
    import random
    rng = random.Random(t.n(0, 1 << 40))
    wide = t.pick([0, 1, 3, 4])
    n = t.pick([100, 500, 1000, 2000])
    kind = t.n(0, 4)
    long = "-" * t.pick([60, 255, 300])
    keys = [["%d" % i, "key-%06d" % i, "a" * (i % 7) + chr(0x100 + i), "%x" % rng.getrandbits(64), long + "%d" % i][kind] for i in range(n)]
    keys = usable(keys, wide)
    n = len(keys)
    ops = []
    for _ in range(3 * n):
        k = rng.randrange(n)
        x = rng.random()
        ops.append((0, k, rng.getrandbits(40) if rng.random() < .9 else 0) if x < .5 else (1, k, 0) if x < .7 else (2, k, 0))
    ops += [(3, 1 << 30, 0)] + [(2, k, 0) for k in range(n)]
    return {"wide": wide, "keys": keys, "ops": ops, "variant": t.pick(["asan", "rel"])}


def huge_case(t):
    return {"own": t.n(0, 1), "n": t.pick([20011, 65537, 131074, 200001, 250007]) + t.n(0, 99), "rounds": t.n(1, 3), "seed": t.n(0, 1 << 60)}


def huge_check(ctx, c):
    """Hundreds of thousands of entries, past the last of the listed sizes."""
    r = ctx.w("rel", 60, 3000).call(W.u8(33) + W.u8(c["own"]) + W.u32(c["n"]) + W.u32(c["rounds"]) + W.u64(c["seed"]))
    held, n, seen, odd, missing, bad, cap = r.u64(), r.u64(), r.u32(), r.u32(), r.u64(), r.u64(), r.u64()
    r.end()
    need(bad == 0, "%d of %d operations on a map of %d entries answered otherwise than a dictionary", bad, c["n"] * c["rounds"], held)
    need(n == held and seen == held and odd == 0, "a map of %d entries has a recorded size of %d, iteration visits %d, %d of them otherwise",
         held, n, seen, odd)
    need(missing == 0, "%d of %d keys looked up otherwise", missing, c["n"])
    ctx.label("hundreds of thousands of entries")
    ctx.label("past the listed sizes", cap > 701819)
    ctx.nontrivial()


def probes(ctx):
    out = []
    try:
        w = ctx.w("rel", 5, 512)
        ops = [(0, 0, 1), (0, 1, 2), (0, 2, 3)]
        try:
            r = run(w, 1, ["ab", "ac", "ad"], ops)
            for _ in range(3):
                r.u64()
            [r.u64() for _ in range(9)]
        except Crash as e:
            out.append("wide-keys-alike: inserting the wide keys 'ab', 'ac', 'ad' never ends (utf32_hash reads as many "
                       "bytes as the key has codepoints)")
    finally:
        ctx.close()
    return out


TESTS = [
    Test("histories", check, lambda: gens.from_tape(case, 10, 600), quick=9000),
    Test("huge", huge_check, lambda: gens.from_tape(huge_case, 4, 6), quick=8),
    Test("large", check, lambda: gens.from_tape(big_case, 2, 12), quick=120),
]

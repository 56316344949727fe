"""C27: objects are independent and reusable: no hidden shared state."""
import os, re
from .common import *
from . import rnd

ID = "C27"
VARIANTS = ["asan", "rel", "tsan"]
RULE = ("Histories of up to 40 operations on three slots each of patterns, incremental parsers, environments with wordlists "
        "and randomness sources: create, replace, free, feed, finish, read, seek, generate in any form and generate while "
        "another generation is running. What each source delivers and each generation yields is compared with the same "
        "object's operations run alone, in another process and build, with every pattern and environment fresh. Threads: "
        "up to eight independent jobs at once against the same jobs in turn, under the thread sanitizer too. Non-trivial: "
        "at least two generations with different objects, or three threads.")
SLOTS = 3


def source(t):
    k = t.n(0, 5)
    if k <= 1:
        prefix, seed = gens.stream(t)
        return ("script", prefix, seed)
    if k == 2:
        return ("chacha", t.bytes(8).ljust(32, b"k"), t.bytes(8))
    if k == 3:
        return ("xorshift", t.n(1, 2**40))
    if k == 4:
        return ("argon", "m" + chr(97 + t.n(0, 3)), t.pick([None, "d", "e"]), t.pick([None, "t"]))
    return ("file", t.n(0, 2))


def spec(ctx, s):
    if s[0] == "script":
        return W.r_script(s[1], s[2])
    if s[0] == "chacha":
        return W.r_chacha(s[1], s[2])
    if s[0] == "xorshift":
        return W.r_xorshift(s[1])
    if s[0] == "argon":
        return W.r_argon(*s[1:])
    path = os.path.join(ctx.scratch, "random%d" % s[1])
    if not os.path.exists(path):
        with open(path, "wb") as f:
            f.write(model.ScriptStream(b"", s[1]).take(400000))
    return W.r_desc("file:" + path)


def words(t):
    return [(t.pick(["a", "b", "ab"]), "\n".join(gens.small_word(t) for _ in range(t.n(1, 8))).encode("utf-8", "surrogatepass"),
             t.n(1, 4)) for _ in range(t.n(0, 3))]


def pattern(t):
    s = gens.pattern(t, 2, 14, wl=["a", "b", "ab"], mk=["a", "b", "ab"]).replace("\0", "0")
    if t.chance(1, 8):
        m = gens.mutate(t, s, most=1).replace("\0", "0")
        # not ones that take forever
        return s if re.search("[0-9]{4}", m) else m
    return s


def history_case(t):
    ops = []
    for i in range(3 if t.chance(2, 3) else 1):  # something to work with
        ops += [("random", i, source(t)), ("parse", i, pattern(t)), ("env", i, words(t))]
    for _ in range(t.n(1, 40)):
        k = t.n(0, 15)
        s = t.n(0, SLOTS - 1)
        if k < 7:
            ops.append(("gen", s, t.n(0, SLOTS - 1), t.n(0, SLOTS - 1), t.n(0, 3)))
        elif k == 7:
            e, r = t.n(0, SLOTS - 1), t.n(0, SLOTS - 1)
            ops.append(("nest", s, e, r, t.n(0, SLOTS - 1), (e + t.n(1, SLOTS - 1)) % SLOTS, (r + t.n(1, SLOTS - 1)) % SLOTS,
                        t.n(1, 4)))
        elif k == 8:
            ops.append(("random", s, source(t)))
        elif k == 9:
            ops.append(("parse", s, pattern(t)))
        elif k == 10:
            ops.append(("env", s, words(t)))
        elif k == 11:
            ops.append(("read", s, [(t.n(0, 4), t.n(0, 40)) if t.chance(3, 4) else (0, t.n(1000, 1100)) for _ in range(t.n(1, 3))]))
        elif k == 12:
            ops.append(("free", s, t.n(0, 3)))
        elif k == 13:
            ops.append(("start", s))
        else:
            ops.append(("feed", s, [ord(c) for c in pattern(t)]))
            if t.chance(1, 2):
                ops.append(("finish", s))
    return {"ops": ops, "variant": t.pick(["asan", "rel"]), "fresh": t.n(0, 15) == 15}


class Request:
    def __init__(self):
        self.parts = []
        self.readers = []

    def add(self, data, reader=None):
        self.parts.append(data)
        self.readers.append(reader)

    def send(self, w):
        r = w.call(W.u8(17) + W.u32(len(self.parts)) + b"".join(self.parts))
        out = [f(r) if f else None for f in self.readers]
        r.end()
        return out


def read_gen(r):
    if r.u8() == 0:
        return None
    return [(r.i64(), r.f64(), r.blob())]


def u8r(r):
    return r.u8()


def reads(ops):
    return lambda r: [r.blob() if o == 0 else r.u64() for o, a in ops]


def enc_ops(ops):
    return W.u32(len(ops)) + b"".join(W.u8(o) + W.u64(a) for o, a in ops)


def check(ctx, c):
    variant = c["variant"]
    # 1. what the history means: which object each operation uses
    cur = {k: {} for k in range(4)}  # kind -> slot -> description
    history = Request()
    expect = []  # (index into the replies, source, index in that source's history, form)
    streams = []  # per source: [spec, operations]
    parses = []  # (reply index, text)
    feeds = []
    gens_done = 0
    for op in c["ops"]:
        k, s = op[0], op[1]
        i = len(history.parts)
        if k == "random":
            streams.append([op[2], []])
            cur[0][s] = len(streams) - 1
            history.add(W.u8(0) + W.u8(s) + spec(ctx, op[2]), u8r)
        elif k == "parse":
            history.add(W.u8(1) + W.u8(s) + W.text(op[2]), u8r)
            ok = accepted(ctx, op[2])
            parses.append((i, op[2], ok))
            cur[1].pop(s, None)
            if ok:
                cur[1][s] = op[2]
        elif k == "env":
            history.add(W.u8(2) + W.u8(s) + W.wordlists(op[2]))
            cur[2][s] = op[2]
        elif k == "gen":
            e, r, mode = op[2:]
            p, env, rnd_ = cur[1].get(s), cur[2].get(e), cur[0].get(r)
            history.add(W.u8(3) + W.u8(s) + W.u8(e) + W.u8(r) + W.u8(mode), read_gen)
            if p is not None and env is not None and rnd_ is not None:
                expect.append((i, rnd_, len(streams[rnd_][1]), 0))
                streams[rnd_][1].append(("gen", p, env, mode))
                gens_done += 1
            else:
                expect.append((i, None, 0, 0))
        elif k == "nest":
            e, r, p2, e2, r2, most = op[2:]
            if e == e2 or r == r2:
                continue
            objs = [cur[1].get(s), cur[2].get(e), cur[0].get(r), cur[1].get(p2), cur[2].get(e2), cur[0].get(r2)]
            if any(x is None for x in objs):
                continue
            outer, inner = objs[2], objs[5]
            # how often the inner generation runs is known from the outer one alone
            alone = isolated(ctx, c, streams[outer][0], streams[outer][1] + [("gen", objs[0], objs[1], 0)])[-1][0]
            n = min(most, len(alone[2]) // 4 + (1 if alone[0] == 55 else 0))
            history.add(W.u8(9) + W.u8(s) + W.u8(e) + W.u8(r) + W.u8(p2) + W.u8(e2) + W.u8(r2) + W.u8(most), nest_reader(n))
            expect.append((i, outer, len(streams[outer][1]), 1))
            streams[outer][1].append(("gen", objs[0], objs[1], 0))
            for j in range(n):
                expect.append((i, inner, len(streams[inner][1]), 2 + j))
                streams[inner][1].append(("gen", objs[3], objs[4], 2))
            ctx.label("nested generation", n > 0)
        elif k == "read":
            rnd_ = cur[0].get(s)
            if rnd_ is None:
                continue
            history.add(W.u8(4) + W.u8(s) + enc_ops(op[2]), reads(op[2]))
            expect.append((i, rnd_, len(streams[rnd_][1]), 0))
            streams[rnd_][1].append(("read", op[2]))
        elif k == "free":
            history.add(W.u8(5) + W.u8(s) + W.u8(op[2]))
            cur[op[2]].pop(s, None)
            ctx.label("free")
        elif k == "start":
            history.add(W.u8(6) + W.u8(s))
            cur[3][s] = []
        elif k == "feed":
            if s not in cur[3]:
                history.add(W.u8(6) + W.u8(s))
                cur[3][s] = []
                i += 1
            cur[3][s] = cur[3][s] + [op[2]]
            history.add(W.u8(7) + W.u8(s) + W.blob(b"".join(W.u32(x) for x in op[2])), u8r)
            feeds.append((i, list(cur[3][s]), False))
        elif k == "finish" and s in cur[3]:
            history.add(W.u8(8) + W.u8(s), u8r)
            chunks = cur[3].pop(s)
            feeds.append((i, chunks, True))
            cur[1].pop(s, None)
            text = "".join(chr(x) for ch in chunks for x in ch)
            if accepted(ctx, text):
                cur[1][s] = text
            ctx.label("incremental pattern", s in cur[1])
    # 2. alone
    alone = [isolated(ctx, c, sp, ops) for sp, ops in streams]
    # 3. together
    w = ctx.w(variant)
    got = history.send(w)
    for i, text, ok in parses:
        need(got[i] == (0 if ok else 1), "pattern %s is %s among others, not alone", ascii(text), "rejected" if got[i] else "accepted")
    for i, chunks, finish in feeds:
        need(got[i] == fed(ctx, chunks, finish), "feeding %s: %d among others, otherwise alone", chunks, got[i])
    for i, src, at, form in expect:
        have = got[i]
        if src is None:
            need(have is None, "generated with what was freed")
            continue
        want = alone[src][at]
        if form:
            need(have is not None, "no result")
            have = [have[form - 1]]
        same(have, want, streams[src][1][at], at, src)
    ctx.label("sources shared", any(len(o) > 1 for s, o in streams))
    ctx.nontrivial(gens_done > 1)


def nest_reader(n):
    def f(r):
        if r.u8() == 0:
            return None
        inner = [(r.i64(), r.f64(), r.blob()) for _ in range(n)]
        need(r.u32() == n, "the callback ran a different number of times than alone")
        return [(r.i64(), r.f64(), r.blob())] + inner
    return f


def same(have, want, what, at, src):
    need(have is not None and len(have) == len(want), "no result for %s", what)
    for a, b in zip(have, want):
        if isinstance(a, tuple):
            ok = a[0] == b[0] and (a[1] == b[1] or bits_equal(a[1], b[1])) and (a[2] == b[2] or (a[0] == 0 and what[3] in (1, 2, 3)))
        else:
            ok = a == b
        need(ok, "operation %d on source %d (%s): %s, alone %s", at, src, ascii(what)[:200], sh(a), sh(b))


def other(ctx, c):
    """The process isolated runs happen in: another build, sometimes fresh."""
    w = ctx.w("rel" if c["variant"] == "asan" else "asan", 21)
    if c["fresh"]:
        w.stop()
    return w


def isolated(ctx, c, sp, ops):
    key = ("iso", c["variant"], repr(sp), repr(ops))
    memo = ctx.data.setdefault("iso", {})
    if key in memo:
        return memo[key]
    q = Request()
    q.add(W.u8(0) + W.u8(0) + spec(ctx, sp), u8r)
    index = []
    for op in ops:
        if op[0] == "gen":
            q.add(W.u8(1) + W.u8(0) + W.text(op[1]), u8r)
            q.add(W.u8(2) + W.u8(0) + W.wordlists(op[2]))
            index.append(len(q.parts))
            q.add(W.u8(3) + W.u8(0) + W.u8(0) + W.u8(0) + W.u8(op[3]), read_gen)
            q.add(W.u8(5) + W.u8(0) + W.u8(1))
            q.add(W.u8(5) + W.u8(0) + W.u8(2))
        else:
            index.append(len(q.parts))
            q.add(W.u8(4) + W.u8(0) + enc_ops(op[1]), reads(op[1]))
    got = q.send(other(ctx, c))
    need(got[0] == 1, "source not opened")
    out = [got[i] for i in index]
    if len(memo) > 200:
        memo.clear()
    memo[key] = out
    return out


def accepted(ctx, text):
    q = Request()
    q.add(W.u8(1) + W.u8(0) + W.text(text), u8r)
    return q.send(ctx.w("rel", 21))[0] == 0


def fed(ctx, chunks, finish):
    q = Request()
    q.add(W.u8(6) + W.u8(0))
    for ch in chunks:
        q.add(W.u8(7) + W.u8(0) + W.blob(b"".join(W.u32(x) for x in ch)), u8r)
    if finish:
        q.add(W.u8(8) + W.u8(0), u8r)
    return q.send(ctx.w("rel", 21))[-1]


# ------------------------------------------------------------------------- threads
def threads_case(t):
    jobs = []
    for _ in range(t.n(2, 8)):
        jobs.append({"pattern": gens.pattern(t, 2, 12, wl=["w"], mk=["w"]).replace("\0", "0"),
                     "random": t.pick(["xorshift:%d" % t.n(1, 2**40), "chacha20:k%d:n" % t.n(0, 9999), "chacha20-argon2:m%d" % t.n(0, 99)]),
                     "words": "\n".join(gens.small_word(t) for _ in range(t.n(1, 6))), "level": t.n(1, 3), "outputs": t.n(1, 12)})
    if t.chance(1, 6):
        jobs[0]["pattern"] = gens.mutate(t, jobs[0]["pattern"]).replace("\0", "0")
    return {"jobs": jobs, "variant": t.pick(["tsan", "tsan", "rel", "asan"])}


def check_threads(ctx, c):
    jobs = c["jobs"]
    r = ctx.w(c["variant"]).call(W.u8(24) + W.u32(len(jobs)) + b"".join(
        W.text(j["pattern"]) + W.text(j["random"]) + W.blob(j["words"].encode("utf-8", "surrogatepass")) + W.u32(j["level"]) +
        W.u32(j["outputs"]) for j in jobs))
    alone = [r.blob() for _ in jobs]
    together = [r.blob() for _ in jobs]
    r.end()
    for j, a, b in zip(jobs, alone, together):
        need(a == b, "pattern %s with %s gives %s at the same time as others, alone %s", ascii(j["pattern"]), j["random"], sh(b), sh(a))
    ctx.label("thread sanitizer", c["variant"] == "tsan")
    ctx.nontrivial(len(jobs) >= 3)


TESTS = [
    Test("histories", check, lambda: gens.from_tape(history_case, 200, 2500), quick=9000),
    Test("threads", check_threads, lambda: gens.from_tape(threads_case, 60, 600), quick=4000),
]

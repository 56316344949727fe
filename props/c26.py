"""C26: key material and unread randomness are wiped on close."""
import os, re
from .common import *
from . import rnd

ID = "C26"
VARIANTS = ["asan", "rasan", "rel"]
RULE = ("Sources of every kind with generated keys, passphrases, seeds and contents, opened by parameters or description, "
        "in own or library memory, read from in generated histories (including seeks and reloads) and closed or freed; every "
        "block the library frees, from before opening to after closing, is searched for the key, the derived key, the "
        "passphrase, the generator state and unread bytes, and the closed structure must be zero, in debug, release and "
        "optimised builds. Patterns and environments with wordlists likewise. Non-trivial: at least 16 unread bytes, a key "
        "or a state to look for.")
IV = b"passgen\0"


def secret(t, n):
    """n bytes that no other memory contains by chance."""
    return t.bytes(8).ljust(8, b"k")[:n] + model.ScriptStream(b"", t.n(0, 2**48) + 7).take(max(0, n - 8))


def text_secret(t, n):
    a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-"
    return "".join(a[b & 63] for b in secret(t, n + 8))[8:]


def source(t):
    kind = t.pick(["script", "chacha", "chacha-desc", "argon", "argon-desc", "argon-desc", "xorshift", "xorshift-desc", "file",
                   "file-desc", "file-desc", "system"])
    c = {"kind": kind}
    if kind == "chacha":
        c["key"], c["iv"] = secret(t, 32), t.bytes(8).ljust(8, b"\1")[:8]
    elif kind == "chacha-desc":
        c["key"] = text_secret(t, t.pick([16, 31, 32, t.n(16, 32)]))
    elif kind.startswith("argon"):
        c["fields"] = [text_secret(t, t.pick([16, 20, 127, 128, 129, t.n(16, 300)])) for _ in range(t.n(1, 3))]
    elif kind.startswith("xorshift"):
        c["seed"] = int.from_bytes(secret(t, 16)[8:], "little") or 1
    elif kind != "system":
        c["seed"] = t.n(0, 2**48)
    return c


def resolve(ctx, c, size=70000):
    """request bytes, needles from the start, needles at the end, model source"""
    k = c["kind"]
    if k == "script":
        return W.r_script(b"", c["seed"]), [], None
    if k == "chacha":
        return W.r_chacha(c["key"], c["iv"]), [c["key"][:16], c["key"][16:], c["key"][5:13]], None
    if k == "chacha-desc":
        key = c["key"].encode()
        return W.r_desc("chacha20:%s:n" % c["key"]), [key[:8], key[:16], key[-8:]], None
    if k.startswith("argon"):
        f = [x.encode() for x in c["fields"]] + [b""] * (3 - len(c["fields"]))
        key = model.master_key(*f)
        early = [key[:16], key[16:], f[0][:8], f[0][-8:], f[0][:16]] + ([f[1][:8], f[1][-8:]] if f[1] else [])
        if k == "argon":
            g = c["fields"] + [None, None]
            return W.r_argon(g[0], g[1], g[2]), early, None
        return W.r_desc("chacha20-argon2:" + ":".join(c["fields"])), early, None
    if k.startswith("xorshift"):
        spec = W.r_desc("xorshift:%d" % c["seed"]) if k.endswith("desc") else W.r_xorshift(c["seed"])
        return spec, [c["seed"].to_bytes(8, "little")], lambda: model.XorshiftSource(c["seed"])
    if k == "system":
        return W.r_system(), [], None
    data = model.ScriptStream(b"", c["seed"]).take(size)
    if k == "file":
        return W.r_file(data), [], None
    path = os.path.join(ctx.scratch, "random")
    with open(path, "wb") as f:
        f.write(data)
    return W.r_desc("file:" + path), [], lambda: model.TakeSource(model.BytesStream(data))


def late_needles(c, mk, ops):
    """state and bytes fetched but not delivered when ops are done"""
    out = []
    if mk is None:
        return out
    for eager in (True, False):
        src = mk()
        m = model.RandomModel(src, eager)
        for o, a in ops:
            m.op(o, a)
        if c["kind"].startswith("xorshift"):
            out.append(src.x.to_bytes(8, "little"))
        else:
            rest = src.read(4096)
            out += [rest[i:i + 16] for i in (0, 16, 500, 1024, 2040, 3000, 4000) if len(rest[i:i + 16]) == 16]
    return list(dict.fromkeys(out))


def case(t):
    c = source(t)
    c.update(ops=rnd.history(t, 12, seek="chacha" in c["kind"] or "argon" in c["kind"]), heap=t.n(0, 1),
             variant=t.pick(VARIANTS))
    return c


def check(ctx, c):
    ops = [(o, a) for o, a in rnd.concrete(c["ops"]) if a < 70000 or o > 0]
    if c["kind"].startswith("file"):
        ops = [(o, a) for o, a in ops if o not in (6, 7, 8, 9)]
        if sum(a if o == 0 else 8 for o, a in ops) + 1024 * sum(o == 10 for o, a in ops) > 60000:
            raise Skip
    spec, early, mk = resolve(ctx, c)
    late = late_needles(c, mk, ops)
    r = ctx.w(c["variant"]).call(W.u8(18) + W.u8(c["heap"]) + W.u32(len(early)) + b"".join(W.blob(n) for n in early) +
                                 W.u32(len(late)) + b"".join(W.blob(n) for n in late) + spec + W.u32(len(ops)) +
                                 b"".join(W.u8(o) + W.u64(a) for o, a in ops))
    need(r.u8() == 1, "not opened")
    for o, a in ops:
        r.blob() if o == 0 else r.u64()
    zero, hits, left = r.u8(), r.u64(), r.u64()
    r.end()
    need(zero, "a closed source is not zeroed")
    need(hits == 0, "secrets of a %s source are left in %d places of the memory given back (%d early, %d late needles, "
         "%d bytes unread)", c["kind"], hits, len(early), len(late), left)
    ctx.label(c["kind"])
    ctx.label("unread bytes", left >= 16)
    ctx.label("freed" if c["heap"] else "closed")
    ctx.nontrivial(left >= 16 or early or late)


def env_case(t):
    g = gen_case(t, 3, 25, most_gen=1, variants=tuple(VARIANTS))
    g["source"] = source(t)
    if t.chance(1, 6):
        g["pattern"] = gens.mutate(t, g["pattern"])
    g["pattern"] = g["pattern"].replace("\0", "0")
    return g


def check_env(ctx, c):
    try:
        pattern = c["pattern"].encode("utf-8")
    except UnicodeEncodeError:
        raise Skip
    if any(len(s) > 4 for s in re.findall("[0-9]+", c["pattern"])):
        raise Skip
    spec, early, mk = resolve(ctx, c["source"], 2000000)
    r = ctx.w(c["variant"]).call(W.u8(19) + W.u32(len(early)) + b"".join(W.blob(n) for n in early) + W.blob(pattern) +
                                 W.wordlists(c["wl"]) + spec)
    rejected, zero, hits = r.u8(), r.u8(), r.u64()
    r.end()
    need(zero & 1, "a freed pattern is not zeroed: %s", sh(pattern))
    need(zero & 2, "a freed environment is not zeroed")
    need(hits == 0, "freeing an environment leaves secrets of its %s source behind", c["source"]["kind"])
    ctx.label("rejected pattern", rejected)
    ctx.label("wordlists", len(c["wl"]) > 0)
    ctx.nontrivial(len(pattern) > 3 or early)


TESTS = [
    Test("sources", check, lambda: gens.from_tape(case, 12, 300), quick=14000),
    Test("environments", check_env, lambda: gens.from_tape(env_case, 12, 300), quick=6000),
]

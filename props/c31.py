"""C31: the bundled cryptographic functions compute what is published."""
import hashlib
from .common import *
from . import c15
from vlib import crypto as K

ID = "C31"
VARIANTS = ["asan", "rel", "msan", "rasan"]
RULE = ("Generated keys, nonces, counters, messages of every length up to a few thousand bytes cut into generated chunks, scalars and "
        "field elements (random, runs of equal bytes, around 0, 2^255-19, 2^252 and the group order, points of small "
        "order) against models: hashlib's BLAKE2b, RFC 8439 and XChaCha20, RFC 7748, Ed25519 with BLAKE2b, Elligator 2; "
        "outputs in blocks of their exact size, in place, with memory sanitizers; honest and altered signatures and "
        "messages. Non-trivial: more than one block, chunk or message, or an operand that is not plainly random.")


def variant(t):
    return t.pick(["rel", "rel", "asan", "msan", "rasan"])


def rand(t, n):
    return model.ScriptStream(b"", t.n(0, 1 << 40)).take(n) if n else b""


def operand(t, n=32):
    """n bytes, seldom plainly random."""
    k = t.n(0, 7)
    if k <= 1:
        return rand(t, n)
    if k == 2:
        return bytes([t.pick([0, 255, 128, 127, 1])]) * n
    if k == 3:
        # runs of equal bytes, which carry
        out = b""
        while len(out) < n:
            out += bytes([t.pick([0, 255, 255, 0, t.n(0, 255)])]) * t.n(1, 9)
        return out[:n]
    if k == 4 and n >= 32:
        base = t.pick([0, K.P, 2 * K.P, K.L, 2 * K.L, 8 * K.L, 15 * K.L, 2 ** 255, 2 ** 256, (K.P - 1) // 2, 2 ** 252, 2 ** 254, K.L * K.L, 2 ** 511])
        v = (base + t.n(0, 40) - 20) % 2 ** (8 * n)
        return K.enc(v, n)
    if k == 5:
        return K.enc(1 << t.n(0, 8 * n - 1), n)
    if k == 6:
        return K.enc(((1 << 8 * n) - 1) ^ (1 << t.n(0, 8 * n - 1)), n)
    b = bytearray(rand(t, n))
    for _ in range(t.n(1, 4)):
        b[t.n(0, n - 1)] = t.pick([0, 255])
    return bytes(b)


def message(t, most=700):
    k = t.n(0, 4)
    n = t.pick([0, 1, 15, 16, 17, 31, 32, 63, 64, 65, 111, 127, 128, 129, 191, 192, 255, 256, 257, 511, 512, 513, t.n(0, most), t.n(0, 130)])
    if k == 0:
        return b"\xff" * n
    if k == 1:
        return b"\0" * n
    if k == 2:
        return (bytes([t.n(0, 255)]) * 16 + b"\xff" * 16) * (n // 32) + b"\xff" * (n % 32)
    return rand(t, n)


def chunks(t, data):
    out = []
    while data and len(out) < 40:
        n = t.pick([0, 1, 7, 8, 9, 16, 64, 120, 127, 128, 129, 256, t.n(0, 300), t.n(0, 20)])
        out.append(data[:n])
        data = data[n:]
    out.append(data)
    return out


def call(ctx, c, payload):
    return ctx.w(c["variant"]).call(W.u8(27) + payload)


# ------------------------------------------------------------------------------ blake2b
def blake_case(t):
    m = message(t, 3000)
    mode = t.n(0, 2)
    key = t.pick([b"", b"", operand(t, 64), operand(t, 32), rand(t, t.n(1, 64))])
    return {"size": t.pick([64, 64, 32, 1, 63, 16, t.n(1, 64)]), "key": key, "mode": mode,
            "chunks": chunks(t, m) if mode else [m], "variant": variant(t)}


def check_blake(ctx, c):
    r = call(ctx, c, W.u8(0) + W.u32(c["size"]) + W.u8(c["mode"]) + W.blob(c["key"]) + W.u32(len(c["chunks"])) +
             b"".join(map(W.blob, c["chunks"])))
    left, got = r.u8(), r.blob()
    r.end()
    m = b"".join(c["chunks"])
    want = K.blake2b(c["size"], c["key"], m)
    need(got == want, "BLAKE2b-%d of %d bytes, key of %d: %s, expected %s", c["size"] * 8, len(m), len(c["key"]), got.hex(), want.hex())
    need(left == 0, "the state is not wiped")
    ctx.label("BLAKE2b")
    ctx.nontrivial(len(m) > 128 or len(c["chunks"]) > 1 or c["key"])


def zeros_cases():
    # more than 2^32 bytes, in one call and in several
    yield {"size": (1 << 32) + 77, "calls": 1, "rest": b"end"}
    yield {"size": (1 << 30) + 129, "calls": 4, "rest": b"\xff" * 200}


def check_zeros(ctx, c):
    w = ctx.w("rel", 100)
    got = w.call(W.u8(27) + W.u8(10) + W.u64(c["size"]) + W.u32(c["calls"]) + W.blob(c["rest"])).blob()
    h = hashlib.blake2b()
    block = bytes(1 << 24)
    left = c["size"] * c["calls"]
    while left:
        h.update(block if left >= len(block) else block[:left])
        left -= min(left, len(block))
    h.update(c["rest"])
    need(got == h.digest(), "BLAKE2b of %d calls with %d zeros and a rest differs", c["calls"], c["size"])
    ctx.label("BLAKE2b of more than 2^32 bytes")
    ctx.nontrivial(True)


# ----------------------------------------------------------------------------- chacha20
def chacha_case(t):
    kind = t.n(0, 2)
    return {"kind": kind, "mode": t.n(0, 2), "key": operand(t), "nonce": operand(t, [8, 12, 24][kind]),
            "ctr": t.pick([0, 1, t.n(0, 1000), 2 ** 32 - 1 - t.n(0, 9), 2 ** 32 + t.n(0, 3), 2 ** 64 - 1 - t.n(0, 9), t.n(0, 2 ** 64 - 1)])
            if kind != 1 else t.pick([0, 1, t.n(0, 2 ** 32 - 1), 2 ** 32 - 40]),
            "texts": [message(t) for _ in range(t.n(1, 4))], "variant": variant(t)}


def check_chacha(ctx, c):
    texts = c["texts"]
    ctr = c["ctr"]
    if c["kind"] == 1 and ctr + sum(len(x) // 64 + 1 for x in texts) > 2 ** 32:
        raise Skip
    r = call(ctx, c, W.u8(1) + W.u8(c["kind"]) + W.u8(c["mode"]) + W.blob(c["key"]) + W.blob(c["nonce"]) + W.u64(ctr) +
             W.u32(len(texts)) + b"".join(map(W.blob, texts)))
    for x in texts:
        want, after = K.chacha20(c["kind"], c["key"], c["nonce"], ctr, bytes(len(x)) if c["mode"] == 2 else x)
        got_ctr, got = r.u64(), r.blob()
        need(got == want, "ChaCha20 (%s) of %d bytes at block %d differs", ["64-bit nonce", "RFC 8439", "XChaCha20"][c["kind"]], len(x), ctr)
        need(got_ctr == after, "the next counter is %d, not %d", got_ctr, after)
        ctr = after
    r.end()
    ctx.label(["ChaCha20", "ChaCha20 IETF", "XChaCha20"][c["kind"]])
    ctx.nontrivial(len(texts) > 1 or len(texts[0]) > 64)


def check_hchacha(ctx, c):
    r = call(ctx, c, W.u8(2) + W.blob(c["key"]) + W.blob(c["in"]))
    got = r.blob()
    r.end()
    need(got == K.hchacha20(c["key"], c["in"]), "HChaCha20 differs")
    ctx.label("HChaCha20")
    ctx.nontrivial(True)


# ----------------------------------------------------------------------------- poly1305
def poly_case(t):
    k = t.n(0, 3)
    if k == 0:
        # sums that come close to 2^130 - 5: r = 1 and blocks chosen to add up
        key = K.enc(t.pick([1, 2, 4]), 16) + operand(t, 16)
        m = b"".join(t.pick([b"\xff" * 16, b"\xfb" + b"\xff" * 15, b"\xfa" + b"\xff" * 15, b"\xfc" + b"\xff" * 15, b"\0" * 16,
                             b"\xfe" + b"\xff" * 15, rand(t, 16)]) for _ in range(t.n(1, 8)))
    else:
        key, m = operand(t), message(t)
    mode = t.n(0, 1)
    return {"key": key, "mode": mode, "chunks": chunks(t, m) if mode else [m], "variant": variant(t)}


def check_poly(ctx, c):
    r = call(ctx, c, W.u8(3) + W.u8(c["mode"]) + W.blob(c["key"]) + W.u32(len(c["chunks"])) + b"".join(map(W.blob, c["chunks"])))
    left, got = r.u8(), r.blob()
    r.end()
    m = b"".join(c["chunks"])
    want = K.poly1305(c["key"], m)
    need(got == want, "Poly1305 of %d bytes: %s, expected %s", len(m), got.hex(), want.hex())
    need(left == 0, "the state is not wiped")
    ctx.label("Poly1305")
    ctx.nontrivial(len(m) > 16)


# --------------------------------------------------------------------------------- aead
def flip(b, bit):
    b = bytearray(b)
    b[bit // 8] ^= 1 << bit % 8
    return bytes(b)


def aead_case(t):
    return {"key": operand(t), "nonce": operand(t, 24), "ad": t.pick([b"", message(t)]), "text": message(t), "same": t.n(0, 1),
            "alter": t.n(0, 4), "bit": t.n(0, 1 << 20), "variant": variant(t)}


def check_aead(ctx, c):
    m = K.Aead(2, c["key"], c["nonce"])
    cipher = m.crypt(c["text"])
    mac = m.mac(c["ad"], cipher)
    head = W.blob(c["key"]) + W.blob(c["nonce"])
    r = call(ctx, c, W.u8(4) + W.u8(0) + W.u8(c["same"]) + head + W.blob(bytes(16)) + W.blob(c["ad"]) + W.blob(c["text"]))
    r.u32()
    got_mac, got = r.blob(), r.blob()
    r.end()
    need(got == cipher and got_mac == mac, "authenticated encryption of %d bytes differs", len(c["text"]))
    ad = c["ad"]
    parts = {"mac": mac, "cipher": cipher, "ad": ad}
    what = ["", "mac", "cipher", "ad", ""][c["alter"]]
    if what and not parts[what]:
        what = ""
    if what:
        parts[what] = flip(parts[what], c["bit"] % (8 * len(parts[what])))
    r = call(ctx, c, W.u8(4) + W.u8(1) + W.u8(c["same"]) + head + W.blob(parts["mac"]) + W.blob(parts["ad"]) + W.blob(parts["cipher"]))
    ret = r.u32()
    r.blob()
    got = r.blob()
    r.end()
    if what:
        need(ret == 0xffffffff, "an altered %s is accepted (%d)", what, ret)
        need(got == (parts["cipher"] if c["same"] else b"\xa7" * len(cipher)), "a rejected message is decrypted")
        ctx.label("altered")
    else:
        need(ret == 0 and got == c["text"], "an authentic message is not accepted or differs (%d)", ret)
        ctx.label("authentic")
    ctx.nontrivial(True)


def stream_case(t):
    kind = t.n(0, 2)
    return {"kind": kind, "key": operand(t), "nonce": operand(t, [8, 12, 24][kind]), "variant": variant(t),
            "msgs": [{"ad": t.pick([b"", message(t, 100)]), "text": message(t, 300), "same": t.n(0, 1), "read": t.n(0, 1),
                      "bad": t.n(0, 5) == 5, "bit": t.n(0, 127)} for _ in range(t.n(1, 8))]}


def check_stream(ctx, c):
    m = K.Aead(c["kind"], c["key"], c["nonce"])
    req = W.u8(5) + W.u8(c["kind"]) + W.blob(c["key"]) + W.blob(c["nonce"]) + W.u32(len(c["msgs"]))
    want = []
    for x in c["msgs"]:
        cipher = m.crypt(x["text"])
        mac = m.mac(x["ad"], cipher)
        if x["read"]:
            bad = x["bad"]
            sent = flip(mac, x["bit"]) if bad else mac
            req += W.u8(1) + W.u8(x["same"]) + W.blob(sent) + W.blob(x["ad"]) + W.blob(cipher)
            want.append((0xffffffff, sent, cipher if x["same"] else b"\xa7" * len(cipher)) if bad else (0, mac, x["text"]))
            if not bad:
                m.advance()
        else:
            req += W.u8(0) + W.u8(x["same"]) + W.blob(bytes(16)) + W.blob(x["ad"]) + W.blob(x["text"])
            want.append((0, mac, cipher))
            m.advance()
    r = call(ctx, c, req)
    for i, (ret, mac, text) in enumerate(want):
        got = r.u32(), r.blob(), r.blob()
        need(got == (ret, mac, text), "message %d of %d of a stream differs (returned %d, expected %d)", i, len(want), got[0], ret)
    r.end()
    ctx.label("stream", len(want) > 1)
    ctx.nontrivial(len(want) > 1)


# -------------------------------------------------------------------------------- curve
LOW = [0, 1, 325606250916557431795983626356110631294008115727848805560023387167927233504,
       39382357235489614581723060781553021112529911719440698176882885853963445705823, K.P - 1, K.P, K.P + 1]
DIRTY = bytes.fromhex("d8861aa2787ad9268b7474b682e3bec3ce369a1e5e3147a26d377cfd20b5df75")


def u_coordinate(t):
    k = t.n(0, 4)
    if k == 0:
        return K.enc(t.pick(LOW) | t.pick([0, 1 << 255]))
    if k == 1:
        return K.enc(K.ladder(t.n(1, 200), 9))
    return operand(t)


def curve_case(t):
    return {"which": t.pick([0, 1, 1, 1, 2, 3, 4, 6, 5, 7, 19, 20]), "a": operand(t), "b": u_coordinate(t), "variant": variant(t)}


def dirty(a):
    return K.enc(K.ladder(K.le(K.trim(a)) + (a[0] & 7) * K.L, K.le(DIRTY)))


def check_curve(ctx, c):
    k, a, b = c["which"], c["a"], c["b"]
    one = {0: lambda: K.x25519(a, K.enc(9)), 2: lambda: K.x25519_to_eddsa(a), 3: lambda: K.eddsa_to_x25519(a), 5: lambda: dirty(a),
           6: lambda: dirty(a), 7: lambda: K.trim(a), 20: lambda: K.trim(a)}
    two = {1: lambda: K.x25519(a, b), 19: lambda: K.x25519(a, b), 4: lambda: K.x25519_inverse(a, b)}
    name = {0: "public key", 1: "shared secret", 19: "shared secret in place", 2: "to EdDSA", 3: "from EdDSA", 4: "inverse", 5: "dirty (small)",
            6: "dirty (fast)", 7: "trim", 20: "trim in place"}[k]
    r = call(ctx, c, W.u8(6) + W.u8(k) + W.blob(a) + (W.blob(b) if k in two else b""))
    got = r.blob()
    r.end()
    want = (two.get(k) or one.get(k))()
    need(got == want, "X25519 %s: %s, expected %s", name, got.hex(), want.hex())
    ctx.label("X25519 " + name)
    ctx.nontrivial(True)


def scalar_case(t):
    k = t.pick([8, 8, 9, 9, 10])
    return {"which": k, "ops": [operand(t, 64)] if k == 8 else [operand(t) for _ in range(3 if k == 9 else 1)], "variant": variant(t)}


def check_scalar(ctx, c):
    ops = c["ops"]
    r = call(ctx, c, W.u8(6) + W.u8(c["which"]) + b"".join(map(W.blob, ops)))
    got = r.blob()
    r.end()
    v = [K.le(x) for x in ops]
    want = {8: lambda: K.enc(v[0] % K.L), 9: lambda: K.enc((v[0] * v[1] + v[2]) % K.L),
            10: lambda: K.pencode(K.pmul(v[0], K.BASE))}[c["which"]]()
    need(got == want, "%s: %s, expected %s", {8: "reduce", 9: "multiply and add", 10: "scalar times base"}[c["which"]], got.hex(), want.hex())
    ctx.label({8: "reduce", 9: "multiply and add", 10: "scalar times base"}[c["which"]])
    ctx.nontrivial(True)


# -------------------------------------------------------------------------------- eddsa
def eddsa_case(t):
    return {"seed": operand(t), "message": message(t), "alter": t.n(0, 7), "bit": t.n(0, 1 << 20), "variant": variant(t)}


def check_eddsa(ctx, c):
    seed, m = c["seed"], c["message"]
    secret, pub = K.eddsa_keys(seed)
    r = call(ctx, c, W.u8(6) + W.u8(15) + W.blob(seed))
    got = r.blob(), r.blob(), r.blob()
    r.end()
    need(got[:2] == (secret, pub), "EdDSA key pair differs")
    need(got[2] == bytes(32), "the seed is not wiped")
    sig = K.eddsa_sign(secret, m)
    r = call(ctx, c, W.u8(7) + W.blob(secret) + W.blob(m))
    got = r.blob()
    r.end()
    need(got == sig, "EdDSA signature of %d bytes: %s, expected %s", len(m), got.hex(), sig.hex())
    want = True
    k, bit = c["alter"], c["bit"]
    if k == 1:
        sig = flip(sig, bit % 512)
    elif k == 2:
        pub = flip(pub, bit % 256)
    elif k == 3 and m:
        m = flip(m, bit % (8 * len(m)))
    elif k == 4:
        # the same s, not reduced
        s = K.le(sig[32:]) + K.L * (1 + bit % 7)
        sig = sig[:32] + K.enc(s)
    elif k == 5:
        # a component of small order in R
        p = K.padd(K.pdecode(sig[:32]), K.TORSION[bit % 8])
        sig = K.pencode(p) + sig[32:]
    want = K.eddsa_check(sig, pub, m)
    r = call(ctx, c, W.u8(8) + W.blob(sig) + W.blob(pub) + W.blob(m))
    ret = r.u32()
    r.end()
    need(ret == (0 if want else 0xffffffff), "signature check returns %d, the signature is %s (case %d)", ret, "valid" if want else "not valid", k)
    ctx.label("valid signature" if want else "invalid signature")
    ctx.nontrivial(k)


def equation_case(t):
    """Signatures as an adversary would make them: small order in every place, encodings that are not reduced."""
    k = t.n(1, 5)
    return {"s": operand(t) if t.chance(1, 3) else K.enc(K.le(operand(t)) % K.L), "h": K.enc(K.le(operand(t)) % K.L),
            "a": t.n(0, 1 << 40), "ta": t.n(0, 7), "tr": t.n(0, 7), "kind": k, "raw": operand(t), "variant": variant(t)}


def check_equation(ctx, c):
    a, h = c["a"], K.le(c["h"])
    pub = K.padd(K.pmul(a, K.BASE), K.TORSION[c["ta"]])
    s = K.le(c["s"])
    k = c["kind"]
    if k <= 2:
        # R such that the equation holds, up to a point of small order
        R = K.pencode(K.padd(K.padd(K.pmul(s, K.BASE), K.pmul(h, K.pneg(pub))), K.TORSION[c["tr"]]))
        pub = K.pencode(pub)
    elif k == 3:
        R, pub = K.pencode(K.TORSION[c["tr"]]), K.pencode(K.TORSION[c["ta"]])
        s = 0
    elif k == 4:
        R, pub = c["raw"], K.pencode(pub)
    else:
        R, pub = K.pencode(K.TORSION[c["tr"]]), c["raw"]
    sig = R + K.enc(s)
    want = K.check_equation(sig, pub, h)
    r = call(ctx, c, W.u8(6) + W.u8(11) + W.blob(sig) + W.blob(pub) + W.blob(c["h"]))
    ret = r.u32()
    r.end()
    need(ret == (0 if want else 0xffffffff), "check of the equation returns %d, it %s", ret, "holds" if want else "does not hold")
    ctx.label("equation holds" if want else "equation does not hold")
    ctx.nontrivial(True)


# ---------------------------------------------------------------------------- elligator
def elligator_case(t):
    return {"a": operand(t) if t.chance(2, 3) else K.enc(K.ladder(t.n(1, 1 << 60), 9)), "tweak": t.n(0, 255), "variant": variant(t)}


def check_elligator(ctx, c):
    a = c["a"]
    r = call(ctx, c, W.u8(6) + W.u8(12) + W.blob(a))
    curve = r.blob()
    r.end()
    need(curve == K.elligator_map(a), "Elligator map of %s differs", a.hex())
    for p in (a, curve):
        u = K.element(p)
        if not K.square(u * (u * u + K.A * u + 1) % K.P):
            continue   # not a point of the curve
        r = call(ctx, c, W.u8(6) + W.u8(13) + W.blob(p) + W.u8(c["tweak"]))
        ret, hidden = r.u32(), r.blob()
        r.end()
        if K.elligator_possible(p):
            need(ret == 0, "no representative of %s found", p.hex())
            need(K.elligator_map(hidden) == K.enc(K.element(p)), "the representative of %s maps elsewhere", p.hex())
            need(hidden[31] & 0xc0 == c["tweak"] & 0xc0, "the padding bits are not those asked for")
            need(K.le(hidden) % 2 ** 254 <= (K.P - 1) // 2, "the representative is the greater one")
            ctx.label("representative")
        else:
            need(ret == 0xffffffff, "a representative of %s, which has none", p.hex())
            ctx.label("no representative")
    ctx.nontrivial(True)


def check_pair(ctx, c):
    seed = c["a"]
    r = call(ctx, c, W.u8(6) + W.u8(14) + W.blob(seed))
    hidden, secret, left = r.blob(), r.blob(), r.blob()
    r.end()
    state = seed
    while True:
        out = K.chacha20(0, state, bytes(8), 0, bytes(64))[0]
        pk = dirty(out[:32])
        if K.elligator_possible(pk):
            break
        state = out[32:]
    need(secret == out[:32], "Elligator key pair: other secret key")
    u = K.le(pk)
    root = K.sqrt(K.inv(-2 * u * (u + K.A) % K.P))
    v = ((u + K.A) if out[32] & 1 else u) * root % K.P
    want = bytearray(K.enc(min(v, K.P - v)))
    want[31] |= out[32] & 0xc0
    need(hidden == bytes(want), "Elligator key pair: other representative")
    need(left == bytes(32), "the seed is not wiped")
    need(K.x25519(rand_fixed, K.elligator_map(hidden)) == K.x25519(rand_fixed, K.x25519(secret, K.enc(9))), "the model is wrong")
    ctx.label("Elligator key pair")
    ctx.nontrivial(True)


rand_fixed = bytes(range(32))


# ------------------------------------------------------------------------ verify, wipe
def verify_cases():
    for n, which in ((16, 16), (32, 17), (64, 18)):
        base = bytes((i * 37 + 11) & 255 for i in range(n))
        yield {"which": which, "a": base, "b": base}
        for bit in range(8 * n):
            yield {"which": which, "a": base, "b": flip(base, bit)}
            yield {"which": which, "a": flip(base, bit), "b": flip(base, (bit * 7 + 13) % (8 * n))}
        # equal differences in several places
        for i in range(n):
            for j in range(i):
                yield {"which": which, "a": base, "b": flip(flip(base, 8 * i + 3), 8 * j + 3)}
        # differences which cancel when words are combined by adding or subtracting them
        whole = int.from_bytes(base, "little")
        for size in (1, 2, 4, 8):
            m = 1 << 8 * size
            for i in range(n // size):
                for j in range(i):
                    for d in (1, m // 2, m - 1, 0x5a % m, m // 3):
                        for e in (m - d, d):
                            if n // size > 8 and (i - j) % 3 and size < 4:
                                continue
                            x = whole ^ d << 8 * size * i ^ (e % m) << 8 * size * j
                            yield {"which": which, "a": base, "b": x.to_bytes(n, "little")}
            every = sum((m * size // n or 1) << 8 * size * i for i in range(n // size))
            yield {"which": which, "a": base, "b": (whole ^ every).to_bytes(n, "little")}


def check_verify(ctx, c):
    for v in ("rel", "asan"):
        r = ctx.w(v).call(W.u8(27) + W.u8(6) + W.u8(c["which"]) + W.blob(c["a"]) + W.blob(c["b"]))
        ret = r.u32()
        r.end()
        need(ret == (0 if c["a"] == c["b"] else 0xffffffff), "comparison of %d bytes returns %d", len(c["a"]), ret)
    ctx.nontrivial(True)


def wipe_case(t):
    n = t.n(0, 200)
    at = t.n(0, n)
    return {"data": rand(t, n), "at": at, "n": t.n(0, n - at), "variant": variant(t)}


def check_wipe(ctx, c):
    r = call(ctx, c, W.u8(9) + W.blob(c["data"]) + W.u32(c["at"]) + W.u32(c["n"]))
    got = r.blob()
    r.end()
    need(got == c["data"][:c["at"]] + bytes(c["n"]) + c["data"][c["at"] + c["n"]:], "wiped other bytes")
    ctx.nontrivial(c["n"])


TESTS = [
    Test("long", check_zeros, cases=zeros_cases, exhaustive=True),
    Test("argon2", c15.check_argon, lambda: gens.from_tape(c15.argon_case, 30, 400), quick=250),
    Test("verify", check_verify, cases=verify_cases, exhaustive=True),
    Test("blake2b", check_blake, lambda: gens.from_tape(blake_case, 20, 150), quick=6000),
    Test("chacha20", check_chacha, lambda: gens.from_tape(chacha_case, 20, 150), quick=2500),
    Test("hchacha20", check_hchacha, lambda: gens.from_tape(lambda t: {"key": operand(t), "in": operand(t, 16), "variant": variant(t)}, 10, 60),
         quick=1500),
    Test("poly1305", check_poly, lambda: gens.from_tape(poly_case, 20, 150), quick=8000),
    Test("aead", check_aead, lambda: gens.from_tape(aead_case, 20, 150), quick=1500),
    Test("stream", check_stream, lambda: gens.from_tape(stream_case, 20, 200), quick=800),
    Test("x25519", check_curve, lambda: gens.from_tape(curve_case, 20, 100), quick=3000),
    Test("scalars", check_scalar, lambda: gens.from_tape(scalar_case, 20, 150), quick=8000),
    Test("eddsa", check_eddsa, lambda: gens.from_tape(eddsa_case, 20, 120), quick=800),
    Test("equation", check_equation, lambda: gens.from_tape(equation_case, 20, 120), quick=1200),
    Test("elligator", check_elligator, lambda: gens.from_tape(elligator_case, 20, 100), quick=2000),
    Test("elligator pair", check_pair, lambda: gens.from_tape(elligator_case, 20, 100), quick=200),
    Test("wipe", check_wipe, lambda: gens.from_tape(wipe_case, 4, 20), quick=1000),
]

"""Reference models, written from the documentation: pattern syntax, generation,
randomness streams, UTF-8, hashes. Nothing here calls the library."""
import hashlib, math, struct, sys

M64 = (1 << 64) - 1


# ------------------------------------------------------------------------- streams
def splitmix_block(seed, index):
    z = (seed + (index + 1) * 0x9E3779B97F4A7C15) & M64
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)


class ScriptStream:
    """The harness' scripted source: a prefix, then splitmix64 from a seed."""

    def __init__(self, prefix=b"", seed=0):
        self.prefix = prefix
        self.seed = seed
        self.pos = 0
        self.buf = bytearray(prefix)
        self.block = 0

    def take(self, n):
        end = self.pos + n
        while len(self.buf) < end:
            self.buf += struct.pack("<Q", splitmix_block(self.seed, self.block))
            self.block += 1
        r = bytes(self.buf[self.pos:end])
        self.pos = end
        return r


class BytesStream:
    def __init__(self, data):
        self.data = data
        self.pos = 0

    def take(self, n):
        r = self.data[self.pos:self.pos + n]
        self.pos += n
        if len(r) != n:
            raise EOFError
        return r


class FuncStream:
    def __init__(self, produce, chunk=1024):
        self.produce = produce  # chunk index -> bytes
        self.buf = b""
        self.n = 0
        self.pos = 0

    def take(self, n):
        while len(self.buf) < self.pos + n:
            self.buf += self.produce(self.n)
            self.n += 1
        r = self.buf[self.pos:self.pos + n]
        self.pos += n
        return r


def xorshift_stream(seed):
    state = [seed & M64]

    def produce(_):
        out = []
        x = state[0]
        for _ in range(128):
            x ^= (x << 13) & M64
            x ^= x >> 7
            x ^= (x << 17) & M64
            out.append(x)
        state[0] = x
        return struct.pack("<128Q", *out)
    return FuncStream(produce)


def draw(stream, n):
    """Index below n: little-endian 64 bit values, low bits, first below n."""
    mask = (1 << n.bit_length()) - 1
    while True:
        v = struct.unpack("<Q", stream.take(8))[0] & mask
        if v < n:
            return v


def draw_bool(stream):
    return stream.take(1)[0] < 128


# ------------------------------------------------------------------------- chacha20
def chacha20_block(key, nonce, counter):
    def rotl(v, c): return ((v << c) & 0xffffffff) | (v >> (32 - c))
    st = list(struct.unpack("<4I", b"expand 32-byte k")) + list(struct.unpack("<8I", key)) + \
        [counter & 0xffffffff, (counter >> 32) & 0xffffffff] + list(struct.unpack("<2I", nonce))
    x = list(st)

    def qr(a, b, c, d):
        x[a] = (x[a] + x[b]) & 0xffffffff; x[d] = rotl(x[d] ^ x[a], 16)
        x[c] = (x[c] + x[d]) & 0xffffffff; x[b] = rotl(x[b] ^ x[c], 12)
        x[a] = (x[a] + x[b]) & 0xffffffff; x[d] = rotl(x[d] ^ x[a], 8)
        x[c] = (x[c] + x[d]) & 0xffffffff; x[b] = rotl(x[b] ^ x[c], 7)
    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return struct.pack("<16I", *[(a + b) & 0xffffffff for a, b in zip(x, st)])


def chacha20_blocks(key, nonce, first, count):
    """Many consecutive blocks at once (the same algorithm on vectors)."""
    import numpy as np
    u = np.uint32
    ctr = [(first + i) & M64 for i in range(count)]
    st = [np.full(count, v, u) for v in struct.unpack("<4I", b"expand 32-byte k") + struct.unpack("<8I", key)]
    st.append(np.array([c & 0xffffffff for c in ctr], u))
    st.append(np.array([c >> 32 for c in ctr], u))
    st += [np.full(count, v, u) for v in struct.unpack("<2I", nonce)]
    rows = [np.stack(st[i:i + 4]) for i in (0, 4, 8, 12)]
    orig = [r.copy() for r in rows]

    def rotl(v, c): return (v << u(c)) | (v >> u(32 - c))
    a, b, c, d = rows
    for _ in range(10):
        for shift in (1, -1):
            a = a + b; d = rotl(d ^ a, 16)
            c = c + d; b = rotl(b ^ c, 12)
            a = a + b; d = rotl(d ^ a, 8)
            c = c + d; b = rotl(b ^ c, 7)
            b, c, d = np.roll(b, -shift, 0), np.roll(c, -2, 0), np.roll(d, shift, 0)
    out = np.concatenate([x + y for x, y in zip((a, b, c, d), orig)])
    return out.T.astype("<u4").tobytes()


def chacha20_bytes(key, nonce, offset, n):
    first = offset // 64
    count = (n + offset % 64 + 63) // 64
    if count > 4:
        out = chacha20_blocks(key, nonce, first, count)
    else:
        out = b"".join(chacha20_block(key, nonce, (first + i) & M64) for i in range(count))
    return out[offset % 64:offset % 64 + n]


def chacha20_stream(key, nonce):
    return FuncStream(lambda i: chacha20_block(key, nonce, i))


# -------------------------------------------------------------------------- siphash
def siphash24(key, data, outlen):
    def rotl(x, b): return ((x << b) & M64) | (x >> (64 - b))
    k0, k1 = struct.unpack("<QQ", key)
    v0, v1 = k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d
    v2, v3 = k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573

    def rnd(v0, v1, v2, v3):
        v0 = (v0 + v1) & M64; v1 = rotl(v1, 13) ^ v0; v0 = rotl(v0, 32)
        v2 = (v2 + v3) & M64; v3 = rotl(v3, 16) ^ v2
        v0 = (v0 + v3) & M64; v3 = rotl(v3, 21) ^ v0
        v2 = (v2 + v1) & M64; v1 = rotl(v1, 17) ^ v2; v2 = rotl(v2, 32)
        return v0, v1, v2, v3
    if outlen == 16:
        v1 ^= 0xee
    end = len(data) // 8 * 8
    for i in range(0, end, 8):
        m = struct.unpack_from("<Q", data, i)[0]
        v3 ^= m
        for _ in range(2):
            v0, v1, v2, v3 = rnd(v0, v1, v2, v3)
        v0 ^= m
    tail = data[end:]
    b = ((len(data) & 0xff) << 56) | int.from_bytes(tail, "little")
    v3 ^= b
    for _ in range(2):
        v0, v1, v2, v3 = rnd(v0, v1, v2, v3)
    v0 ^= b
    v2 ^= 0xee if outlen == 16 else 0xff
    for _ in range(4):
        v0, v1, v2, v3 = rnd(v0, v1, v2, v3)
    out = struct.pack("<Q", v0 ^ v1 ^ v2 ^ v3)
    if outlen == 16:
        v1 ^= 0xdd
        for _ in range(4):
            v0, v1, v2, v3 = rnd(v0, v1, v2, v3)
        out += struct.pack("<Q", v0 ^ v1 ^ v2 ^ v3)
    return out


# --------------------------------------------------------------------------- argon2
def _h(n, *parts):
    h = hashlib.blake2b(digest_size=n)
    for p in parts:
        h.update(p)
    return h.digest()


def _hprime(n, data):
    pre = struct.pack("<I", n)
    if n <= 64:
        return _h(n, pre, data)
    r = (n + 31) // 32 - 2
    v = _h(64, pre, data)
    out = v[:32]
    for _ in range(r - 1):
        v = _h(64, v)
        out += v[:32]
    return out + _h(n - 32 * r, v)


def _fblamka(x, y):
    return (x + y + 2 * (x & 0xffffffff) * (y & 0xffffffff)) & M64


def _permute(v, i):
    a, b, c, d, e, f, g, h, j, k, l, m, n, o, p, q = i

    def G(a, b, c, d):
        va, vb, vc, vd = v[a], v[b], v[c], v[d]
        va = _fblamka(va, vb)
        vd ^= va
        vd = ((vd >> 32) | (vd << 32)) & M64
        vc = _fblamka(vc, vd)
        vb ^= vc
        vb = ((vb >> 24) | (vb << 40)) & M64
        va = _fblamka(va, vb)
        vd ^= va
        vd = ((vd >> 16) | (vd << 48)) & M64
        vc = _fblamka(vc, vd)
        vb ^= vc
        vb = ((vb >> 63) | (vb << 1)) & M64
        v[a], v[b], v[c], v[d] = va, vb, vc, vd
    G(a, e, j, n); G(b, f, k, o); G(c, g, l, p); G(d, h, m, q)
    G(a, f, l, q); G(b, g, m, n); G(c, h, j, o); G(d, e, k, p)


_ROWS = [list(range(16 * i, 16 * i + 16)) for i in range(8)]
_COLS = [[2 * i + 16 * j + k for j in range(8) for k in (0, 1)] for i in range(8)]


def _compress(x, y):
    r = [a ^ b for a, b in zip(x, y)]
    z = list(r)
    for i in _ROWS:
        _permute(z, i)
    for i in _COLS:
        _permute(z, i)
    return [a ^ b for a, b in zip(r, z)]


def argon2(kind, blocks, passes, lanes, taglen, password, salt, key=b"", ad=b""):
    """RFC 9106 Argon2 version 0x13; kind 0 d, 1 i, 2 id."""
    p = struct.pack
    h0 = _h(64, p("<IIIIII", lanes, taglen, blocks, passes, 0x13, kind),
            p("<I", len(password)), password, p("<I", len(salt)), salt,
            p("<I", len(key)), key, p("<I", len(ad)), ad)
    mprime = 4 * lanes * (blocks // (4 * lanes))
    q = mprime // lanes
    seg = q // 4
    B = [[None] * q for _ in range(lanes)]
    for l in range(lanes):
        for j in (0, 1):
            B[l][j] = list(struct.unpack("<128Q", _hprime(1024, h0 + p("<II", j, l))))
    zero = [0] * 128
    for t in range(passes):
        for s in range(4):
            for l in range(lanes):
                indep = kind == 1 or (kind == 2 and t == 0 and s < 2)
                addr = None
                ctr = 0
                for i in range(2 if t == 0 and s == 0 else 0, seg):
                    col = s * seg + i
                    if indep:
                        if addr is None or i % 128 == 0:
                            ctr = i // 128 + 1
                            z = [t, l, s, mprime, passes, kind, ctr] + [0] * 121
                            addr = _compress(zero, _compress(zero, z))
                        w = addr[i % 128]
                    else:
                        w = B[l][(col - 1) % q][0]
                    j1, j2 = w & 0xffffffff, w >> 32
                    rl = l if (t == 0 and s == 0) else j2 % lanes
                    if t == 0:
                        if s == 0:
                            area = i - 1
                        else:
                            area = s * seg + (i - 1 if rl == l else (-1 if i == 0 else 0))
                    else:
                        area = q - seg + (i - 1 if rl == l else (-1 if i == 0 else 0))
                    x = (j1 * j1) >> 32
                    zz = area - 1 - ((area * x) >> 32)
                    start = 0 if t == 0 else ((s + 1) % 4) * seg
                    ref = (start + zz) % q
                    new = _compress(B[l][(col - 1) % q], B[rl][ref])
                    if t:
                        new = [a ^ b for a, b in zip(new, B[l][col])]
                    B[l][col] = new
    c = B[0][q - 1]
    for l in range(1, lanes):
        c = [a ^ b for a, b in zip(c, B[l][q - 1])]
    return _hprime(taglen, struct.pack("<128Q", *c))


_kdf_cache = {}


def master_key(passphrase, domain=b"", token=b"", config=None):
    """config: (algorithm, blocks, passes, lanes)"""
    k = (passphrase, domain, token, config)
    if k not in _kdf_cache:
        _kdf_cache[k] = argon2(*(config or (2, 8, 8, 1)), 32, passphrase, b"passgen", domain, token)
    return _kdf_cache[k]


def master_stream(passphrase, domain=b"", token=b""):
    return chacha20_stream(master_key(passphrase, domain, token), b"passgen\0")


# ---------------------------------------------------------------------------- utf-8
def utf8_decode(data):
    """(codepoints, widths, offset of the first ill-formed sequence or None)"""
    try:
        s = data.decode("utf-8")
        bad = None
    except UnicodeDecodeError as e:
        s = data[:e.start].decode("utf-8")
        bad = e.start
    c = [ord(x) for x in s]
    w = [1 if x < 0x80 else 2 if x < 0x800 else 3 if x < 0x10000 else 4 for x in c]
    return c, w, bad


def is_scalar(cp):
    return 0 <= cp <= 0x10ffff and not 0xd800 <= cp <= 0xdfff


# ------------------------------------------------------------------ pattern syntax
SIMPLE = {"a": 7, "b": 8, "e": 27, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92}
LIMIT = 4096
SIZE_MAX = M64


class ParseError(Exception):
    """kind: token (malformed at a token), end (unfinished), utf8"""

    def __init__(self, kind, cp, byte, why):
        Exception.__init__(self, why)
        self.kind, self.cp, self.byte, self.why = kind, cp, byte, why


class Tok:
    __slots__ = ("cp", "esc", "uni", "off", "byte")

    def __init__(self, cp, esc, uni, off, byte):
        self.cp, self.esc, self.uni, self.off, self.byte = cp, esc, uni, off, byte

    def plain(self, ch):
        return not self.esc and self.cp == ord(ch)


def tokenize(cps, widths):
    """Yields Tok; raises ParseError. esc: backslash before an ordinary
    character; uni: spelled as a unicode escape."""
    off = byte = 0
    i = 0
    n = len(cps)

    def adv():
        nonlocal i, off, byte
        byte += widths[i]
        off += 1
        i += 1

    while i < n:
        so, sb = off, byte
        c = cps[i]
        adv()
        if c != 92:
            yield Tok(c, False, False, so, sb)
            continue
        if i >= n:
            raise ParseError("end", off, byte, "unfinished escape")
        e = cps[i]
        adv()
        if e < 128 and chr(e) in SIMPLE:
            yield Tok(SIMPLE[chr(e)], False, True, so, sb)
            continue
        if e != ord("u"):
            yield Tok(e, True, False, so, sb)
            continue
        if i >= n:
            raise ParseError("end", off, byte, "unfinished unicode escape")
        if cps[i] != ord("{"):
            raise ParseError("token", so, sb, "unicode escape without brace")
        adv()
        v, digits = 0, 0
        while True:
            if i >= n:
                raise ParseError("end", off, byte, "unfinished unicode escape")
            d = cps[i]
            if d == ord("}"):
                adv()
                break
            if not (48 <= d <= 57 or 65 <= d <= 70 or 97 <= d <= 102):
                raise ParseError("token", so, sb, "not a hexadecimal digit")
            digits += 1
            if digits > 6:
                raise ParseError("token", so, sb, "too many digits")
            v = v * 16 + int(chr(d), 16)
            adv()
        if digits == 0:
            raise ParseError("token", so, sb, "no digits")
        if not is_scalar(v):
            raise ParseError("token", so, sb, "not a unicode scalar value")
        yield Tok(v, False, True, so, sb)


# nodes -----------------------------------------------------------------------
class Item:
    __slots__ = ("kind", "data", "maybe", "lo", "hi", "empty")
    # kinds: lit (codepoint), set (list of ranges), grp (Group), wl / mk / pre (name)

    def __init__(self, kind, data):
        self.kind, self.data = kind, data
        self.maybe = False
        self.lo = self.hi = 1
        self.empty = False


class Segment:
    __slots__ = ("weight", "items")

    def __init__(self):
        self.weight = 1
        self.items = []


class Group:
    __slots__ = ("segs", "done", "sum")

    def __init__(self):
        self.segs = [Segment()]
        self.done = self.sum = 0

    def total(self):
        # only the last segment still changes while parsing
        n = len(self.segs)
        if n - 1 < self.done:
            self.done = self.sum = 0
        while self.done < n - 1:
            self.sum += self.segs[self.done].weight
            self.done += 1
        return self.sum + (self.segs[-1].weight if n else 0)


class Parsed:
    def __init__(self):
        self.root = None
        self.contested = False   # uses spellings the documentation leaves open
        self.depth = 0           # deepest nesting of brackets while parsing
        self.features = set()


def parse_tokens(tokens, end_cp, end_byte, limit=LIMIT):
    """Reference parser. Returns Parsed or raises ParseError (with .contested)."""
    P = Parsed()
    root = Group()
    stack = [root]
    mode = "group"
    st = {}

    def drop_empty(seg):
        if seg.items and seg.items[-1].kind == "grp" and seg.items[-1].empty:
            seg.items.pop()

    def bad(t, why):
        e = ParseError("token", t.off, t.byte, why)
        e.contested = P.contested
        raise e

    def depth():
        return len(stack) + (0 if mode == "group" else 1)

    it = iter(tokens)
    while True:
        try:
            t = next(it)
        except StopIteration:
            break
        except ParseError as e:
            e.contested = P.contested
            raise
        if limit and depth() >= limit:
            bad(t, "nesting limit")
        P.depth = max(P.depth, depth())
        g = stack[-1]
        if mode == "group":
            seg = g.segs[-1]
            if not (t.plain("{") or t.plain("?")):
                drop_empty(seg)
            if t.uni and t.cp < 128 and chr(t.cp) in "|(){}[]?":
                P.contested = True
            if t.plain("]") or t.plain("}"):
                P.contested = True
            if t.esc:
                ch = chr(t.cp)
                if ch in "|(){}[]":
                    P.features.add("escaped metacharacter")
                    seg.items.append(Item("lit", t.cp))
                elif ch in "mwp":
                    item = Item({"m": "mk", "w": "wl", "p": "pre"}[ch], "")
                    if ch == "p":
                        P.contested = True
                    seg.items.append(item)
                    mode = "special"
                    st = {"item": item}
                else:
                    bad(t, "unknown escape")
            elif t.plain("|"):
                if g.total() >= SIZE_MAX:
                    bad(t, "multiplier sum overflows")
                P.features.add("alternatives")
                if seg.weight > 0:
                    g.segs.append(Segment())
                else:
                    g.segs[-1] = Segment()
            elif t.plain("("):
                sub = Group()
                seg.items.append(Item("grp", sub))
                stack.append(sub)
                P.features.add("group")
            elif t.plain(")"):
                if len(stack) == 1:
                    bad(t, "unbalanced )")
                if seg.weight == 0:
                    g.segs.pop()
                stack.pop()
                if not any(s.items for s in g.segs) or g.total() == 0:
                    stack[-1].segs[-1].items[-1].empty = True
            elif t.plain("["):
                item = Item("set", [])
                seg.items.append(item)
                mode = "set"
                st = {"item": item, "cur": None, "range": False}
            elif t.plain("{"):
                if seg.items:
                    mode = "repeat"
                    item = seg.items[-1]
                    P.features.add("repeat of " + item.kind)
                    st = {"item": item, "lo": 0, "nlo": 0, "hi": None, "nhi": 0}
                else:
                    mode = "mult"
                    P.features.add("multiplier")
                    others = g.total() - seg.weight
                    seg.weight = 0
                    st = {"seg": seg, "others": others, "n": 0}
            elif t.plain("?"):
                if not seg.items:
                    bad(t, "? without item")
                seg.items[-1].maybe = True
                P.features.add("optional " + seg.items[-1].kind)
            else:
                seg.items.append(Item("lit", t.cp))
                if t.cp > 127:
                    P.features.add("non-ascii literal")
        elif mode == "set":
            if t.uni and t.cp in (45, 93):
                P.contested = True
            rs = st["item"].data
            if t.plain("]"):
                mode = "group"
                if not rs:
                    P.features.add("empty set")
            elif st["cur"] is not None and t.plain("-"):
                st["range"] = not st["range"]
                mode = "setrange"
                if st["cur"] == "ranged":
                    P.contested = True
            else:
                if t.esc and chr(t.cp) not in "-]":
                    bad(t, "unknown escape in set")
                rs.append([t.cp, t.cp])
                st["cur"] = "single"
                P.features.add("set")
        elif mode == "setrange":
            if t.uni and t.cp in (45, 93):
                P.contested = True
            rs = st["item"].data
            if t.plain("]"):
                bad(t, "unfinished range")
            if t.esc and chr(t.cp) not in "-]":
                bad(t, "unknown escape in set")
            if t.cp < rs[-1][0]:
                bad(t, "descending range")
            if rs[-1][0] < 0xd800 and t.cp > 0xdfff:
                rs[-1][1] = 0xd7ff
                rs.append([0xe000, t.cp])
                P.features.add("range across surrogates")
            else:
                rs[-1][1] = t.cp
            P.features.add("range")
            st["cur"] = "ranged"
            mode = "set"
        elif mode == "mult":
            if t.uni:
                P.contested = True
            if t.plain("}"):
                if st["n"] == 0:
                    P.contested = True
                if st["others"] + st["seg"].weight > SIZE_MAX:
                    bad(t, "multiplier sum overflows")
                if st["seg"].weight == 0:
                    P.features.add("zero multiplier")
                mode = "group"
            elif not t.esc and 48 <= t.cp <= 57:
                if t.uni:
                    P.contested = True
                v = st["seg"].weight * 10 + t.cp - 48
                if v > SIZE_MAX:
                    bad(t, "count overflows")
                st["seg"].weight = v
                st["n"] += 1
            else:
                bad(t, "not a digit")
        elif mode == "repeat":
            if t.uni:
                P.contested = True
            if t.plain("}"):
                if st["nlo"] == 0 or (st["hi"] is not None and st["nhi"] == 0):
                    P.contested = True
                lo, hi = st["lo"], st["hi"]
                if hi is None:
                    hi = lo
                if hi < lo:
                    bad(t, "descending repeat")
                if hi - lo == SIZE_MAX:
                    bad(t, "too many choices")
                st["item"].lo, st["item"].hi = lo, hi
                if hi > lo:
                    P.features.add("repeat range")
                if lo == 0:
                    P.features.add("repeat from zero")
                mode = "group"
            elif t.plain(",") and st["hi"] is None:
                st["hi"] = 0
            elif not t.esc and 48 <= t.cp <= 57:
                if t.uni:
                    P.contested = True
                k, n = ("lo", "nlo") if st["hi"] is None else ("hi", "nhi")
                v = st[k] * 10 + t.cp - 48
                if v > SIZE_MAX:
                    bad(t, "count overflows")
                st[k] = v
                st[n] += 1
            else:
                bad(t, "not a digit")
        elif mode == "special":
            if not t.plain("{"):
                bad(t, "name expected")
            if t.uni:
                P.contested = True
            mode = "name"
        elif mode == "name":
            if t.plain("}"):
                if t.uni:
                    P.contested = True
                if not st["item"].data:
                    bad(t, "empty name")
                P.features.add("wordlist" if st["item"].kind == "wl" else "markov")
                mode = "group"
            else:
                if t.cp == 0:
                    P.contested = True
                st["item"].data += chr(t.cp)
    if mode != "group" or len(stack) != 1:
        e = ParseError("end", end_cp, end_byte, "unfinished " + mode)
        e.contested = P.contested
        raise e
    drop_empty(stack[-1].segs[-1])
    P.root = root
    return P


def parse(data, limit=LIMIT):
    """data: bytes of the pattern. Returns Parsed; raises ParseError."""
    c, w, bad = utf8_decode(data)
    end_cp, end_byte = len(c), sum(w)
    if bad is None:
        return parse_tokens(tokenize(c, w), end_cp, end_byte, limit)
    # everything before the ill-formed sequence is read first
    try:
        p = parse_tokens(tokenize(c, w), end_cp, end_byte, limit)
    except ParseError as e:
        if e.kind == "token":
            raise
        n = ParseError("utf8", end_cp, end_byte, "ill-formed UTF-8")
        n.contested = getattr(e, "contested", False)
        raise n
    n = ParseError("utf8", end_cp, end_byte, "ill-formed UTF-8")
    n.contested = p.contested
    raise n


def parse_cps(c, limit=LIMIT):
    return parse_tokens(tokenize(c, [1] * len(c)), len(c), len(c), limit)


# ----------------------------------------------------------------------- generation
class GenFail(Exception):
    pass


class Words:
    """A loaded wordlist: words (bytes) and a Markov chain of some order."""

    def __init__(self, content, level):
        self.level = level
        self.words = [w for w in content.split(b"\0")[0].split(b"\n") if w]
        self._chain = None

    def chain(self):
        if self._chain is None:
            ws = []
            for w in self.words:
                c, _, bad = utf8_decode(w)
                if bad is None:
                    ws.append((c, 1))
            self._chain = Chain(self.level, ws)
        return self._chain


SIZES = [3, 7, 17, 37, 79, 163, 331, 673, 1361, 2729, 5471, 10949, 21911, 43853, 87719,
         175447, 350899, 701819, 1403641]


class Chain:
    def __init__(self, level, words):
        self.level = level
        self.count = 0
        self.table = {}
        for w, weight in words:
            if weight == 0:
                continue
            seq = [0] * level + list(w) + [0]
            for i in range(len(seq) - level):
                ctx = tuple(seq[i:i + level])
                t = self.table.setdefault(ctx, {})
                nxt = seq[i + level]
                t[nxt] = t.get(nxt, 0) + weight
                self.count += weight
        self.order = {}

    def leaf(self, ctx):
        """Successors in the order in which draws are attributed."""
        if ctx not in self.order:
            t = self.table[ctx]
            for size in SIZES:
                if len({c % size for c in t}) == len(t):
                    break
            self.order[ctx] = sorted(t.items(), key=lambda kv: kv[0] % size)
        return self.order[ctx]


class Run:
    """Interprets a parsed pattern with a stream, exactly as documented."""

    def __init__(self, parsed, stream, words=None, depth=1000, max_out=1 << 20):
        self.root = parsed.root
        self.s = stream
        self.words = words or {}
        self.depth_limit = depth
        self.max_out = max_out
        self.stats = {}
        self.deep = parsed.depth if getattr(parsed, "depth", 0) > 100 else 0

    def output(self):
        """(codepoints, entropy in bits); raises GenFail"""
        self.out = []
        self.bits = 0.0
        if not self.deep:
            self.group(self.root, self.depth_limit)
            return self.out, self.bits
        # nesting up to the depth limit is followed recursively
        before = sys.getrecursionlimit()
        sys.setrecursionlimit(before + 4 * self.deep)
        try:
            self.group(self.root, self.depth_limit)
        finally:
            sys.setrecursionlimit(before)
        return self.out, self.bits

    def group(self, g, depth):
        # explicit recursion is bounded by the depth limit of the patterns used
        if depth == 0:
            raise GenFail("depth")
        total = g.total()
        if total == 0:
            raise GenFail("nothing to choose")
        c = draw(self.s, total)
        for k, seg in enumerate(g.segs):
            if c < seg.weight:
                break
            c -= seg.weight
        self.bits += math.log2(total) - math.log2(seg.weight)
        for item in seg.items:
            self.item(item, depth - 1)

    def item(self, item, depth):
        if item.maybe:
            self.bits += 1
            if not draw_bool(self.s):
                return
        n = item.lo
        if item.hi > item.lo:
            n += draw(self.s, item.hi - item.lo + 1)
            self.bits += math.log2(item.hi - item.lo + 1)
        for _ in range(n):
            k = item.kind
            if k == "lit":
                self.out.append(item.data)
            elif k == "set":
                total = sum(b - a + 1 for a, b in item.data)
                if total:
                    c = draw(self.s, total)
                    for a, b in item.data:
                        if c <= b - a:
                            self.out.append(a + c)
                            break
                        c -= b - a + 1
                    self.bits += math.log2(total)
            elif k == "grp":
                self.group(item.data, depth)
            elif k == "wl":
                w = self.words.get(item.data)
                if w is None or not w.words:
                    raise GenFail("no words")
                word = w.words[draw(self.s, len(w.words))]
                c, _, bad = utf8_decode(word)
                if bad is not None:
                    raise GenFail("word is not UTF-8")
                self.out += c
                self.bits += math.log2(len(w.words))
            elif k == "mk":
                w = self.words.get(item.data)
                if w is None:
                    raise GenFail("no wordlist")
                ch = w.chain()
                if not ch.count:
                    raise GenFail("no words")
                ctx = (0,) * ch.level
                while True:
                    leaf = ch.leaf(ctx)
                    total = sum(n for _, n in leaf)
                    c = draw(self.s, total)
                    for cp, cnt in leaf:
                        if c < cnt:
                            break
                        c -= cnt
                    self.bits += math.log2(total) - math.log2(cnt)
                    if cp == 0:
                        break
                    self.out.append(cp)
                    ctx = ctx[1:] + (cp,)
                    if len(self.out) > self.max_out:
                        raise GenFail("runaway")
            else:
                raise GenFail("special")
            if len(self.out) > self.max_out:
                raise GenFail("too long")


# -------------------------------------------------------------- language membership
def members(parsed, words, out):
    """Is out (list of codepoints) in the language of the pattern? Position-set
    matching; independent of the order or encoding of the random choices."""
    n = len(out)
    memo = {}

    def group(g, pos):
        key = (id(g), pos)
        if key in memo:
            return memo[key]
        res = set()
        for seg in g.segs:
            if seg.weight == 0:
                continue
            cur = {pos}
            for it in seg.items:
                nxt = set()
                for p in cur:
                    nxt |= item(it, p)
                cur = nxt
                if not cur:
                    break
            res |= cur
        memo[key] = res
        return res

    def once(it, p):
        k = it.kind
        if k == "lit":
            return {p + 1} if p < n and out[p] == it.data else set()
        if k == "set":
            if not it.data:
                return {p}
            return {p + 1} if p < n and any(a <= out[p] <= b for a, b in it.data) else set()
        if k == "grp":
            return group(it.data, p)
        if k == "wl":
            r = set()
            for w in set(words[it.data].words):
                c = [ord(x) for x in w.decode("utf-8")]
                if out[p:p + len(c)] == c:
                    r.add(p + len(c))
            return r
        if k == "mk":
            ch = words[it.data].chain()
            r = set()
            ctx = (0,) * ch.level
            q = p
            while True:
                t = ch.table.get(ctx, {})
                if 0 in t:
                    r.add(q)
                if q < n and out[q] != 0 and out[q] in t:
                    ctx = ctx[1:] + (out[q],)
                    q += 1
                else:
                    return r
        return set()

    def item(it, p):
        res = {p} if it.maybe else set()
        cur = {p}
        if it.lo == 0:
            res |= cur
        i = 0
        seen = set()
        while i < it.hi:
            nxt = set()
            for q in cur:
                nxt |= once(it, q)
            i += 1
            if not nxt:
                break
            if i >= it.lo:
                if nxt <= res and nxt == cur:
                    break
                res |= nxt
            elif nxt == cur:
                # nothing consumed any more: every further count gives the same
                res |= nxt
                break
            cur = nxt
        return res

    return n in group(parsed.root, 0)


# --------------------------------------------------------------------------- sizes
def max_len(g, words=None):
    """Upper bound of the output length (in codepoints), Markov excluded."""
    best = 0
    for seg in g.segs:
        if not seg.weight:
            continue
        t = 0
        for it in seg.items:
            if it.kind == "grp":
                one = max_len(it.data, words)
            elif it.kind == "wl":
                w = (words or {}).get(it.data)
                one = max([len(x) for x in w.words] or [0]) if w else 0
            else:
                one = 1
            t += max(one, 1) * it.hi
        best = max(best, t)
    return best


def max_bits(g, words=None):
    best = 0.0
    for seg in g.segs:
        if not seg.weight:
            continue
        t = math.log2(g.total()) - math.log2(seg.weight)
        for it in seg.items:
            one = 0.0
            if it.kind == "grp":
                one = max_bits(it.data, words)
            elif it.kind == "set":
                one = math.log2(max(1, sum(b - a + 1 for a, b in it.data)))
            elif it.kind == "wl":
                w = (words or {}).get(it.data)
                one = math.log2(max(1, len(w.words))) if w else 0
            t += (1 if it.maybe else 0) + math.log2(it.hi - it.lo + 1) + one * it.hi
        best = max(best, t)
    return best


def nesting(g):
    """Deepest nesting over all choices (root counts one)."""
    best = 0
    for seg in g.segs:
        for it in seg.items:
            if it.kind == "grp" and it.hi > 0:
                best = max(best, nesting(it.data))
    return best + 1


# ---------------------------------------------------------------- random sources
class XorshiftSource:
    """Whole 64-bit values per read; what is left of the last one is dropped."""

    def __init__(self, seed):
        self.x = seed & M64

    def read(self, n):
        out = []
        x = self.x
        for _ in range((n + 7) // 8):
            x ^= (x << 13) & M64
            x ^= x >> 7
            x ^= (x << 17) & M64
            out.append(x)
        self.x = x
        return struct.pack("<%dQ" % len(out), *out)[:n]


_windows = {}


class ChachaSource:
    def __init__(self, key, nonce):
        self.key, self.nonce, self.pos = key, nonce, 0

    def read(self, n):
        # a window of the stream at a time, shared between all sources
        out = b""
        while n:
            win = self.pos // 16384
            k = (self.key, self.nonce, win)
            if k not in _windows:
                if len(_windows) > 600:
                    _windows.clear()
                _windows[k] = chacha20_bytes(self.key, self.nonce, win * 16384, 16384)
            at = self.pos % 16384
            part = _windows[k][at:at + n]
            out += part
            n -= len(part)
            self.pos += len(part)
        return out


class TakeSource:
    def __init__(self, stream):
        self.stream = stream

    def read(self, n):
        return self.stream.take(n)


class ZeroSource:
    def read(self, n):
        return bytes(n)


class RandomModel:
    """Buffered reads of 1024 bytes; larger requests bypass the buffer."""
    SIZE = 1024

    def __init__(self, source, eager):
        self.src = source
        self.eager = eager
        self.buf = source.read(self.SIZE)
        self.pos = 0
        self.refills = 0
        self.direct = 0
        self.dropped = 0

    def reload(self):
        self.dropped += self.SIZE - self.pos
        self.buf = self.src.read(self.SIZE)
        self.pos = 0

    def read(self, n):
        if n > self.SIZE:
            self.direct += 1
            return self.src.read(n)
        out = self.buf[self.pos:self.pos + n]
        self.pos += len(out)
        if self.pos == self.SIZE and (self.eager or len(out) < n):
            self.refills += 1
            self.buf = self.src.read(self.SIZE)
            self.pos = 0
            if len(out) < n:
                rest = n - len(out)
                out += self.buf[:rest]
                self.pos = rest
                if rest == self.SIZE and self.eager:
                    self.buf = self.src.read(self.SIZE)
                    self.pos = 0
        return out

    def op(self, op, arg):
        """Operation of the harness' random_ops: bytes or int."""
        le = int.from_bytes
        if op == 0:
            return self.read(arg)
        if op in (1, 2, 3, 4):
            return le(self.read(1 << (op - 1)), "little")
        if op == 5:
            return 1 if self.read(1)[0] < 128 else 0
        if op in (6, 7, 8, 9):
            size = 1 << (op - 6)
            n = arg & ((1 << (8 * size)) - 1)
            mask = (1 << n.bit_length()) - 1
            while True:
                v = le(self.read(size), "little") & mask
                if v < n:
                    return v
        if op == 10:
            self.reload()
            return 0
        if op == 11:
            self.src.pos = arg
            self.dropped += self.SIZE - self.pos
            self.buf = self.src.read(self.SIZE)
            self.pos = 0
            return 0
        raise ValueError(op)

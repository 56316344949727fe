"""Models of the published primitives that are bundled with the library."""
import hashlib, struct
from . import model

P = 2 ** 255 - 19
L = 2 ** 252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, P - 2, P) % P
A = 486662
ROOT = pow(2, (P - 1) // 4, P)              # a square root of -1


def le(b): return int.from_bytes(b, "little")
def enc(n, size=32): return n.to_bytes(size, "little")
def inv(x): return pow(x, P - 2, P)
def square(x): return pow(x, (P - 1) // 2, P) in (0, 1)


def sqrt(x):
    r = pow(x, (P + 3) // 8, P)
    if r * r % P != x % P:
        r = r * ROOT % P
    return r if r * r % P == x % P else None


def blake2b(size, key, data):
    return hashlib.blake2b(data, digest_size=size, key=key).digest()


# ------------------------------------------------------------------- chacha20, poly1305
def hchacha20(key, data):
    # a block of the cipher, without the addition at its end
    c, n = struct.unpack("<Q", data[:8])[0], data[8:]
    block = struct.unpack("<16I", model.chacha20_block(key, n, c))
    first = struct.unpack("<4I", b"expand 32-byte k")
    last = struct.unpack("<4I", data)
    return struct.pack("<8I", *[(block[i] - first[i]) & 0xffffffff for i in range(4)],
                       *[(block[12 + i] - last[i]) & 0xffffffff for i in range(4)])


def xor(a, b): return bytes(x ^ y for x, y in zip(a, b))


def chacha20(kind, key, nonce, ctr, text):
    """(output, next counter)"""
    blocks = (len(text) + 63) // 64
    if kind == 2:
        key, nonce = hchacha20(key, nonce[:16]), nonce[16:]
    if kind == 1:
        big = ctr + (struct.unpack("<I", nonce[:4])[0] << 32)
        stream = b"".join(model.chacha20_block(key, nonce[4:], (big + i) & (2 ** 64 - 1)) for i in range(blocks))
        return xor(text, stream), (ctr + blocks) & 0xffffffff
    stream = b"".join(model.chacha20_block(key, nonce, (ctr + i) & (2 ** 64 - 1)) for i in range(blocks))
    return xor(text, stream), (ctr + blocks) & (2 ** 64 - 1)


def poly1305(key, data):
    r = le(key[:16]) & 0x0ffffffc0ffffffc0ffffffc0fffffff
    h = 0
    for i in range(0, len(data), 16):
        h = (h + le(data[i:i + 16] + b"\1")) * r % (2 ** 130 - 5)
    return enc((h + le(key[16:])) & (2 ** 128 - 1), 16)


def pad16(b): return b + b"\0" * (-len(b) % 16)


class Aead:
    def __init__(self, kind, key, nonce):
        self.counter = 0
        if kind == 2:
            key, nonce = hchacha20(key, nonce[:16]), nonce[16:]
        elif kind == 1:
            self.counter = struct.unpack("<I", nonce[:4])[0] << 32
            nonce = nonce[4:]
        self.key, self.nonce = key, nonce

    def keys(self):
        b = model.chacha20_block(self.key, self.nonce, self.counter)
        return b[:32], b[32:]

    def mac(self, ad, cipher):
        return poly1305(self.keys()[0], pad16(ad) + pad16(cipher) + struct.pack("<QQ", len(ad), len(cipher)))

    def crypt(self, text):
        return chacha20(0, self.key, self.nonce, self.counter + 1, text)[0]

    def advance(self):
        self.key = self.keys()[1]


# ----------------------------------------------------------------------------- x25519
def trim(s):
    b = bytearray(s)
    b[0] &= 248
    b[31] = b[31] & 127 | 64
    return bytes(b)


def ladder(n, u):
    x1, x2, z2, x3, z3, swap = u, 1, 0, u, 1, 0
    for t in range(255, -1, -1):
        k = n >> t & 1
        if k ^ swap:
            x2, x3, z2, z3 = x3, x2, z3, z2
        swap = k
        a, b = x2 + z2, x2 - z2
        aa, bb = a * a % P, b * b % P
        e = aa - bb
        da, cb = (x3 - z3) * a % P, (x3 + z3) * b % P
        x3, z3 = (da + cb) ** 2 % P, x1 * (da - cb) ** 2 % P
        x2, z2 = aa * bb % P, e * (aa + 121665 * e) % P
    if swap:
        x2, z2 = x3, z3
    return x2 * inv(z2) % P


def element(b):
    """A field element; the top bit is ignored."""
    return (le(b) & (2 ** 255 - 1)) % P


def x25519(secret, public):
    return enc(ladder(le(trim(secret)), element(public)))


def x25519_inverse(secret, point):
    """The multiple of the point by the inverse of the scalar modulo L (and one modulo the cofactor's eight: zero)."""
    s = le(trim(secret))
    t = pow(s, L - 2, L)
    while t % 8:
        t += L
    return enc(ladder(t, element(point)))


def x25519_to_eddsa(u):
    u = element(u)
    return enc((u - 1) * inv(u + 1) % P)


def eddsa_to_x25519(y):
    y = element(y)
    return enc((1 + y) * inv(1 - y) % P)


# ------------------------------------------------------------------------------ eddsa
def padd(p, q):
    (x1, y1, z1, t1), (x2, y2, z2, t2) = p, q
    a, b = (y1 - x1) * (y2 - x2) % P, (y1 + x1) * (y2 + x2) % P
    c, d = 2 * t1 * t2 * D % P, 2 * z1 * z2 % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return e * f % P, g * h % P, f * g % P, e * h % P


ZERO = (0, 1, 1, 0)


def pmul(n, p):
    q = ZERO
    while n:
        if n & 1:
            q = padd(q, p)
        p = padd(p, p)
        n >>= 1
    return q


def pneg(p): return (-p[0] % P, p[1], p[2], -p[3] % P)
def is_zero(p): return p[0] % P == 0 and (p[1] - p[2]) % P == 0


def point(x, y): return (x, y, 1, x * y % P)


def pencode(p):
    zi = inv(p[2])
    x, y = p[0] * zi % P, p[1] * zi % P
    return enc(y | (x & 1) << 255)


def pdecode(b):
    """A point, y reduced; None if there is none."""
    y, sign = element(b), b[31] >> 7
    x = sqrt((y * y - 1) * inv(D * y * y + 1) % P)
    if x is None:
        return None
    if x & 1 != sign:
        x = -x % P
    return point(x, y)


BASE = pdecode(enc(4 * inv(5) % P))


def torsion():
    """The eight points of small order."""
    y = 3
    while True:
        p = pdecode(enc(y))
        if p:
            t = pmul(L, p)
            if not is_zero(pmul(4, t)):
                return [pmul(i, t) for i in range(8)]
        y += 1


TORSION = torsion()


def eddsa_keys(seed):
    a = blake2b(64, b"", seed)
    pub = pencode(pmul(le(trim(a[:32])), BASE))
    return seed + pub, pub


def hash_l(*parts): return le(blake2b(64, b"", b"".join(parts))) % L


def eddsa_sign(secret, message):
    a = blake2b(64, b"", secret[:32])
    r = hash_l(a[32:], message)
    R = pencode(pmul(r, BASE))
    h = hash_l(R, secret[32:], message)
    return R + enc((r + h * le(trim(a[:32]))) % L)


def check_equation(sig, pub, h):
    """[8](sB - hA - R) is zero, s is canonical, both points exist."""
    a, r, s = pdecode(pub), pdecode(sig[:32]), le(sig[32:])
    if a is None or r is None or s >= L:
        return False
    q = padd(padd(pmul(s, BASE), pmul(h, pneg(a))), pneg(r))
    return is_zero(pmul(8, q))


def eddsa_check(sig, pub, message):
    return check_equation(sig, pub, hash_l(sig[:32], pub, message))


# --------------------------------------------------------------------------- elligator
def elligator_map(hidden):
    r = (le(hidden) & (2 ** 254 - 1)) % P
    w = -A * inv(1 + 2 * r * r) % P
    e = pow((w * w * w + A * w * w + w) % P, (P - 1) // 2, P)
    return enc(w if e in (0, 1) else (-A - w) % P)


def elligator_possible(curve):
    u = element(curve)
    return square(-2 * u * (u + A) % P)

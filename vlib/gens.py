"""Structured generators. Hypothesis draws one byte string per case (the tape), and
the functions here decode it into patterns, wordlists, streams and histories.
All randomness therefore comes from, and is shrunk by, Hypothesis; an exhausted
tape reads as zeros, and zero always selects the simplest choice."""
from hypothesis import strategies as st

META = "\\|(){}[]?"
SIMPLE_ESC = ["\\n", "\\a", "\\b", "\\e", "\\f", "\\r", "\\t", "\\v", "\\\\"]


class Tape:
    __slots__ = ("d", "p")

    def __init__(self, data):
        self.d = data
        self.p = 0

    def byte(self):
        p = self.p
        self.p = p + 1
        return self.d[p] if p < len(self.d) else 0

    def done(self):
        return self.p >= len(self.d)

    def n(self, a, b):
        """integer in [a, b], zero bytes give a"""
        size = b - a + 1
        if size <= 1:
            return a
        v = self.byte()
        m = 256
        while m < size * 4 and m < (1 << 72):
            v = (v << 8) | self.byte()
            m <<= 8
        return a + v % size

    def pick(self, l):
        return l[self.n(0, len(l) - 1)]

    def chance(self, k, m):
        """true with probability k/m, false on zero"""
        return self.n(0, m - 1) >= m - k

    def bytes(self, n):
        return bytes(self.byte() for _ in range(n))

    def some(self, most, fn):
        return [fn() for _ in range(self.n(0, most))]

    def u64(self):
        k = self.n(0, 3)
        if k == 0:
            return self.n(0, 1000)
        if k == 1:
            return max(0, min(2**64 - 1, (1 << self.n(0, 64)) + self.n(0, 4) - 2))
        return int.from_bytes(self.bytes(8), "little")


def tapes(small=0, big=400):
    sizes = sorted({small, min(big, small + 24), min(big, small + 80), min(big, small + 200), big // 2})
    return st.one_of(*[st.binary(min_size=s, max_size=big) for s in sizes])


def from_tape(fn, small=0, big=400):
    """Strategy of fn(Tape)."""
    return tapes(small, big).map(lambda b: fn(Tape(b)))


# characters whose low byte (or low bits) looks like a metacharacter
LOOKALIKE = [0x100 * k + ord(c) for c in "\\|(){}[]?-,0w" for k in (1, 2, 0x21, 0x4e, 0x100, 0x1f6)]
LOOKALIKE = [c for c in LOOKALIKE if not 0xd800 <= c <= 0xdfff]
EDGE = [0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xff, 0x100,
        0xa0, 0xad, 0x200b, 0x2028, 0xfeff, 0xfffe, 0x85, 0x1f600, 0x3ff, 0x400, 0xfff, 0x1000, 0x3ffff,
        0x40000, 0x100000]
ORD_ASCII = [ord(c) for c in
             "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 !\"#$%&'*+,-./:;<=>@^_`~"]
CONTROL = list(range(1, 32)) + [127]
WEIGHTS = [0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 10, 15, 16, 31, 100, 127, 128, 255, 256, 257, 1000, 65535,
           65536, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**40, 2**62]


def scalar(t):
    k = t.n(0, 7)
    if k < 2:
        return t.pick(ORD_ASCII)
    if k == 2:
        return t.pick(LOOKALIKE)
    if k == 3:
        return t.pick(EDGE)
    if k == 4:
        return t.n(0x80, 0x7ff)
    if k == 5:
        return t.n(0x800, 0xd7ff)
    if k == 6:
        return t.n(0xe000, 0xffff)
    return t.n(0x10000, 0x10ffff)


def stream(t):
    """(prefix, seed) of a scripted randomness source"""
    k = t.n(0, 5)
    if k < 3:
        p = b""
    elif k == 3:
        p = t.bytes(t.n(0, 40))
    else:
        p = b"".join(t.some(12, lambda: t.pick(
            [b"\xff" * 8, b"\0" * 8, b"\x7f", b"\x80", b"\x81", b"\1" + b"\0" * 7, b"\2" + b"\0" * 7,
             b"\xff", b"\0" * 7 + b"\x80"])))
    return p, t.n(0, 2**32 - 1)


def hexesc(cp, style):
    h = "%x" % cp
    if style & 1:
        h = h.upper()
    if style & 2:
        h = h.rjust(min(6, len(h) + (style >> 2) % 4), "0")
    return "\\u{%s}" % h


class PatternMaker:
    def __init__(self, t, wl=(), mk=(), control=True, big_weights=True, empty=True, nul=False,
                 unicode=True, maxrep=12):
        self.t = t
        self.n = t.n
        self.pick = t.pick
        self.wl = list(wl)
        self.mk = list(mk)
        self.control = control
        self.big = big_weights
        self.empty = empty
        self.nul = nul
        self.unicode = unicode
        self.maxrep = maxrep

    def codepoint(self):
        if not self.unicode:
            return self.pick(ORD_ASCII)
        k = self.n(0, 9)
        if k < 5:
            return self.pick(ORD_ASCII)
        if k == 5:
            return self.pick(LOOKALIKE)
        if k == 6:
            return self.pick(EDGE)
        if k == 7 and self.control:
            return self.pick(CONTROL)
        return scalar(self.t)

    def literal(self):
        k = self.n(0, 11)
        if k == 11:
            return "\\" + self.pick("|(){}[]")
        if k == 10 and self.control:
            return self.pick(SIMPLE_ESC)
        if k == 9:
            cp = self.codepoint()
            if self.nul and self.t.chance(1, 10):
                cp = 0
            return hexesc(cp, self.n(0, 15))
        return chr(self.codepoint())

    def setchar(self, cp, first):
        c = chr(cp)
        if c == "]":
            return "\\]"
        if c == "-":
            return "-" if first else "\\-"
        if c == "\\":
            return "\\\\"
        if self.unicode and self.t.chance(1, 8):
            return hexesc(cp, self.n(0, 15))
        return c

    def cset(self, overlap=True):
        n = self.n(0 if self.empty else 1, 5)
        if n == 0 and not self.t.chance(1, 3):
            n = 1
        parts, used = [], []
        for i in range(n):
            if self.unicode and self.t.chance(1, 4):
                a = self.codepoint()
            else:
                a = 33 + (64 + self.n(0, 93)) % 94
            size = self.pick([0, 0, 1, 2, 3, 5, 9, 25, 30, 63, 64, 200, 0x900, 0x11000])
            b = min(0x10ffff, a + size)
            if not self.unicode:
                b = max(a, min(b, 126))
            if 0xd800 <= b <= 0xdfff:
                b = 0xe000
            if not overlap and any(not (b < x or y < a) for x, y in used):
                continue
            used.append((a, b))
            s = self.setchar(a, not parts)
            if b > a or self.t.chance(1, 16):
                s += "-" + (chr(b) if b not in (45, 93, 92) else "\\" + chr(b))
            elif s == "-" and n > 1:
                s = "\\-"
            parts.append(s)
        if not parts and not self.empty:
            parts = ["a"]
        return "[" + "".join(parts) + "]"

    def modifier(self, budget):
        """(text, maximum repetitions)"""
        k = self.n(0, 9)
        if k < 5:
            return "", 1
        if k == 5:
            return "?", 1
        top = max(1, min(self.maxrep, budget))
        hi = self.n(0, top)
        if k in (6, 7):
            text = "{%d}" % hi
        else:
            lo = self.n(0, hi)
            text = "{%d,%d}" % (lo, hi)
            if lo == hi == 0:
                text = "{0}"
        if k == 9:
            text = self.pick([text + "?", "?" + text])
        if text[0] == "{" and self.t.chance(1, 16):
            text = "{%d}" % self.n(0, 9) + text
        return text, max(1, hi)

    def item(self, depth, budget):
        kinds = ["lit"] * 5 + ["set"] * 3
        if depth > 0:
            kinds += ["grp"] * 3
        if self.wl:
            kinds += ["wl"]
        if self.mk:
            kinds += ["mk"]
        kind = self.pick(kinds)
        mod, reps = self.modifier(budget)
        if kind == "lit":
            if self.t.chance(1, 10):
                return "".join(chr(self.pick(ORD_ASCII)) for _ in range(self.n(1, 20))) + mod
            return self.literal() + mod
        if kind == "set":
            return self.cset() + mod
        if kind == "wl":
            return "\\w{%s}" % self.pick(self.wl) + mod
        if kind == "mk":
            return "\\m{%s}" % self.pick(self.mk) + mod
        return "(" + self.body(depth - 1, max(1, budget // reps)) + ")" + mod

    def body(self, depth, budget):
        nseg = self.pick([1, 1, 1, 2, 2, 3, 4, 5])
        segs = []
        for _ in range(nseg):
            text = ""
            if self.t.chance(1, 4):
                if self.big and self.t.chance(1, 4):
                    w = self.pick(WEIGHTS)
                else:
                    w = self.n(0, 9)
                text = "{%d}" % w
                if self.t.chance(1, 10):
                    text = "{%d}" % self.n(0, 5) + text
            k = self.pick([1, 0, 1, 1, 2, 2, 3, 4, 6]) if self.empty else self.pick([1, 1, 2, 3])
            each = max(1, budget // max(1, k))
            for _ in range(k):
                text += self.item(depth, each)
            segs.append(text)
        return "|".join(segs)


def pattern(t, depth=3, budget=40, **kw):
    m = PatternMaker(t, **kw)
    return m.body(t.n(0, depth), budget)


MODS = ["?", "{0}", "{1}", "{2}", "{3}", "{0,0}", "{0,1}", "{1,1}", "{1,2}", "{0,3}", "{2,2}"]


def modified(t, wl=()):
    """Short items with every combination of modifiers between runs of literals."""
    def run():
        return "".join(t.pick("abcdefgh") for _ in range(t.pick([0, 1, 1, 2, 3, 6, 7, 8, 9, 15])))
    atoms = ["x", "y", "\u00e9", "\\|", "\\n", "\\u{41}", "[xy]", "[k-n]", "(x)", "(xy)", "(x|y)", "(|x)", "(x|)", "({2}x|y)", "((x))", "(x?)",
             "()", "[]", "(|)", "({0}x|y)", "(x|{0}y)"] + ["\\w{%s}" % n for n in wl]
    parts = []
    for _ in range(t.n(1, 4)):
        parts.append(run())
        parts.append(t.pick(atoms))
        parts += [t.pick(MODS) for _ in range(t.pick([1, 0, 1, 2, 2, 3]))]
    parts.append(run())
    text = "".join(parts)
    return text if not t.chance(1, 3) else t.pick(["(%s)z", "(%s|z){2}", "z|%s", "%s|z", "(%s)?z"]) % text


# ------------------------------------------------------------------------ mutation
TOKENS = ["a", "{", "}", "{2}", "{3,1}", "{1,3}", "{,", "?", "(", ")", "|", "[", "]", "[a-", "-", "\\", "\\u",
          "\\u{", "\\u{41}", "\\u{110000}", "\\u{d800}", "\\u{dfff}", "\\u{1234567}", "\\u{zz}", "\\u{}",
          "\\w{a}", "\\w", "\\m{", "\\q", "\\]", "\\-", "\\|", "é", "€", "😀", "\u0128", "\u017c", "0", "9",
          ",", "\\\\", "\\n", "{18446744073709551615}", "{18446744073709551616}", "[z-a]", "[é-e]",
          "[a-\\n]", "\\\u0128", "{\u0132}", "()", "[]", "{0}", "{1}", "{99999999999999999999}",
          "(((", ")))", "\\u{10FFFF}", "\\u{00e9}", "{2,1}", "{9,10}", "{10,9}", "(|)", "[^a]", "*", "+"]


def mutate(t, text, tokens=TOKENS, most=3):
    s = list(text)
    for _ in range(t.n(1, most)):
        k = t.n(0, 5)
        i = t.n(0, len(s))
        if k == 5:
            s[i:i] = ["\\"]
        elif k == 0 or not s:
            s[i:i] = list(t.pick(tokens))
        elif k == 1:
            del s[i:i + t.n(1, 3)]
        elif k == 2:
            s = s[:i]
        elif k == 3 and i < len(s):
            s[i:i + 1] = list(t.pick(tokens))
        else:
            j = t.n(0, len(s))
            a, b = min(i, j), max(i, j)
            s[a:a] = s[a:b][:40]
    return "".join(s)


def token_soup(t, most=14):
    return "".join(t.pick(TOKENS) if t.chance(3, 4) else chr(scalar(t)) for _ in range(t.n(0, most)))


BAD_UTF8 = [b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80",
            b"\xed\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80",
            b"\xff", b"\xfe", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xe2\x28\xa1", b"\xf0\x9f\x28\x80",
            b"\xf8\x88\x80\x80\x80", b"\xc3\xc3\xa9", b"\xe2\x82\xe2\x82\xac"]


# ------------------------------------------------------------------------ wordlists
NAMES = ["a", "w", "eng", "x y", "größe", "\u0128\u017c", "名前"]


def word(t, unicode=True):
    k = t.n(0, 3)
    if k == 0:
        return "".join(t.pick("abcde") for _ in range(t.n(1, 5)))
    if k == 1 or not unicode:
        return "".join(chr(97 + t.n(0, 25)) for _ in range(t.n(1, 12)))
    return "".join(chr(scalar(t)) for _ in range(t.n(1, 8)))


def small_word(t):
    return "".join(t.pick("ab") for _ in range(t.n(1, 4)))


def word_file(t, most=14, fn=word):
    """Bytes of a file of words, one per line, with or without blank lines."""
    out = []
    for _ in range(t.n(1, most)):
        out.append(fn(t))
        out.append("\n" * t.pick([1, 1, 1, 1, 2, 3]))
    text = "".join(out)
    k = t.n(0, 3)
    if k == 1:
        text = text.rstrip("\n")
    elif k == 2:
        text = "\n" + text
    return text.encode("utf-8")


def word_specs(t, most=2, fn=word, levels=(1, 2, 3, 4, 3, 2, 1, 9, 17, 255), count=14):
    names = []
    for _ in range(t.n(0, most)):
        n = t.pick(NAMES)
        if n not in names:
            names.append(n)
    return [(n, word_file(t, count, fn), t.pick(levels)) for n in names]


# ------------------------------------------------------------------------ large structures
M64 = 2**64 - 1
SIZES = [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 10000]
BIG = [16384, 32767, 32768, 65535, 65536, 65537, 70000]


def count(t, most):
    """A size next to or beyond the limits of narrow counters."""
    k = t.n(0, 4)
    if k == 4:
        return t.n(2, most)
    return t.pick([s for s in SIZES + BIG * 2 if s <= most])


def lcg(seed):
    """A few pseudo-random numbers from a seed, the same for ever."""
    x = seed & 0xffffffff or 1
    while True:
        x = (x * 6364136223846793005 + 1442695040888963407) & 0xffffffffffffffff
        yield x >> 33


def large(t, kinds=("reps", "range", "alts", "set", "items", "words", "wordlen", "chain", "deep", "product", "after", "wide", "name", "sparse")):
    """Compact description of a pattern with many of something; expand_large writes it out."""
    k = t.pick(kinds)
    d = {"kind": k, "seed": t.n(0, 65535)}
    if k == "reps":
        d.update(n=count(t, 140000), atom=t.pick(["x", "\u00e9", "[ab]", "(x|y)", "(x)", "[x]", "x?{1}"]))
        if "x?" in d["atom"]:
            d["n"] = 1
    elif k == "range":
        n = count(t, 70000)
        d.update(lo=max(0, n - t.n(0, 300)), hi=n, atom=t.pick(["x", "\u00e9", "[x]", "(y)"]))
    elif k == "alts":
        d.update(n=count(t, 70000), weights=t.pick([0, 1, 7, 1000, 2**31, 2**40]), inner=t.n(0, 1))
    elif k == "set":
        d.update(n=count(t, 70000), width=t.pick([1, 1, 2, 3, 17, 256]), order=t.n(0, 2), reps=t.n(1, 3))
    elif k == "items":
        d.update(n=count(t, 67000), inner=t.n(0, 1))
    elif k == "words":
        d.update(n=count(t, 140000), reps=t.n(1, 4), unicode=t.n(0, 1))
    elif k == "wordlen":
        d.update(n=count(t, 70000), unicode=t.n(0, 2), markov=t.n(0, 1), level=t.n(1, 4))
    elif k == "chain":
        d.update(n=count(t, 70000), level=t.n(1, 3), letters=t.n(1, 4), reps=t.n(1, 3))
    elif k == "deep":
        d.update(n=t.pick([32, 33, 64, 65, 100, 255, 256, 257, 512, 1000, 1022, 1023]), body=t.pick(["x", "[a-z]?", "a|b", "({3}c|d){2}"]))
    elif k == "wide":
        # a huge range of repetitions, of which the stream chooses a small number
        d.update(width=t.pick([255, 256, 65535, 65536, 2**24, 2**24 + 1, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1, 2**32, 2**32 + 1,
                               2**40, 2**52, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 2, 10**9, 10**15]),
                 lo=t.n(0, 40), chosen=t.n(0, 60), high=t.n(0, 2**32), first=t.n(0, 3), atom=t.pick(["x", "[ab]", "(x|y)", "\u00e9"]))
    elif k == "name":
        d.update(n=count(t, 70000), unicode=t.n(0, 2), markov=t.n(0, 1))
    elif k == "sparse":
        # alternatives of which nearly all are empty
        d.update(n=count(t, 70000), at=t.n(0, 3), zero=t.n(0, 2), body=t.pick(["x", "[a-c]", "(y|z)", "\u00e9?"]), inner=t.n(0, 2))
    elif k == "product":
        d.update(a=t.n(1, 400), b=t.n(1, 400), c=t.n(1, 3))
    else:
        # something after a long run of something else
        d.update(n=count(t, 70000), what=t.n(0, 3))
    return d


def expand_large(d):
    """(pattern, wordlists, beginning of the stream or None)"""
    k, r = d["kind"], lcg(d["seed"])
    wl = []
    prefix = None
    n = d.get("n", 0)

    def picks(total, times, first):
        """Half of the time, a stream that chooses the last ones and those around the limits of narrow counters."""
        if d["seed"] % 2 == 0 or total == 0:
            return None
        near = [total - 1, total - 2, total // 2] + [b + j for b in (255, 256, 65535, 65536, 1 << 31, 1 << 32) for j in (-1, 0, 1)]
        near = [v for v in near if 0 <= v < total]
        return b"".join(v.to_bytes(8, "little") for v in [0] * first + [near[next(r) % min(len(near), 3 if i == 0 else 99)] for i in range(times)])

    if k == "reps":
        p = "%s{%d}" % (d["atom"], n)
        p = ["%s", "a%sb", "(%s|q)c"][d["seed"] % 3] % p
    elif k == "range":
        p = "%s{%d,%d}z" % (d["atom"], d["lo"], d["hi"])
    elif k == "sparse":
        n = max(n, 2)
        full = [0, n - 1, n // 2, d["seed"] % n][d["at"]]
        parts = [""] * n
        if d["zero"]:
            for i in range(1, n, 3 if d["zero"] == 1 else 1):
                parts[i] = ["{0}", "{0}q", "{2}", "()"][next(r) % 4]
        parts[full] = d["body"]
        p = "|".join(parts)
        if d["inner"]:
            p = ["(" + p + ")?k", "a((" + p + "){2}){2}k"][d["inner"] - 1]
        if d["seed"] % 2:
            # the one that is not empty
            mine = sum(0 if part.startswith("{0}") else 2 if part.startswith("{2}") else 1 for part in parts[:full])
            prefix = (mine).to_bytes(8, "little") * (1 if d["inner"] == 0 else 6)
    elif k == "alts":
        parts = []
        total = 0
        for i in range(n):
            w = next(r) % (d["weights"] + 1) if d["weights"] and next(r) % 3 == 0 else None
            total += 1 if w is None else w
            parts.append(("" if w is None else "{%d}" % w) + "%x" % i)
        p = "|".join(parts)
        prefix = picks(total, 1 + d["inner"], d["inner"])
        if d["inner"]:
            p = "(" + p + "){2}-"
    elif k == "set":
        starts = [0x100 + 300 * i if n * 300 < 0xd000 else (0x100 + 2 * i if d["width"] < 2 and n < 26000 else 0x10000 + i * (0x100000 // n))
                  for i in range(n)]
        if d["order"] == 1:
            starts.reverse()
        elif d["order"] == 2:
            starts = [s for _, s in sorted((next(r), s) for s in starts)]
        w = min(d["width"], 0x100000 // max(n, 1), 300)
        prefix = picks(sum(w if w > 1 and i % 3 else 1 for i in range(n)), d["reps"], 1)
        p = "[" + "".join(chr(s) + ("-" + chr(s + w - 1) if w > 1 and i % 3 else "") for i, s in enumerate(starts)) + "]{%d}" % d["reps"]
    elif k == "fullset":
        # more than 2^32 choices in one set
        p = "[" + "\\u{e000}-\\u{10ffff}" * n + "]{3}"
        prefix = picks(n * 0x102000, 3, 1)
    elif k == "items":
        atoms = ["[ab]", "x{2}", "y?", "(p|q)", "z", "\u20ac{0,2}", "\\|", "()", "[k]"]
        p = "".join(atoms[next(r) % len(atoms)] for _ in range(n))
        if d["inner"]:
            p = "(%s)?e" % p
    elif k == "words":
        suffix = ["", "\u00e9", "\U0001f600"] if d["unicode"] else ["", "s", "ing"]
        wl = [("w", "\n".join("%d%s" % (i, suffix[next(r) % 3]) for i in range(n)).encode(), 1)]
        p = "\\w{w}{%d}." % d["reps"]
        prefix = picks(n, d["reps"], 1)
    elif k == "wordlen":
        cs = ["ab", "a\u00e9", "a\u20ac\U0001f600"][d["unicode"]]
        word = "".join(cs[next(r) % len(cs)] for _ in range(n))
        if d["markov"]:
            wl = [("w", ("start" + word[:300] + "\nother\n").encode(), d["level"])]
            p = "\\m{w}"
        else:
            wl = [("w", ("x\n%s\n\n%s" % (word, word[:n // 2])).encode(), 1)]
            p = "\\w{w}{3}"
    elif k == "chain":
        al = "abcd"[:d["letters"]]
        wl = [("w", "\n".join("".join(al[next(r) % len(al)] for _ in range(1 + next(r) % 4)) for _ in range(n)).encode(), d["level"])]
        p = "\\m{w}{%d}" % d["reps"]
    elif k == "deep":
        p = "(" * n + d["body"] + ")" * n
    elif k == "wide":
        hi = min(d["lo"] + d["width"], 2**64 - 1)
        n = hi - d["lo"] + 1
        p = "%s{%d,%d}." % (d["atom"], d["lo"], hi)
        mask = (1 << n.bit_length()) - 1
        v = min(d["chosen"], n - 1)
        draws = [0] + [max(n, mask - i) & M64 for i in range(d["first"]) if mask >= n and mask - i >= n]
        draws.append((v | ((d["high"] << 40) & ~mask)) & M64)
        prefix = b"".join(x.to_bytes(8, "little") for x in draws)
    elif k == "name":
        cs = ["ab", "a\u00e9", "a\u20ac\U0001f600"][d["unicode"]]
        name = "".join(cs[next(r) % len(cs)] for _ in range(n))
        wl = [("w", b"no", 1), (name, b"yes\nyes too", 1), (name[:-1], b"neither", 1)]
        p = "\\" + "wm"[d["markov"]] + "{" + name + "}{2}"
        if name[:-1] in ("", "w") or name == "w":
            wl = wl[1:2]
    elif k == "product":
        p = "((x{%d}){%d}[ab]){%d}" % (d["a"], d["b"], d["c"])
    else:
        pre = ["a" * n, "[ab]" * min(n, 12000), "(a)" * min(n, 12000), "\u20ac" * n][d["what"]]
        p = pre + "(b|{2}c)d?[e-g]{1,2}\\|"
    return p, wl, prefix

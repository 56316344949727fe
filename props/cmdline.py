"""A reference model of the command line: what a list of options asks for."""
import os, sys
from .common import *

BUILTIN = {
    "apple1": "([a-zA-Z0-9]{3}-){3}[a-zA-Z0-9]{3}",
    "apple2": "([a-zA-Z0-9]{6}-){2}[a-zA-Z0-9]{6}",
    "uuid": "[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}",
    "edge": "[A-Za-f0-9:_\\-]{15}",
    "firefox": "[a-zA-Z0-9]{15}",
}
for _n in range(1, 9):
    _w = "([bdfghjklmnprstvz][aiou]){2}[bdfghjklmnprstvz]"
    BUILTIN["proquint%d" % (16 * _n)] = _w + "(-" + _w + "){%d}" % (_n - 1)

LONG = {"a": "amount", "e": "entropy", "h": "help", "j": "json", "l": "list", "m": "master", "d": "domain",
        "t": "token", "p": "preset", "P": "define-preset", "D": "depth", "v": "version", "z": "null", "w": "wordlist",
        "r": "random", "M": "markov-length"}
FLAGS = "ezjhvl"


def subst(value, paths):
    for i, p in enumerate(paths):
        value = value.replace("{F%d}" % i, p)
    return value


def render(items, styles, paths):
    """Arguments of a list of options; styles decide how each is written"""
    args = []
    bundle = False  # the last argument is a group of short flags
    for i, item in enumerate(items):
        s = styles[i % len(styles)] if styles else 0
        key = item[0]
        if key == "pat":
            args.append(item[1])
            bundle = False
        elif key == "raw":
            args += [subst(x, paths) for x in item[1:] if isinstance(x, str)]
            bundle = False
        elif key == "--":
            args.append("--")
            bundle = False
        elif len(item) == 1:
            if s % 3 == 2:
                args.append("--" + LONG[key])
                bundle = False
            elif s % 3 == 1 and bundle:
                args[-1] += key
            else:
                args.append("-" + key)
                bundle = True
        else:
            v = subst(item[1], paths)
            k = s % 5
            if k == 0:
                args += ["-" + key, v]
            elif k == 1 and v:
                args.append("-" + key + v)
            elif k == 2:
                args += ["--" + LONG[key], v]
            elif k == 3:
                args.append("--" + LONG[key] + "=" + v)
            elif bundle:
                args[-1] += key
                args.append(v)
            else:
                args += ["-" + key, v]
            bundle = False
    return args


class Plan:
    """codes: statuses allowed for the misuses seen, None for any failure"""

    def __init__(self):
        self.amount = 1
        self.entropy = self.null = self.json = False
        self.presets = dict(BUILTIN)
        self.markov = 3
        self.words = {}
        self.random = None
        self.master = self.domain = self.token = None
        self.preset = None
        self.patterns = []
        self.codes = set()
        self.info = None

    def error(self, code):
        self.codes.add(code)

    def option(self, key, value, files):
        if key == "a":
            n = number(value)
            if n is None or not 1 <= n < 2**31:
                self.error(5)
            else:
                self.amount = n
        elif key == "M":
            n = number(value)
            if n is None or not 1 <= n <= 255:
                self.error(6)
            else:
                self.markov = n
        elif key == "e":
            self.entropy = True
        elif key == "z":
            self.null = True
        elif key == "j":
            self.json = True
        elif key in "hvl":
            self.info = self.info or key
        elif key == "m":
            self.master = value
        elif key == "d":
            self.domain = value
        elif key == "t":
            self.token = value
        elif key == "p":
            self.preset = value
        elif key == "P":
            name, sep, text = value.partition(":")
            if not sep:
                self.error(None)
            else:
                self.presets[name] = text
        elif key == "w":
            name, sep, path = value.partition(":")
            if not sep or path not in files:
                self.error(None)
            else:
                self.words[name] = model.Words(files[path], self.markov)
        elif key == "r":
            self.random = value
            if source(value, files) is None:
                self.error(2)

    def read(self, items, files):
        for item in items:
            if item[0] == "pat":
                self.patterns.append(item[1])
            elif item[0] == "raw":
                self.error(item[-1] if isinstance(item[-1], int) else None)
            elif item[0] != "--":
                self.option(item[0], item[1] if len(item) > 1 else None, files)

    def pattern(self):
        """text of the pattern to use; None if there is none or it is a misuse"""
        if self.preset is not None and self.preset not in self.presets:
            self.error(8)
            if self.patterns:
                self.error(1)
            return None
        if len(self.patterns) + (self.preset is not None) > 1:
            self.error(1)
            return None
        if self.patterns:
            return self.patterns[0]
        return None if self.preset is None else self.presets[self.preset]

    def stream(self, files):
        if self.random is not None:
            return source(self.random, files)
        if self.master is not None:
            return model.master_stream(self.master.encode(), (self.domain or "").encode(), (self.token or "").encode())
        return None


def number(v):
    try:
        return int(v, 10)
    except ValueError:
        return None


def source(desc, files):
    """stream of a textual description, None if it is not one"""
    kind, _, rest = desc.partition(":")
    if kind == "xorshift" and rest.isdigit() and 0 < int(rest) < 2**64:
        return model.xorshift_stream(int(rest))
    if kind == "zero":
        return Zero()
    if kind == "file" and rest in files:
        return model.BytesStream(files[rest])
    if kind == "chacha20-argon2":
        f = rest.split(":")
        if f[0] and len(f) <= 3:
            f = [x.encode() for x in f] + [b"", b""]
            return model.master_stream(f[0], f[1], f[2])
    if kind == "system" or desc == "system":
        return System()
    return None


class Zero:
    pos = 0

    def take(self, n):
        self.pos += n
        return b"\0" * n


class System:
    """randomness that cannot be predicted"""


class Outcome:
    pass


def expect(plan, files, most_bits=900):
    """What a run of this plan has to do. Raises Skip outside of the domain."""
    # nesting of up to the depth limit is followed recursively
    before = sys.getrecursionlimit()
    sys.setrecursionlimit(max(before, 30000))
    try:
        return predict(plan, files, most_bits)
    finally:
        sys.setrecursionlimit(before)


def predict(plan, files, most_bits):
    o = Outcome()
    o.plan = plan
    o.texts, o.bits, o.fail_at, o.parsed = [], [], None, None
    text = plan.pattern()
    o.codes = plan.codes
    o.info = plan.info
    o.text = text
    o.open = False
    if plan.codes or plan.info or text is None:
        if text is None and not plan.codes and not plan.info:
            o.info = "h"
        return o
    try:
        o.parsed = model.parse(text.encode("utf-8"))
    except model.ParseError as e:
        if getattr(e, "contested", False):
            raise Skip("contested")
        o.codes = {3}
        return o
    if o.parsed.contested:
        raise Skip("contested")
    s = plan.stream(files)
    if s is None or isinstance(s, System):
        if may_fail(o.parsed.root, plan.words):
            raise Skip("may fail")
        if plan.entropy and model.max_bits(o.parsed.root, plan.words) > most_bits:
            raise Skip("entropy overflow")
        o.open = True
        return o
    run = model.Run(o.parsed, s, plan.words, 1024, 200000)
    for i in range(plan.amount):
        try:
            cps, bits = run.output()
        except model.GenFail as e:
            if str(e) in ("too long", "runaway"):
                raise Skip
            o.fail_at = i
            break
        except EOFError:
            o.fail_at = i
            break
        if 0 in cps or any(not model.is_scalar(c) for c in cps):
            raise Skip("NUL")
        if bits > most_bits:
            raise Skip("entropy overflow")
        o.texts.append("".join(map(chr, cps)))
        o.bits.append(bits)
        if sum(map(len, o.texts)) > 400000:
            raise Skip("long")
    return o


def may_fail(g, words):
    """Is there anything in a group that cannot be generated?"""
    if g.total() == 0:
        return True
    for seg in g.segs:
        for it in seg.items:
            if it.kind == "grp" and may_fail(it.data, words):
                return True
            if it.kind in ("wl", "mk") and (it.data not in words or not words[it.data].words):
                return True
    return False


def entropies(err):
    out = []
    for line in err.decode("utf-8", "replace").split("\n"):
        if line.startswith("entropy"):
            w = line.split()
            try:
                out.append(float(w[1]))
            except (ValueError, IndexError):
                raise Violation("entropy line %r" % line)
    return out


def judge(ctx, o, r):
    """Compares a run with the outcome expected of it"""
    import json
    p = o.plan
    need(r.code >= 0 or o.fail_at is not None and r.code in (-6, -31), "ended by a signal: %s", r.describe())
    need(r.code != 99, "memory error: %s", r.describe())
    if o.codes:
        want = set(o.codes)
        ok = r.code != 0 if None in want else r.code in want
        if o.info:
            ok = ok or r.code == 0
        need(ok, "misuse with documented status %s: %s", sorted(map(str, want)), r.describe())
        return
    if o.info:
        need(r.code == 0, "%s: %s", {"h": "help", "v": "version", "l": "list"}[o.info], r.describe())
        if o.info != "l":
            need(r.out == b"", "prints on standard output: %s", r.describe())
        return
    sep = "\0" if p.null else "\n"
    if o.open:
        need(r.code == 0, "fails: %s", r.describe())
        need(r.out.endswith(b"\n"), "output is not ended by a newline: %s", r.describe())
        texts = [x["output"] for x in json.loads(r.out)] if p.json else r.out[:-1].decode("utf-8").split(sep)
        need(len(texts) == p.amount, "%d outputs, not %d: %s", len(texts), p.amount, r.describe())
        for x in texts:
            need(model.members(o.parsed, p.words, [ord(c) for c in x]), "%s is not an output of the pattern: %s", ascii(x),
                 r.describe())
        return
    if o.fail_at is not None:
        need(r.code != 0, "succeeds although output %d cannot be generated: %s", o.fail_at, r.describe())
        if not p.json:
            # complete outputs before the failing one may have been printed
            full = sep.join(o.texts).encode()
            rest = r.out
            if full and rest.startswith(full):
                rest = rest[len(full):]
            elif full.startswith(rest):
                rest = b""
            need(rest.strip(b"\n\0") == b"" and len(rest) <= 1, "prints something for an output that cannot be generated: %s",
                 r.describe())
        return
    need(r.code == 0, "fails: %s", r.describe())
    if p.json:
        need(r.out.endswith(b"\n"), "not ended by a newline: %s", r.describe())
        try:
            v = json.loads(r.out, strict=True)
        except ValueError as e:
            raise Violation("not JSON: %s" % r.describe())
        need([x.get("output") for x in v] == o.texts, "outputs %s, expected %s: %s", sh(v), ascii(o.texts)[:200], r.describe())
        need(all(("entropy" in x) == p.entropy for x in v), "entropy %s: %s", "missing" if p.entropy else "not asked for",
             r.describe())
        if p.entropy:
            need(all(abs(x["entropy"] - b) < 1e-5 + 1e-9 * b for x, b in zip(v, o.bits)), "entropies %s, expected %s", sh(v),
                 o.bits[:9])
        return
    want = (sep.join(o.texts) + "\n").encode()
    need(r.out == want, "printed %s, expected %s: %s", sh(r.out), sh(want), r.describe())
    got = entropies(r.err)
    if p.entropy:
        need(len(got) == p.amount, "%d entropy lines for %d outputs: %s", len(got), p.amount, r.describe())
        for a, b in zip(got, o.bits):
            need(abs(a - b) <= 0.00501, "entropy %s, expected %.4f: %s", a, b, r.describe())
    else:
        need(not got, "entropy is printed without being asked for: %s", r.describe())


def write_files(ctx, contents, sub="files"):
    """paths of files with these contents"""
    d = os.path.join(ctx.scratch, sub)
    os.makedirs(d, exist_ok=True)
    paths = []
    for i, data in enumerate(contents):
        p = os.path.join(d, "f%d" % i)
        with open(p, "wb") as f:
            f.write(data)
        paths.append(p)
    return paths


def resolve(items, paths):
    """items with the names of files in place"""
    return [tuple(subst(x, paths) if isinstance(x, str) and i and it[0] != "pat" else x for i, x in enumerate(it))
            for it in items]


# ------------------------------------------------------------------------ generators
def random_desc(t, files, deterministic=True):
    k = t.n(0, 9)
    if k < 6 or k == 9 and deterministic:
        return "xorshift:%d" % (t.n(0, 2**62) + 1)
    if k == 6:
        return "zero"
    if k == 7:
        return "chacha20-argon2:" + ":".join(["".join(t.pick("abcXYZ019 .@") for _ in range(t.n(1, 9)))
                                              for _ in range(t.n(1, 3))])
    if k == 8:
        files.append(model.ScriptStream(b"", t.n(0, 1 << 30)).take(40960))
        return "file:{F%d}" % (len(files) - 1)
    return "system"


def clean(s):
    """A string that can be an argument"""
    return s.replace("\0", "0")


def names(t, k):
    out = []
    for _ in range(k):
        n = t.pick(["a", "w", "eng", "x y", "größe", "名前", "english", "A", "a-b", "n1", "long" * 20])
        if n not in out:
            out.append(n)
    return out

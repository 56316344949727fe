"""C30: allocator hooks and version queries honour their contracts."""
import ctypes, glob, os, re, subprocess
from .common import *
from vlib import build as B

ID = "C30"
VARIANTS = ["asan", "rel", "rasan"]
RULE = ("Histories of up to 40 operations on three allocation contexts: setting, replacing and unsetting each hook and the "
        "state, initialising anew, and requests of every kind and size, compared with a model of which function is called with "
        "which state and arguments, the memory being checked by its use. Compatibility of generated and enumerated versions with "
        "the library's, and with that of the library's version code configured for other versions, against the rule. "
        "Non-trivial: a hook is called, or the versions agree in the major number.")
KINDS = ["malloc", "calloc", "realloc", "free"]


def size(t, hooked):
    k = t.n(0, 4)
    if k == 0:
        return t.n(0, 16)
    if k == 1:
        return t.n(0, 5000)
    if k == 2 and hooked:
        return t.pick([2**32, 2**32 + 1, 2**63, 2**64 - 1, 2**31, 1 << 21, (1 << 40) + 7])
    return 1 << t.n(0, 16)


def context_case(t):
    ops = []
    hooks = [[0] * 4 for _ in range(3)]
    for _ in range(t.n(1, 40)):
        c, b, k = t.n(0, 2), t.n(0, 3), t.n(0, 11)
        if k < 5:
            kind = min(k, 3)
            h = hooks[c][kind]
            x, y = size(t, h), 0
            if kind == 1:
                y = size(t, h)
                if not h:
                    x, y = x % 300, y % 300
            if kind == 2:
                x = max(1, x)
            if kind == 3:
                x = 0
            ops.append((c, kind, b, x, y))
        elif k < 9:
            kind = k - 5
            v = t.pick([1, 2, 1, 2, 0])
            hooks[c][kind] = v
            ops.append((c, 4 + kind, b, v, 0))
        elif k < 11:
            ops.append((c, 8, b, t.n(0, 4), 0))
        else:
            hooks[c] = [0] * 4
            ops.append((c, 9, b, 0, 0))
    return {"ops": ops, "variant": t.pick(VARIANTS)}


def check_context(ctx, c):
    r = ctx.w(c["variant"]).call(W.u8(20) + W.u32(len(c["ops"])) + b"".join(
        W.u8(k) + W.u8(op) + W.u8(b) + W.u64(x) + W.u64(y) for k, op, b, x, y in c["ops"]))
    hooks, state = [[0] * 4 for _ in range(3)], [0] * 3
    called = 0
    for i, (k, op, b, x, y) in enumerate(c["ops"]):
        ok, n = r.u8(), r.u32()
        log = [(r.u8(), r.u8(), r.u8(), r.u64(), r.u64()) for _ in range(min(n, 8))]
        want = []
        if op < 4:
            if hooks[k][op]:
                want = [(hooks[k][op], op, state[k], x, y)]
                called += 1
        elif op < 8:
            hooks[k][op - 4] = x
        elif op == 8:
            state[k] = x
        else:
            hooks[k], state[k] = [0] * 4, 0
        what = "operation %d of %s" % (i, c["ops"][:i + 1])
        need(log == want and n == len(want), "%s: hooks called %s, expected %s", what, log, want)
        need(ok, "%s: wrong memory or pointer", what)
    r.end()
    ctx.label("hook called", called)
    ctx.label("several contexts", len({o[0] for o in c["ops"]}) > 1)
    ctx.nontrivial(called)


# ---------------------------------------------------------------------- versions
def compatible(lib, v):
    return v[0] == lib[0] and tuple(v[1:]) <= tuple(lib[1:])


def version_case(t):
    def part():
        return t.pick([0, 0, 1, 1, 2, 3, 127, 128, 255, t.n(0, 255)])
    return {"versions": [(t.pick([1, 1, 1, part()]), part(), part()) for _ in range(t.n(1, 60))], "variant": t.pick(VARIANTS)}


def check_version(ctx, c):
    r = ctx.w(c["variant"]).call(W.u8(21) + W.u32(len(c["versions"])) + b"".join(bytes(v) for v in c["versions"]))
    lib = (r.u8(), r.u8(), r.u8())
    debug = r.u8()
    got = [r.u8() for _ in c["versions"]]
    r.end()
    need(lib == declared(), "the library says it is version %s, not %s", lib, declared())
    need(bool(debug) == (c["variant"] == "asan"), "says it is a %s build", "debug" if debug else "release")
    for v, g in zip(c["versions"], got):
        need(bool(g) == compatible(lib, v), "library %s, required %s: %s", lib, v, "compatible" if g else "not compatible")
    ctx.nontrivial(any(v[0] == lib[0] for v in c["versions"]))


def declared():
    with open(os.path.join(B.REPO, "CMakeLists.txt")) as f:
        m = re.search(r"project\s*\([^)]*VERSION\s+([0-9]+)\.([0-9]+)\.([0-9]+)", f.read(), re.I)
    return tuple(int(x) for x in m.groups())


class Version(ctypes.Structure):
    _fields_ = [("major", ctypes.c_uint8), ("minor", ctypes.c_uint8), ("patch", ctypes.c_uint8), ("build", ctypes.c_char_p),
                ("prerelease", ctypes.c_char_p)]


OTHERS = [(1, 2, 3), (0, 1, 0), (1, 0, 5), (2, 255, 0), (255, 0, 255), (3, 7, 1), (0, 0, 0), (10, 20, 30), (1, 1, 200), (128, 128, 127)]


def setup(builds, work):
    """The version code, configured as for other releases"""
    made = []
    src = glob.glob(os.path.join(B.REPO, "src", "**", "version.c.in"), recursive=True)
    for v in OTHERS if src else []:
        with open(src[0]) as f:
            text = f.read()
        for name, x in zip(("MAJOR", "MINOR", "PATCH"), v):
            text = text.replace("@PROJECT_VERSION_%s@" % name, str(x))
        text = re.sub("@[A-Z_]*@", "", text)
        base = os.path.join(work, "version-%d-%d-%d" % v)
        with open(base + ".c", "w") as f:
            f.write(text)
        cmd = ["gcc", "-O1", "-w", "-shared", "-fPIC", "-I", os.path.join(B.REPO, "include"), "-I", os.path.join(builds["rel"]["dir"], "src"),
               base + ".c", "-o", base + ".so"]
        if subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            made.append((v, base + ".so"))
    builds["versions"] = made


def other_case(t):
    lib = t.pick(OTHERS)
    out = []
    for _ in range(t.n(1, 60)):
        v = []
        for x in lib:
            k = t.n(0, 3)
            v.append(x if k == 0 else max(0, min(255, x + t.n(0, 4) - 2)) if k < 3 else t.n(0, 255))
        if t.chance(2, 3):
            v[0] = lib[0]
        out.append(tuple(v))
    return {"lib": lib, "versions": out}


def check_other(ctx, c):
    path = dict(ctx.builds["versions"]).get(tuple(c["lib"]))
    if not path:
        raise Skip("cannot be built on its own")
    libs = ctx.data.setdefault("libs", {})
    if path not in libs:
        lib = ctypes.CDLL(path)
        lib.passgen_version_compatible.argtypes = [Version]
        lib.passgen_version_compatible.restype = ctypes.c_bool
        lib.passgen_version_get.restype = Version
        libs[path] = lib
    lib = libs[path]
    cur = lib.passgen_version_get()
    need((cur.major, cur.minor, cur.patch) == tuple(c["lib"]), "version %d.%d.%d instead of %s", cur.major, cur.minor, cur.patch, c["lib"])
    for v in c["versions"]:
        got = lib.passgen_version_compatible(Version(v[0], v[1], v[2], b"", None))
        need(got == compatible(c["lib"], v), "library %s, required %s: %s", c["lib"], v, "compatible" if got else "not compatible")
    ctx.label("other library version")
    ctx.nontrivial(any(v[0] == c["lib"][0] for v in c["versions"]))


def all_cases():
    for major in range(256):
        yield {"versions": [(major, a, b) for a in (0, 1, 2, 127, 128, 255) for b in (0, 1, 2, 127, 128, 255)], "variant": VARIANTS[major % 3]}
    for minor in range(256):
        yield {"versions": [(1, minor, b) for b in range(256)], "variant": VARIANTS[minor % 3]}


TESTS = [
    Test("contexts", check_context, lambda: gens.from_tape(context_case, 30, 500), quick=12000),
    Test("versions", check_version, lambda: gens.from_tape(version_case, 4, 200), quick=2000),
    Test("other versions", check_other, lambda: gens.from_tape(other_case, 4, 300), quick=4000),
    Test("enumerated versions", check_version, cases=all_cases, exhaustive=True),
]

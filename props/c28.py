"""C28: the sandboxed tool is confined yet fully functional."""
import fcntl, os, shutil, socket, subprocess
from . import cli, cmdline, c22, c24
from .common import *
from vlib import build as B

ID = "C28"
VARIANTS = ["dbg", "sec", "rel"]
RULE = ("Confinement: a preloaded library makes the sandboxed debug and release tools attempt generated system calls (open, "
        "create, truncate, write, map, rename, link, remove, execute, fork, socket and signal calls, with generated flags, "
        "descriptors and entries, also the 32-bit and x32 ones) at a generated moment: configuration file, option, allocation, "
        "randomness, exit; it must be killed and no file changed, and the same attempt in the unsandboxed build shows that "
        "it would have had an effect. Function: generated command lines, configurations, kinds of input files and of standard "
        "output, run in the sandboxed and the plain build with equal results. Non-trivial: an attempt that was made, or at "
        "least two options or a special file.")

NR = dict(read=0, write=1, open=2, close=3, mmap=9, pwrite64=18, writev=20, pipe=22, shmget=29, dup=32, dup2=33, sendfile=40, socket=41,
          connect=42, accept=43, sendto=44, recvfrom=45, sendmsg=46, recvmsg=47, shutdown=48, bind=49, listen=50, socketpair=53,
          clone=56, fork=57, vfork=58, execve=59, kill=62, truncate=76, ftruncate=77, rename=82, mkdir=83, rmdir=84, creat=85,
          link=86, unlink=87, symlink=88, mknod=133, tkill=200, rt_sigqueueinfo=129, tgkill=234, openat=257, mkdirat=258,
          mknodat=259, unlinkat=263, renameat=264, linkat=265, symlinkat=266, splice=275, tee=276, fallocate=285, accept4=288, dup3=292,
          pwritev=296, rt_tgsigqueueinfo=297, sendmmsg=307, renameat2=316, execveat=322, copy_file_range=326, pwritev2=328,
          pidfd_send_signal=424, clone3=435, openat2=437)
AT = -100
RW = 5  # descriptor of a file open for reading and writing
SOCK = 10  # and of a socket
WRONLY, RDWR, CREAT, EXCL, TRUNC, APPEND, NONBLOCK, CLOEXEC, TMPFILE, LARGE = 1, 2, 0o100, 0o200, 0o1000, 0o2000, 0o4000, 0o2000000, 0o20200000, 0o100000
# p0: an existing file, p1: a name not in use, p2: a directory, p3: a program


def call(name, *args, entry=""):
    return entry + ",".join([str(NR[name] if isinstance(name, str) else name)] + [str(a) for a in args])


def flags(t):
    f = t.pick([WRONLY, RDWR, WRONLY | CREAT, RDWR | CREAT, CREAT, TRUNC, WRONLY | APPEND, RDWR | TRUNC, CREAT | EXCL, RDWR | CREAT | TRUNC])
    for x in (NONBLOCK, CLOEXEC, LARGE, APPEND):
        if t.chance(1, 5):
            f |= x
    return f


def attempt(t):
    """(what, calls)"""
    k = t.n(0, 29)
    path = t.pick(["p0", "p1"])
    fd = t.pick([RW, RW, 0, 7])
    if k <= 2:
        return "open", call("open", path, flags(t), 0o644)
    if k <= 5:
        return "openat", call("openat", AT, path, flags(t), 0o644)
    if k == 6:
        return "create", t.pick([call("creat", "p1", 0o644), call("open", "p2", TMPFILE | RDWR, 0o600),
                                 call("openat", AT, "p2", TMPFILE | WRONLY, 0o600)])
    if k == 7:
        return "truncate", t.pick([call("truncate", "p0", t.n(0, 5)), call("ftruncate", fd, t.n(0, 5))])
    if k <= 9:
        return "write", t.pick([call("write", fd, "p0", t.n(1, 9)), call("pwrite64", fd, "p0", t.n(1, 9), t.n(0, 9)),
                                call("write", fd, "b", t.n(0, 5000))])
    if k == 10:
        return "write vector", t.pick([call("writev", fd, "b", t.n(0, 2)), call("pwritev", fd, "b", 1, 0),
                                       call("pwritev2", fd, "b", 1, 0, 0)])
    if k == 11:
        return "copy", t.pick([call("sendfile", RW, 7, 0, 4), call("copy_file_range", 7, 0, RW, 0, 4), call("splice", 7, 0, RW, 0, 4),
                               call("fallocate", RW, 0, 0, 4096)])
    if k == 12:
        return "map", call("mmap", 0, 4096, t.pick([2, 3]), 1, RW, 0) + ";s"
    if k == 13:
        return "redirect", t.pick([call("dup2", RW, 1), call("dup3", RW, 1, 0), call("dup2", RW, 2)]) + ";" + call("write", 1, "p0", 4) + \
            ";" + call("write", 2, "p0", 4)
    if k == 14:
        return "rename", t.pick([call("rename", "p0", "p1"), call("renameat", AT, "p0", AT, "p1"), call("renameat2", AT, "p0", AT, "p1", 0)])
    if k == 15:
        return "directory", t.pick([call("mkdir", "p1", 0o755), call("mkdirat", AT, "p1", 0o755), call("rmdir", "p2"),
                                    call("unlinkat", AT, "p2", 0x200)])
    if k == 16:
        return "link", t.pick([call("link", "p0", "p1"), call("symlink", "p0", "p1"), call("linkat", AT, "p0", AT, "p1", 0),
                               call("symlinkat", "p0", AT, "p1"), call("mknod", "p1", 0o10644, 0), call("mknodat", AT, "p1", 0o10644, 0)])
    if k <= 18:
        return "remove", t.pick([call("unlink", "p0"), call("unlinkat", AT, "p0", 0)])
    if k <= 20:
        return "execute", t.pick([call("execve", "p3", "v", 0), call("execveat", AT, "p3", "v", 0, 0), call("execve", "p3", 0, 0)])
    if k <= 22:
        return "process", t.pick([call("fork", entry="f"), call("clone", 17, 0, 0, 0, 0, entry="f"), call("clone", 0x1200011, 0, 0, "b", 0, entry="f"),
                                  call("clone3", "b", 64, entry="f"), call("clone3", "b", 88, entry="f")])
    if k <= 24:
        return "socket", t.pick([call("socket", t.pick([1, 2, 10, 16, 17]), t.pick([1, 2, 3, 0x80801]), 0), call("socketpair", 1, 1, 0, "b")])
    if k == 25:
        return "network", t.pick([call("sendto", SOCK, "p0", 4, 0, 0, 0), call("recvfrom", SOCK, "b", 4, 0x40, 0, 0), call("sendmsg", SOCK, "b", 0),
                                  call("recvmsg", SOCK, "b", 0x40), call("connect", SOCK, "b", 16), call("bind", SOCK, "b", 16),
                                  call("listen", SOCK, 1), call("accept", SOCK, 0, 0), call("shutdown", SOCK, 2), call("write", SOCK, "p0", 4),
                                  call("sendmmsg", SOCK, "b", 0, 0), call("accept4", SOCK, 0, 0, 0), call("writev", SOCK, "b", 1)])
    if k <= 27:
        sig = t.pick([0, 23])
        return "signal", t.pick([call("kill", "P", sig), call("tkill", "P", sig), call("tgkill", "P", "P", sig), call("rt_sigqueueinfo", "P", sig, "b"),
                                 call("rt_tgsigqueueinfo", "P", "P", sig, "b"), call("kill", "P", 28)])
    if k == 28:
        return "32-bit entry", t.pick([call(2, entry="fi"), call(37, "P", 0, entry="i"), call(359, 1, 1, 0, entry="i"), call(4, RW, 0, 0, entry="i"),
                                       call(93, RW, 0, entry="i")])
    return "x32 entry", t.pick([call(0x40000000 + NR["fork"], entry="f"), call(0x40000000 + NR["socket"], 1, 1, 0), call(0x40000000 + NR["kill"], "P", 0),
                                call(0x40000000 + NR["unlink"], "p0"), call(0x40000000 + NR["open"], "p1", CREAT | WRONLY, 0o644)])


ARGS = [["abc"], ["-a", "3", "[a-z]{9}"], ["-j", "-e", "é{3}"], ["-p", "uuid"], ["-r", "xorshift:3", "(a|b)?c"], ["-m", "x", "-d", "y", "[0-9]"],
        ["-w", "a:{W}", "\\w{a}"], ["-w", "a:{W}", "\\m{a}"], ["-l"], ["-h"], ["-v"], ["-q"], [], ["("], ["-p", "nope"], ["-z", "-a2", "x{300}"],
        ["-w", "a:/nonexistent", "x"]]


def attempt_case(t):
    what, calls = attempt(t)
    stage = t.pick(["conf", "option", "malloc", "malloc", "malloc", "random", "exit", "exit"])
    return {"what": what, "calls": calls, "stage": stage, "k": t.n(0, 3) if stage in ("option", "random") else t.n(0, 60),
            "args": t.pick(ARGS), "variant": t.pick(["sec", "dbg"]), "control": t.chance(1, 10)}


def listing(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in sorted(dirs):
            out[os.path.join(base, f)] = None
        for f in sorted(files):
            p = os.path.join(base, f)
            out[p] = os.readlink(p) if os.path.islink(p) else open(p, "rb").read() if os.path.isfile(p) else "special"
    return out


def run_attempt(ctx, c, variant):
    base = os.path.join(ctx.scratch, "cell")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(os.path.join(base, "dir"))
    os.makedirs(os.path.join(base, "cwd"))
    for name in ("precious", "rw", "ro", "words"):
        with open(os.path.join(base, name), "wb") as f:
            f.write(b"one\ntwo\nthree\nfour\n")
    before = listing(base)
    env = {"SHIM_STAGE": c["stage"], "SHIM_K": str(c["k"]), "SHIM_CALLS": c["calls"].replace("P", str(os.getpid())),
           "SHIM_P0": os.path.join(base, "precious"), "SHIM_P1": os.path.join(base, "new"), "SHIM_P2": os.path.join(base, "dir"),
           "SHIM_P3": "/bin/true"}
    rw = os.open(os.path.join(base, "rw"), os.O_RDWR)
    ro = os.open(os.path.join(base, "ro"), os.O_RDONLY)
    a, b = socket.socketpair()
    a.setblocking(False)

    def pre():
        # the descriptors are known by number
        h = [os.dup(x) for x in (rw, ro, a.fileno())]
        h = [fcntl.fcntl(x, fcntl.F_DUPFD, 40) for x in h]
        os.dup2(h[0], RW)
        os.dup2(h[1], 7)
        os.dup2(h[2], SOCK)
        os.dup2(h[0], 0)
    try:
        e = cli.clean_env({"HOME": cli.home(ctx)})
        e.update(env, LD_PRELOAD=ctx.builds["shim"])
        args = [x.replace("{W}", os.path.join(base, "words")) for x in c["args"]]
        p = subprocess.Popen([ctx.cli(variant)] + args, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             cwd=os.path.join(base, "cwd"), close_fds=False, preexec_fn=lambda: (cli.limits(), pre()))
        try:
            out, err = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Violation("does not end after attempting %s" % c["calls"])
        b.setblocking(False)
        try:
            received = b.recv(100)
        except OSError:
            received = None
    finally:
        os.close(rw)
        os.close(ro)
        a.close()
        b.close()
    changed = listing(base) != before
    return cli.Result(p.returncode, out, err, args), changed, received


def check_attempt(ctx, c):
    if c["control"]:
        # without sandbox the same attempt goes through, so that the shim is one
        r, changed, received = run_attempt(ctx, c, "rel")
        ctx.label("control: goes through", b"SURVIVED" in r.err or changed)
        return
    r, changed, received = run_attempt(ctx, c, c["variant"])
    if b"ATTEMPT\n" not in r.err:
        raise Skip("the moment did not come")
    what = "%s (%s at %s %d of %s)" % (c["what"], c["calls"], c["stage"], c["k"], c["args"])
    need(b"SURVIVED" not in r.err, "not killed for an attempt to %s", what)
    need(r.code < 0, "an attempt to %s ends with status %d", what, r.code)
    need(not changed, "an attempt to %s changed files", what)
    need(not received, "an attempt to %s sent %s", what, received)
    ctx.label(c["what"])
    ctx.label("at " + c["stage"])
    ctx.nontrivial(True)


# ------------------------------------------------------------------ full function
def function_case(t):
    k = t.n(0, 6)
    if k == 6:
        c = c22.misuse_case(t)
    elif k == 5:
        c = c22.failing_case(t)
    else:
        c = c22.same_case(t)
        c["items"] = c.pop("a")
        c["styles"] = c["styles"][0]
    c["conf"] = c24.case(t) if t.chance(1, 4) else None
    c["stdout"] = t.pick(["pipe", "pipe", "file", "null", "pty", "append", "socket", "full"])
    c["variant"] = t.pick(["sec", "dbg"])
    c["special"] = t.pick([None, None, "/dev/null", "/dev/zero", "stdin", "dir", "link", "fifo", "missing", "big", "huge word", "proc"])
    return c


def observed(ctx, variant, args, env, kind, stdin):
    if kind == "pipe":
        r = cli.run(ctx, variant, args, env=env, stdin=stdin)
    elif kind in ("file", "append", "null", "full"):
        path = {"null": "/dev/null", "full": "/dev/full"}.get(kind) or os.path.join(ctx.scratch, "stdout")
        if kind in ("file", "append"):
            with open(path, "wb") as f:
                f.write(b"before\n")
        with open(path, "ab" if kind == "append" else "r+b") as f:
            r = cli.run(ctx, variant, args, env=env, stdin=stdin, stdout=f)
        if kind in ("file", "append"):
            with open(path, "rb") as f:
                r.out = f.read()
    elif kind == "socket":
        a, b = socket.socketpair()
        r = cli.run(ctx, variant, args, env=env, stdin=stdin, stdout=a.fileno())
        a.close()
        while True:
            x = b.recv(65536)
            if not x:
                break
            r.out += x
        b.close()
    else:
        import pty, select, threading
        m, s = pty.openpty()
        got = []

        def reader():
            while True:
                try:
                    x = os.read(m, 65536)
                except OSError:
                    return
                if not x:
                    return
                got.append(x)
        th = threading.Thread(target=reader)
        th.start()
        try:
            r = cli.run(ctx, variant, args, env=env, stdin=stdin, stdout=s)
        finally:
            os.close(s)
            th.join(60)
            os.close(m)
        r.out = b"".join(got)
    r.out = r.out.replace(ctx.cli(variant).encode(), b"passgen")
    # what the version says about the build
    r.err = r.err.replace(ctx.cli(variant).encode(), b"passgen").replace(b"debug build", b"release build")
    return r


def check_function(ctx, c):
    files = list(c["files"])
    paths = cmdline.write_files(ctx, files)
    special = c["special"]
    d = os.path.join(ctx.scratch, "special")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    stdin = None
    if special and paths:
        i = 0
        if special == "stdin":
            stdin = files[i]
            paths[i] = "/dev/stdin"
        elif special == "dir":
            paths[i] = d
        elif special == "link":
            os.symlink(paths[i], os.path.join(d, "link"))
            paths[i] = os.path.join(d, "link")
        elif special == "missing":
            paths[i] = os.path.join(d, "missing")
        elif special == "big":
            with open(paths[i], "ab") as f:
                f.write(b"\n" + b"\n".join(b"word%d" % j for j in range(60000)))
        elif special == "huge word":
            with open(paths[i], "ab") as f:
                f.write(b"\n" + b"x" * 70000)
        elif special == "proc":
            paths[i] = "/proc/version"
        elif special == "fifo":
            stdin = files[i]
            paths[i] = "/proc/self/fd/0"
        elif special == "/dev/zero":
            if any(x[0] == "w" for x in c["items"]):
                raise Skip("an endless wordlist")
            paths[i] = special
        else:
            paths[i] = special
        ctx.label("special file: " + special)
    items = [tuple(x) for x in c["items"]]
    if any(x[0] == "r" and "system" in x[1] for x in items):
        raise Skip
    args = cmdline.render(items, c["styles"], paths)
    env = None
    if c["conf"]:
        extra = cmdline.write_files(ctx, c["conf"]["files"], "conffiles")
        text = "\n".join(cmdline.subst(x, extra) for x in c["conf"]["lines"])
        env = c24.place(ctx, text.encode("utf-8", "surrogateescape"), c["conf"]["where"], 0, "fconf")
        ctx.label("configuration file")
    if any("\0" in a for a in args):
        raise Skip
    # what gives no determined result: no source named
    if not any(x[0] in "rm" for x in items) and not (c["conf"] and any(x.lstrip().startswith("random") for x in c["conf"]["lines"])):
        args = ["-r", "xorshift:77"] + args
    a = observed(ctx, "rel", args, env, c["stdout"], stdin)
    b = observed(ctx, c["variant"], args, env, c["stdout"], stdin)
    if a.code == -11:
        raise Skip("crashes anyway")
    same = a.code == b.code or (a.code == -6 and b.code == -31)
    need(same, "ends with status %d instead of %d in the sandbox: %s", b.code, a.code, b.describe())
    if a.code >= 0:
        need(a.out == b.out, "prints %s instead of %s in the sandbox: %s", sh(b.out), sh(a.out), b.describe())
        need(a.err == b.err, "reports %s instead of %s in the sandbox", sh(b.err, 600), sh(a.err, 600))
    ctx.label("status %d" % a.code)
    ctx.label("standard output: " + c["stdout"])
    ctx.nontrivial(len(items) > 2 or special)


def sizes_case(t):
    return {"opts": [[], ["-e"], ["-j"], ["-z"], ["-je"]][t.n(0, 4)], "amount": t.pick([1, 2, 100, 3000]), "len": t.pick([1, 200, 1000, 5000, 40000]),
            "nest": t.pick([0, 0, 1, 100, 1000]), "words": t.pick([0, 1, 1000, 30000]), "level": t.n(1, 5), "variant": t.pick(["sec", "dbg"])}


def check_sizes(ctx, c):
    """Sizes at which memory is obtained and given back in other ways"""
    if c["amount"] * c["len"] * (c["nest"] + 1) > 3000000:
        raise Skip
    path = os.path.join(ctx.scratch, "sizes")
    with open(path, "wb") as f:
        f.write(b"".join(b"%x-%s\n" % (i * 2654435761 % 2**32, b"q" * (i % 13)) for i in range(c["words"])))
    pattern = "(" * c["nest"] + "[a-z]" + ")" * c["nest"] + "{%d}" % c["len"]
    args = c["opts"] + ["-a", str(c["amount"]), "-r", "xorshift:5"]
    if c["words"]:
        args += ["-M", str(c["level"]), "-w", "a:" + path]
        pattern += "\\w{a}\\m{a}"
    a, b = [cli.run(ctx, v, args + [pattern]) for v in ("rel", c["variant"])]
    need(a.code == b.code == 0, "status %d instead of %d in the sandbox", b.code, a.code)
    need(a.out == b.out and a.err == b.err, "prints something else in the sandbox")
    ctx.nontrivial(True)


def huge_cases():
    for variant in ("sec", "dbg"):
        for kind in ("list", "word", "output", "configuration", "descriptors", "amount", "random"):
            yield {"variant": variant, "kind": kind}


def check_huge(ctx, c):
    """Files, results and process state of unusual size"""
    kind = c["kind"]
    path = os.path.join(ctx.scratch, "huge")
    source = ["-r", "xorshift:9"]
    env, tail = None, ["\\w{a}[a-z]\\w{a}"]
    if kind in ("list", "word", "descriptors"):
        with open(path, "wb") as f:
            f.write(b"".join(b"word%d\n" % i for i in range(700000)) if kind == "list" else b"y\n" + b"x" * 9000000 + b"\n" if kind == "word" else b"a\nb\n")
        tail = ["-w", "a:" + path] + tail
    elif kind == "output":
        tail = ["[a-z]{9000000}"]
    elif kind == "amount":
        tail = ["-a", "300000", "-j", "[a-z]\\n"]
    elif kind == "random":
        with open(path, "wb") as f:
            f.write(bytes(i * i % 251 for i in range(90001)) * 300)
        source = ["-r", "file:" + path]
        tail = ["[a-z]{1000000}"]
    else:
        where = os.path.join(ctx.scratch, "hugehome", ".config")
        os.makedirs(where, exist_ok=True)
        with open(os.path.join(where, "passgen.conf"), "wb") as f:
            f.write(b"# comment\n" * 600000 + b"preset mine:" + b"k" * 2500000 + b"[a-z]\n")
        env = {"HOME": os.path.dirname(where)}
        tail = ["-p", "mine"]

    # no free number below 170
    fill = ["bash", "-c", 'for i in {3..170}; do eval "exec $i</dev/null"; done; exec "$0" "$@"'] if kind == "descriptors" else []
    seen = []
    for v in ("rel", c["variant"]):
        e = cli.clean_env({"HOME": cli.home(ctx)})
        e.update(env or {})
        p = subprocess.run(fill + [ctx.cli(v)] + source + tail, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           cwd=ctx.scratch, timeout=300)
        seen.append((p.returncode, p.stdout, p.stderr))
    a, b = seen
    need(a[0] == 0 and b[0] == 0, "%s: status %d, in the sandbox %d; %s", kind, a[0], b[0], sh(b[2], 200))
    need(a[1:] == b[1:], "%s: prints something else in the sandbox", kind)
    ctx.label("huge " + kind)
    ctx.nontrivial(True)


def setup(builds, work):
    builds["shim"] = B.compile_shared(work, "sandbox_shim.so", "sandbox_shim.c")


TESTS = [
    Test("huge", check_huge, cases=huge_cases, exhaustive=True),
    Test("attempts", check_attempt, lambda: gens.from_tape(attempt_case, 4, 30), quick=8000),
    Test("function", check_function, lambda: gens.from_tape(function_case, 20, 400), quick=2500),
    Test("sizes", check_sizes, lambda: gens.from_tape(sizes_case, 2, 12), quick=200),
]

"""Client of harness/worker.c: one request in, one reply out, crash classification."""
import os, resource, signal, struct, subprocess, tempfile


class Crash(Exception):
    """The worker died while executing a request."""
    def __init__(self, kind, detail):
        Exception.__init__(self, kind + ": " + detail)
        self.kind = kind
        self.detail = detail


class Infra(Exception):
    pass


def u8(v): return struct.pack("<B", v)
def u32(v): return struct.pack("<I", v & 0xffffffff)
def u64(v): return struct.pack("<Q", v & 0xffffffffffffffff)
def blob(b): return struct.pack("<I", len(b)) + b
def text(s): return blob(s.encode("utf-8", "surrogatepass") if isinstance(s, str) else s)
def cps(l): return blob(struct.pack("<%dI" % len(l), *l))


class Reader:
    __slots__ = ("d", "p")

    def __init__(self, d):
        self.d = d
        self.p = 0

    def raw(self, n):
        if self.p + n > len(self.d):
            raise Infra("short reply")
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def u8(self):
        self.p += 1
        return self.d[self.p - 1]

    def u32(self):
        return struct.unpack("<I", self.raw(4))[0]

    def i32(self):
        return struct.unpack("<i", self.raw(4))[0]

    def u64(self):
        return struct.unpack("<Q", self.raw(8))[0]

    def i64(self):
        return struct.unpack("<q", self.raw(8))[0]

    def f64(self):
        return struct.unpack("<d", self.raw(8))[0]

    def blob(self):
        return self.raw(self.u32())

    def cps(self):
        b = self.blob()
        return list(struct.unpack("<%dI" % (len(b) // 4), b))

    def end(self):
        if self.p != len(self.d):
            raise Infra("unread reply bytes: %d of %d" % (len(self.d) - self.p, len(self.d)))


SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=4096:"
                    "quarantine_size_mb=16:allocator_may_return_null=0:handle_abort=0:"
                    "detect_stack_use_after_return=0:symbolize=1",
    "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1",
    "MSAN_OPTIONS": "exitcode=99:abort_on_error=0:handle_abort=0:symbolize=1",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:symbolize=1:report_signal_unsafe=0",
    "MALLOC_PERTURB_": "165",
}


def clean_env(extra=None):
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "LANG", "TERM", "TMPDIR", "HOME")}
    env.update(SAN_ENV)
    env["LC_ALL"] = "C.UTF-8"
    if extra:
        env.update(extra)
    return env


class Worker:
    def __init__(self, exe, cpu=20, mem_mb=0):
        self.exe = exe
        self.cpu = cpu
        self.mem_mb = mem_mb
        self.proc = None
        self.calls = 0

    def extra(self):
        if "/oom" not in self.exe:
            return None
        # stops are the rule there, and looking up names takes longer than all else
        return {k: v.replace(":symbolize=1", "").replace("print_stacktrace=1", "print_stacktrace=0") + ":symbolize=0"
                for k, v in SAN_ENV.items() if k in ("ASAN_OPTIONS", "UBSAN_OPTIONS")}

    def start(self):
        self.err = tempfile.TemporaryFile()

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, 8 << 20))
            if self.mem_mb:
                resource.setrlimit(resource.RLIMIT_AS, (self.mem_mb << 20, self.mem_mb << 20))

        self.proc = subprocess.Popen([self.exe, str(self.cpu)], stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=self.err,
                                     env=clean_env(self.extra()), preexec_fn=pre, bufsize=0, cwd="/")
        self.rfd = self.proc.stdout.fileno()

    def stop(self):
        if self.proc:
            try:
                self.proc.stdin.close()
            except OSError:
                pass
            try:
                self.proc.kill()
            except OSError:
                pass
            self.proc.wait()
            self.proc.stdout.close()
            self.err.close()
            self.proc = None

    def _read(self, n):
        parts = []
        while n:
            b = os.read(self.rfd, n)
            if not b:
                return None
            parts.append(b)
            n -= len(b)
        return b"".join(parts)

    def call(self, payload):
        """Returns a Reader over the reply, raises Crash if the worker died."""
        if self.proc is None:
            self.start()
        self.calls += 1
        try:
            data = struct.pack("<I", len(payload)) + payload
            view = memoryview(data)
            fd = self.proc.stdin.fileno()
            while len(view):
                view = view[os.write(fd, view):]
            head = self._read(4)
            body = self._read(struct.unpack("<I", head)[0]) if head else None
        except BrokenPipeError:
            body = None
        if body is None:
            self.died()
        return Reader(body)

    def died(self):
        code = self.proc.wait()
        self.err.seek(0, 2)
        size = self.err.tell()
        self.err.seek(0)
        head = self.err.read(6000)
        if size > 6000:
            self.err.seek(max(6000, size - 3000))
            head += b"\n...\n" + self.err.read()
        detail = head.decode("utf-8", "replace")
        self.proc.stdout.close()
        try:
            self.proc.stdin.close()
        except OSError:
            pass
        self.err.close()
        self.proc = None
        if code == 99:
            raise Crash("sanitizer", summary(detail))
        if code == 97:
            raise Crash("hang", "no reply within %d s of processor time" % self.cpu)
        if code == 96:
            raise Crash("budget", "consumed an absurd amount of input")
        if code == 1:
            raise Crash("assertion", detail.strip()[:600] or "exit status 1")
        if code == -signal.SIGABRT:
            raise Crash("abort", detail.strip()[:600])
        if code == -signal.SIGSEGV:
            raise Crash("segv", detail.strip()[:600])
        if code == -signal.SIGKILL:
            raise Crash("killed", "killed (memory limit)")
        if code < 0:
            raise Crash("signal", "signal %d %s" % (-code, detail.strip()[:600]))
        if code == 95:
            raise Crash("protocol", "nonsensical result " + detail[:500])
        raise Crash("exit", "worker exited with status %d %s" % (code, detail.strip()[:600]))


def summary(detail):
    lines = detail.splitlines()
    keep = [l for l in lines if "ERROR:" in l or "runtime error" in l or "SUMMARY" in l]
    frames = [l.strip() for l in lines if l.strip().startswith("#")][:8]
    return " | ".join((keep[:2] or lines[:3]) + frames)[:1500]


# ------------------------------------------------------------ randomness specs
def r_script(prefix=b"", seed=0, fail_mode=0, fail_after=0):
    return u8(0) + blob(prefix) + u64(seed) + u8(fail_mode) + u64(fail_after)


def r_desc(desc): return u8(1) + text(desc)
def r_chacha(key, iv): return u8(2) + blob(key) + blob(iv)


def r_argon(passphrase, domain, token, config=None):
    """config: (algorithm, blocks, passes, lanes), or None for the default"""
    flags = (1 if domain is not None else 0) | (2 if token is not None else 0) | (4 if config else 0)
    return (u8(3) + u8(flags) + text(passphrase) + text(domain or "") + text(token or "") +
            b"".join(u32(v) for v in config or ()))


def r_xorshift(seed): return u8(4) + u64(seed)
def r_file(content): return u8(5) + blob(content)
def r_zero(): return u8(6)
def r_system(): return u8(7)


def wordlists(wl):
    """wl: list of (name, content bytes, markov level)"""
    return u32(len(wl)) + b"".join(text(n) + blob(c) + u32(l) for n, c, l in wl)


NO_DEPTH = 0xffffffff


def far_depth(bits, more):
    """The nesting limit 2^bits + more, more being -1, 0 or 1; bits at most 64"""
    return 0xffffff00 + 3 * bits + more + 1


class GenReply:
    pass


def gen(worker, pattern, random, n=1, mode=0, buflen=1 << 16, entropy=True, wl=(), depth=NO_DEPTH):
    """Parses and generates; pattern is bytes."""
    r = worker.call(u8(1) + blob(pattern) + u32(depth) + wordlists(wl) + random + u32(n) +
                    u8(mode) + u32(buflen) + u8(1 if entropy else 0))
    g = GenReply()
    g.rejected = r.u8() == 1
    if g.rejected:
        g.message = r.blob().decode("utf-8", "replace")
        g.codepoint = r.u64()
        g.byte = r.u64()
        g.live = r.i64()
        r.end()
        return g
    g.random_failed = r.u8() == 1
    if g.random_failed:
        r.end()
        return g
    g.out = []
    for _ in range(n):
        ret = r.i64()
        ent = r.f64()
        data = r.blob()
        g.out.append((ret, ent, data))
    g.consumed = r.u64()
    r.end()
    return g


def unpack_cps(b):
    return list(struct.unpack("<%dI" % (len(b) // 4), b))


def tally(worker, pattern, random, n, wl=()):
    """(list of (codepoints bytes, count) in order of first appearance, pairs of successive outputs or None)"""
    r = worker.call(u8(26) + blob(pattern) + wordlists(wl) + random + u32(n))
    bad = r.u8()
    if bad == 1:
        return None, None
    k = r.u32()
    counts = [(r.blob(), r.u32()) for _ in range(k)]
    side = min(k, 24)
    pairs = [struct.unpack("<%dI" % side, r.raw(4 * side)) for _ in range(side)]
    r.end()
    if bad:
        return bad, None
    return counts, pairs

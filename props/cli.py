"""Running the command line tool under the driver's control."""
import os, resource, subprocess
from vlib.worker import clean_env


class Result:
    def __init__(self, code, out, err, args):
        self.code, self.out, self.err, self.args = code, out, err, args

    def describe(self):
        return "status %s, stdout %r, stderr %r, arguments %r" % (
            self.code, self.out[:200], self.err[-600:], self.args)

    def crashed(self):
        """Died of a memory error, hang or failed assertion"""
        return self.code == 99 or (self.code < 0)


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (20, 25))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))


class Hang(Exception):
    pass


def home(ctx):
    """A private empty home directory, so that no user configuration is read."""
    d = os.path.join(ctx.scratch, "home")
    os.makedirs(d, exist_ok=True)
    return d


def run(ctx, variant, args, env=None, stdin=None, home_dir=None, cwd=None, stdout=subprocess.PIPE, timeout=120,
        preload=None, pre=None):
    e = clean_env({"HOME": home_dir or home(ctx)})
    if env:
        e.update(env)
    if preload:
        e["LD_PRELOAD"] = preload
    a = [x if isinstance(x, bytes) else x.encode("utf-8", "surrogateescape") for x in args]

    def setup():
        limits()
        if pre:
            pre()
    p = subprocess.Popen([ctx.cli(variant).encode()] + a, env=e, stdin=subprocess.PIPE if stdin is not None
                         else subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE,
                         cwd=cwd or ctx.scratch, preexec_fn=setup)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise
    return Result(p.returncode, out or b"", err, args)

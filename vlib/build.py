"""Builds /repo's current working tree and the harness programs.

Everything is built outside /repo, with CMake on /repo's own CMakeLists so that
the source list, the generated version.c and config.h are the project's."""
import os, shutil, subprocess, sys, tempfile, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(ROOT, "harness")

SAN = ("-fsanitize=address,bounds,null,shift,integer-divide-by-zero,"
       "signed-integer-overflow,vla-bound,return,unreachable,bool,enum "
       "-fno-sanitize-recover=all -fno-omit-frame-pointer")

OOM = " -DVERIF_OOM -Dmalloc=vf_malloc -Dcalloc=vf_calloc -Drealloc=vf_realloc"

# name: (compiler, cmake build type, c flags, extra cmake options)
VARIANTS = {
    # assertions on, memory errors visible
    "asan": ("clang", "Debug", "-O1 -g1 " + SAN, ["-DPASSGEN_SECCOMP=OFF"]),
    # release configuration: assertions compiled out, memory errors visible
    "rasan": ("clang", "Release", "-O1 -g1 " + SAN, ["-DPASSGEN_SECCOMP=OFF"]),
    # release configuration, no instrumentation
    "rel": ("gcc", "Release", "-g1", ["-DPASSGEN_SECCOMP=OFF"]),
    # uninitialised values visible
    "msan": ("clang", "Debug", "-O1 -g1 -fsanitize=memory -fno-sanitize-recover=all -fno-omit-frame-pointer",
             ["-DPASSGEN_SECCOMP=OFF"]),
    # data races visible
    "tsan": ("clang", "Debug", "-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer", ["-DPASSGEN_SECCOMP=OFF"]),
    # the library's allocations can be refused; the worker only
    "oom": ("clang", "Debug", "-O1 -g1 " + SAN + OOM, ["-DPASSGEN_SECCOMP=OFF"]),
    "oomrel": ("clang", "Release", "-O1 -g1 " + SAN + OOM, ["-DPASSGEN_SECCOMP=OFF"]),
    # instrumented for coverage-guided fuzzing; the worker is the fuzz target
    "fuzz": ("clang", "Debug", "-O1 -g1 " + SAN + " -fsanitize=fuzzer-no-link", ["-DPASSGEN_SECCOMP=OFF"]),
    # the configuration the test suite runs (sandboxed CLI)
    "dbg": ("gcc", "Debug", "", ["-DPASSGEN_SECCOMP=ON"]),
    # sandboxed release CLI
    "sec": ("gcc", "Release", "", ["-DPASSGEN_SECCOMP=ON"]),
}


class BuildError(Exception):
    pass


def run(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write((" ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=f, stdin=subprocess.DEVNULL, **kw)
    if r.returncode != 0:
        with open(log, "rb") as f:
            tail = f.read()[-4000:].decode("utf-8", "replace")
        raise BuildError("%s failed:\n%s" % (cmd[0], tail))


def build(workdir, variant):
    """Returns a dict with the paths of the static library, CLI and worker."""
    cc, bt, flags, extra = VARIANTS[variant]
    d = os.path.join(workdir, variant)
    os.makedirs(d, exist_ok=True)
    log = os.path.join(d, "build.log")
    env = dict(os.environ)
    for k in ("CFLAGS", "CPPFLAGS", "LDFLAGS", "CC"):
        env.pop(k, None)
    run(["cmake", "-G", "Ninja", "-S", REPO, "-B", d,
         "-DCMAKE_C_COMPILER=" + cc, "-DCMAKE_BUILD_TYPE=" + bt,
         "-DCMAKE_C_FLAGS=" + flags + " -w",
         "-DBUILD_GIT_INFO=OFF", "-DBUILD_TESTING=OFF", "-DBUILD_BENCH=OFF",
         "-DBUILD_TOOLS=OFF", "-DBUILD_DATA=OFF", "-DLIBPASSGEN_SHARED=OFF",
         ] + extra, log, env=env)
    fuzz = variant == "fuzz"
    run(["ninja", "-C", d, "passgen-static"] + ([] if fuzz or "oom" in variant else ["passgen-cli"]), log, env=env)
    lib = os.path.join(d, "src", "libpassgen.a")
    worker = os.path.join(d, "worker")
    opt = [] if "-O" in flags else (["-O2"] if bt == "Release" else ["-O0"])
    source = "worker.c"
    if fuzz:
        source = "fuzz.c"
        flags = flags.replace("fuzzer-no-link", "fuzzer")
    run([cc] + flags.split() + opt + ["-w", "-std=gnu11",
         "-I", os.path.join(REPO, "include"), "-I", os.path.join(d, "src"),
         os.path.join(HARNESS, source), lib, "-lm", "-pthread", "-o", worker], log, env=env)
    return {"dir": d, "lib": lib, "worker": worker,
            "cli": os.path.join(d, "src", "cli", "passgen"), "variant": variant}


def compile_shared(workdir, name, source, extra=()):
    so = os.path.join(workdir, name)
    log = os.path.join(workdir, name + ".log")
    run(["gcc", "-O1", "-w", "-shared", "-fPIC", os.path.join(HARNESS, source),
         "-o", so, "-ldl"] + list(extra), log)
    return so

#!/usr/bin/env python3
"""Authoring tool for planted bugs; no check uses it.
   plant.py make SPEC.py     writes seeded/<id>/ for each bug(...) of the file
   plant.py verify [ID...]   builds each in a scratch copy: tests pass, demo 0 without and nonzero with the patch
   plant.py catch [ID...]    runs the property's check against each (the check must report a violation)"""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(TOP, "seeded")
BASE = "bb28cfd"


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, timeout=timeout, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def bug(id, property, edits, needs, breaks, **files):
    """edits: [(file, old, new)]; files: demo_sh=..., others name_ext=..."""
    d = os.path.join(SEEDED, id)
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C " + tmp, shell=True)
        subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", cwd=tmp, shell=True)
        for f, old, new in edits:
            p = os.path.join(tmp, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, old, s.count(old))
            # the lines replaced must be of the original repository
            at = s[:s.index(old)].count("\n") + 1
            n = old.rstrip("\n").count("\n") + 1
            a, b = old.split("\n"), new.split("\n")
            changed = [at + i for i, l in enumerate(a) if l and l not in b]
            blame = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-L", "%d,+%d" % (at, n), f], text=True).split("\n")
            mine = [l for l in blame if l and not l.startswith("^") and any(re.search(r"\b%d\)" % c, l) for c in changed)]
            if mine:
                print(id, "changes lines that are not of the original:", mine)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=tmp, text=True)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        for k, v in files.items():
            name = ".".join(k.rsplit("_", 1))
            open(os.path.join(d, name), "w").write(v.lstrip("\n"))
            if name.endswith(".sh"):
                os.chmod(os.path.join(d, name), 0o755)
        json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(tmp)


C_DEMO = """
#!/bin/bash
# builds demo.c against the library and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
gcc -w -g -O1 %s -I include -I _build/src -o "$d/demo" "$here/demo.c" _build/src/libpassgen.a -lm || exit 4
cd "$d" && timeout 120 ./demo
"""
PY_DEMO = """
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
HOME=$d TMPDIR=$d timeout 250 python3 "$here/demo.py" "$PWD/_build/src/cli/passgen" "$d"
"""


def tree(patch=None):
    """Scratch copy of /repo's HEAD, built; returns its directory."""
    d = tempfile.mkdtemp(prefix="plant-")
    repo = os.path.join(d, "repo")
    os.mkdir(repo)
    subprocess.check_call("git -C /repo archive HEAD | tar x -C " + repo, shell=True)
    if patch:
        subprocess.check_call("git init -q . && git apply " + patch, cwd=repo, shell=True)
    os.mkdir(os.path.join(d, "vp"))
    for f in glob.glob("/opt/vp/*"):
        s = open(f).read().replace("/opt/vp", d + "/vp").replace("/repo", repo)
        open(os.path.join(d, "vp", os.path.basename(f)), "w").write(s)
    return d


def verify(id):
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    d = tree(os.path.join(SEEDED, id, "patch.diff"))
    try:
        rc, out = sh(["bash", d + "/vp/test.sh", d + "/out.json"])
        if rc != 0 and not os.path.exists(d + "/out.json"):
            return id, "does not build: " + out[-300:]
        res = json.load(open(d + "/out.json"))
        missing = sorted(set(stable) - set(res["passed"]))
        if missing:
            return id, "tests fail: %s" % missing[:4] + (out[-300:] if len(missing) > 100 else "")
        demo = tempfile.mkdtemp(prefix="plant-")
        for f in os.listdir(os.path.join(SEEDED, id)):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(SEEDED, id, f), demo)
        rc, out = sh(["bash", demo + "/demo.sh"], cwd=d + "/repo", timeout=300)
        rc0, out0 = sh(["bash", demo + "/demo.sh"], cwd="/repo", timeout=300)
        shutil.rmtree(demo)
        if rc0 != 0:
            return id, "demo fails on the unchanged tree (%d): %s" % (rc0, out0[-300:])
        if rc == 0:
            return id, "demo passes with the patch"
        return id, "ok (demo %d: %s)" % (rc, out[-100:].strip().replace("\n", " | "))
    finally:
        shutil.rmtree(d)


def catch(id, checks=None):
    prop = json.load(open(os.path.join(SEEDED, id, "meta.json")))["property"]
    d = tempfile.mkdtemp(prefix="plant-")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git apply %s" % (
            d, d, os.path.join(SEEDED, id, "patch.diff")), shell=True)
        out = []
        for c in checks or [prop]:
            rc, o = sh(["python3", "check.py", c], cwd=TOP, env=dict(os.environ, VERIF_REPO=d))
            v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
            what = [l for l in o.split("\n") if l.startswith("  ") or "expected" in l][:1]
            out.append("%s %s %s" % (c, "CAUGHT" if rc == 1 and v else "missed (%d)" % rc, (o.strip().split("\n") or [""])[-1][:150]))
        return id, "; ".join(out)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        for a in args:
            exec(compile(open(a).read(), a, "exec"))
    else:
        ids = args or sorted(os.listdir(SEEDED))
        with cf.ThreadPoolExecutor(4 if cmd == "verify" else 2) as ex:
            for r in ex.map(verify if cmd == "verify" else catch, ids):
                print("%-28s %s" % r, flush=True)

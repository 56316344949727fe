#!/usr/bin/env python3
"""Authoring tool: mechanical mutants of the sources of passgen; no check uses it.
   mutants.py list  OUT.json [PER_FILE] [SEED]   a sample of mutants per source file
   mutants.py screen OUT.json                    marks those that build and pass the stable tests ("alive")
   mutants.py judge OUT.json                     runs the checks of the file on each alive one until one reports it"""
import concurrent.futures as cf, hashlib, json, os, queue, random, re, shutil, subprocess, sys, tempfile
import plant
TOP = plant.TOP
MAP = {
    "src/generate.c": ["C03", "C04", "C10", "C21", "C17", "C18", "C25", "C02"],
    "src/parser/parser.c": ["C05", "C01", "C03", "C06", "C21", "C25", "C09"],
    "src/parser/token.c": ["C07", "C05", "C06", "C09", "C25"],
    "src/passgen.c": ["C05", "C06", "C25", "C08"],
    "src/error.c": ["C06", "C22"],
    "src/env.c": ["C27", "C26", "C25", "C17", "C21"],
    "src/context.c": ["C30"],
    "src/markov.c": ["C18", "C04", "C25"],
    "src/wordlist.c": ["C17", "C18", "C25", "C27"],
    "src/container/array.c": ["C20"], "src/container/hashmap.c": ["C19", "C25", "C27"], "src/container/stack.c": ["C20", "C01", "C25"],
    "src/pattern/group.c": ["C01", "C02", "C05", "C25"], "src/pattern/literal.c": ["C01", "C25"], "src/pattern/segment.c": ["C01", "C25"],
    "src/pattern/segment_item.c": ["C25", "C01", "C26"], "src/pattern/set.c": ["C25", "C01", "C26"], "src/pattern/special.c": ["C25", "C17", "C09"],
    "src/pattern/pattern.c": ["C25", "C26"], "src/pattern/preset.c": ["C23", "C25"],
    "src/random/deterministic.c": ["C14", "C26", "C15", "C13", "C27"], "src/random/random.c": ["C13", "C12", "C14", "C16", "C26", "C27", "C22"],
    "src/random/system.c": ["C16", "C14", "C26", "C28"], "src/random/xorshift.c": ["C14", "C26"], "src/random/zero.c": ["C14", "C13"],
    "src/util/siphash.c": ["C29", "C19"], "src/util/utf8.c": ["C08", "C05", "C10", "C25"],
    "src/cli/passgen.c": ["C22", "C24", "C23", "C11", "C16", "C15", "C04", "C25", "C28"], "src/cli/main.c": ["C22", "C28", "C16"],
    "src/monocypher.c": ["C31", "C15", "C26"],
}
OPS = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("+=", "-="), ("-=", "+="), (" < ", " <= "), (" > ", " >= "),
       (" + ", " - "), (" - ", " + "), (" * ", " + "), (" / ", " * "), (" % ", " / "), ("<<", ">>"), (">>", "<<"), (" & ", " | "), (" | ", " & "), ("++", "--"), ("true", "false"),
       ("false", "true")]


def mutants(f):
    lines = open("/repo/" + f).read().split("\n")
    out = []
    depth = 0
    comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        inside = depth > 0
        depth += l.count("{") - l.count("}")
        if comment or s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not inside or s.startswith(("//", "#", "*")) or not s or "assert" in s:
            continue
        code = l.split("//")[0]

        def add(new):
            if new != l:
                out.append((f, i, l, new))
        masked = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', lambda m: "\1" * len(m.group(0)), code)
        for a, b in OPS:
            at = masked.find(a)
            while at >= 0:
                ok = True
                if a in ("<=", ">=") and masked[at - 1:at] in "<>":
                    ok = False
                if a.isalpha() and re.match(r"\w", masked[at - 1:at] + " "):
                    ok = False
                if ok:
                    add(l[:at] + b + l[at + len(a):])
                at = masked.find(a, at + len(a))
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])", masked):
            v = int(m.group(0), 0)
            for w in {v + 1, v - 1 if v else 1}:
                add(l[:m.start()] + (hex(w) if "x" in m.group(0) else str(w)) + l[m.end():])
        if s.endswith(";") and not re.match(r"(return|break|continue|goto|case|default)\b", s) and \
                (re.match(r"[\w>.\-\[\]*()& ]+\s*([-+*|&^%/]|<<|>>)?=[^=]", s) or re.match(r"[\w]+\(.*\);$", s)) and \
                not re.match(r"(const |static |unsigned |struct |size_t |int |uint|double |char |passgen_\w+ \*?\w+ ?=|bool |FILE )", s):
            add(l[:len(l) - len(l.lstrip())] + ";")
        if s in ("break;", "continue;"):
            add(l.replace(s, ";"))
        m = re.match(r"(\s*)((?:\} else )?)if\((.*)\) \{$", code)
        if m:
            add("%s%sif(0 && (%s)) {" % m.groups())
            add("%s%sif(1 || (%s)) {" % m.groups())
        m = re.match(r"(\s*)return (.*);$", code)
        if m and m.group(2) not in ("0", "NULL"):
            add(m.group(1) + "return 0;")
    if f.endswith("monocypher.c"):
        out = [m for m in out if 80 <= m[1] < 280 or 454 <= m[1] < 935]
    return out


def main():
    cmd, path = sys.argv[1:3]
    if cmd == "list":
        per = int(sys.argv[3]) if len(sys.argv) > 3 else 20
        rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
        res = []
        for f in MAP:
            m = mutants(f)
            k = min(len(m), max(per, min(60, per * len(m) // 100)))
            res += [dict(file=f, line=i, old=o, new=n) for f, i, o, n in rng.sample(m, k)]
            print(f, len(m), k)
        json.dump(res, open(path, "w"), indent=0)
        return
    res = json.load(open(path))
    todo = queue.Queue()
    if cmd == "screen":
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        for i, m in enumerate(res):
            if "alive" not in m:
                todo.put(i)

        def work(_):
            d = plant.tree()
            repo = d + "/repo"
            try:
                plant.sh(["bash", d + "/vp/build.sh"])
                while True:
                    try:
                        m = res[todo.get_nowait()]
                    except queue.Empty:
                        return
                    p = os.path.join(repo, m["file"])
                    orig = open(p).read()
                    lines = orig.split("\n")
                    assert lines[m["line"]] == m["old"]
                    lines[m["line"]] = m["new"]
                    open(p, "w").write("\n".join(lines))
                    rc, out = plant.sh("bash %s/vp/test.sh %s/out.json" % (d, d), timeout=120)
                    ok = False
                    if rc != -1 and os.path.exists(d + "/out.json"):
                        try:
                            ok = not stable - set(json.load(open(d + "/out.json"))["passed"])
                        except ValueError:
                            pass
                    m["alive"] = ok
                    open(p, "w").write(orig)
                    if todo.qsize() % 50 == 0:
                        print(todo.qsize(), "left", flush=True)
            finally:
                shutil.rmtree(d)
        with cf.ThreadPoolExecutor(7) as ex:
            list(ex.map(work, range(7)))
        json.dump(res, open(path, "w"), indent=0)
        print(sum(m["alive"] for m in res), "of", len(res), "alive")
        return
    order = [i for i, m in enumerate(res) if m.get("alive") and "caught" not in m]
    random.Random(1).shuffle(order)
    for i in order:
        todo.put(i)

    def judge(_):
        while True:
            try:
                m = res[todo.get_nowait()]
            except queue.Empty:
                return
            d = tempfile.mkdtemp(prefix="plant-")
            try:
                subprocess.check_call("git -C /repo archive HEAD | tar x -C " + d, shell=True)
                p = os.path.join(d, m["file"])
                lines = open(p).read().split("\n")
                at = [i for i, l in enumerate(lines) if l == m["old"]]
                if not at:
                    continue                                      # changed since
                lines[min(at, key=lambda i: abs(i - m["line"]))] = m["new"]
                open(p, "w").write("\n".join(lines))
                m["caught"] = None
                for c in MAP[m["file"]]:
                    rc, o = plant.sh(["python3", "check.py", c], cwd=os.environ.get("MUT_TOP", TOP), env=dict(os.environ, VERIF_REPO=d))
                    if rc == 1 and "VIOLATION" in o:
                        m["caught"] = c
                        break
                    if rc != 0:
                        m.setdefault("odd", []).append([c, rc, o[-300:]])
                print("%-6s %s:%d %s  ->  %s %s" % (m["caught"], m["file"], m["line"] + 1, m["old"].strip(), m["new"].strip(), [x[:2] for x in m.get("odd", [])]),
                      flush=True)
            finally:
                shutil.rmtree(d)
            json.dump(res, open(path + ".tmp", "w"), indent=0)
            os.replace(path + ".tmp", path)
    n = int(os.environ.get("MUT_JOBS", "3"))
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(judge, range(n)))
    print(sum(1 for m in res if m.get("alive") and not m.get("caught")), "not caught")


main()

"""Runs the tests of one property: builds the tree, forks shards, drives
Hypothesis, replays a failure, writes evidence.

Exit status 0: held on everything explored. 1: VIOLATION line printed.
Anything else (2, 3): the check itself could not work."""
import base64, glob, hashlib, importlib, json, multiprocessing, os, resource, shutil, signal
import sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

from . import build as B
from .worker import Worker, Crash, Infra, clean_env

ROOT = B.ROOT


class Violation(Exception):
    """The property does not hold for this case."""


class HardStop(BaseException):
    """A failure that is too slow to shrink (a hang); stops the shard at once."""


class Skip(Exception):
    """Case is outside of the property's domain: not judged."""


# ------------------------------------------------------------------ case encoding
def enc(v):
    if isinstance(v, (bytes, bytearray)):
        return {"__b": bytes(v).hex()}
    if isinstance(v, dict):
        return {"__d": [[enc(k), enc(x)] for k, x in v.items()]}
    if isinstance(v, tuple):
        return {"__t": [enc(x) for x in v]}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, str):
        try:
            v.encode("utf-8")
            return v
        except UnicodeEncodeError:
            return {"__s": [ord(c) for c in v]}
    if isinstance(v, float) or v is None or isinstance(v, (bool, int)):
        return v
    raise TypeError(type(v))


def dec(v):
    if isinstance(v, dict):
        if "__b" in v:
            return bytes.fromhex(v["__b"])
        if "__t" in v:
            return tuple(dec(x) for x in v["__t"])
        if "__s" in v:
            return "".join(chr(c) for c in v["__s"])
        return {dec(k): dec(x) for k, x in v["__d"]}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def show(v, limit=300):
    if isinstance(v, dict):
        return {str(k): show(x, limit) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        l = [show(x, limit) for x in v[:12]]
        return l + ["... %d in total" % len(v)] if len(v) > 12 else l
    if isinstance(v, (bytes, bytearray)):
        v = repr(bytes(v))
    if isinstance(v, str):
        v = v.encode("ascii", "backslashreplace").decode()
        return v if len(v) <= limit else v[:limit] + "...(%d)" % len(v)
    return v


# --------------------------------------------------------------------------- tests
class Test:
    """strategy: Hypothesis strategy of cases (built lazily by a function);
    check(ctx, case) raises Violation. cases: iterable function instead of a
    strategy, enumerated completely and split over the shards."""

    def __init__(self, name, check, strategy=None, cases=None, quick=1000, thorough=None,
                 weight=None, exhaustive=False):
        self.name = name
        self.check = check
        self.strategy = strategy
        self.cases = cases
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.exhaustive = exhaustive


class Ctx:
    """What a check function sees: workers, paths, and counters."""

    def __init__(self, builds, scratch, tier, shard=0):
        self.builds = builds
        self.scratch = scratch
        self.tier = tier
        self.shard = shard
        self.workers = {}
        self.labels = {}
        self.seen = set()
        self.evaluations = 0
        self.skipped = 0
        self.samples = []
        self.cur_nontrivial = False
        self.data = {}

    def w(self, variant="asan", cpu=20, mem_mb=0):
        key = (variant, cpu, mem_mb)
        if key not in self.workers:
            self.workers[key] = Worker(self.builds[variant]["worker"], cpu, mem_mb)
        return self.workers[key]

    def cli(self, variant="dbg"):
        return self.builds[variant]["cli"]

    def label(self, name, yes=True):
        if yes:
            self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, yes=True):
        if yes:
            self.cur_nontrivial = True

    def close(self):
        for w in self.workers.values():
            w.stop()
        self.workers = {}


def run_case(ctx, test, case, counted=True):
    """Evaluates one case; library crashes become violations."""
    ctx.cur_nontrivial = False
    if counted:
        ctx.evaluations += 1
    try:
        for attempt in (0, 1):
            try:
                test.check(ctx, case)
                break
            except Crash as e:
                if e.kind == "killed" and attempt == 0:
                    continue
                if e.kind == "hang":
                    raise HardStop("hang: " + str(e))
                raise Violation("the library crashed: " + str(e))
            except (Violation, Skip, OSError, MemoryError):
                raise
            except Exception as e:
                # what the library returned could not even be interpreted
                raise Violation("uninterpretable result: " + traceback.format_exc()[-900:])
    except Skip:
        ctx.skipped += 1
        return
    if counted and ctx.cur_nontrivial:
        key = (test.name, json.dumps(enc(case), sort_keys=True))
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        if h not in ctx.seen:
            ctx.seen.add(h)
            if len(ctx.samples) < 400:
                ctx.samples.append((test.name, show(case)))


def seed_for(seed, prop, test, shard):
    h = hashlib.sha256(("%s/%s/%s/%s" % (seed, prop, test, shard)).encode()).digest()
    return int.from_bytes(h[:8], "little")


def run_strategy(ctx, test, seed, count, stop, deadline):
    """Returns None or (case, message, hard)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 45
    last = {}
    ran = [0]

    @hypothesis.seed(seed)
    @settings(max_examples=count, database=None, deadline=None, print_blob=False,
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
              phases=[Phase.generate, Phase.shrink])
    @given(test.strategy())
    def prop(case):
        if not last and (stop.is_set() or time.time() > deadline):
            return
        ran[0] += 1
        try:
            run_case(ctx, test, case, counted=not last)
        except Violation as e:
            last["case"], last["msg"] = case, str(e)
            last.setdefault("first", case)
            raise
        except HardStop as e:
            last["case"], last["msg"], last["hard"] = case, str(e), True
            raise

    try:
        prop()
    except (Infra, MemoryError):
        raise
    except HardStop:
        pass
    except Violation:
        pass
    except Exception:
        if not last:
            raise
    if last:
        return last["case"], last["msg"], last["first"] if "first" in last else last["case"]
    return None


def run_cases(ctx, test, shard, shards, stop, deadline):
    for i, case in enumerate(test.cases()):
        if i % shards != shard:
            continue
        if stop.is_set() or time.time() > deadline:
            ctx.label("unfinished:" + test.name)
            return None
        try:
            run_case(ctx, test, case)
        except (Violation, HardStop) as e:
            return case, str(e), case
    return None


def shard_main(conn, modname, tier, seed, shard, shards, builds, scratch, stop, deadline, only):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    result = {"shard": shard}
    try:
        mod = importlib.import_module("props." + modname)
        d = os.path.join(scratch, "shard%d" % shard)
        os.makedirs(d, exist_ok=True)
        ctx = Ctx(builds, d, tier, shard)
        failure = None
        times = {}
        for test in mod.TESTS:
            if only and test.name not in only:
                continue
            if stop.is_set():
                break
            t0 = time.time()
            s = seed_for(seed, mod.ID, test.name, shard)
            count = test.quick if tier == "quick" else test.thorough
            if test.cases:
                f = run_cases(ctx, test, shard, shards, stop, deadline)
            else:
                per = count // shards + (1 if shard < count % shards else 0)
                f = run_strategy(ctx, test, s, per, stop, deadline) if per else None
            times[test.name] = round(time.time() - t0, 2)
            if f:
                stop.set()
                failure = {"test": test.name, "case": enc(f[0]), "message": f[1],
                           "first": enc(f[2]), "seed": s, "shard": shard,
                           "count": 0 if test.cases else per, "shards": shards}
                break
        ctx.close()
        result.update(failure=failure, evaluations=ctx.evaluations, skipped=ctx.skipped,
                      labels=ctx.labels, seen=ctx.seen, times=times, samples=ctx.samples)
    except BaseException:
        result["error"] = traceback.format_exc()
        stop.set()
    conn.send(result)
    conn.close()
    os._exit(0)


# -------------------------------------------------------------------------- driver
def find_test(mod, name):
    for t in mod.TESTS:
        if t.name == name:
            return t
    raise KeyError(name)


def judge(mod, builds, scratch, tier, name, case):
    """One fresh evaluation: None or a message."""
    ctx = Ctx(builds, scratch, tier)
    try:
        run_case(ctx, find_test(mod, name), case)
        return None
    except (Violation, HardStop) as e:
        return str(e)
    finally:
        ctx.close()


def build_all(workdir, variants):
    out = {}
    with ThreadPoolExecutor(len(variants)) as ex:
        for v, r in zip(variants, ex.map(lambda v: B.build(workdir, v), variants)):
            out[v] = r
    return out


def write_evidence(mod, tier, seed, coverage, wall, violations):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": coverage, "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(ROOT, "evidence", "%s.json.tmp%d" % (mod.ID, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(ROOT, "evidence", mod.ID + ".json"))


def pick_samples(per_shard, n=10):
    """A few cases per test, spread over the run."""
    by = {}
    for l in per_shard:
        for name, c in l:
            by.setdefault(name, []).append(c)
    out = []
    each = max(2, n // max(1, len(by)))
    for name, l in sorted(by.items()):
        step = max(1, len(l) // each)
        out += [{"test": name, "case": c} for c in l[::step][:each]]
    return out


def known_findings(prop):
    """The texts of the lines `known: property=<id> <text>` of KNOWN_FINDINGS.txt."""
    head = "known: property=%s " % prop
    with open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")) as f:
        return {l[len(head):].strip() for l in f if l.startswith(head)}


def main(modname, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    shards = int(os.environ.get("VERIF_SHARDS", "0")) or min(8, os.cpu_count() or 1)
    only, replay = [], None
    i = 0
    while i < len(argv):
        if argv[i] == "--replay":
            replay = argv[i + 1]
            i += 2
        elif argv[i] == "--test":
            only.append(argv[i + 1])
            i += 2
        else:
            print("unknown argument", argv[i])
            return 2
    budget = int(os.environ.get("VERIF_BUDGET", {"quick": 300, "thorough": 780}[tier]))
    mod = importlib.import_module("props." + modname)
    work = tempfile.mkdtemp(prefix="pg-%s-" % mod.ID)
    os.chmod(work, 0o755)
    code = 2
    try:
        try:
            builds = build_all(work, list(mod.VARIANTS))
            if hasattr(mod, "setup"):
                mod.setup(builds, work)
        except B.BuildError as e:
            print("BUILD ERROR\n" + str(e))
            return 3
        t_build = time.time() - t0
        if replay:
            with open(replay) as f:
                rp = json.load(f)
            msg = judge(mod, builds, work, tier, rp["test"], dec(rp["case"]))
            print("replay:", "still fails: " + msg if msg else "holds")
            if msg:
                print("VIOLATION property=%s replay=%s" % (mod.ID, replay))
            return 1 if msg else 0

        known = []
        failure = None
        # 1. known findings, probed every time
        listed = known_findings(mod.ID)
        for line in (mod.probes(Ctx(builds, work, tier)) if hasattr(mod, "probes") else []):
            if line in listed:
                known.append(line)
                print("KNOWN-FINDING: property=%s %s" % (mod.ID, line))
            else:
                os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
                path = "replays/%s-finding.json" % mod.ID
                with open(os.path.join(ROOT, path), "w") as f:
                    json.dump({"finding": line}, f)
                print("VIOLATION property=%s replay=%s" % (mod.ID, path))
                return 1

        # 2. saved regression cases
        regress = 0
        for path in sorted(glob.glob(os.path.join(ROOT, "regress", mod.ID, "*.json"))):
            with open(path) as f:
                rp = json.load(f)
            if only and rp["test"] not in only:
                continue
            regress += 1
            msg = judge(mod, builds, work, tier, rp["test"], dec(rp["case"]))
            if msg:
                failure = {"test": rp["test"], "case": rp["case"], "first": rp["case"],
                           "message": msg, "seed": 0, "shard": 0, "count": 0, "shards": 1}
                break

        # 3. generated search
        results = []
        if not failure:
            stop = multiprocessing.Event()
            deadline = time.time() + budget
            procs = []
            for s in range(shards):
                a, b = multiprocessing.Pipe(False)
                p = multiprocessing.Process(target=shard_main, args=(
                    b, modname, tier, seed, s, shards, builds, work, stop, deadline, only))
                p.start()
                b.close()
                procs.append((p, a))
            for p, a in procs:
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append({"error": "shard died"})
                p.join()
            errors = [r["error"] for r in results if r.get("error")]
            failures = sorted((r["failure"] for r in results if r.get("failure")),
                              key=lambda f: len(json.dumps(f["case"])))
            if failures:
                failure = failures[0]
            elif errors:
                print("CHECK ERROR\n" + errors[0])
                return 2

        # 4. replay before reporting
        violations = 0
        note = None
        if failure:
            hits = [judge(mod, builds, work, tier, failure["test"], dec(failure["case"]))
                    for _ in range(3)]
            if sum(1 for h in hits if h) < 2 and failure["first"] != failure["case"]:
                failure["case"] = failure["first"]
                hits = [judge(mod, builds, work, tier, failure["test"], dec(failure["case"]))
                        for _ in range(3)]
            if sum(1 for h in hits if h) < 2:
                # state carried over from earlier cases: replay the whole shard
                test = find_test(mod, failure["test"])
                hits = []
                for _ in range(2):
                    ctx = Ctx(builds, work, tier, failure["shard"])
                    never = threading.Event()
                    if test.cases:
                        f = run_cases(ctx, test, failure["shard"], failure["shards"], never,
                                      time.time() + 120)
                    else:
                        f = run_strategy(ctx, test, failure["seed"], failure["count"], never,
                                         time.time() + 120)
                    ctx.close()
                    hits.append(f[1] if f else None)
                failure["history"] = True
            if sum(1 for h in hits if h) >= 2:
                violations = 1
                os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
                name = "%s-%s.json" % (mod.ID, failure["test"].replace(" ", "-"))
                path = os.path.join(ROOT, "replays", name)
                failure["property"] = mod.ID
                failure["shown"] = show(dec(failure["case"]), 2000)
                with open(path, "w") as f:
                    json.dump(failure, f, indent=1)
                print("%s/%s: %s" % (mod.ID, failure["test"], failure["message"][:1500]))
                print("case: %s" % json.dumps(show(dec(failure["case"])))[:2000])
                print("VIOLATION property=%s replay=replays/%s" % (mod.ID, name))
            else:
                note = "a failure of %s did not reproduce: %s" % (
                    failure["test"], failure["message"][:300])
                print("NOT REPRODUCED: " + note)

        seen = set()
        labels, times = {}, {}
        for r in results:
            seen |= r.get("seen", set())
            for k, v in r.get("labels", {}).items():
                labels[k] = labels.get(k, 0) + v
            for k, v in r.get("times", {}).items():
                times[k] = max(times.get(k, 0), v)
        coverage = {
            "evaluations": sum(r.get("evaluations", 0) for r in results) + regress,
            "distinct_nontrivial": len(seen),
            "rule": mod.RULE,
            "samples": pick_samples([r.get("samples", []) for r in results]),
            "classes": dict(sorted(labels.items())),
            "skipped_out_of_domain": sum(r.get("skipped", 0) for r in results),
            "regression_cases": regress,
            "tests_s": times,
            "build_s": round(t_build, 1),
            "builds": list(mod.VARIANTS),
            "shards": shards,
        }
        if known:
            coverage["known_findings"] = known
        if note:
            coverage["not_reproduced"] = note
        if not coverage["samples"] and failure:
            coverage["samples"] = [failure.get("shown", failure["message"][:200])]
        wall = time.time() - t0
        write_evidence(mod, tier, seed, coverage, wall, violations)
        print("%s: %s, %d cases (%d distinct non-trivial), %d labels, %.1f s" % (
            mod.ID, "VIOLATED" if violations else "held", coverage["evaluations"],
            len(seen), len(labels), wall))
        code = 1 if violations else 0
        return code
    finally:
        shutil.rmtree(work, ignore_errors=True)

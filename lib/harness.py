"""Runner: hypothesis campaigns in parallel shards, replay files, evidence."""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter

import boot
from refgrav import Degenerate as Trivial  # case outside the domain of the oracle


class Violation(AssertionError):
    """the property does not hold on this case"""


def fail(msg, *a):
    raise Violation(msg % a if a else msg)


def call(what, fn, *a, **k):
    """run code under test where the property says it must succeed"""
    try:
        return fn(*a, **k)
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        raise Violation("%s raised %s: %s (at %s)" % (what, type(e).__name__,
                                                      str(e)[:300], where)) from None


CASE_S = 90  # a case takes milliseconds; one that takes this long will not end


def _late(*_):
    raise Violation("no result within %d s" % CASE_S)


def evaluate(sub, case, ctx):
    """one case; an error raised out of the code under test, where the check expects
    a result, is a violation"""
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(CASE_S)
    try:
        sub.check(case, ctx)
    except (Violation, Trivial):
        raise
    except Exception as e:  # noqa: BLE001
        pkg = os.path.join(os.path.abspath(boot.REPO), "geec") + os.sep
        hit = [f for f in traceback.extract_tb(e.__traceback__)
               if os.path.abspath(f.filename).startswith(pkg)]
        if isinstance(e, (MemoryError, ImportError)):
            raise
        if not hit:
            # the check stumbled over what the code gave back (never on the unchanged tree)
            if isinstance(e, (AttributeError, TypeError, LookupError, ValueError,
                              ArithmeticError, FileNotFoundError)):
                f = traceback.extract_tb(e.__traceback__)[-1]
                raise Violation("the result cannot be examined: %s: %s (at %s:%d)" % (
                    type(e).__name__, str(e)[:300], os.path.basename(f.filename),
                    f.lineno)) from None
            raise
        raise Violation("%s: %s (at %s:%d)" % (
            type(e).__name__, str(e)[:300], os.path.basename(hit[-1].filename),
            hit[-1].lineno)) from None
    finally:
        signal.alarm(0)


class Ctx:
    """per-case notes taken by a check"""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(names)

    def hit(self, cond=True):
        if cond:
            self.nontrivial = True


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, rule):
        self.name = name
        self.strategy = strategy  # () -> hypothesis strategy of JSON-able cases
        self.check = check  # (case, ctx) -> None, raises Violation
        self.quick = quick
        self.thorough = thorough
        self.rule = rule


def _json(case):
    return json.dumps(case, sort_keys=True)


def campaign(sub, seed, n, deadline):
    """one shard: returns a dict of statistics and, maybe, a failure"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng

    if hasattr(eng, "MAX_SHRINKING_SECONDS"):
        eng.MAX_SHRINKING_SECONDS = 45
    res = {"sub": sub.name, "evaluations": 0, "skipped": 0, "labels": Counter(),
           "nontrivial": set(), "samples": [], "failure": None, "error": None}
    trail = []
    state = {"fail": None}

    def body(case):
        if state["fail"] is None and time.time() > deadline:
            res["skipped"] += 1
            return
        js = _json(case)
        case = json.loads(js)  # what is checked is what a replay file holds
        ctx = Ctx()
        if state["fail"] is None:
            trail.append(js)
            del trail[:-25]
        try:
            evaluate(sub, case, ctx)
        except Trivial:
            ctx.nontrivial = False
            ctx.label("trivial")
        except Violation as e:
            state["fail"] = {"case": json.loads(js), "message": str(e)}
            if "trail" not in state:
                state["trail"] = [json.loads(t) for t in trail[:-1]]
            raise
        finally:
            if state["fail"] is None:
                res["evaluations"] += 1
                res["labels"].update(ctx.labels)
                if ctx.nontrivial:
                    res["nontrivial"].add(hashlib.sha1(js.encode()).digest()[:10])
                    if len(res["samples"]) < 3 and len(js) < 1500:
                        res["samples"].append({"sub": sub.name, "case": case,
                                               "labels": ctx.labels})

    test = given(sub.strategy())(body)
    test = settings(max_examples=n, deadline=None, database=None, print_blob=False,
                    report_multiple_bugs=False, derandomize=False,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck))(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except Violation:
        pass
    except BaseException as e:  # noqa: BLE001
        if state["fail"] is None:
            res["error"] = "".join(
                traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
        else:
            state["fail"]["flaky"] = type(e).__name__
    if state["fail"] is not None:
        res["failure"] = dict(state["fail"], sub=sub.name, seed=seed,
                              trail=state.get("trail", []))
    return res


def _worker(args):
    mod, pid, name, seed, n, deadline = args
    try:
        sub = next(s for s in SUBS if s.name == name)
        return campaign(sub, seed, n, deadline)
    except BaseException as e:  # noqa: BLE001
        return {"sub": name, "evaluations": 0, "skipped": 0, "labels": Counter(),
                "nontrivial": set(), "samples": [], "failure": None,
                "error": "".join(traceback.format_exception(type(e), e,
                                                            e.__traceback__))[-4000:]}


SUBS = []
# where evidence and replay files go
OUT = os.environ.get("VERIF_OUT", boot.VERIF)


def _derive(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_property(prop, subs, tier, seed, jobs, warm=None):
    global SUBS
    t0 = time.time()
    SUBS = subs
    budget = float(os.environ.get("VERIF_BUDGET",
                                  "420" if tier == "quick" else "3000"))
    deadline = t0 + budget
    if warm:
        warm()  # compile / import before forking
    tasks = []
    for s in subs:
        n = s.quick if tier == "quick" else s.thorough
        n = max(8, int(n * float(os.environ.get("VERIF_SCALE", "1"))))  # (tools only)
        shards = max(1, min(jobs, n // 4)) if tier == "quick" else jobs * 2
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            if m:
                tasks.append((None, prop, s.name, _derive(seed, prop, s.name, k), m,
                              deadline))
    # largest first would be nicer; interleave by shard so that all subs progress
    results = []
    if jobs == 1:
        for t in tasks:
            results.append(_worker(t))
    else:
        import multiprocessing as mp
        from concurrent.futures import ProcessPoolExecutor

        ctx = mp.get_context("fork")
        with ProcessPoolExecutor(max_workers=jobs, mp_context=ctx) as ex:
            results = list(ex.map(_worker, tasks, chunksize=1))
    errors = [r for r in results if r["error"]]
    failures = [r["failure"] for r in results if r["failure"]]
    ev = {}
    for s in subs:
        rs = [r for r in results if r["sub"] == s.name]
        lab = Counter()
        nt = set()
        for r in rs:
            lab.update(r["labels"])
            nt |= r["nontrivial"]
        ev[s.name] = {"evaluations": sum(r["evaluations"] for r in rs),
                      "distinct_nontrivial": len(nt),
                      "not_run_out_of_time": sum(r["skipped"] for r in rs),
                      "rule": s.rule,
                      "labels": dict(sorted(lab.items()))}
    samples = []
    for s in subs:
        for r in results:
            if r["sub"] == s.name and r["samples"]:
                samples.append(r["samples"][-1])
                break
    path = None
    if failures:
        failures.sort(key=lambda f: len(_json(f["case"])))
        f = failures[0]
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (prop, f["sub"]))
        with open(path, "w") as fh:
            json.dump({"property": prop, "sub": f["sub"], "message": f["message"],
                       "case": f["case"], "seed": f["seed"],
                       "flaky": f.get("flaky"),
                       "trail": f["trail"] if f.get("flaky") else []}, fh, indent=1)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(e["evaluations"] for e in ev.values()),
            "distinct_nontrivial": sum(e["distinct_nontrivial"] for e in ev.values()),
            "rule": "; ".join("%s: %s" % (s.name, s.rule) for s in subs),
            "samples": samples,
            "subchecks": ev,
        },
        "assumptions": ASSUMPTIONS.get(prop, ASSUMPTIONS["*"]),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    d = os.path.join(OUT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    for name, e in ev.items():
        print("%s %s: %d cases, %d distinct non-trivial%s" % (
            prop, name, e["evaluations"], e["distinct_nontrivial"],
            ", %d not run (time)" % e["not_run_out_of_time"]
            if e["not_run_out_of_time"] else ""))
    if failures:
        f = failures[0]
        print("%s %s: %s" % (prop, f["sub"], f["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        return 1
    if errors:
        for r in errors[:3]:
            print("harness error in %s:\n%s" % (r["sub"], r["error"]), file=sys.stderr)
        return 2
    return 0


def replay(prop, subs, path):
    with open(path) as fh:
        d = json.load(fh)
    sub = next(s for s in subs if s.name == d["sub"])
    for c in d.get("trail", []):
        try:
            evaluate(sub, c, Ctx())
        except Trivial:
            pass
        except Violation as e:
            print("%s %s (trail): %s" % (prop, sub.name, e))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
    try:
        evaluate(sub, d["case"], Ctx())
    except Trivial:
        pass
    except Violation as e:
        print("%s %s: %s" % (prop, sub.name, e))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s %s: holds on %s" % (prop, sub.name, path))
    return 0


ASSUMPTIONS = {
    "*": ["numpy, scipy (Qhull, HiGHS), numba, pandas, PyYAML, confuse, pymap3d and "
          "pygeodesy behave as documented",
          "sampled search: absence of a violation is not a proof",
          "geoid grids egm96 and egm2008 are missing from this copy and replaced by "
          "synthetic grids of known shape"],
}

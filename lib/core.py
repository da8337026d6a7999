"""Runner shared by all the checks: sharded Hypothesis search, shrinking, replay files, evidence.

A property module (lib/props/cXX.py) provides

    ID      the property id
    RULE    how cases are made and what makes one non-trivial (goes to the evidence file)
    SUITES  list of Suite(name, strategy, quick, thorough)
    check(case) -> Outcome     raises Violation when the property is broken

A case is a plain JSON-able dict.  All the arrays are derived deterministically from it.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FBE_REPO", "/repo")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
CASE_CPU_LIMIT = 120  # CPU seconds for one case; typical cases take a few milliseconds
SHRINK_EVALS = 150


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, fatal=False):
        super().__init__(msg)
        self.fatal = fatal  # do not try to shrink (used for non-termination)


class HarnessError(Exception):
    pass


class Outcome:
    __slots__ = ("nontrivial", "labels", "note", "ratio")

    def __init__(self, nontrivial=True, labels=(), note="", ratio=0.0):
        self.nontrivial = nontrivial
        self.labels = list(labels)
        self.note = note
        self.ratio = ratio


Suite = collections.namedtuple("Suite", "name strategy quick thorough")


def setup_paths():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if HYP not in sys.path:
        sys.path.append(HYP)
    warnings.simplefilter("ignore")


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def _alarm(signum, frame):
    raise Violation(
        "no result within the CPU time limit of one case (20 to 120 s; typical: well below 1 s)", fatal=True
    )


def guarded_check(mod, case):
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CPU_LIMIT", CASE_CPU_LIMIT))
    try:
        out = mod.check(case)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if not isinstance(out, Outcome):
        raise HarnessError("check() must return an Outcome")
    return out


# ---------------------------------------------------------------- worker


def worker(prop, shard, nshards, tier, seed, outfile):
    setup_paths()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    mod = importlib.import_module("props." + prop.lower())
    res = dict(
        evaluations=0, keys=[], labels={}, samples=[], ratio=0.0, failure=None, suites={}, corpus=0, worst=None,
    )
    labels = collections.Counter()
    ratios = {}
    keys = set()
    cur = os.open(outfile + ".cur", os.O_RDWR | os.O_CREAT | os.O_TRUNC)

    def evaluate(case, count=True):
        blob = json.dumps(case).encode()
        os.ftruncate(cur, 0)
        os.pwrite(cur, blob, 0)
        out = guarded_check(mod, case)
        if count:
            res["evaluations"] += 1
            for l in out.labels:
                labels[l] += 1
            if out.ratio > res["ratio"]:
                res["ratio"], res["worst"] = out.ratio, case
            for l in out.labels:
                ratios[l] = max(ratios.get(l, 0.0), out.ratio)
            if out.nontrivial:
                k = case_key(case)
                if k not in keys:
                    keys.add(k)
                    if len(res["samples"]) < 3 or (len(keys) % 97 == 0 and len(res["samples"]) < 6):
                        res["samples"].append(dict(case=case, outcome=out.note or "held"))
        return out

    def fail(case, v):
        res["failure"] = dict(case=case, message=str(v))

    # saved regression inputs first, spread over the shards
    corpus = os.path.join(VERIF, "corpus", prop + ".json")
    if os.path.exists(corpus):
        for i, case in enumerate(json.load(open(corpus))):
            if i % nshards != shard:
                continue
            try:
                evaluate(case)
                res["corpus"] += 1
            except Violation as v:
                fail(case, v)
                break

    for si, suite in enumerate(mod.SUITES):
        if res["failure"]:
            break
        total = 2 * suite.quick if tier == "quick" else suite.thorough
        n = total // nshards + (1 if (shard + si) % nshards < total % nshards else 0)
        if n == 0:
            continue
        memo = {}
        state = dict(failed=False, evals=0, last=None, count=0)

        def body(case):
            k = case_key(case)
            if k in memo:
                state["last"] = (case, memo[k])
                raise memo[k]
            if state["failed"]:
                state["evals"] += 1
                if state["evals"] > SHRINK_EVALS:
                    return
            try:
                evaluate(case, count=not state["failed"])
                state["count"] += not state["failed"]
            except Violation as v:
                v = v.with_traceback(None)
                if not state["failed"]:
                    res["evaluations"] += 1
                state["failed"] = True
                if v.fatal:
                    state["evals"] = SHRINK_EVALS
                memo[k] = v
                state["last"] = (case, v)
                raise v

        test = given(suite.strategy)(body)
        test = settings(
            max_examples=n, database=None, deadline=None, derandomize=False,
            report_multiple_bugs=False, print_blob=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            verbosity=hypothesis.Verbosity.quiet,
        )(test)
        test = hypothesis.seed(seed * 1000003 + shard * 1009 + si)(test)
        try:
            test()
        except Violation as v:
            if state["last"] is None:
                raise HarnessError("violation without a case")
            case, v = state["last"]
            fail(case, v)
        except BaseException as e:  # flaky reports and the like
            if state["last"] is not None and isinstance(e, Exception):
                case, v = state["last"]
                fail(case, v)
                res["failure"]["message"] += f"  [search ended by {type(e).__name__}]"
            else:
                raise
        res["suites"][suite.name] = state["count"]

    res["keys"] = sorted(keys)
    res["labels"] = dict(labels)
    res["ratios"] = ratios
    with open(outfile + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(outfile + ".tmp", outfile)
    # skip slow interpreter teardown
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


# ---------------------------------------------------------------- parent


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"finding: property={prop} "):
                out.append(line[len("finding: "):])
    return out


def child_env():
    env = dict(os.environ)
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
        env[v] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPYCACHEPREFIX"] = "/nonexistent-pycache"
    env["PYTHONPATH"] = os.path.join(VERIF, "lib")
    return env


def spawn(args, log):
    return subprocess.Popen(
        [sys.executable, os.path.join(VERIF, "lib", "run.py")] + args,
        env=child_env(), stdout=log, stderr=subprocess.STDOUT, cwd=VERIF,
    )


def parent(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    nshards = int(os.environ.get("FBE_SHARDS", "8"))
    hard = 840 if tier == "quick" else 6 * 3600
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="fbe-" + prop + "-")
    procs = []
    for s in range(nshards):
        out = os.path.join(tmp, f"s{s}.json")
        log = open(os.path.join(tmp, f"s{s}.log"), "w")
        procs.append((s, spawn(["--worker", prop, str(s), str(nshards), tier, str(seed), out], log), out))

    results, failures, errors = {}, [], []
    pending = list(procs)
    while pending:
        time.sleep(0.05)
        for item in list(pending):
            s, p, out = item
            rc = p.poll()
            if rc is None:
                continue
            pending.remove(item)
            if rc == 0 and os.path.exists(out):
                results[s] = json.load(open(out))
                if results[s]["failure"]:
                    failures.append(results[s]["failure"])
                continue
            log = open(os.path.join(tmp, f"s{s}.log")).read()[-3000:]
            case = None
            if rc < 0 and rc != -signal.SIGKILL and os.path.exists(out + ".cur"):
                try:
                    case = json.load(open(out + ".cur"))
                except ValueError:
                    case = None
            if case is not None:
                rf = os.path.join(tmp, f"crash{s}.json")
                json.dump(dict(property=prop, case=case), open(rf, "w"))
                r2 = spawn(["--replay", prop, rf], open(os.path.join(tmp, f"crash{s}.log"), "w"))
                r2.wait()
                if r2.returncode == 1 or (r2.returncode < 0 and r2.returncode != -signal.SIGKILL):
                    failures.append(dict(case=case, message=f"the interpreter died with signal {-rc} on this case"))
                    continue
            errors.append(f"shard {s} ended with {rc}\n{log}")
        el = time.time() - t0
        if pending and ((failures and el > 240) or el > hard):
            for s, p, out in pending:
                p.kill()
                p.wait()
            if not failures:
                errors.append(f"time budget of {hard} s exhausted: inconclusive")
            break

    wall = time.time() - t0
    labels = collections.Counter()
    suites = collections.Counter()
    keys = set()
    samples = []
    evaluations = 0
    ratio, worst = 0.0, None
    corpus = 0
    ratios = {}
    for s in sorted(results):
        r = results[s]
        labels.update(r["labels"])
        for l, v in r["ratios"].items():
            ratios[l] = max(ratios.get(l, 0.0), v)
        suites.update(r["suites"])
        keys.update(r["keys"])
        evaluations += r["evaluations"]
        corpus += r["corpus"]
        if r["ratio"] > ratio:
            ratio, worst = r["ratio"], r["worst"]
        samples += r["samples"]
    setup_paths()
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    mod = importlib.import_module("props." + prop.lower())
    if len(samples) > 12:
        step = len(samples) / 12.0
        samples = [samples[int(i * step)] for i in range(12)]
    if not samples:
        samples = [dict(case=f["case"], outcome=f["message"]) for f in failures[:1]] or ["none"]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples,
            suites=dict(suites), labels=dict(sorted(labels.items())), saved_inputs_replayed=corpus,
            worst_error_over_tolerance=round(ratio, 4), worst_case=worst,
            worst_error_over_tolerance_by_label={l: round(v, 3) for l, v in sorted(ratios.items())}, shards=nshards,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2), violations=len(failures),
    )
    evdir = os.path.join(VERIF, "evidence")
    if "FBE_EVIDENCE" in os.environ:
        evdir = os.environ["FBE_EVIDENCE"]
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    code = 0
    if failures:
        f = failures[0]
        rdir = os.environ.get("FBE_REPLAYS", os.path.join(VERIF, "replays"))
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{tier}-{seed}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=prop, case=f["case"], message=f["message"]), fh, indent=1)
        print(f["message"][:2000])
        print("case:", json.dumps(f["case"])[:2000])
        print(f"VIOLATION property={prop} replay={path}")
        code = 1
    elif errors:
        print("\n".join(errors)[:6000])
        code = 2
    else:
        for k in known_findings(prop):
            print("KNOWN-FINDING: " + k)
        print(
            f"{prop} {tier} seed={seed}: {evaluations} cases, {len(keys)} distinct non-trivial, "
            f"worst error/tolerance {ratio:.3f}, {wall:.1f} s"
        )
    subprocess.call(["rm", "-rf", tmp])
    sys.stdout.flush()
    os._exit(code)


def replay(prop, path):
    setup_paths()
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    mod = importlib.import_module("props." + prop.lower())
    case = json.load(open(path))["case"]
    try:
        out = guarded_check(mod, case)
    except Violation as v:
        print(str(v))
        print(f"VIOLATION property={prop} replay={path}")
        sys.stdout.flush()
        os._exit(1)
    print("held:", out.note, out.labels, "ratio", out.ratio)
    sys.stdout.flush()
    os._exit(0)


def main():
    a = sys.argv[1:]
    if a[0] == "--worker":
        _, prop, shard, nshards, tier, seed, out = a
        worker(prop, int(shard), int(nshards), tier, int(seed), out)
    elif a[0] == "--replay":
        replay(a[1], a[2])
    elif len(a) == 3 and a[1] == "--replay":
        replay(a[0], a[2])
    else:
        parent(a[0])

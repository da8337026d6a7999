"""Every call is independent of call history."""
import contextlib
import io
import os
import random
import sys
import threading
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation
from fresh import fresh

ID = "C16"
RULE = (
    "A history of 3 to 9 operations on a newly imported copy of the package over a pool of up to 4 problems (functions, options, shapes, precisions, backends): call with the problem's own buffers (plainly, under no_grad or inference_mode, or with "
    "backpropagation), refill the buffers in place with other data or change some of their samples only, replace them by new ones of the same shape, overwrite results returned earlier, make a failing call (NaN, mismatched channels), call several problems at the same time from threads. "
    "Every result is compared, within the rounding-error bound, with that of the same arguments in another newly imported copy that has made no other call; results already returned must stay the same bit for bit; nothing may be printed and no process-wide setting (numpy error handling, random states, torch defaults and modes, warning filters, environment) may be changed. "
    "Suite sizes: the same with filters of 64 to 300 taps, 3000 to 40000 samples, or 10 channels. Suite modes: the same or similar torch problems called several times under no_grad, inference_mode, and with backpropagation. "
    "Suite threads: 2 to 4 threads calling the same or different problems repeatedly with a switch interval of 1 microsecond. "
    "Suite siblings: the same shapes and precision with other values of the options or other data, one call after another. Suite same: 2 to 4 threads, each calling one function 4 to 12 times on arrays of the same shapes and its own data. "
    "Non-trivial: at least three successful calls, one of them with some metric inside (-40, 60) dB."
)
NAMES = gen.WEIGHTED + ["square_cosine_metrics", "pairwise_sdr_loss", "pairwise_si_sdr_loss"]
SMALL = dict(max_L=17, max_order=50, max_N=300, max_total=2500, batches=[[], [], [2], [2, 2]])


@st.composite
def pool(draw, lo, hi, **kw):
    base = draw(gen.problem(names=NAMES, **dict(SMALL, **kw)))
    out = [base]
    for _ in range(draw(st.integers(lo, hi)) - 1):
        if draw(st.booleans()):
            out.append(draw(gen.problem(names=NAMES, **SMALL)))
            continue
        # a variant of the first one, likely to collide with anything remembered about it
        c = dict(base, opts=dict(base["opts"]))
        for w in draw(st.lists(st.sampled_from(["seed", "dtype", "backend", "N", "batch", "opt", "L", "fn", "chan"]), min_size=1, max_size=2)):
            if w == "seed":
                c["seed"] = draw(gen.SEED)
            elif w == "dtype":
                c["dtype"] = "f32" if c["dtype"] == "f64" else "f64"
            elif w == "backend":
                c["backend"] = "np" if c["backend"] == "pt" else "pt"
            elif w == "N":
                c["N"] += draw(st.sampled_from([1, 2, 5, 40]))
            elif w == "batch":
                c["batch"] = draw(st.sampled_from([[], [2], [3], [2, 2]]))
            elif w == "chan" and c["fn"] in ("sdr", "sdr_pit_loss", "si_sdr", "si_sdr_pit_loss", "pairwise_sdr_loss", "pairwise_si_sdr_loss"):
                c["n_est"] = draw(st.integers(1, 4))
            elif w == "L" and c["L"] > 1:
                c["L"] = c["opts"]["filter_length"] = max(2, c["L"] - draw(st.integers(1, 3)))
            elif w == "fn" and c["fn"] in ("sdr", "sdr_pit_loss", "pairwise_sdr_loss"):
                c["fn"] = draw(st.sampled_from(["sdr", "sdr_pit_loss", "pairwise_sdr_loss"]))
            elif w == "opt":
                k = draw(st.sampled_from(["zero_mean", "clamp_db", "load_diag", "use_cg_iter"]))
                v = {"zero_mean": [True, False], "clamp_db": [None, 20, 60], "load_diag": [None, 1e-3, 0.3], "use_cg_iter": [None, 3, 15]}[k]
                v = draw(st.sampled_from(v))
                if v is None:
                    c["opts"].pop(k, None)
                elif k in api.ALL[c["fn"]][2]:
                    c["opts"][k] = v
        c["opts"] = api.filter_opts(c["fn"], c["opts"])
        out.append(c)
    return out


OP = st.one_of(
    st.tuples(st.just("call"), st.integers(0, 3), st.sampled_from(["plain", "plain", "plain", "no_grad", "inference", "grad", "grad"])),
    st.tuples(st.just("refill"), st.integers(0, 3), gen.SEED),
    st.tuples(st.just("edit"), st.integers(0, 3), gen.SEED, st.sampled_from(["inside", "inside", "one", "channels", "est inside", "ref inside"])),
    st.tuples(st.just("replace"), st.integers(0, 3), gen.SEED),
    st.tuples(st.just("scribble"), st.integers(0, 7), st.sampled_from([0, 7, -3])),
    st.tuples(st.just("bad"), st.integers(0, 3), st.sampled_from(["nan", "mismatch", "inf"])),
    st.tuples(st.just("threads"), st.integers(0, 3), st.integers(0, 3)),
).map(list)
HIST = st.fixed_dictionaries(dict(
    pool=pool(1, 4),
    ops=st.lists(OP, min_size=2, max_size=9).map(lambda o: [["call", 0, "plain"]] + o + [["call", 0, "plain"], ["call", 1, "plain"]]),
))
SIZED = st.fixed_dictionaries(dict(
    pool=st.one_of(pool(1, 3, min_L=64, max_L=300, max_order=600, min_N=600, max_N=3000, max_total=8000, batches=[[], [2]]), pool(1, 3, min_N=3000, max_N=40000, max_total=60000, max_L=8, batches=[[], [2]]),
                   pool(1, 2, max_ch=10, max_L=3, max_order=30, max_N=120, max_total=8000, batches=[[], [10], [40]])),
    ops=st.lists(OP, min_size=2, max_size=5).map(lambda o: [["call", 0, "plain"]] + o + [["call", 0, "plain"], ["call", 1, "plain"]]),
))
THR = st.fixed_dictionaries(dict(
    pool=pool(1, 3),
    threads=st.lists(st.lists(st.integers(0, 2), min_size=2, max_size=5), min_size=2, max_size=4),
))
MODE = st.sampled_from(["plain", "no_grad", "inference", "inference", "grad", "grad"])
MODES = st.fixed_dictionaries(dict(
    pool=pool(1, 2, cg=[None, 3, 10], backends=("pt",), max_total=1500),
    ops=st.lists(st.tuples(st.just("call"), st.integers(0, 1), MODE).map(list), min_size=3, max_size=5),
))


@st.composite
def siblings(draw):
    """same shapes and types, other option values and other data"""
    base = draw(gen.problem(names=NAMES + ["si_bss_eval_sources", "square_cosine_metrics"], load=[None] + gen.LOAD[5:], **dict(SMALL, max_L=9)))
    if draw(st.booleans()) and "filter_length" in base["opts"]:
        base["L"] = base["opts"]["filter_length"] = 1
    pool = [base]
    for _ in range(draw(st.integers(2, 4))):
        c = dict(base, opts=dict(base["opts"]))
        if draw(st.booleans()):
            c["seed"] = draw(gen.SEED)
        for k in draw(st.lists(st.sampled_from(["zero_mean", "clamp_db", "load_diag", "load_diag", "use_cg_iter", "pairwise", "compute_permutation", "change_sign", "return_perm"]), min_size=1, max_size=3)):
            if k not in api.ALL[c["fn"]][2]:
                continue
            if k in ("pairwise", "compute_permutation"):
                if c["n_ref"] == c["n_est"]:
                    c["opts"][k] = draw(st.booleans())
                continue
            v = {"clamp_db": [None, 20, 25, 60], "load_diag": [None, 1e-6, 1e-3, 0.3, 2.0], "use_cg_iter": [None, 1, 3, 15]}.get(k, [True, False])
            v = draw(st.sampled_from(v))
            if v is None:
                c["opts"].pop(k, None)
            else:
                c["opts"][k] = v
        c["opts"] = api.filter_opts(c["fn"], c["opts"])
        pool.append(c)
    n = len(pool)
    order = draw(st.permutations(list(range(n)))) + draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3))
    return dict(pool=pool, ops=[["call", k, draw(st.sampled_from(["plain"] * 4 + ["grad"]))] for k in order])


@st.composite
def same_threads(draw):
    """several threads in the same code with arrays of the same shapes"""
    base = draw(gen.problem(names=["bss_eval_sources", "bss_eval_sources", "si_bss_eval_sources", "sdr", "sdr_loss", "square_cosine_metrics"], cg=[None, None, None, 5], backends=("np", "np", "pt"), square=True,
                            max_ch=4, max_L=64, min_L=1, max_order=200, max_N=1500, max_total=8000, batches=[[], [2], [3]], tex=gen.texture(snr=(-10, 40), kinds=gen.SMOOTH)))
    n = draw(st.integers(2, 4))
    pool = [dict(base, seed=draw(gen.SEED)) for _ in range(n)]
    reps = draw(st.integers(4, 12))
    return dict(pool=pool, threads=[[k] * reps for k in range(n)])


EDITS = st.fixed_dictionaries(dict(
    pool=pool(1, 2),
    ops=st.lists(st.tuples(st.just("edit"), st.integers(0, 1), gen.SEED, st.sampled_from(["inside", "inside", "one", "channels", "est inside", "ref inside"])).map(list), min_size=1, max_size=3).map(
        lambda o: [["call", 0, "plain"], ["call", 1, "plain"]] + [x for e in o for x in (e, ["call", e[1], "plain"])]),
))
SUITES = [Suite("edits", EDITS, 160, 3000), Suite("siblings", siblings(), 300, 8000), Suite("same", same_threads(), 60, 2000), Suite("histories", HIST, 420, 9000), Suite("sizes", SIZED, 50, 1000), Suite("modes", MODES, 240, 5000), Suite("threads", THR, 120, 3000)]


class Slot:
    def __init__(self, case, seed=None):
        self.case = dict(case, seed=case["seed"] if seed is None else seed)
        self.ref, self.est = gen.signals(self.case)
        self.tols = problem_tols(self.case, self.ref, self.est)
        self.opts = api.filter_opts(case["fn"], case["opts"])
        c = self.case
        self.R, self.E = (api.to_backend(x, c["backend"], c["dtype"]) for x in (self.ref, self.est))

    def refill(self, seed):
        new = Slot(self.case, seed)
        for a, b in ((self.R, new.R), (self.E, new.E)):
            a[...] = b
        self.case, self.ref, self.est, self.tols = new.case, new.ref, new.est, new.tols

    def edit(self, how, seed):
        """changes the buffers in place but leaves much of them, the ends in particular, as it was"""
        rng = gen.rng_of(seed, 16)
        for x in (self.ref, self.est) if how not in ("est inside", "ref inside") else ((self.est,) if how[0] == "e" else (self.ref,)):
            if how.endswith("inside") and x.shape[-1] > 4:
                a, b = sorted(rng.integers(1, x.shape[-1] - 1, 2))
                x[..., a : b + 1] *= rng.choice([-2.0, 0.5, 3.0, 0.0])
                x[..., 1:-1] += 0.5 * np.linalg.norm(x) / np.sqrt(x.size) * rng.standard_normal(x[..., 1:-1].shape)
            elif how == "one":
                k = int(rng.integers(0, x.shape[-1]))
                x[..., k] += np.linalg.norm(x, axis=-1)
            else:
                x[...] = x[..., ::-1, :].copy()
        if self.case["dtype"] == "f32":
            self.ref, self.est = (x.astype(np.float32).astype(float) for x in (self.ref, self.est))
        self.tols = problem_tols(self.case, self.ref, self.est)
        for a, b in ((self.R, self.ref), (self.E, self.est)):
            a[...] = api.to_backend(b, self.case["backend"], self.case["dtype"])


def function(module, name, backend):
    if name in api.FUNCS:
        return getattr(module, name)
    return getattr(module.torch if backend == "pt" else module.numpy, name)


def call(module, s, R, E, mode="plain"):
    f = function(module, s.case["fn"], s.case["backend"])
    a = (R, E) if api.ALL[s.case["fn"]][0] else (E, R)
    what = f"{s.case['fn']} {s.case['backend']} {s.case['dtype']} {s.opts} ({mode})"
    if s.case["backend"] == "np" or mode == "plain":
        return api.guarded(what, f, *a, **s.opts), None
    if mode == "grad":
        a = tuple(x.detach().requires_grad_(True) for x in a)
        raw = api.guarded(what, f, *a, **s.opts)
        fl = [x for x in (raw if isinstance(raw, tuple) else (raw,)) if x.dtype.is_floating_point]
        if not all(torch.isfinite(x).all() for x in fl):
            return raw, None
        loss = sum((x * torch.linspace(1, 2, x.numel(), dtype=x.dtype).reshape(x.shape)).sum() for x in fl)
        g = api.guarded(what + " backward", torch.autograd.grad, loss, a)
        return raw, [x.numpy().copy() for x in g]
    with (torch.no_grad() if mode == "no_grad" else torch.inference_mode()):
        return api.guarded(what, f, *a, **s.opts), None


def canon(s, raw):
    c = s.case
    return api.canon(c["fn"], raw, tuple(c["batch"]), c["n_ref"], c["n_est"], s.opts, c["backend"])


def truth(s, mode="plain"):
    raw, g = call(fresh(), s, *(api.to_backend(x, s.case["backend"], s.case["dtype"]) for x in (s.ref, s.est)), mode=mode)
    return canon(s, raw), g


def parts(raw):
    return list(raw) if isinstance(raw, tuple) else [raw]


def snapshot(raw):
    return [api.to_np(x).tobytes() for x in parts(raw)]


def verify(s, raw, g, mode, when):
    """compare with a first call in a new copy; returns (ratio, informative)"""
    got = canon(s, raw)
    if s.tols is None:
        return 0.0, False
    want, gw = truth(s, mode)
    what = f"{s.case['fn']} {s.case['backend']} {s.case['dtype']} {s.opts} {when}, against the same call made first"
    w, kinds = compare(got, want, s.tols, s.case, what)
    if g is not None and gw is not None and "tie" not in kinds:
        tol = {"f32": 3e-2, "f64": 1e-4}[s.case["dtype"]]
        if all(T.ok(is_joint(s.case["fn"]), 1e-3) for T in s.tols.values()) and s.opts.get("use_cg_iter") is None and all(np.all(np.abs(v) < 25) for v in want.m.values()):
            c = s.opts.get("clamp_db")
            if c is None or all(np.all(np.abs(np.abs(v) - c) > 0.1) for v in want.m.values()):
                for a, b in zip(g, gw):
                    need(np.linalg.norm(a - b), tol * (np.linalg.norm(b) + 1e-3 * abs(b).max() + 1e-12), what + ": gradient")
    return w, informative(want)


def settings():
    """process-wide settings that a call must leave alone"""
    return {
        "numpy error handling": np.geterr(), "numpy print options": sorted((k, str(v)) for k, v in np.get_printoptions().items()),
        "numpy random state": repr(np.random.get_state()[1][:20].tolist()) + repr(np.random.get_state()[2:]), "python random state": hash(random.getstate()),
        "torch random state": hash(torch.random.get_rng_state().numpy().tobytes()), "torch default type": torch.get_default_dtype(),
        "torch gradient mode": torch.is_grad_enabled(), "torch inference mode": torch.is_inference_mode_enabled(), "torch threads": torch.get_num_threads(),
        "torch deterministic mode": torch.are_deterministic_algorithms_enabled(), "torch anomaly mode": torch.is_anomaly_enabled(),
        "warning filters": list(map(str, warnings.filters)), "recursion limit": sys.getrecursionlimit(), "environment": hash(tuple(sorted(os.environ.items()))),
        "working directory": os.getcwd(),
    }


def check(case):
    out = io.StringIO()
    before = settings()
    with contextlib.redirect_stdout(out):
        res = check_threads(case) if "threads" in case else check_history(case)
    after = settings()
    changed = [k for k in before if before[k] != after[k]]
    if changed:
        k = changed[0]
        raise Violation(f"after the calls the {k} of the process is another one: {str(before[k])[:150]} before, {str(after[k])[:150]} after")
    if out.getvalue():
        raise Violation(f"printed {out.getvalue()[:200]!r} to standard output")
    return res


def concurrently(module, slots, plans):
    """runs the plans (lists of slots) at the same time; returns the (slot, raw) of each call"""
    results = [[] for _ in plans]
    errors = []
    bar = threading.Barrier(len(plans))

    def work(i):
        try:
            bar.wait()
            for k in plans[i]:
                s = slots[k % len(slots)]
                if s.tols is None:
                    # silent or singular: may fail
                    continue
                results[i].append((s, call(module, s, s.R, s.E)[0]))
        except BaseException as e:
            errors.append(e)

    ths = [threading.Thread(target=work, args=(i,)) for i in range(len(plans))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for e in errors:
        if isinstance(e, Violation):
            raise Violation(f"with {len(plans)} threads: {e}")
        raise e
    return [x for r in results for x in r]


def check_threads(case):
    module = fresh()
    slots = [Slot(c) for c in case["pool"]]
    kept = concurrently(module, slots, case["threads"])
    w, inf = 0.0, False
    done = {}
    for s, raw in kept:
        b = b"".join(snapshot(raw))
        if (id(s), b) in done:
            continue
        done[(id(s), b)] = True
        r, i = verify(s, raw, None, "plain", f"while {len(case['threads'])} threads make calls")
        w, inf = max(w, r), inf or i
    return Outcome(inf and len(kept) >= 3, ["threads", f"{len(case['threads'])} threads"] + sorted({s.case['fn'] for s in slots}), f"{len(kept)} calls in {len(case['threads'])} threads", w)


def nothing(*args):
    pass


def check_history(case):
    module = fresh()
    slots = [Slot(c) for c in case["pool"]]
    kept = []
    w, inf, n = 0.0, False, 0
    labels = set()
    for step, op in enumerate(case["ops"]):
        kind = op[0]
        labels.add(kind)
        when = f"as operation {step} of {[o[0] for o in case['ops'][:step + 1]]}"
        if kind == "scribble":
            if kept:
                k = op[1] % len(kept)
                for x in parts(kept[k][1]):
                    if isinstance(x, np.ndarray):
                        if x.flags.writeable:
                            x[...] = op[2]
                    elif not x.requires_grad and not x.is_inference() and 0 not in x.stride():
                        x[...] = op[2]
                # overwriting one result may legitimately change others of the same call that share its memory
                kept[k] = (kept[k][0], kept[k][1], snapshot(kept[k][1]), kept[k][3])
            continue
        s = slots[op[1] % len(slots)]
        if kind == "refill":
            s.refill(op[2])
        elif kind == "edit":
            s.edit(op[3], op[2])
        elif kind == "replace":
            k = slots.index(s)
            c = s.case
            s = slots[k] = None  # the memory may be used again
            slots[k] = Slot(c, op[2])
        elif kind == "bad":
            R, E = (np.array(x) if isinstance(x, np.ndarray) else x.clone() for x in (s.R, s.E))
            if op[2] == "nan":
                E[..., 0, 1] = float("nan")
            elif op[2] == "inf":
                R[..., 0, 0] = float("inf")
            else:
                E = E[..., :-1]
            f = function(module, s.case["fn"], s.case["backend"])
            try:
                with np.errstate(all="call", call=nothing):
                    mine = np.geterr()
                    try:
                        f(*((R, E) if api.ALL[s.case["fn"]][0] else (E, R)), **s.opts)
                    finally:
                        if np.geterr() != mine or np.geterrcall() is not nothing:
                            raise Violation(f"{s.case['fn']} {s.case['backend']} {s.opts} on a bad input ({op[2]}): numpy's error handling is {np.geterr()} after the call, {mine} before")
            except Violation:
                raise
            except Exception:
                pass
        elif kind == "threads":
            for t, raw in concurrently(module, slots, [[op[1], op[2]], [op[2], op[1]]]):
                r, i = verify(t, raw, None, "plain", when)
                w, inf, n = max(w, r), inf or i, n + 1
                kept.append((f"{t.case['fn']} {t.opts}", raw, snapshot(raw), step))
                t = None
        elif s.tols is None:
            # silent or singular: may fail, and what it returns is not determined
            try:
                call(module, s, s.R, s.E, op[2])
            except Violation:
                pass
        else:
            raw, g = call(module, s, s.R, s.E, op[2])
            labels.add("call " + op[2])
            snap = snapshot(raw)
            r, i = verify(s, raw, g, op[2], when)
            w, inf, n = max(w, r), inf or i, n + 1
            kept.append((f"{s.case['fn']} {s.opts}", raw, snap, step))
        s = R = E = f = None
    for desc, raw, snap, step in kept:
        if snapshot(raw) != snap:
            raise Violation(f"{desc}: the result returned by operation {step} was changed by later operations {[o[0] for o in case['ops'][step + 1:]]}")
    return Outcome(inf and n >= 3, sorted(labels) + sorted({s.case['fn'] for s in slots}) + [f"pool{len(slots)}"], f"{n} calls", w)

"""clamp_db bounds every metric and changes nothing inside the bounds."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C11"
RULE = (
    "A top-level function with random options and clamp_db = c (0, 1 to 100 dB, integers and floats, biased to 40-100) in either precision and backend. "
    "Suite range: random problems of any quality; without a permutation every value must equal the unclamped value clipped to [-c, c] (unclamped values inside unchanged); with a permutation every value is the clipped value of the reported pair. "
    "Suite extreme: some estimates perfect (a copy or a scaled or filtered copy of a reference), orthogonal to a reference, or (SDR-only functions) silent; all values must be finite and within [-c, c], and the known limits must be reached. "
    "Non-trivial: some value is clipped and (suite range) some other value is not, or an extreme channel is present."
)
CL = st.one_of(st.sampled_from([0, 1, 10, 20, 30, 40.0, 50, 60, 65.5, 70, 72, 80, 90, 100.0]), st.floats(1, 100).map(lambda x: round(x, 2)))


@st.composite
def rng_case(draw, make=gen.problem, **kw):
    case = draw(make(names=gen.WEIGHTED, clamp=[None], cg=[None, None, None, 20], tex=gen.texture(snr=(-30, 90)), **kw))
    case["c"] = draw(st.one_of(st.integers(1, 30), CL))
    return case


@st.composite
def extreme(draw):
    n = draw(st.integers(1, 4))
    fn = draw(st.sampled_from(gen.WEIGHTED))
    case = dict(
        suite="extreme", fn=fn, n=n, L=1 if "si_" in fn else draw(st.sampled_from([1, 2, 3, 8, 16])), extra=draw(st.integers(10, 120)), seed=draw(gen.SEED),
        c=draw(CL), dtype=draw(st.sampled_from(["f32", "f32", "f64"])), backend=draw(gen.backend()), zm=draw(st.booleans()),
        load=draw(st.sampled_from([None, None, 1e-8])), perm=draw(st.booleans()),
        what=[draw(st.sampled_from(["perfect", "perfect", "scaled", "filtered", "orthogonal", "silent", "noisy"])) for _ in range(n)],
        batch=draw(st.sampled_from([[], [], [2], [1, 2]])),
    )
    return case


SUITES = [Suite("range", rng_case(max_ch=4, max_L=17, max_order=60, max_N=400, max_total=10000), 700, 14000), Suite("long", rng_case(gen.long_problem), 40, 800), Suite("taps", rng_case(gen.taps_problem, max_order=700), 24, 500),
          Suite("bulk", rng_case(gen.bulk_problem), 50, 1000), Suite("extreme", extreme(), 600, 12000)]


def bound(v, c, eps, what):
    if not np.all(np.isfinite(v)):
        raise Violation(f"{what}: {fmt(v)} is not finite with clamp_db={c}")
    slack = {True: 2e-3, False: 1e-6}[eps > 1e-10]
    if np.any(np.abs(v) > c + slack):
        raise Violation(f"{what}: {fmt(v)} outside of [-{c}, {c}]")


def check(case):
    return check_extreme(case) if case.get("suite") == "extreme" else check_range(case)


def check_range(case):
    ref, est = gen.signals(case)
    tols = problem_tols(case, ref, est)
    if tols is None:
        return Outcome(False, ["ill-conditioned or silent"])
    be, dt, fn, c = case["backend"], case["dtype"], case["fn"], case["c"]
    eps = api.EPS[dt]
    o = dict(case["opts"])
    nr, ne = case["n_ref"], case["n_est"]
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    if fn == "sdr" or fn == "si_sdr":
        o["return_perm"] = True
    res = api.run(fn, R, E, dict(o, clamp_db=c))
    worst = 0.0
    for m, v in res.m.items():
        bound(v, c, eps, f"{fn} {be} {dt} {m}")
    # unclamped values of the same pairs
    if res.kind in ("loss",) or (res.kind == "bss" and res.perm is None):
        raw = api.run(fn, R, E, o).m
        kinds = "direct"
    else:
        L = case["L"]
        po = {k: v for k, v in o.items() if k in ("use_cg_iter", "zero_mean", "load_diag")}
        full = api.run("square_cosine_metrics" if res.kind == "bss" else "pairwise_sdr_loss", R, E,
                       dict(po, filter_length=L, **({"pairwise": True} if res.kind == "bss" else {})), via="mod").m
        if res.perm is None:
            # losses only: nothing to match against but the bounds
            raw = None
        else:
            raw = {}
            a = np.arange(min(nr, ne))
            for b in tols:
                p = res.perm[b]
                k, j = (a, p) if nr <= ne else (p, a)
                if res.kind == "bss":
                    cs, cj = full["csdr"][b][k, j], full["csar"][b][k, j]
                    with np.errstate(all="ignore"):
                        # the library computes 1 - q in the working precision
                        one = np.clip(np.stack([cs, cs / cj, cj]), 0, 1)
                        for m, q in zip(("sdr", "sir", "sar"), one):
                            raw.setdefault(m, {})[b] = oracle.db_of(q, 1 - q)
                else:
                    raw.setdefault("sdr", {})[b] = full["sdr"][b][k, j]
        kinds = "matched"
    clipped = free = False
    if raw is not None:
        for m in res.m:
            for b, T in tols.items():
                r = raw[m][b]
                v = res.m[m][b]
                want = np.clip(r, -c, c)
                clipped |= bool(np.any(np.abs(r) > c))
                free |= bool(np.any(np.abs(r) < c))
                # same statistics, so only the mapping to decibels can differ
                tol = 16 * eps
                worst = max(worst, near(v, want, tol, eps, f"{fn} {be} {dt} {m} with clamp_db={c}, item {b} (unclamped {fmt(r)})"))
    return Outcome(clipped and free, labels_of(case) + ["clipped" if clipped else "not clipped", "free" if free else "not free", kinds], f"c={c} {note(res)}", worst)


def check_extreme(case):
    n, L, dt, be, fn, c = case["n"], case["L"], case["dtype"], case["backend"], case["fn"], case["c"]
    eps = api.EPS[dt]
    rng = gen.rng_of(case["seed"])
    bss = fn.endswith("bss_eval_sources")
    seg = 2 * L * n + case["extra"]
    gap = 2 * L + 1
    N = (n + 1) * (seg + gap)
    batch = tuple(case["batch"])
    ref, est = np.zeros(batch + (n, N)), np.zeros(batch + (n, N))
    kinds = list(case["what"])
    for b in batch_indices(batch):
        for k in range(n):
            s = k * (seg + gap)
            ref[b][k, s : s + seg] = rng.standard_normal(seg)
        for k in range(n):
            w = kinds[k]
            if w == "silent" and bss:
                w = kinds[k] = "perfect"  # SIR of a silent estimate is undefined
            if w == "silent" and case["zm"]:
                pass
            if w == "perfect":
                est[b][k] = ref[b][k]
            elif w == "scaled":
                est[b][k] = -3.7 * ref[b][k]
            elif w == "filtered":
                h = rng.standard_normal(L)
                est[b][k] = np.convolve(ref[b][k], h)[:N]
            elif w == "orthogonal":
                s = n * (seg + gap)  # lives where no reference does
                est[b][k, s : s + seg] = rng.standard_normal(seg)
                if bss:
                    est[b][k] += 1e-3 * ref[b][k]  # keep SIR defined
            elif w == "noisy":
                est[b][k] = ref[b][k] + 0.3 * rng.standard_normal(N)
    if dt == "f32":
        ref, est = ref.astype(np.float32).astype(float), est.astype(np.float32).astype(float)
    o = dict(filter_length=L, clamp_db=c, zero_mean=case["zm"])
    if case["load"] is not None:
        o["load_diag"] = case["load"]
    if bss:
        o["compute_permutation"] = case["perm"]
    if fn in ("sdr", "si_sdr"):
        o["return_perm"] = True
    if fn in ("sdr_loss", "si_sdr_loss"):
        o["pairwise"] = case["perm"]
    res = api.run(fn, api.to_backend(ref, be, dt), api.to_backend(est, be, dt), o)
    for m, v in res.m.items():
        bound(v, c, eps, f"{fn} {be} {dt} {m}, estimates {kinds}")
    v = res.m["sdr"]
    slack = 2e-3 if dt == "f32" else 1e-6
    # limits that must be reached whenever the working precision can resolve them
    reach_hi = c <= (40 if dt == "f32" else 60) and case["load"] is None
    if not (res.kind in ("bss", "pit", "pitloss") and res.kind != "loss" and (not bss or case["perm"])):
        for b in batch_indices(batch):
            d = np.diagonal(v[b]) if v[b].ndim == 2 else v[b]
            for k in range(n):
                # after the means are removed, a filtered copy is no longer a filtered copy of
                # the reference: the constants are cut off at the ends of the signal
                exact = ("perfect", "scaled") if case["zm"] else ("perfect", "scaled", "filtered")
                if kinds[k] in exact and reach_hi and d[k] < c - slack:
                    raise Violation(f"{fn} {be} {dt}: SDR {d[k]} of a {kinds[k]} estimate does not reach clamp_db={c}")
                if kinds[k] == "silent" and d[k] > -c + slack:
                    raise Violation(f"{fn} {be} {dt}: SDR {d[k]} of a silent estimate is not -{c}")
                if kinds[k] == "orthogonal" and not bss and not case["zm"] and c <= (90 if dt == "f32" else 100) and d[k] > -c + slack:
                    raise Violation(f"{fn} {be} {dt}: SDR {d[k]} of an orthogonal estimate is not -{c}")
    return Outcome(any(w != "noisy" for w in kinds), ["extreme", fn, be + "/" + dt, "n=%d" % n] + sorted(set(kinds)), f"c={c} {kinds} {note(res)}")

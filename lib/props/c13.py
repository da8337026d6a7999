"""The iterative solver reproduces the direct solver."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C13"
RULE = (
    "A function with use_cg_iter against the same call with the direct solver: 1-6 sources, filter lengths 2-300 (odd, even, powers of two), white and coloured signals, batches, loading, both backends and precisions, "
    "iteration counts 1-200. Above 20 iterations squared cosines must agree within 2e-5 (joint systems of permutation-solving calls, which start from a warm point: 1e-3), at 10-19 iterations within 1e-3 (5e-3) for systems with condition number below 100, "
    "and for any count the SDR's squared cosine may not exceed the direct one by more than rounding. "
    "Non-trivial: filter longer than 1, well-conditioned (smallest eigenvalue of the unit-diagonal system above 0.01), direct SDR or SAR in (-40, 40) dB."
)
NAMES = ["bss_eval_sources"] * 4 + ["sdr", "sdr", "sdr_loss", "sdr_loss", "sdr_pit_loss", "square_cosine_metrics", "square_cosine_metrics", "pairwise_sdr_loss"]


@st.composite
def strat(draw, **kw):
    case = draw(gen.problem(names=NAMES, cg=[None], clamp=[None, None, 40], tex=gen.texture(snr=(-10, 40), kinds=["white", "uniform", "ar", "speech", "pm1"]), min_slack=2.0, **kw))
    if case["L"] == 1:
        case["L"] = 2
        case["opts"]["filter_length"] = 2
        case["N"] = max(case["N"], 8 * case["n_ref"] + 8)
    case["iters"] = draw(st.sampled_from([1, 2, 5, 10, 10, 15, 20, 30, 30, 50, 100, 200]))
    return case


SUITES = [
    Suite("small", strat(max_ch=4, max_L=85, max_order=130, max_N=900, max_total=12000), 900, 10000),
    Suite("channels", strat(max_ch=6, max_L=12, max_order=72, max_N=500, max_total=12000), 120, 3000),
    Suite("long", strat(max_ch=2, max_L=300, max_order=300, max_N=3000, batches=[[], [], [2]], max_total=8000), 60, 1500),
]
SINGLE = {True: 2e-5, False: 1e-3}
JOINT = {True: 1e-3, False: 5e-3}


@st.composite
def longf(draw):
    case = draw(strat(max_ch=2, max_L=33, max_N=3000, batches=[[], [], [2]], max_total=8000))
    L = draw(st.sampled_from([64, 100, 127, 128, 129, 200, 255, 256, 300]))
    case["L"] = case["opts"]["filter_length"] = L
    case["n_ref"] = min(case["n_ref"], 2)
    case["N"] = draw(st.integers(2 * L * case["n_ref"] + 10, 3000))
    return case


SUITES.append(Suite("bulk", strat(max_ch=12, max_L=6, max_order=60, max_N=200, max_total=14000, batches=[[], [10], [40], [130], [257], [2, 1, 2, 1], [3, 1, 3]]), 50, 1000))
SUITES[2] = Suite("long", longf(), 72, 1500)


def check(case):
    ref, est = gen.signals(case)
    be, dt, fn, o = case["backend"], case["dtype"], case["fn"], dict(case["opts"])
    eps = api.EPS[dt]
    nr, ne, L, it = case["n_ref"], case["n_est"], case["L"], case["iters"]
    tols = problem_tols(case, ref, est)
    if tols is None:
        return Outcome(False, ["ill-conditioned or silent"])
    joint = is_joint(fn)
    lam = min(min(T.min1, T.lamJ if joint else 1.0) for T in tols.values())
    if lam < 0.01:
        return Outcome(False, ["badly conditioned"])
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    if fn == "sdr":
        o["return_perm"] = True
    dr = api.run(fn, R, E, o, via="mod")
    cg = api.run(fn, R, E, dict(o, use_cg_iter=it), via="mod")
    worst = 0.0
    warm = (fn == "bss_eval_sources" and o.get("compute_permutation", True)) or (fn == "square_cosine_metrics" and o.get("pairwise", True))
    base_s = 2e-5 if it >= 20 else 1e-3
    base_j = (1e-3 if it >= 20 else 5e-3) if warm else (2e-5 if it >= 20 else 1e-3)
    checked = set()
    q_of, d_of = oracle.q_of_db, oracle.d_of_db
    clamped = o.get("clamp_db") is not None
    for b, T in tols.items():
        A = {m: v[b] for m, v in dr.m.items()}
        B = {m: v[b] for m, v in cg.m.items()}
        w = f"{fn} {be} {dt}, {it} iterations, item {b}: "
        samep = dr.perm is None or np.array_equal(dr.perm[b], cg.perm[b])
        # never above the direct solution: SDR part only, whatever the number of iterations
        key = "sdr" if "sdr" in A else "csdr"
        qa = q_of(A[key]) if key == "sdr" else A[key]
        qb = q_of(B[key]) if key == "sdr" else B[key]
        round_ = 2 * T.sdr(np.maximum(qa, qb)) + (2e-4 if dt == "f32" else 1e-9)
        if not samep or (dr.perm is None and dr.kind == "pitloss"):
            # a different matching may be chosen while the scores are close
            if key == "sdr" and dr.kind == "pitloss":
                pass
        else:
            worst = max(worst, need(np.maximum(qb - qa, 0), round_, w + "SDR above the direct solution", f"{fmt(B[key])} against {fmt(A[key])}"))
            checked.add("upper")
        if it < 10 or (it < 20 and lam < 0.02):
            continue
        ts, tj = base_s + round_, base_j + 2 * (T.sar(1.0) if joint else 0.0) + (2e-4 if dt == "f32" else 0)
        if dr.perm is not None and not samep or dr.kind == "pitloss":
            # compare the total score the permutation maximises
            tg = dr.target
            qq = np.minimum(q_of(A["sar"]), q_of(B["sar"])) if tg == "sir" else 1.0
            t = (ts + tj) / np.maximum(qq, 1e-9) if tg == "sir" else ts
            if not tie(A[tg], B[tg], t):
                raise Violation(w + f"{tg} {fmt(B[tg])} against {fmt(A[tg])} with the direct solver")
            checked.add("sum")
            continue
        for m in A:
            if m in ("csdr", "csar"):
                worst = max(worst, need(np.abs(A[m] - B[m]), ts if m == "csdr" else tj, w + m + " against the direct solver", f"{fmt(B[m])} against {fmt(A[m])}"))
            elif m == "sdr":
                worst = max(worst, near(B[m], A[m], ts, eps, w + "SDR against the direct solver"))
            elif m == "sar":
                worst = max(worst, near(B[m], A[m], tj, eps, w + "SAR against the direct solver"))
            else:
                qj = np.minimum(q_of(A["sar"]), q_of(B["sar"]))
                t = (ts + tj * np.minimum(1, q_of(A["sdr"]) / np.maximum(qj, 1e-12))) / np.maximum(qj - tj, 1e-12)
                t = np.where(qj > 3 * tj, t, np.inf)
                if clamped:
                    t = _sir_tol_clamped(T, A, B, o, t)
                worst = max(worst, near(B[m], A[m], t, eps, w + "SIR against the direct solver"))
        checked.add("agreement")
    interesting = any(np.any(np.abs(v) < 40) for m, v in dr.m.items() if m in ("sdr", "sar")) or any(np.any((v > 1e-4) & (v < 1 - 1e-4)) for m, v in dr.m.items() if m.startswith("c"))
    return Outcome(bool(checked) and interesting, labels_of(case)[:2] + sorted(checked) + ["warm" if warm else "cold", "joint" if joint else "single", "iters>=20" if it >= 20 else ("iters>=10" if it >= 10 else "iters<10"), "odd L" if L % 2 else "even L", "load" if "load_diag" in o else "noload"], note(cg), worst)


from common import _sir_tol_clamped  # noqa: E402

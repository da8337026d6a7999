"""Reported permutation is a valid, optimal matching."""
import itertools

import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C03"
RULE = (
    "bss_eval_sources, si_bss_eval_sources, sdr, si_sdr and the PIT losses on 1-8 references and 1-8 estimates (equal or not), batches with a different true order per item, well separated, densely mixed, unrelated, nearly tied and duplicated estimates, with and without clamp_db, all filters and solvers, both backends. "
    "The total score (SIR, respectively SDR) of the returned matching must reach the maximum over all matchings (exhaustive enumeration up to 6x6 / 720 candidates, scipy above), computed from the pairwise scores; perm must be one-to-one, and every returned value must be that of the pair it lists. "
    "Non-trivial: at least two channels on both sides or 1 against several, the identity is not optimal in some item or the score is not separable (row-wise greedy choice is not a matching)."
)
NAMES = ["bss_eval_sources"] * 4 + ["sdr"] * 4 + ["si_bss_eval_sources", "si_sdr", "sdr_pit_loss", "si_sdr_pit_loss"]
TEX = gen.texture(mixes=("perm", "dense", "dense", "unrelated", "unrelated", "tie", "contest"), snr=(-20, 30))
EXTRA = st.fixed_dictionaries(dict(dup=st.sampled_from([False, False, False, True]), hetero=st.booleans()))
B = [[], [], [1], [2], [4], [2, 2], [3, 1]]
SUITES = [
    Suite("small", gen.merged(gen.problem(names=NAMES, perm=(True,), max_ch=5, max_L=12, max_order=40, max_N=300, batches=B, tex=TEX, max_total=10000, cg=[None, None, None, 20]), EXTRA), 1600, 24000),
    Suite("channels", gen.merged(gen.problem(names=NAMES, perm=(True,), max_ch=9, max_L=4, max_order=36, max_N=200, batches=B, tex=TEX, max_total=8000, cg=[None, None, None, 20]), EXTRA), 700, 12000),
    Suite("long", gen.merged(gen.long_problem(NAMES, perm=(True,), cg=[None, None, None, 20]), EXTRA), 60, 1500),
    Suite("taps", gen.merged(gen.taps_problem(NAMES, perm=(True,), cg=[None, None, None, 20]), EXTRA), 40, 1000),
    Suite("bulk", gen.merged(gen.bulk_problem(NAMES, perm=(True,), cg=[None, None, None, 20]), EXTRA), 100, 2000),
    Suite("crowd", gen.merged(gen.crowd_problem(NAMES, perm=(True,), cg=[None, None, None, 20]), EXTRA), 6, 100),
]
BIG = 1e5


def best(S):
    r, c = S.shape
    if min(r, c) <= 6 and max(r, c) <= 6:
        return oracle.best_assignment(S)
    from scipy.optimize import linear_sum_assignment

    i, j = linear_sum_assignment(S, maximize=True)
    return S[i, j].sum()


def check(case):
    ref, est = gen.signals(case)
    nr, ne = case["n_ref"], case["n_est"]
    if case["dup"] and ne > 1:
        est[..., ne - 1, :] = est[..., 0, :]
    tols = problem_tols(case, ref, est)
    if tols is None:
        return Outcome(False, ["ill-conditioned or silent"])
    be, dt, fn, o = case["backend"], case["dtype"], case["fn"], dict(case["opts"])
    eps = api.EPS[dt]
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    if fn in ("sdr", "si_sdr"):
        o["return_perm"] = True
    res = api.run(fn, R, E, o)
    L = case["L"]
    po = {k: v for k, v in o.items() if k in ("use_cg_iter", "zero_mean", "load_diag")}
    clamp = o.get("clamp_db")
    bss = fn.endswith("bss_eval_sources")
    if bss:
        cos = api.run("square_cosine_metrics", R, E, dict(po, filter_length=L, pairwise=True), via="mod").m
        with np.errstate(all="ignore"):
            sdr = oracle.db_of(np.clip(cos["csdr"], 0, 1), np.clip(1 - cos["csdr"], 0, 1))
            sar = oracle.db_of(np.clip(cos["csar"], 0, 1), np.clip(1 - cos["csar"], 0, 1))
            qi = np.clip(cos["csdr"] / cos["csar"], 0, 1)
            sir = oracle.db_of(qi, 1 - qi)
        table = dict(sdr=sdr, sir=sir, sar=sar)
        if clamp is not None:
            table = {m: np.clip(v, -clamp, clamp) for m, v in table.items()}
        score = table["sir"]
    else:
        table = dict(sdr=api.run("pairwise_sdr_loss", R, E, dict(po, filter_length=L, **({} if clamp is None else dict(clamp_db=clamp))), via="mod").m["sdr"])
        score = table["sdr"]
    interesting, greedy = False, False
    worst = 0.0
    for b in tols:
        S = score[b]
        F = np.clip(S, -BIG, BIG)
        n = min(nr, ne)
        # error of one score in dB at the working precision
        qd = np.maximum(oracle.q_of_db(S) * oracle.d_of_db(S), eps)
        err = np.where(np.isfinite(S), 16 * eps / qd + 16 * eps * (1 + np.abs(F)), 1e-3)
        # values that are far beyond the working precision are not ordered reliably
        cap = {True: 55.0, False: 140.0}[dt == "f32"]
        Fc = np.clip(F, -BIG, cap) if clamp is None else F
        top = best(np.minimum(Fc, cap))
        a = np.arange(n)
        got_sum = np.minimum(np.clip(res.m[res.target][b], -BIG, BIG), cap).sum()
        slack = 1e-3 if dt == "f32" else 1e-7
        slack = n * slack + n * 16 * eps * (1 + np.abs(np.minimum(F, cap)).max()) + n * float(np.max(np.where(np.abs(F) < cap, err, 0)))
        if got_sum < top - slack:
            raise Violation(f"{fn} {be} {dt} item {b}: the matching {fmt(res.perm[b]) if res.perm is not None else ''} has total {res.target} {got_sum}, the best is {top}; scores {fmt(S)}")
        if res.perm is not None:
            p = res.perm[b]
            k, j = (a, p) if nr <= ne else (p, a)
            for m in res.m:
                want = table[m][b][k, j]
                worst = max(worst, near(res.m[m][b], want, 16 * eps, eps, f"{fn} {be} {dt} item {b}: {m} of the reported pairs {fmt(p)}"))
            interesting |= nr != ne or not np.array_equal(p, a)
        else:
            interesting |= n > 1
        g = np.argmax(S, axis=1) if nr <= ne else np.argmax(S, axis=0)
        greedy |= len(set(g.tolist())) < len(g)
    return Outcome((interesting or greedy) and max(nr, ne) > 1, labels_of(case) + [case["mix"], "greedy fails" if greedy else "greedy works", "dup" if case["dup"] else "nodup", f"max_ch={max(nr, ne)}"], note(res), worst)

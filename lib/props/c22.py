"""SDR, SIR and SAR are mutually consistent."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C22"
RULE = (
    "bss_eval_sources or si_bss_eval_sources with random options on random problems (1-8 channels, all mixing types, -30 to 60 dB, both solvers, loading, zero_mean, clamping, both precisions and backends), with and without permutation, together with square_cosine_metrics for the same arguments. "
    "q(SDR) = q(SIR) q(SAR) within 64 rounding units wherever the values are inside their ranges; SDR <= SIR and SDR <= SAR and squared cosines in [0, 1] with single <= joint within the rounding-error bound of the solver; metrics equal to those recomputed from the squared cosines of the listed pairs. "
    "Non-trivial: at least two references and some pair with SDR, SIR and SAR all inside (-40, 60) dB."
)
P = dict(names=["bss_eval_sources"] * 3 + ["si_bss_eval_sources"], cg=[None, None, None, 20, 40], clamp=[None, None, None, 20, 30.0, 60, 5], tex=gen.texture(snr=(-30, 60), mixes=("perm", "dense", "unrelated", "tie"), spread=(0.0, 1.0, 3.0)))
SUITES = [
    Suite("small", gen.problem(max_ch=4, max_L=65, max_order=130, max_N=700, max_total=12000, **P), 1600, 24000),
    Suite("channels", gen.problem(max_ch=9, max_L=8, max_order=64, max_N=400, max_total=8000, **P), 350, 7000),
    Suite("buried", gen.merged(gen.problem(**dict(P, tex=gen.texture(snr=(-10, 60), mixes=("perm", "dense")), max_ch=4, max_L=9, max_order=30, max_N=700, max_total=6000, dtypes=("f64",), load=[None], cg=[None])),
          st.fixed_dictionaries(dict(buried=st.sampled_from([15, 30, 40, 50, 60, 70, 80, 90, 100]), gate=st.none(), delay=st.just(False)))), 200, 3000),
    Suite("long", gen.long_problem(**P), 60, 1500),
    Suite("taps", gen.taps_problem(**P), 40, 1000),
    Suite("bulk", gen.bulk_problem(**P), 60, 1500),
]


def check(case):
    ref, est = gen.signals(case)
    be, dt, fn, o, L = case["backend"], case["dtype"], case["fn"], case["opts"], case["L"]
    eps = api.EPS[dt]
    cg = o.get("use_cg_iter") if L > 1 else None
    plain = dict(case, opts={k: v for k, v in o.items() if k != "use_cg_iter"})
    tols = problem_tols(plain, ref, est, floor=CG_ERR if cg else 0.0)
    if tols is None:
        return Outcome(False, ["ill-conditioned or silent"])
    if cg and min(min(T.min1, T.lamJ) for T in tols.values()) < 3e-2:
        return Outcome(False, ["too ill-conditioned for the iterative solver"])
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    res = api.run(fn, R, E, o)
    cp = o.get("compute_permutation", True)
    po = {k: o[k] for k in ("use_cg_iter", "zero_mean", "load_diag") if k in o}
    cos = api.run("square_cosine_metrics", R, E, dict(po, filter_length=L, pairwise=cp), via="mod").m
    what = f"{fn} {be} {dt} {o}"
    clamp = o.get("clamp_db")
    worst, good = 0.0, False
    nr, ne = case["n_ref"], case["n_est"]
    for b, T in tols.items():
        sdr, sir, sar = (res.m[k][b] for k in ("sdr", "sir", "sar"))
        for k, v in (("sdr", sdr), ("sir", sir), ("sar", sar)):
            if np.isnan(v).any():
                raise Violation(f"{what}: NaN in {k}")
        # definition of the squared cosines
        cs, cj = cos["csdr"][b], cos["csar"][b]
        t1, tJ = float(T.sdr(1.0)), float(T.sar(1.0))
        for k, v, t in (("csdr", cs, t1), ("csar", cj, tJ)):
            need(np.maximum(np.maximum(-v, v - 1), 0), t, f"{what}: square_cosine_metrics outside of [0, 1]: {k} {fmt(v)}")
        need(np.maximum(cs - cj, 0), t1 + tJ, f"{what}: squared cosine for one reference {fmt(cs)} above that for all {fmt(cj)}")
        qs, qi, qa = (oracle.q_of_db(v) for v in (sdr, sir, sar))
        rd = oracle.db_round(sdr, eps) + oracle.db_round(sir, eps) + oracle.db_round(sar, eps)
        lim = np.inf if clamp is None else clamp - 0.01
        inside = (np.abs(sdr) < lim) & (np.abs(sir) < lim) & (np.abs(sar) < lim)
        # exact relation (only rounding of the last steps) unless something was clipped to [0, 1]
        err = np.where(inside, np.abs(qs - qi * qa), 0.0)
        worst = max(worst, need(err, 64 * eps + rd, f"{what}: item {b}: SDR {fmt(sdr)} SIR {fmt(sir)} SAR {fmt(sar)} do not satisfy q(SDR) = q(SIR) q(SAR)"))
        # where the values saturate, up to the accuracy of the solution
        if clamp is None:
            err = np.abs(qs - qi * qa)
            worst = max(worst, need(err, 64 * eps + rd + t1 + tJ, f"{what}: item {b}: SDR {fmt(sdr)} SIR {fmt(sir)} SAR {fmt(sar)} do not satisfy q(SDR) = q(SIR) q(SAR)"))
        need(np.maximum(qs - qa, 0), t1 + tJ + rd + 64 * eps, f"{what}: item {b}: SDR {fmt(sdr)} above SAR {fmt(sar)}")
        need(np.maximum(qs - qi, 0), t1 + tJ + rd + 64 * eps, f"{what}: item {b}: SDR {fmt(sdr)} above SIR {fmt(sir)}")
        # and against the squared cosines of the same pairs
        if cp:
            p = res.perm[b]
            idx = (np.arange(nr), p) if nr <= ne else (p, np.arange(ne))
            cs, cj = cs[idx], cj[idx]
        with np.errstate(all="ignore"):
            ci = np.clip(cs / cj, 0, 1)
        ti = np.minimum(T.sir(np.clip(cs, 0, 1), np.clip(cj, 1e-12, 1)), 1.0)
        for k, v, w, t in (("sdr", sdr, cs, 2 * T.sdr(cs)), ("sar", sar, cj, 2 * T.sar(cj)), ("sir", sir, ci, 2 * ti)):
            w = np.clip(w, 0, 1)
            d = 1 - w
            if clamp is not None:
                d = np.clip(d, oracle.d_of_db(clamp), oracle.q_of_db(clamp))
                w = 1 - d
            worst = max(worst, need_db(v, w, d, t + 32 * eps, eps, f"{what}: item {b}: {k} against square_cosine_metrics"))
        good |= nr > 1 and bool(np.any(inside & (np.maximum(np.maximum(sdr, sir), sar) < 60) & (np.minimum(np.minimum(sdr, sir), sar) > -40)))
    return Outcome(good, labels_of(case) + ["permutation" if cp else "no permutation"], note(res), worst)

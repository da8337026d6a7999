"""zero_mean removes exactly the per-signal mean."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C12"
RULE = (
    "A public function with random options on signals with per-channel constant offsets (0.1 to 100 times the signal's rms, or positive-only signals). Relations: zero_mean=True equals zero_mean=False on explicitly centred signals (computed in float64); "
    "zero_mean=True is unchanged by further offsets; zero_mean=False equals the default. "
    "Non-trivial: well-conditioned, some metric inside (-40, 60) dB, and zero_mean=False gives a clearly different result (more than 1e-3 in squared cosine)."
)
NAMES = gen.WEIGHTED + ["square_cosine_metrics", "pairwise_sdr_loss", "pairwise_si_sdr_loss"]
OFF = st.fixed_dictionaries(dict(ratio=st.sampled_from([0.1, 1.0, 1.0, 10.0, 100.0]), oseed=gen.SEED, pos=st.booleans()))
SUITES = [
    Suite("offsets", gen.merged(gen.problem(names=NAMES, zm=(True,), max_L=65, max_order=130, max_N=900, max_total=15000, tex=gen.texture(snr=(-10, 40), spread=(0.0, 1.0))),
                                OFF), 1500, 20000),
    Suite("long", gen.merged(gen.long_problem(NAMES, zm=(True,)), OFF), 60, 1500),
    Suite("taps", gen.merged(gen.taps_problem(NAMES, zm=(True,)), OFF), 40, 1000),
    Suite("bulk", gen.merged(gen.bulk_problem(NAMES, zm=(True,)), OFF), 60, 1500),
    Suite("crowd", gen.merged(gen.crowd_problem(NAMES, zm=(True,)), OFF), 5, 80),
]


def check(case):
    ref0, est0 = gen.signals(case)
    be, dt, fn, o = case["backend"], case["dtype"], case["fn"], dict(case["opts"])
    eps = api.EPS[dt]
    rng = gen.rng_of(case["oseed"], 5)

    def offset(x):
        rms = np.sqrt(np.mean((x - x.mean(-1, keepdims=True)) ** 2, axis=-1, keepdims=True))
        u = rng.uniform(-1, 1, size=x.shape[:-1] + (1,))
        if case["pos"]:
            u = np.abs(u)
        y = x + case["ratio"] * rms * u
        return y.astype(np.float32).astype(float) if dt == "f32" else y

    ref, est = offset(ref0), offset(est0)
    ref2, est2 = offset(ref), offset(est)
    cr, ce = demean(ref), demean(est)
    dec = dict(case, opts=dict(o, zero_mean=False))
    tols = problem_tols(dec, cr, ce)
    if tols is None:
        return Outcome(False, ["ill-conditioned or silent"])
    for T in tols.values():
        # rounding of samples that are `ratio` times larger than the signal
        lam = min(T.min1, T.lamJ if T.lamJ is not None else T.min1)
        T.floor += 8 * eps * (1 + 3 * case["ratio"]) * np.sqrt(T.L * T.nr / max(lam, 1e-12)) 
    B = lambda x: api.to_backend(x, be, dt)
    # compared with the values the function sees: centre in float64 then round
    on = api.run(fn, B(ref), B(est), dict(o, zero_mean=True), via="mod")
    cen = api.run(fn, B(cr), B(ce), dict(o, zero_mean=False), via="mod")
    w, kinds = compare(on, cen, tols, case, f"{fn} {be} {dt} zero_mean against centred signals")
    on2 = api.run(fn, B(ref2), B(est2), dict(o, zero_mean=True), via="mod")
    w2, k2 = compare(on, on2, tols, case, f"{fn} {be} {dt} zero_mean with other offsets")
    different = False
    oo = {k: v for k, v in o.items() if k != "zero_mean"}
    if problem_tols(dec, ref, est) is not None:
        off = api.run(fn, B(ref), B(est), dict(oo, zero_mean=False), via="mod")
        dflt = api.run(fn, B(ref), B(est), oo, via="mod")
        t3 = problem_tols(dec, ref, est)
        w3, k3 = compare(off, dflt, t3, dec, f"{fn} {be} {dt} zero_mean=False against the default")
        w = max(w, w3)
        m = "sdr" if "sdr" in on.m else "csdr"
        q = (lambda x: x) if m == "csdr" else oracle.q_of_db
        different = bool(np.any(np.abs(q(off.m[m]) - q(on.m[m])) > 1e-3))
    return Outcome(informative(on) and different, labels_of(case) + sorted(kinds | k2) + [f"ratio={case['ratio']}", "different" if different else "same as off"], note(on), max(w, w2))

"""Metrics do not depend on signal scale or sign."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C06"
RULE = (
    "A top-level function with random options and a random well-posed problem; every reference and estimate channel of every batch item is multiplied by its own gain, "
    "of either sign, 10^u with u uniform in one of the ranges [-4,6], [-1,1], [0,6], [-4,0] or a power of two; signals keep norms above 1e-4. The result must equal that of the unscaled signals within the rounding-error bound. "
    "Non-trivial: well-conditioned, some metric inside (-40, 60) dB, and gains not all equal to one."
)


GAIN = st.fixed_dictionaries(dict(gmode=st.sampled_from(["wide", "wide", "near", "up", "down", "pow2", "sign"]), gseed=gen.SEED, common=st.booleans()))


def strat(**kw):
    return gen.merged(gen.problem(tex=gen.texture(snr=(-10, 40), spread=(0.0, 1.0)), **kw),
                      GAIN)


SUITES = [Suite("small", strat(), 1800, 24000), Suite("channels", strat(max_ch=8, max_L=5, max_N=300), 160, 4000),
          Suite("long", gen.merged(gen.long_problem(gen.WEIGHTED), GAIN), 60, 1500), Suite("taps", gen.merged(gen.taps_problem(gen.WEIGHTED), GAIN), 40, 1000),
          Suite("bulk", gen.merged(gen.bulk_problem(gen.WEIGHTED), GAIN), 60, 1500),
          Suite("crowd", gen.merged(gen.crowd_problem(gen.WEIGHTED), GAIN), 5, 80)]
RANGE = dict(wide=(-4, 6), near=(-1, 1), up=(0, 6), down=(-4, 0), pow2=(0, 0), sign=(0, 0))


def check(case):
    ref, est = gen.signals(case)
    rng = gen.rng_of(case["gseed"], 7)
    dt, be = case["dtype"], case["backend"]

    def gains(shape):
        lo, hi = RANGE[case["gmode"]]
        if case["gmode"] == "pow2":
            return 2.0 ** rng.integers(-13, 20, size=shape)
        g = 10.0 ** rng.uniform(lo, hi, size=shape)
        return g * rng.choice([-1.0, 1.0], size=shape)

    gr, ge = gains(ref.shape[:-1] + (1,)), gains(est.shape[:-1] + (1,))
    if case["common"]:
        gr = np.broadcast_to(gr.reshape(-1)[0], gr.shape)
        ge = np.broadcast_to(ge.reshape(-1)[0], ge.shape)
    ref2, est2 = ref * gr, est * ge
    # the documented floor of the normalisation
    for x in (ref, est, ref2, est2):
        y = demean(x) if case["opts"].get("zero_mean") else x
        if np.any(np.linalg.norm(y, axis=-1) < 2e-5):
            return Outcome(False, ["below the floor"])
    tols = problem_tols(case, ref, est)
    if tols is None or problem_tols(case, ref2, est2) is None:
        return Outcome(False, ["ill-conditioned or silent"])
    for T in tols.values():
        T.floor += 4 * T.eps  # rounding of the scaled samples
    a = api.run(case["fn"], api.to_backend(ref, be, dt), api.to_backend(est, be, dt), case["opts"])
    b = api.run(case["fn"], api.to_backend(ref2, be, dt), api.to_backend(est2, be, dt), case["opts"])
    w, kinds = compare(a, b, tols, case, f"{case['fn']} {be} {dt} scaled")
    return Outcome(informative(a), labels_of(case) + sorted(kinds) + ["gains:" + case["gmode"]], note(a), w)

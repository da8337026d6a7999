"""float32 results track float64 results."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C24"
RULE = (
    "A public function with random options on values that are exactly representable in float32, evaluated in float32 and in float64 by the same backend; signal levels 1e-3 to 1e5, gains up to 60 dB apart, 1-9 channels; suite long: 3000 to 150000 samples; suite taps: filters up to 300; suite recording: up to 1400000 samples, stored sample by sample or channel by channel. "
    "Results must agree within the float32 rounding-error bound given by the conditioning (which grows with the length only through log2 N and 0.005 sqrt N). Non-trivial: well-conditioned at float32 (bound below 0.02 in squared cosine) and some metric inside (-40, 60) dB."
)
NAMES = gen.WEIGHTED + ["square_cosine_metrics", "pairwise_sdr_loss", "pairwise_si_sdr_loss"]
LEVEL = st.fixed_dictionaries(dict(level=st.sampled_from([-3, -2, 0, 0, 2, 4, 5])))
SUITES = [
    Suite("any", gen.merged(gen.problem(names=NAMES, dtypes=("f32",), max_total=12000, tex=gen.texture(snr=(-10, 40), spread=(0.0, 0.0, 1.0, 3.0))), LEVEL), 1600, 22000),
    Suite("channels", gen.merged(gen.problem(names=NAMES, dtypes=("f32",), max_ch=9, max_L=6, max_N=400, max_total=6000), LEVEL), 250, 5000),
    Suite("long", gen.merged(gen.problem(names=NAMES, dtypes=("f32",), max_ch=3, max_L=64, max_order=130, max_N=150000, min_slack=400, max_total=150000, batches=[[], [], [2]], tex=gen.texture(snr=(-10, 40), kinds=["white", "speech", "ar", "uniform"])), LEVEL), 90, 1800),
    Suite("taps", gen.merged(gen.problem(names=["sdr_loss", "sdr", "bss_eval_sources"], dtypes=("f32",), max_ch=2, max_L=300, max_order=400, max_N=4000, batches=[[]], max_total=8000, tex=gen.texture(snr=(-10, 40), kinds=["white", "uniform", "ar"])), LEVEL), 40, 800),
    Suite("huge", gen.merged(gen.huge_problem(NAMES, dtypes=("f32",)), LEVEL), 24, 400),
    Suite("recording", gen.merged(gen.huge_problem(NAMES + ["si_bss_eval_sources", "si_sdr_loss", "pairwise_si_sdr_loss", "si_sdr"], tex=gen.texture(snr=(0, 60), kinds=["white", "speech", "ar", "uniform", "pm1"], spread=(0.0, 1.0)), dtypes=("f32",), max_L=4, min_N=300000, max_N=1400000, max_total=2000000, batches=[[]]), LEVEL, st.fixed_dictionaries(dict(tlast=st.sampled_from([True, True, False])))), 16, 250),
    Suite("bulk", gen.merged(gen.bulk_problem(NAMES, dtypes=("f32",)), LEVEL), 60, 1500),
]


def check(case):
    ref, est = gen.signals(case, cast="f32")
    tols = problem_tols(case, ref, est)
    if tols is None:
        return Outcome(False, ["ill-conditioned or silent"])
    be, fn, o = case["backend"], case["fn"], case["opts"]
    R, E = api.to_backend(ref, be, "f32"), api.to_backend(est, be, "f32")
    if case.get("tlast"):
        # as read from a wav file: the channels interleaved in memory
        R, E = (x.T.contiguous().T if be == "pt" else np.ascontiguousarray(x.T).T for x in (R, E))
    a = api.run(fn, R, E, o, via="mod")
    b = api.run(fn, api.to_backend(ref, be, "f64"), api.to_backend(est, be, "f64"), o, via="mod")
    w, kinds = compare(a, b, tols, case, f"{fn} {be} {o} float32 against float64 (level 1e{case['level']}, {case['N']} samples)")
    return Outcome(informative(b), labels_of(case) + sorted(kinds) + [f"level 1e{case['level']}", "N>=3000" if case["N"] >= 3000 else "N<3000"], note(a), w)

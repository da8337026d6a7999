"""numpy and torch backends agree."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C05"
RULE = (
    "A public function (the eight top-level ones and the backend-only square_cosine_metrics, pairwise_sdr_loss and pairwise_si_sdr_loss), every option combination (solver, loading, clamping, zero_mean, permutation, pairwise, sign), "
    "1-4 (suite channels: 1-9) references and estimates, batch shapes of 0-3 dimensions, filters 1-33, both precisions; the same values go to both backends. "
    "Results must agree within the rounding-error bound given by the conditioning of the systems; permutations may differ only if their total scores agree. "
    "Non-trivial: well-conditioned and some metric inside (-40, 60) dB."
)
NAMES = gen.WEIGHTED + ["square_cosine_metrics", "square_cosine_metrics", "pairwise_sdr_loss", "pairwise_si_sdr_loss"]
SUITES = [
    Suite("small", gen.problem(names=NAMES), 2000, 24000),
    Suite("channels", gen.problem(names=NAMES, max_ch=9, max_L=5, max_N=300), 240, 6000),
    Suite("long", gen.problem(names=NAMES, max_ch=3, max_L=300, max_order=400, max_N=5000, batches=[[], [], [1], [2]], max_total=16000), 80, 2000),
    Suite("long_f", gen.long_problem(NAMES), 80, 1500),
    Suite("taps", gen.taps_problem(NAMES), 48, 1000),
    Suite("huge", gen.huge_problem(NAMES), 24, 400),
    Suite("bulk", gen.bulk_problem(NAMES), 100, 2000),
    Suite("crowd", gen.crowd_problem(NAMES), 6, 100),
]


def check(case):
    ref, est = gen.signals(case)
    tols = problem_tols(case, ref, est)
    if tols is None:
        return Outcome(False, ["ill-conditioned or silent"])
    dt = case["dtype"]
    out = {}
    for be in ("np", "pt"):
        out[be] = api.run(case["fn"], api.to_backend(ref, be, dt), api.to_backend(est, be, dt), case["opts"], via="mod" if case["backend"] == "np" else "top")
    w, kinds = compare(out["np"], out["pt"], tols, case, f"{case['fn']} numpy against torch")
    return Outcome(informative(out["np"]), labels_of(case) + sorted(kinds), note(out["np"]), w)

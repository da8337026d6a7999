"""A batch is evaluated as its items one by one."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C09"
RULE = (
    "A public function with random options on a batch of 1 to 3 leading dimensions (sizes 1 to 7, up to 40 items in suite many), whose items have their own level (60 dB apart), texture, quality and permutation, some being perfect. "
    "The whole batch, the batch with its dimensions flattened, with an extra leading axis, and each item alone must give the same results within the rounding-error bound. "
    "Non-trivial: at least two items, well-conditioned, some metric inside (-40, 60) dB."
)
NAMES = gen.WEIGHTED + ["square_cosine_metrics", "pairwise_sdr_loss", "pairwise_si_sdr_loss"]
EXTRA = st.fixed_dictionaries(dict(hetero=st.just(True), perfect=st.booleans()))
B = [[1], [2], [3], [5], [2, 2], [2, 3], [3, 2], [1, 2], [2, 1], [1, 1], [2, 1, 2], [2, 2, 2], [1, 3, 2], [7]]
SUITES = [
    Suite("items", gen.merged(gen.problem(names=NAMES, batches=B, max_L=65, max_order=130, max_N=700, max_total=12000), EXTRA), 800, 12000),
    Suite("many", gen.merged(gen.problem(names=NAMES, batches=[[16], [17], [4, 8], [33], [5, 2, 4]], max_ch=3, max_L=8, max_order=24, max_N=120, max_total=12000), EXTRA), 60, 1500),
    Suite("long", gen.merged(gen.long_problem(NAMES, batches=[[2], [3], [2, 2]]), EXTRA), 60, 1500),
    Suite("taps", gen.merged(gen.taps_problem(NAMES, batches=[[2], [3]]), EXTRA), 40, 1000),
    Suite("bulk", gen.merged(gen.bulk_problem(NAMES, batches=[[10], [40], [65], [130], [257], [2, 1, 2, 1], [1, 2, 1, 3], [2, 2, 2], [3, 1, 3]]), EXTRA), 60, 1500),
    Suite("crowd", gen.merged(gen.crowd_problem(NAMES), EXTRA), 8, 150),
]


def check(case):
    ref, est = gen.signals(case)
    tols = problem_tols(case, ref, est)
    if tols is None:
        return Outcome(False, ["ill-conditioned or silent"])
    be, dt, fn, o = case["backend"], case["dtype"], case["fn"], case["opts"]

    def go(r, e):
        return api.run(fn, api.to_backend(r, be, dt), api.to_backend(e, be, dt), o, via="mod")

    full = go(ref, est)
    worst, kinds = 0.0, set()
    eps = api.EPS[dt]

    def cmp(res, idx, b, what):
        A = {m: v[b] for m, v in full.m.items()}
        Bm = {m: v[idx] for m, v in res.m.items()}
        pa = full.perm[b] if full.perm is not None else None
        pb = res.perm[idx] if res.perm is not None else None
        return compare_item(A, Bm, tols[b], o, fn, eps, full.target, f"{fn} {be} {dt}: {what} {b}", pa, pb)

    flat = go(ref.reshape((-1,) + ref.shape[-2:]), est.reshape((-1,) + est.shape[-2:]))
    extra = go(ref[None], est[None])
    for i, b in enumerate(tols):
        one = go(ref[b], est[b])
        for res, idx, what in ((one, (), "batch against single item"), (flat, (i,), "batch against flattened batch"), (extra, (0,) + b, "batch against batch with an extra axis")):
            w, k = cmp(res, idx, b, what)
            worst = max(worst, w)
            kinds.add(k)
    return Outcome(len(tols) > 1 and informative(full), labels_of(case) + sorted(kinds), note(full), worst)

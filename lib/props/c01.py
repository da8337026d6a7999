"""SDR equals its projection definition."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C01"
RULE = (
    "Random well-posed problems: 1-8 references and estimates (equal or not), batch shapes of 0-3 dimensions, N from 2 to several thousand samples "
    "biased to powers of two and their neighbours, filter lengths 1-512, seven signal textures, correlated references, unrelated / separated / mixed estimates, per-channel gains up to 60 dB apart, "
    "both backends and precisions, zero_mean on and off. Every pair is compared with the energies of an explicit least-squares projection (QR of the matrix of shifts, float64). "
    "Non-trivial: the system is well enough conditioned for the tolerance to be below 0.02 in squared cosine and some oracle SDR lies in (-40, 60) dB."
)


def case_strategy(**kw):
    return gen.merged(
        gen.dims(bss=False, **kw), gen.texture(),
        st.fixed_dictionaries(dict(backend=gen.backend(), dtype=gen.dtype(), zero_mean=st.booleans())),
    )


def big():
    return gen.merged(
        st.sampled_from([(511, 700), (512, 512), (512, 600), (512, 1025), (513, 1200), (255, 513), (256, 2048), (300, 4000), (128, 3000), (100, 6000), (2, 70000), (1, 140000), (3, 33000), (257, 1), (1, 262200), (2, 300001), (3, 530000), (1024, 2100), (1025, 1500)]).map(
            lambda t: dict(L=t[0], N=max(t[1], 2), batch=[])),
        st.fixed_dictionaries(dict(n_ref=st.integers(1, 2), n_est=st.integers(1, 2))),
        gen.texture(kinds=["white", "speech", "ar", "uniform"]),
        st.fixed_dictionaries(dict(backend=gen.backend(), dtype=gen.dtype(), zero_mean=st.booleans())),
    )


SUITES = [
    Suite("small", case_strategy(), 2200, 30000),
    Suite("channels", case_strategy(max_ch=9, max_L=6, max_N=300), 400, 6000),
    Suite("large", big(), 80, 1500),
    Suite("long", case_strategy(max_ch=3, max_L=33, min_N=1500, max_N=40000, max_total=40000, batches=[[], [], [2]]), 80, 1500),
    Suite("taps", case_strategy(max_ch=2, min_L=80, max_L=600, max_order=1200, max_N=3000, max_total=8000, batches=[[], [], [2]]), 60, 1200),
    Suite("bulk", case_strategy(max_ch=12, max_L=4, max_order=48, max_N=160, max_total=14000, batches=[[], [10], [40], [65], [130], [257], [2, 1, 2, 1], [3, 1, 3]]), 80, 1500),
    Suite("crowd", case_strategy(max_ch=3, max_L=3, max_order=9, max_N=40, max_total=150000, batches=gen.CROWD), 6, 100),
]


def check(case):
    ref, est = gen.signals(case)
    L, be, dt = case["L"], case["backend"], case["dtype"]
    eps = api.EPS[dt]
    batch = tuple(case["batch"])
    square = case["n_ref"] == case["n_est"]
    orc = {}
    lam_ok = True
    joint_ok = square and case["N"] >= 1.5 * L * case["n_ref"] and L * case["n_ref"] <= 120
    worst = 0.0
    for b in batch_indices(batch):
        r, e = ref[b], est[b]
        if case["zero_mean"]:
            r = r - r.mean(-1, keepdims=True)
            e = e - e.mean(-1, keepdims=True)
        if np.any(np.linalg.norm(r, axis=-1) < 1e-3) or np.any(np.linalg.norm(e, axis=-1) < 1e-3):
            return Outcome(False, ["silent"])
        orc[b] = oracle.Item(r, e, L, joint=False)
        lam_ok &= oracle.tol_q(1.0, orc[b].lam1.min(), L, eps, case["N"]) < 0.02
        if joint_ok:
            joint_ok &= Tol(r, L, eps).ok(True)
    if not lam_ok:
        return Outcome(False, ["ill-conditioned"])
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    o = dict(filter_length=L, zero_mean=case["zero_mean"])
    pw = api.run("sdr_loss", R, E, dict(o, pairwise=True)).m["sdr"]
    dg = api.run("sdr_loss", R, E, dict(o, pairwise=False)).m["sdr"] if square else None
    bs = api.run("bss_eval_sources", R, E, dict(o, compute_permutation=False)).m["sdr"] if joint_ok else None
    interesting = False
    for b in orc:
        O = orc[b]
        tol = oracle.tol_q(O.q, O.lam1[:, None], L, eps, case["N"])
        worst = max(worst, need_db(pw[b], O.q, O.d, tol, eps, f"pairwise sdr_loss vs projection, item {b}"))
        if dg is not None:
            i = np.arange(case["n_ref"])
            worst = max(worst, need_db(dg[b], O.q[i, i], O.d[i, i], tol[i, i], eps, f"sdr_loss vs projection, item {b}"))
        if bs is not None:
            worst = max(worst, need_db(bs[b], O.q[i, i], O.d[i, i], tol[i, i], eps, f"bss_eval_sources SDR vs projection, item {b}"))
        db = oracle.db_of(O.q, O.d)
        interesting |= bool(np.any((db > -40) & (db < 60)))
    return Outcome(
        interesting,
        [be + "/" + dt, "L=1" if L == 1 else "L>1", "batch" + str(len(batch)), "rect" if not square else "square",
         "N<=L" if case["N"] <= L else "N>L", case["kind"], "zm" if case["zero_mean"] else "nozm", "with bss" if bs is not None else "no bss"],
        f"SDR {fmt(pw)}", worst,
    )

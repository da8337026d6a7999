"""SIR and SAR equal their projection definition."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C02"
RULE = (
    "Random problems with a well-posed joint system (N at least 1.2 times filter_length times references): 1-8 references and estimates (unequal with compute_permutation=True), batch shapes of 0-3 dimensions, "
    "filter lengths 1-33 (larger suite up to 128), correlated references, seven textures, both backends and precisions, zero_mean on and off, bss_eval_sources and si_bss_eval_sources. "
    "SDR, SIR and SAR of every reported pair are compared with the energies of the explicit target / interference / artifact decomposition (QR, float64). "
    "Non-trivial: well-conditioned, at least two references and some oracle SIR and SAR in (-40, 60) dB."
)


def flags(dtypes=None):
    return st.fixed_dictionaries(dict(
        backend=gen.backend(), dtype=dtypes or gen.dtype(), zero_mean=st.booleans(), cp=st.booleans(), si=st.booleans()))


def case_strategy(**kw):
    return gen.merged(gen.dims(bss=True, min_slack=1.2, **kw), gen.texture(snr=(-10, 40)), flags())


def big():
    return gen.merged(
        st.sampled_from([(128, 1, 700), (127, 2, 1500), (64, 3, 2048), (65, 2, 4097), (40, 4, 1000), (2, 2, 70000), (1, 3, 100000), (2, 1, 262200), (1, 2, 300001), (2, 2, 140000), (5, 8, 2000), (256, 1, 513), (100, 2, 999)]).map(
            lambda t: dict(L=t[0], n_ref=t[1], n_est=t[1], N=t[2], batch=[])),
        gen.texture(kinds=["white", "speech", "ar", "uniform"], snr=(-10, 40)), flags())


SUITES = [
    Suite("small", case_strategy(), 1600, 24000),
    Suite("channels", case_strategy(max_ch=8, max_L=7, max_N=400), 240, 6000),
    Suite("large", big(), 64, 1200),
    Suite("long", case_strategy(max_ch=3, max_L=33, max_order=66, min_N=1500, max_N=30000, max_total=30000, batches=[[], [], [2]]), 64, 1500),
    Suite("taps", case_strategy(max_ch=2, min_L=80, max_L=300, max_order=400, max_N=2500, max_total=5000, batches=[[], [], [2]]), 40, 1000),
    Suite("bulk", case_strategy(max_ch=12, max_L=4, max_order=48, max_N=160, max_total=14000, batches=[[], [10], [40], [65], [130], [257], [2, 1, 2, 1], [3, 1, 3]]), 80, 1500),
    Suite("crowd", case_strategy(max_ch=3, max_L=3, max_order=9, max_N=40, max_total=150000, batches=gen.CROWD), 6, 100),
]


def check(case):
    ref, est = gen.signals(case)
    L, be, dt = case["L"], case["backend"], case["dtype"]
    eps = api.EPS[dt]
    batch = tuple(case["batch"])
    square = case["n_ref"] == case["n_est"]
    cp = case["cp"] or not square
    orc, tols = {}, {}
    for b in batch_indices(batch):
        r, e = ref[b], est[b]
        if case["zero_mean"]:
            r = r - r.mean(-1, keepdims=True)
            e = e - e.mean(-1, keepdims=True)
        if np.any(np.linalg.norm(r, axis=-1) < 1e-3) or np.any(np.linalg.norm(e, axis=-1) < 1e-3):
            return Outcome(False, ["silent"])
        tols[b] = Tol(r, L, eps)
        if not tols[b].ok(True):
            return Outcome(False, ["ill-conditioned"])
        orc[b] = oracle.Item(r, e, L)
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    si = L == 1 and case["si"]
    name = "si_bss_eval_sources" if si else "bss_eval_sources"
    o = dict(filter_length=L, zero_mean=case["zero_mean"])
    if cp and not case["si"]:
        pass  # the default must be to compute the permutation
    else:
        o["compute_permutation"] = cp
    res = api.run(name, R, E, o)
    interesting = False
    worst = 0.0
    n_out = min(case["n_ref"], case["n_est"])
    for b in orc:
        O, T = orc[b], tols[b]
        a = np.arange(n_out)
        p = res.perm[b] if cp else a
        k, m = (a, p) if case["n_ref"] <= case["n_est"] else (p, a)
        qs, qj = O.q[k, m], O.qJ[m]
        w = f"{name} {be} {dt} item {b} "
        worst = max(
            worst,
            need_db(res.m["sdr"][b], qs, O.d[k, m], T.sdr(qs, k), eps, w + "SDR vs definition"),
            need_db(res.m["sar"][b], qj, O.dJ[m], T.sar(qj), eps, w + "SAR vs definition"),
            need_db(res.m["sir"][b], O.qI[k, m], O.dI[k, m], T.sir(qs, qj, k), eps, w + "SIR vs definition"),
        )
        sir, sar = oracle.db_of(O.qI[k, m], O.dI[k, m]), oracle.db_of(qj, O.dJ[m])
        interesting |= bool(np.any((np.abs(sir) < 50) & (np.abs(sar) < 50)) and case["n_ref"] > 1)
    return Outcome(
        interesting,
        [be + "/" + dt, "L=1" if L == 1 else "L>1", "batch" + str(len(batch)), "perm" if cp else "noperm",
         "square" if square else ("wide" if case["n_ref"] < case["n_est"] else "tall"), "n_ref=" + str(case["n_ref"]), name],
        f"SDR {fmt(res.m['sdr'])} SIR {fmt(res.m['sir'])} SAR {fmt(res.m['sar'])}", worst,
    )

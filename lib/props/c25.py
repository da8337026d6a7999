"""Default settings agree with mir_eval."""
import warnings

import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C25"
RULE = (
    "bss_eval_sources with default options (and compute_permutation on or off) on 1-4 references and as many estimates, 900 to 6000 (suite noisy: 90000) samples, white, uniform and coloured signals, separated, densely mixed and unrelated estimates at -10 to 40 dB, reordered, both backends in float64, channels of different gains; suite noisy: estimates with noise at levels 10 to 30 dB apart, so that the best matchings by SIR and by SDR differ; "
    "compared with mir_eval.separation.bss_eval_sources on the same arrays: SDR, SIR, SAR within the float64 rounding-error bound plus 1e-7 in squared cosine, and the same permutation unless the sums of SIR agree. Non-trivial: well-conditioned, some metric inside (-40, 60) dB."
)


@st.composite
def strategy(draw, ch=(1, 2, 2, 2, 3)):
    n = draw(st.sampled_from(list(ch)))
    lo = int(512 * n * 1.15) + 64
    c = dict(n_ref=n, n_est=n, L=512, batch=[], N=draw(st.one_of(st.integers(lo, lo + 3000), st.sampled_from([x for x in (1024, 1536, 1537, 2048, 2049, 3000, 4096, 5000) if x >= lo]))))
    c.update(draw(gen.texture(kinds=["white", "uniform", "speech", "pm1", "int"], snr=(-10, 40), spread=(0.0, 0.0, 1.0))))
    c["backend"] = draw(st.sampled_from(["np", "pt"]))
    c["cp"] = draw(st.sampled_from([True, True, False]))
    c["dtype"] = "f64"
    c["fn"], c["opts"] = "bss_eval_sources", dict(compute_permutation=c["cp"])
    return c


NOISY = st.fixed_dictionaries(dict(N=st.integers(50000, 90000), kind=st.sampled_from(["white", "uniform"]), gate=st.none(), delay=st.just(False), echo=st.just(0), buried=st.just(0), corr=st.just(0),
    nspread=st.just(0), mix=st.just("contest"), snr=st.integers(-15, 10), cp=st.just(True)))
SUITES = [Suite("default", strategy(), 80, 1600), Suite("four", strategy(ch=(4,)), 5, 120), Suite("noisy", gen.merged(strategy(ch=(3, 4, 4)), NOISY).map(lambda c: dict(c, opts=dict(compute_permutation=c["cp"]))), 8, 150)]


def check(case):
    import mir_eval

    ref, est = gen.signals(case)
    n = case["n_ref"]
    T = Tol(ref, 512, oracle.np.finfo(float).eps, None, True, 3.0, 1e-7)
    if not T.ok(True):
        return Outcome(False, ["ill-conditioned"])
    R, E = api.to_backend(ref, case["backend"], "f64"), api.to_backend(est, case["backend"], "f64")
    o = {} if case["cp"] else dict(compute_permutation=False)
    a = api.run("bss_eval_sources", R, E, o)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = mir_eval.separation.bss_eval_sources(ref.copy(), est.copy(), compute_permutation=case["cp"])
    A = {k: v for k, v in a.m.items()}
    B = dict(zip(("sdr", "sir", "sar"), (np.asarray(x, float) for x in m[:3])))
    w, kind = compare_item(A, B, T, case["opts"], "bss_eval_sources", oracle.np.finfo(float).eps, "sir", f"bss_eval_sources {case['backend']} {o} against mir_eval", a.perm, np.asarray(m[3]) if case["cp"] else None)
    return Outcome(informative(a), [case["backend"], f"{n} sources", "permutation" if case["cp"] else "no permutation", case["mix"], kind, "reordered" if case["cp"] and list(a.perm) != list(range(n)) else "in order"], note(a), w)

"""Scores are symmetric: reversal, rate, rearrangement of time."""
import numpy as np
import scipy.fft
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C26"
RULE = (
    "A function with random options on a random problem, compared with the same call on transformed signals. reverse: time reversed, L - 1 zeros appended to the references and prepended to the estimates (filter_length L). "
    "stuff: k - 1 zeros inserted after every sample (k 2 to 5), filter_length anywhere from k(L-1)+1 to kL. blocks: signals made of 2 to 5 blocks, each followed by at least L - 1 zeros, in another order, with common sign flips of single blocks and other gaps. "
    "repeat: everything repeated 2 to 4 times with such gaps. Filter length 1 and the si_ functions (also with zero_mean for the first and last): samples in another order, common sample-wise signs, reflections, orthonormal DCT, repetition. "
    "All results must agree within the rounding-error bounds of both problems. Non-trivial: well-conditioned, some metric inside (-40, 60) dB."
)
FULL = ["bss_eval_sources"] * 4 + ["sdr"] * 2 + ["sdr_loss"] * 2 + ["sdr_pit_loss", "pairwise_sdr_loss", "square_cosine_metrics", "square_cosine_metrics"]
SI = ["si_bss_eval_sources"] * 3 + ["si_sdr", "si_sdr_loss", "si_sdr_pit_loss", "pairwise_si_sdr_loss", "bss_eval_sources", "sdr", "sdr_loss", "square_cosine_metrics"]
CG = [None] * 6 + [30, 40]


def rel(names):
    return st.fixed_dictionaries(dict(rel=st.sampled_from(names), k=st.integers(2, 5), x=st.integers(0, 1000), tseed=gen.SEED))


FR = ["reverse", "reverse", "stuff", "stuff", "blocks", "repeat"]
SUITES = [
    Suite("filters", gen.merged(gen.problem(names=FULL, zm=(False,), cg=CG, max_N=700, max_total=14000), rel(FR)), 2400, 24000),
    Suite("orthogonal", gen.merged(gen.problem(names=SI, cg=[None], max_L=1, max_ch=8, max_N=900, max_total=14000), rel(["order", "signs", "reflect", "dct", "repeat", "order"])), 1000, 12000),
    Suite("channels", gen.merged(gen.problem(names=FULL, zm=(False,), cg=CG, max_ch=8, max_L=8, max_order=64, max_N=400, max_total=10000), rel(FR)), 320, 5000),
    Suite("long", gen.merged(gen.long_problem(FULL, max_N=20000, zm=(False,), cg=CG), rel(["reverse", "stuff", "blocks", "repeat"])), 50, 1000),
    Suite("taps", gen.merged(gen.taps_problem(FULL, zm=(False,), cg=[None] * 5 + [40], max_L=260, max_order=400), rel(["reverse", "stuff", "blocks"])), 40, 800),
    Suite("bulk", gen.merged(gen.bulk_problem(FULL, zm=(False,), cg=CG), rel(FR)), 80, 1500),
]


def cuts(rng, N, n):
    return [0] + sorted(int(c) for c in rng.integers(1, N, size=n - 1)) + [N] if N > 1 else [0, N]


def lay(x, parts, gaps, signs):
    out = []
    z = x.shape[:-1]
    for (a, b), g, s in zip(parts, gaps, signs):
        out += [s * x[..., a:b], np.zeros(z + (g,))]
    return np.concatenate(out, axis=-1)


def transform(case, ref, est):
    """two equivalent problems: (ref, est, L), (ref, est, L)"""
    r, L, k, N = case["rel"], case["L"], case["k"], case["N"]
    rng = gen.rng_of(case["tseed"], 5)
    z = lambda x, n: np.zeros(x.shape[:-1] + (n,))
    if r == "reverse":
        m = L - 1 + case["x"] % 3
        return (ref, est, L), (np.concatenate([ref[..., ::-1], z(ref, m)], -1), np.concatenate([z(est, L - 1), est[..., ::-1], z(est, m - L + 1)], -1), L)
    if r == "stuff":
        while k > 2 and k * L > 700:
            k -= 1
        L2 = k * (L - 1) + 1 + case["x"] % k
        out = []
        for x in (ref, est):
            y = np.zeros(x.shape + (k,))
            y[..., 0] = x
            out.append(y.reshape(x.shape[:-1] + (-1,)))
        return (ref, est, L), (out[0], out[1], L2)
    if r == "blocks":
        c = cuts(rng, N, k)
        parts = list(zip(c[:-1], c[1:]))
        n = len(parts)
        g1, g2 = (list(L - 1 + rng.integers(0, 9, size=n)) for _ in range(2))
        order = rng.permutation(n)
        signs = rng.choice([-1.0, 1.0], size=n)
        return tuple((lay(ref, p, g, s), lay(est, p, g, s), L) for p, g, s in ((parts, g1, [1.0] * n), ([parts[i] for i in order], g2, signs)))
    if r == "repeat":
        n = min(k, 4)
        g = [0] * n if L == 1 else list(L - 1 + rng.integers(0, 9, size=n))
        s = [1.0] * n if case["opts"].get("zero_mean") else rng.choice([-1.0, 1.0], size=n)
        return (ref, est, L), tuple(lay(x, [(0, N)] * n, g, s) for x in (ref, est)) + (L,)
    if r == "order":
        p = rng.permutation(N)
        return (ref, est, L), (ref[..., p], est[..., p], L)
    if r == "signs":
        s = rng.choice([-1.0, 1.0], size=N)
        f = lambda x: x * s
    elif r == "reflect":
        v = rng.standard_normal(N)
        v /= np.linalg.norm(v)
        f = lambda x: x - 2 * (x @ v)[..., None] * v
    else:
        f = lambda x: scipy.fft.dct(x, norm="ortho", axis=-1)
    if case["opts"].get("zero_mean"):
        # these do not keep the mean: reorder the samples instead
        p = rng.permutation(N)
        f = lambda x: x[..., p]
    return (ref, est, L), (f(ref), f(est), L)


def check(case):
    ref, est = gen.signals(case)
    be, dt, fn = case["backend"], case["dtype"], case["fn"]
    eps = api.EPS[dt]
    if np.any(np.linalg.norm(ref, axis=-1) < 1e-4):
        return Outcome(False, ["silent"])
    A, B = transform(case, ref, est)
    cg = case["opts"].get("use_cg_iter") if case["L"] > 1 else None
    plain = {k: v for k, v in case["opts"].items() if k != "use_cg_iter"}
    res, tols = [], []
    exact = case["rel"] not in ("reflect", "dct")
    for r, e, L in (A, B):
        o = dict(plain, filter_length=L)
        # the transformed samples are rounded to the working precision
        t = problem_tols(dict(case, opts=o, L=L), r, e, L=L, floor=(CG_ERR if cg else 0.0) + (0.0 if exact else 16 * eps))
        if t is None:
            return Outcome(False, ["ill-conditioned or silent"])
        if cg and min(min(T.min1, T.lamJ if T.lamJ is not None else 1.0) for T in t.values()) < 3e-2:
            return Outcome(False, ["too ill-conditioned for the iterative solver"])
        tols.append(t)
        o = dict(o)
        if cg:
            o["use_cg_iter"] = cg
        if fn in ("sdr", "si_sdr"):
            o["return_perm"] = True
        res.append(api.run(fn, api.to_backend(r, be, dt), api.to_backend(e, be, dt), o, via="mod"))
    worse = {b: tols[0][b] if tols[0][b].sdr(1.0) + (tols[0][b].sar(1.0) if is_joint(fn) else 0) >= tols[1][b].sdr(1.0) + (tols[1][b].sar(1.0) if is_joint(fn) else 0) else tols[1][b] for b in tols[0]}
    c = dict(case, opts=dict(plain, filter_length=case["L"]))
    if cg:
        for T in worse.values():
            T.src = None
    w, kinds = compare(res[0], res[1], worse, c, f"{fn} {be} {dt} {case['opts']}: {case['rel']} (filter lengths {A[2]} and {B[2]}, {A[0].shape[-1]} and {B[0].shape[-1]} samples)")
    return Outcome(informative(res[0]), [case["rel"]] + labels_of(case) + sorted(kinds), note(res[0]), w)

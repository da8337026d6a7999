"""The scores follow the space spanned by the references."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C27"
RULE = (
    "Random problems, both backends and precisions, loading, zero_mean, clamping. longer: the same pairs with filter lengths L1 < L2, by sdr_loss, bss_eval_sources without permutation or square_cosine_metrics: neither SDR nor SAR drops. "
    "more: 1 to 4 references added: the SAR of every estimate does not drop, the squared cosine behind each pair's SIR does not rise, the pair's SDR stays. "
    "mixed: references replaced by an invertible mixture (triangular, orthogonal or random) of themselves, and by delayed copies added within a reference's own span: the SAR of every estimate stays. "
    "one: a single reference has SDR = SAR. load: a larger load_diag never raises the squared cosines. Bounds from the conditioning of both problems. "
    "Suites: tight has hardly more samples than unknowns and estimates that need the last tap; jump goes to filters up to 560 taps; estimates are almost perfect (50 to 110 dB) in three of five cases of the others. "
    "Non-trivial: well-conditioned, some metric inside (-40, 60) dB, and for longer and more a change above the bound."
)
CG = [None]


def rel(names):
    return st.fixed_dictionaries(dict(rel=st.sampled_from(names), add=st.integers(1, 4), L2=st.sampled_from([0, 1, 1, 2, 3, 7, 8, 15, 16, 31, 40, 64, 100, 200, 400]), tseed=gen.SEED, route=st.sampled_from(["bss", "cos", "sdr"]),
                                      how=st.sampled_from(["triangular", "orthogonal", "random", "pair"]), load2=st.sampled_from([1e-6, 1e-3, 0.1, 1.0]),
                                      clean=st.sampled_from([None, None, 50, 80, 110])))


@st.composite
def tight(draw):
    """hardly more samples than unknowns, estimates that need the last taps"""
    case = draw(gen.merged(gen.problem(max_ch=4, max_L=40, max_order=80, square=False, dtypes=("f64",), tex=gen.texture(kinds=["white", "uniform", "pm1"]), batches=[[], [], [2]], **P), rel(["longer", "more"])))
    L, nr = case["L"], case["n_ref"]
    if case["rel"] == "more":
        # (nr + add) L unknowns in N + L - 1 equations
        case["N"] = (nr + case["add"]) * L + draw(st.integers(4, 12)) + draw(st.integers(0, max(1, L)))
    else:
        case["L2"] = draw(st.integers(1, 20))
        case["N"] = int(1.32 * nr * (L + case["L2"])) + draw(st.integers(2, 30))
    case["maxdelay"] = True
    return case


RELS = ["longer", "longer", "more", "more", "mixed", "mixed", "one", "load"]
P = dict(names=["bss_eval_sources"], cg=[None], perm=(True,))
SUITES = [
    Suite("small", gen.merged(gen.problem(max_N=800, max_total=14000, min_slack=2.0, **P), rel(RELS)), 1400, 18000),
    Suite("tight", tight(), 500, 6000),
    Suite("channels", gen.merged(gen.problem(max_ch=8, max_L=8, max_order=64, max_N=500, max_total=10000, min_slack=2.0, **P), rel(["longer", "more", "mixed"])), 200, 4000),
    Suite("long", gen.merged(gen.long_problem(**P), rel(["longer", "more", "mixed", "load"])), 80, 1500),
    Suite("taps", gen.merged(gen.taps_problem(max_L=300, max_order=400, **P), rel(["longer", "longer", "mixed", "more"])), 60, 1000),
    Suite("jump", gen.merged(gen.problem(max_ch=2, max_L=65, max_N=3000, min_N=600, max_total=8000, batches=[[], [], [2]], **P), rel(["longer"]), st.fixed_dictionaries(dict(L2=st.sampled_from([16, 40, 64, 100, 150, 200, 300, 400, 500])))), 120, 2000),
    Suite("bulk", gen.merged(gen.bulk_problem(**P), rel(RELS)), 60, 1500),
]


def check(case):
    ref, est = gen.signals(case)
    be, dt, rel, L = case["backend"], case["dtype"], case["rel"], case["L"]
    eps = api.EPS[dt]
    o = {k: v for k, v in case["opts"].items() if k in ("zero_mean", "load_diag", "clamp_db")}
    route = case["route"]
    rng = gen.rng_of(case["tseed"], 9)
    nr, ne, N = ref.shape[-2], est.shape[-2], ref.shape[-1]
    if case.get("maxdelay"):
        # the last tap matters most
        for m in range(ne):
            x = np.zeros(ref.shape[:-2] + (N,))
            x[..., L - 1 :] = ref[..., m % nr, : N - L + 1]
            est[..., m, :] = x + (0 if case["clean"] is None else 10 ** (-case["clean"] / 20.0)) * est[..., m, :] * np.linalg.norm(x) / max(np.linalg.norm(est[..., m, :]), 1e-9) + (0.1 * est[..., m, :] if case["clean"] is None else 0)
    elif case["clean"] is not None:
        # almost perfect estimates
        g = np.linalg.norm(ref, axis=-1, keepdims=True)
        k = np.arange(ne) % nr
        h = np.linalg.norm(est, axis=-1, keepdims=True)
        est = ref[..., k, :] / np.maximum(g[..., k, :], 1e-9) * h + 10 ** (-case["clean"] / 20.0) * est
    if dt == "f32":
        est = est.astype(np.float32).astype(float)
    ref2, L2, o2 = ref, L, dict(o)
    if rel == "longer":
        L2 = L + max(1, min(case["L2"], int(N / 1.3 / nr) - L))
        if nr != ne and route == "bss":
            route = "cos"
    elif rel == "more":
        # at least one reference in addition; related to the estimates or not
        n = case["add"]
        x = rng.standard_normal(ref.shape[:-2] + (n, N)) * np.linalg.norm(ref, axis=-1).mean() / np.sqrt(N)
        if rng.uniform() < 0.6:
            x = x * 0.3 + rng.standard_normal(ref.shape[:-2] + (n, ne)) @ est / np.sqrt(ne)
        ref2 = np.concatenate([ref, x], axis=-2)
        perm = rng.permutation(nr + n)
        ref2 = ref2[..., perm, :]
        where = np.argsort(perm)[:nr]  # where the old references are
    elif rel == "mixed":
        o.pop("load_diag", None)
        o2 = dict(o)
        how = case["how"]
        if nr == 1:
            how = "pair"
        g = np.linalg.norm(ref, axis=-1, keepdims=True)
        u = ref / np.where(g > 0, g, 1)
        if how == "orthogonal":
            M = np.linalg.qr(rng.standard_normal((nr, nr)))[0]
        elif how == "triangular":
            M = np.eye(nr) + np.tril(rng.uniform(-0.7, 0.7, (nr, nr)), -1)
            p = rng.permutation(nr)
            M = M[p][:, p]
        elif how == "random":
            M = np.eye(nr) + 0.5 * rng.standard_normal((nr, nr)) / np.sqrt(nr)
        else:
            M = np.eye(nr)
            if nr > 1:
                i, j = rng.choice(nr, 2, replace=False)
                M[i, j] = rng.choice([-1.0, 1.0, 0.5])
            else:
                M *= -3.0
        ref2 = M @ u
    elif rel == "one":
        ref2 = ref = ref[..., :1, :]
        nr = 1
        if route == "sdr":
            route = "cos"
    else:  # load
        o2["load_diag"] = o.get("load_diag", 0.0) + case["load2"]
    if dt == "f32":
        ref2 = ref2.astype(np.float32).astype(float)
    if rel in ("mixed", "more", "one") and route == "sdr":
        route = "bss"
    if route == "bss" and rel in ("mixed", "more") and nr < ne:
        route = "cos"
    if route == "bss" and rel == "load" and nr != ne:
        route = "cos"
    if np.any(np.linalg.norm(ref, axis=-1) < 1e-4) or np.any(np.linalg.norm(ref2, axis=-1) < 1e-4):
        return Outcome(False, ["silent"])
    # the mixture is rounded to the working precision, which leaves the span
    extra = (16 * eps) if rel == "mixed" else 0.0
    t = [problem_tols(dict(case, opts=oo, L=l), r, est, L=l, floor=extra) for r, l, oo in ((ref, L, o), (ref2, L2, o2))]
    if t[0] is None or t[1] is None:
        return Outcome(False, ["ill-conditioned or silent"])
    E = api.to_backend(est, be, dt)

    def get(r, l, oo):
        """squared cosines q, 1 - q of the SDR per pair and of the SAR per estimate (or per pair), as [(name, q, d)]"""
        R = api.to_backend(r, be, dt)
        n = r.shape[-2]
        oo = dict(oo, filter_length=l)
        out = {}
        if route == "cos":
            m = api.run("square_cosine_metrics", R, E, dict(oo, pairwise=True), via="mod").m
            out["sdr"] = (m["csdr"], 1 - m["csdr"])
            out["sar"] = (m["csar"], 1 - m["csar"])
        elif route == "sdr":
            m = api.run("sdr_loss", R, E, dict(oo, pairwise=True)).m
            out["sdr"] = (oracle.q_of_db(m["sdr"]), oracle.d_of_db(m["sdr"]))
        else:
            cp = rel in ("mixed", "more", "one")
            res = api.run("bss_eval_sources", R, E, dict(oo, compute_permutation=cp))
            sar = res.m["sar"]
            if cp and n <= ne and rel != "one":  # square: perm[k] is the estimate of reference k
                s = np.empty_like(sar)
                np.put_along_axis(s, res.perm, sar, -1)
                sar = s
            if rel in ("longer", "load", "one"):
                out["sdr"] = (oracle.q_of_db(res.m["sdr"]), oracle.d_of_db(res.m["sdr"]))
            out["sar"] = (oracle.q_of_db(sar), oracle.d_of_db(sar))
        for k, (q, d) in out.items():
            if np.isnan(q).any():
                raise Violation(f"{route} {be} {dt} {oo}: NaN in {k}")
        return out

    worst, change, good = 0.0, False, False
    what = f"{route} {be} {dt} {o}"
    a = get(ref, L, o)
    if rel == "one":
        for b in t[0]:
            T = t[0][b]
            (q1, d1), (q2, d2) = ((x[b] for x in a[k]) for k in ("sdr", "sar"))
            err = np.where(q1 < 0.5, np.abs(q1 - q2), np.abs(d1 - d2))
            worst = max(worst, need(err, T.sdr(np.maximum(q1, q2)) + T.sar(np.maximum(q1, q2)) + 64 * eps, f"{what}: one reference, SDR and SAR differ: squared cosines {fmt(q1)} and {fmt(q2)}"))
            good |= bool(np.any((q1 > 1e-4) & (d1 > 1e-6)))
        return Outcome(good, [rel, route, be + "/" + dt, "batch%d" % len(case["batch"])], f"{fmt(a['sdr'][0])}", worst)
    c = get(ref2, L2, o2)
    for b in t[0]:
        Ts = [t[0][b], t[1][b]]
        for k in a:
            (q1, d1), (q2, d2) = (tuple(x[b] for x in m[k]) for m in (a, c))
            if rel == "more":
                if k == "sdr":
                    q2, d2 = q2[where], d2[where]
                elif route == "cos":
                    q2, d2 = q2[where], d2[where]
            q = np.maximum(q1, q2)
            def tq(T):
                if k == "sar":
                    return T.sar(q)
                return np.max([np.broadcast_to(T.sdr(q, j), q.shape) for j in range(T.nr)], axis=0) if rel == "more" else T.sdr(q)
            tol = tq(Ts[0]) + tq(Ts[1]) + 64 * eps
            diff = np.where(q < 0.5, q2 - q1, d1 - d2)  # increase
            same = rel == "mixed" and k == "sar" or rel == "more" and k == "sdr"
            detail = f"squared cosines {fmt(q1)} -> {fmt(q2)}"
            if rel == "mixed" and k == "sdr":
                continue
            if same:
                worst = max(worst, need(np.abs(diff), tol, f"{what}: item {b}: {k} changes although the space spanned ({rel}) is the same", detail))
            elif rel == "load":
                worst = max(worst, need(np.maximum(diff, 0), tol, f"{what}: item {b}: {k} rises with load_diag {o2['load_diag']}", detail))
            else:
                worst = max(worst, need(np.maximum(-diff, 0), tol, f"{what}: item {b}: {k} drops with " + (f"{L2} instead of {L} taps" if rel == "longer" else f"{case['add']} more references"), detail))
            change |= bool(np.any(np.abs(diff) > 2 * tol))
            good |= bool(np.any((q1 > 1e-4) & (d1 > 1e-6)))
        if rel == "more" and route == "cos":
            with np.errstate(all="ignore"):
                i1 = a["sdr"][0][b] / a["sar"][0][b]
                i2 = c["sdr"][0][b][where] / c["sar"][0][b][where]
            qs, qj = a["sdr"][0][b], np.minimum(a["sar"][0][b], c["sar"][0][b][where])
            tol = Ts[0].sir(np.clip(qs, 0, 1), np.clip(qj, 1e-9, 1)) + Ts[1].sir(np.clip(qs, 0, 1), np.clip(qj, 1e-9, 1)) + 64 * eps
            worst = max(worst, need(np.maximum(i2 - i1, 0), tol, f"{what}: item {b}: SIR rises with more references", f"squared cosines {fmt(i1)} -> {fmt(i2)}"))
    if rel in ("longer", "more", "load"):
        good = good and change
    return Outcome(good, [rel, route, be + "/" + dt, "load" if "load_diag" in o else "noload", "zm" if o.get("zero_mean") else "nozm", "clamp" if "clamp_db" in o and route != "cos" else "noclamp", "batch%d" % len(case["batch"])],
                   " ".join(f"{k} {fmt(a[k][0])} -> {fmt(c[k][0])}" for k in a), worst)

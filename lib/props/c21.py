"""load_diag adds exactly that loading to the normalised systems."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C21"
RULE = (
    "Suite formula: every function that takes load_diag (0 and 1e-8 to 10, filter lengths 1 to 65 (1 to 500 in suite taps), also systems that are singular without loading: references that are equal, periodic, sinusoidal or shorter than the filter), compared with the ridge formula x'(R + eI)^-1 x evaluated in float64 from the correlations of the unit-norm signals, "
    "for each pair and for the joint system; a larger loading must not give a larger SDR or SAR, and no loading may not give less. Suite silent: one or more references silent (with the estimates unaffected): the scores of the others equal those obtained without them, the silent ones get -inf or very low values. "
    "Non-trivial: the tolerance is meaningful (< 0.02) and (formula) the loading changes some squared cosine by more than ten tolerances, or (silent) some other reference has a metric inside (-40, 60) dB."
)
NAMES = ["bss_eval_sources", "bss_eval_sources", "square_cosine_metrics", "square_cosine_metrics", "sdr_loss", "sdr", "sdr_pit_loss", "pairwise_sdr_loss", "si_bss_eval_sources"]
LOADS = [0.0, 1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.5, 1.0, 3.0, 10.0]


@st.composite
def formula(draw, make=gen.problem, **kw):
    c = draw(make(names=NAMES, cg=[None, None, None, None, 40], clamp=[None, None, None, 60], load=LOADS, **kw))
    c["opts"].setdefault("load_diag", draw(st.sampled_from(LOADS[1:])))
    c["singular"] = draw(st.sampled_from([None, None, None, "equal", "periodic", "sine", "short"]))
    return c


@st.composite
def silent(draw, make=gen.problem, **kw):
    c = draw(make(names=NAMES, cg=[None, None, None, None, 40], clamp=[None, None, 60], load=LOADS[2:8], perm=(False, True), **kw))
    c["opts"].setdefault("load_diag", draw(st.sampled_from(LOADS[2:8])))
    c["silent"] = draw(st.lists(st.booleans(), min_size=c["n_ref"], max_size=c["n_ref"]).filter(any))
    return c


SUITES = [
    Suite("formula", formula(max_L=65, max_order=130, max_N=600, max_total=8000), 1800, 26000),
    Suite("silent", silent(max_L=40, max_order=100, max_N=500, max_total=6000), 500, 10000),
    Suite("long", st.one_of(formula(gen.long_problem, max_N=20000), silent(gen.long_problem, max_N=20000)), 40, 800),
    Suite("taps", st.one_of(formula(gen.taps_problem, max_order=500, max_N=3000), silent(gen.taps_problem, max_order=500, max_N=3000)), 24, 400),
    Suite("bulk", st.one_of(formula(gen.bulk_problem), silent(gen.bulk_problem)), 50, 1000),
]


def ridge(r, e, L, load, joint):
    """squared cosines per pair and per estimate"""
    G = oracle.gram(r, L, False)
    x = oracle.xcorr(r, e, L)
    q = np.stack([np.einsum("lc,lc->c", x[k], np.linalg.lstsq(G[k] + load * np.eye(L), x[k], rcond=None)[0]) for k in range(len(r))])
    if not joint:
        return q, None
    A = oracle.gram(r, L, True) + load * np.eye(L * len(r))
    X = x.reshape(-1, x.shape[-1])
    return q, np.einsum("lc,lc->c", X, np.linalg.lstsq(A, X, rcond=None)[0])


def shape_refs(case, ref, est):
    s = case.get("singular")
    N, L = case["N"], case["L"]
    n = np.arange(N)
    rng = gen.rng_of(case["seed"], 21)
    if s == "equal" and ref.shape[-2] > 1:
        ref[..., 1, :] = ref[..., 0, :]
    elif s == "periodic":
        p = max(1, L // 2)
        ref[..., 0, :] = ref[..., 0, n % p]
    elif s == "sine":
        ref[..., 0, :] = np.cos(2 * np.pi * rng.uniform(0.01, 0.4) * n + 1.0)
    elif s == "short":
        ref[..., 0, :] = 0
        ref[..., 0, : max(1, N // 8)] = 1.0
    if case["dtype"] == "f32":
        return ref.astype(np.float32).astype(float), est
    return ref, est


def rows(r):
    return [k for k in range(len(r)) if np.any(r[k])]


def check(case):
    ref, est = gen.signals(case)
    be, dt, fn, o, L = case["backend"], case["dtype"], case["fn"], dict(case["opts"]), case["L"]
    eps = api.EPS[dt]
    load = o["load_diag"]
    if "silent" in case:
        ref[..., np.array(case["silent"]), :] = 0
    ref, est = shape_refs(case, ref, est)
    joint = is_joint(fn)
    cg = o.get("use_cg_iter") if L > 1 else None
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    zm = o.get("zero_mean")
    info = {}
    change = 0.0
    for b in batch_indices(ref.shape[:-2]):
        r, e = (demean(ref[b]), demean(est[b])) if zm else (ref[b], est[b])
        nr, ne = np.linalg.norm(r, axis=-1), np.linalg.norm(e, axis=-1)
        live = [k for k in range(len(r)) if np.any(ref[b][k])]
        if np.any(nr[live] < 2e-5) or np.any(ne < 2e-5) or np.any(nr[live] < 1e-2 * np.linalg.norm(ref[b][live], axis=-1)) or np.any(ne < 1e-2 * np.linalg.norm(est[b], axis=-1)):
            return Outcome(False, ["too small"])
        if len(live) < len(r) and load == 0:
            return Outcome(False, ["silent without loading"])
        if not live:
            return Outcome(False, ["all silent"]) if joint or "silent" not in case else check_all_silent(case, R, E, o)
        T = Tol(r[live], L, eps, load, joint, 3.0, CG_ERR if cg else 0.0)
        if not T.ok(joint):
            return Outcome(False, ["ill-conditioned"])
        if cg and min(T.min1, T.lamJ or 1.0) < 3e-2:
            return Outcome(False, ["too ill-conditioned for the iterative solver"])
        q, qj = ridge(r[live], e, L, load, joint)
        q0, _ = ridge(r[live], e, L, 0.0, False)
        change = max(change, float(np.max(np.abs(q - q0) / T.sdr(1.0))))
        Q = np.zeros((len(r), len(e)))
        Q[live] = q
        info[b] = (T, Q, qj, live)
        # the SIR of an estimate that has nothing in common with the references is
        # undefined (0/0), and so is the matching when it depends on it
        if joint and fn != "square_cosine_metrics" and np.min(qj) < 2 * float(T.sar(0.0)) + 1e-9:
            return Outcome(False, ["nothing in common with the references"])
    res = api.run(fn, R, E, o, via="mod")
    what = f"{fn} {be} {dt} {o} {case.get('singular') or ''} {['silent'] * (case.get('silent') is not None)}"
    clamp = o.get("clamp_db")
    worst = 0.0
    pw = api.ALL[fn][1] == "loss" and (o.get("pairwise") or fn.startswith("pairwise")) or fn == "square_cosine_metrics" and o.get("pairwise", True)
    for b, (T, Q, qj, live) in info.items():
        m = {k: v[b] for k, v in res.m.items()}
        nr, ne = Q.shape
        if pw:
            q = Q
            qJ = None if qj is None else np.broadcast_to(qj, Q.shape)
        elif res.perm is not None:
            p = res.perm[b]
            idx = (np.arange(nr), p) if nr <= ne else (p, np.arange(ne))
            q, qJ = Q[idx], None if qj is None else qj[idx[1]]
        elif api.ALL[fn][1] == "pitloss" or fn in ("sdr",):
            q = None  # the matching is not reported
            S = np.clip(oracle.db_of(Q, 1 - Q), -200, 200)
            if clamp is not None:
                S = np.clip(S, -clamp, clamp)
            tot = np.sum(np.clip(m["sdr"], -200, 200))
            bound = oracle.best_assignment(S)
            n = min(nr, ne)
            if len(live) == nr and np.all(np.abs(S) < 40) and T.sdr(1.0) < 1e-5 and not cg:
                worst = max(worst, need(abs(tot - bound), 0.5 * n, f"{what}: total SDR {tot:.3f} against the optimum {bound:.3f} of the formula"))
        else:
            q, qJ = np.diagonal(Q), qj
        if q is None:
            continue
        lv = np.isin(np.arange(nr), live)
        for name, want in (("csdr", q), ("csar", qJ)):
            if name in m:
                t = T.sdr(want) if name == "csdr" else T.sar(want)
                worst = max(worst, need(np.abs(m[name] - want), t, f"{what}: item {b}: {name} {fmt(m[name])} expected {fmt(want)}"))
        for name, want in (("sdr", q), ("sar", qJ)):
            if name in m and want is not None:
                d = 1 - want
                if clamp is not None:
                    d = np.clip(d, oracle.d_of_db(clamp), oracle.q_of_db(clamp))
                    want = 1 - d
                t = T.sdr(want) if name == "sdr" else T.sar(want)
                worst = max(worst, need_db(m[name], want, d, t + 1e-15, eps, f"{what}: item {b}: {name}"))
        if "sir" in m and not cg and clamp is None:
            with np.errstate(all="ignore"):
                qi = np.clip(q / qJ, 0, 1)
            t = T.sir(q, qJ)
            worst = max(worst, need_db(m["sir"], qi, 1 - qi, t, eps, f"{what}: item {b}: sir"))
    if "silent" in case:
        worst = max(worst, check_left_out(case, R, E, ref, est, info, what))
    else:
        worst = max(worst, check_monotone(case, R, E, info, what))
    nt = informative(res) if "silent" in case else change > 10
    return Outcome(nt, labels_of(case) + [f"load={load}", "silent" if "silent" in case else f"singular {case['singular']}"], note(res), worst)


def check_all_silent(case, R, E, o):
    fn = case["fn"]
    res = api.run(fn, R, E, o, via="mod")
    c = o.get("clamp_db")
    for m, v in res.m.items():
        if np.isnan(v).any() or np.any(v > (-100 if c is None else -c + 1e-3)):
            raise Violation(f"{fn} {o}: {m} {fmt(v)} with silent references")
    return Outcome(True, labels_of(case) + ["all silent"], note(res))


def pair_cos(case, R, E, load, joint):
    o = {k: v for k, v in case["opts"].items() if k in ("zero_mean",)}
    o["filter_length"] = case["L"]
    if load is not None:
        o["load_diag"] = load
    if joint:
        return api.run("square_cosine_metrics", R, E, dict(o, pairwise=True), via="mod").m
    s = api.run("pairwise_sdr_loss", R, E, o, via="mod").m["sdr"]
    return dict(csdr=oracle.q_of_db(s))


def check_monotone(case, R, E, info, what):
    load = case["opts"]["load_diag"]
    joint = is_joint(case["fn"])
    Ts = [T for T, *_ in info.values()]
    a = pair_cos(case, R, E, load, joint)
    more = pair_cos(case, R, E, load * 2 + 1e-3, joint)
    w = 0.0
    for k in a:
        t = 2 * max(float((T.sdr if k == "csdr" else T.sar)(1.0)) for T in Ts)
        w = max(w, need(more[k] - a[k], t, f"{what}: {k} rises from {fmt(a[k])} to {fmt(more[k])} with a larger loading"))
    lam0 = []
    eps = api.EPS[case["dtype"]]
    for b, (T, Q, qj, live) in info.items():
        r = np.asarray(api.to_np(R)[b], float)
        r = demean(r) if case["opts"].get("zero_mean") else r
        lam0.append(Tol(r, case["L"], eps, None, joint))
    if all(T.ok(joint, 1e-2) for T in lam0):
        none = pair_cos(case, R, E, None, joint)
        zero = pair_cos(case, R, E, 0.0, joint)
        for k in a:
            t = 2 * max(float((T.sdr if k == "csdr" else T.sar)(1.0)) for T in lam0)
            w = max(w, need(a[k] - none[k], t, f"{what}: {k} rises from {fmt(none[k])} to {fmt(a[k])} with the loading"))
            w = max(w, need(np.abs(zero[k] - none[k]), t, f"{what}: {k} {fmt(none[k])} without load_diag and {fmt(zero[k])} with load_diag=0"))
            # a small loading changes well-conditioned results only slightly
            lam = min((T.min1 if k == "csdr" else T.lamJ) for T in lam0)
            need(none[k] - a[k], t + load / max(lam, 1e-12), f"{what}: {k} falls from {fmt(none[k])} to {fmt(a[k])} with smallest eigenvalue {lam:.3g}")
    return w


def check_left_out(case, R, E, ref, est, info, what):
    keep = [k for k in range(case["n_ref"]) if not case["silent"][k]]
    if not keep:
        return 0.0
    joint = is_joint(case["fn"])
    load = case["opts"]["load_diag"]
    a = pair_cos(case, R, E, load, joint)
    b = pair_cos(case, R[..., keep, :], E, load, joint)
    w = 0.0
    for k in a:
        t = 2 * max(float((T.sdr if k == "csdr" else T.sar)(1.0)) for T, *_ in info.values())
        w = max(w, need(np.abs(a[k][..., keep, :] - b[k]), t, f"{what}: {k} {fmt(a[k][..., keep, :])} with silent references and {fmt(b[k])} when they are left out"))
        if k == "csdr":
            gone = [j for j in range(case["n_ref"]) if case["silent"][j]]
            w = max(w, need(a[k][..., gone, :], 1e-9, f"{what}: squared cosine of silent references"))
    return w

"""Extreme but valid signals get a defined answer, invalid ones an error."""
import itertools

import numpy as np
import torch
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C18"
RULE = (
    "Suite degenerate: a public function on a random problem in which each estimate of each batch item is independently a perfect copy, a scaled, negated or causally filtered copy, exactly orthogonal to some references (impulses), silent, or ordinary, and references may be silent (with load_diag); "
    "suite impulses: references and estimates made of impulses further apart than the filter, so that all the scores are limits; suite single: one reference. Required: no exception, no NaN, a valid matching that no other matching dominates (fewer -inf and more +inf, or the same and a larger finite sum), "
    "scores of perfect pairs above and of silent or orthogonal pairs below what the rounding-error bound implies. Suite nan: one NaN at a random position: ValueError from every permutation-solving function. Suite mismatch: compute_permutation=False with different channel counts must raise. "
    "Non-trivial: at least one degenerate channel (NaN and mismatch cases always)."
)
NAMES = gen.WEIGHTED + ["square_cosine_metrics", "pairwise_sdr_loss", "pairwise_si_sdr_loss"]
EST = ["perfect", "perfect", "scaled", "negated", "filtered", "orth", "plain", "sum", "duplicate"]


@st.composite
def degenerate(draw, make=None, **kw):
    c = draw(make(names=NAMES, **kw) if make else gen.problem(names=NAMES, max_ch=9 if draw(st.integers(0, 3)) == 0 else 4, max_L=17, max_order=48, max_N=400, max_total=4000, batches=[[], [], [1], [2], [3], [2, 2]]))
    bss = api.ALL[c["fn"]][1] in ("bss", "cos")
    nb = max(1, int(np.prod(c["batch"])))
    pool = EST + ([] if bss else ["silent", "silent"])
    # some items stay ordinary
    c["ek"] = [[draw(st.sampled_from(pool)) for _ in range(c["n_est"])] if draw(st.integers(0, 4)) else ["plain"] * c["n_est"] for _ in range(nb)]
    c["rk"] = [["plain"] * c["n_ref"] for _ in range(nb)]
    if "load_diag" in api.ALL[c["fn"]][2] and draw(st.booleans()):
        c["opts"]["load_diag"] = draw(st.sampled_from([1e-6, 1e-5, 1e-3, 0.1]))
        for b in range(nb):
            for k in range(c["n_ref"]):
                if draw(st.integers(0, 2)) == 0 and (not bss or k > 0):
                    c["rk"][b][k] = "silent"
    return c


@st.composite
def impulses(draw):
    c = draw(gen.problem(names=NAMES, max_ch=8 if draw(st.booleans()) else 4, max_L=9, max_N=64, clamp=[None, None, None, 30], load=[None, None, None, 1e-3], zm=(False,), batches=[[], [], [2], [2, 2]]))
    c["spacing"] = c["L"] + draw(st.integers(1, 5))
    c["N"] = c["spacing"] * (c["n_ref"] + c["n_est"] + 1)
    nb = max(1, int(np.prod(c["batch"])))
    c["at"] = [[draw(st.lists(st.integers(0, c["n_ref"] - 1), min_size=1, max_size=draw(st.sampled_from([1, 1, 2])))) for _ in range(c["n_est"])] for _ in range(nb)]
    c["extra"] = [[draw(st.sampled_from([0, 0, 0, 1, 0.1])) for _ in range(c["n_est"])] for _ in range(nb)]
    c["perm"] = draw(st.booleans())
    return c


@st.composite
def single(draw):
    c = draw(gen.problem(names=["bss_eval_sources"] * 3 + NAMES, max_ch=4, max_L=33, max_N=400, max_total=4000))
    c["n_ref"] = 1
    if c["n_est"] > 1 and (not c["opts"].get("compute_permutation", True) or (api.ALL[c["fn"]][1] in ("loss", "cos") and not c["opts"].get("pairwise", False) and not c["fn"].startswith("pairwise"))):
        c["n_est"] = 1
    nb = max(1, int(np.prod(c["batch"])))
    c["ek"] = [[draw(st.sampled_from(["perfect", "scaled", "plain", "plain", "filtered"])) for _ in range(c["n_est"])] for _ in range(nb)]
    c["rk"] = [["plain"]] * nb
    return c


PN = ["bss_eval_sources", "sdr", "sdr_pit_loss", "si_bss_eval_sources", "si_sdr", "si_sdr_pit_loss"]
NAN = gen.merged(gen.problem(names=PN, perm=(True,), max_ch=4, max_L=17, max_order=48, max_N=300, max_total=4000), st.fixed_dictionaries(dict(nan=st.tuples(st.booleans(), st.integers(0, 10**6), st.integers(0, 10**6), st.integers(0, 10**6)).map(list))))
MIS = gen.merged(gen.problem(names=["bss_eval_sources", "si_bss_eval_sources"], perm=(False,), max_ch=4, max_L=9, max_N=200, max_total=3000), st.fixed_dictionaries(dict(mis=st.integers(1, 5))))
SUITES = [Suite("degenerate", degenerate(), 1100, 20000), Suite("long", degenerate(gen.long_problem, max_N=20000), 30, 600), Suite("taps", degenerate(gen.taps_problem, max_order=500, max_N=3000, max_total=8000), 20, 400), Suite("bulk", degenerate(gen.bulk_problem), 40, 800), Suite("impulses", impulses(), 600, 10000), Suite("single", single(), 300, 5000), Suite("nan", NAN, 300, 5000), Suite("mismatch", MIS, 100, 1000)]


def check(case):
    if "nan" in case:
        return check_nan(case)
    if "mis" in case:
        return check_mismatch(case)
    return check_degenerate(case)


def check_nan(case):
    ref, est = gen.signals(case)
    be, dt, fn = case["backend"], case["dtype"], case["fn"]
    o = api.filter_opts(fn, case["opts"])
    if problem_tols(case, ref, est) is None:
        return Outcome(False, ["ill-conditioned or silent"])
    which, a, b, c = case["nan"]
    x = ref if which else est
    flat = x.reshape(-1, x.shape[-2], x.shape[-1])
    pos = (a % flat.shape[0], b % flat.shape[1], c % flat.shape[2])
    flat[pos] = np.nan
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    what = f"{fn} {be} {dt} {o} with a NaN in the {'references' if which else 'estimates'} at {pos} of shape {flat.shape}"
    try:
        with np.errstate(all="ignore"):
            r = api.function(fn, be)(*((R, E) if api.ALL[fn][0] else (E, R)), **o)
    except ValueError:
        return Outcome(True, labels_of(case) + ["nan in " + ("references" if which else "estimates")], "ValueError")
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {e}")
    raise Violation(f"{what} returned {r}")


def check_mismatch(case):
    ref, est = gen.signals(case)
    be, dt, fn = case["backend"], case["dtype"], case["fn"]
    o = api.filter_opts(fn, case["opts"])
    n = case["mis"] if case["mis"] != case["n_ref"] else case["n_ref"] + 1
    est = np.repeat(est, 6, axis=-2)[..., :n, :]
    rng = gen.rng_of(case["seed"], 4)
    est = est + 0.1 * rng.standard_normal(est.shape)
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    try:
        r = api.function(fn, be)(R, E, **o)
    except Exception as e:
        return Outcome(True, labels_of(case) + ["mismatch"], type(e).__name__)
    raise Violation(f"{fn} {be} {dt} {o} accepted {case['n_ref']} references and {n} estimates and returned shapes {[tuple(x.shape) for x in r]}")


def build(case):
    """signals, and per item the pairs that are perfect and those that have no common component"""
    nr, ne, N, L = case["n_ref"], case["n_est"], case["N"], case["L"]
    nb = max(1, int(np.prod(case["batch"])))
    perfect, none = np.zeros((nb, nr, ne), bool), np.zeros((nb, nr, ne), bool)
    rng = gen.rng_of(case["seed"], 18)
    if "spacing" in case:
        s = case["spacing"]
        R, E = np.zeros((nb, nr, N)), np.zeros((nb, ne, N))
        for b in range(nb):
            place = rng.permutation(nr + ne + 1)
            for k in range(nr):
                R[b, k, place[k] * s] = rng.choice([-2.0, 1.0, 3.0])
            for m in range(ne):
                at = set(case["at"][b][m])
                for k in at:
                    E[b, m, place[k] * s + int(rng.integers(0, L))] += rng.choice([-1.0, 1.0, 0.25])
                x = case["extra"][b][m]
                E[b, m, place[nr + m] * s] += x
                for k in range(nr):
                    perfect[b, k, m] = at == {k} and x == 0
                    none[b, k, m] = k not in at
        shape = tuple(case["batch"])
        return R.reshape(shape + (nr, N)), E.reshape(shape + (ne, N)), perfect, none
    R, E = gen.signals(case)
    Rf, Ef = R.reshape(nb, nr, N), E.reshape(nb, ne, N)
    for b in range(nb):
        for k, kind in enumerate(case["rk"][b]):
            if kind == "silent":
                Rf[b, k] = 0
                none[b, k, :] = True
        # filtering is only exact when the end of the references is silent
        tail = "filtered" in case["ek"][b] and 1 < L <= N // 4 and not case["opts"].get("zero_mean")
        if tail:
            Rf[b, :, N - L + 1:] = 0
        alive = [k for k in range(nr) if case["rk"][b][k] != "silent"]
        for m, kind in enumerate(case["ek"][b]):
            if kind in ("perfect", "scaled", "negated", "filtered") and alive:
                k = alive[int(rng.integers(0, len(alive)))]
                r = Rf[b, k]
                if kind == "filtered" and tail:
                    h = rng.standard_normal(L)
                    Ef[b, m] = np.convolve(Rf[b, k], h)[:N]
                else:
                    Ef[b, m] = r * {"scaled": 0.3, "negated": -1.0}.get(kind, 1.0)
                perfect[b, k, m] = True
                none[b, k, m] = False
            elif kind == "orth" and alive:
                # orthogonal, at lag zero, to one reference
                k = alive[int(rng.integers(0, len(alive)))]
                v = Ef[b, m]
                r = Rf[b, k]
                Ef[b, m] = v - r * (v @ r) / max(r @ r, 1e-30)
                if L == 1:
                    none[b, k, m] = not case["opts"].get("zero_mean")
            elif kind == "silent":
                Ef[b, m] = 0
                none[b, :, m] = True
            elif kind == "sum":
                Ef[b, m] = Rf[b].sum(0)
                if len(alive) == 0:
                    none[b, :, m] = True
            elif kind == "duplicate" and m > 0:
                Ef[b, m] = Ef[b, m - 1]
                perfect[b, :, m], none[b, :, m] = perfect[b, :, m - 1], none[b, :, m - 1]
    if case["dtype"] == "f32":
        R, E = (x.astype(np.float32).astype(float) for x in (R, E))
    return R, E, perfect, none


def check_degenerate(case):
    be, dt, fn = case["backend"], case["dtype"], case["fn"]
    o = dict(case["opts"])
    eps = api.EPS[dt]
    nr, ne, L = case["n_ref"], case["n_est"], case["L"]
    if "spacing" in case and fn in ("sdr", "si_sdr"):
        o["return_perm"] = True
    o = api.filter_opts(fn, o)
    ref, est, perfect, none = build(case)
    batch = tuple(case["batch"])
    zm, load, clamp = o.get("zero_mean"), o.get("load_diag"), o.get("clamp_db")
    bss = api.ALL[fn][1] in ("bss", "cos")
    tols = []
    for b in batch_indices(batch):
        r0, e0 = ref[b], est[b]
        r, e = (demean(r0), demean(e0)) if zm else (r0, e0)
        nr_, ne_ = np.linalg.norm(r, axis=-1), np.linalg.norm(e, axis=-1)
        dead = np.linalg.norm(r0, axis=-1) == 0
        alive_ok = np.all(nr_[~dead] > np.maximum(2e-5, 1e-2 * np.linalg.norm(r0[~dead], axis=-1)))
        edead = np.linalg.norm(e0, axis=-1) == 0
        if not alive_ok or not np.all(ne_[~edead] > np.maximum(2e-5, 1e-2 * np.linalg.norm(e0[~edead], axis=-1))):
            return Outcome(False, ["too small once centred"])
        if dead.any() and not load:
            return Outcome(False, ["silent reference without loading"])
        live = r[~dead]
        floor = CG_ERR if o.get("use_cg_iter") and L > 1 else 0.0
        if len(live):
            T = Tol(live, L, eps, load, bss, 3.0, floor)
            if not T.ok(bss):
                return Outcome(False, ["ill-conditioned"])
        else:
            T = Tol(np.eye(1, case["N"]), L, eps, load, bss, 3.0, floor)
        if bss:
            # every estimate needs a component along the references
            I = oracle.Item(live, e, L) if len(live) else None
            if I is None or np.any(edead) or np.any(I.qJ < 1e-3):
                return Outcome(False, ["estimate without component along the references"])
        tols.append(T)
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    res = api.run(fn, R, E, o, via="mod")
    what = f"{fn} {be} {dt} {o}"
    for m, v in res.m.items():
        if np.isnan(v).any():
            raise Violation(f"{what}: NaN in {m} {fmt(v)}")
        if clamp is not None and m in ("sdr", "sir", "sar") and np.any(np.abs(v) > clamp * (1 + 8 * eps)):
            raise Violation(f"{what}: {m} {fmt(v)} outside of the range of clamp_db")
    # pairwise scores from the pairwise functions
    po = {k: v for k, v in o.items() if k in ("use_cg_iter", "zero_mean", "load_diag")}
    if bss:
        cos = api.run("square_cosine_metrics", R, E, dict(po, filter_length=L, pairwise=True), via="mod").m
        if any(np.isnan(v).any() for v in cos.values()):
            raise Violation(f"{what}: NaN in square_cosine_metrics")
        cs, cj = (np.asarray(cos[k], api.NPD[dt]) for k in ("csdr", "csar"))
        with np.errstate(all="ignore"):
            qi = np.clip(cs / cj, 0, 1).astype(float)
            qs = np.clip(cs.astype(float), 0, 1)
            qj = np.clip(cj.astype(float), 0, 1)
            P = dict(sdr=oracle.db_of(qs, 1 - qs), sir=oracle.db_of(qi, 1 - qi), sar=oracle.db_of(qj, 1 - qj))
        if clamp is not None:
            P = {k: np.clip(v, -clamp, clamp) for k, v in P.items()}
    else:
        P = dict(sdr=api.run("pairwise_sdr_loss", R, E, dict(po, filter_length=L, **({} if clamp is None else dict(clamp_db=clamp))), via="mod").m["sdr"])
    for k, v in P.items():
        if np.isnan(v).any():
            raise Violation(f"{what}: NaN in the pairwise {k} {fmt(v)}")
    hi = np.inf if clamp is None else clamp
    cg = o.get("use_cg_iter") if L > 1 else None
    few = cg is not None and cg < 20  # may not have converged
    worst = 0.0
    for i, b in enumerate(batch_indices(batch)):
        T = tols[i]
        S = P["sdr"][b]
        # limits of the pairwise SDR
        t1, t0 = float(T.sdr(1.0)), float(T.sdr(0.0))
        if not load and perfect[i].any() and not few:
            dl = t1 + float(oracle.d_of_db(hi))  # the range of clamp_db is approached up to rounding
            low = float(oracle.db_of(1 - dl, dl)) - 1e-3
            if np.any(S[perfect[i]] < low):
                raise Violation(f"{what}: item {b}: SDR {fmt(S)} of perfect pairs {perfect[i].tolist()} below {low:.1f} dB")
            if "sar" in P and np.any(P["sar"][b][perfect[i]] < low - 3):
                raise Violation(f"{what}: item {b}: SAR {fmt(P['sar'][b])} of perfect estimates below {low:.1f} dB")
        if none[i].any():
            dz = t0 + float(oracle.d_of_db(hi))
            top = float(oracle.db_of(dz, 1 - dz)) + 1e-3
            if np.any(S[none[i]] > top):
                raise Violation(f"{what}: item {b}: SDR {fmt(S)} of pairs without common component {none[i].tolist()} above {top:.1f} dB")
        if nr == 1 and "sir" in P and cg is None:
            tI = 2 * t1 + 2 * float(T.sar(1.0))
            dI = min(tI * 10, 0.4) + float(oracle.d_of_db(hi))
            q = np.asarray(P["sar"][b])
            okq = oracle.q_of_db(q) > 10 * tI
            if np.any((P["sir"][b] < float(oracle.db_of(1 - dI, dI)) - 1e-3) & okq):
                raise Violation(f"{what}: item {b}: SIR {fmt(P['sir'][b])} with a single reference")
        # listed values and dominance
        if res.target is None:
            if cg is not None:
                continue  # other iterates than those of the pairwise call
            for m, v in res.m.items():
                if m in P:
                    w = np.diagonal(P[m][b]) if v[b].ndim == 1 else P[m][b]
                    worst = max(worst, loose(v[b], w, T, m, eps, f"{what}: item {b}: {m} against the pairwise one", o))
            continue
        wide = nr <= ne
        M = P[res.target][b] if wide else P[res.target][b].T
        n = M.shape[0]
        if res.perm is None:
            got = res.m[res.target][b]
        else:
            p = res.perm[b]
            got = M[np.arange(n), p]
            for m, v in res.m.items():
                Pm = P[m][b] if wide else P[m][b].T
                worst = max(worst, loose(v[b], Pm[np.arange(n), p], T, m, eps, f"{what}: item {b}: {m} against that of the pairs {p.tolist()}", o))
        if M.shape[1] > 6:
            continue
        key = lambda v: (int(np.sum(v == -np.inf)), int(np.sum(v == np.inf)), float(np.sum(v[np.isfinite(v)])))
        g = key(got)
        cap = {True: 55.0, False: 140.0}[dt == "f32"]
        noisy = bool(np.any(np.isfinite(M) & (np.abs(M) > cap)))
        if noisy:
            continue  # huge finite scores are rounding noise
        for q in itertools.permutations(range(M.shape[1]), n):
            c = key(M[np.arange(n), list(q)])
            better = (c[0] <= g[0] and c[1] >= g[1] and (c[0] < g[0] or c[1] > g[1])) or (c[:2] == g[:2] and c[2] > g[2] + 0.05 + (5.0 if dt == "f32" and res.target == "sir" else 0))
            if better:
                raise Violation(f"{what}: item {b}: matching with scores {fmt(got)} although {list(q)} has {fmt(M[np.arange(n), list(q)])} (all pairs {fmt(M)})")
    deg = bool(perfect.any() or none.any() or nr == 1 or "spacing" in case)
    return Outcome(deg, labels_of(case) + ["impulses" if "spacing" in case else "signals", "perfect" if perfect.any() else "no perfect", "limit zero" if none.any() else "no zero",
                   "infinite scores" if any(np.isinf(v).any() for v in P.values()) else "finite scores", "silent reference" if any("silent" in k for k in case.get("rk", [])) else "references alive"], note(res), worst)


def loose(a, b, T, m, eps, what, o):
    """same pair through another function, as squared cosines"""
    t = 4 * (T.sdr(1.0) + (T.sar(1.0) if T.lamJ is not None else 0.0)) + 8 * eps
    if m in ("csdr", "csar"):
        return need(np.abs(a - b), t, what)
    if m == "sir":
        return 0.0 if T.floor else need(np.abs(oracle.q_of_db(a) - oracle.q_of_db(b)), 2e3 * t, what)
    return need(np.abs(oracle.q_of_db(a) - oracle.q_of_db(b)), t, what)

"""Comparison helpers shared by the property modules."""
import numpy as np

import api
import oracle
from core import Violation, Outcome


def fmt(x):
    return np.array2string(np.asarray(x), precision=6, threshold=30, max_line_width=200).replace("\n", "")


def items(x):
    """flattens the batch dimensions"""
    x = np.asarray(x)
    return x


def batch_indices(batch):
    return list(np.ndindex(tuple(batch)))


def need(err, tol, what, detail=""):
    """err <= tol element-wise; returns the worst ratio"""
    err, tol = np.broadcast_arrays(np.asarray(err, float), np.asarray(tol, float))
    bad = ~(err <= tol)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err / np.maximum(tol, 1e-300))), err.shape)
        raise Violation(f"{what}: error {err[i]:.3e} above the tolerance {tol[i]:.3e} (squared-cosine units) at {tuple(int(a) for a in i)} {detail}")
    if err.size == 0:
        return 0.0
    return float(np.max(err / np.maximum(tol, 1e-300)))


def need_db(db, q, d, tol, eps, what):
    """values in dB against a squared cosine q = 1 - d known to `tol`"""
    db = np.asarray(db, float)
    if np.isnan(db).any():
        raise Violation(f"{what}: NaN in {fmt(db)}")
    e = oracle.err_q(db, q, d)
    return need(e, tol + oracle.db_round(db, eps), what, f"got {fmt(db)} dB, expected {fmt(oracle.db_of(q, d))} dB")


def near(a, b, tol, eps, what):
    """two computed values in dB whose squared cosines should agree within tol"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation(f"{what}: shapes {a.shape} and {b.shape}")
    if np.isnan(a).any() or np.isnan(b).any():
        raise Violation(f"{what}: NaN in {fmt(a)} or {fmt(b)}")
    e = oracle.err_q(a, oracle.q_of_db(b), oracle.d_of_db(b))
    return need(e, tol + oracle.db_round(a, eps) + oracle.db_round(b, eps), what, f"{fmt(a)} dB against {fmt(b)} dB")


class Tol:
    """Rounding-error tolerances (squared cosine) for one batch item, from the conditioning of its systems."""

    def __init__(self, ref, L, eps, load=None, joint=True, c=3.0, floor=0.0):
        ref = np.asarray(ref, float)
        self.nr, self.N = ref.shape
        self.L, self.eps, self.c, self.floor = L, eps, c, floor
        self.lam1 = oracle.conditioning(ref, L, load, False)
        self.lamJ = float(oracle.conditioning(ref, L, load, True)) if joint else None
        self.min1 = float(self.lam1.min())

    def ok(self, joint, worst=0.02):
        """well-conditioned enough for the comparison to mean anything"""
        t = oracle.tol_q(1.0, self.min1, self.L, self.eps, self.N, self.c)
        if joint:
            t = max(t, oracle.tol_q(1.0, self.lamJ, self.L * self.nr, self.eps, self.N, self.c))
        return bool(t < worst)

    def sdr(self, q, k=None):
        lam = self.min1 if k is None else self.lam1[k]
        return oracle.tol_q(q, lam, self.L, self.eps, self.N, self.c) + self.floor

    def sar(self, q):
        return oracle.tol_q(q, self.lamJ, self.L * self.nr, self.eps, self.N, self.c) + self.floor

    def sir(self, qs, qj, k=None):
        """q_sir = q_sdr / q_sar"""
        ts, tj = self.sdr(qs, k), self.sar(qj)
        qj = np.maximum(qj, 1e-300)
        t = (ts + tj * np.minimum(qs / qj, 1.0)) / np.maximum(qj - tj, 1e-300)
        return np.where(tj < 0.5 * qj, t, np.inf) + 8 * self.eps


def demean(x):
    return x - x.mean(-1, keepdims=True)


def is_joint(fn):
    return fn in ("bss_eval_sources", "si_bss_eval_sources", "square_cosine_metrics")


# effect of rounding on the iterates of the conjugate gradient method (comparing two runs of it)
CG_FLOOR = {"f32": 2e-4, "f64": 2e-6}
# error of the converged iterates (>= 20 iterations, well-conditioned): the iterations stall when the squared residual
# reaches 1e-6; joint solutions of permutation-solving calls start from a warm point and are first-order in the residual
CG_ERR = 1e-3
CG_ERR_COLD = 2e-5


def cg_sensitivity(case, ref, est):
    """how much rounding errors of the inputs change the iterates (squared cosines), per batch item

    The conjugate gradient can amplify rounding errors without bound on its way; how much it does for these signals is
    measured with the code under test itself, on inputs perturbed by a few ulps."""
    fn, o = case["fn"], case["opts"]
    be, dt = case.get("backend", "np"), case["dtype"]
    keep = {k: o[k] for k in ("use_cg_iter", "zero_mean", "load_diag") if k in o}
    name = "square_cosine_metrics" if is_joint(fn) else "pairwise_sdr_loss"
    oo = dict(keep, filter_length=o.get("filter_length", case["L"]))
    if is_joint(fn):
        oo["pairwise"] = bool(o.get("compute_permutation", o.get("pairwise", True)))
    rng = np.random.default_rng(77)

    def q(r, e):
        m = api.run(name, api.to_backend(r, be, dt), api.to_backend(e, be, dt), oo, via="mod").m
        return [m["csdr"], m["csar"]] if "csdr" in m else [oracle.q_of_db(m["sdr"])]

    try:
        with np.errstate(all="ignore"):
            a = q(ref, est)
            out = {b: 0.0 for b in batch_indices(np.shape(ref)[:-2])}
            for _ in range(2):
                h = 4 * api.EPS[dt]
                c = q(*(x * (1 + h * rng.standard_normal(x.shape)) for x in (ref, est)))
                for b in out:
                    d = max(float(np.max(np.abs(u[b] - v[b]))) for u, v in zip(a, c))
                    out[b] = max(out[b], d) if d == d else out[b]
            return out
    except Exception:
        return None


def problem_tols(case, ref, est, eps=None, c=3.0, floor=0.0, worst=0.02, L=None):
    """Tol per batch item, or None when some item is silent or ill-conditioned"""
    fn, o = case["fn"], case["opts"]
    eps = api.EPS[case["dtype"]] if eps is None else eps
    L = case["L"] if L is None else L
    cg = o.get("use_cg_iter") is not None and L > 1
    out = {}
    sens = None
    for b in batch_indices(np.shape(ref)[:-2]):
        r, e = np.asarray(ref[b], float), np.asarray(est[b], float)
        nr0, ne0 = np.linalg.norm(r, axis=-1), np.linalg.norm(e, axis=-1)
        if o.get("zero_mean"):
            r, e = demean(r), demean(e)
        nr, ne = np.linalg.norm(r, axis=-1), np.linalg.norm(e, axis=-1)
        if np.any(nr < 2e-5) or np.any(ne < 2e-5) or np.any(nr < 1e-2 * nr0) or np.any(ne < 1e-2 * ne0):
            return None
        t = Tol(r, L, eps, o.get("load_diag"), is_joint(fn), c, floor)
        if not t.ok(is_joint(fn), worst):
            return None
        if cg:
            # rounding errors grow along the iterations on ill-conditioned systems
            lam = min(t.min1, t.lamJ if t.lamJ is not None else 1.0)
            cf = CG_FLOOR[case["dtype"]] * max(1.0, (0.01 / max(lam, 1e-9)) ** 2)
            if cf > worst:
                return None
            if sens is None:
                sens = cg_sensitivity(case, np.asarray(ref, float), np.asarray(est, float)) or {}
            cf = max(cf, 30 * sens.get(b, 0.0))
            if cf > worst:
                return None
            t.floor += cf
        t.src = (case, np.asarray(ref[b], float), np.asarray(est[b], float))
        out[b] = t
    return out


def _metric_tol(T, m, A, B, fn):
    """tolerance for metric m given both canonical results of one item (dicts)"""
    qs = None
    if "sdr" in A:
        qs = np.maximum(oracle.q_of_db(A["sdr"]), oracle.q_of_db(B["sdr"]))
    if m == "sdr":
        return 2 * T.sdr(qs)
    if m == "csdr":
        return 2 * T.sdr(np.maximum(A["csdr"], B["csdr"]))
    if m == "csar":
        return 2 * T.sar(np.maximum(A["csar"], B["csar"]))
    qj = np.minimum(oracle.q_of_db(A["sar"]), oracle.q_of_db(B["sar"]))
    if m == "sar":
        return 2 * T.sar(np.maximum(oracle.q_of_db(A["sar"]), oracle.q_of_db(B["sar"])))
    return 2 * T.sir(qs, qj)


def _clamped_tol(opts, A):
    """the clamped SDR and SAR hide the squared cosines that the SIR was computed from"""
    return opts.get("clamp_db") is not None


def interval_sum(v, tol):
    """bounds on a sum of values in dB whose squared cosines are known within tol"""
    v = np.atleast_1d(np.asarray(v, float))
    tol = np.broadcast_to(2 * np.asarray(tol, float) + 1e-12, v.shape)
    q, d = oracle.q_of_db(v), oracle.d_of_db(v)
    with np.errstate(all="ignore"):
        hi = oracle.db_of(np.minimum(q + tol, 1.0), np.maximum(d - tol, 0.0))
        lo = oracle.db_of(np.maximum(q - tol, 0.0), np.minimum(d + tol, 1.0))
        s = 1e-6 * np.sum(np.abs(v[np.isfinite(v)])) + 1e-6
        return float(np.sum(lo)) - s, float(np.sum(hi)) + s


def tie(a, b, tol):
    """two score vectors (dB) whose sums agree within the error of their terms"""
    la, ha = interval_sum(a, tol)
    lb, hb = interval_sum(b, tol)
    return not (la > hb or lb > ha)


def listed_pairs(T, values, perm, target, what):
    """two different permutations with equal scores: each value has to be that of the pair that is listed"""
    if getattr(T, "src", None) is None:
        return
    case, r, e = T.src
    o = case["opts"]
    be = case.get("backend", "np")
    R, E = api.to_backend(r, be, case["dtype"]), api.to_backend(e, be, case["dtype"])
    opts = dict({k: v for k, v in o.items() if k in api.ALL["square_cosine_metrics"][2]}, pairwise=True)
    if "si_" in case["fn"]:
        opts["filter_length"] = 1
    if target == "sir":
        c = api.run("square_cosine_metrics", R, E, opts, via="mod")
        qs, qj = c.m["csdr"], c.m["csar"]
        with np.errstate(all="ignore"):
            q = np.clip(qs / qj, 0.0, 1.0)
        t = T.sir(qs, qj)
    else:
        c = api.run("sdr_loss", R, E, opts)
        q = oracle.q_of_db(c.m["sdr"])
        t = T.sdr(q)
    k = np.arange(len(perm))
    ij = (k, perm) if r.shape[0] <= e.shape[0] else (perm, k)
    v, tol = oracle.db_of(q[ij], 1.0 - q[ij]), 2 * np.broadcast_to(t, q.shape)[ij]
    if o.get("clamp_db") is not None:
        v = np.clip(v, -o["clamp_db"], o["clamp_db"])
    near(values, v, tol + 1e-12, api.EPS[case["dtype"]], f"{what}: {target} against that of the pairs listed by perm {perm.tolist()}")


def compare_item(A, B, T, opts, fn, eps, target, what, permA=None, permB=None):
    """two results of one batch item that should agree; returns (worst ratio, 'same' or 'tie')"""
    worst = 0.0
    fin = opts.get("clamp_db") is not None and "sir" in A
    tie_ok = target is not None and A[target].size > 1
    if permA is not None and not np.array_equal(permA, permB):
        if target is not None and tie(A[target], B[target], _metric_tol(T, target, A, B, fn)):
            listed_pairs(T, A[target], permA, target, what)
            listed_pairs(T, B[target], permB, target, what)
            return worst, "tie"
        raise Violation(f"{what}: permutations {permA.tolist()} and {permB.tolist()} with {target} {fmt(A[target])} against {fmt(B[target])}")
    try:
        for m in A:
            if m in ("csdr", "csar"):
                t = _metric_tol(T, m, A, B, fn)
                worst = max(worst, need(np.abs(A[m] - B[m]), t + 4 * eps, f"{what}: {m}", f"{fmt(A[m])} against {fmt(B[m])}"))
                continue
            t = _metric_tol(T, m, A, B, fn)
            if fin and m == "sir":
                t = _sir_tol_clamped(T, A, B, opts, t)
            worst = max(worst, near(A[m], B[m], t, eps, f"{what}: {m}"))
    except Violation:
        if permA is None and tie_ok and tie(A[target], B[target], _metric_tol(T, target, A, B, fn)):
            return worst, "tie"
        raise
    return worst, "same"


def _sir_tol_clamped(T, A, B, opts, t):
    """with clamping the underlying squared cosines of SDR and SAR may lie outside of the range: use the bound
    q_sar <= eps_c as 'unknown' and skip the SIR there"""
    c = opts["clamp_db"]
    low = (np.asarray(A["sar"]) <= -c + 0.1) | (np.asarray(B["sar"]) <= -c + 0.1)
    return np.where(low, np.inf, t)


def compare(ra, rb, tols, case, what):
    """canonical results of the same problem; tols per batch item"""
    opts, fn = case["opts"], case["fn"]
    eps = api.EPS[case["dtype"]]
    worst, kinds = 0.0, set()
    for b, T in tols.items():
        A = {m: v[b] for m, v in ra.m.items()}
        B = {m: v[b] for m, v in rb.m.items()}
        pa = ra.perm[b] if ra.perm is not None else None
        pb = rb.perm[b] if rb.perm is not None else None
        w, k = compare_item(A, B, T, opts, fn, eps, ra.target, f"{what}, item {b}", pa, pb)
        worst = max(worst, w)
        kinds.add(k)
    return worst, kinds


def labels_of(case):
    o = case["opts"]
    nr, ne = case["n_ref"], case["n_est"]
    return [case["fn"], case["backend"] + "/" + case["dtype"], "cg" if o.get("use_cg_iter") and case["L"] > 1 else "direct",
            "clamp" if "clamp_db" in o else "noclamp", "load" if "load_diag" in o else "noload", "zm" if o.get("zero_mean") else "nozm",
            "batch" + str(len(case["batch"])), "square" if nr == ne else ("wide" if nr < ne else "tall"), "L=1" if case["L"] == 1 else "L>1"]


def informative(res):
    """some metric strictly inside (-40, 60) dB"""
    for m, v in res.m.items():
        if m in ("csdr", "csar"):
            if np.any((v > 1e-4) & (v < 1 - 1e-6)):
                return True
        elif np.any((v > -40) & (v < 60)):
            return True
    return False


def note(res):
    s = " ".join(f"{m}={fmt(v)}" for m, v in res.m.items())
    return s + (f" perm={fmt(res.perm)}" if res.perm is not None else "")

"""Reordering sources reorders results; other estimates do not matter."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C10"
RULE = (
    "A public function with random options on 1-5 references and estimates. Four relations: (reorder) references and estimates permuted at random: every pair keeps its values and the matching is relabelled; "
    "(others) each pair matched by a permutation-solving function keeps its values when its estimate is evaluated with other estimates replaced, and pairwise columns are the same when other estimates are removed; "
    "(subset) pairwise SDR rows are the same when other references are removed; (remix) SAR is unchanged when references are replaced by a well-conditioned invertible mixture of them (direct solver, no loading). "
    "Non-trivial: well-conditioned, at least two channels on the side that is changed, some metric inside (-40, 60) dB."
)
NAMES = gen.WEIGHTED + ["square_cosine_metrics", "square_cosine_metrics", "pairwise_sdr_loss"]
X = lambda rels: st.fixed_dictionaries(dict(rel=st.sampled_from(rels), rseed=gen.SEED))
OTH = ["bss_eval_sources", "bss_eval_sources", "si_bss_eval_sources", "sdr", "sdr_loss", "square_cosine_metrics", "pairwise_sdr_loss"]
SUITES = [
    Suite("reorder", gen.merged(gen.problem(names=NAMES, max_ch=4, max_L=65, max_order=130, max_N=700, max_total=15000), X(["reorder"])), 800, 12000),
    Suite("others", gen.merged(gen.problem(names=OTH, perm=(True,), cg=[None, None, 40], max_ch=4, max_L=65, max_order=130, max_N=700, max_total=12000), X(["others", "others", "subset"])), 800, 12000),
    Suite("remix", gen.merged(gen.problem(names=["bss_eval_sources", "si_bss_eval_sources", "square_cosine_metrics"], cg=[None], load=[None], max_ch=4, max_L=65, max_order=130, max_N=700, max_total=15000), X(["remix"])), 200, 4000),
    Suite("channels", gen.merged(gen.problem(names=NAMES, max_ch=9, max_L=4, max_N=250, max_total=12000), X(["reorder"])), 100, 2500),
    Suite("taps", gen.merged(gen.taps_problem(NAMES, max_order=700), X(["reorder"])), 40, 1000),
    Suite("taps_others", gen.merged(gen.taps_problem(OTH, max_order=700, perm=(True,), cg=[None]), X(["others", "others", "subset"])), 24, 600),
    Suite("long", gen.merged(gen.long_problem(OTH, perm=(True,), cg=[None]), X(["reorder", "others", "others", "subset"])), 50, 1200),
    Suite("bulk", gen.merged(gen.bulk_problem(NAMES), X(["reorder"])), 60, 1500),
    Suite("bulk_others", gen.merged(gen.bulk_problem(OTH, perm=(True,), cg=[None]), X(["others", "others", "subset"])), 30, 600),
    Suite("crowd", gen.merged(gen.crowd_problem(NAMES), X(["reorder"])), 5, 80),
]


def matching(res, b, n_ref, n_est):
    """dict ref -> est"""
    p = res.perm[b]
    if n_ref <= n_est:
        return {k: int(p[k]) for k in range(n_ref)}
    return {int(p[m]): m for m in range(n_est)}


def slot(res, n_ref, n_est, k, m):
    """position of pair (k, m) in the outputs"""
    return k if n_ref <= n_est else m


def check(case):
    ref, est = gen.signals(case)
    tols = problem_tols(case, ref, est)
    if tols is None:
        return Outcome(False, ["ill-conditioned or silent"])
    be, dt, fn, o = case["backend"], case["dtype"], case["fn"], dict(case["opts"])
    nr, ne = case["n_ref"], case["n_est"]
    eps = api.EPS[dt]
    rng = gen.rng_of(case["rseed"], 3)
    rel = case["rel"]
    if rel in ("others", "subset") and o.get("use_cg_iter"):
        # with and without compute_permutation the iterations start from different points
        for T in tols.values():
            T.floor += CG_ERR

    def go(r, e, opts=None, name=None):
        return api.run(name or fn, api.to_backend(r, be, dt), api.to_backend(e, be, dt), o if opts is None else opts, via="mod")

    base = go(ref, est)
    pairwise = fn.startswith("pairwise") or o.get("pairwise", fn == "square_cosine_metrics")
    worst, kinds = 0.0, set()
    changed = False

    def cmp(A, B, b, what, target=None):
        w, k = compare_item(A, B, tols[b], o, fn, eps, target, f"{fn} {be} {dt}: {what}, item {b}")
        kinds.add(k)
        return w

    if rel == "reorder":
        pr, pe = rng.permutation(nr), rng.permutation(ne)
        if base.kind in ("loss", "cos") and not pairwise:
            pe = pr
        if base.kind == "bss" and base.perm is None:
            pe = pr
        new = go(ref[..., pr, :], est[..., pe, :])
        changed = nr > 1 or ne > 1
        for b in tols:
            A = {m: v[b] for m, v in base.m.items()}
            B = {m: v[b] for m, v in new.m.items()}
            if base.kind in ("loss", "cos"):
                A = {m: (v[pr][:, pe] if pairwise else v[pr]) for m, v in A.items()}
                worst = max(worst, cmp(A, B, b, f"references {pr.tolist()} estimates {pe.tolist()}"))
            elif base.perm is None and base.kind == "bss":
                worst = max(worst, cmp({m: v[pr] for m, v in A.items()}, B, b, f"channels {pr.tolist()}"))
            elif base.perm is None:
                # only the values are returned: the outputs follow the side that is not permuted
                P = pr if nr <= ne else pe
                worst = max(worst, cmp({m: v[P] for m, v in A.items()}, B, b, f"references {pr.tolist()} estimates {pe.tolist()}", base.target))
            else:
                m0 = matching(base, b, nr, ne)
                m1 = {int(pr[k]): int(pe[m]) for k, m in matching(new, b, nr, ne).items()}
                P = pr if nr <= ne else pe
                A = {m: v[P] for m, v in A.items()}
                if m0 != m1:
                    if tie(A[base.target], B[base.target], _mt(tols[b], base.target, A, B, fn)):
                        kinds.add("tie")
                        # each side has to give the values of the pairs that it lists
                        listed_pairs(tols[b], base.m[base.target][b], base.perm[b], base.target, f"{fn} {be} {dt}")
                        v, p = np.zeros_like(B[base.target]), np.zeros_like(new.perm[b])
                        v[P], p[P] = B[base.target], (pe if nr <= ne else pr)[new.perm[b]]
                        listed_pairs(tols[b], v, p, base.target, f"{fn} {be} {dt} reordered")
                        continue
                    raise Violation(f"{fn} {be} {dt}: matching {m0} becomes {m1} after reordering, {base.target} {fmt(A[base.target])} against {fmt(B[base.target])}")
                worst = max(worst, cmp(A, B, b, f"references {pr.tolist()} estimates {pe.tolist()}"))
    elif rel == "others" and base.kind in ("loss", "cos") and pairwise:
        keep = np.sort(rng.permutation(ne)[: rng.integers(1, ne + 1)])
        changed = len(keep) < ne
        new = go(ref, est[..., keep, :])
        for b in tols:
            worst = max(worst, cmp({m: v[b][:, keep] for m, v in base.m.items()}, {m: v[b] for m, v in new.m.items()}, b, f"only estimates {keep.tolist()}"))
    elif rel in ("others", "subset") and base.kind in ("bss", "pit"):
        # evaluate each matched pair with the other estimates replaced by unrelated ones / by the same one
        if base.perm is None:
            base = go(ref, est, dict(o, return_perm=True))
        changed = ne > 1
        other = rng.standard_normal(est.shape) * np.linalg.norm(est, axis=-1, keepdims=True)
        if dt == "f32":
            other = other.astype(np.float32).astype(float)
        for b in tols:
            for k, m in matching(base, b, nr, ne).items():
                e = np.repeat(est[b][m : m + 1], nr, axis=0)
                if rng.uniform() < 0.5 and ne >= nr:
                    e = other[b][:nr].copy()
                    e[k] = est[b][m]
                if base.kind == "bss":
                    one = go(ref[b], e, dict(o, compute_permutation=False))
                    v = {mm: x[k : k + 1] for mm, x in one.m.items()}
                else:
                    oo = {kk: vv for kk, vv in o.items() if kk not in ("return_perm", "change_sign")}
                    one = go(ref[b], e, dict(oo, pairwise=False), "sdr_loss" if fn == "sdr" else "si_sdr_loss")
                    v = {mm: x[k : k + 1] for mm, x in one.m.items()}
                s = slot(base, nr, ne, k, m)
                worst = max(worst, cmp({mm: x[b][s : s + 1] for mm, x in base.m.items()}, v, b, f"pair ({k}, {m}) with the other estimates replaced"))
    elif rel == "subset" and base.kind == "loss" and pairwise:
        keep = np.sort(rng.permutation(nr)[: rng.integers(1, nr + 1)])
        changed = len(keep) < nr
        new = go(ref[..., keep, :], est)
        for b in tols:
            worst = max(worst, cmp({m: v[b][keep] for m, v in base.m.items()}, {m: v[b] for m, v in new.m.items()}, b, f"only references {keep.tolist()}"))
    elif rel == "subset" and base.kind == "cos" and pairwise:
        keep = np.sort(rng.permutation(nr)[: rng.integers(1, nr + 1)])
        changed = len(keep) < nr
        new = go(ref[..., keep, :], est)
        for b in tols:
            A = {"csdr": base.m["csdr"][b][keep]}
            worst = max(worst, cmp(A, {"csdr": new.m["csdr"][b]}, b, f"only references {keep.tolist()}"))
    elif rel == "remix":
        changed = nr > 1
        while True:
            M = rng.standard_normal((nr, nr)) + 1.5 * np.eye(nr)
            sv = np.linalg.svd(M, compute_uv=False)
            if sv[0] / sv[-1] < 8:
                break
        nrm = np.linalg.norm(ref, axis=-1, keepdims=True)
        mixed = M @ (ref / np.where(nrm > 0, nrm, 1.0))
        if dt == "f32":
            mixed = mixed.astype(np.float32).astype(float)
        t2 = problem_tols(case, mixed, est)
        if t2 is None:
            return Outcome(False, ["ill-conditioned mixture"])
        new = go(mixed, est)
        for b, T in tols.items():
            T.lamJ = min(T.lamJ, t2[b].lamJ)
            # the mixture is rounded to the working precision
            T.floor += 32 * eps / np.sqrt(T.lamJ)
            key = "csar" if base.kind == "cos" else "sar"
            A, B = base.m[key][b], new.m[key][b]
            if base.kind == "bss" and base.perm is not None:
                # SAR belongs to the estimate: order by estimate
                def by_est(res, v):
                    return {m: v[slot(res, nr, ne, k, m)] for k, m in matching(res, b, nr, ne).items()}
                A, B = by_est(base, A), by_est(new, B)
                common = sorted(set(A) & set(B))
                A, B = np.array([A[m] for m in common]), np.array([B[m] for m in common])
            if key == "sar":
                q = np.maximum(oracle.q_of_db(A), oracle.q_of_db(B))
                worst = max(worst, near(A, B, 2 * T.sar(q), eps, f"{fn} {be} {dt}: SAR after remixing the references, item {b}"))
            else:
                worst = max(worst, need(np.abs(A - B), 2 * T.sar(np.maximum(A, B)), f"{fn} {be} {dt}: coh_sar after remixing, item {b}"))
    else:
        return Outcome(False, ["not applicable"])
    return Outcome(changed and informative(base), labels_of(case) + sorted(kinds) + [rel], note(base), worst)


def _mt(T, m, A, B, fn):
    from common import _metric_tol

    return _metric_tol(T, m, A, B, fn)

"""torch linear_sum_assignment returns an optimal assignment."""
import itertools

import numpy as np
import torch
from hypothesis import strategies as st
from scipy.optimize import linear_sum_assignment as scipy_lsa

import api, gen
from common import *
from core import Suite, Outcome, Violation

ID = "C19"
CPU_LIMIT = 20
RULE = (
    "Cost matrices from 1x1 to 16x16 (suite large: 100x60), wide and tall, float32, float64 and int64, of 18 structures: Gaussian, small integers and bits (ties), constant, products of ramps and sums of row and column potentials (worst cases of the algorithm and ties), "
    "entries spanning 12 orders of magnitude, large offsets, values one ulp or any small relative amount apart, block structure, hidden permutations, dB scores; whole matrices scaled by 1e-20 to 1e25; small explicit integer matrices drawn element by element; contiguous, transposed, strided or broadcast storage. "
    "The total cost (float64, exact values) must equal the optimum of scipy's solver (and of exhaustive search up to 5x5), rows strictly increasing, columns distinct, argument unchanged. Suite invalid: NaN or 0, 1, 3 dimensions: ValueError. "
    "Non-trivial: at least 2x2 and choosing each row's cheapest column is not already an assignment (invalid inputs always)."
)
KINDS = ["gauss", "int3", "int10", "bits", "const", "ramp", "ramp-", "potential", "potnoise", "magnitude", "offset", "ulp", "block", "hidden", "db", "stairs", "near", "smallgap"]
BIG = st.fixed_dictionaries(dict(seed=gen.SEED, kind=st.sampled_from(KINDS), r=st.integers(1, 16), c=st.integers(1, 16), dtype=st.sampled_from(["f32", "f64", "i64"]),
                                 layout=st.sampled_from(["C", "T", "step", "bcast"]), scale=st.sampled_from([0] * 6 + [-3, -7, -8, -10, -14, -20, 5, 12, 25])))
SQUARE = BIG.flatmap(lambda d: st.integers(1, 14).map(lambda n: dict(d, r=n, c=n)))


@st.composite
def explicit(draw):
    r, c = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    v = st.integers(0, draw(st.sampled_from([1, 2, 3, 9]))) if draw(st.booleans()) else st.sampled_from([-1e3, -1.5, 0.0, 0.5, 1.0, 7.25, 1e3])
    return dict(matrix=draw(st.lists(st.lists(v, min_size=c, max_size=c), min_size=r, max_size=r)), dtype=draw(st.sampled_from(["f32", "f64"])), layout=draw(st.sampled_from(["C", "T"])))


INVALID = st.fixed_dictionaries(dict(invalid=st.sampled_from(["nan", "nan", "nan", 0, 1, 3]), r=st.integers(1, 7), c=st.integers(1, 7), seed=gen.SEED, dtype=st.sampled_from(["f32", "f64"])))
LARGE = BIG.flatmap(lambda d: st.tuples(st.integers(1, 60), st.sampled_from([1, 2, 3, 7, 16, 17, 31, 32, 33, 48, 64, 65, 100]), st.booleans()).map(lambda t: dict(d, r=t[t[2]], c=t[1 - t[2]])))
SUITES = [Suite("large", LARGE, 60, 1500), Suite("explicit", explicit(), 2400, 40000), Suite("structured", BIG, 1100, 20000), Suite("square", SQUARE, 700, 12000), Suite("invalid", INVALID, 200, 2000)]


def matrix(case):
    if "matrix" in case:
        return np.array(case["matrix"], dtype=float)
    rng = gen.rng_of(case["seed"], 19)
    r, c, kind = case["r"], case["c"], case["kind"]
    i, j = np.arange(r)[:, None], np.arange(c)[None, :]
    if kind == "gauss":
        C = rng.standard_normal((r, c))
    elif kind == "int3":
        C = rng.integers(0, 3, (r, c))
    elif kind == "int10":
        C = rng.integers(-5, 6, (r, c))
    elif kind == "bits":
        C = rng.uniform(size=(r, c)) < rng.uniform(0.1, 0.9)
    elif kind == "const":
        C = np.full((r, c), float(rng.integers(-3, 4)))
    elif kind == "ramp":
        C = (i + 1.0) * (j + 1)
    elif kind == "ramp-":
        C = (i + 1.0) * (c - j)
    elif kind == "potential":
        C = rng.integers(0, 5, (r, 1)) + rng.integers(0, 5, (1, c))
    elif kind == "potnoise":
        C = 10 * rng.standard_normal((r, 1)) + 10 * rng.standard_normal((1, c)) + 0.1 * rng.standard_normal((r, c))
    elif kind == "magnitude":
        C = rng.choice([-1, 1], (r, c)) * 10 ** rng.uniform(-6, 6, (r, c))
    elif kind == "offset":
        C = 1e4 + rng.standard_normal((r, c))
    elif kind == "ulp":
        C = 1 + np.finfo(api.NPD.get(case["dtype"], np.float64)).eps * rng.integers(0, 4, (r, c))
    elif kind == "block":
        b = int(rng.integers(1, 4))
        C = rng.integers(0, 4, (r, c)) + 100.0 * ((i // b) != (j // b))
    elif kind == "hidden":
        C = rng.uniform(1, 2, (r, c))
        p = rng.permutation(max(r, c))
        for k in range(min(r, c)):
            C[(k, p[k] % c) if r <= c else (p[k] % r, k)] = 0
    elif kind == "db":
        C = np.clip(10 * rng.standard_normal((r, c)) - 5, -60, 60)
        if rng.uniform() < 0.5:
            C[rng.uniform(size=(r, c)) < 0.4] = 60
            C[rng.uniform(size=(r, c)) < 0.2] = -60
    elif kind == "near":
        C = 1 + 10.0 ** -rng.integers(2, 12) * rng.standard_normal((r, c))
    elif kind == "smallgap":
        # integers with ties, separated by far smaller amounts
        C = rng.integers(0, 3, (r, c)) + 10.0 ** -rng.integers(3, 11) * rng.uniform(size=(r, c))
    else:
        C = np.minimum(i, j) + 0.0
    C = np.asarray(C, float)
    p = rng.permutation(r)
    if rng.uniform() < 0.3:
        C = C[p]
    return C


def check_invalid(case):
    rng = gen.rng_of(case["seed"], 20)
    r, c = case["r"], case["c"]
    if case["invalid"] == "nan":
        A = rng.standard_normal((r, c))
        A[rng.integers(0, r), rng.integers(0, c)] = np.nan
    else:
        A = rng.standard_normal((2, r, c)[: case["invalid"]])
    t = torch.as_tensor(np.asarray(A, api.NPD[case["dtype"]]))
    from fast_bss_eval.torch.hungarian import linear_sum_assignment as f
    try:
        x = f(t)
    except ValueError:
        return Outcome(True, [f"invalid {case['invalid']}"], "ValueError")
    except Exception as e:
        raise Violation(f"linear_sum_assignment({A.tolist()}) raised {type(e).__name__}: {e}")
    raise Violation(f"linear_sum_assignment({A.tolist()}) returned {x}")


def check(case):
    from fast_bss_eval.torch.hungarian import linear_sum_assignment as f

    if "invalid" in case:
        return check_invalid(case)
    C = matrix(case)
    dt = case["dtype"]
    if dt == "i64" and case["kind"] in ("potnoise", "magnitude", "ulp", "gauss", "db", "hidden", "near", "smallgap"):
        C = np.rint(C * 16)
    elif dt != "i64" and case.get("scale"):
        C = C * 10.0 ** case["scale"]
    A = np.ascontiguousarray(C.astype({"f32": np.float32, "f64": np.float64, "i64": np.int64}[dt]))
    lay = case["layout"]
    base = torch.from_numpy(A.copy())
    if lay == "T":
        base = base.T.contiguous()
        t = base.T
    elif lay == "step":
        big = torch.full((A.shape[0] * 2, A.shape[1] * 3), -1e6).to(base.dtype)
        big[::2, 1::3] = base
        base, t = big, big[::2, 1::3]
    elif lay == "bcast":
        A = np.broadcast_to(A[:1], A.shape).copy() if case["seed"] % 2 else np.broadcast_to(A[:, :1], A.shape).copy()
        b = torch.from_numpy(A[:1].copy() if case["seed"] % 2 else A[:, :1].copy())
        base, t = b, b.expand(*A.shape)
    else:
        t = base
    before = base.clone()
    what = f"linear_sum_assignment({A.tolist() if A.size <= 40 else A.shape}, {dt}, {lay})"
    out = api.guarded(what, f, t)
    if not torch.equal(base, before):
        raise Violation(f"{what} modified its argument")
    if not isinstance(out, tuple) or len(out) != 2:
        raise Violation(f"{what} returned {type(out)}")
    ri, ci = (api.to_np(x) for x in out)
    r, c = A.shape
    n = min(r, c)
    if ri.shape != (n,) or ci.shape != (n,) or ri.dtype.kind not in "iu" or ci.dtype.kind not in "iu":
        raise Violation(f"{what} returned {ri.tolist()}, {ci.tolist()}")
    if np.any(np.diff(ri) <= 0) or ri.min() < 0 or ri.max() >= r:
        raise Violation(f"{what}: row indices {ri.tolist()}")
    if len(set(ci.tolist())) != n or ci.min() < 0 or ci.max() >= c:
        raise Violation(f"{what}: column indices {ci.tolist()}")
    D = A.astype(np.float64)
    cost = D[ri, ci].sum()
    si, sj = scipy_lsa(D)
    best = D[si, sj].sum()
    if max(r, c) <= 5:
        T = D if r <= c else D.T
        best = min(best, min(T[np.arange(n), list(p)].sum() for p in itertools.permutations(range(max(r, c)), n)))
    eps = {"f32": 2.0**-23, "f64": 2.0**-52, "i64": 2.0**-52}[dt]
    exact = bool(np.all(D == np.rint(D)) and np.abs(D).max() < 1e5)
    tol = 1e-9 if exact else eps * np.abs(D).max() * 4 * n * n + 1e-300
    if not cost <= best + tol:
        raise Violation(f"{what}: cost {cost!r} of {list(zip(ri.tolist(), ci.tolist()))} while {best!r} is possible with {list(zip(si.tolist(), sj.tolist()))}")
    M = D if r <= c else D.T
    nt = n > 1 and len(set(M.argmin(1).tolist())) < n
    return Outcome(nt, ["explicit" if "matrix" in case else case["kind"], dt, "layout " + lay, "square" if r == c else ("wide" if r < c else "tall"), "ties" if len(np.unique(D)) < D.size else "no ties"], f"cost {cost:.6g} optimum {best:.6g}", max(0.0, cost - best) / tol)

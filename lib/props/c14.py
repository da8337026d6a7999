"""torch losses have correct, usable gradients."""
import numpy as np
import torch
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C14"
RULE = (
    "Suite fd: a torch function with random options (solver, loading, zero_mean, clamping) on a random float64 problem, random weights on the returned values, backpropagated to the estimates, the references or both; "
    "the derivative along a random direction (noise plus components along the signals themselves) is compared with a central finite difference extrapolated from three step sizes, whose own spread bounds its error; "
    "cases where the permutation changes or the difference quotient does not settle (iterative solver stopping at another iteration) are set aside. The float32 gradient is compared with the float64 one. "
    "Suites long and taps: the same with 1000 to 5000 samples and with filters of 33 to 300 taps; bulk: up to 12 channels and 257 items; huge: 5000 to 70000 samples; views: through transposed, strided, expanded, sliced views of the leaves. "
    "Suite finite: clamp_db set and estimates that are perfect (up to scale, filtering), silent or mixed, in float32 and float64: gradients must be finite. "
    "Non-trivial: fd, the quotient settles and the derivative is above its error; finite, at least one perfect or silent estimate."
)
NAMES = gen.WEIGHTED + ["square_cosine_metrics", "pairwise_sdr_loss", "pairwise_si_sdr_loss"]
FD = gen.merged(
    gen.problem(names=NAMES, cg=[None, None, None, 1, 3, 5, 12], clamp=[None, None, 60, 80, 25.0, 5], load=[None, None, 1e-6, 1e-3, 0.3], dtypes=("f64",), backends=("pt",),
                max_ch=4, max_L=24, max_order=60, max_N=420, max_total=3000, batches=[[], [], [2], [1, 2]], tex=gen.texture(snr=(-10, 35), spread=(0.0, 0.0, 1.0))),
    st.fixed_dictionaries(dict(wseed=gen.SEED, wrt=st.sampled_from(["est", "ref", "both", "both"]), sparse=st.booleans())),
)
LONGFD = gen.merged(
    gen.long_problem(names=NAMES, max_N=5000, cg=[None, None, 3, 12], clamp=[None, None, 60, 25.0], load=[None, None, 1e-6, 1e-3], dtypes=("f64",), backends=("pt",), min_N=1000, max_order=60, max_total=16000,
                     tex=gen.texture(snr=(-10, 35), spread=(0.0, 0.0, 1.0), kinds=gen.SMOOTH)),
    st.fixed_dictionaries(dict(wseed=gen.SEED, wrt=st.sampled_from(["est", "ref", "both", "both"]), sparse=st.booleans())),
)
TAPSFD = gen.merged(
    gen.taps_problem(names=NAMES, max_N=2500, cg=[None, None, 5, 20], clamp=[None, None, 60], load=[None, None, 1e-6, 1e-3], dtypes=("f64",), backends=("pt",), min_L=33, max_L=300, max_order=300, max_total=6000,
                     tex=gen.texture(snr=(-10, 35), spread=(0.0, 0.0, 1.0), kinds=gen.SMOOTH)),
    st.fixed_dictionaries(dict(wseed=gen.SEED, wrt=st.sampled_from(["est", "ref", "both"]), sparse=st.booleans())),
)
FDX = dict(cg=[None, None, None, 3, 12], clamp=[None, None, 60, 25.0], load=[None, None, 1e-6, 1e-3], dtypes=("f64",), backends=("pt",), tex=gen.texture(snr=(-10, 35), spread=(0.0, 0.0, 1.0), kinds=gen.SMOOTH))
WRT = st.fixed_dictionaries(dict(wseed=gen.SEED, wrt=st.sampled_from(["est", "ref", "both"]), sparse=st.booleans()))
BULKFD = gen.merged(gen.bulk_problem(names=NAMES, **FDX), WRT)
HUGEFD = gen.merged(gen.long_problem(names=NAMES, min_N=5000, max_N=70000, max_L=8, max_order=16, max_ch=2, **FDX), WRT)
VIEWFD = gen.merged(FD, st.fixed_dictionaries(dict(view=st.sampled_from(["t", "step", "flip", "expand", "slice"]))))


@st.composite
def finite(draw, make=gen.problem, **kw):
    c = draw(make(names=["sdr", "sdr_loss", "sdr_pit_loss", "bss_eval_sources", "bss_eval_sources", "si_sdr", "si_sdr_loss", "si_sdr_pit_loss", "si_bss_eval_sources", "pairwise_sdr_loss", "pairwise_si_sdr_loss"],
                         cg=[None, None, 5, 20], clamp=[20, 30.0, 60, 100], load=[None, None, 1e-5, 1e-3], backends=("pt",), **kw))
    bss = "bss" in c["fn"]
    c["estkind"] = draw(st.lists(st.sampled_from(["perfect", "scaled", "delayed", "noisy", "orth"] + ([] if bss else ["silent", "silent"])), min_size=c["n_est"], max_size=c["n_est"]))
    c["wseed"] = draw(gen.SEED)
    return c


SUITES = [Suite("fd", FD, 1000, 20000), Suite("long", LONGFD, 150, 4000), Suite("taps", TAPSFD, 120, 3000), Suite("finite", finite(max_L=17, max_order=50, max_N=500, max_total=4000), 500, 10000),
          Suite("bulk", BULKFD, 50, 1500), Suite("huge", HUGEFD, 24, 400), Suite("views", VIEWFD, 160, 4000), Suite("finite sizes", st.one_of(finite(gen.long_problem, max_N=20000), finite(gen.taps_problem, max_order=300, max_N=2500), finite(gen.bulk_problem)), 40, 800)]
FLOATS = ("sdr", "sir", "sar", "csdr", "csar")


def values(fn, opts, ref, est):
    """the returned floating-point tensors and the permutation if any"""
    raw = api.call_raw(fn, ref, est, opts, via="mod")
    raw = raw if isinstance(raw, tuple) else (raw,)
    fl = [x for x in raw if isinstance(x, torch.Tensor) and x.dtype.is_floating_point]
    pm = [x for x in raw if isinstance(x, torch.Tensor) and not x.dtype.is_floating_point]
    return fl, (pm[0].clone().numpy() if pm else None)


def view(x, how):
    """the same values through a view that autograd has to look through"""
    if how == "t":
        return x.transpose(-1, -2).contiguous().transpose(-1, -2)
    if how == "step":
        return torch.stack((x, x.detach() + 1.0), dim=-1).flatten(-2)[..., ::2]
    if how == "flip":
        return x.flip(-1).flip(-1)
    if how == "expand":
        return x[None].expand((1,) + tuple(x.shape))[0]
    if how == "slice":
        return torch.nn.functional.pad(x, (3, 2, 1, 1))[..., 1:-1, 3:-2]
    return x


def permutation(case, ref, est):
    """permutation behind functions that do not return it"""
    fn, o = case["fn"], case["opts"]
    alias = {"sdr_pit_loss": "sdr", "si_sdr_pit_loss": "si_sdr", "sdr": "sdr", "si_sdr": "si_sdr"}.get(fn)
    if alias is None:
        return None
    oo = dict(api.filter_opts(alias, o), return_perm=True)
    oo.pop("change_sign", None)
    with torch.no_grad():
        return values(alias, oo, ref, est)[1]


def check(case):
    return check_finite(case) if "estkind" in case else check_fd(case)


def check_fd(case):
    fn, o = case["fn"], api.filter_opts(case["fn"], case["opts"])
    ref0, est0 = gen.signals(case)
    rng = gen.rng_of(case["wseed"], 3)
    if problem_tols(case, ref0, est0) is None:
        return Outcome(False, ["ill-conditioned or silent"])
    R0, E0 = torch.from_numpy(ref0.copy()), torch.from_numpy(est0.copy())

    def direction(x, other):
        s = np.linalg.norm(x, axis=-1, keepdims=True)
        o_ = np.linalg.norm(other, axis=-1, keepdims=True)
        u = rng.standard_normal(x.shape) / np.sqrt(x.shape[-1]) * s
        u = u + rng.standard_normal(s.shape) * x
        mixw = rng.standard_normal(x.shape[:-2] + (x.shape[-2], other.shape[-2]))
        u = u + s * np.einsum("...ij,...jn->...in", mixw, other / o_)
        u = u + s * rng.standard_normal(s.shape) / np.sqrt(x.shape[-1])
        return torch.from_numpy(u)

    uR, uE = direction(ref0, est0), direction(est0, ref0)
    if case["wrt"] == "est":
        uR = torch.zeros_like(uR)
    if case["wrt"] == "ref":
        uE = torch.zeros_like(uE)
    R, E = R0.clone(), E0.clone()
    if case["wrt"] != "est":
        R.requires_grad_(True)
    if case["wrt"] != "ref":
        E.requires_grad_(True)
    fl, pm = values(fn, o, view(R, case.get("view")), view(E, case.get("view")))
    ws = []
    for x in fl:
        w = rng.standard_normal(tuple(x.shape))
        if case["sparse"]:
            w = w * (rng.uniform(size=w.shape) < 0.4)
        # values set by rounding (the SIR for one reference) have no meaningful derivative
        w = np.where(np.abs(x.detach().numpy()) > 90, 0.0, w)
        ws.append(torch.from_numpy(np.asarray(w)))
    for x in fl:
        if not torch.isfinite(x).all():
            return Outcome(False, ["infinite values"])
        if not x.requires_grad:
            raise Violation(f"{fn} {o}: a returned value does not require gradients although the inputs do")
    loss = sum((w * x).sum() for w, x in zip(ws, fl))
    leaves = [x for x in (R, E) if x.requires_grad]
    what = f"{fn} {o}"
    grads = api.guarded(what + " backward", torch.autograd.grad, loss, leaves, allow_unused=True)
    for g in grads:
        if g is None:
            raise Violation(f"{what}: no gradient with respect to an input")
        if not torch.isfinite(g).all():
            raise Violation(f"{what}: gradient not finite: {fmt(g.numpy())}")
    an, mag = 0.0, 0.0
    for x, g in zip(leaves, grads):
        u = uR if x is R else uE
        an += float((g * u).sum())
        mag += float((g.abs() * u.abs()).sum())

    p0 = permutation(case, R0, E0) if pm is None else pm

    def f(h):
        with torch.no_grad():
            a, b = R0 + h * uR, E0 + h * uE
            y, p = values(fn, o, a, b)
            p = permutation(case, a, b) if p is None else p
            y = [torch.where(w == 0, torch.zeros_like(x), x) for w, x in zip(ws, y)]
            return float(sum((w * x).sum() for w, x in zip(ws, y))), p, max(float((w * x).abs().sum()) for w, x in zip(ws, y))

    labels = labels_of(case) + ["fd", "wrt " + case["wrt"]]

    def level(h0):
        """None (permutation changes, not settled) or (finite difference, tolerance)"""
        ds, fm = [], 0.0
        for h in (h0, h0 / 2, h0 / 4):
            a, pa, ma = f(h)
            b, pb, mb = f(-h)
            if p0 is not None and not (np.array_equal(pa, p0) and np.array_equal(pb, p0)):
                return None, "permutation changes"
            fm = max(fm, ma, mb)
            ds.append((a - b) / (2 * h))
        e1 = (4 * ds[1] - ds[0]) / 3
        e2 = (4 * ds[2] - ds[1]) / 3
        spread = max(abs(e1 - e2), 0.02 * abs(ds[2] - ds[1]))
        scale = max(abs(an), abs(e2), 1e-3 * mag)
        if spread > 2e-3 * scale + 1e-7 or abs(ds[2] - ds[1]) > 0.05 * scale + 1e-6:
            return None, "quotient does not settle"
        # iterations after convergence only add rounding noise
        return e2, 10 * spread + (1e-3 if o.get("use_cg_iter") else 1e-5) * scale + max(1e-9, 2.5e-14 / h0) * fm + 1e-7

    fd, tol = level(1e-4)
    if fd is None:
        return Outcome(False, labels + [tol])
    if not abs(an - fd) <= tol:
        # the safeguards inside of the iterative solver leave kinks: the derivative is that on the smallest scale
        for h0 in (2e-6, 1e-7):
            fd2, tol2 = level(h0)
            if fd2 is None:
                return Outcome(False, labels + [tol2])
            fd, tol = fd2, tol2
            if abs(an - fd) <= tol:
                labels.append("kink nearby")
                break
    ratio = need(abs(an - fd), tol, f"{what} derivative along a direction of {case['wrt']}: backward gives {an:.9g}, finite differences {fd:.9g}")
    # float32 gradients
    tols = problem_tols(dict(case, dtype="f32"), ref0, est0, worst=2e-4)
    vals = torch.cat([x.detach().reshape(-1) for x in fl])
    if tols is not None and o.get("use_cg_iter") is None and not fn.startswith("square") and float(vals.abs().max()) < 20:
        R3, E3 = R0.float(), E0.float()
        l3 = [x.requires_grad_(True) for x, y in ((R3, R), (E3, E)) if y.requires_grad]
        f3, p3 = values(fn, o, R3, E3)
        p3 = permutation(case, R3.detach(), E3.detach()) if p3 is None else p3
        c = o.get("clamp_db")
        edge = c is not None and bool(((vals.abs() - c).abs() < 1e-2).any())
        if (p0 is None or np.array_equal(p0, p3)) and not edge:
            g3 = api.guarded(what + " float32 backward", torch.autograd.grad, sum((w.float() * x).sum() for w, x in zip(ws, f3)), l3)
            for a, b in zip(g3, grads):
                if a.dtype != torch.float32:
                    raise Violation(f"{what}: gradient of float32 input has type {a.dtype}")
                n = float(b.norm())
                err = float((a.double() - b).norm())
                need(err, 0.02 * n + 1e-3 * mag / max(float(est0.size) ** 0.5, 1.0), f"{what}: float32 gradient against float64 gradient of norm {n:.3g}")
            labels.append("float32 gradient compared")
    return Outcome(abs(an) > 10 * tol, labels, f"derivative {an:.6g}, finite difference {fd:.6g}", ratio)


def check_finite(case):
    fn, o = case["fn"], api.filter_opts(case["fn"], case["opts"])
    ref, est = gen.signals(case)
    rng = gen.rng_of(case["wseed"], 9)
    if problem_tols(case, ref, est, worst=0.1) is None:
        return Outcome(False, ["ill-conditioned or silent"])
    L = case["L"]
    for k, kind in enumerate(case["estkind"]):
        j = k % case["n_ref"]
        r = ref[..., j, :]
        if kind == "perfect":
            est[..., k, :] = r
        elif kind == "scaled":
            est[..., k, :] = -0.37 * r
        elif kind == "delayed":
            d = int(rng.integers(0, min(L, case["N"]))) if "si_" not in fn else 0
            est[..., k, :] = 0
            est[..., k, d:] = 0.5 * r[..., : r.shape[-1] - d]
        elif kind == "silent":
            est[..., k, :] = 0
        elif kind == "orth":
            est[..., k, :] = 0
            at = np.arange(case["N"])
            if is_joint(fn):
                # the SIR is not defined for an estimate orthogonal to all the references
                at = np.flatnonzero(np.all(r.reshape(-1, r.shape[-1]) != 0, axis=0))
                at = at if len(at) else np.arange(case["N"])
            est[..., k, rng.choice(at)] = 1.0
    dt = api.PTD[case["dtype"]]
    R = torch.from_numpy(ref).to(dt).requires_grad_(True)
    E = torch.from_numpy(est).to(dt).requires_grad_(True)
    what = f"{fn} {o} {case['dtype']} estimates {case['estkind']}"
    fl, _ = values(fn, o, R, E)
    for x in fl:
        if not torch.isfinite(x).all():
            raise Violation(f"{what}: value not finite {fmt(x.detach().numpy())}")
    loss = sum((torch.from_numpy(np.asarray(rng.standard_normal(tuple(x.shape)))).to(dt) * x).sum() for x in fl)
    grads = api.guarded(what + " backward", torch.autograd.grad, loss, [R, E])
    for g, n in zip(grads, ("references", "estimates")):
        if not torch.isfinite(g).all():
            raise Violation(f"{what}: gradient to the {n} is not finite")
    return Outcome(any(k != "noisy" and k != "orth" for k in case["estkind"]), labels_of(case) + ["finite"] + ["est " + k for k in set(case["estkind"])], f"gradient norms {[float(g.norm()) for g in grads]}")

"""Inputs are never modified and their memory layout is irrelevant."""
import numpy as np
import torch
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C15"
RULE = (
    "A public function with random options and a random problem; the references and estimates are passed as views with the same values and a random memory layout: contiguous, Fortran order, transposed channel-last storage, every second or third "
    "sample of a larger buffer, reversed storage (numpy), interleaved channels, unaligned bytes (numpy), offset inside a larger buffer, stride-0 broadcast over the batch or the estimates' channels, read-only (numpy), both inputs inside one buffer, "
    "the same object for both, tensors requiring gradients. Every byte of the underlying buffers, gaps included, must be the same after the call (and after backpropagation), and results agree with those of fresh contiguous copies within the rounding-error bound. "
    "Non-trivial: well-conditioned, some metric inside (-40, 60) dB (or identical inputs), at least one input not contiguous or read-only."
)
NAMES = gen.WEIGHTED + ["square_cosine_metrics", "pairwise_sdr_loss", "pairwise_si_sdr_loss"]
LAYOUTS = ["C", "F", "tlast", "step2", "step3", "neg", "chneg", "inter", "unaligned", "offset", "bcast", "chbcast", "batchlast"]
SUITES = [
    Suite("views", gen.merged(gen.problem(names=NAMES, max_L=33, max_order=70, max_N=400, max_total=4000, batches=[[], [], [2], [3], [2, 2], [1, 2]]), st.fixed_dictionaries(dict(
        lr=st.sampled_from(LAYOUTS), le=st.sampled_from(LAYOUTS), ro=st.booleans(), grad=st.booleans()))), 1600, 26000),
    Suite("shared", gen.merged(gen.problem(names=NAMES, max_L=33, max_order=70, max_N=400, max_total=4000, square=True), st.fixed_dictionaries(dict(
        shared=st.sampled_from(["onebuffer", "same", "sameview", "overlap"]), ro=st.booleans(), grad=st.just(False)))), 500, 8000),
    Suite("big", gen.merged(st.one_of(gen.long_problem(NAMES, max_N=20000), gen.taps_problem(NAMES), gen.bulk_problem(NAMES)), st.fixed_dictionaries(dict(
        lr=st.sampled_from(LAYOUTS), le=st.sampled_from(LAYOUTS), ro=st.booleans(), grad=st.booleans()))), 80, 2000),
    Suite("recording", gen.merged(gen.huge_problem(NAMES, dtypes=("f32",), max_L=4, min_N=400000, max_N=1000000, max_total=2000000, batches=[[]]), st.fixed_dictionaries(dict(
        lr=st.sampled_from(["C", "tlast", "tlast", "step2"]), le=st.sampled_from(["C", "tlast", "tlast", "F"]), ro=st.booleans(), grad=st.just(False)))), 12, 200),
]


def lay(x, how, dtype, backend, rng):
    """(view with the values of x, base buffer)"""
    x = np.array(x, dtype=api.NPD[dtype])
    if backend == "pt" and how in ("neg", "chneg", "unaligned"):
        how = "tlast"

    def big(shape):
        return rng.standard_normal(shape).astype(x.dtype)

    if how == "C":
        return x, x
    if how == "F":
        b = np.asfortranarray(x)
        return b, b
    if how == "tlast":
        b = np.ascontiguousarray(np.swapaxes(x, -1, -2))
        return np.swapaxes(b, -1, -2), b
    if how in ("step2", "step3"):
        k = int(how[-1])
        b = big(x.shape[:-1] + (x.shape[-1] * k,))
        b[..., ::k] = x
        return b[..., ::k], b
    if how == "neg":
        b = np.ascontiguousarray(x[..., ::-1])
        return b[..., ::-1], b
    if how == "chneg":
        b = np.ascontiguousarray(x[..., ::-1, :])
        return b[..., ::-1, :], b
    if how == "inter":
        b = big(x.shape[:-2] + (x.shape[-2] * 2, x.shape[-1]))
        b[..., ::2, :] = x
        return b[..., ::2, :], b
    if how == "unaligned":
        b = np.zeros(x.nbytes + 3, np.uint8)
        v = b[3:].view(x.dtype).reshape(x.shape)
        v[...] = x
        return v, b
    if how == "offset":
        b = big(tuple(n + 2 for n in x.shape[-2:]) if x.ndim == 2 else x.shape[:-2] + tuple(n + 2 for n in x.shape[-2:]))
        b[..., 1:-1, 1:-1] = x
        return b[..., 1:-1, 1:-1], b
    if how == "bcast":
        b = np.ascontiguousarray(x[(0,) * (x.ndim - 2)])
        return np.broadcast_to(b, x.shape), b
    if how == "chbcast":
        b = np.ascontiguousarray(x[..., :1, :])
        return np.broadcast_to(b, x.shape), b
    if how == "batchlast":
        b = np.ascontiguousarray(np.moveaxis(x, 0, -1))
        return np.moveaxis(b, -1, 0), b
    raise ValueError(how)


def torch_view(view, base):
    """the same view as a torch tensor on the same memory"""
    tb = torch.from_numpy(base)
    off = view.__array_interface__["data"][0] - base.__array_interface__["data"][0]
    return torch.as_strided(tb.reshape(-1) if base.flags.c_contiguous else tb.permute(*reversed(range(tb.ndim))).reshape(-1), view.shape,
                            tuple(s // view.itemsize for s in view.strides), off // view.itemsize)


def check(case):
    be, dt, fn, o = case["backend"], case["dtype"], case["fn"], case["opts"]
    eps = api.EPS[dt]
    ref, est = gen.signals(case)
    rng = gen.rng_of(case["seed"], 15)
    lr, le = case.get("lr", "C"), case.get("le", "C")
    if lr == "chbcast":
        lr = "bcast"
    if lr == "bcast":
        ref = np.broadcast_to(ref[(0,) * (ref.ndim - 2)], ref.shape)
    if le == "bcast":
        est = np.broadcast_to(est[(0,) * (est.ndim - 2)], est.shape)
    if le == "chbcast":
        est = np.broadcast_to(est[..., :1, :], est.shape)
    sh = case.get("shared")
    if sh in ("same", "sameview"):
        est = ref[..., ::-1, :] if sh == "sameview" else ref
    if sh == "overlap":
        est = np.concatenate([ref[..., 1:], est[..., -1:]], axis=-1)
    tols = problem_tols(case, ref, est)
    if tols is None:
        return Outcome(False, ["ill-conditioned or silent"])

    if sh == "onebuffer":
        b = np.concatenate([ref, est], axis=-2).astype(api.NPD[dt])
        vr, ve = b[..., : ref.shape[-2], :], b[..., ref.shape[-2]:, :]
        bases = [b]
        pair = [(vr, b), (ve, b)]
    elif sh == "same":
        vr = ve = np.array(ref, dtype=api.NPD[dt])
        pair = [(vr, vr), (ve, ve)]
    elif sh == "sameview":
        vr = np.array(ref, dtype=api.NPD[dt])
        if be == "np":
            ve = vr[..., ::-1, :]
            pair = [(vr, vr), (ve, vr)]
        else:
            b = np.concatenate([vr, vr[..., ::-1, :]], axis=-2)
            n = ref.shape[-2]
            pair = [(b[..., :n, :], b), (b[..., n:, :], b)]
    elif sh == "overlap":
        b = np.concatenate([ref, est[..., -1:]], axis=-1).astype(api.NPD[dt])
        pair = [(b[..., :-1], b), (b[..., 1:], b)]
    else:
        pair = [lay(ref, lr, dt, be, rng), lay(est, le, dt, be, rng)]
    (vr, br), (ve, b2) = pair
    plain = lr == "C" and le == "C" and sh is None
    for v, x in ((vr, ref), (ve, est)):
        assert np.array_equal(v, np.asarray(x, v.dtype)), "view construction"
    saved = [br.tobytes(), b2.tobytes()]
    if be == "np":
        R, E = vr, ve
        if case["ro"]:
            R, E = R.view(), E.view()
            R.flags.writeable = E.flags.writeable = False
            if sh == "same":
                E = R
    else:
        R = torch_view(vr, br)
        E = R if sh == "same" else torch_view(ve, b2)
        assert np.array_equal(R.numpy(), vr) and np.array_equal(E.numpy(), ve), "tensor view"
        if case["grad"]:
            R.requires_grad_(True)
            E.requires_grad_(True)
    oo = api.filter_opts(fn, o)
    what = f"{fn} {be} {dt} {oo} references {lr} estimates {le} {sh or ''} {'read-only' if case['ro'] else ''}"
    raw = api.call_raw(fn, R, E, oo, via="mod", what=what)

    def unchanged(when):
        for (v, b), s, n in zip(pair, saved, ("references", "estimates")):
            if b.tobytes() != s:
                raise Violation(f"{what}: the memory of the {n} was modified {when}")

    unchanged("by the call")
    if be == "pt" and (R.requires_grad):
        outs = [x for x in (raw if isinstance(raw, tuple) else (raw,)) if x.dtype.is_floating_point]
        loss = sum(x.sum() for x in outs)
        api.guarded(what + " backward", torch.autograd.grad, loss, [R, E])
        unchanged("by backpropagation")
    a = api.canon(fn, raw, ref.shape[:-2], ref.shape[-2], est.shape[-2], oo, be)
    b = api.run(fn, api.to_backend(ref, be, dt), api.to_backend(est, be, dt), o, via="mod")
    w, kinds = compare(a, b, tols, case, what + " against contiguous copies")
    return Outcome((informative(b) or sh in ("same", "sameview")) and (not plain or (case["ro"] and be == "np")), labels_of(case) + sorted(kinds) + [f"ref {lr}", f"est {le}", f"shared {sh}", "read-only" if case["ro"] and be == "np" else "writeable"], note(a), w)

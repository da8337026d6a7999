"""Uniform access to the functions under test.  Only public names are used."""
import contextlib
import io
import sys

import numpy as np

from core import Violation, HarnessError, REPO

import torch
import fast_bss_eval as F
import fast_bss_eval.numpy as FN
import fast_bss_eval.torch as FT

if not F.__file__.startswith(REPO.rstrip("/") + "/"):
    raise HarnessError(f"fast_bss_eval imported from {F.__file__}, not from {REPO}")

torch.set_num_threads(1)

EPS = {"f32": float(np.finfo(np.float32).eps), "f64": float(np.finfo(np.float64).eps)}
NPD = {"f32": np.float32, "f64": np.float64}
PTD = {"f32": torch.float32, "f64": torch.float64}

# name -> (reference first?, kind, accepted options)
FUNCS = {
    "bss_eval_sources": (True, "bss", ("filter_length", "use_cg_iter", "zero_mean", "clamp_db", "compute_permutation", "load_diag")),
    "sdr": (True, "pit", ("filter_length", "use_cg_iter", "zero_mean", "clamp_db", "load_diag", "return_perm", "change_sign")),
    "sdr_loss": (False, "loss", ("filter_length", "use_cg_iter", "zero_mean", "clamp_db", "load_diag", "pairwise")),
    "sdr_pit_loss": (False, "pitloss", ("filter_length", "use_cg_iter", "zero_mean", "clamp_db", "load_diag")),
    "si_bss_eval_sources": (True, "bss", ("zero_mean", "clamp_db", "compute_permutation", "load_diag")),
    "si_sdr": (True, "pit", ("zero_mean", "clamp_db", "return_perm", "change_sign")),
    "si_sdr_loss": (False, "loss", ("zero_mean", "clamp_db", "pairwise")),
    "si_sdr_pit_loss": (False, "pitloss", ("zero_mean", "clamp_db")),
}
MODULE_FUNCS = {
    "square_cosine_metrics": (True, "cos", ("filter_length", "use_cg_iter", "zero_mean", "pairwise", "load_diag")),
    "pairwise_sdr_loss": (False, "loss", ("filter_length", "use_cg_iter", "zero_mean", "clamp_db", "load_diag")),
    "pairwise_si_sdr_loss": (False, "loss", ("zero_mean", "clamp_db")),
}
ALL = dict(FUNCS, **MODULE_FUNCS)
DEFAULTS = dict(
    filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, load_diag=None,
    compute_permutation=True, return_perm=False, change_sign=False, pairwise=False,
)


def to_backend(x, backend, dtype):
    """contiguous copy of a float64 array in the given backend and precision"""
    a = np.array(x, dtype=NPD[dtype], order="C", copy=True)
    return torch.from_numpy(a) if backend == "pt" else a


def to_np(x):
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().numpy()
    return np.asarray(x)


def guarded(what, f, *args, **kwargs):
    """call the code under test; an exception is a violation of the property at hand"""
    try:
        return f(*args, **kwargs)
    except (Violation, HarnessError, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {str(e)[:300]}") from None


def function(name, backend, via="top"):
    if via == "top" and name in FUNCS:
        return getattr(F, name)
    return getattr(FT if backend == "pt" else FN, name)


def filter_opts(name, opts):
    return {k: v for k, v in opts.items() if k in ALL[name][2]}


def call_raw(name, ref, est, opts, via="top", what=None):
    ref_first = ALL[name][0]
    backend = "pt" if isinstance(ref, torch.Tensor) else "np"
    f = function(name, backend, via)
    a = (ref, est) if ref_first else (est, ref)
    return guarded(what or f"{name}({backend}, {opts})", f, *a, **opts)


class Res:
    """Canonical result: metrics as float64 arrays with the SDR sign convention."""

    __slots__ = ("m", "perm", "kind", "raw", "target", "wide")

    def __init__(self, kind):
        self.kind = kind
        self.m = {}
        self.perm = None
        self.target = None  # the metric whose sum the permutation maximises
        self.wide = True  # True: perm[k] is the estimate of reference k


def canon(name, raw, batch, n_ref, n_est, opts, backend):
    kind = ALL[name][1]
    batch = tuple(batch)
    r = Res(kind)
    r.wide = n_ref <= n_est
    n_out = min(n_ref, n_est)
    ty = torch.Tensor if backend == "pt" else np.ndarray

    def arr(x, shape, label, integer=False):
        if not isinstance(x, ty):
            # numpy scalars for zero-dimensional results would also be wrong: there is always a channel axis
            raise Violation(f"{name}: {label} has type {type(x).__name__}, expected {ty.__name__}")
        a = to_np(x)
        if tuple(a.shape) != tuple(shape):
            raise Violation(f"{name}: {label} has shape {tuple(a.shape)}, expected {tuple(shape)} (options {opts})")
        if integer:
            if a.dtype.kind not in "iu":
                raise Violation(f"{name}: {label} has dtype {a.dtype}, expected integers")
            return a.astype(np.int64)
        if a.dtype.kind != "f":
            raise Violation(f"{name}: {label} has dtype {a.dtype}, expected a real floating-point type")
        return a.astype(np.float64)

    def tup(n):
        if not isinstance(raw, tuple) or len(raw) != n:
            raise Violation(f"{name}: expected a tuple of {n} results with options {opts}, got {type(raw).__name__} {len(raw) if hasattr(raw, '__len__') else ''}")

    if kind == "bss":
        cp = opts.get("compute_permutation", True)
        tup(4 if cp else 3)
        for k, x in zip(("sdr", "sir", "sar"), raw):
            r.m[k] = arr(x, batch + (n_out,), k)
        if cp:
            r.perm = arr(raw[3], batch + (n_out,), "perm", True)
            r.target = "sir"
    elif kind == "pit":
        sign = -1.0 if opts.get("change_sign", False) else 1.0
        if opts.get("return_perm", False):
            tup(2)
            r.m["sdr"] = sign * arr(raw[0], batch + (n_out,), "sdr")
            r.perm = arr(raw[1], batch + (n_out,), "perm", True)
        else:
            r.m["sdr"] = sign * arr(raw, batch + (n_out,), "sdr")
        r.target = "sdr"
    elif kind == "pitloss":
        r.m["sdr"] = -arr(raw, batch + (n_out,), "loss")
        r.target = "sdr"
    elif kind == "loss":
        pw = opts.get("pairwise", False) or name.startswith("pairwise")
        r.m["sdr"] = -arr(raw, batch + ((n_ref, n_est) if pw else (n_ref,)), "loss")
    elif kind == "cos":
        tup(2)
        pw = opts.get("pairwise", True)
        shape = batch + ((n_ref, n_est) if pw else (n_ref,))
        r.m["csdr"] = arr(raw[0], shape, "coh_sdr")
        r.m["csar"] = arr(raw[1], shape, "coh_sar")
    if r.perm is not None:
        flat = r.perm.reshape(-1, n_out)
        top = max(n_ref, n_est)
        for row in flat:
            if len(set(row.tolist())) != n_out or row.min() < 0 or row.max() >= top:
                raise Violation(f"{name}: perm {row.tolist()} is not a one-to-one matching of {n_ref} references and {n_est} estimates")
    return r


def run(name, ref, est, opts, via="top"):
    """call and canonicalise; ref and est are already in the wanted backend"""
    opts = filter_opts(name, opts)
    raw = call_raw(name, ref, est, opts, via)
    backend = "pt" if isinstance(ref, torch.Tensor) else "np"
    return canon(name, raw, tuple(ref.shape[:-2]), ref.shape[-2], est.shape[-2], opts, backend)


@contextlib.contextmanager
def quiet():
    """captures what is printed"""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf

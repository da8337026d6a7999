"""Without pytorch everything still works on numpy arrays."""
import atexit
import os
import pickle
import struct
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

import api, gen
from common import *
from core import Suite, Outcome, Violation, HarnessError, REPO, VERIF

ID = "C20"
RULE = (
    "Any of the eight top-level functions (or the numpy module's) with random options, given as keywords or positionally, on a random numpy problem (float32, float64, integers, errors included), executed in a second interpreter where torch is missing (ModuleNotFoundError), fails to load (ImportError), "
    "is disabled in sys.modules, or where torch is present but the optional packaging package is missing, or both; the package must import there and the result must equal that of this interpreter, where everything is installed (same exception type for invalid input). "
    "Non-trivial: the second interpreter returned a result with some metric inside (-40, 60) dB, or the same error."
)
MODES = ["missing", "missing", "importerror", "none", "packaging", "packaging-and-torch"]
SUITES = [
    Suite("all", gen.merged(gen.problem(names=gen.TOP, backends=("np",), max_L=24, max_order=60, max_N=500, max_total=6000),
                            st.fixed_dictionaries(dict(mode=st.sampled_from(MODES), via=st.sampled_from(["top", "top", "mod"]), special=st.sampled_from([None] * 6 + ["int", "nan", "mismatch"]), positional=st.booleans()))), 1600, 30000),
    Suite("sizes", gen.merged(st.one_of(gen.long_problem(gen.TOP, backends=("np",), max_N=20000), gen.taps_problem(gen.TOP, backends=("np",), max_order=700), gen.bulk_problem(gen.TOP, backends=("np",))),
                              st.fixed_dictionaries(dict(mode=st.sampled_from(MODES), via=st.just("top"), special=st.sampled_from([None] * 6 + ["int"]), positional=st.booleans()))), 60, 1000),
]
_servers = {}


class Server:
    def __init__(self, mode):
        env = dict(os.environ, PYTHONPATH="")
        self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, "lib", "notorch_server.py"), REPO, mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd="/")
        self.hello = self.recv()

    def recv(self):
        h = self.p.stdout.read(8)
        if len(h) < 8:
            return ("died", f"interpreter ended with {self.p.wait()}")
        return pickle.loads(self.p.stdout.read(struct.unpack("<q", h)[0]))

    def call(self, *x):
        b = pickle.dumps(x)
        try:
            self.p.stdin.write(struct.pack("<q", len(b)) + b)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        return self.recv()

    def close(self):
        self.p.stdin.close()
        self.p.kill()


def server(mode):
    if mode not in _servers:
        _servers[mode] = Server(mode)
    return _servers[mode]


ORDER = {
    "bss_eval_sources": ["filter_length", "use_cg_iter", "zero_mean", "clamp_db", "compute_permutation", "load_diag"],
    "sdr": ["filter_length", "use_cg_iter", "zero_mean", "clamp_db", "load_diag", "return_perm", "change_sign"],
}


def check(case):
    fn, mode, via = case["fn"], case["mode"], case["via"]
    o = api.filter_opts(fn, case["opts"])
    sp = case["special"]
    ref, est = gen.signals(case)
    if sp == "mismatch":
        est = np.concatenate([est, est[..., :1, :] + 0.1], axis=-2)
    R, E = api.to_backend(ref, "np", case["dtype"]), api.to_backend(est, "np", case["dtype"])
    if sp == "int":
        R, E = (np.rint(1000 * x / max(np.abs(x).max(), 1e-30)).astype(np.int16) for x in (R, E))
    if sp == "nan":
        E[..., -1, 0] = np.nan
    if sp is None and problem_tols(case, ref, est) is None:
        return Outcome(False, ["ill-conditioned or silent"])
    args = (R, E) if api.ALL[fn][0] else (E, R)
    kw = dict(o)
    if case["positional"] and fn in ORDER and via == "top":
        # a prefix of the options given by position
        full = dict(api.DEFAULTS, **o)
        args = args + tuple(full[k] for k in ORDER[fn])
        kw = {}
    what = f"{fn} ({via}) {case['dtype']} {o} {sp or ''} in an interpreter with {mode}"
    s = server(mode)
    if s.hello[0] != "ready":
        raise Violation(f"importing fast_bss_eval in an interpreter with {mode}: {s.hello}")
    if not s.hello[1].startswith(REPO.rstrip("/") + "/"):
        raise HarnessError(f"server imported {s.hello[1]}")
    try:
        with np.errstate(all="ignore"):
            here = ("ok", api.function(fn, "np", via)(*args, **kw))
    except Exception as e:
        here = ("raised", f"{type(e).__name__}: {e}")
    there = s.call(fn, via, args, kw)
    if there[0] == "died":
        del _servers[mode]
        raise Violation(f"{what}: {there[1]}")
    labels = labels_of(case) + [mode, via, f"special {sp}", here[0]]
    if here[0] != there[0]:
        raise Violation(f"{what}: {there} while the complete installation gives {here}")
    if here[0] == "raised":
        if here[1].split(":")[0] != there[1].split(":")[0]:
            raise Violation(f"{what}: {there} while the complete installation gives {here}")
        if sp is None:
            raise Violation(f"{what}: {here}")
        return Outcome(True, labels, here[1][:100])
    if sp is not None:
        a, b = ([x] if not isinstance(x, tuple) else list(x) for x in (here[1], there[1]))
        if len(a) != len(b) or any(x.dtype != y.dtype or x.shape != y.shape or not np.allclose(x, y, rtol=1e-6, atol=1e-4, equal_nan=True) for x, y in zip(a, b)):
            raise Violation(f"{what}: {b} against {a}")
        return Outcome(True, labels, fmt(a[0]))
    for x, y in zip(*(([r] if not isinstance(r, tuple) else list(r)) for r in (here[1], there[1]))):
        if type(x) is not type(y) or x.dtype != y.dtype:
            raise Violation(f"{what}: {type(y).__name__} {getattr(y, 'dtype', '')} against {type(x).__name__} {x.dtype}")
    nr, ne = R.shape[-2], E.shape[-2]
    a = api.canon(fn, here[1], ref.shape[:-2], nr, ne, o, "np")
    b = api.canon(fn, there[1], ref.shape[:-2], nr, ne, o, "np")
    w, kinds = compare(a, b, problem_tols(case, ref, est), case, what)
    return Outcome(informative(a), labels + sorted(kinds), note(a), w)

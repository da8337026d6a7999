"""All entry points report the same metric."""
import inspect

import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C04"
RULE = (
    "One random problem (1-5 channels, any filter, batches, all options) evaluated through every entry point that can compute it: sdr with/without return_perm and change_sign, sdr_pit_loss, sdr_loss pairwise and not, pairwise_sdr_loss, bss_eval_sources, "
    "the si_ functions against filter_length=1, top-level against backend module, positional against keyword arguments, and omitted against explicitly passed default options (filter_length=512 included). "
    "Non-trivial: well-conditioned, some metric inside (-40, 60) dB, references and estimates different enough for their order to matter."
)


def rels(problem):
    return gen.merged(problem, st.fixed_dictionaries(dict(rel=st.sampled_from(["sdr", "sdr", "bss", "si", "si", "args", "args"]))))


@st.composite
def default512(draw):
    case = draw(gen.problem(names=["bss_eval_sources"], perm=(True,), cg=[None], load=[None], max_ch=2, max_L=1, square=True, batches=[[]]))
    case["N"] = draw(st.integers(1300, 2500))
    case["L"] = case["opts"]["filter_length"] = 512
    case["rel"] = "default512"
    case["n_ref"] = case["n_est"] = draw(st.integers(1, 2))
    return case


SUITES = [
    Suite("relations", rels(gen.problem(names=["bss_eval_sources"], perm=(True,), max_ch=4, max_L=65, max_order=130, max_N=700, max_total=15000)), 1400, 24000),
    Suite("long", rels(gen.long_problem(names=["bss_eval_sources"], perm=(True,), max_N=30000)), 24, 500),
    Suite("taps", rels(gen.taps_problem(names=["bss_eval_sources"], perm=(True,), max_order=700)), 16, 300),
    Suite("bulk", rels(gen.bulk_problem(names=["bss_eval_sources"], perm=(True,))), 30, 600),
    Suite("default512", default512(), 24, 400),
]


def check(case):
    ref, est = gen.signals(case)
    nr, ne, L = case["n_ref"], case["n_est"], case["L"]
    rel = case["rel"]
    if rel == "si":
        case = dict(case, L=1, opts={k: v for k, v in case["opts"].items() if k != "use_cg_iter"})
        L = 1
        case["opts"]["filter_length"] = 1
    tols = problem_tols(case, ref, est)
    if tols is None:
        return Outcome(False, ["ill-conditioned or silent"])
    be, dt = case["backend"], case["dtype"]
    eps = api.EPS[dt]
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    o = {k: v for k, v in case["opts"].items() if k != "compute_permutation"}
    worst = [0.0]
    seen = set()
    interesting = [False]

    def run(fn, opts, via="top"):
        seen.add(fn)
        return api.run(fn, R, E, opts, via)

    def same(A, B, what, fn="sdr", target=None):
        interesting[0] |= informative(A)
        c = dict(case, fn=fn)
        A.target = target
        w, _ = compare(A, B, tols, c, f"{be} {dt}: {what}")
        worst[0] = max(worst[0], w)

    def pick(table, perm, b):
        a = np.arange(min(nr, ne))
        k, j = (a, perm) if nr <= ne else (perm, a)
        return table[b][k, j]

    so = {k: v for k, v in o.items() if k in ("zero_mean", "clamp_db")}
    if rel == "sdr":
        full = run("sdr", dict(o, return_perm=True, change_sign=False))
        same(full, run("sdr", dict(o, return_perm=True, change_sign=True)), "sdr against sdr with change_sign", target="sdr")
        full2 = api.Res("pit"); full2.m = dict(full.m)
        same(full2, run("sdr", o), "sdr with and without return_perm", target="sdr")
        same(full2, run("sdr_pit_loss", o), "sdr against sdr_pit_loss", target="sdr")
        pw = run("sdr_loss", dict(o, pairwise=True))
        same(pw, run("pairwise_sdr_loss", o, "mod"), "sdr_loss(pairwise=True) against pairwise_sdr_loss")
        if nr == ne:
            dg = run("sdr_loss", dict(o, pairwise=False))
            t = api.Res("loss"); t.m["sdr"] = np.diagonal(pw.m["sdr"], axis1=-2, axis2=-1)
            same(t, dg, "diagonal of pairwise sdr_loss against sdr_loss")
            same(dg, run("sdr_loss", o), "sdr_loss(pairwise=False) against the default")
        for b in tols:
            A = {"sdr": pick(pw.m["sdr"], full.perm[b], b)}
            w, _ = compare_item(A, {"sdr": full.m["sdr"][b]}, tols[b], o, "sdr", eps, None, f"{be} {dt}: sdr against pairwise sdr_loss at the reported pairs, item {b}")
            worst[0] = max(worst[0], w)
    elif rel == "bss":
        r = run("bss_eval_sources", dict(o, compute_permutation=True))
        same(r, run("bss_eval_sources", o), "compute_permutation=True against the default", "bss_eval_sources", "sir")
        pw = run("sdr_loss", dict(o, pairwise=True))
        for b in tols:
            A = {"sdr": pick(pw.m["sdr"], r.perm[b], b)}
            w, _ = compare_item(A, {"sdr": r.m["sdr"][b]}, tols[b], o, "sdr", eps, None, f"{be} {dt}: SDR of bss_eval_sources against pairwise sdr_loss, item {b}")
            worst[0] = max(worst[0], w)
        if nr == ne:
            np_ = run("bss_eval_sources", dict(o, compute_permutation=False))
            t = api.Res("loss"); t.m["sdr"] = np_.m["sdr"]
            same(t, run("sdr_loss", o), "bss_eval_sources without permutation against sdr_loss")
            if (np.asarray(r.perm) == np.arange(nr)).all() and "use_cg_iter" not in o:
                t2 = api.Res("bss"); t2.m = dict(r.m)
                same(t2, np_, "bss_eval_sources with the identity found against without permutation", "bss_eval_sources")
        cos = run("square_cosine_metrics", {k: v for k, v in o.items() if k != "clamp_db"}, "mod")
        cos2 = run("square_cosine_metrics", dict({k: v for k, v in o.items() if k != "clamp_db"}, pairwise=True), "mod")
        same(cos, cos2, "square_cosine_metrics default against pairwise=True", "square_cosine_metrics")
    elif rel == "si":
        lo = {k: v for k, v in o.items() if k in ("load_diag",)}
        a, b_ = run("si_bss_eval_sources", dict(so, **lo)), run("bss_eval_sources", dict(so, filter_length=1, **lo))
        same(a, b_, "si_bss_eval_sources against bss_eval_sources(filter_length=1)", "bss_eval_sources", "sir")
        if nr == ne:
            same(run("si_bss_eval_sources", dict(so, compute_permutation=False, **lo)), run("bss_eval_sources", dict(so, filter_length=1, compute_permutation=False, **lo)),
                 "si_bss_eval_sources against bss_eval_sources(filter_length=1) without permutation", "bss_eval_sources")
            same(run("si_sdr_loss", dict(so, pairwise=False)), run("sdr_loss", dict(so, filter_length=1, pairwise=False)), "si_sdr_loss against sdr_loss(filter_length=1)")
            same(run("si_sdr_loss", so), run("sdr_loss", dict(so, filter_length=1)), "si_sdr_loss default against sdr_loss default")
        same(run("si_sdr", dict(so, return_perm=True)), run("sdr", dict(so, filter_length=1, return_perm=True)), "si_sdr against sdr(filter_length=1)", target="sdr")
        same(run("si_sdr", dict(so, change_sign=True)), run("sdr", dict(so, filter_length=1)), "si_sdr(change_sign) against sdr(filter_length=1)", target="sdr")
        same(run("si_sdr_pit_loss", so), run("sdr_pit_loss", dict(so, filter_length=1)), "si_sdr_pit_loss against sdr_pit_loss(filter_length=1)", target="sdr")
        same(run("si_sdr_loss", dict(so, pairwise=True)), run("sdr_loss", dict(so, filter_length=1, pairwise=True)), "si_sdr_loss(pairwise) against sdr_loss(filter_length=1, pairwise)")
        same(run("pairwise_si_sdr_loss", so, "mod"), run("sdr_loss", dict(so, filter_length=1, pairwise=True)), "pairwise_si_sdr_loss against sdr_loss(filter_length=1, pairwise)")
        if L > 0 and "load_diag" not in o:
            same(run("si_sdr", so, "mod"), run("si_sdr", so), "backend si_sdr against top-level", target="sdr")
    elif rel in ("args", "default512"):
        sq = nr == ne
        for fn, (rf, kind, names) in api.ALL.items():
            if L > 33 and fn not in ("sdr_loss", "bss_eval_sources", "sdr"):
                continue
            opts = {k: v for k, v in o.items() if k in names}
            if rel == "default512":
                opts.pop("filter_length", None)
            elif "filter_length" in names:
                opts["filter_length"] = L
            full = {k: opts.get(k, api.DEFAULTS[k]) for k in names}
            if fn == "square_cosine_metrics":
                full["pairwise"] = True
            if fn in ("sdr_loss", "si_sdr_loss"):
                if not sq:
                    full["pairwise"] = opts["pairwise"] = True
            tg = {"bss": "sir", "pit": "sdr", "pitloss": "sdr"}.get(kind)
            c2 = dict(case, L=1 if "si_" in fn else L, fn=fn, opts=full)
            t2 = problem_tols(c2, ref, est)
            if t2 is None:
                continue

            def cmp(A, B, what):
                interesting[0] |= informative(A)
                A.target = tg
                w, _ = compare(A, B, t2, c2, f"{fn} {be} {dt}: {what}")
                worst[0] = max(worst[0], w)

            a = run(fn, opts, "top")
            cmp(a, run(fn, opts, "mod"), "top-level against backend module")
            cmp(a, run(fn, full, "top"), f"options left out against their documented defaults {full}")
            cmp(a, run(fn, full, "mod"), f"options left out against their documented defaults {full} (backend module)")
            # positional
            f = api.function(fn, be, "top")
            args = (R, E) if rf else (E, R)
            raw = api.guarded(f"{fn} with positional options", f, *args, *[full[k] for k in names])
            cmp(a, api.canon(fn, raw, ref.shape[:-2], nr, ne, full, be), f"options by position in the documented order {names}")
            raw = api.guarded(f"{fn} with keyword arguments", f, ref=R, est=E, **opts)
            cmp(a, api.canon(fn, raw, ref.shape[:-2], nr, ne, full, be), "signals by keyword")
    return Outcome(interesting[0], [rel, be + "/" + dt, "square" if nr == ne else "rect", "batch%d" % len(case["batch"])] + sorted(seen), f"{rel}: {len(seen)} functions", worst[0])

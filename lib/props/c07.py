"""Allowed filtering is not distortion; known mixtures get known scores."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C07"
RULE = (
    "Suite mixture: references and noise live in disjoint time segments separated by at least two filter lengths (so they are exactly orthogonal at all lags), every estimate is a sum of filtered references (pure delay 0..L-1, random or decaying FIR of at most L taps) "
    "and noise with energies from -30 to 50 dB; SDR, SIR and SAR computed from the contributions' energies are the oracle for bss_eval_sources, sdr, sdr_loss and sdr_pit_loss. "
    "Suite short: a short reference followed by silence (2 samples to 3 filter lengths) filtered by an FIR of at most L taps that fits in the signals, alone or with noise out of the reach of the filter, same oracle (all of the filter is needed although the signals can be shorter than 2L). Suite pure: estimates that are only filtered references must reach an SDR at the level of rounding. Suite prescribed: for arbitrary correlated references (followed by L - 1 zeros), estimates are assembled from a target, an interference and an artifact part (from the explicit projections) of chosen energies, -20 to 90 dB apart; the chosen energies are the oracle for bss_eval_sources, sdr_loss and square_cosine_metrics. Suite monotone: the pairwise SDR for filters L1 < L2 never decreases. "
    "Non-trivial: well-conditioned; mixture: at least two contributions in some estimate; pure: more than one tap; monotone: some increase above rounding."
)


@st.composite
def mixture(draw, pure=False):
    n = draw(st.integers(1, 5))
    L = draw(st.sampled_from([1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 24, 32] if n < 4 else [1, 2, 3, 5, 8, 11]))
    seg = draw(st.integers(3 * L + 8, 3 * L + 120))
    if draw(st.integers(0, 5)) == 0:
        L, n = draw(st.sampled_from([33, 48, 63, 64, 65, 67, 81, 100, 127, 128, 129, 171, 200, 255, 256, 257, 301, 512])), draw(st.sampled_from([1, 1, 2]))
        seg = 3 * L + draw(st.integers(10, 500))
    return dict(
        suite="pure" if pure else "mixture", n=n, L=L, seg=seg, seed=draw(gen.SEED), kind=draw(st.sampled_from(["white", "uniform", "ar", "int"])),
        fir=draw(st.sampled_from(["delay", "delay", "maxdelay", "decay", "random"])),
        lo=draw(st.sampled_from([-30, -10, 0])), hi=draw(st.sampled_from([0, 20, 30, 50])), zero=draw(st.booleans()),
        dtype=draw(gen.dtype()), backend=draw(gen.backend()), cg=draw(st.sampled_from([None, None, None, 30])), spread=draw(st.sampled_from([0, 0, 2])),
        batch=draw(st.sampled_from([[], [], [2]])),
    )


@st.composite
def short(draw):
    """signals hardly longer than the filter: a short reference followed by silence, delayed by up to L - 1 samples"""
    L = draw(st.sampled_from([2, 3, 4, 5, 8, 12, 16, 17, 24, 31, 32, 48, 64, 65, 100, 129]))
    return dict(
        suite="short", n=1, L=L, seg=draw(st.one_of(st.integers(2, 3 * L + 8), st.sampled_from([2, max(2, L // 4), max(2, L // 2), L]))), seed=draw(gen.SEED), kind=draw(st.sampled_from(["white", "uniform", "ar", "int"])),
        fir=draw(st.sampled_from(["delay", "maxdelay", "maxdelay", "decay", "random"])), tail=draw(st.integers(0, 12)), noise=draw(st.booleans()),
        dtype=draw(gen.dtype()), backend=draw(gen.backend()), cg=draw(st.sampled_from([None, None, None, 60])),
        batch=draw(st.sampled_from([[], [], [2], [1, 3]])),
    )


@st.composite
def prescribed(draw, long=False):
    n = draw(st.integers(1, 3 if long else 5))
    L = draw(st.sampled_from([64, 100, 128, 129, 200, 257] if long else [1, 2, 3, 4, 5, 8, 12, 16, 17, 24, 31, 32, 33]))
    if not long:
        L = min(L, 96 // n)
    else:
        L = min(L, 400 // n)
    return dict(
        suite="prescribed", n=n, L=L, N=int(n * L * 1.2) + L + draw(st.integers(6, 300)), seed=draw(gen.SEED), kind=draw(st.sampled_from(["white", "uniform", "ar", "int", "speech"])),
        corr=draw(st.sampled_from([0, 0.3, 0.6])), tsir=draw(st.sampled_from([[-20, 20], [0, 40], [20, 90]])), tsar=draw(st.sampled_from([[-20, 20], [0, 40], [20, 90]])), absent=draw(st.sampled_from([None, None, "interference", "artifacts"])),
        dtype=draw(gen.dtype()), backend=draw(gen.backend()), cg=draw(st.sampled_from([None] * 5 + [40])), spread=draw(st.sampled_from([0, 0, 2])), batch=draw(st.sampled_from([[], [], [2], [1, 3]])),
    )


def mono():
    return gen.merged(
        gen.dims(bss=False, max_ch=3, max_L=33, max_N=600), gen.texture(),
        st.fixed_dictionaries(dict(suite=st.just("monotone"), backend=gen.backend(), dtype=gen.dtype(), L2=st.integers(1, 60), fn=st.sampled_from(["sdr_loss", "bss"]))))


SUITES = [
    Suite("mixture", mixture(), 1200, 20000),
    Suite("pure", mixture(pure=True), 300, 8000),
    Suite("short", short(), 400, 8000),
    Suite("monotone", mono(), 400, 8000),
    Suite("prescribed", prescribed(), 1500, 16000),
    Suite("prescribed_long", prescribed(long=True), 80, 1200),
]


def filt(rng, mode, L):
    if mode == "delay":
        h = np.zeros(L); h[rng.integers(0, L)] = 1.0
    elif mode == "maxdelay":
        h = np.zeros(L); h[L - 1] = -1.0
    elif mode == "decay":
        h = rng.standard_normal(L) * 0.7 ** np.arange(L); h[0] += 1.5
    else:
        h = rng.standard_normal(L)
    return h


def build(case):
    n, L, seg = case["n"], case["L"], case["seg"]
    pure = case["suite"] == "pure"
    rng = gen.rng_of(case["seed"])
    gap = 2 * L + 1
    N = (n + 1) * (seg + gap)
    batch = tuple(case["batch"])
    ref = np.zeros(batch + (n, N))
    est = np.zeros(batch + (n, N))
    energies = np.zeros(batch + (n, n + 1))  # per estimate: energy of each reference's part and of the noise
    order = np.zeros(batch + (n,), int)
    for b in batch_indices(batch):
        x = gen.source(rng, case["kind"], n + 1, seg)
        for k in range(n):
            ref[b][k, k * (seg + gap) : k * (seg + gap) + seg] = x[k]
        order[b] = rng.permutation(n)
        for m in range(n):
            k = order[b][m]
            amp = 10 ** (rng.uniform(case["lo"], case["hi"], size=n + 1) / 20.0)
            amp[k] = 10 ** (rng.uniform(0, max(0.0, float(case["hi"]))) / 20)
            if case["zero"]:
                # some contributions are absent
                amp[np.where(rng.uniform(size=n + 1) < 0.4)[0]] = 0.0
                amp[k] = 1.0
            if pure:
                amp[:] = 0.0
                amp[k] = 1.0
            for j in range(n):
                if amp[j] == 0:
                    continue
                c = np.convolve(x[j], filt(rng, case["fir"], L))
                nn = np.linalg.norm(c)
                if nn < 1e-6:
                    return None
                c = c * (amp[j] / nn)
                s = j * (seg + gap)
                est[b][m, s : s + len(c)] += c
                energies[b][m, j] = np.sum(c**2)
            if amp[n] > 0:
                w = rng.standard_normal(seg)
                w *= amp[n] / np.linalg.norm(w)
                s = n * (seg + gap)
                est[b][m, s : s + seg] = w
                energies[b][m, n] = amp[n] ** 2
    if case["spread"]:
        ref = ref * 10 ** rng.uniform(-case["spread"], case["spread"], size=ref.shape[:-1] + (1,))
        est = est * 10 ** rng.uniform(-case["spread"], case["spread"], size=est.shape[:-1] + (1,))
    if case["dtype"] == "f32":
        ref, est = ref.astype(np.float32).astype(float), est.astype(np.float32).astype(float)
    return ref, est, energies, order


def check(case):
    if case["suite"] == "monotone":
        return check_mono(case)
    if case["suite"] == "short":
        return check_short(case)
    if case["suite"] == "prescribed":
        return check_prescribed(case)
    built = build(case)
    if built is None:
        return Outcome(False, ["degenerate"])
    ref, est, en, order = built
    n, L, be, dt = case["n"], case["L"], case["backend"], case["dtype"]
    eps = api.EPS[dt]
    batch = tuple(case["batch"])
    if np.any(np.linalg.norm(ref, axis=-1) < 1e-4) or np.any(np.linalg.norm(est, axis=-1) < 1e-4):
        return Outcome(False, ["silent"])
    floor = CG_ERR_COLD if case["cg"] and L > 1 else 0.0
    # rounding of the estimates to the working precision adds incoherent noise
    floor = floor + 4 * eps
    tols = {b: Tol(ref[b], L, eps, floor=floor) for b in batch_indices(batch)}
    if not all(t.ok(True) for t in tols.values()):
        return Outcome(False, ["ill-conditioned"])
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    o = dict(filter_length=L)
    if case["cg"]:
        o["use_cg_iter"] = case["cg"]
    pw = api.run("sdr_loss", R, E, dict(o, pairwise=True))
    bs = api.run("bss_eval_sources", R, E, o)
    sd = api.run("sdr", R, E, dict(o, return_perm=True))
    worst = 0.0
    for b, T in tols.items():
        tot = en[b].sum(-1)  # (est,)
        qs = (en[b][:, :n] / tot[:, None]).T  # (ref, est)
        ds = np.stack([(tot - en[b][:, k]) / tot for k in range(n)])
        ds = np.stack([sum(en[b][:, j] for j in range(n + 1) if j != k) / tot if n else 0 for k in range(n)])
        qj = en[b][:, :n].sum(-1) / tot
        dj = en[b][:, n] / tot
        refsum = en[b][:, :n].sum(-1)
        qi = qs * tot / refsum
        di = np.stack([sum([en[b][:, j] for j in range(n) if j != k], np.zeros(n)) / refsum for k in range(n)])
        w = f"{be} {dt} item {b} "
        worst = max(worst, need_db(pw.m["sdr"][b], qs, ds, T.sdr(qs), eps, w + "pairwise SDR against the built energies"))
        for nm, r in (("bss_eval_sources", bs), ("sdr", sd)):
            k, p = np.arange(n), r.perm[b]
            worst = max(worst, need_db(r.m["sdr"][b], qs[k, p], ds[k, p], T.sdr(qs[k, p]), eps, w + nm + " SDR against the built energies"))
        k, p = np.arange(n), bs.perm[b]
        if floor > 1e-5:
            T.floor = CG_ERR
        worst = max(worst, need_db(bs.m["sar"][b], qj[p], dj[p], T.sar(qj[p]), eps, w + "SAR against the built energies"))
        worst = max(worst, need_db(bs.m["sir"][b], qi[k, p], di[k, p], T.sir(qs[k, p], qj[p]), eps, w + "SIR against the built energies"))
    nontrivial = bool((np.sum(en > 0, axis=-1) > 1).any()) if case["suite"] == "mixture" else L > 1
    return Outcome(nontrivial, [case["suite"], be + "/" + dt, "cg" if case["cg"] and L > 1 else "direct", "n=%d" % n, "fir:" + case["fir"], "batch%d" % len(batch)],
                   f"SDR {fmt(bs.m['sdr'])} SIR {fmt(bs.m['sir'])} SAR {fmt(bs.m['sar'])}", worst)


def check_short(case):
    L, seg, be, dt = case["L"], case["seg"], case["backend"], case["dtype"]
    eps = api.EPS[dt]
    rng = gen.rng_of(case["seed"], 7)
    batch = tuple(case["batch"])
    # the filtered reference fits in the signals; with noise, so does a segment out of its reach
    N = seg + L - 1 + case["tail"] + (seg + L if case["noise"] else 0)
    ref, est = np.zeros(batch + (1, N)), np.zeros(batch + (1, N))
    en = np.zeros(batch + (2,))
    for b in batch_indices(batch):
        x = gen.source(rng, case["kind"], 1, seg)[0]
        ref[b][0, :seg] = x
        c = np.convolve(x, filt(rng, case["fir"], L))
        est[b][0, : len(c)] = c
        if case["noise"]:
            # orthogonal to all delays of the reference: they end at seg + L - 1
            w = rng.standard_normal(N - seg - L + 1)
            w *= np.linalg.norm(c) * 10 ** rng.uniform(-1.5, 1) / max(np.linalg.norm(w), 1e-9)
            est[b][0, seg + L - 1 :] += w
            en[b][1] = np.sum(w**2)
        en[b][0] = np.sum(c**2)
    if dt == "f32":
        ref, est = ref.astype(np.float32).astype(float), est.astype(np.float32).astype(float)
    if np.any(np.linalg.norm(ref, axis=-1) < 1e-4) or np.any(np.linalg.norm(est, axis=-1) < 1e-4):
        return Outcome(False, ["silent"])
    floor = 4 * eps + (CG_ERR_COLD if case["cg"] and L > 1 else 0.0)
    tols = {b: Tol(ref[b], L, eps, floor=floor) for b in batch_indices(batch)}
    if not all(t.ok(True) for t in tols.values()) or (case["cg"] and min(t.min1 for t in tols.values()) < 0.05):
        return Outcome(False, ["ill-conditioned"])
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    o = dict(filter_length=L)
    if case["cg"]:
        o["use_cg_iter"] = case["cg"]
    worst = 0.0
    for fn, oo in (("sdr_loss", dict(o, pairwise=True)), ("sdr_loss", dict(o, pairwise=False)), ("sdr", o), ("bss_eval_sources", dict(o, compute_permutation=False))):
        got = api.run(fn, R, E, oo)
        for b, T in tols.items():
            q = np.reshape(en[b][0] / en[b].sum(), (1,))
            d = np.reshape(en[b][1] / en[b].sum(), (1,))
            worst = max(worst, need_db(got.m["sdr"][b].reshape(-1), q, d, T.sdr(q), eps, f"{fn} {be} {dt} item {b}, {N} samples, {oo}: SDR against the built energies"))
            if got.kind == "bss":
                worst = max(worst, need_db(got.m["sar"][b].reshape(-1), q, d, T.sar(q), eps, f"{fn} {be} {dt} item {b}, {N} samples, {oo}: SAR against the built energies"))
    return Outcome(L > 1, ["short", be + "/" + dt, "cg" if case["cg"] and L > 1 else "direct", "fir:" + case["fir"], "N < 2L" if N < 2 * L else "N >= 2L", "noise" if case["noise"] else "pure"], f"SDR {fmt(got.m['sdr'])}", worst)


def check_prescribed(case):
    """estimates assembled from a target, an interference and an artifact part of chosen energies, for arbitrary references"""
    n, L, N, be, dt = case["n"], case["L"], case["N"], case["backend"], case["dtype"]
    eps = api.EPS[dt]
    rng = gen.rng_of(case["seed"], 11)
    batch = tuple(case["batch"])
    ref, est = np.zeros(batch + (n, N)), np.zeros(batch + (n, N))
    en = np.zeros(batch + (n, 3))
    for b in batch_indices(batch):
        x = gen.source(rng, case["kind"], n, N - L + 1)
        if case["corr"] and n > 1:
            x = x + case["corr"] * rng.standard_normal((n, n)) @ x / np.sqrt(n)
        # all delays fit in the signals
        r = np.concatenate([x, np.zeros((n, L - 1))], axis=-1)
        if dt == "f32":
            r = r.astype(np.float32).astype(float)
        if np.any(np.linalg.norm(r, axis=-1) < 1e-4):
            return Outcome(False, ["silent"])
        ref[b] = r
        S = [oracle.shifts(u, L)[:N] for u in oracle.unit(r)]
        QJ = np.linalg.qr(np.concatenate(S, axis=1))[0]
        for m in range(n):
            Q = np.linalg.qr(S[m])[0]
            t = S[m] @ rng.standard_normal(L)
            i = np.concatenate(S, axis=1) @ rng.standard_normal(n * L)
            i = i - oracle.project(Q, i[:, None])[:, 0]
            a = rng.standard_normal(N)
            a = a - oracle.project(QJ, a[:, None])[:, 0]
            sir, sar = rng.uniform(*case["tsir"]), rng.uniform(*case["tsar"])
            et = 1.0
            ei = 0.0 if n == 1 or case["absent"] == "interference" else 10 ** (-sir / 10)
            ea = 0.0 if case["absent"] == "artifacts" else (et + ei) * 10 ** (-sar / 10)
            if min(np.linalg.norm(t), np.linalg.norm(i) if ei else 1, np.linalg.norm(a) if ea else 1) < 1e-3:
                return Outcome(False, ["degenerate"])
            en[b][m] = et, ei, ea
            e = t * np.sqrt(et) / np.linalg.norm(t)
            if ei:
                e = e + i * np.sqrt(ei) / np.linalg.norm(i)
            if ea:
                e = e + a * np.sqrt(ea) / np.linalg.norm(a)
            est[b][m] = e * 10.0
    if case["spread"]:
        est = est * 10 ** rng.uniform(-case["spread"], case["spread"], size=est.shape[:-1] + (1,))
        if dt == "f64":
            ref = ref * 10 ** rng.uniform(-case["spread"], case["spread"], size=ref.shape[:-1] + (1,))
    if dt == "f32":
        est = est.astype(np.float32).astype(float)
    if np.any(np.linalg.norm(ref, axis=-1) < 1e-4) or np.any(np.linalg.norm(est, axis=-1) < 1e-4):
        return Outcome(False, ["silent"])
    cg = case["cg"] if L > 1 else None
    # rounding of the estimates adds noise of relative energy eps^2, and its product with the signal
    tols = {b: Tol(ref[b], L, eps, floor=4 * eps + (CG_ERR_COLD if cg else 0.0)) for b in batch_indices(batch)}
    if not all(t.ok(True) for t in tols.values()) or cg and min(min(t.min1, t.lamJ) for t in tols.values()) < 0.05:
        return Outcome(False, ["ill-conditioned"])
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    o = dict(filter_length=L)
    if cg:
        o["use_cg_iter"] = cg
    bs = api.run("bss_eval_sources", R, E, dict(o, compute_permutation=False))
    sl = api.run("sdr_loss", R, E, o)
    pm = api.run("bss_eval_sources", R, E, o)
    cs = api.run("square_cosine_metrics", R, E, dict(o, pairwise=False), via="mod")
    worst = 0.0
    for b, T in tols.items():
        t, i, a = en[b].T
        tot = t + i + a
        qs, ds, qj, dj, qi, di = t / tot, (i + a) / tot, (t + i) / tot, a / tot, t / (t + i), i / (t + i)
        ts, tj, ti = T.sdr(qs), T.sar(qj), T.sir(qs, qj)
        w = f"{be} {dt} {o} item {b}: "
        for nm, r in (("bss_eval_sources without permutation", bs), ("sdr_loss", sl)) + ((("bss_eval_sources", pm),) if np.array_equal(pm.perm[b], np.arange(n)) and not cg else ()):
            worst = max(worst, need_db(r.m["sdr"][b], qs, ds, ts, eps, w + nm + " SDR against the chosen energies"))
            if "sar" in r.m:
                worst = max(worst, need_db(r.m["sar"][b], qj, dj, tj, eps, w + nm + " SAR against the chosen energies"))
                worst = max(worst, need_db(r.m["sir"][b], qi, di, ti, eps, w + nm + " SIR against the chosen energies"))
        worst = max(worst, need(np.abs(cs.m["csdr"][b] - qs), ts + 4 * eps, w + "squared cosine for one reference against the chosen energies"))
        worst = max(worst, need(np.abs(cs.m["csar"][b] - qj), tj + 4 * eps, w + "squared cosine for all references against the chosen energies"))
    return Outcome(case["absent"] is None and n > 1, ["prescribed", be + "/" + dt, "cg" if cg else "direct", "n=%d" % n, "absent: " + str(case["absent"]), "batch%d" % len(batch)],
                   f"SDR {fmt(bs.m['sdr'])} SIR {fmt(bs.m['sir'])} SAR {fmt(bs.m['sar'])}", worst)


def check_mono(case):
    ref, est = gen.signals(case)
    be, dt = case["backend"], case["dtype"]
    eps = api.EPS[dt]
    L1, L2 = sorted((case["L"], case["L2"]))
    if L1 == L2:
        L2 += 1
    if np.any(np.linalg.norm(ref, axis=-1) < 1e-4) or np.any(np.linalg.norm(est, axis=-1) < 1e-4):
        return Outcome(False, ["silent"])
    bss = case["fn"] == "bss" and case["n_ref"] == case["n_est"] and case["N"] > 1.5 * L2 * case["n_ref"]
    tols = {b: Tol(ref[b], L2, eps, joint=bss) for b in batch_indices(case["batch"])}
    if not all(t.ok(bss) for t in tols.values()):
        return Outcome(False, ["ill-conditioned"])
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    if bss:
        a, b_ = (api.run("bss_eval_sources", R, E, dict(filter_length=l, compute_permutation=False)).m for l in (L1, L2))
        metrics = ("sdr", "sar")
    else:
        a, b_ = (api.run("sdr_loss", R, E, dict(filter_length=l, pairwise=True)).m for l in (L1, L2))
        metrics = ("sdr",)
    worst, gain = 0.0, False
    for b, T in tols.items():
        for m in metrics:
            q1, q2 = oracle.q_of_db(a[m][b]), oracle.q_of_db(b_[m][b])
            t = (T.sdr if m == "sdr" else T.sar)(np.maximum(q1, q2))
            drop = np.where(q1 < 0.5, q1 - q2, oracle.d_of_db(b_[m][b]) - oracle.d_of_db(a[m][b]))
            worst = max(worst, need(np.maximum(drop, 0), 2 * t + oracle.db_round(a[m][b], eps) + oracle.db_round(b_[m][b], eps),
                                    f"{m} decreases when the filter goes from {L1} to {L2} taps", f"{fmt(a[m][b])} -> {fmt(b_[m][b])}"))
            gain |= bool(np.any(q2 - q1 > 2 * t))
    return Outcome(gain, ["monotone", be + "/" + dt, "bss" if bss else "sdr_loss"], f"{fmt(a['sdr'])} -> {fmt(b_['sdr'])}", worst)

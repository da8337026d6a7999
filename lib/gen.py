"""Hypothesis strategies producing JSON-able case descriptions, and their materialisation."""
import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2**32 - 1)
KINDS = ["white", "ar", "int", "uniform", "speech", "sparse", "pm1"]
BATCHES = [[], [], [], [1], [2], [3], [2, 2], [1, 3], [2, 1, 2]]


def rng_of(seed, *tags):
    return np.random.default_rng([int(seed)] + [int(t) for t in tags])


def source(rng, kind, n, N):
    if kind == "white":
        return rng.standard_normal((n, N))
    if kind == "ar":
        a = rng.uniform(0.3, 0.9) * (1 if rng.uniform() < 0.7 else -1)
        from scipy.signal import lfilter

        return lfilter([1.0], [1.0, -a], rng.standard_normal((n, N)), axis=-1)
    if kind == "int":
        return rng.integers(-8, 9, size=(n, N)).astype(float)
    if kind == "pm1":
        return rng.choice([-1.0, 1.0], size=(n, N))
    if kind == "uniform":
        return rng.uniform(-1, 1, size=(n, N))
    if kind == "speech":
        w = rng.laplace(size=(n, N))
        ph = rng.uniform(0, 6.28, size=(n, 1))
        env = 0.02 + np.abs(np.sin(np.arange(N)[None] * (6.28 / max(16.0, N / 3.0)) + ph)) ** 3
        return w * env
    if kind == "sparse":
        return rng.standard_normal((n, N)) * (rng.uniform(size=(n, N)) < 0.3) + 1e-2 * rng.standard_normal((n, N))
    raise ValueError(kind)


def fir(x, h):
    """causal FIR truncated to the length of x"""
    N = x.shape[-1]
    return np.stack([np.convolve(r, h)[:N] for r in x])


GATES = ["ref_tail", "ref_head", "est_tail", "est_head", "all_tail", "all_head", "hole", "spike", "each", "last", "first", "ends", "ends"]


def gated(rng, what, ref, est):
    """silent parts (at the beginning, the end, inside) and outliers"""
    N = ref.shape[-1]
    ref, est = ref.copy(), est.copy()
    m = int(rng.integers(1, max(2, N // 4)))
    if what in ("ref_tail", "all_tail"):
        ref[:, N - m:] = 0
    if what in ("est_tail", "all_tail"):
        est[:, N - m:] = 0
    if what in ("ref_head", "all_head"):
        ref[:, :m] = 0
    if what in ("est_head", "all_head"):
        est[:, :m] = 0
    if what == "hole":
        a = int(rng.integers(0, N - m))
        ref[:, a : a + m] = 0
        est[:, a : a + m] = 0
    if what == "spike":
        for x in (ref, est):
            x[int(rng.integers(len(x))), int(rng.integers(N))] *= 30.0
    if what in ("last", "first", "ends"):
        # much of the energy in the last or first samples
        for x in (ref, est):
            nn = np.linalg.norm(x, axis=-1)
            for j in {"last": [N - 1], "first": [0], "ends": [0, N - 1, N - 2]}[what]:
                if 0 <= j < N:
                    x[:, j] += rng.uniform(-1, 1, len(x)) * nn
    if what == "each":
        for x in (ref, est):
            for row in x:
                a = int(rng.integers(0, N))
                b = int(rng.integers(1, max(2, N // 4)))
                row[a : a + b] = 0
    return ref, est


def contest(rng, ne, nr, tries=400):
    """a mixing matrix and noise levels for which the best matchings by SIR and by SDR (likely) differ"""
    from scipy.optimize import linear_sum_assignment

    best = None
    for _ in range(tries):
        A = rng.standard_normal((ne, nr)) * 10 ** rng.uniform(-0.7, 0, (ne, nr))
        sn = np.sqrt(np.sum(A**2, axis=1, keepdims=True)) * 10 ** rng.uniform(-1.0, 0.6, (ne, 1))
        q = A**2 / np.sum(A**2, axis=1, keepdims=True)
        d = A**2 / (np.sum(A**2, axis=1, keepdims=True) + sn**2)
        sir, sdr = (10 * np.log10(x / (1 - x + 1e-3)) for x in (q, d))
        m1, m2 = linear_sum_assignment(-sir), linear_sum_assignment(-sdr)
        gap = min(sir[m1].sum() - sir[m2].sum(), sdr[m2].sum() - sdr[m1].sum())
        if best is None or gap > best[0]:
            best = (gap, A, sn)
        if gap > 4.0:
            break
    return best[1:]


def one_item(rng, s, N):
    nr, ne = s["n_ref"], s["n_est"]
    ref = source(rng, s["kind"], nr, N)
    if s.get("corr", 0) > 0 and nr > 1:
        ref = ref + s["corr"] * rng.standard_normal((nr, nr)) @ ref / np.sqrt(nr)
    if s.get("echo") and N > 4:
        # strong correlation at (about) the largest lag that the filter covers
        lag = int(min(N - 2, max(1, s.get("L", 8) - 1 + int(rng.integers(-1, 2)))))
        other = ref[::-1] if nr > 1 and rng.uniform() < 0.6 else ref
        ref = ref.copy()
        ref[:, lag:] = ref[:, lag:] + s["echo"] * other[:, : N - lag].copy()
    # images of the references
    D = max(1, min(N // 2, s.get("taps", 1)))
    h = rng.standard_normal(D) * 0.6 ** np.arange(D)
    img = fir(ref, h) if D > 1 else ref
    nrm = np.linalg.norm(img, axis=-1, keepdims=True)
    img = img / np.where(nrm > 0, nrm, 1.0)
    mix = s.get("mix", "perm")
    if mix == "perm":
        A = 10 ** (-s.get("sep", 10) / 20.0) * rng.standard_normal((ne, nr))
        order = rng.permutation(max(nr, ne))
        for k in range(ne):
            j = order[k]
            if j < nr:
                A[k, j] = 1.0
    elif mix == "dense":
        A = rng.standard_normal((ne, nr))
    elif mix == "tie":
        A = np.ones((ne, nr)) + 1e-3 * rng.standard_normal((ne, nr))
    elif mix == "contest":
        A, sn = contest(rng, ne, nr, max(5, 400 // max(1, int(np.prod(s.get("batch", []))))))
    else:  # unrelated
        A = np.zeros((ne, nr))
    noise = source(rng, "white" if s["kind"] in ("int", "pm1") else s["kind"], ne, N)
    nn = np.linalg.norm(noise, axis=-1, keepdims=True)
    noise = noise / np.where(nn > 0, nn, 1.0)
    if mix != "contest":
        sn = 10 ** (-s.get("snr", 10) / 20.0) if mix != "unrelated" else 1.0
    if s.get("nspread"):
        sn = sn * 10 ** rng.uniform(-s["nspread"], s["nspread"], size=(ne, 1))
    est = A @ img + sn * noise
    if s.get("buried") and N * nr * s.get("L", 1) <= 400000 and N > 2 * nr * s.get("L", 1) + 8:
        # hardly anything of the estimates is explained by the references
        L = s.get("L", 1)
        S = np.zeros((N, nr * L))
        for k in range(nr):
            for l in range(L):
                S[l:, k * L + l] = ref[k, : N - l]
        rest = noise - (S @ np.linalg.lstsq(S, noise.T, rcond=None)[0]).T
        en = np.linalg.norm(est, axis=-1, keepdims=True)
        est = rest / np.linalg.norm(rest, axis=-1, keepdims=True) + 10 ** (-s["buried"] / 20.0) * est / np.where(en > 0, en, 1.0)
    if s.get("delay") and N > 4:
        lag = int(min(N // 2, rng.integers(0, max(1, s.get("L", 8)))))
        if lag:
            est = np.concatenate((np.zeros((ne, lag)), est[:, :-lag]), axis=-1)
    if s.get("gate"):
        ref, est = gated(rng, s["gate"], ref, est)
    g = s.get("spread", 0.0)
    if g:
        ref = ref * 10 ** rng.uniform(-g, g, size=(nr, 1))
        est = est * 10 ** rng.uniform(-g, g, size=(ne, 1))
    if s.get("level"):
        ref = ref * 10.0 ** s["level"]
        est = est * 10.0 ** s["level"]
    if s.get("dc"):
        ref = ref + s["dc"] * rng.standard_normal((nr, 1)) * np.sqrt(np.mean(ref**2, axis=-1, keepdims=True))
        est = est + s["dc"] * rng.standard_normal((ne, 1)) * np.sqrt(np.mean(est**2, axis=-1, keepdims=True))
    return ref, est


def signals(s, cast=None):
    """float64 arrays batch + (n_ref, N), batch + (n_est, N), rounded to the case's precision"""
    rng = rng_of(s["seed"])
    batch = tuple(s.get("batch", []))
    nb = max(1, int(np.prod(batch))) if batch else 1
    refs, ests = [], []
    for i in range(nb):
        si = s
        if s.get("hetero"):
            hr = rng_of(s["seed"], 77, i)
            si = dict(s)
            si["kind"] = str(hr.choice(["white", "uniform", "speech", "int", s["kind"]]))
            si["snr"] = float(hr.uniform(-10, 40))
            si["sep"] = float(hr.uniform(0, 30))
            si["mix"] = str(hr.choice(["perm", "dense", "unrelated"]))
            si["level"] = float(hr.uniform(-2, 4))
        r, e = one_item(rng, si, s["N"])
        if s.get("hetero") and s.get("perfect") and hr.uniform() < 0.3:
            n = min(s["n_ref"], s["n_est"])
            e[:n] = r[hr.permutation(s["n_ref"])[:n]]
        refs.append(r)
        ests.append(e)
    ref = np.stack(refs).reshape(batch + (s["n_ref"], s["N"]))
    est = np.stack(ests).reshape(batch + (s["n_est"], s["N"]))
    if s.get("dtype") == "f32" or cast == "f32":
        ref = ref.astype(np.float32).astype(np.float64)
        est = est.astype(np.float32).astype(np.float64)
    return ref, est


# lengths with the awkward neighbourhoods of powers of two
LENGTHS = [3, 5, 7, 8, 9, 15, 16, 17, 23, 31, 32, 33, 47, 63, 64, 65, 97, 100, 127, 128, 129, 160, 200, 255, 256, 257,
           300, 389, 511, 512, 513, 640, 777, 1000, 1023, 1024, 1025, 1200, 1501, 2000, 2047, 2048, 2049, 2501, 3001, 4001, 4095, 4096, 4097, 5003, 6001,
           8000, 8191, 8193, 10001, 12345, 16000, 16001, 16383, 16385, 20001, 32000, 32767, 32769, 40001, 44100, 48001, 65535, 65537, 100003, 131073, 262141, 262147, 300001, 480000, 530000]
FILTERS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 21, 24, 31, 32, 33, 34, 40, 48, 50, 63, 64, 65]
TAPS = [80, 96, 100, 127, 128, 129, 160, 200, 255, 256, 257, 300, 384, 400, 500, 511, 512, 513, 600, 700, 1024, 1025]
ALL_L = FILTERS + TAPS


CH = {12: [1, 4, 6, 8, 9, 10, 11, 12, 16, 20], 4: [1, 2, 2, 3, 3, 4, 4], 3: [1, 2, 2, 3, 3], 8: [2, 3, 5, 6, 7, 8], 9: [1, 5, 6, 7, 8, 9]}


@st.composite
def dims(draw, bss, max_ch=4, max_L=65, max_N=1100, min_slack=1.5, square=False, nf=None, batches=BATCHES, max_order=130,
         max_total=40000, min_L=1, min_N=0):
    """n_ref, n_est, N, L, batch with a well-posed system"""
    batch = draw(st.sampled_from(batches))
    nb = max(1, int(np.prod(batch))) if batch else 1
    n_ref = draw(st.sampled_from(CH[max_ch] if max_ch in CH else list(range(1, max_ch + 1))))
    n_est = n_ref if square else draw(st.sampled_from(CH[max_ch] if max_ch in CH else list(range(1, max_ch + 1))))
    Ls = [l for l in ALL_L if min_L <= l <= max_L and (l * n_ref <= max_order or l <= 2 or l == min_L)]
    L = draw(st.sampled_from(Ls)) if nf is None else nf
    order = L * (n_ref if bss else 1)
    lo = int(order * min_slack) + 4 * n_ref + 4 if bss else max(4, 2)
    lo = max(lo, min_N)
    cap = max(lo + 8, min(max_N, max_total // (nb * max(n_ref, n_est))))
    opts = [n for n in LENGTHS if lo <= n <= cap]
    N = draw(st.one_of(*([st.sampled_from(opts)] if opts else []), st.integers(lo, cap), st.integers(max(lo, cap // 2), cap)))
    return dict(n_ref=n_ref, n_est=n_est, N=N, L=L, batch=batch)


@st.composite
def texture(draw, kinds=KINDS, mixes=("perm", "dense", "unrelated"), snr=(-20, 50), spread=(0.0, 0.0, 1.0, 3.0), corr=(0, 0, 0.3, 0.6)):
    return dict(
        seed=draw(SEED),
        kind=draw(st.sampled_from(list(kinds))),
        mix=draw(st.sampled_from(list(mixes))),
        snr=draw(st.integers(*snr)),
        sep=draw(st.integers(0, 40)),
        taps=draw(st.sampled_from([1, 1, 2, 5])),
        spread=draw(st.sampled_from(list(spread))),
        corr=draw(st.sampled_from(list(corr))),
        gate=draw(st.sampled_from([None] * 6 + GATES)),
        echo=draw(st.sampled_from([0, 0, 0, 0.5, 0.8])),
        delay=draw(st.sampled_from([False, False, True])),
        nspread=draw(st.sampled_from([0, 0, 0, 1.0])),
        buried=draw(st.sampled_from([0] * 14 + [25, 50, 75])),
    )


def backend():
    return st.sampled_from(["np", "pt"])


def dtype():
    return st.sampled_from(["f32", "f64", "f64"])


def merged(*strategies):
    def m(ds):
        out = {}
        for d in ds:
            out.update(d)
        return out

    return st.tuples(*strategies).map(m)


TOP = ["bss_eval_sources", "sdr", "sdr_loss", "sdr_pit_loss", "si_bss_eval_sources", "si_sdr", "si_sdr_loss", "si_sdr_pit_loss"]
WEIGHTED = ["bss_eval_sources"] * 4 + ["sdr"] * 3 + ["sdr_loss"] * 3 + ["sdr_pit_loss"] * 2 + TOP[4:]
CG = [None] * 8 + [1, 2, 3, 5, 7, 10, 10, 15, 20, 30, 50]
CLAMP = [None] * 5 + [10, 20, 30.0, 60, 1.5, 45.5, 80]
LOAD = [None] * 5 + [1e-8, 1e-6, 1e-5, 1e-4, 1e-2, 0.3, 1, 2.0]


def _opt(draw, values):
    return draw(st.sampled_from(values))


@st.composite
def problem(draw, names=WEIGHTED, cg=CG, clamp=CLAMP, load=LOAD, zm=(False, True), tex=None, max_ch=4, max_L=65, max_N=1100,
            max_order=130, batches=BATCHES, perm=(False, True, True), square=False, dtypes=("f32", "f64", "f64"), backends=("np", "pt"),
            min_slack=1.5, max_total=30000, min_L=1, min_N=0):
    """a function, its options, and a well-posed problem for it"""
    fn = draw(st.sampled_from(list(names)))
    bss = fn in ("bss_eval_sources", "si_bss_eval_sources", "square_cosine_metrics")
    si = "si_" in fn
    opts = dict(zero_mean=_opt(draw, list(zm)))
    sq = square
    if fn != "square_cosine_metrics":
        c = _opt(draw, list(clamp))
        if c is not None:
            opts["clamp_db"] = c
    if fn in ("bss_eval_sources", "si_bss_eval_sources"):
        opts["compute_permutation"] = _opt(draw, list(perm))
        sq = sq or not opts["compute_permutation"]
    if fn in ("sdr_loss", "si_sdr_loss"):
        opts["pairwise"] = draw(st.booleans())
        sq = sq or not opts["pairwise"]
    if fn == "square_cosine_metrics":
        opts["pairwise"] = draw(st.booleans())
        sq = sq or not opts["pairwise"]
    if fn in ("sdr", "si_sdr"):
        opts["return_perm"] = draw(st.sampled_from([True, True, False]))
        opts["change_sign"] = draw(st.booleans())
    if not si or fn == "si_bss_eval_sources":
        l = _opt(draw, list(load))
        if l is not None:
            opts["load_diag"] = l
    d = draw(dims(bss=bss, max_ch=max_ch, max_L=max_L, max_N=max_N, min_slack=min_slack, square=sq, nf=1 if si else None,
                  batches=batches, max_order=max_order, max_total=max_total, min_L=min_L, min_N=min_N))
    if not si:
        opts["filter_length"] = d["L"]
        c = _opt(draw, list(cg))
        if c is not None:
            opts["use_cg_iter"] = c
    case = dict(fn=fn, opts=opts)
    case.update(d)
    case.update(draw(tex if tex is not None else texture(snr=(-10, 40))))
    case["dtype"] = draw(st.sampled_from(list(dtypes)))
    case["backend"] = draw(st.sampled_from(list(backends)))
    return case


SMOOTH = ["white", "speech", "ar", "uniform"]


def long_problem(names, max_N=70000, tex=None, **kw):
    """thousands of samples"""
    kw = dict(dict(max_ch=3, max_L=64, max_order=130, max_N=max_N, min_N=1500, max_total=max_N, batches=[[], [], [2], [3]]), **kw)
    return problem(names=names, tex=tex if tex is not None else texture(snr=(-10, 40), kinds=SMOOTH), **kw)


def taps_problem(names, tex=None, **kw):
    """filters of 80 to 600 taps"""
    names = [n for n in names if "si_" not in n]
    kw = dict(dict(max_ch=2, min_L=80, max_L=1100, max_order=1200, max_N=6000, max_total=24000, batches=[[], [], [], [2]]), **kw)
    return problem(names=names, tex=tex if tex is not None else texture(snr=(-10, 40), kinds=SMOOTH), **kw)


def bulk_problem(names, tex=None, **kw):
    """many channels, many batch items, four batch dimensions"""
    kw = dict(dict(max_ch=12, max_L=4, max_order=48, max_N=160, max_total=14000, batches=[[], [1], [2], [10], [40], [65], [130], [257], [2, 1, 2, 1], [1, 2, 1, 3], [2, 2, 2], [3, 1, 3]]), **kw)
    return problem(names=names, tex=tex if tex is not None else texture(snr=(-10, 40)), **kw)


CROWD = [[520], [600], [1030], [2100], [4100], [33, 32], [2, 600], [65, 40]]


def crowd_problem(names, tex=None, **kw):
    """hundreds to thousands of batch items of a few samples"""
    kw = dict(dict(max_ch=3, max_L=3, max_order=9, max_N=40, max_total=150000, batches=CROWD), **kw)
    return problem(names=names, tex=tex if tex is not None else texture(snr=(-10, 40)), **kw)


def huge_problem(names, tex=None, **kw):
    """recordings of several seconds: 140000 to 600000 samples"""
    kw = dict(dict(max_ch=2, max_L=8, max_order=16, max_N=600000, min_N=140000, max_total=1000000, batches=[[], [], [2]]), **kw)
    return problem(names=names, tex=tex if tex is not None else texture(snr=(-10, 40), kinds=SMOOTH), **kw)

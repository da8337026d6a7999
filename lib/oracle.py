"""Independent reference computations, all in float64 and without FFT or normal equations."""
import itertools

import numpy as np

TINY = np.finfo(np.float64).tiny


def q_of_db(db):
    """squared cosine of a value in dB"""
    db = np.asarray(db, dtype=np.float64)
    with np.errstate(over="ignore"):
        return 1.0 / (1.0 + 10.0 ** (-db / 10.0))


def d_of_db(db):
    """1 - squared cosine"""
    db = np.asarray(db, dtype=np.float64)
    with np.errstate(over="ignore"):
        return 1.0 / (1.0 + 10.0 ** (db / 10.0))


def db_of(q, d):
    with np.errstate(divide="ignore"):
        return 10.0 * (np.log10(np.maximum(q, 0.0)) - np.log10(np.maximum(d, 0.0)))


def shifts(x, L):
    """(N + L - 1, L): the L shifts of x"""
    N = x.shape[-1]
    S = np.zeros((N + L - 1, L))
    for l in range(L):
        S[l : l + N, l] = x
    return S


def unit(x):
    n = np.linalg.norm(x, axis=-1, keepdims=True)
    return x / np.where(n > 0, n, 1.0)


def energy(X):
    """of the columns; along contiguous memory, where numpy sums pairwise (otherwise the error grows with N)"""
    X = np.ascontiguousarray(X.T)
    return np.sum(X * X, axis=-1)


def project(Q, E):
    """orthogonal projection on the span of the columns of Q; the second pass removes the effect of Q's own rounding errors"""
    T = Q @ (Q.T @ E)
    return T + Q @ (Q.T @ (E - T))


class Item:
    """projection definition for one batch item; ref (n_ref, N), est (n_est, N) float64"""

    def __init__(self, ref, est, L, joint=True):
        ref = unit(np.asarray(ref, dtype=np.float64))
        est = unit(np.asarray(est, dtype=np.float64))
        nr, N = ref.shape
        ne = est.shape[0]
        self.n_ref, self.n_est, self.L = nr, ne, L
        E = np.concatenate([est, np.zeros((ne, L - 1))], axis=1).T  # (N + L - 1, ne)
        S = [shifts(ref[k], L) for k in range(nr)]
        self.q = np.zeros((nr, ne))
        self.d = np.zeros((nr, ne))
        self.lam1 = np.zeros(nr)
        T = []
        for k in range(nr):
            Q, R = np.linalg.qr(S[k])
            sv = np.linalg.svd(R, compute_uv=False)
            self.lam1[k] = sv[-1] ** 2 if len(sv) == L else 0.0
            t = project(Q, E)
            T.append(t)
            self.q[k] = energy(t)
            r = E - t
            self.d[k] = energy(r)
        if joint:
            A = np.concatenate(S, axis=1)
            if A.shape[0] < A.shape[1]:
                self.lamJ = 0.0
                return
            Q, R = np.linalg.qr(A)
            sv = np.linalg.svd(R, compute_uv=False)
            self.lamJ = sv[-1] ** 2
            P = project(Q, E)
            self.qJ = energy(P)
            r = E - P
            self.dJ = energy(r)
            self.qI = np.zeros((nr, ne))
            self.dI = np.zeros((nr, ne))
            for k in range(nr):
                I = P - T[k]
                with np.errstate(divide="ignore", invalid="ignore"):
                    self.qI[k] = self.q[k] / self.qJ
                    self.dI[k] = energy(I) / self.qJ


def gram(ref, L, joint):
    """Gram matrices of the shifts of the unit-norm references; (n_ref, L, L) or (n_ref L, n_ref L)"""
    ref = unit(np.asarray(ref, dtype=np.float64))
    nr, N = ref.shape
    nf = 1
    while nf < N + L:
        nf *= 2
    X = np.fft.rfft(ref, nf)
    idx = (np.arange(L)[None, :] - np.arange(L)[:, None]) % nf
    if joint:
        C = np.fft.irfft(X[:, None, :].conj() * X[None, :, :], nf)  # c[a,b,l] = sum_t a[t] b[t+l]
        # <S_i a, S_j b> = sum_t a[t-i] b[t-j] = c[a,b,i-j]
        G = C[:, :, idx.T]  # (a, b, i, j)
        return G.transpose(0, 2, 1, 3).reshape(nr * L, nr * L)
    c = np.fft.irfft(np.abs(X) ** 2, nf)
    return c[:, idx]


def xcorr(ref, est, L):
    """(n_ref, L, n_est): <S_l ref_k, est_m> for unit-norm signals"""
    ref, est = unit(np.asarray(ref, float)), unit(np.asarray(est, float))
    N = ref.shape[-1]
    nf = 1
    while nf < N + L:
        nf *= 2
    C = np.fft.irfft(np.fft.rfft(ref, nf)[:, None].conj() * np.fft.rfft(est, nf)[None], nf)
    return C[..., :L].transpose(0, 2, 1)


def conditioning(ref, L, load=None, joint=False):
    """smallest eigenvalue of the (loaded) system: per reference, or of the joint one"""
    G = gram(ref, L, joint)
    lam = np.linalg.eigvalsh(G)[..., 0]
    lam = np.maximum(lam, 0.0)
    return lam + (load or 0.0)


def growth(N):
    """error growth of FFTs and of long sums"""
    return 1.0 + np.log2(N + 1.0) + 0.005 * np.sqrt(N)


def tol_q(q, lam, K, eps, N, c=3.0):
    """bound on the rounding error of a squared cosine  x' R^-1 x  computed with unit roundoff eps.

    K is the order of the system, lam its smallest eigenvalue.  First-order perturbation theory:
    |dR| q / lam + 2 |dx| sqrt(q / lam) + |dx|^2 / lam with |dR| <= c eps K, |dx| <= c eps sqrt(K).
    """
    q = np.clip(q, 0.0, 1.0)
    lam = np.maximum(lam, 1e-30)
    g = c * eps * growth(N)
    dx = g * np.sqrt(K)
    t = g * K * q / lam + 2.0 * dx * np.sqrt(q / lam) + dx * dx / lam
    # sums done naively in a few lanes (measured for torch's norm of contiguous samples: N / 80 eps in float64, up to N / 12000 in float32)
    t = t + 2.0 * q * eps * N / (30.0 if eps < 1e-10 else 6000.0)
    # the last term is for the oracle itself: sums over N samples in float64
    return t + 8.0 * eps * q + 4.0 * 2.2e-16 * np.sqrt(N) * np.sqrt(q)


def err_q(db, q, d):
    """error of a value in dB with respect to a squared cosine q = 1 - d, measured on the squared cosine"""
    qm, dm = q_of_db(db), d_of_db(db)
    return np.where(q < 0.5, np.abs(qm - q), np.abs(dm - d))


def db_round(db, eps):
    """error on the squared cosine due to rounding the value in dB itself"""
    db = np.where(np.isfinite(db), db, 0.0)
    return 4.0 * eps * 0.24 * np.abs(db) * np.minimum(q_of_db(db), d_of_db(db))


def best_assignment(score):
    """maximum of the sum over one-to-one matchings, by exhaustive enumeration (scipy for large ones); score (r, c) finite"""
    r, c = score.shape
    if r > c:
        score = score.T
        r, c = c, r
    if r > 6 or c > 7:
        from scipy.optimize import linear_sum_assignment

        i, j = linear_sum_assignment(score, maximize=True)
        return score[i, j].sum()
    best = -np.inf
    rows = np.arange(r)
    for p in itertools.permutations(range(c), r):
        s = score[rows, list(p)].sum()
        if s > best:
            best = s
    return best

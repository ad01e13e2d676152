"""Reference CMA-ES adaptation (Hansen's formulas) replayed on observed points and values."""
import math

import numpy as np

from .flow import population


def params(N, pop):
    mu = pop // 2
    w = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
    w = w / w.sum()
    me = 1.0 / np.sum(w ** 2)
    cc = (4 + me / N) / (N + 4 + 2 * me / N)
    cs = (me + 2) / (N + me + 5)
    c1 = 2 / ((N + 1.3) ** 2 + me)
    cmu = min(1 - c1, 2 * (me - 2 + 1 / me) / ((N + 2) ** 2 + me))
    damps = 1 + 2 * max(0.0, math.sqrt((me - 1) / (N + 1)) - 1) + cs
    return mu, w, me, cc, cs, c1, cmu, damps


def whiten(X, F, sigma_v, setting=None, x0=None):
    """X: observed points (n, N), F: values. Returns (list of (generation, whitened vector), pop, skipped) for every
    sample except the start point; stops when the distribution becomes numerically degenerate."""
    X = np.asarray(X, float)
    n, N = X.shape
    pop = population(N, setting)
    mu, w, me, cc, cs, c1, cmu, damps = params(N, pop)
    chi = math.sqrt(N) * (1 - 1 / (4 * N) + 1 / (21 * N * N))
    m = np.array(X[0] if x0 is None else x0, float)
    sigma, C = 1.0, np.diag(np.asarray(sigma_v, float) ** 2)
    pc, ps = np.zeros(N), np.zeros(N)
    out = []
    g = 0
    while g * pop < n:
        lam, B = np.linalg.eigh(C)
        if lam.min() <= 0 or sigma * math.sqrt(lam.min()) < 1e-6 * (1e-6 + np.abs(m).max()) or \
                lam.max() / lam.min() > 1e10:
            break
        inv = B @ np.diag(lam ** -0.5) @ B.T
        G = X[g * pop:(g + 1) * pop]
        for k, x in enumerate(G):
            if g or k:
                out.append((g, inv @ (x - m) / sigma))
        if len(G) < pop:
            break
        o = np.argsort(F[g * pop:(g + 1) * pop])[:mu]
        count = (g + 1) * pop
        old = m
        m = w @ G[o]
        y = (m - old) / sigma
        ps = (1 - cs) * ps + math.sqrt(cs * (2 - cs) * me) * (inv @ y)
        hs = float(np.linalg.norm(ps) / math.sqrt(1 - (1 - cs) ** (2 * count / pop)) / chi < 1.4 + 2 / (N + 1))
        pc = (1 - cc) * pc + hs * math.sqrt(cc * (2 - cc) * me) * y
        A = (G[o] - old) / sigma
        C = (1 - c1 - cmu) * C + c1 * (np.outer(pc, pc) + (1 - hs) * cc * (2 - cc) * C) + cmu * (A.T * w) @ A
        C = (C + C.T) / 2
        sigma = sigma * math.exp((cs / damps) * (np.linalg.norm(ps) / chi - 1))
        g += 1
    return out, pop

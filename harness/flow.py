"""Control flow of the searches, from the sequence of returned values alone."""
import math


def nm_iteration_ends(values, dim):
    """Counts of evaluations at which an iteration is complete (only those reached by `values`)."""
    ends = []
    fs = sorted(values[:dim + 1])
    if len(values) < dim + 1:
        return ends
    i = dim + 1
    n = len(values)

    def take():
        nonlocal i
        if i >= n:
            raise IndexError
        i += 1
        return values[i - 1]
    try:
        while True:
            fr = take()
            if fr < fs[0]:
                fe = take()
                fs[-1] = fe if fe < fr else fr
            elif fr < fs[-2]:
                fs[-1] = fr
            else:
                outside = fr < fs[-1]
                fc = take()
                if (fc <= fr) if outside else (fc < fs[-1]):
                    fs[-1] = fc
                else:
                    for j in range(1, dim + 1):
                        fs[j] = take()
            fs.sort()
            ends.append(i)
    except IndexError:
        return ends


def population(N, setting=None):
    return int(math.floor(setting)) if setting is not None else int(4 + math.floor(3 * math.log(N)))


def cma_generation_ends(n, pop):
    return list(range(pop, n + 1, pop))


def iteration_ends(values, dim, general):
    if general["dsm_algorithm_name"] == "CMAES":
        return cma_generation_ends(len(values), population(dim, general.get("population")))
    return nm_iteration_ends(values, dim)


def nm_replay(simplex, values, adaptive=False):
    """Reference Nelder-Mead fed with the observed values: (points, [(count, simplex, values) at iteration ends])."""
    import numpy as np
    sim = np.array(simplex, float)
    dim = sim.shape[1]
    f = float(dim)
    rho, chi, psi, sig = (1.0, 1 + 2 / f, 0.75 - 1 / (2 * f), 1 - 1 / f) if adaptive else (1.0, 2.0, 0.5, 0.5)
    pts, ends = [], []
    n = len(values)

    def ev(x):
        if len(pts) >= n:
            raise IndexError
        pts.append(np.array(x))
        return values[len(pts) - 1]
    try:
        fs = np.array([ev(x) for x in sim])
        o = np.argsort(fs)
        sim, fs = sim[o], fs[o]
        ends.append((len(pts), sim.copy(), fs.copy()))     # start simplex (index 0), iteration ends follow
        while True:
            c = sim[:-1].sum(axis=0) / dim
            worst = sim[-1].copy()
            xr = c + rho * (c - worst)
            fr = ev(xr)
            if fr < fs[0]:
                xe = c + rho * chi * (c - worst)
                fe = ev(xe)
                sim[-1], fs[-1] = (xe, fe) if fe < fr else (xr, fr)
            elif fr < fs[-2]:
                sim[-1], fs[-1] = xr, fr
            else:
                if fr < fs[-1]:
                    xc = c + psi * rho * (c - worst)
                    fc = ev(xc)
                    ok = fc <= fr
                else:
                    xc = c - psi * (c - worst)
                    fc = ev(xc)
                    ok = fc < fs[-1]
                if ok:
                    sim[-1], fs[-1] = xc, fc
                else:
                    for j in range(1, dim + 1):
                        sim[j] = sim[0] + sig * (sim[j] - sim[0])
                        fs[j] = ev(sim[j])
            o = np.argsort(fs)
            sim, fs = sim[o], fs[o]
            ends.append((len(pts), sim.copy(), fs.copy()))
    except IndexError:
        return pts, ends


def nm_steps(simplex, adaptive=False):
    """Reference Nelder-Mead as a coroutine: yields ('eval', x) and expects its value; yields ('end', sim, fs) at every
    iteration end (the caller may change fs in place)."""
    import numpy as np
    sim = np.array(simplex, float)
    dim = sim.shape[1]
    f = float(dim)
    rho, chi, psi, sig = (1.0, 1 + 2 / f, 0.75 - 1 / (2 * f), 1 - 1 / f) if adaptive else (1.0, 2.0, 0.5, 0.5)
    fs = np.zeros(dim + 1)
    for j in range(dim + 1):
        fs[j] = yield ("eval", sim[j].copy())
    o = np.argsort(fs)
    sim, fs = sim[o], fs[o]
    while True:
        c = sim[:-1].sum(axis=0) / dim
        worst = sim[-1].copy()
        xr = c + rho * (c - worst)
        fr = yield ("eval", xr)
        if fr < fs[0]:
            xe = c + rho * chi * (c - worst)
            fe = yield ("eval", xe)
            sim[-1], fs[-1] = (xe, fe) if fe < fr else (xr, fr)
        elif fr < fs[-2]:
            sim[-1], fs[-1] = xr, fr
        else:
            if fr < fs[-1]:
                xc = c + psi * rho * (c - worst)
                fc = yield ("eval", xc)
                ok = fc <= fr
            else:
                xc = c - psi * (c - worst)
                fc = yield ("eval", xc)
                ok = fc < fs[-1]
            if ok:
                sim[-1], fs[-1] = xc, fc
            else:
                for j in range(1, dim + 1):
                    sim[j] = sim[0] + sig * (sim[j] - sim[0])
                    fs[j] = yield ("eval", sim[j].copy())
        o = np.argsort(fs)
        sim, fs = sim[o], fs[o]
        yield ("end", sim, fs)

"""C21: drift compensation, against a reference model of the whole run (searches, re-measurements, records)."""
import numpy as np
from hypothesis import strategies as st

from .. import flow, gen, open_space, runs, sut
from ..engine import Family

RAMPS = ["walk", "ramp", "none", "alternate"]


@st.composite
def drifting(draw):
    """An objective whose values drift with the evaluation number."""
    o = draw(gen.objective_spec(table=False))
    if draw(st.integers(0, 5)) == 0:
        o = {"kind": "table", "vals": draw(st.lists(gen.fl(-5, 5), min_size=5, max_size=40))}
        return o
    kind = draw(st.sampled_from(RAMPS))
    if kind == "ramp":
        s = draw(gen.fl(-0.2, 0.2))
        o["noise"] = [round(s * i, 6) for i in range(250)]
    elif kind == "alternate":
        s = draw(gen.fl(-1, 1))
        o["noise"] = [0.0, s, -s, s / 2]
    elif kind == "walk":
        o["noise"] = draw(st.lists(gen.fl(-2, 2), min_size=3, max_size=30))
    return o


@st.composite
def strategy(draw, kind, algs=("dCRAB",)):
    c = draw(open_space.cfg(algs=algs, dsm=("NelderMead",) if kind == "periodic" else ("NelderMead", "CMAES"),
                            max_dim=4, max_eval_total=(20, 160), max_si=4))
    a = c["algorithm_settings"]
    sc = a["dsm_settings"]["stopping_criteria"]
    if runs.alg_name(c) == "dCRAB":
        a["super_iteration_number"] = draw(st.integers(1 if kind == "periodic" else 2, 5))
    if kind != "periodic" or draw(st.booleans()):
        sc["max_eval"] = draw(st.integers(3, 45))
    d = {}
    if kind != "none":
        if draw(st.booleans()):
            d["num_average"] = draw(st.integers(1, 4))
        if kind == "after":
            d["compensate_after_SI"] = True
            if draw(st.booleans()):
                d["compensate_after_minutes"] = 0
    elif draw(st.booleans()):
        d = {"compensate_after_SI": False, "num_average": draw(st.integers(1, 4))}
    case = {"obj": draw(drifting()), "ticks": None}
    if kind == "periodic":
        case["ticks"] = draw(st.lists(st.sampled_from([15, 30, 30, 45, 60, 120]), min_size=1, max_size=6))
        d["compensate_after_minutes"] = draw(st.integers(1, 100)) / 4.0
        if draw(st.integers(0, 2)) == 0:
            d["compensate_after_SI"] = draw(st.booleans())
        if "max_eval" not in sc:
            sc["time_lim"] = draw(st.integers(8, 200)) / 4.0
    if kind != "none" or d:
        a["compensate_drift"] = d
    if draw(st.integers(0, 4)) == 0:
        c["dump_format"] = "json"
    case["cfg"] = c
    return case


def check(case, ctx):
    cfg = case["cfg"]
    a = cfg["algorithm_settings"]
    d = a.get("compensate_drift", {})
    minutes, navg = d.get("compensate_after_minutes", 0), d.get("num_average", 1)
    after = d.get("compensate_after_SI", False) or minutes > 0
    g, sc = a["dsm_settings"]["general_settings"], a["dsm_settings"]["stopping_criteria"]
    dim, total = open_space.dim(cfg), a["max_eval_total"]
    with sut.scratch():
        clock = sut.Clock() if case["ticks"] else None
        r = runs.run(cfg, case["obj"], attach=runs.attach_si, clock=clock, ticks=case["ticks"], snapshot=True)
    E = r.evals
    n = len(E)
    X = [open_space.x_of(e) for e in E]
    span = 1 + max(float(np.abs(x).max()) for x in X)
    over = n >= total
    best = {"F": None, "e": None}

    def near(x, y):
        return np.abs(np.asarray(x) - np.asarray(y)).max() <= 1e-7 * span

    def end_time(e):
        return e["t"] + case["ticks"][(e["k"] - 1) % len(case["ticks"])]

    pos = 0
    averaged = periodic = 0

    class Done(Exception):
        pass

    def judge(e):
        if best["F"] is None or e["F"] < best["F"]:
            best["F"], best["e"] = e["F"], e

    def take(what, x=None):
        """The next evaluation, which is made because of `what`; checks the file as seen from inside it."""
        nonlocal pos
        if pos >= n:
            ctx.expect(over, "missing-evaluation", "the run ended after %d of %d evaluations, %s was due (super-iteration "
                       "%d)" % (n, total, what, si))
            raise Done
        e = E[pos]
        pos += 1
        ctx.expect(e["si"] == si, "super-iteration", lambda: "evaluation %d belongs to super-iteration %d; %s of "
                   "super-iteration %d was due" % (e["k"], e["si"], what, si))
        if x is not None:
            ctx.expect(near(X[e["k"] - 1], x), "point", lambda: "evaluation %d (super-iteration %d) is at %s; %s, at %s, was "
                       "due" % (e["k"], si, X[e["k"] - 1], what, x))
        if best["e"] is None:
            ctx.expect(e["snapshot"] is None, "file-without-evaluation", "a file exists before the first evaluation")
        else:
            f = e["snapshot"]
            ok = isinstance(f, dict) and same(f, best["e"])
            ctx.expect(ok, "record-file", lambda: "before evaluation %d the file holds %s, the record is evaluation %d with "
                       "value %r, measured at %s" % (e["k"], f and vec(f), best["e"]["k"], best["F"],
                                                     X[best["e"]["k"] - 1]))
        return e

    def vec(f):
        if not isinstance(f, dict):
            return f
        return np.concatenate([np.asarray(f[p["pulse_name"]], float).ravel() for p in cfg["pulses"]] + [np.array([float(
            np.asarray(f[q["parameter_name"]]).reshape(-1)[0]) for q in cfg["parameters"]])])

    def same(f, e):
        return np.array_equal(vec(f), X[e["k"] - 1]) or near(vec(f), X[e["k"] - 1]) and np.abs(vec(f) - X[
            e["k"] - 1]).max() <= 1e-12 * span

    def remeasure(x):
        m = []
        try:
            for _ in range(navg):
                e = take("re-measurement %d of %d" % (len(m) + 1, navg), x)
                judge(e)
                m.append(e)
        finally:
            if len(m) == navg:
                best["F"], best["e"] = sum(e["F"] for e in m) / navg, m[-1]
            elif m:
                best["partial"] = [best["F"], sum(e["F"] for e in m) / len(m)]
        return best["F"]

    si = 0
    try:
        for si in range(1, a.get("super_iteration_number", 1) + 1):
            best.pop("partial", None)
            start = E[pos]["t"] if clock is not None and pos < n else None     # of the super-iteration, for time_lim
            if after and si > 1:
                averaged += 1
                remeasure(X[best["e"]["k"] - 1])
            seg0 = pos
            count = 0
            if g["dsm_algorithm_name"] == "CMAES":
                P = flow.population(dim, g.get("population"))
                while True:
                    for _ in range(P):
                        first = None if count else (open_space.start(cfg) if si == 1 else X[best["e"]["k"] - 1])
                        judge(take("evaluation %d of the search" % (count + 1), first))
                        count += 1
                    if count >= sc["max_eval"]:
                        break
            else:
                if n - pos < dim + 1 and not over:
                    ctx.fail("missing-evaluation", "the last search has only %d evaluations" % (n - pos))
                ref = flow.nm_steps(np.array((X[seg0:seg0 + dim + 1] + [np.zeros(dim)] * (dim + 1))[:dim + 1]),
                                    g.get("is_adaptive", False))
                if seg0 < n:
                    first = open_space.start(cfg) if si == 1 else X[best["e"]["k"] - 1]
                    ctx.expect(near(X[seg0], first), "start", lambda: "super-iteration %d starts at %s instead of %s" % (
                        si, X[seg0], first))
                step = next(ref)
                last = None
                while True:
                    if step[0] == "eval":
                        e = take("evaluation %d of the search" % (count + 1), step[1])
                        judge(e)
                        if last is None and clock is not None:
                            last = e["t"]
                        count += 1
                        step = ref.send(e["F"])
                        continue
                    _, sim, fs = step
                    if minutes > 0 and (end_time(E[pos - 1]) - last) / 60.0 >= minutes:
                        if pos >= n and over:
                            raise Done
                        old = fs[0]
                        before = pos
                        new = remeasure(sim[0])
                        count += pos - before
                        fs[0] = new
                        fs[1:] += new - old
                        last = end_time(E[pos - 1])
                        periodic += 1
                    if "max_eval" in sc and count >= sc["max_eval"]:
                        break
                    if "time_lim" in sc and (end_time(E[pos - 1]) - start) / 60.0 >= sc["time_lim"]:
                        break
                    step = next(ref)
    except Done:
        pass
    else:
        ctx.expect(pos == n, "extra-evaluation", lambda: "%d evaluations, %d are accounted for; evaluation %d is at %s" % (
            n, pos, pos + 1, X[pos]))
    fom = r.sgn * r.final["Figure of merit"]
    allowed = best.get("partial", []) + [best["F"]]
    ctx.expect(any(abs(fom - v) <= 1e-9 * (1 + abs(v)) for v in allowed), "record-value", "the reported figure of merit is %r, "
               "expected %r" % (fom, best["F"]))
    ctx.expect(same(r.file, best["e"]), "record-file", lambda: "the final file holds %s, the record is evaluation %d at %s" % (
        vec(r.file), best["e"]["k"], X[best["e"]["k"] - 1]))
    if "parameters" in r.final:
        ctx.expect(near(np.array(r.final["parameters"], float).ravel(), X[best["e"]["k"] - 1]), "record-parameters", lambda: (
            "the reported parameters are %s, the record was measured at %s" % (r.final["parameters"], X[best["e"]["k"] - 1])))
    runs.labels(ctx, cfg, r)
    ctx.label("num_average=%d" % navg, "after SI" if averaged else "no SI compensation",
              "periodic x%d" % min(periodic, 3) if minutes > 0 else "not periodic", "budget" if over else "completed")
    ctx.nt(averaged or periodic or not after)


FAMILIES = [Family("after-SI", lambda: strategy("after"), check, 800, 10000, rule="a compensation after a super-iteration"),
            Family("periodic", lambda: strategy("periodic"), check, 800, 10000, rule="a compensation (of either kind)"),
            Family("direct-search", lambda: strategy("periodic", ("DirectSearch",)), check, 480, 6000,
                   rule="a compensation"),
            Family("none", lambda: strategy("none"), check, 240, 2400, rule="every case")]

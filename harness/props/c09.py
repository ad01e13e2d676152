"""C09: maximising f and minimising -f are the same optimisation (metamorphic)."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen, quant, runs, sut
from ..engine import Family


class Memo:
    """A figure of merit that hands out the same dictionary object again for controls it has seen before."""

    def get_FoM(self, **kw):
        res = super().get_FoM(**kw)
        if quant.traced(kw.get("pulses", [])) or not self.evals:
            return res
        e = self.evals[-1]
        key = b"".join(np.asarray(p).tobytes() for p in e["pulses"]) + np.array(e["parameters"]).tobytes()
        return self.__dict__.setdefault("cache", {}).setdefault(key, res)


class MemoRec(Memo, sut.RecFoM):
    pass


class MemoGrape(Memo, quant.GrapeFoM):
    pass


@st.composite
def strategy(draw, algs=("dCRAB", "dCRAB", "DirectSearch"), maxe=(3, 70)):
    cfg = draw(runs.any_cfg(algs=algs, max_eval_total=maxe, direction=False) if algs[0] == "dCRAB" else
               runs.any_cfg(algs=algs, max_eval_total=maxe))
    a = cfg["algorithm_settings"]
    a.pop("optimization_direction", None)
    case = {"cfg": cfg, "obj": draw(gen.objective_spec(table=True)), "memo": False}
    gf = algs[0] == "dCRAB"
    mode = draw(st.sampled_from(["plain", "goal", "stop"] + ["features", "features+goal", "features", "features+stop"] * gf))
    if "features" in mode:
        extra, what = draw(runs.features(cfg))
        case.update(extra)
        case["what"] = sorted(what)
    if "goal" in mode:
        case["goal"] = draw(gen.fl(-3, 5))
    elif "stop" in mode:
        ev = {"type": draw(st.sampled_from(["user_stop", "status"])), "at": draw(st.integers(1, maxe[1]))}
        if ev["type"] == "status":
            ev.update(code=-1, fom=draw(st.sampled_from(["same", "best", "none"])))
        case["event"] = ev
    case["mode"] = mode
    # a figure of merit that remembers its answers is only meaningful when they depend on the controls alone
    case["memo"] = "stop" not in mode and algs[0] != "AD" and case["obj"]["kind"] != "table" and draw(st.booleans())
    return case


def one(case, direction):
    cfg = copy.deepcopy(case["cfg"])
    a = cfg["algorithm_settings"]
    a["optimization_direction"] = direction
    kw = {}
    if "goal" in case:
        a["FoM_goal"] = case["goal"] if direction == "minimization" else -case["goal"]
    if "event" in case:
        kw["events"] = [case["event"]]
    kw.update(runs.extra_kw(case))
    sysd = cfg.pop("sys", None)
    grape, ad = a["algorithm_name"] == "GRAPE", a["algorithm_name"] == "AD"
    kw["fom_class"] = quant.ADFoM if ad else (MemoGrape if grape else MemoRec) if case["memo"] else (
        quant.GrapeFoM if grape else sut.RecFoM)
    if sysd:
        kw["system"] = sysd
    with sut.scratch():
        return sut.optimize(cfg, case["obj"], **kw)


def negated(x):
    return -x if x is not None else None


def check(case, ctx):
    lo, hi = one(case, "minimization"), one(case, "maximization")
    ad = runs.alg_name(case["cfg"]) == "AD"
    tol = 1e-5 if ad else 1e-12
    ctx.expect(len(lo.evals) == len(hi.evals), "number", "%d evaluations minimising -f, %d maximising f" % (
        len(lo.evals), len(hi.evals)))
    for a, b in zip(lo.evals, hi.evals):
        ctx.expect(sut.same_controls(a, b["pulses"], b["timegrids"], b["parameters"], tol), "controls",
                   lambda: "evaluation %d differs by %s" % (a["k"], sut.diff_controls(a, b["pulses"], b["parameters"])))
    f1, f2 = lo.final["Figure of merit"], hi.final["Figure of merit"]
    ctx.expect(abs(f1 + f2) <= 1e-9 * max(1, abs(f1)), "reported", "reported %r minimising -f and %r maximising f" % (f1, f2))
    for k in sorted(set(lo.final) | set(hi.final)):
        if k not in ("Figure of merit", "dcrab_freq_list", "dcrab_para_list", "parameters"):
            ctx.expect(lo.final.get(k) == hi.final.get(k), "results", "%s: %r and %r" % (k, lo.final.get(k), hi.final.get(k)))
    ctx.expect(sut.close([np.asarray(p) for p in lo.best["pulses"]], [np.asarray(p) for p in hi.best["pulses"]], tol, tol)
               and sut.close(np.asarray(lo.best["parameters"], complex), np.asarray(hi.best["parameters"], complex), tol, tol),
               "best-controls", "the best controls differ")
    ctx.expect((lo.file is None) == (hi.file is None), "file", "a best-controls file exists in one direction only")
    if lo.file is not None:
        for k in lo.file:
            if k not in hi.file:
                ctx.fail("file", "key %s is missing when maximising" % k)
            x, y = np.asarray(lo.file[k]), np.asarray(hi.file[k])
            same = sut.close(x, y, tol, tol) if x.dtype.kind in "fciu" else np.array_equal(x, y)
            ctx.expect(same, "file", lambda: "%s: %s and %s" % (k, x, y))
    l1, l2 = list(lo.alg.FoM_list), list(hi.alg.FoM_list)
    ctx.expect(len(l1) == len(l2) and sut.close(np.array(l1, float), -np.array(l2, float), 1e-9, 1e-9), "history",
               lambda: "histories %s and %s" % (l1[:6], l2[:6]))
    ctx.expect(list(lo.alg.iteration_number_list) == list(hi.alg.iteration_number_list), "numbers", "evaluation numbers differ")
    runs.labels(ctx, case["cfg"], lo)
    ctx.label(case["mode"], *case.get("what", []))
    ctx.label("memo" if case["memo"] else "fresh")
    ctx.nt(len(lo.evals) > 3)


FAMILIES = [Family("gradient-free", strategy, check, 1280, 16000, rule="more than three evaluations"),
            Family("grape", lambda: strategy(("GRAPE",), (3, 30)), check, 240, 3000, rule="more than three evaluations"),
            Family("ad", lambda: strategy(("AD",), (3, 6)), check, 32, 400, rule="more than three evaluations")]

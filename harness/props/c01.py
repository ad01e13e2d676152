"""C01: amplitude limits, exact limiting at unit level and the invariant over whole runs."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import ctl, gen, sut
from .. import pulsemodel as pm
from ..engine import Family

ENDS = st.lists(st.sampled_from(ctl.STEPS), max_size=6).map(lambda s: s + ["limit_pulse"])


@st.composite
def unit_strategy(draw):
    case = draw(ctl.ctl_case(npulses=(1, 2), nparams=(0, 0), max_ops=5, steps=ENDS, minbins=1,
                             ops=("get", "get", "base", "basis")))
    for p in case["cfg"]["pulses"]:
        p.pop("shrink_ampl_lim", None)
        if draw(st.booleans()):
            p["shrink_ampl_lim"] = True
        if draw(st.integers(0, 3)) == 0:
            p.pop("shaping_options", None)
    return case


def bounds(p):
    return sorted((p["lower_limit"], p["upper_limit"]))


def unit(case, ctx):
    cfg = case["cfg"]
    free = copy.deepcopy(cfg)
    for p in free["pulses"]:
        p["shaping_options"] = pm.steps_of(p)[:-1]
    got, raw = [], []
    for c, dst in ((cfg, got), (free, raw)):
        ctl.drive({"cfg": c, "ops": case["ops"], "seed": case["seed"]},
                  lambda kind, x, act, model, con, dst=dst: dst.append([np.array(v) for v in act[0]])
                  if kind == "get" else None)
    for g, r in zip(got, raw):
        for p, a, v in zip(cfg["pulses"], g, r):
            lo, hi = bounds(p)
            s = max(1.0, abs(lo), abs(hi))
            shrink = bool(p.get("shrink_ampl_lim"))
            tol = 1e-9 * max(s, float(np.max(np.abs(v)))) if shrink else 1e-12 * s
            ctx.expect(a.min() >= lo - tol and a.max() <= hi + tol, "out-of-limits", lambda: (
                "pulse spans %r..%r, limits %r..%r (shrink %s)" % (a.min(), a.max(), lo, hi, shrink)))
            e = pm.limited(p, v)
            ctx.expect(sut.close(a, e, 1e-9, max(tol, 1e-9)), "limiting", lambda: (
                "limits %r..%r shrink %s: %s became %s instead of %s" % (lo, hi, shrink, v[:6], a[:6], e[:6])))
            over, under = v.max() > hi, v.min() < lo
            ctx.label(("shrink:" if shrink else "clip:") + (
                "inside" if not over and not under else "both" if over and under else "beyond"
                if v.min() >= hi or v.max() <= lo else "upper" if over else "lower"))
            if p["lower_limit"] > p["upper_limit"]:
                ctx.label("limits swapped")
            ctx.nt(over or under)


@st.composite
def run_strategy(draw):
    cfg = draw(gen.dcrab_cfg(max_si=3, max_eval_total=(2, 60), pulses=(1, 2), params=(0, 1), maxbins=10, maxk=2,
                             shapings=[None, None, ctl.STEPS[:4][::-1] + ["limit_pulse"],
                                       ["add_base_pulse", "add_new_update_pulse", "limit_pulse"]]))
    for p in cfg["pulses"]:
        if draw(st.booleans()):
            p["upper_limit"] = round(p["lower_limit"] + draw(gen.fl(0.05, 0.8)), 6)
    return {"cfg": cfg, "obj": draw(gen.objective_spec(table=True))}


def run(case, ctx):
    cfg = case["cfg"]
    with sut.scratch():
        r = sut.optimize(cfg, case["obj"])
        touched = False
        groups = [("evaluation %d" % e["k"], e["pulses"]) for e in r.evals]
        groups.append(("best controls", r.best["pulses"]))
        groups.append(("file", [r.file[p["pulse_name"]] for p in cfg["pulses"]]))
        for where, pulses in groups:
            for p, v in zip(cfg["pulses"], pulses):
                lo, hi = bounds(p)
                v = np.asarray(v, float)
                tol = 1e-9 * max(1.0, abs(lo), abs(hi))
                if p.get("shrink_ampl_lim"):
                    tol *= 100
                ctx.expect(v.min() >= lo - tol and v.max() <= hi + tol, "out-of-limits", lambda: (
                    "%s: pulse %s spans %r..%r, limits %r..%r" % (where, p["pulse_name"], v.min(), v.max(), lo, hi)))
                touched = touched or np.any(np.abs(v - lo) < tol) or np.any(np.abs(v - hi) < tol)
        ctx.nt(touched and len(r.evals) > 2)
        ctx.label("touched" if touched else "free", "SIs:%d" % cfg["algorithm_settings"]["super_iteration_number"])


FAMILIES = [Family("limiting", unit_strategy, unit, 2400, 30000, rule="some pulse exceeds a limit before the last step"),
            Family("run", run_strategy, run, 640, 8000,
                   rule="more than two evaluations and some sample sits on a limit")]

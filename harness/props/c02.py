"""C02: parameter limits and start values, at unit level and over runs."""
import numpy as np
from hypothesis import strategies as st

from .. import ctl, gen, sut
from .. import pulsemodel as pm
from ..engine import Family


def unit_strategy():
    return ctl.ctl_case(npulses=(0, 1), nparams=(1, 5), max_ops=6, maxk=1, maxbins=4,
                        ops=("get", "get", "base", "basis"))


def unit(case, ctx):
    cfg = case["cfg"]
    out = set()

    def visit(kind, x, act, model, con):
        if kind != "get":
            return
        for (k, q, a, b), in zip([l for l in model.layout if l[0] == "parameter"]):
            got = act[2][[r for r in cfg["parameters"]].index(q)]
            want = pm.param_value(q, x[a])
            out.add("low" if x[a] < q["lower_limit"] else "high" if x[a] > q["upper_limit"] else "inside")
            ctx.expect(abs(float(got) - want) <= 1e-12 * max(1, abs(want)), "parameter-value",
                       "parameter %s proposed %r became %r (limits %r %r)" % (q["parameter_name"], x[a], got,
                                                                             q["lower_limit"], q["upper_limit"]))
    ctl.drive(case, visit)
    ctx.label(*out)
    ctx.nt("low" in out or "high" in out)


@st.composite
def run_strategy(draw):
    if draw(st.booleans()):
        cfg = draw(gen.dcrab_cfg(max_si=3, max_eval_total=(1, 60), params=(1, 3), pulses=(0, 1), maxbins=6, maxk=1))
    else:
        cfg = draw(gen.ds_cfg(max_eval_total=(1, 60)))
    for q in cfg["parameters"]:
        if draw(st.booleans()):
            w = q["upper_limit"] - q["lower_limit"]
            q["amplitude_variation"] = round(w * draw(st.sampled_from([0.5, 1.0, 3.0])), 6)
    return {"cfg": cfg, "obj": draw(gen.objective_spec(table=True))}


def run(case, ctx):
    cfg = case["cfg"]
    with sut.scratch():
        r = sut.optimize(cfg, case["obj"])
        qs = cfg["parameters"]
        at = set()
        for ev in r.evals:
            for q, x in zip(qs, ev["parameters"]):
                ctx.expect(q["lower_limit"] - 1e-12 <= x <= q["upper_limit"] + 1e-12, "outside",
                           "evaluation %d got %s = %r, limits %r..%r" % (ev["k"], q["parameter_name"], x,
                                                                        q["lower_limit"], q["upper_limit"]))
                if x in (q["lower_limit"], q["upper_limit"]):
                    at.add("at limit")
        for q, x in zip(qs, r.evals[0]["parameters"]):
            ctx.expect(abs(x - q["initial_value"]) <= 1e-12, "first-value", "first evaluation has %s = %r, configured "
                       "initial value %r" % (q["parameter_name"], x, q["initial_value"]))
        for where, vals in (("best controls", r.best["parameters"]),
                            ("file", [r.file[q["parameter_name"]] for q in qs]),
                            ("results", (r.final or {}).get("parameters", []))):
            for q, x in zip(qs, np.ravel(np.asarray(vals, float)) if len(vals) else []):
                ctx.expect(q["lower_limit"] - 1e-12 <= x <= q["upper_limit"] + 1e-12, "outside-result",
                           "%s: %s = %r, limits %r..%r" % (where, q["parameter_name"], x, q["lower_limit"],
                                                           q["upper_limit"]))
        ctx.label(*at)
        ctx.label(cfg["algorithm_settings"]["algorithm_name"])
        ctx.nt(len(r.evals) > 1 and bool(at))


FAMILIES = [Family("unit", unit_strategy, unit, 1600, 20000, rule="some proposed value lies outside its limits"),
            Family("run", run_strategy, run, 800, 10000, rule="a run of two or more evaluations in which some parameter "
                   "reached the figure of merit at one of its limits")]

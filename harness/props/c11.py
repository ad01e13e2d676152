"""C11: where each super-iteration starts."""
import json
import re

import numpy as np
from hypothesis import strategies as st

from .. import ctl, gen, runs, sut
from .. import pulsemodel as pm
from ..engine import Family


@st.composite
def strategy(draw, overwrite=False):
    cfg = draw(gen.dcrab_cfg(max_si=5, max_eval_total=(20, 150), maxbins=10, maxk=2, tight=None))
    a = cfg["algorithm_settings"]
    a["super_iteration_number"] = draw(st.integers(2, 5))
    a["dsm_settings"]["stopping_criteria"]["max_eval"] = draw(st.integers(2, 30))
    if overwrite:
        for p in cfg["pulses"]:
            if draw(st.integers(0, 2)):
                p["overwrite_base_pulse"] = True
    return {"cfg": cfg, "obj": draw(gen.objective_spec(table=True))}


def initial(ctx, cfg, e):
    for i, p in enumerate(cfg["pulses"]):
        want = pm.shape(p, pm.final_time(cfg, p), np.zeros(p["bins_number"]), np.zeros(p["bins_number"]))
        ctx.expect(sut.close(e["pulses"][i], want, 1e-9, 1e-9), "first-pulse", lambda: "the run starts with %s = %s, the "
                   "shaped initial guess is %s" % (p["pulse_name"], e["pulses"][i][:5], want[:5]))
    for q, x in zip(cfg["parameters"], e["parameters"]):
        ctx.expect(abs(x - q["initial_value"]) <= 1e-12, "first-parameter", "the run starts with %s = %r instead of %r" % (
            q["parameter_name"], x, q["initial_value"]))


def compare(ctx, cfg, e, b, skip, tol=1e-7):
    for i, p in enumerate(cfg["pulses"]):
        if not skip(p):
            # relative to the unit of the pulse
            atol = tol * min(1.0, max(abs(p["upper_limit"]), abs(p["lower_limit"]), p["amplitude_variation"]))
            ctx.expect(sut.close(e["pulses"][i], b["pulses"][i], tol, atol), "si-start-pulse", lambda: (
                "super-iteration %d starts (evaluation %d) with %s = %s, the best so far (evaluation %d) had %s" % (
                    e["si"], e["k"], p["pulse_name"], e["pulses"][i][:5], b["k"], b["pulses"][i][:5])))
    ctx.expect(sut.close(np.array(e["parameters"]), np.array(b["parameters"]), 1e-9, 1e-9), "si-start-parameter",
               lambda: "super-iteration %d starts with parameters %s, the best so far had %s" % (
                   e["si"], e["parameters"], b["parameters"]))


def check(case, ctx):
    cfg = case["cfg"]
    over = [p for p in cfg["pulses"] if p.get("overwrite_base_pulse")]
    with sut.scratch():
        r = runs.run(cfg, case["obj"], attach=runs.attach_si)
    initial(ctx, cfg, r.evals[0])
    segs = runs.segments(r.evals)
    model = ctl.Model(cfg)
    moved = 0
    for i, s in enumerate(segs[1:]):
        best = runs.best_of(r.evals, s[0]["k"] - 1)
        compare(ctx, cfg, s[0], best, lambda p: p.get("overwrite_base_pulse"))
        moved += best["k"] > 1
        if over:
            # the base pulse of an overwriting pulse is the update of the last super-iteration alone
            model.set_w(r.final["dcrab_freq_list"][i])
            x = np.array(r.final["dcrab_para_list"][i], float)
            ups = model.updates(x)
            for j, p in enumerate(cfg["pulses"]):
                if not p.get("overwrite_base_pulse"):
                    continue
                want = pm.shape(p, pm.final_time(cfg, p), ups[j], np.zeros(p["bins_number"]))
                ctx.expect(sut.close(s[0]["pulses"][j], want, 1e-7, 1e-7), "overwrite", lambda: (
                    "super-iteration %d starts with %s = %s; overwritten with the last update it is %s" % (
                        s[0]["si"], p["pulse_name"], s[0]["pulses"][j][:5], want[:5])))
                # and that update is the one of the best evaluation of the last super-iteration, if it made a record
                rec = runs.best_of(r.evals[:s[0]["k"] - 1])
                if rec["si"] == s[0]["si"] - 1 == 1:
                    ctx.expect(sut.close(s[0]["pulses"][j], rec["pulses"][j], 1e-7, 1e-7), "overwrite-record",
                               lambda: "%s of the record is not kept" % p["pulse_name"])
    runs.labels(ctx, cfg, r)
    ctx.label("%d SIs" % len(segs), *[p["basis"]["basis_name"] for p in cfg["pulses"]])
    ctx.nt(moved > 0)


@st.composite
def feature_strategy(draw):
    case = draw(strategy())
    extra, what = draw(runs.features(case["cfg"], ("reeval", "drift", "periodic")))
    return {**case, **extra, "what": sorted(what)}


def with_features(case, ctx):
    """With re-evaluation or drift compensation the record, whose controls the file holds, is the best so far."""
    cfg = case["cfg"]
    with sut.scratch():
        r = runs.run(cfg, case["obj"], attach=runs.attach_si, snapshot=True, **runs.extra_kw(case))
    initial(ctx, cfg, r.evals[0])
    segs = runs.segments(r.evals)
    moved = 0
    for s in segs[1:]:
        f = s[0]["snapshot"]
        if f is None:
            continue
        b = {"k": int(np.asarray(f["iteration_number"])), "pulses": [np.asarray(f[p["pulse_name"]]) for p in cfg["pulses"]],
             "parameters": [float(np.asarray(f[q["parameter_name"]])) for q in cfg["parameters"]]}
        compare(ctx, cfg, s[0], b, lambda p: False)
        moved += b["k"] > 1
    runs.labels(ctx, cfg, r)
    ctx.label("%d SIs" % len(segs), *case["what"])
    ctx.nt(moved > 0)


JNP = re.compile(r"\bjnp\b")


def numpy_functions(cfg):
    """The same configuration with numpy functions for the model."""
    c = json.loads(JNP.sub("np", json.dumps(cfg)))
    return c


@st.composite
def gradient_strategy(draw, algs, **kw):
    cfg = draw(runs.any_cfg(algs=algs, **kw))
    if runs.alg_name(cfg) == "AD":
        a = cfg["algorithm_settings"]
        a["super_iteration_number"] = draw(st.integers(2, 3))
        a["stopping_criteria"]["max_eval_total"] = draw(st.integers(1, 3))
        a["max_eval_total"] = draw(st.integers(5, 10))
    return {"cfg": cfg, "obj": draw(gen.objective_spec(table=True))}


def gradient(case, ctx):
    """A search of a gradient-based algorithm starts within one amplitude variation of the initial controls or, after the
    first super-iteration, of the best so far."""
    cfg = case["cfg"]
    alg = runs.alg_name(cfg)
    with sut.scratch():
        r = runs.run(cfg, case["obj"], attach=runs.attach_si)
    c = numpy_functions(cfg)
    tol = 2e-5 if alg == "AD" else 1e-9
    moved = 0
    for i, s in enumerate(runs.segments(r.evals)):
        best = runs.best_of(r.evals, s[0]["k"] - 1) if i else None
        if i and best is None:
            continue
        for j, p in enumerate(c["pulses"]):
            n, T = p["bins_number"], pm.final_time(c, p)
            steps = pm.steps_of(p)
            if p.get("shrink_ampl_lim") or "add_base_pulse" not in steps or steps.count("add_new_update_pulse") > 1:
                continue
            try:
                scale = pm.scale_value(p, T, np.ones(n)) - pm.scale_value(p, T, np.zeros(n))
                affine = pm.scale_value(p, T, 3.0 * np.ones(n)) - pm.scale_value(p, T, np.zeros(n))
            except Exception:  # noqa
                continue
            if not sut.close(affine, 3.0 * scale, 1e-9, 1e-9) or pm.nonlinear_scaling(p):
                continue
            reach = p["amplitude_variation"] * np.maximum(np.abs(scale), 0.0 if "scale_pulse" in steps else 1.0)
            if steps.count("scale_pulse") > 1 or "scale_pulse" not in steps or (
                    steps.index("scale_pulse") < max(k for k, x in enumerate(steps) if x == "add_new_update_pulse")):
                reach = np.maximum(p["amplitude_variation"], reach * np.maximum(1.0, np.abs(scale)))
            at = np.real(s[0]["pulses"][j])[:n]
            frm = np.real(best["pulses"][j])[:n] if i else pm.shape(p, T, np.zeros(n), np.zeros(n))
            size = max(1e-3, np.abs(frm).max(), np.abs(at).max(), abs(p["upper_limit"]), abs(p["lower_limit"]))
            ctx.expect(np.all(np.abs(at - frm) <= reach * (1 + 1e-5) + tol * size), "gradient-start-pulse", lambda: (
                "search %d starts (evaluation %d) with %s = %s, %s with an amplitude variation of %g (scaling %s)" % (
                    i + 1, s[0]["k"], p["pulse_name"], at, "the best so far (evaluation %d) had %s" % (best["k"], frm) if i else
                    "the initial guess is %s" % frm, p["amplitude_variation"], scale)))
        for q, x, j in zip(c["parameters"], s[0]["parameters"], range(99)):
            frm = best["parameters"][j] if i else q["initial_value"]
            d = abs(x - frm)
            ctx.expect(d <= q["amplitude_variation"] * (1 + 1e-5) + tol * max(1e-3, abs(x), abs(frm)), "gradient-start-parameter",
                       "search %d starts with %s = %r, %g away from %r with an amplitude variation of %g" % (
                           i + 1, q["parameter_name"], x, d, frm, q["amplitude_variation"]))
        moved += i > 0 and best["k"] > 1
    runs.labels(ctx, cfg, r)
    ctx.nt(moved > 0 or alg == "GRAPE")


FAMILIES = [Family("start", strategy, check, 960, 12000, rule="a super-iteration starts from controls other than the guess"),
            Family("features", feature_strategy, with_features, 480, 6000, rule="as start"),
            Family("overwrite", lambda: strategy(True), check, 320, 4000, rule="as start"),
            Family("grape", lambda: gradient_strategy(("GRAPE",)), gradient, 160, 2000, rule="every case"),
            Family("ad", lambda: gradient_strategy(("AD",)), gradient, 40, 600,
                   rule="a super-iteration after the first starts after an improvement")]

"""Shared strategies and oracles for whole-run properties."""
import copy

import numpy as np
from hypothesis import strategies as st

from . import gen, quant, sut
from . import pulsemodel as pm


@st.composite
def any_cfg(draw, algs=("dCRAB", "dCRAB", "DirectSearch"), max_si=4, max_eval_total=(3, 90), fmt=True, other=False, **kw):
    a = draw(st.sampled_from(algs))
    if a == "dCRAB":
        cfg = draw(gen.dcrab_cfg(max_si=max_si, max_eval_total=max_eval_total, maxbins=10, maxk=2, **kw))
    elif a == "DirectSearch":
        cfg = draw(gen.ds_cfg(max_eval_total=max_eval_total))
    elif a == "GRAPE":
        cfg = draw(quant.grape_cfg(max_eval_total=max_eval_total))
        cfg["sys"] = draw(quant.grape_sys(arbitrary=True))
    else:
        cfg = draw(ad_cfg(max_eval_total))
    if fmt:
        f = draw(st.sampled_from([None, "npz", "json"]))
        if f:
            cfg["dump_format"] = f
    if other and draw(st.integers(0, 7)) == 0:
        # another optimisation in the same process, between the preparation and the start of this one or inside it
        cfg["_other"] = {"n": draw(st.integers(3, 25)), "at": draw(st.sampled_from([0, 0, 1, 2, 5]))}
    return cfg


AD_GUESS = [None, "lambda t: 0.5 + 0.0*t", "lambda t: jnp.sin(jnp.pi*t)", "lambda t: 2.0*t - 1.0"]
AD_SCALE = [None, "lambda t: jnp.exp(-t)", "lambda t: 2.5 + 0.0*t", "lambda t: jnp.tanh(3.0*t)"]


@st.composite
def ad_cfg(draw, max_eval_total=(2, 8), max_si=2, maxbins=5, tight=False, direction=True, npul=(1, 2), npar=(0, 2)):
    times = draw(gen.times_spec())
    pulses = []
    for i in range(draw(st.integers(*npul))):
        t = draw(st.sampled_from(times))
        g, s = draw(st.sampled_from(AD_GUESS)), draw(st.sampled_from(AD_SCALE))
        w = draw(st.sampled_from([0.7, 3.0] if tight else [20.0, 20.0, 1.0]))
        p = {"pulse_name": "Pulse%d" % (i + 1), "bins_number": draw(st.integers(2, maxbins)), "upper_limit": w,
             "lower_limit": round(-w * draw(st.sampled_from([1.0, 0.5])), 6), "time_name": t["time_name"],
             "amplitude_variation": draw(gen.fl(0.05, 1.0)), "basis": {"basis_name": "PiecewiseBasis"}}
        if g:
            p["initial_guess"] = {"function_type": "lambda_function", "lambda_function": g}
        if s:
            p["scaling_function"] = {"function_type": "lambda_function", "lambda_function": s}
        pulses.append(p)
    n = draw(st.integers(*npar))
    alg = {"algorithm_name": "AD", "max_eval_total": draw(st.integers(*max_eval_total)),
           "super_iteration_number": draw(st.integers(1, max_si)),
           "stopping_criteria": {"max_eval_total": draw(st.integers(1, 4)), "ftol": 1e-10, "gtol": 1e-8},
           "random_number_generator": {"seed_number": draw(st.integers(0, 2 ** 31 - 1))}}
    if direction and draw(st.booleans()):
        alg["optimization_direction"] = draw(st.sampled_from(["minimization", "maximization"]))
    return {"algorithm_settings": alg, "times": times, "pulses": pulses,
            "parameters": [draw(gen.param_spec(i)) for i in range(n)]}


@st.composite
def features(draw, cfg, kinds=("reeval", "drift", "periodic", "cbs"), least=1):
    """Optional parts of the gradient-free algorithms, in any combination (added to cfg). Returns what the figure of merit
    has to supply for them, and their names."""
    a = cfg["algorithm_settings"]
    if alg_name(cfg) == "DirectSearch":
        kinds = [k for k in kinds if k != "drift"]
    what = draw(st.lists(st.sampled_from(list(kinds)), min_size=least, max_size=len(kinds), unique=True))
    extra = {}
    if "reeval" in what:
        a["re_evaluation"] = {"re_evaluation_steps": draw(st.sampled_from([[0.3, 0.5, 0.501], [0.5], [0.1, 0.6], [0.7, 0.2]]))}
        extra["std"] = draw(st.lists(gen.fl(0.0, 1.0), min_size=1, max_size=4))
    if "drift" in what or "periodic" in what:
        a["compensate_drift"] = {"num_average": draw(st.integers(1, 3))}
        if "drift" in what:
            a["compensate_drift"]["compensate_after_SI"] = True
        if "periodic" in what:
            a["compensate_drift"]["compensate_after_minutes"] = draw(st.integers(1, 12)) / 2.0
            extra["ticks"] = draw(st.lists(st.sampled_from([5, 15, 30, 60]), min_size=1, max_size=4))
    if "cbs" in what:
        a["dsm_settings"]["stopping_criteria"]["change_based_stop"] = {
            "cbs_funct_evals": draw(st.integers(2, 8)), "cbs_change": draw(st.sampled_from([0.01, 0.3, 2.0]))}
    return extra, what


def extra_kw(case):
    """Keyword arguments of run() for the features of a case."""
    kw = {}
    if "std" in case:
        kw["std"] = case["std"]
    if "ticks" in case:
        kw.update(clock=sut.Clock(), ticks=case["ticks"])
    return kw


def alg_name(cfg):
    return cfg["algorithm_settings"]["algorithm_name"]


def run(cfg, obj, **kw):
    """sut.optimize with the figure-of-merit class that fits the algorithm."""
    c = copy.deepcopy(cfg)
    sysd = c.pop("sys", None)
    other = c.pop("_other", None)
    if other is not None:
        o = copy.deepcopy(c)
        o["algorithm_settings"]["max_eval_total"] = other["n"]
        o["algorithm_settings"]["random_number_generator"] = {"seed_number": other["n"]}
        for p in o["pulses"]:
            p["amplitude_variation"] *= 1.25
        for t in o["times"]:
            t["initial_value"] *= 1.0625
        for q in o["parameters"]:
            q["initial_value"] = q["lower_limit"] = 0.75 * q["lower_limit"] + 0.25 * q["upper_limit"]
        kw["other"] = {"cfg": o, "at": other["at"]}
    if alg_name(cfg) == "GRAPE":
        kw.setdefault("fom_class", quant.GrapeFoM)
        return sut.optimize(c, obj, system=sysd, **kw)
    if alg_name(cfg) == "AD":
        kw.setdefault("fom_class", quant.ADFoM)
    return sut.optimize(c, obj, **kw)


def best_of(evals, upto=None):
    """First evaluation with the lowest minimised value among the finished valid ones."""
    best = None
    for e in evals[:upto]:
        if e["status"] == 0 and e["F"] == e["F"] and (best is None or e["F"] < best["F"]):
            best = e
    return best


def file_matches(ctx, cfg, f, e, where, tol=1e-12):
    """The best-controls file f describes exactly evaluation e."""
    if e is None:
        ctx.expect(f is None, "file-without-evaluation", "%s: a best-controls file exists before any evaluation" % where)
        return
    ctx.expect(f is not None, "file-missing", "%s: no best-controls file" % where)
    ctx.expect(not isinstance(f, str), "file-unreadable", "%s: %s" % (where, f))
    for i, p in enumerate(cfg["pulses"]):
        v = np.asarray(f[p["pulse_name"]])
        n = p["bins_number"]
        want = e["pulses"][i]
        ctx.expect(sut.close(v, want, tol, tol), "file-pulse", lambda: (
            "%s: pulse %s in the file is %s, evaluation %d had %s" % (where, p["pulse_name"], v[:5], e["k"], want[:5])))
        g = np.asarray(f["time_grid_for_" + p["pulse_name"]])
        ctx.expect(sut.close(g, e["timegrids"][i], tol, tol), "file-timegrid", lambda: (
            "%s: time grid of %s in the file is %s, evaluated on %s" % (where, p["pulse_name"], g[:5],
                                                                      e["timegrids"][i][:5])))
    for q, x in zip(cfg["parameters"], e["parameters"]):
        v = complex(np.asarray(f[q["parameter_name"]]).reshape(-1)[0]).real
        ctx.expect(abs(v - x) <= tol * max(1, abs(x)), "file-parameter", "%s: parameter %s in the file is %r, evaluation "
                   "%d had %r" % (where, q["parameter_name"], v, e["k"], x))
    ctx.expect(int(np.asarray(f["iteration_number"])) == e["k"], "file-number", "%s: file says evaluation %s, expected %d" % (
        where, f["iteration_number"], e["k"]))
    v = float(np.asarray(f["FoM"]))
    ctx.expect(abs(v - e["F"]) <= 1e-9 * max(1, abs(e["F"])), "file-fom", "%s: file says FoM %r, expected %r" % (
        where, v, e["F"]))


def labels(ctx, cfg, r):
    a = cfg["algorithm_settings"]
    ctx.label(a["algorithm_name"], a.get("optimization_direction", "minimization"))
    if "dsm_settings" in a:
        ctx.label(a["dsm_settings"]["general_settings"]["dsm_algorithm_name"])


def attach_si(r):
    """Make every recorded evaluation carry the super-iteration it belongs to."""
    alg, fom = r.alg, r.fom
    old = fom.hook

    def hook(rec, res):
        rec["si"] = int(getattr(alg, "super_it", 1) or 1)
        if old:
            old(rec, res)
    fom.hook = hook


def segments(evals):
    """Evaluations grouped by super-iteration, in order."""
    out = []
    for e in evals:
        if not out or out[-1][0]["si"] != e["si"]:
            out.append([])
        out[-1].append(e)
    return out

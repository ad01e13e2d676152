"""C38: a setting that is left out has its documented default, and entries QuOCS does not know have no effect."""
import copy
import glob
import json
import os
import re

import numpy as np
from hypothesis import strategies as st

from .. import gen, quant, runs, sut
from ..engine import Family

FAR = 10 ** 15
SHAPING = ["add_initial_guess", "add_base_pulse", "add_new_update_pulse", "scale_pulse", "limit_pulse"]
ZERO = {"function_type": "lambda_function", "lambda_function": "lambda t: 0.0*t"}
ONE = {"function_type": "lambda_function", "lambda_function": "lambda t: 1.0 + 0.0*t"}
TOP = {"dump_format": "npz", "create_logfile": True, "console_info": True, "use_microsecond_name": False}
PULSE = {"pulse_name": "pulse", "upper_limit": 1.0, "lower_limit": 0.0, "bins_number": 101, "time_name": "time",
         "amplitude_variation": 1.0, "shrink_ampl_lim": False, "scaling_function": ONE, "initial_guess": ZERO,
         "shaping_options": SHAPING}
PARAMETER = {"parameter_name": "parameter", "lower_limit": 0.1, "upper_limit": 1.1, "initial_value": 1.0,
             "amplitude_variation": 0.1}
TIME = {"time_name": "time", "initial_value": 1.0}
COMMENTS = [("comment", "a remark"), ("_note", None), ("version", 3), ("author", {"name": "x"}), ("max_eval_comment", [1, "2"]),
            ("description of the pulse", True), ("todo", "")]
DEFAULT_RNG = {"distribution_name": "Uniform", "lower_limit": 0.3, "upper_limit": 0.6}


def options(cfg):
    """Where the configuration can leave something out: (path, name, default)."""
    a = cfg["algorithm_settings"]
    alg = a["algorithm_name"]
    out = [((), k, v) for k, v in TOP.items()]
    out += [(("algorithm_settings",), "optimization_direction", "minimization"), (("algorithm_settings",), "FoM_goal", "never"),
            (("algorithm_settings",), "total_time_lim", FAR)]
    if "dsm_settings" in a:
        s, g = ("algorithm_settings", "dsm_settings", "stopping_criteria"), ("algorithm_settings", "dsm_settings",
                                                                           "general_settings")
        out += [(s, "time_lim", FAR), (s, "max_eval", FAR), (s, "xatol", 1e-14), (s, "fatol", 1e-100)]
        if a["dsm_settings"]["general_settings"]["dsm_algorithm_name"] == "NelderMead":
            out.append((g, "is_adaptive", False))
        else:
            out.append((g, "population", "4 + 3 log(N)"))
        # the total number stays limited by the limit of the direct searches
        out.append((("algorithm_settings",), "max_eval_total", FAR))
        if "compensate_drift" in a:
            out.append((("algorithm_settings", "compensate_drift"), "num_average", 1))
    for i, p in enumerate(cfg["pulses"]):
        for k, v in PULSE.items():
            if k == "pulse_name" and i:
                continue
            if k == "bins_number" and alg == "GRAPE":
                continue
            if k in ("amplitude_variation", "scaling_function", "shaping_options", "initial_guess") and alg == "GRAPE":
                continue
            out.append((("pulses", i), k, v))
        b = p["basis"]
        if "basis_vector_number" in b:
            out.append((("pulses", i, "basis"), "basis_vector_number", 1))
        if b["basis_name"] == "Sigmoid":
            out += [(("pulses", i, "basis"), "sigma", 0.1), (("pulses", i, "basis"), "offset", 0.1)]
        if b["basis_name"] == "Sinc":
            out.append((("pulses", i, "basis"), "basis_max", 1.0))
    for i in range(len(cfg["parameters"])):
        out += [(("parameters", i), k, v) for k, v in PARAMETER.items() if not (i and k == "parameter_name")]
    for i in range(len(cfg["times"])):
        if alg != "GRAPE":
            out += [(("times", i), k, v) for k, v in TIME.items() if not (i and k == "time_name")]
    return out


def at(cfg, path):
    for x in path:
        cfg = cfg[x]
    return cfg


def comment_places(cfg):
    out = [(), ("algorithm_settings",)] + [("pulses", i) for i in range(len(cfg["pulses"]))]
    if "dsm_settings" in cfg["algorithm_settings"]:
        d = ("algorithm_settings", "dsm_settings")
        out += [d, d + ("general_settings",), d + ("stopping_criteria",)]
    return out


def consistent(cfg):
    """Make the rest of the configuration fit the values that were set."""
    a = cfg["algorithm_settings"]
    for t, old in zip(cfg["times"], cfg.pop("_times")):
        if t["time_name"] != old:
            for p in cfg["pulses"]:
                if p["time_name"] == old:
                    p["time_name"] = t["time_name"]
    names = [t["time_name"] for t in cfg["times"]]
    for p in cfg["pulses"]:
        if p["time_name"] not in names:
            # the pulse leaves its time out: the first time is the one with the default name
            for q in cfg["pulses"]:
                if q["time_name"] == names[0]:
                    q["time_name"] = "time"
            cfg["times"][0]["time_name"] = names[0] = "time"
    for p in cfg["pulses"]:
        if p["upper_limit"] == p["lower_limit"]:
            p["amplitude_variation"] = 0.5
        for k in ("initial_guess", "scaling_function"):
            f = p.get(k, {})
            if "list_function" in f and len(f["list_function"]) != p["bins_number"]:
                v = f["list_function"]
                f["list_function"] = [v[i % len(v)] for i in range(p["bins_number"])]
        b, T = p["basis"], next(t["initial_value"] for t in cfg["times"] if t["time_name"] == p["time_name"])
        if "offset" in b:
            r = b["random_super_parameter_distribution"]
            r["lower_limit"], r["upper_limit"] = b["offset"], max(b["offset"] * 1.5, round(T - b["offset"], 6))
    for q in cfg["parameters"]:
        if q["lower_limit"] >= q["upper_limit"]:
            q["lower_limit"], q["upper_limit"] = q["upper_limit"] - 0.25, q["lower_limit"] + 0.25
        q["lower_limit"], q["upper_limit"] = min(q["lower_limit"], q["initial_value"]), max(q["upper_limit"], q["initial_value"])
    return cfg


def explicit(cfg, chosen, most=40):
    """The configuration with the chosen options at their defaults; the options which can be left out."""
    c = copy.deepcopy(cfg)
    c["_times"] = [t["time_name"] for t in c["times"]]
    a = c["algorithm_settings"]
    for path, k, v in chosen:
        at(c, path)[k] = copy.deepcopy(v)
        if k == "max_eval_total":
            a["dsm_settings"]["stopping_criteria"].setdefault("max_eval", most)
    c = consistent(c)
    if a.get("FoM_goal") == "never":
        a["FoM_goal"] = float(FAR) if a.get("optimization_direction") == "maximization" else -float(FAR)
    if "dsm_settings" in a and a["dsm_settings"]["general_settings"].get("population") == "4 + 3 log(N)":
        a["dsm_settings"]["general_settings"]["population"] = 4 + int(3 * np.log(gen.dims(c)))
    if a.get("max_eval_total") == FAR:
        # something else has to end the run
        s = a["dsm_settings"]["stopping_criteria"]
        s["max_eval"] = min(s["max_eval"], most)
    return c


@st.composite
def cases(draw, algs, **kw):
    c = draw(runs.any_cfg(algs=algs, fmt=draw(st.booleans()), **kw))
    extra = {}
    if "dsm_settings" in c["algorithm_settings"] and draw(st.booleans()):
        extra, _ = draw(runs.features(c, kinds=("reeval", "drift", "periodic", "cbs")))
    opts = [i for i, o in enumerate(options(c)) for _ in range(3 if "basis" in o[0] else 1)]
    chosen = draw(st.lists(st.sampled_from(opts), min_size=1, max_size=8, unique=True))
    case = {"cfg": c, "obj": draw(gen.objective_spec(table=True)), "chosen": sorted(chosen),
            "comments": draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from(COMMENTS)), max_size=2)),
            "ticks": draw(st.sampled_from([[1], [15], [60], [3600], [7200, 5]]))}
    case.update(extra)
    if "std" in case and draw(st.booleans()):
        case["std"] = "left out"
    return case


@st.composite
def long_cases(draw):
    """Searches which come near to the default tolerances, or take long."""
    c = draw(gen.ds_cfg(params=(1, 2), max_eval_total=(150, 700)))
    a = c["algorithm_settings"]
    s = a["dsm_settings"]["stopping_criteria"]
    for k in ("xatol", "fatol"):
        s[k] = draw(st.sampled_from([1e-14, 1e-100, 1e-300]))
    d = draw(gen.objective_spec())
    if draw(st.booleans()):
        # differences of the values that get as small as they can
        d = {"kind": "quad", "off": 0.0, "pa": [0.5], "pc": draw(st.lists(gen.fl(-1.0, 1.0), min_size=1, max_size=2))}
    d["times"] = draw(st.sampled_from([0.0, 1.0, 1.0, 2.0 ** -20, 2.0 ** -60, 2.0 ** -200]))
    opts = [i for i, o in enumerate(options(c)) if o[1] in ("xatol", "fatol", "max_eval", "time_lim", "total_time_lim", "max_eval_total",
                                                            "is_adaptive", "population", "FoM_goal")]
    chosen = draw(st.lists(st.sampled_from(opts), min_size=1, max_size=5, unique=True))
    return {"cfg": c, "obj": d, "chosen": sorted(chosen), "comments": [], "most": 400,
            "ticks": draw(st.sampled_from([[1], [60], [3600]]))}


def one(cfg, case, left_out):
    raw = json.loads(json.dumps({k: v for k, v in cfg.items() if k != "sys"}))
    raw["optimization_client_name"] = "case"
    std = case.get("std")
    if std == "left out":
        std = None if left_out else [1.0]
    with sut.scratch():
        r = runs.run(cfg, case["obj"], raw_dict=raw, clock=sut.Clock(), ticks=case["ticks"], std=std)
        r.printed = sut.printed.getvalue()
        r.folder = os.path.basename(r.results_path)
        r.files = sorted(os.path.basename(f) for f in glob.glob(os.path.join(glob.escape(r.results_path), "*")))
    return r


def same(x, y):
    if isinstance(x, dict):
        return isinstance(y, dict) and sorted(x) == sorted(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return isinstance(y, (list, tuple)) and len(x) == len(y) and all(same(u, v) for u, v in zip(x, y))
    if hasattr(x, "shape") or hasattr(y, "shape"):
        return np.array_equal(np.asarray(x), np.asarray(y))
    return x == y or (x != x and y != y)


def check(case, ctx):
    chosen = [options(case["cfg"])[i] for i in case["chosen"]]
    full = explicit(case["cfg"], chosen, case.get("most", 40))
    short = copy.deepcopy(full)
    left = []
    for path, k, v in chosen:
        d = at(short, path)
        if d[k] == v or v in ("never", "4 + 3 log(N)"):
            left.append(("/".join(str(x) for x in path + (k,)), d.pop(k)))
            ctx.label("no " + k)
    for n, (place, (k, v)) in enumerate(case["comments"]):
        places = comment_places(short)
        at(short, places[place % len(places)]).setdefault(k, copy.deepcopy(v))
    a = one(full, case, False)
    b = one(short, case, True)
    what = "without %s%s" % (", ".join("%s (default %s)" % x for x in left),
                            " and with the comments %s" % [c[1][0] for c in case["comments"]] if case["comments"] else "")
    for x, y in zip(a.evals, b.evals):
        ctx.expect(sut.same_controls(y, x["pulses"], x["timegrids"], x["parameters"], 0), "evaluation", lambda: (
            "evaluation %d differs %s: %s instead of %s" % (x["k"], what, (y["pulses"], y["timegrids"], y["parameters"]), (
                x["pulses"], x["timegrids"], x["parameters"]))))
        ctx.expect(same(x["user"], y["user"]), "value", lambda: "evaluation %d %s: %r instead of %r" % (
            x["k"], what, y["user"], x["user"]))
    ctx.expect(len(a.evals) == len(b.evals), "number", "%d evaluations %s, %d with the settings spelled out" % (
        len(b.evals), what, len(a.evals)))
    ctx.expect(same(a.final, b.final), "results", lambda: "results %s: %s; spelled out %s" % (what, b.final, a.final))
    for key in ("pulses", "timegrids", "parameters"):
        ctx.expect(same(list(a.best[key]), list(b.best[key])), "best-controls", lambda: "best %s %s: %s; spelled out %s" % (
            key, what, b.best[key], a.best[key]))
    ctx.expect(same(a.file, b.file), "file", lambda: "best-controls file %s: %s; spelled out %s" % (what, b.file, a.file))
    strip = (lambda fs: sorted(re.sub(r"\d+", "0", f) for f in fs))
    ctx.expect(strip(a.files) == strip(b.files) and strip([a.folder]) == strip([b.folder]), "files", "the results folder %s %s "
               "holds %s; spelled out %s with %s" % (b.folder, what, b.files, a.folder, a.files))
    ctx.expect(bool(a.printed.strip()) == bool(b.printed.strip()), "console", lambda: "output %s: %r; spelled out: %r" % (
        what, b.printed[:200], a.printed[:200]))
    runs.labels(ctx, full, a)
    ctx.label("comments" if case["comments"] else "no comments")
    ctx.nt(len(a.evals) >= 3 and left)


RULE = "at least three evaluations, and a setting was left out"
FAMILIES = [Family("gradient-free", cases(("dCRAB", "dCRAB", "DirectSearch"), max_eval_total=(3, 60)), check, 900, 12000,
                   rule=RULE),
            Family("long", long_cases(), check, 160, 2400, rule=RULE),
            Family("grape", cases(("GRAPE",), max_eval_total=(3, 30)), check, 160, 2000, rule=RULE),
            Family("ad", cases(("AD",), max_eval_total=(2, 5)), check, 12, 200, rule=RULE)]

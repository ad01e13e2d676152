"""C14: the same guess / scaling supplied in different ways gives the same pulses."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from .. import ctl, gen, sut
from .. import pulsemodel as pm
from ..engine import Family

GUESSES = ["0.0*t", "0.5 + 0.0*t", "np.sin(np.pi*t)", "2.0*t - 1.0", "3.0*np.exp(-t) - 1.0", "-4.0 + 0.0*t",
           "np.cos(5.0*t)*t", "np.where(t > 0.5, 1.0, -1.0)"]
SCALES = ["1.0 + 0.0*t", "np.exp(-t)", "1.0 - 0.5*np.cos(t)", "2.5 + 0.0*t", "np.tanh(3.0*t)", "-1.0 + 0.0*t",
          "t*(1.0 - t)"]
FORMS = ["list", "file_rel", "file_rel_py", "file_sub", "file_abs", "file_abs_py", "file_two", "lambda"]
FNAMES = ["guess", "scaling", "my_pulses", "guess.v2", "pulse-1.5 a", "numpy", "happy"]


@st.composite
def one(draw, pool):
    return {"expr": draw(st.sampled_from(pool + [None])), "form": draw(st.sampled_from(FORMS)),
            "fname": draw(st.sampled_from(FNAMES)), "dir": draw(st.sampled_from(["", "a", "b", "a/deep", "with space", "v1.2", "d.py"])),
            "missing": draw(st.integers(0, 5)) == 0,
            "body": draw(st.sampled_from(["return {0}"] * 3 + ["x = {0}\n    t *= 0.5\n    return x", "x = {0}\n    t += 1.0\n    return x",
                                         "x = {0}\n    t[...] = x\n    return t"])), "func": draw(st.sampled_from(["f", "g"])),
            "how": draw(st.sampled_from(["none", "no_dir", "wrong", "empty_name", "empty_path"]))}


@st.composite
def strategy(draw):
    case = draw(ctl.ctl_case(npulses=(1, 3), nparams=(0, 1), max_ops=3, ops=("get", "base"), guess=False,
                             scaling=False, maxk=2, minbins=2))
    case["src"] = [[draw(one(GUESSES)), draw(one(SCALES))] for _ in case["cfg"]["pulses"]]
    return case


def supply(s, p, cfg, cwd, files, default):
    """(specification in the drawn form, specification as a lambda)"""
    expr = s["expr"]
    if expr is None:
        return None, {"function_type": "lambda_function", "lambda_function": "lambda t: " + default}
    lam = {"function_type": "lambda_function", "lambda_function": "lambda t: " + expr}
    form = s["form"]
    if form == "lambda":
        return copy.deepcopy(lam), lam
    if form == "list":
        t = pm.time_grid(p, pm.final_time(cfg, p))
        v = np.broadcast_to(eval("lambda t: " + expr, {"np": np})(t), t.shape)
        return {"function_type": "list_function", "list_function": [
            int(x) if s["func"] == "g" and x == int(x) else float(x) for x in v]}, lam
    folder = s["dir"] if form != "file_rel" and form != "file_rel_py" else ""
    rel = os.path.join(folder, s["fname"]) if folder else s["fname"]
    other = "lambda t: 7.0 + 0.0*t"
    if s["missing"]:
        how = s["how"]
        d = {"function_type": "python_file", "file_path": "nowhere/absent", "function_name": "f"}
        if how == "no_dir":
            d["file_path"] = "absent.py"
        elif how == "empty_path":
            d["file_path"] = ""
        elif how == "wrong":
            d = {"function_type": "python_file", "file_path": os.path.join(cwd, "absent"), "function_name": "f",
                 "path_mode": "absolute"}
        elif how == "empty_name":
            d = {"function_type": "python_file"}
        return d, {"function_type": "lambda_function", "lambda_function": "lambda t: " + default}
    # one function per (file, function name); distinct pulses get distinct names inside a shared file
    fn = "%s_%d" % (s["func"], len(files.get(rel, [])))
    files.setdefault(rel, []).append((fn, s["body"].format(expr)))
    d = {"function_type": "python_file", "function_name": fn, "file_path": rel}
    if form in ("file_abs", "file_abs_py"):
        d["file_path"] = os.path.join(cwd, rel)
        d["path_mode"] = "absolute"
    elif s["func"] == "g":
        d["path_mode"] = "relative"
    if form in ("file_rel_py", "file_abs_py", "file_two"):
        d["file_path"] += ".py"
    return d, lam


def check(case, ctx):
    cfg = case["cfg"]
    with sut.scratch() as cwd:
        cwd = os.path.realpath(cwd)
        a, b = copy.deepcopy(cfg), copy.deepcopy(cfg)
        files, plain = {}, True
        for i, p in enumerate(cfg["pulses"]):
            for key, s, default in zip(("initial_guess", "scaling_function"), case["src"][i],
                                       ("0.0*t", "1.0 + 0.0*t")):
                x, lam = supply(s, p, cfg, cwd, files, default)
                if x is not None:
                    a["pulses"][i][key] = x
                    plain = plain and x["function_type"] == "lambda_function"
                    ctx.label(key[:5] + ":" + (s["form"] if not (s["missing"] and x["function_type"] == "python_file")
                                              else "missing"))
                b["pulses"][i][key] = lam
        for rel, fns in files.items():
            if os.path.dirname(rel):
                os.makedirs(os.path.dirname(rel), exist_ok=True)
            with open(rel + ".py", "w") as f:
                f.write("import numpy as np\n\n\n" + "\n\n".join(
                    "def %s(t):\n    %s\n" % fe for fe in fns))
        got, ref = {}, []

        def collect(dst):
            def visit(kind, x, act, model, con):
                if kind == "get":
                    dst.append([np.array(v) for v in list(act[0]) + list(act[1])])
            return visit
        ga, gb = [], []
        ctl.drive({"cfg": a, "ops": case["ops"], "seed": case["seed"]}, collect(ga))
        ctl.drive({"cfg": b, "ops": case["ops"], "seed": case["seed"]}, collect(gb))
        # and against the reference, for the lambda form
        def visit(kind, x, act, model, con):
            if kind == "get":
                exp = model.get(x)
                for g, e in zip(act[0], exp[0]):
                    ctx.expect(sut.close(np.asarray(g), e, 1e-8, 1e-7), "lambda-wrong", "pulse with lambda functions "
                               "differs from the reference")
        ctl.drive({"cfg": b, "ops": case["ops"], "seed": case["seed"]}, visit)
        n = len(cfg["pulses"])
        for va, vb in zip(ga, gb):
            for i, (x, y) in enumerate(zip(va[n:], vb[n:])):
                ctx.expect(sut.close(x, y, 0, 0), "time-grid-differs", lambda: (
                    "time grid %d with guess %s and scaling %s is %s, with the same functions as lambdas %s" % (
                        i, case["src"][i][0], case["src"][i][1], x[:5], y[:5])))
            for i, (x, y) in enumerate(zip(va[:n], vb)):
                ctx.expect(sut.close(x, y, 1e-9, 1e-9), "form-differs", lambda: (
                    "pulse %d with guess %s and scaling %s is %s, with the same functions as lambdas %s" % (
                        i, case["src"][i][0], case["src"][i][1], x[:5], y[:5])))
        ctx.nt(not plain)


FAMILIES = [Family("forms", strategy, check, 1600, 20000,
                   rule="some guess or scaling is given as a list or a Python file (present or missing)")]

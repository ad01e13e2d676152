"""C33: the same component named in different ways gives the same class and the same run."""
import copy
import importlib
import json
import os
import sys

import numpy as np
from hypothesis import strategies as st

from .. import gen, quant, runs, sut
from ..engine import Family
from quocslib.utils.dynamicimport import dynamic_import

KINDS = {"algorithm": "opti_algorithm_map", "dsm_settings": "dsm_settings_map", "basis": "basis_map",
         "superparameter_distribution": "superparameter_distribution_map"}
# what each documented name stands for
NAMES = {"algorithm": {n: ("quocslib.optimizationalgorithms." + n + "Algorithm", n + "Algorithm") for n in (
            "AD", "dCRAB", "DirectSearch", "GRAPE")},
         "dsm_settings": {n: ("quocslib.gradientfreemethods." + n, n) for n in ("NelderMead", "CMAES")},
         "basis": {n: ("quocslib.pulses.basis." + n, n) for n in (
             "Chebyshev", "ChoppedBasis", "Fourier", "PiecewiseBasis", "Sigmoid", "SigmoidTimeDep", "SigmoidSigmas",
             "SigmoidAllParas", "Sinc", "Walsh")},
         "superparameter_distribution": {"Uniform": ("quocslib.pulses.superparameter.Uniform", "Uniform")}}
PARENT = {"algorithm": ("quocslib.optimizationalgorithms.OptimizationAlgorithm", "OptimizationAlgorithm"),
          "dsm_settings": ("quocslib.gradientfreemethods.DirectSearchMethod", "DirectSearchMethod"),
          "basis": ("quocslib.pulses.BasePulse", "BasePulse"),
          "superparameter_distribution": ("quocslib.pulses.superparameter.SuperParameterDistribution", "SuperParameterDistribution")}


def cls(kind, name):
    m, c = NAMES[kind][name]
    return getattr(importlib.import_module(m), c)


@st.composite
def names(draw):
    kind = draw(st.sampled_from(sorted(NAMES)))
    name = draw(st.sampled_from(sorted(NAMES[kind])))
    other = draw(st.sampled_from(sorted(NAMES)))
    bad = draw(st.one_of(st.sampled_from(["", "fourier", "Fourier ", "NELDERMEAD", "None", "dcrab", "GRAPEAlgorithm", "os", "Uniform2"]),
                         st.text(max_size=6)))
    return {"kind": kind, "name": name, "other": other, "name2": draw(st.sampled_from(sorted(NAMES[other]))), "bad": bad,
            "badmod": draw(st.sampled_from(["no.such.module", "quocslib.nothing", "", "quocslib.pulses.basis.Fourier.x"])),
            "badcls": draw(st.sampled_from(["NoSuchClass", "fourier", "", "dCRAB"]))}


def get(**kw):
    with sut.quiet():
        return dynamic_import(**kw)


def check_names(case, ctx):
    kind, name = case["kind"], case["name"]
    want = cls(kind, name)
    m, c = NAMES[kind][name]
    parent = getattr(importlib.import_module(PARENT[kind][0]), PARENT[kind][1])
    ctx.expect(issubclass(want, parent), "kind", "%s is not a %s" % (want, parent))
    got = get(name=name, class_type=kind)
    ctx.expect(got is want, "name", "the %s %s is %s" % (kind, name, got))
    ctx.expect(get(module_name=m, class_name=c) is want, "module", "%s in %s is not found" % (c, m))
    ctx.expect(get(module_name=m, class_name=c, class_type=case["other"]) is want, "module", "%s in %s is not found" % (c, m))
    ctx.expect(get(attribute=want) is want and get(attribute=want, name=case["name2"], class_type=case["other"]) is want,
               "attribute", "a class that is given is not used")
    # an unregistered name does not hide the module and class
    if case["bad"] not in NAMES[kind]:
        ctx.expect(get(name=case["bad"], module_name=m, class_name=c, class_type=kind) is want, "name-and-module",
                   "module and class are ignored because of the unregistered name %r" % case["bad"])
        got = get(name=case["bad"], class_type=kind)
        ctx.expect(got is None, "unknown-name", "the unknown %s %r gives %s" % (kind, case["bad"], got))
        ctx.label("unknown name")
    got = get(name=case["name2"], class_type=kind)
    if case["name2"] in NAMES[kind]:
        ctx.expect(got is cls(kind, case["name2"]), "name", "the %s %s is %s" % (kind, case["name2"], got))
    else:
        ctx.expect(got is None, "wrong-kind", "the name %s of a %s gives the %s %s" % (case["name2"], case["other"], kind, got))
    for kw in ({"module_name": case["badmod"], "class_name": c}, {"module_name": m, "class_name": case["badcls"]},
               {"module_name": m}, {"class_name": c}, {}):
        got = get(**kw)
        ctx.expect(got is None, "unknown-module", "%s gives %s" % (kw, got))
    ctx.label(kind)
    ctx.nt(True)


HOW = ["name", "module", "attribute", "user", "user-attribute", "odd-name"]


@st.composite
def strategy(draw, algs=("dCRAB", "dCRAB", "DirectSearch", "GRAPE"), maxe=(3, 30)):
    cfg = draw(runs.any_cfg(algs=algs, max_eval_total=maxe))
    how = {"algorithm": draw(st.sampled_from(HOW)), "dsm": draw(st.sampled_from([h for h in HOW if "attribute" not in h])),
           "basis": [draw(st.sampled_from(HOW)) for _ in cfg["pulses"]],
           "dist": [draw(st.sampled_from(HOW)) for _ in cfg["pulses"]]}
    return {"cfg": cfg, "obj": draw(gen.objective_spec()), "how": how}


class Renamer:
    def __init__(self, folder, tag):
        self.folder, self.tag, self.made = folder, tag, []

    def user(self, kind, name):
        """A user module with a class derived from the registered one that notes that it was used."""
        m, c = NAMES[kind][name]
        mod = "user_%s_%d" % (self.tag, len(self.made))
        with open(os.path.join(self.folder, mod + ".py"), "w") as f:
            f.write("from %s import %s\nmade = []\n\n\nclass Mine(%s):\n    def __init__(self, *a, **k):\n        made.append(1)\n"
                    "        super().__init__(*a, **k)\n" % (m, c, c))
        importlib.invalidate_caches()
        self.made.append(mod)
        return mod

    def apply(self, d, kind, prefix, how):
        name = d.pop(prefix + "_name")
        m, c = NAMES[kind][name]
        if how == "name":
            d[prefix + "_name"] = name
        elif how in ("module", "odd-name"):
            d[prefix + "_module"], d[prefix + "_class"] = m, c
            if how == "odd-name":
                d[prefix + "_name"] = "my own " + name
        elif how == "attribute":
            d[prefix + "_attribute"] = cls(kind, name)
        else:
            mod = self.user(kind, name)
            if how == "user":
                d[prefix + "_module"], d[prefix + "_class"] = mod, "Mine"
            else:
                d[prefix + "_attribute"] = importlib.import_module(mod).Mine


def check(case, ctx):
    cfg, how = case["cfg"], case["how"]
    with sut.scratch():
        a = runs.run(cfg, case["obj"])
    with sut.scratch() as d:
        mods = os.path.join(d, "mods")
        os.mkdir(mods)
        sys.path.insert(0, mods)
        rn = Renamer(mods, os.path.basename(d).replace("-", "_"))
        try:
            c = copy.deepcopy(cfg)
            alg = c["algorithm_settings"]
            rn.apply(alg, "algorithm", "algorithm", how["algorithm"])
            if "dsm_settings" in alg:
                rn.apply(alg["dsm_settings"]["general_settings"], "dsm_settings", "dsm_algorithm", how["dsm"])
            for p, hb, hd in zip(c["pulses"], how["basis"], how["dist"]):
                dist = p["basis"].get("random_super_parameter_distribution")
                rn.apply(p["basis"], "basis", "basis", hb)
                if dist:
                    rn.apply(dist, "superparameter_distribution", "distribution", hd)
            kw = {}
            sysd = c.pop("sys", None)
            if sysd:
                kw = {"fom_class": quant.GrapeFoM, "system": sysd}
            elif runs.alg_name(cfg) == "AD":
                kw = {"fom_class": quant.ADFoM}
            b = sut.optimize(c, case["obj"], **kw)
            for mod in rn.made:
                ctx.expect(len(sys.modules[mod].made) > 0 if mod in sys.modules else False, "not-used", "a user-defined class was not used")
        finally:
            sys.path.remove(mods)
            for mod in rn.made:
                sys.modules.pop(mod, None)
    ctx.expect(len(a.evals) == len(b.evals), "number", "%d evaluations with names, %d otherwise" % (len(a.evals), len(b.evals)))
    for x, y in zip(a.evals, b.evals):
        ctx.expect(sut.same_controls(x, y["pulses"], y["timegrids"], y["parameters"], 1e-12), "controls", lambda: (
            "evaluation %d differs by %s" % (x["k"], sut.diff_controls(x, y["pulses"], y["parameters"]))))
    same = json.dumps(a.final, sort_keys=True, default=str) == json.dumps(b.final, sort_keys=True, default=str)
    ctx.expect(same, "results", lambda: "results %s and %s" % (a.final, b.final))
    ctx.expect((a.file is None) == (b.file is None), "file", "a best-controls file exists in one run only")
    for k in a.file or {}:
        ctx.expect(k in b.file and np.array_equal(np.asarray(a.file[k]), np.asarray(b.file[k])), "file", "%s differs" % k)
    runs.labels(ctx, cfg, a)
    used = [how["algorithm"]] + how["basis"] + how["dist"]
    ctx.label(*("as " + h for h in set(used)))
    ctx.nt(len(a.evals) > 2 and set(used) != {"name"})


FAMILIES = [Family("names", names, check_names, 1600, 10000, rule="every case"),
            Family("runs", strategy, check, 400, 6000, rule="at least three evaluations and something not chosen by name"),
            Family("runs-ad", lambda: strategy(("AD",), (2, 5)), check, 16, 200, rule="as runs")]

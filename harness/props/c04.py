"""C04: at every call of the figure of merit (every kill point between evaluations) the best-controls file on disk is
complete and describes the best evaluation finished so far."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, runs, sut
from ..engine import Family
from .c03 import trim


def strategy(algs, **kw):
    @st.composite
    def s(draw):
        return {"cfg": draw(runs.any_cfg(algs=algs, other=True, **kw)), "obj": draw(gen.objective_spec(table=True))}
    return s


def check(case, ctx):
    cfg = case["cfg"]
    ad = runs.alg_name(cfg) == "AD"
    with sut.scratch():
        r = runs.run(cfg, case["obj"], snapshot=True)
        if ad:
            for e in r.evals:
                for key in ("pulses", "timegrids"):
                    e[key] = [np.real(a)[:p["bins_number"]] for a, p in zip(e[key], cfg["pulses"])]
        changes = 0
        best = None
        for i, e in enumerate(r.evals + [None]):
            f = e["snapshot"] if e is not None else r.file
            where = "before evaluation %d" % e["k"] if e is not None else "after the run"
            if ad and isinstance(f, dict):
                for p in cfg["pulses"]:
                    for k in (p["pulse_name"], "time_grid_for_" + p["pulse_name"]):
                        f[k] = np.real(np.asarray(f[k]))[:p["bins_number"]]
            new = runs.best_of(r.evals, i)
            changes += new is not best
            best = new
            runs.file_matches(ctx, cfg, f, best, where, 1e-6 if ad else 1e-12)
        runs.labels(ctx, cfg, r)
        ctx.label(cfg.get("dump_format", "default format"))
        ctx.nt(changes >= 2)


FAMILIES = [Family("gradient-free", strategy(("dCRAB", "dCRAB", "DirectSearch"), max_eval_total=(2, 60)), check, 960,
                   12000, rule="the best evaluation changed at least twice during the run; every evaluation is a kill "
                   "point that was looked at"),
            Family("grape", strategy(("GRAPE",)), check, 240, 3000, rule="the best evaluation changed at least twice"),
            Family("ad", strategy(("AD",), max_eval_total=(2, 7)), check, 32, 600,
                   rule="the best evaluation changed at least twice")]

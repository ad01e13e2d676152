"""C12: every basis against its closed formula."""
import numpy as np
from hypothesis import strategies as st

from .. import ctl, gen, sut
from .. import pulsemodel as pm
from ..engine import Family

TOL = 1e-9


def strategy():
    return ctl.ctl_case(npulses=(1, 2), nparams=(0, 1), max_ops=4, ops=("get", "get", "basis"), guess=False,
                        scaling=False, shrink=False, maxk=4, maxbins=40, swap=False,
                        steps=st.just(["add_new_update_pulse"]))


def check(case, ctx):
    cfg = case["cfg"]
    for p in cfg["pulses"]:
        ctx.label(p["basis"]["basis_name"])

    def visit(kind, x, act, model, con):
        if kind == "basis":
            n = sum(pm.n_coeff(p) for p in cfg["pulses"]) + len(cfg["parameters"])
            ctx.expect(con.get_control_parameters_number() == n, "coefficient-count",
                       "%d control parameters, expected %d" % (con.get_control_parameters_number(), n))
            sig = np.asarray(con.get_sigma_variation(), float)
            for k, p, a, b in model.layout:
                if k == "pulse":
                    ctx.expect(sut.close(sig[a:b], pm.start_scale(p), TOL, TOL), "start-scale",
                               lambda: "start scale of %s is %s, expected %s" % (p["basis"], sig[a:b], pm.start_scale(p)))
        elif kind == "get":
            for p, got, u in zip(cfg["pulses"], act[0], model.updates(x)):
                name = p["basis"]["basis_name"]
                s = ctl.scale_of(cfg, x)
                ctx.expect(sut.close(np.asarray(got), u, 1e-8, 1e-8 * s), "formula:" + name, lambda: (
                    "%s pulse differs from its formula by %s" % (name, np.max(np.abs(np.asarray(got) - u))
                                                                 if np.shape(got) == u.shape else "shape")))
                if np.ptp(u) > 1e-3 * s:
                    ctx.nt()
    ctl.drive(case, visit)


FAMILIES = [Family("formula", strategy, check, 2400, 40000,
                   rule="some pulse is not constant (peak-to-peak above 1e-3 of the coefficient scale)")]

"""C15: partition of the search vector and time grids."""
import numpy as np
from hypothesis import strategies as st

from .. import ctl, gen, sut
from .. import pulsemodel as pm
from ..engine import Family


@st.composite
def strategy(draw):
    case = draw(ctl.ctl_case(npulses=(0, 4), nparams=(0, 4), max_ops=5, overwrite=True, minbins=1, maxk=4))
    case["cfg"]["times"] = draw(st.permutations(case["cfg"]["times"]).map(list))
    case["pick"] = draw(st.integers(0, 7))
    case["delta"] = draw(gen.fl(-2, 2))
    return case


def check(case, ctx):
    cfg = case["cfg"]
    nl = len(pm.layout(cfg))
    pick = case["pick"] % nl

    def vectors(model, con):
        n = model.n()
        ctx.expect(con.get_control_parameters_number() == n, "count", "%s control parameters, expected %s" % (
            con.get_control_parameters_number(), n))
        mean, sig = np.asarray(con.get_mean_value(), float), np.asarray(con.get_sigma_variation(), float)
        ctx.expect(mean.shape == (n,) and sig.shape == (n,), "vector-shape", "start vectors have the wrong length")
        for k, s, a, b in model.layout:
            if k == "pulse":
                ctx.expect(np.all(mean[a:b] == 0), "start-value", "pulse start values are not zero: %s" % mean[a:b])
                ctx.expect(sut.close(sig[a:b], pm.start_scale(s)), "start-scale", "start scales %s of %s in slice %d:%d" % (
                    sig[a:b], s["pulse_name"], a, b))
            else:
                ctx.expect(sig[a] == s["amplitude_variation"], "start-scale",
                           "start scale of %s is %s" % (s["parameter_name"], sig[a]))
        return mean

    last, dirty = {}, [False]

    def visit(kind, x, act, model, con):
        mean = vectors(model, con)
        if kind == "base":
            for k, s, a, b in model.layout:
                if k == "parameter":
                    last[id(s)] = pm.param_value(s, x[a])
        if kind == "get":
            dirty[0] = True
        for k, s, a, b in model.layout:
            if k == "parameter" and (kind == "base" or not dirty[0]):
                want = last.get(id(s), s["initial_value"])
                ctx.expect(abs(mean[a] - want) < 1e-12, "parameter-start",
                           "start value of %s is %r, expected %r" % (s["parameter_name"], mean[a], want))
        if kind != "get":
            return
        for i, (p, g) in enumerate(zip(cfg["pulses"], act[1])):
            e = pm.time_grid(p, pm.final_time(cfg, p))
            ctx.expect(sut.close(np.asarray(g), e, 1e-12, 1e-12), "time-grid", lambda: (
                "time grid of %s (%s, %d bins) is %s" % (p["pulse_name"], p["time_name"], p["bins_number"], g)))
            ctx.expect(len(act[0][i]) == p["bins_number"], "bins", "pulse %s has %d samples, configured %d" % (
                p["pulse_name"], len(act[0][i]), p["bins_number"]))
        ctx.expect(len(act[0]) == len(cfg["pulses"]) and len(act[2]) == len(cfg["parameters"]), "controls-count",
                   "wrong number of controls")
        # touch one control only
        kind2, s2, a2, b2 = model.layout[pick]
        y = x.copy()
        y[a2:b2] += case["delta"]
        other = con.get_controls_lists(np.array(y))
        for i in range(len(cfg["pulses"])):
            if i != pick:
                ctx.expect(np.array_equal(np.asarray(act[0][i]), np.asarray(other[0][i])), "leak",
                           "changing control %d changed pulse %d" % (pick, i))
        np_ = len(cfg["pulses"])
        for j in range(len(cfg["parameters"])):
            if np_ + j != pick:
                ctx.expect(act[2][j] == other[2][j], "leak", "changing control %d changed parameter %d" % (pick, j))
        exp = model.get(y)
        sc = ctl.scale_of(cfg, y) * 100
        for p, got, e in zip(cfg["pulses"], other[0], exp[0]):
            ctx.expect(sut.close(np.asarray(got), e, 1e-8, 1e-8 * sc), "slice", lambda: (
                "pulse %s is not built from its own slice" % p["pulse_name"]))
        ctx.expect(sut.close(np.array(other[2], float), np.array(exp[2], float), 1e-12, 1e-12), "slice",
                   lambda: "parameters %s, expected %s" % (other[2], exp[2]))
    ctl.drive(case, visit)
    ctx.nt(nl >= 2 and abs(case["delta"]) > 1e-6)
    ctx.label("%d pulses" % len(cfg["pulses"]), "%d parameters" % len(cfg["parameters"]))
    if len({p["time_name"] for p in cfg["pulses"]}) > 1:
        ctx.label("several times")


FAMILIES = [Family("partition", strategy, check, 2000, 30000,
                   rule="two or more controls and a non-zero change of the picked one")]

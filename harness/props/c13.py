"""C13: shaping steps in the configured order, over histories of updates of the base pulse."""
import numpy as np
from hypothesis import strategies as st

from .. import ctl, gen, sut
from .. import pulsemodel as pm
from ..engine import Family

STEPLISTS = st.one_of(st.none(), st.permutations(ctl.STEPS).map(list), st.lists(st.sampled_from(ctl.STEPS), max_size=8))


def strategy():
    return ctl.ctl_case(npulses=(1, 2), nparams=(0, 1), max_ops=8, overwrite=True, ops=("get", "base", "basis", "base"),
                        steps=STEPLISTS, minbins=1)


def check(case, ctx):
    cfg = case["cfg"]
    nb = [0]

    def visit(kind, x, act, model, con):
        if kind == "base":
            nb[0] += 1
        if kind == "mutated":
            ctx.fail("vector-modified", "building the controls changed the search vector")
        if kind != "get":
            return
        exp = model.get(x)
        s = ctl.scale_of(cfg, x) * (1 + nb[0])
        for p, got, e in zip(cfg["pulses"], act[0], exp[0]):
            ctx.expect(sut.close(np.asarray(got), e, 1e-8, 1e-8 * s * 10), "shaping", lambda: (
                "pulse %s with steps %s (%d base updates): got %s expected %s" % (
                    p["pulse_name"], p.get("shaping_options"), nb[0], np.asarray(got)[:6], e[:6])))
        again = con.get_controls_lists(np.array(x))
        ctx.expect(all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(act[0], again[0])), "not-pure",
                   "asking for the same controls twice gave two different pulses")
    ctl.drive(case, visit)
    steps = [pm.steps_of(p) for p in cfg["pulses"]]
    ctx.nt(nb[0] >= 1 and any(len(s) >= 3 for s in steps))
    ctx.label("base updates: %d" % min(nb[0], 4))
    for p, s in zip(cfg["pulses"], steps):
        ctx.label("overwrite" if p.get("overwrite_base_pulse") else "accumulate")
        ctx.label("default" if p.get("shaping_options") is None else "repeat" if len(set(s)) < len(s) else "custom")
        if p.get("shrink_ampl_lim"):
            ctx.label("shrink")


FAMILIES = [Family("steps", strategy, check, 2400, 40000,
                   rule="at least one base-pulse update happened and some pulse has three or more shaping steps")]

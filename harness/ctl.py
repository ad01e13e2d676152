"""Control-level cases: sequences of operations on the public Controls object against the reference model."""
import copy

import numpy as np
from hypothesis import strategies as st

from . import gen, sut
from . import pulsemodel as pm
from quocslib.Controls import Controls
from quocslib.tools.randomgenerator import RandomNumberGenerator

STEPS = ["add_initial_guess", "add_base_pulse", "add_new_update_pulse", "scale_pulse", "limit_pulse"]


@st.composite
def controls_cfg(draw, npulses=(1, 3), nparams=(0, 3), units=True, **pk):
    times = draw(gen.times_spec(draw(st.integers(1, 3))))
    npul, npar = draw(st.integers(*npulses)), draw(st.integers(*nparams))
    if npul + npar == 0:
        npar = 1
    return draw(gen.twisted({"times": times, "pulses": [draw(gen.pulse_spec(i, times, **pk)) for i in range(npul)],
                             "parameters": [draw(gen.param_spec(i)) for i in range(npar)]}, long=False, many=False,
                            units=units))


@st.composite
def vector(draw, n, amp=4.0):
    k = draw(st.sampled_from(["spread", "small", "sparse", "zero"]))
    if k == "zero":
        return [0.0] * n
    if k == "sparse":
        v = [0.0] * n
        v[draw(st.integers(0, n - 1))] = draw(gen.fl(-amp, amp))
        return v
    a = amp if k == "spread" else 0.3
    return draw(st.lists(gen.fl(-a, a), min_size=n, max_size=n))


@st.composite
def history(draw, cfg, max_ops=7, ops=("get", "base", "basis", "get")):
    n = gen.dims(cfg)
    # natural units: pulses and parameters can be configured on very different scales
    u = [1.0] * n
    for _, c, a, b in pm.layout(cfg):
        m = abs(c["upper_limit"]) + abs(c["lower_limit"])
        if m > 100 or m < 0.01:
            u[a:b] = [c["amplitude_variation"]] * (b - a)

    def vec():
        v = draw(vector(n))
        return [x if k == 1.0 else gen.sig6(x * k) for x, k in zip(v, u)]
    out = [["basis"]]
    for _ in range(draw(st.integers(1, max_ops))):
        o = draw(st.sampled_from(ops))
        out.append([o] if o == "basis" else [o, vec()])
    out.append(["get", vec()])
    return out


@st.composite
def ctl_case(draw, max_ops=7, overwrite=False, ops=("get", "base", "basis", "get"), steps=None, **pk):
    cfg = draw(controls_cfg(**pk))
    for p in cfg["pulses"]:
        if steps is not None:
            s = draw(steps)
            p.pop("shaping_options", None)
            if s is not None:
                p["shaping_options"] = s
        if overwrite and draw(st.integers(0, 2)) == 0:
            p["overwrite_base_pulse"] = True
    return {"cfg": cfg, "ops": draw(history(cfg, max_ops, ops)), "seed": draw(st.integers(0, 2 ** 31))}


class Model:
    """Reference of the Controls object."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.layout = pm.layout(cfg)
        self.base = {id(p): np.zeros(p["bins_number"]) for p in cfg["pulses"]}
        self.w = {}

    def n(self):
        return self.layout[-1][3]

    def set_w(self, sp):
        i = 0
        for p in self.cfg["pulses"]:
            if p["basis"]["basis_name"] in pm.CHOPPED:
                self.w[id(p)] = np.array(sp[i], float)
                i += 1

    def updates(self, x):
        return [pm.update(p, x[a:b], self.w.get(id(p)), pm.final_time(self.cfg, p))
                for k, p, a, b in self.layout if k == "pulse"]

    def get(self, x):
        x = np.asarray(x, float)
        pulses, grids = [], []
        for p, u in zip(self.cfg["pulses"], self.updates(x)):
            T = pm.final_time(self.cfg, p)
            pulses.append(pm.shape(p, T, self.base[id(p)], u))
            grids.append(pm.time_grid(p, T))
        params = [pm.param_value(q, x[a]) for k, q, a, b in self.layout if k == "parameter"]
        return pulses, grids, params

    def update_base(self, x):
        x = np.asarray(x, float)
        for p, u in zip(self.cfg["pulses"], self.updates(x)):
            self.base[id(p)] = u.copy() if p.get("overwrite_base_pulse") else self.base[id(p)] + u


def make(cfg, seed=0):
    c = copy.deepcopy(cfg)
    return Controls(c["pulses"], c["times"], c["parameters"], rng=RandomNumberGenerator(seed))


def scale_of(cfg, x):
    return 1.0 + float(np.max(np.abs(x))) if len(x) else 1.0


def drive(case, visit):
    """Run the history on both; visit(kind, x, actual, model, controls) after every operation."""
    cfg = case["cfg"]
    model = Model(cfg)
    with sut.quiet():
        con = make(cfg, case["seed"])
        for op in case["ops"]:
            if op[0] == "basis":
                con.select_basis()
                model.set_w(con.get_random_super_parameter())
                visit("basis", None, None, model, con)
            elif op[0] == "get":
                x = np.array(op[1], float)
                keep = x.copy()
                act = con.get_controls_lists(x)
                visit("get", keep, act, model, con)
                if not np.array_equal(x, keep):
                    visit("mutated", keep, x, model, con)
            else:
                x = np.array(op[1], float)
                con.update_base_controls(x)
                model.update_base(x)
                visit("base", x, None, model, con)
    return model, con

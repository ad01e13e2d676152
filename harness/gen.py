"""Hypothesis strategies for optimisation configurations (plain JSON-able dictionaries)."""
from hypothesis import strategies as st

LAMBDA_GUESS = ["lambda t: 0.0*t", "lambda t: 0.5 + 0.0*t", "lambda t: np.sin(np.pi*t)", "lambda t: 2.0*t - 1.0",
                "lambda t: np.pi/3.0 + 0.0*t", "lambda t: 3.0*np.exp(-t) - 1.0", "lambda t: -4.0 + 0.0*t"]
LAMBDA_SCALE = ["lambda t: 1.0 + 0.0*t", "lambda t: np.exp(-t)", "lambda t: 1.0 - 0.5*np.cos(t)",
                "lambda t: 2.5 + 0.0*t", "lambda t: np.tanh(3.0*t)", "lambda t: -1.0 + 0.0*t"]
LAMBDA_SCALE2 = ["lambda t, p: np.abs(p)", "lambda t, p: p - p[0]", "lambda t, p: p * np.exp(-t)",
                 "lambda t, p: 2.0 * p + t", "lambda t, pulse: pulse * pulse", "lambda x, u: 0.5 * u + np.cos(x)"]


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64).map(lambda x: round(x, 6))


def wchoice(pairs):
    """Weighted choice between strategies."""
    bag = []
    for w, s in pairs:
        bag += [s] * w
    return st.sampled_from(range(len(bag))).flatmap(lambda i: bag[i])


@st.composite
def func_spec(draw, bins, lambdas, two_arg=False, allow_list=True):
    """A guess or scaling function dictionary."""
    kinds = ["lambda_function"] * 3 + (["list_function"] if allow_list else [])
    k = draw(st.sampled_from(kinds))
    if k == "list_function":
        a, b, c = draw(fl(-3, 3)), draw(fl(-3, 3)), draw(st.integers(1, 5))
        return {"function_type": k, "list_function": [round(a + b * ((i * c) % 7 - 3) / 3.0, 6) for i in range(bins)]}
    pool = list(lambdas) + (LAMBDA_SCALE2 if two_arg else [])
    return {"function_type": k, "lambda_function": draw(st.sampled_from(pool))}


@st.composite
def basis_spec(draw, names, bins, T, maxk=3):
    name = draw(st.sampled_from(names))
    if name == "PiecewiseBasis":
        return {"basis_name": name}
    b = {"basis_name": name, "basis_vector_number": draw(st.integers(1, maxk))}
    if name in ("Sigmoid", "SigmoidTimeDep", "SigmoidSigmas", "SigmoidAllParas"):
        b["sigma"] = draw(st.sampled_from([0.05, 0.1, 0.02])) * T
        b["offset"] = draw(st.sampled_from([0.1, 0.2, 0.05])) * T
        b["sigma"], b["offset"] = round(b["sigma"], 6), round(b["offset"], 6)
        if name == "SigmoidTimeDep":
            b["tau_variation"] = draw(fl(0.05, 0.5))
        if name == "SigmoidSigmas":
            b["sigma_variation"] = draw(fl(0.1, 2.0))
        if name == "SigmoidAllParas":
            tv, sv = draw(st.sampled_from([(None, None), (0.2, None), (None, 0.5), (0.2, 0.5)]))
            if tv:
                b["tau_variation"] = tv
            if sv:
                b["sigma_variation"] = sv
        lo, hi = b["offset"], round(T - b["offset"], 6)
    elif name == "Sinc":
        b["basis_max"] = draw(fl(0.5, 4.0))
        lo, hi = 0.0, T
    else:
        lo = draw(fl(0.0, 2.0))
        hi = round(lo + draw(fl(0.1, 6.0)), 6)
    b["random_super_parameter_distribution"] = {"distribution_name": "Uniform", "lower_limit": lo, "upper_limit": hi}
    return b


ALL_BASES = ["Fourier", "Fourier", "Chebyshev", "Sinc", "Sigmoid", "PiecewiseBasis", "SigmoidTimeDep", "SigmoidSigmas",
             "SigmoidAllParas"]

SHAPINGS_RECORD = [None, ["add_initial_guess", "add_base_pulse", "add_new_update_pulse", "scale_pulse", "limit_pulse"],
                   ["add_base_pulse", "add_new_update_pulse", "scale_pulse", "add_initial_guess", "limit_pulse"],
                   ["add_new_update_pulse", "add_initial_guess", "add_base_pulse", "limit_pulse", "scale_pulse",
                    "limit_pulse"],
                   ["add_base_pulse", "add_new_update_pulse", "limit_pulse"]]


@st.composite
def pulse_spec(draw, idx, times, bases=ALL_BASES, maxbins=20, maxk=3, guess=True, scaling=True, two_arg=True,
               shrink=True, shapings=SHAPINGS_RECORD, swap=True, tight=None, minbins=2):
    t = draw(st.sampled_from(times))
    T = t["initial_value"]
    bins = draw(st.integers(minbins, maxbins))
    basis = draw(basis_spec(bases, bins, T, maxk))
    if basis["basis_name"] == "PiecewiseBasis":
        bins = min(bins, 8)
    lo = draw(fl(-5.0, 2.0))
    hi = round(lo + draw(st.one_of(fl(0.1, 1.5), fl(1.0, 30.0))), 6)
    if swap and draw(st.integers(0, 9)) == 0:
        lo, hi = hi, lo
    p = {"pulse_name": "Pulse%d" % (idx + 1), "upper_limit": hi, "lower_limit": lo, "bins_number": bins,
         "time_name": t["time_name"], "amplitude_variation": draw(fl(0.05, 3.0)), "basis": basis}
    if guess and draw(st.booleans()):
        p["initial_guess"] = draw(func_spec(bins, LAMBDA_GUESS))
    if scaling and draw(st.booleans()):
        p["scaling_function"] = draw(func_spec(bins, LAMBDA_SCALE, two_arg))
    if shrink and draw(st.integers(0, 3)) == 0:
        p["shrink_ampl_lim"] = True
    if shapings:
        s = draw(st.sampled_from(shapings))
        if s is not None:
            p["shaping_options"] = s
    return p


@st.composite
def param_spec(draw, idx):
    lo = draw(fl(-5, 3))
    hi = round(lo + draw(fl(0.2, 6.0)), 6)
    init = round(lo + (hi - lo) * draw(fl(0.0, 1.0)), 6)
    return {"parameter_name": "Parameter%d" % (idx + 1), "lower_limit": lo, "upper_limit": hi, "initial_value": init,
            "amplitude_variation": draw(fl(0.05, 2.0))}


@st.composite
def times_spec(draw, n=None):
    n = n or draw(st.integers(1, 2))
    return [{"time_name": "time%d" % (i + 1), "initial_value": draw(fl(0.3, 6.0))} for i in range(n)]


@st.composite
def dsm_spec(draw, names=("NelderMead", "CMAES")):
    name = draw(st.sampled_from(names))
    g = {"dsm_algorithm_name": name}
    if name == "NelderMead":
        if draw(st.booleans()):
            g["is_adaptive"] = draw(st.booleans())
    else:
        if draw(st.booleans()):
            g["population"] = draw(st.integers(2, 9))
    return g


def returned():
    """How the user hands the figure of merit back: plain, or as another numeric type or in an unusual dictionary."""
    return st.sampled_from([{}] * 6 + [{"ret": r} for r in ("np64", "0d", "int", "shared", "status0", "more")])


def magnitude():
    """Figures of merit that are much smaller (infidelities) or larger than one; powers of two keep exact ties exact."""
    return st.sampled_from([{}] * 9 + [{"times": 2.0 ** -20}, {"times": 2.0 ** -40}, {"times": 2.0 ** 17}])


@st.composite
def objective_spec(draw, table=False, tie=True):
    kind = draw(st.sampled_from(["quad", "trig"] + (["table"] if table else [])))
    if kind == "table":
        vals = draw(st.lists(st.one_of(fl(-5, 5), st.integers(-3, 3).map(float)), min_size=1, max_size=30))
        return {"kind": "table", "vals": vals, **draw(returned()), **draw(magnitude())}
    return {**draw(returned()), **draw(magnitude()), "kind": kind, "pa": draw(st.lists(fl(-2, 2), min_size=1, max_size=2)),
            "pc": draw(st.lists(fl(-3, 3), min_size=1, max_size=3)), "off": draw(st.sampled_from([0.0, 1.0, -2.5]))}


def sig6(x):
    return float("%.6g" % x)


def _scaled_guess(spec, u):
    if spec["function_type"] == "list_function":
        return {**spec, "list_function": [sig6(v * u) for v in spec["list_function"]]}
    return {**spec, "lambda_function": spec["lambda_function"].replace("lambda t: ", "lambda t: %r*(" % u, 1) + ")"}


def scale_pulse(p, u):
    """The same pulse in a unit u times smaller."""
    for k in ("lower_limit", "upper_limit", "amplitude_variation"):
        p[k] = sig6(p[k] * u)
    if p.get("initial_guess", {}).get("function_type") in ("list_function", "lambda_function"):
        p["initial_guess"] = _scaled_guess(p["initial_guess"], u)


def scale_time(cfg, t, v):
    """The same time in a unit v times smaller, with everything that is measured in it."""
    t["initial_value"] = sig6(t["initial_value"] * v)
    for p in cfg["pulses"]:
        b = p["basis"]
        if p["time_name"] != t["time_name"] or b["basis_name"] == "PiecewiseBasis":
            continue
        for k in ("sigma", "offset", "tau_variation"):
            if k in b:
                b[k] = sig6(b[k] * v)
        if "Sigmoid" in b["basis_name"] or b["basis_name"] == "Sinc":
            d = b["random_super_parameter_distribution"]
            d["lower_limit"], d["upper_limit"] = sig6(d["lower_limit"] * v), sig6(d["upper_limit"] * v)


def change_bins(p, n):
    p["bins_number"] = n
    for k in ("initial_guess", "scaling_function"):
        f = p.get(k, {})
        if f.get("function_type") == "list_function":
            f["list_function"] = [f["list_function"][i % len(f["list_function"])] for i in range(n)]


UNITS = [1.0, 1e-5, 1e-3, 1e2, 1e4]
PULSE_NAMES = [["Pulse%d" % (15 - i) for i in range(14)], ["z", "y", "x", "w", "v"], ["amp", "amp2", "a", "amp_", "Amp"],
               ["Rabi frequency", "de-tuning", "phase.x", "0", "pulse"], ["\u03a9", "\u0394_1", "\u03c6 (rad)", "B\u2080", "\u00e9"]]
PARAM_NAMES = [["Parameter%d" % (12 - i) for i in range(12)], ["k", "j", "i", "h", "g", "f", "e", "d", "c", "b", "aa", "l"],
               ["par", "par1", "par11", "par2", "p", "Par", "par_1", "par 1", "q", "q1", "parameter", "x1"]]


@st.composite
def twisted(draw, cfg, long=True, many=True, units=True, more=None, grids=True):
    """A quarter of the configurations gets something unusual: units, names, numbers of controls, lengths."""
    if draw(st.integers(0, 3)) < 3:
        return cfg
    kinds = (["names"] + ["units"] * 2 * units + ["long"] * long + ["many"] * many + ["pulses"] * (more is not None) +
             ["grids", "wide"] * (grids and bool(cfg["pulses"])))
    what = draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=3, unique=True))
    if "pulses" in what:
        k = len(cfg["pulses"])
        cfg["pulses"] += [draw(more(k + i)) for i in range(draw(st.sampled_from([1, 2, 3, 10])))]
    if "wide" in what:
        for p in cfg["pulses"]:
            if "basis_vector_number" in p["basis"] and len(cfg["pulses"]) < 5:
                p["basis"]["basis_vector_number"] = draw(st.integers(4, 12))
    if "grids" in what:
        for p in cfg["pulses"]:
            if p["basis"]["basis_name"] != "PiecewiseBasis":
                change_bins(p, draw(st.sampled_from([33, 101, 257, 1025])))
    if "many" in what:
        k = len(cfg["parameters"])
        cfg["parameters"] += [draw(param_spec(k + i)) for i in range(draw(st.integers(1, 5)))]
    if "units" in what:
        for p in cfg["pulses"]:
            scale_pulse(p, draw(st.sampled_from(UNITS)))
        for q in cfg["parameters"]:
            u = draw(st.sampled_from(UNITS))
            for k in ("lower_limit", "upper_limit", "amplitude_variation", "initial_value"):
                q[k] = sig6(q[k] * u)
            q["initial_value"] = min(max(q["initial_value"], q["lower_limit"]), q["upper_limit"])
        for t in cfg["times"]:
            scale_time(cfg, t, draw(st.sampled_from(UNITS)))
    if "names" in what:
        a, b = draw(st.sampled_from(PULSE_NAMES)), draw(st.sampled_from(PARAM_NAMES))
        for p, n in zip(cfg["pulses"], a):
            p["pulse_name"] = n
        for q, n in zip(cfg["parameters"], b):
            q["parameter_name"] = n
        for t, n in zip(cfg["times"], draw(st.sampled_from([["time2", "time1", "time0"], ["T", "t", "tt"]]))):
            for p in cfg["pulses"]:
                if p["time_name"] == t["time_name"] and "_t" not in p:
                    p["time_name"], p["_t"] = n, 1
            t["time_name"] = n
        for p in cfg["pulses"]:
            p.pop("_t", None)
    if "long" in what and "algorithm_settings" in cfg:
        a = cfg["algorithm_settings"]
        a["max_eval_total"] = draw(st.integers(90, 400))
        if "super_iteration_number" in a:
            a["super_iteration_number"] = draw(st.integers(1, 12))
            if "max_eval" in a["dsm_settings"]["stopping_criteria"]:
                a["dsm_settings"]["stopping_criteria"]["max_eval"] = draw(st.integers(2, 150))
    return cfg


@st.composite
def dcrab_cfg(draw, max_si=4, max_eval_total=(5, 120), dsm=("NelderMead", "CMAES"), pulses=(1, 2), params=(0, 2),
              direction=True, seed=True, per_si=True, **pk):
    times = draw(times_spec())
    npul = draw(st.integers(*pulses))
    npar = draw(st.integers(*params))
    if npul + npar == 0:
        npul = 1
    g = draw(dsm_spec(dsm))
    alg = {"algorithm_name": "dCRAB", "super_iteration_number": draw(st.integers(1, max_si)),
           "max_eval_total": draw(st.integers(*max_eval_total)),
           "dsm_settings": {"general_settings": g, "stopping_criteria": {}}}
    sc = alg["dsm_settings"]["stopping_criteria"]
    if per_si:
        sc["max_eval"] = draw(st.integers(2, 40))
    sc["xatol"], sc["fatol"] = 1e-10, 1e-14
    if direction and draw(st.booleans()):
        alg["optimization_direction"] = draw(st.sampled_from(["minimization", "maximization", "maximization"]))
    if seed:
        alg["random_number_generator"] = {"seed_number": draw(st.integers(0, 2 ** 31 - 1))}
    return draw(twisted({"algorithm_settings": alg, "times": times,
                         "pulses": [draw(pulse_spec(i, times, **pk)) for i in range(npul)],
                         "parameters": [draw(param_spec(i)) for i in range(npar)]}, long=max_eval_total[1] >= 60,
                        more=(lambda i: pulse_spec(i, times, **pk)) if npul else None))


@st.composite
def ds_cfg(draw, max_eval_total=(3, 80), dsm=("NelderMead", "CMAES"), direction=True, params=(1, 4)):
    npar = draw(st.integers(*params))
    alg = {"algorithm_name": "DirectSearch", "max_eval_total": draw(st.integers(*max_eval_total)),
           "dsm_settings": {"general_settings": draw(dsm_spec(dsm)),
                            "stopping_criteria": {"xatol": 1e-8, "fatol": 1e-12}}}
    if direction and draw(st.booleans()):
        alg["optimization_direction"] = draw(st.sampled_from(["minimization", "maximization", "maximization"]))
    return draw(twisted({"algorithm_settings": alg, "times": [], "pulses": [],
                         "parameters": [draw(param_spec(i)) for i in range(npar)]}, long=max_eval_total[1] >= 60))


def dims(cfg):
    """Number of control parameters of a configuration (documented sizes of the bases)."""
    n = len(cfg["parameters"])
    for p in cfg["pulses"]:
        b = p["basis"]
        k = b.get("basis_vector_number", 1)
        name = b["basis_name"]
        n += {"Fourier": 2 * k, "Chebyshev": 2 * k, "Sinc": k, "Sigmoid": k + 1, "PiecewiseBasis": p["bins_number"],
              "SigmoidTimeDep": 2 * k + 1, "SigmoidSigmas": 2 * k + 1,
              "SigmoidAllParas": k + 1 + k * ("tau_variation" in b) + k * ("sigma_variation" in b),
              "Walsh": 2 * k}[name]
    return n

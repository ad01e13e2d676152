"""C24: round trips of the best-controls file and of result dictionaries."""
import json
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen, quant, runs, sut  # noqa  (quant imports jax before any random state matters)
from ..engine import Family
from quocslib.utils.BestDump import BestDump

import jax.numpy as jnp

PLAIN = [chr(c) for c in range(0x20, 0x7f)] + ["µ", "Ω", "é", "日"]
ODD = ["P", "P", "P1", "P2", "P3", "P22", "FoM", "file", "allow_pickle", "time_grid_for_P", "time_grid_for_P2", "self", "data",
       "pulse_1", "pulse_2", "parameter_1", "time_grid_for_pulse_1", "pulse_names", "iteration_number", "args", "kwds", "a b", "1",
       "P_2", "P2_2", "P1_1", "p", "arr_0", "P_1", "pulses", "timegrids", "parameters", "is_record"]
name = st.one_of(st.sampled_from(ODD), st.sampled_from(ODD), st.text(st.sampled_from(PLAIN), min_size=1, max_size=8).filter(
    lambda s: not s.endswith(".npy")))
KINDS = ["float64", "float64", "list", "float32", "int", "complex-real", "jax", "longdouble", "bool", "float16", "int8", "uint64"]


def build(v, kind, form=None):
    """The i-th distinct array as an array of the wanted type (with all its digits, longer, or of another size)."""
    a = np.array(v, float)
    if form == "long":
        a = np.resize(a, 1500) + 0.001 * np.arange(1500)
    elif form == "digits":
        a = a / 3.0 + np.pi * 1e-9
    elif form in ("tiny", "large") and kind not in ("float64", "list", "longdouble", "complex-real"):
        pass
    elif form == "tiny":
        a = a * 1.1e-200
    elif form == "large":
        a = a / 7.0 * 1e30
    if kind == "list":
        return [float(x) for x in a]
    if kind == "int":
        return np.round(a * 7).astype(int)
    if kind in ("int8",):
        return np.round(a * 3).astype(np.int8)
    if kind == "uint64":
        return np.round(np.abs(a) * 1000).astype(np.uint64)
    if kind == "complex-real":
        return a.astype(complex)
    if kind == "jax":
        return jnp.array(a)
    if kind == "bool":
        return a > 0
    return a.astype(kind)


EXTRA = st.one_of(st.sampled_from([0.0, 0, False, True, -0.5, 1, "", "done", ["time1"], ["a", "b"], [0.0, 1.5], ["int64", 0],
                                   ["int64", 7], 1e-300, -1e9]), gen.fl(-9, 9), st.integers(-3, 10 ** 6))


@st.composite
def dump_step(draw, idx):
    npul, npar = draw(st.integers(0, 4)), draw(st.integers(0, 4))
    if draw(st.integers(0, 5)) == 0:
        npul = draw(st.integers(5, 12))
    if draw(st.booleans()):
        pool = draw(st.lists(name, min_size=1, max_size=4))
        nm = st.sampled_from(pool)
    else:
        nm = name
    s = {"pulses": [{"v": draw(st.lists(gen.fl(-5, 5), min_size=1, max_size=6)), "kind": draw(st.sampled_from(KINDS)),
                    "form": draw(st.sampled_from([None, None, "digits", "digits", "long", "tiny", "large"]))}
                    for _ in range(npul)],
         "params": [{"v": draw(gen.fl(-5, 5)), "kind": draw(st.sampled_from(["float", "float64", "float32", "int64", "jax",
                                                                           "0d", "longdouble", "float16"]))}
                    for _ in range(npar)],
         "record": draw(st.integers(0, 3)) > 0}
    if draw(st.booleans()):
        s["extra"] = {n: draw(EXTRA) for n in draw(st.lists(st.sampled_from(["FoM", "iteration_number", "status_code", "std",
                                                                            "time_names", "super_it", "note", "valid"]),
                                                            min_size=1, max_size=5, unique=True))}
    if draw(st.integers(0, 4)):
        s["pulse_names"] = [draw(nm) for _ in range(npul)]
    if draw(st.integers(0, 4)):
        s["parameter_names"] = [draw(nm) for _ in range(npar)]
    return s


@st.composite
def dump_strategy(draw):
    return {"format": draw(st.sampled_from(["npz", "json"])), "date": draw(st.sampled_from(["20300101_120000", "x"])),
            "steps": [draw(dump_step(i)) for i in range(draw(st.integers(1, 4)))]}


def scalar(v, kind):
    return {"float": float, "float64": np.float64, "float32": np.float32, "int64": lambda x: np.int64(round(x)),
            "jax": jnp.asarray, "0d": np.array, "longdouble": np.longdouble, "float16": np.float16}[kind](v)


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in "OSU" or b.dtype.kind in "OSU":
        return a.shape == b.shape and bool(np.all(a == b))
    return a.shape == b.shape and bool(np.all(a.astype(complex) == b.astype(complex)))


def match(items, keys, ok):
    """Assign every item its own key (bipartite matching); returns the first item without one."""
    owner = {}

    def put(i, seen):
        for k in keys:
            if k not in seen and ok(items[i], k):
                seen.add(k)
                if k not in owner or put(owner[k], seen):
                    owner[k] = i
                    return True
        return False
    for i in range(len(items)):
        if not put(i, set()):
            return items[i]
    return None


def dump(case, ctx):
    odd = False
    with sut.scratch() as d:
        b = BestDump(d, case["date"], case["format"])
        path = os.path.join(d, case["date"] + "_best_controls." + case["format"])
        expected, last = None, None
        for k, s in enumerate(case["steps"]):
            pulses = [build(p["v"], p["kind"], p.get("form")) for p in s["pulses"]]
            grids = [np.linspace(0, 1 + i + 10 * k, len(p["v"])) for i, p in enumerate(s["pulses"])]
            params = [scalar(p["v"], p["kind"]) for p in s["params"]]
            kw = {n: s[n] for n in ("pulse_names", "parameter_names") if n in s}
            kw.update({n: np.int64(v[1]) if isinstance(v, list) and v[0] == "int64" else v for n, v in s.get("extra", {}).items()})
            with sut.quiet():
                b.dump_controls(pulses=pulses, timegrids=grids, parameters=params, is_record=s["record"], **kw)
            if not s["record"]:
                now = open(path, "rb").read() if os.path.exists(path) else None
                ctx.expect(now == last, "touched", "a dump that is not a record changed the file")
                continue
            last = open(path, "rb").read()
            expected = [(n, p, "pulse") for n, p in zip(s.get("pulse_names", ["pulse_%d" % (i + 1) for i in range(len(
                pulses))]), pulses)]
            own = [n for n, _, _ in expected]
            grid_items = [("time_grid_for_" + n, g, "time grid") for n, g in zip(own, grids)]
            par_items = [(n, p, "parameter") for n, p in zip(s.get("parameter_names", ["parameter_%d" % (i + 1) for i in range(
                len(params))]), params)]
            expected = expected + par_items + grid_items
            names = [n for n, _, _ in expected] + list(kw)
            f = sut.load_best_file(d)
            ctx.expect(isinstance(f, dict), "unreadable", lambda: "the file cannot be read back: %s" % f)
            for n, v in kw.items():
                ctx.expect(n in f and equal(f[n], v), "extra", lambda: "information %r: wrote %r, read %r" % (n, v, f.get(n)))
            ctx.expect(len(f) == len(names), "lost", lambda: "%d entries for %d controls, grids and informations: wrote %s, read "
                       "%s" % (len(f), len(names), names, sorted(f)))
            for n, v, what in expected:
                # the grid of a renamed pulse follows its pulse
                if names.count(n) == 1 and (what != "time grid" or names.count(n[len("time_grid_for_"):]) == 1):
                    ctx.expect(n in f and equal(f[n], v), "value", lambda: "%s %r: wrote %s, read %s" % (what, n, v, f.get(n)))
                else:
                    odd = True
            # the first control of a repeated name keeps it
            controls = expected[:len(pulses) + len(params)]
            for i, (n, v, what) in enumerate(controls):
                if n not in kw and n not in [m for m, _, _ in controls[:i]]:
                    ctx.expect(n in f and equal(f[n], v), "first-name", lambda: "%s %r, the first of that name: wrote %s, read "
                               "%s" % (what, n, v, f.get(n)))
            bad = match(expected, [k2 for k2 in f if k2 not in kw], lambda it, k2: k2.startswith(it[0]) and equal(f[k2], it[1]))
            ctx.expect(bad is None, "lost", lambda: "the %s %r with value %s has no entry of its own: %s" % (
                bad[2], bad[0], bad[1], {k2: f[k2] for k2 in f}))
        if case["format"] == "json" and last is not None:
            json.loads(last, parse_constant=lambda c: ctx.fail("json", "not valid json: %s" % c))
    ctx.label(case["format"], "names repeat" if odd else "names differ")
    ctx.nt(odd or len(case["steps"]) > 1)


SC = ["float", "int", "str", "bool", "none", "float64", "float32", "float16", "longdouble", "int8", "int16", "int32", "int64",
      "uint8", "uint32", "uint64", "bool_", "arr-float64", "arr-float32", "arr-longdouble", "arr-int64", "arr-bool", "arr-2d",
      "arr-0d", "arr-empty", "arr-float16", "jax", "arr-uint8", "arr-str", "arr-long"]


def leaf():
    return st.tuples(st.sampled_from(SC), gen.fl(-100, 100)).map(list)


def tree():
    return st.recursive(leaf().map(lambda x: {"leaf": x}), lambda c: st.one_of(
        st.lists(c, max_size=4).map(lambda x: {"list": x}),
        st.dictionaries(st.text(st.sampled_from(PLAIN), max_size=6), c, max_size=4).map(lambda x: {"dict": x})), max_leaves=12)


def value(kind, x):
    i = int(round(x))
    u = abs(i)
    x = x / 3.0
    simple = {"float": lambda: x, "int": lambda: i, "str": lambda: "s%r µ\"\\" % x, "bool": lambda: i > 0, "none": lambda: None,
              "bool_": lambda: np.bool_(i > 0), "jax": lambda: jnp.array([x, 2 * x]), "arr-2d": lambda: np.array([[x, 1.0], [
                  2.0, -x]]), "arr-0d": lambda: np.array(x), "arr-empty": lambda: np.zeros(0), "arr-bool": lambda: np.array([
                      True, i > 0]), "arr-long": lambda: x * np.arange(1200), "arr-str": lambda: np.array(["a", "b%d" % i])}
    if kind in simple:
        return simple[kind]()
    if kind.startswith("arr-"):
        t = kind[4:]
        return np.array([u if t.startswith("u") else i if t.startswith("i") else x, 1, 3]).astype(t)
    if kind.startswith("uint"):
        return getattr(np, kind)(u)
    if kind.startswith("int"):
        return getattr(np, kind)(i)
    return getattr(np, kind)(x)


def unfold(t):
    if "leaf" in t:
        return value(*t["leaf"])
    if "list" in t:
        return [unfold(x) for x in t["list"]]
    return {k: unfold(v) for k, v in t["dict"].items()}


def agree(v, w):
    if isinstance(v, dict):
        return isinstance(w, dict) and set(v) == set(w) and all(agree(v[k], w[k]) for k in v)
    if isinstance(v, list):
        return isinstance(w, list) and len(v) == len(w) and all(map(agree, v, w))
    if v is None or isinstance(v, (str, bool, np.bool_)):
        return w is None if v is None else v == w and isinstance(w, (str, bool))
    if hasattr(v, "shape") and not np.isscalar(v):
        v = np.asarray(v)
        return np.asarray(w).shape == v.shape and bool(np.all(np.asarray(w) == v)) if v.size else w == []
    return not isinstance(w, (str, list, dict, type(None))) and w == v


def dicts(case, ctx):
    data = {k: unfold(t) for k, t in case["data"].items()}
    with sut.scratch() as d:
        b = BestDump(d, "date", case["format"])
        with sut.quiet():
            b.dump_dict("optimized_parameters", data)
        with open(os.path.join(d, "date_optimized_parameters.json")) as f:
            text = f.read()
    try:
        back = json.loads(text)
    except ValueError as e:
        ctx.fail("dict-json", "not valid json (%s): %s" % (e, text[:200]))
        return
    ctx.expect(agree(data, back), "dict-value", lambda: "wrote %r, read %r" % (data, back))
    ctx.nt(len(text) > 30)


FAMILIES = [Family("controls", dump_strategy, dump, 2400, 40000, rule="names that repeat or look alike, or several dumps in a "
                   "row"),
            Family("results", lambda: st.fixed_dictionaries({
                "format": st.sampled_from(["npz", "json"]),
                "data": st.dictionaries(st.text(st.sampled_from(PLAIN), max_size=8), tree(), max_size=6)}),
                dicts, 1600, 30000, rule="a dictionary with at least one entry")]

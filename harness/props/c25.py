"""C25: the recorded optimisation dictionary, runs repeated from it, and the json helpers."""
import copy
import glob
import json
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen, runs, sut
from ..engine import Family
from .c24 import agree, tree, unfold
from quocslib.utils.inputoutput import readjson, writejsonfile

TYPES = {"f": [float, np.float64, np.float64], "f32": [np.float32, np.longdouble], "i": [int, np.int64, np.int32, np.int64],
         "b": [bool, np.bool_]}


def typed(x, code, narrow, path=""):
    """The same settings with some values as NumpPy scalars / arrays / tuples, decided by the digits of `code`."""
    if isinstance(x, dict):
        return {k: typed(v, code * 7 + len(k) + 3 * i, narrow, path + "/" + k) for i, (k, v) in enumerate(x.items())}
    if isinstance(x, list):
        if x and all(isinstance(v, (int, float)) for v in x):
            c = code % 4
            return np.array(x, float) if c == 1 else np.array(x) if c == 2 and all(isinstance(v, float) for v in x) else list(x)
        return [typed(v, code * 11 + i, narrow, path) for i, v in enumerate(x)]
    if isinstance(x, bool):
        return TYPES["b"][code % 2](x)
    if isinstance(x, int):
        return TYPES["i"][code % 4](x)
    if isinstance(x, float):
        t = TYPES["f"] + (TYPES["f32"] if narrow else [])
        return t[code % len(t)](x)
    return x


class Marker:
    """A class as a setting (a class cannot be recorded by value)."""


def holds(user, rec, path, ctx):
    if isinstance(user, dict):
        ctx.expect(isinstance(rec, dict), "setting", "%s: %r recorded as %r" % (path, user, rec))
        for k, v in user.items():
            ctx.expect(k in rec, "setting-missing", "%s/%s is not in the recorded dictionary" % (path, k))
            holds(v, rec[k], path + "/" + k, ctx)
        return
    if isinstance(user, list):
        ctx.expect(isinstance(rec, list) and len(rec) == len(user), "setting", lambda: "%s: %r recorded as %r" % (path, user, rec))
        for i, (u, w) in enumerate(zip(user, rec)):
            holds(u, w, "%s[%d]" % (path, i), ctx)
        return
    if isinstance(user, type) or callable(user):
        ctx.expect(rec is None or isinstance(rec, str), "class-setting", "%s: a class recorded as %r" % (path, rec))
        return
    ctx.expect(agree(user, rec), "setting", lambda: "%s: %r recorded as %r" % (path, user, rec))


@st.composite
def strategy(draw, algs=("dCRAB", "dCRAB", "DirectSearch"), maxe=(2, 40)):
    cfg = draw(runs.any_cfg(algs=algs, max_eval_total=maxe))
    if draw(st.integers(0, 2)) == 0:
        a = cfg["algorithm_settings"]
        if draw(st.booleans()):
            a["FoM_goal"] = draw(gen.fl(-3, 0.5))
        if "dsm_settings" in a and draw(st.booleans()):
            a["total_time_lim"] = 60 + draw(st.integers(0, 5))
        if a["algorithm_name"] == "dCRAB" and draw(st.booleans()):
            a["compensate_drift"] = {"compensate_after_SI": True}
    case = {}
    if cfg["algorithm_settings"]["algorithm_name"] in ("dCRAB", "DirectSearch") and draw(st.integers(0, 2)) == 0:
        case, _ = draw(runs.features(cfg))
    if draw(st.integers(0, 2)) == 0:
        cfg["create_logfile"] = draw(st.booleans())
    if draw(st.integers(0, 2)) == 0:
        cfg["optimization_client_name"] = draw(st.sampled_from(["my run", "x", "test_1", "ä"]))
    return {**case, "cfg": cfg, "obj": draw(gen.objective_spec(table=True)), "extra": draw(st.dictionaries(st.sampled_from(
        ["comment", "date", "n", "list", "sub"]), tree(), max_size=3)), "code": draw(st.integers(0, 10 ** 6)),
        "narrow": draw(st.booleans()), "cls": draw(st.integers(0, 3)) == 0}


def one(case, d, gseed):
    sysd = case["cfg"].get("sys")
    kw = runs.extra_kw(case)
    c2 = copy.deepcopy(case["cfg"])
    if sysd is not None:
        c2["sys"] = sysd
    return runs.run(c2, case["obj"], raw_dict=d, gseed=gseed, **kw)


def check(case, ctx):
    user = copy.deepcopy(case["cfg"])
    user.pop("sys", None)
    user = sut.prepare_dict(user)
    for k, t in case["extra"].items():
        user["my_" + k] = json_plain(unfold(t))
    user = {k: (v if k.startswith("my_") else typed(v, case["code"], False)) for k, v in user.items()}
    if case["narrow"]:
        user["my_narrow"] = typed({"a": 0.1, "b": [0.5, 0.25], "c": 3, "d": {"e": 1.5, "f": True}}, case["code"], True)
    if case["cls"]:
        user["my_class"] = Marker
    given = copy.deepcopy(user)
    with sut.scratch():
        r = one(case, user, 1)
        files = glob.glob(os.path.join(glob.escape(r.results_path), "*optimization_dictionary.json"))
        ctx.expect(len(files) == 1, "file", "dictionary files: %s" % files)
        text = open(files[0]).read()
        try:
            rec = json.loads(text)
        except ValueError as e:
            ctx.fail("not-json", "the dictionary file is not valid json (%s): ...%s" % (e, text[-300:]))
            return
        holds(given, rec, "", ctx)
        with sut.quiet():
            again = readjson(files[0])
        ctx.expect(again == rec, "readjson", "readjson gives something else than the content of the file")
    with sut.scratch():
        r2 = one(case, again, 1)
    ctx.expect(len(r.evals) == len(r2.evals), "rerun-number", "%d evaluations, %d when run from the recorded dictionary" % (
        len(r.evals), len(r2.evals)))
    for e, f in zip(r.evals, r2.evals):
        ctx.expect(sut.same_controls(e, f["pulses"], f["timegrids"], f["parameters"], 0.0), "rerun", lambda: "evaluation %d differs "
                   "by %s when run from the recorded dictionary" % (e["k"], sut.diff_controls(e, f["pulses"], f["parameters"])))
        ctx.expect(e["user"] == f["user"], "rerun-value", "evaluation %d differs" % e["k"])
    runs.labels(ctx, case["cfg"], r)
    ctx.label("typed" if case["code"] else "plain", "class" if case["cls"] else "no class")
    ctx.nt(len(r.evals) > 3)


@st.composite
def io_strategy(draw):
    data = draw(st.dictionaries(st.text(max_size=6), tree(), max_size=5))
    return {"data": data, "cut": draw(st.one_of(st.none(), st.none(), st.integers(0, 1000))),
            "junk": draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 1000), st.integers(0, 255)).map(list))),
            "where": draw(st.sampled_from(["file", "file", "file", "missing", "directory"]))}


def io(case, ctx):
    data = {k: unfold(t) for k, t in case["data"].items()}
    # jax arrays are no settings
    data = json_plain(data)
    with sut.scratch() as d:
        p = os.path.join(d, "s.json")
        with sut.quiet():
            err = writejsonfile(p, data)
        ctx.expect(err == 0, "write", lambda: "writing %r gives the error code %r" % (data, err))
        raw = open(p, "rb").read()
        changed = raw
        if case["cut"] is not None:
            changed = raw[:case["cut"] % (len(raw) + 1)]
        if case["junk"] is not None and changed:
            i = case["junk"][0] % len(changed)
            changed = changed[:i] + bytes([case["junk"][1]]) + changed[i + 1:]
        if changed != raw:
            open(p, "wb").write(changed)
        if case["where"] == "missing":
            p = os.path.join(d, "none.json")
        elif case["where"] == "directory":
            p = d
        with sut.quiet():
            back = readjson(p)
    if case["where"] != "file":
        ctx.expect(back is None, "missing", "reading a missing file gives %r" % (back,))
        ctx.label(case["where"])
        ctx.nt()
        return
    try:
        want = json.loads(changed.decode())
    except (ValueError, UnicodeDecodeError):
        want = None
        ctx.label("malformed")
        ctx.nt()
    ctx.expect(repr(back) == repr(want), "read", lambda: "the content is %r, readjson gives %r" % (want, back))
    if changed == raw:
        ctx.expect(agree(data, back), "round-trip", lambda: "wrote %r, read %r" % (data, back))
        ctx.nt(len(raw) > 20)


def json_plain(x):
    if isinstance(x, dict):
        return {k: json_plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [json_plain(v) for v in x]
    if type(x).__module__.startswith("jax"):
        return np.asarray(x)
    return x


FAMILIES = [Family("gradient-free", strategy, check, 480, 6000, rule="more than three evaluations"),
            Family("grape", lambda: strategy(("GRAPE",), (2, 25)), check, 64, 800, rule="more than three evaluations"),
            Family("ad", lambda: strategy(("AD",), (2, 6)), check, 16, 200, rule="more than three evaluations"),
            Family("json", io_strategy, io, 2400, 40000, rule="a malformed or missing file, or a dictionary with an entry")]

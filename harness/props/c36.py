"""C36: what the figure of merit does to the objects it is handed, and to those it hands back, stays its own business."""
import contextlib
import copy
import threading

import numpy as np
from hypothesis import strategies as st

from .. import gen, quant, runs, sut
from ..engine import Family

HOW = ["scale", "zero", "negate", "reverse-lists", "clear-lists", "replace", "grid", "keep", "result", "nan"]


class Rude:
    """Mixed into a figure of merit: changes its arguments, or its own result afterwards, as the case says."""
    how = ()
    kept = None

    def get_FoM(self, pulses=[], parameters=[], timegrids=[], **kw):
        if quant.traced(pulses) or quant.traced(parameters):
            return super().get_FoM(pulses=pulses, parameters=parameters, timegrids=timegrids, **kw)
        k = len(self.evals)
        h = self.how[k % len(self.how)]
        if self.kept is not None and h == "result":
            # the dictionary of the evaluation before, which the user kept
            self.kept["FoM"] = -12345.0
            self.kept["status_code"] = 7
            self.kept["std"] = 99.0
        if h == "keep":
            self.held.append((k + 1, (pulses, parameters, timegrids), copy.deepcopy((pulses, parameters, timegrids))))
        res = super().get_FoM(pulses=pulses, parameters=parameters, timegrids=timegrids, **kw)
        if h == "keep" and self.spec.get("ret") != "shared" and "result" not in self.how:
            self.given.append((k + 1, res, dict(res)))
        if self.spec.get("ret") != "shared":
            self.kept = res
        arrays = [p for p in pulses if isinstance(p, np.ndarray) and p.flags.writeable]
        grids = [t for t in timegrids if isinstance(t, np.ndarray) and t.flags.writeable]
        if h == "scale":
            for p in arrays:
                p *= 2
        elif h in ("zero", "nan"):
            for p in arrays + grids:
                p[...] = 0 if h == "zero" else np.nan
        elif h == "negate":
            for p in arrays:
                p[...] = -p[::-1].copy()
        elif h == "grid":
            for t in grids:
                t *= 0.5
        elif h == "reverse-lists":
            for x in (pulses, parameters, timegrids):
                if isinstance(x, list):
                    x.reverse()
        elif h == "clear-lists":
            for x in (pulses, parameters, timegrids):
                if isinstance(x, list):
                    x.clear()
        elif h == "replace":
            for x in (pulses, timegrids):
                for i in range(len(x)):
                    if isinstance(x, list):
                        x[i] = np.zeros(1)
        if h in ("scale", "zero", "nan", "replace"):
            if isinstance(parameters, list):
                for i in range(len(parameters)):
                    parameters[i] = 77.0
            elif isinstance(parameters, np.ndarray) and parameters.flags.writeable:
                parameters[...] = 77.0
        return res


class RudeFoM(Rude, sut.RecFoM):
    pass


class RudeGrape(Rude, quant.GrapeFoM):
    pass


class RudeAD(Rude, quant.ADFoM):
    pass


def strategy(algs, feats=False, **kw):
    @st.composite
    def s(draw):
        c = draw(runs.any_cfg(algs=algs, **kw))
        case = {"cfg": c, "obj": draw(gen.objective_spec(table=feats))}
        if feats and draw(st.integers(0, 2)) == 0:
            extra, _ = draw(runs.features(c))
            case.update(extra)
        case["how"] = draw(st.lists(st.sampled_from(HOW), min_size=1, max_size=4))
        return case
    return s


def check(case, ctx):
    cfg = case["cfg"]
    alg = runs.alg_name(cfg)
    with sut.scratch():
        a = runs.run(cfg, case["obj"], **runs.extra_kw(case))
    cls = {"GRAPE": RudeGrape, "AD": RudeAD}.get(alg, RudeFoM)
    cls = type("Rude", (cls,), {"how": case["how"], "held": [], "given": []})
    with sut.scratch():
        b = runs.run(cfg, case["obj"], fom_class=cls, **runs.extra_kw(case))
    what = "when the figure of merit does %s to what it gets" % "/".join(case["how"])
    for x, y in zip(a.evals, b.evals):
        ctx.expect(sut.same_controls(y, x["pulses"], x["timegrids"], x["parameters"], 0), "evaluation", lambda: (
            "evaluation %d differs %s: %s instead of %s" % (x["k"], what, (y["pulses"], y["timegrids"], y["parameters"]), (
                x["pulses"], x["timegrids"], x["parameters"]))))
        ctx.expect(y["user"] == x["user"] or (x["user"] != x["user"]), "value", lambda: "evaluation %d: %r instead of %r" % (
            x["k"], y["user"], x["user"]))
    for k, now, then in cls.held:
        ctx.expect(all(len(x) == len(y) and all(np.array_equal(np.asarray(u), np.asarray(v), equal_nan=True) for u, v in zip(
            x, y)) for x, y in zip(now, then)), "changed-later", lambda: "the controls of evaluation %d, which the user kept, "
                "changed from %s to %s" % (k, then, now))
    for k, now, then in cls.given:
        ctx.expect(sorted(now) == sorted(then) and all(now[x] == then[x] or now[x] != now[x] for x in now),
                   "result-changed", lambda: "the dictionary the user returned for evaluation %d changed from %s to %s" % (k, then, now))
    ctx.expect(len(a.evals) == len(b.evals), "number", "%d evaluations %s, %d otherwise" % (len(b.evals), what, len(a.evals)))
    ctx.expect(a.final == b.final, "results", lambda: "results %s: %s; otherwise %s" % (what, b.final, a.final))
    for key in ("pulses", "timegrids", "parameters"):
        ctx.expect(all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(a.best[key], b.best[key])), "best-controls",
                   lambda: "best controls %s: %s %s; otherwise %s" % (what, key, b.best[key], a.best[key]))
    ctx.expect((a.file is None) == (b.file is None), "file", "best-controls file %s: %s; otherwise %s" % (what, b.file, a.file))
    if a.file is not None:
        ctx.expect(sorted(a.file) == sorted(b.file), "file", lambda: "best-controls file %s: %s; otherwise %s" % (
            what, sorted(b.file), sorted(a.file)))
        for k in a.file:
            ctx.expect(np.array_equal(np.asarray(a.file[k]), np.asarray(b.file[k])), "file", lambda: (
                "best-controls file %s: %s is %s; otherwise %s" % (what, k, b.file[k], a.file[k])))
    runs.labels(ctx, cfg, a)
    ctx.label(*case["how"])
    ctx.nt(len(a.evals) >= 3)


# --------------------------------------------------------------------------------------------- the configuration
CHANGES = ["seed", "evals", "amplitude", "limits", "times", "parameter", "direction", "goal", "guess-list", "guess", "basis",
           "bins", "dsm", "name-order", "features", "periodic", "periodic", "re-evaluation", "thresholds", "cbs", "tolerance",
           "method", "adaptive", "shaping", "shrink", "format", "swap"]


def change(d, what, x):
    """Change the configuration d in place, as somebody who scans a setting does; x is in [1, 2]."""
    a = d["algorithm_settings"]
    if what == "seed":
        a.setdefault("random_number_generator", {})["seed_number"] = int(1000 * x) + a.get("random_number_generator", {}).get(
            "seed_number", 0) % 1000
    elif what == "evals":
        a["max_eval_total"] = int(a["max_eval_total"] * x) + 1
    elif what == "amplitude":
        for p in d["pulses"] + d["parameters"]:
            p["amplitude_variation"] *= x
    elif what == "limits":
        for p in d["pulses"] + d["parameters"]:
            p["upper_limit"] += x * abs(p["upper_limit"] - p["lower_limit"])
    elif what == "times":
        for t in d["times"]:
            t["initial_value"] *= x
    elif what == "parameter":
        for p in d["parameters"]:
            p["initial_value"] = p["lower_limit"] + (x - 1) * (p["upper_limit"] - p["lower_limit"])
    elif what == "direction":
        a["optimization_direction"] = "minimization" if a.get("optimization_direction") == "maximization" else "maximization"
    elif what == "goal":
        a["FoM_goal"] = 1.5 - x
    elif what == "guess-list":
        for p in d["pulses"]:
            for k in ("initial_guess", "scaling_function"):
                if p.get(k, {}).get("function_type") == "list_function":
                    p[k]["list_function"][0] = round(p[k]["list_function"][0] + x, 6)
    elif what == "guess":
        for p in d["pulses"]:
            if p.get("initial_guess", {}).get("function_type") != "list_function":
                p.setdefault("initial_guess", {}).update(function_type="lambda_function", lambda_function=(
                    "lambda t: %r + 0.0*t" % x))
    elif what == "basis":
        for p in d["pulses"]:
            r = p["basis"].get("random_super_parameter_distribution")
            if r and p["basis"]["basis_name"] in ("Fourier", "Chebyshev"):
                r["upper_limit"] = r["upper_limit"] + x
    elif what == "bins":
        for p in d["pulses"]:
            if p["basis"]["basis_name"] != "PiecewiseBasis" and "list_function" not in str(p):
                p["bins_number"] += 2
    elif what == "dsm" and "dsm_settings" in a:
        a["dsm_settings"]["stopping_criteria"]["max_eval"] = 5 + int(10 * (x - 1))
    elif what == "name-order":
        for i, p in enumerate(d["pulses"]):
            p["pulse_name"] = "New%d" % i
    elif what == "features" and "dsm_settings" in a:
        c = a.setdefault("compensate_drift", {})
        c["compensate_after_SI"], c["num_average"] = x > 1, int(1.5 * x)
    elif what == "periodic" and "dsm_settings" in a:
        c = a.setdefault("compensate_drift", {})
        c["compensate_after_minutes"] = 0.0 if c.get("compensate_after_minutes", 0.0) > 0 else x
    elif what == "re-evaluation" and "dsm_settings" in a:
        if "re_evaluation" in a:
            a.pop("re_evaluation")
        else:
            a["re_evaluation"] = {"re_evaluation_steps": [0.25, 0.5]}
    elif what == "thresholds" and "re_evaluation" in a:
        r = a["re_evaluation"].setdefault("re_evaluation_steps", [])
        r[:] = [round(0.6 - 0.2 * x, 6), 0.5] if isinstance(r, list) else np.round(0.75 * r, 6)
    elif what == "cbs" and "dsm_settings" in a:
        sc = a["dsm_settings"]["stopping_criteria"]
        sc.setdefault("change_based_stop", {}).update(cbs_funct_evals=int(2 + 4 * (x - 1)), cbs_change=x / 4)
    elif what == "tolerance" and "dsm_settings" in a:
        sc = a["dsm_settings"]["stopping_criteria"]
        sc["fatol"] = sc["xatol"] = 10.0 ** (-2 * x)
    elif what == "method" and "dsm_settings" in a:
        g = a["dsm_settings"]["general_settings"]
        g["dsm_algorithm_name"] = "CMAES" if g["dsm_algorithm_name"] == "NelderMead" else "NelderMead"
    elif what == "adaptive" and "dsm_settings" in a:
        g = a["dsm_settings"]["general_settings"]
        g["is_adaptive"] = not g.get("is_adaptive", False)
        g["population"] = 3 + int(2 * x)
    elif what == "shaping":
        for p in d["pulses"]:
            p.setdefault("shaping_options", [])[:] = ["add_initial_guess", "add_base_pulse", "add_initial_guess",
                                                      "add_new_update_pulse", "limit_pulse"]
    elif what == "shrink":
        for p in d["pulses"]:
            p["shrink_ampl_lim"] = not p.get("shrink_ampl_lim", False)
    elif what == "format":
        d["dump_format"] = "json" if d.get("dump_format", "npz") == "npz" else "npz"
    elif what == "swap":
        d["pulses"].reverse()
        d["parameters"].reverse()


def configurations(algs, **kw):
    @st.composite
    def s(draw):
        c = draw(runs.any_cfg(algs=algs, **kw))
        if runs.alg_name(c) != "GRAPE" and draw(st.integers(0, 2)) == 0:
            draw(runs.features(c))
        return {"cfg": c, "obj": draw(gen.objective_spec()), "tick": draw(st.sampled_from([1, 15, 60])),
                "std": draw(st.lists(gen.fl(0.0, 1.0), min_size=1, max_size=3)),
                "changes": draw(st.lists(st.tuples(st.sampled_from(CHANGES), st.sampled_from([1.0, 1.125, 1.5, 1.75, 2.0])),
                                         max_size=4)),
                "when": draw(st.sampled_from(["between", "between", "prepared", 1, 2, 4])), "runs": draw(st.integers(2, 3)),
                "arrays": draw(st.booleans())}
    return s


def as_arrays(d):
    """The lists of numbers as numpy arrays, which may be changed in place as well."""
    for p in d["pulses"]:
        for k in ("initial_guess", "scaling_function"):
            if "list_function" in p.get(k, {}):
                p[k]["list_function"] = np.array(p[k]["list_function"], dtype=float)
    r = d["algorithm_settings"].get("re_evaluation", {})
    if "re_evaluation_steps" in r:
        r["re_evaluation_steps"] = np.array(r["re_evaluation_steps"], dtype=float)
    return d


def same_runs(ctx, a, b, where):
    ctx.expect(len(a.evals) == len(b.evals), "number", "%s: %d evaluations; with a new dictionary %d" % (
        where, len(b.evals), len(a.evals)))
    for x, y in zip(a.evals, b.evals):
        ctx.expect(sut.same_controls(y, x["pulses"], x["timegrids"], x["parameters"], 0) and x["user"] == y["user"], "evaluation",
                   lambda: "%s: evaluation %d is %s; with a new dictionary %s" % (where, x["k"], y, x))
    ctx.expect(a.final == b.final, "results", lambda: "%s: results %s; with a new dictionary %s" % (where, b.final, a.final))
    ctx.expect((a.file is None) == (b.file is None) and (a.file is None or sorted(a.file) == sorted(b.file) and all(
        np.array_equal(np.asarray(a.file[k]), np.asarray(b.file[k])) for k in a.file)), "file", lambda: (
            "%s: best-controls file %s; with a new dictionary %s" % (where, b.file, a.file)))


def check_cfg(case, ctx):
    cfg = case["cfg"]

    def fresh():
        d = sut.prepare_dict({k: v for k, v in cfg.items() if k != "sys"})
        return as_arrays(d) if case["arrays"] else d

    def one(d, attach=None, hook=None):
        with sut.scratch():
            return runs.run(cfg, case["obj"], raw_dict=d, attach=attach, hook=hook, clock=sut.Clock(), ticks=[case["tick"]],
                            std=case["std"])

    def changed(d, times):
        for _ in range(times):
            for what, x in case["changes"]:
                change(d, what, x)
        return d
    refs = [one(changed(fresh(), i)) for i in range(case["runs"])]
    d = fresh()
    done = [0]

    def now():
        done[0] += 1
        changed(d, 1)
    for i, ref in enumerate(refs):
        w = case["when"]
        k = i + 1
        attach = (lambda r: now()) if w == "prepared" else None
        hook = (lambda rec, res: now() if rec["k"] == w and done[0] < k else None) if isinstance(w, int) else None
        b = one(d, attach, hook)
        same_runs(ctx, ref, b, "run %d with the same dictionary (changes %s, made %s)" % (k, case["changes"], {
            "between": "between the runs", "prepared": "after the run was prepared"}.get(w, "during evaluation %s" % w)))
        if done[0] < k:
            now()
    runs.labels(ctx, cfg, refs[0])
    ctx.label("when %s" % case["when"], *[c[0] for c in case["changes"]])
    ctx.nt(len(refs[0].evals) >= 3)


# --------------------------------------------------------------------------------------------------- overlapping runs
class Abandoned(BaseException):
    pass


class Lane:
    """One run in a thread of its own, which goes on from one evaluation to the next when it is told to. The process-wide
    random state and the time belong to the lane which is going on."""

    def __init__(self, i, case, clock, threaded=True):
        self.i, self.clock, self.over, self.error, self.dropped = i, clock, False, None, False
        spec = case["lanes"][i]
        cfg = spec["cfg"]
        self.cfg = cfg
        self.dict = case.get("dicts", {}).get(id(spec))
        if self.dict is None:
            self.dict = sut.prepare_dict({k: v for k, v in cfg.items() if k != "sys"})
        self.state, self.t = np.random.RandomState(100 + i).get_state(), 1000.0 * (i + 1)
        lane = self
        base = {"GRAPE": quant.GrapeFoM, "AD": quant.ADFoM}.get(runs.alg_name(cfg), sut.RecFoM)

        class Fom(base):
            def get_FoM(self, pulses=[], parameters=[], timegrids=[], **kw):
                if not (quant.traced(pulses) or quant.traced(parameters)):
                    lane.pause()
                return super().get_FoM(pulses=pulses, parameters=parameters, timegrids=timegrids, **kw)
        self.he = sut.HandleExit()
        self.fom = Fom(spec["obj"], maximize=cfg["algorithm_settings"].get("optimization_direction") == "maximization",
                       events=[{"at": spec["stop"], "type": "user_stop"}] if spec["stop"] else [], clock=clock,
                       ticks=[spec["tick"]], std=spec["std"], stop=lambda: self.he.set_is_user_running(False))
        if "sys" in cfg:
            self.fom.set_system(cfg["sys"])
        self.thread = None
        if threaded:
            self.go, self.paused = threading.Semaphore(0), threading.Semaphore(0)
            self.thread = threading.Thread(target=self.main, daemon=True)
            self.thread.start()
            self.paused.acquire()

    def pause(self):
        if self.thread is None:
            return
        self.paused.release()
        self.go.acquire()
        if self.dropped:
            raise Abandoned()

    def work(self):
        opt = sut.Optimizer(self.dict, self.fom, None, self.he)
        self.pause()
        opt.execute()
        alg = opt.get_optimization_algorithm()
        self.out = {"best": alg.get_best_controls(), "path": opt.results_path, "FoM_list": list(alg.FoM_list),
                    "numbers": list(alg.iteration_number_list)}

    def main(self):
        try:
            self.pause()
            self.work()
        except BaseException as e:
            self.error = e
        self.over = True
        self.paused.release()

    @contextlib.contextmanager
    def turn(self):
        np.random.set_state(self.state)
        self.clock.t = self.t
        yield
        self.state, self.t = np.random.get_state(), self.clock.t

    def advance(self):
        with self.turn():
            self.go.release()
            self.paused.acquire()
        if self.error is not None and not isinstance(self.error, Abandoned):
            raise self.error

    def drop(self):
        if not self.over:
            self.dropped = True
            self.go.release()
            self.thread.join(5)


@st.composite
def overlapping(draw):
    lanes = []
    for i in range(draw(st.sampled_from([1, 2, 2, 2, 3]))):
        c = draw(runs.any_cfg(algs=("dCRAB", "dCRAB", "dCRAB", "DirectSearch", "GRAPE"), max_eval_total=(2, 25)))
        if runs.alg_name(c) != "GRAPE" and draw(st.integers(0, 2)) == 0:
            draw(runs.features(c))
        lanes.append({"cfg": c, "obj": draw(gen.objective_spec()), "tick": draw(st.sampled_from([1, 15, 60])),
                      "std": draw(st.lists(gen.fl(0.0, 1.0), min_size=1, max_size=3)),
                      "stop": draw(st.sampled_from([0, 0, 0, 1, 3, 8]))})
        if i and draw(st.integers(0, 2)) == 0:
            lanes[i]["cfg"] = copy.deepcopy(lanes[0]["cfg"])
    return {"lanes": lanes, "shared": draw(st.booleans()),
            "order": draw(st.lists(st.integers(0, 2), min_size=1, max_size=8))}


def check_overlapping(case, ctx):
    n = len(case["lanes"])
    refs = []
    clock = sut.Clock()
    with sut.virtual_clock(clock), sut.quiet():
        for i in range(n):
            with sut.scratch():
                ref = Lane(i, case, clock, threaded=False)
                with ref.turn():
                    ref.work()
                ref.file, ref.final = sut.load_best_file(ref.out["path"]), sut.load_final(ref.out["path"])
                refs.append(ref)
    if case["shared"]:
        # equal configurations are one dictionary
        ds = []
        for spec in case["lanes"]:
            d = next((d for c, d in ds if c == spec["cfg"]), None)
            if d is None:
                d = sut.prepare_dict({k: v for k, v in spec["cfg"].items() if k != "sys"})
                ds.append((spec["cfg"], d))
            case.setdefault("dicts", {})[id(spec)] = d
    switches, last, lanes = 0, None, []
    with sut.scratch(), sut.virtual_clock(clock), sut.quiet():
        try:
            for i in range(n):
                lanes.append(Lane(i, case, clock))
            step = 0
            while not all(x.over for x in lanes):
                alive = [x for x in lanes if not x.over]
                x = alive[case["order"][step % len(case["order"])] % len(alive)]
                switches += last is not None and x is not last
                last = x
                x.advance()
                step += 1
        finally:
            for x in lanes:
                x.drop()
            case.pop("dicts", None)
        for x in lanes:
            x.file, x.final = sut.load_best_file(x.out["path"]), sut.load_final(x.out["path"])
    for a, b in zip(refs, lanes):
        where = "run %d of %d, in its own thread, %s" % (a.i + 1, n, "no other run" if n == 1 else "the others in theirs")
        ctx.expect(len(a.fom.evals) == len(b.fom.evals), "number", "%s: %d evaluations; alone %d" % (
            where, len(b.fom.evals), len(a.fom.evals)))
        for x, y in zip(a.fom.evals, b.fom.evals):
            ctx.expect(sut.same_controls(y, x["pulses"], x["timegrids"], x["parameters"], 0) and x["user"] == y["user"],
                       "evaluation", lambda: "%s: evaluation %d is %s; alone %s" % (where, x["k"], y, x))
        ctx.expect(a.final == b.final, "results", lambda: "%s: results %s; alone %s" % (where, b.final, a.final))
        for k in ("FoM_list", "numbers"):
            ctx.expect(a.out[k] == b.out[k], "history", lambda: "%s: %s is %s; alone %s" % (where, k, b.out[k], a.out[k]))
        for k in ("pulses", "timegrids", "parameters"):
            ctx.expect(len(a.out["best"][k]) == len(b.out["best"][k]) and all(np.array_equal(np.asarray(x), np.asarray(
                y)) for x, y in zip(a.out["best"][k], b.out["best"][k])), "best-controls", lambda: (
                    "%s: best %s %s; alone %s" % (where, k, b.out["best"][k], a.out["best"][k])))
        ctx.expect((a.file is None) == (b.file is None) and (a.file is None or sorted(a.file) == sorted(b.file) and all(
            np.array_equal(np.asarray(a.file[k]), np.asarray(b.file[k])) for k in a.file)), "file", lambda: (
                "%s: best-controls file %s; alone %s" % (where, b.file, a.file)))
        ctx.label(runs.alg_name(a.cfg))
    ctx.label("%d runs" % n, "same dictionary" if case["shared"] and n > 1 and case["lanes"][0]["cfg"] in [
        x["cfg"] for x in case["lanes"][1:]] else "own dictionaries")
    ctx.nt(switches >= 3)


RULE = "at least three evaluations"
FAMILIES = [Family("gradient-free", strategy(("dCRAB", "dCRAB", "DirectSearch"), feats=True, max_eval_total=(2, 40)), check,
                   800, 10000, rule=RULE),
            Family("grape", strategy(("GRAPE",), max_eval_total=(2, 30)), check, 200, 2400, rule=RULE),
            Family("ad", strategy(("AD",), max_eval_total=(2, 5)), check, 12, 240, rule=RULE),
            Family("configuration", configurations(("dCRAB", "dCRAB", "DirectSearch", "GRAPE"), max_eval_total=(2, 30)),
                   check_cfg, 480, 6000, rule=RULE),
            Family("overlapping", overlapping(), check_overlapping, 480, 6000,
                   rule="at least two runs which take turns at least three times")]

"""C07: stop requests at every possible point (fault enumeration over the evaluation at which they arrive)."""
import copy
import signal
import sys

import numpy as np
from hypothesis import strategies as st

from .. import gen, runs, sut
from ..engine import Family
from .c03 import trim


@st.composite
def strategy(draw, algs=("dCRAB", "dCRAB", "DirectSearch"), maxe=(2, 60), noisy=False):
    cfg = draw(runs.any_cfg(algs=algs, max_eval_total=maxe))
    a = cfg["algorithm_settings"]
    if noisy:
        if draw(st.booleans()):
            a["compensate_drift"] = {"compensate_after_SI": True, "num_average": draw(st.integers(1, 4))}
        else:
            a["re_evaluation"] = {"re_evaluation_steps": draw(st.sampled_from([[0.3, 0.5, 0.501], [0.5], [0.1, 0.6]]))}
        a["dsm_settings"]["stopping_criteria"]["max_eval"] = draw(st.integers(2, 15))
        a["super_iteration_number"] = draw(st.integers(2, 4))
    ev = {"type": draw(st.sampled_from(["user_stop", "user_stop", "sigint", "status", "status"])),
          "at_frac": draw(st.integers(0, 999))}
    if ev["type"] == "status":
        ev["code"] = draw(st.sampled_from([-1, -2, 5, 1]))
        ev["fom"] = draw(st.sampled_from(["same", "best", "best", "none"]))
    obj = draw(gen.objective_spec(table=True))
    case = {"cfg": cfg, "obj": obj, "event": ev}
    if ev["type"] == "sigint":
        case["earlier"], case["later"] = draw(st.booleans()), draw(st.integers(0, 2)) == 0
    if noisy:
        case["std"] = draw(st.lists(gen.fl(0.0, 1.0), min_size=1, max_size=4))
    return case


def plan(case, n):
    ev = dict(case["event"])
    ev["at"] = 1 + (ev.pop("at_frac") * n) // 1000
    return ev


def left_handler(case):
    """The SIGINT handler as an earlier run of another optimiser leaves it behind."""
    kept = []
    old = signal.getsignal(signal.SIGINT)
    other = copy.deepcopy(case["cfg"])
    other["algorithm_settings"]["max_eval_total"] = 1
    runs.run(other, case["obj"], std=case.get("std"), attach=lambda r: kept.append(signal.getsignal(signal.SIGINT)))
    return kept[0] if kept else old


def stopped_run(case, ctx):
    """The free run, the run with the stop, and the stop's position; common assertions."""
    cfg = case["cfg"]
    free = runs.run(cfg, case["obj"], std=case.get("std"))
    n = len(free.evals)
    ev = plan(case, n)
    handler = signal.getsignal(signal.SIGINT)
    if case.get("earlier"):
        # the handlers another run left in the process
        signal.signal(signal.SIGINT, left_handler(case))
    others = []

    def attach(r):
        runs.attach_si(r)
        if case.get("later"):
            # another optimisation is prepared before this one is started
            other = sut.prepare_dict({k: v for k, v in cfg.items() if k != "sys"})
            other["optimization_client_name"] = "other"
            fom = type(r.fom)(case["obj"])
            if "sys" in cfg:
                fom.set_system(cfg["sys"])
            others.append((fom, sut.Optimizer(other, fom)))
    try:
        r = runs.run(cfg, case["obj"], events=[ev], std=case.get("std"), attach=attach)
    finally:
        signal.signal(signal.SIGINT, handler)
    at = ev["at"]
    ctx.expect(len(r.evals) == at, "evaluations-after-stop" if len(r.evals) > at else "stopped-early",
               "%s at evaluation %d: %d evaluations were made" % (ev["type"], at, len(r.evals)))
    for a, b in zip(free.evals, r.evals):
        ctx.expect(sut.same_controls(a, b["pulses"], b["timegrids"], b["parameters"], 1e-12), "different-run",
                   "evaluation %d differs from the run without a stop" % a["k"])
    ctx.expect(r.final is not None, "no-results", "no results file after the stop")
    ctx.label(ev["type"] + (":" + ev["fom"] if "fom" in ev else ""))
    if r.evals:
        ctx.label("in SI %d" % r.evals[-1]["si"])
    runs.labels(ctx, cfg, r)
    ctx.nt(1 < at < n)
    return free, r, ev


def check(case, ctx):
    cfg = case["cfg"]
    ad = runs.alg_name(cfg) == "AD"
    with sut.scratch():
        free, r, ev = stopped_run(case, ctx)
        best = runs.best_of(r.evals)
        rep = r.final["Figure of merit"]
        if best is None:
            runs.file_matches(ctx, cfg, r.file, None, "after the stop")
            ctx.expect(abs(rep) >= 1e9, "reported-without-evaluation",
                       "no evaluation finished, but the reported figure of merit is %r" % rep)
            return
        ctx.expect(abs(rep * r.sgn - best["F"]) <= 1e-9 * max(1, abs(best["F"])), "reported", "stop (%s) at %d: reported "
                   "%r, best finished evaluation is %d with %r" % (ev, ev["at"], rep, best["k"], best["user"]))
        if ad:
            trim(cfg, best, r)
        runs.file_matches(ctx, cfg, r.file, best, "after the stop", 1e-6 if ad else 1e-12)
        ctx.expect(sut.same_controls(best, r.best["pulses"], r.best["timegrids"], r.best["parameters"],
                                     2e-5 if ad else 1e-7), "queried-best",
                   lambda: "the best controls after the stop are not those of evaluation %d (difference %s)" % (
                       best["k"], sut.diff_controls(best, r.best["pulses"], r.best["parameters"])))


def noisy(case, ctx):
    """With drift compensation or re-evaluation: only measured values and evaluated controls may be reported."""
    cfg = case["cfg"]
    with sut.scratch():
        free, r, ev = stopped_run(case, ctx)
        ok = [e for e in r.evals if e["status"] == 0]
        rep = r.final["Figure of merit"]
        if not ok or (len(ok) == 1 and "re_evaluation" in cfg["algorithm_settings"]):
            # no candidate was measured often enough to become the record
            ctx.expect(abs(rep) >= 1e9 or (ok and abs(rep - ok[0]["user"]) <= 1e-9), "reported-not-measured",
                       "stop (%s): reported %r without any record" % (ev, rep))
            return
        lo, hi = min(e["F"] for e in ok), max(e["F"] for e in ok)
        v = rep * r.sgn
        ctx.expect(lo - 1e-9 <= v <= hi + 1e-9, "reported-not-measured", "stop (%s): reported %r, measured values lie in "
                   "%r..%r" % (ev, rep, r.sgn * lo, r.sgn * hi))
        ctx.expect(any(sut.same_controls(e, r.best["pulses"], r.best["timegrids"], r.best["parameters"], 1e-7)
                       for e in ok), "queried-not-evaluated", "the best controls after the stop were never evaluated")
        ctx.expect(r.file is not None and not isinstance(r.file, str), "file", "best-controls file missing or unreadable")
        k = int(r.file["iteration_number"])
        e = [x for x in r.evals if x["k"] == k]
        ctx.expect(bool(e) and e[0]["status"] == 0, "file-number", "the file names evaluation %d" % k)
        runs_pulses = [np.asarray(r.file[p["pulse_name"]]) for p in cfg["pulses"]]
        runs_par = [float(np.asarray(r.file[q["parameter_name"]])) for q in cfg["parameters"]]
        ctx.expect(sut.same_controls(e[0], runs_pulses, None, runs_par, 1e-9), "file-controls",
                   "the file does not hold the controls of evaluation %d" % k)


@st.composite
def before_strategy(draw):
    cfg = draw(runs.any_cfg(algs=("dCRAB", "DirectSearch", "GRAPE"), max_eval_total=(2, 20)))
    return {"cfg": cfg, "obj": draw(gen.objective_spec(table=True)),
            "drift": draw(st.booleans())}


def before(case, ctx):
    cfg = copy.deepcopy(case["cfg"])
    if case["drift"] and runs.alg_name(cfg) == "dCRAB":
        cfg["algorithm_settings"]["compensate_drift"] = {"compensate_after_SI": True, "num_average": 2}
    with sut.scratch():
        r = runs.run(cfg, case["obj"], stop_before=True)
        ctx.expect(len(r.evals) == 0, "evaluations-after-stop", "%d evaluations after a stop before the run" % len(r.evals))
        ctx.expect(r.final is not None, "no-results", "no results file")
        ctx.expect(r.file is None, "file-without-evaluation", "a best-controls file without any evaluation")
        runs.labels(ctx, cfg, r)
        ctx.nt()


class LineStop:
    """Calls `do` just before the n-th line of the package that is executed after start(); counts the lines."""

    def __init__(self, at, do):
        self.at, self.do, self.n, self.where = at, do, 0, None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                self.where = "%s:%d" % (frame.f_code.co_filename[len(sut.REPO):], frame.f_lineno)
                self.do()
        return self.local

    def trace(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(sut.REPO) else None

    def __enter__(self):
        self.old = sys.gettrace()
        return self

    def start(self):
        sys.settrace(self.trace)

    def __exit__(self, *exc):
        sys.settrace(self.old)


@st.composite
def anywhere_strategy(draw):
    algs = ("dCRAB",) * 3 + ("DirectSearch",) * 3 + ("GRAPE",)
    return {"cfg": draw(runs.any_cfg(algs=algs, max_eval_total=(2, 25))),
            "obj": draw(gen.objective_spec(table=True)), "at_frac": draw(st.integers(0, 9999)),
            "how": draw(st.sampled_from(["sigint", "handle"]))}


def anywhere(case, ctx):
    """The stop arrives between any two lines of the package, not only during an evaluation."""
    cfg = case["cfg"]
    with sut.scratch():
        with LineStop(-1, None) as t:
            free = runs.run(cfg, case["obj"], attach=lambda r: t.start())
        at, hit = 1 + case["at_frac"] * t.n // 10000, {}
    handler = signal.getsignal(signal.SIGINT)
    with sut.scratch():
        def attach(r):
            def do():
                if case["how"] == "sigint":
                    h = signal.getsignal(signal.SIGINT)
                    if h is handler:
                        # the run has not put its handler in place yet
                        return
                    hit["started"] = len(r.fom.evals)
                    h(signal.SIGINT, None)
                else:
                    hit["started"] = len(r.fom.evals)
                    r.he.set_is_user_running(False)
            t.do = do
            t.start()
        try:
            with LineStop(at, None) as t:
                r = runs.run(cfg, case["obj"], attach=attach)
        finally:
            signal.signal(signal.SIGINT, handler)
        n = hit.get("started")
        if n is None:
            # the log or the clock changed how many lines were executed, and the run ended before
            ctx.label("not reached")
            return
        ctx.label(case["how"])
        runs.labels(ctx, cfg, r)
        what = "%s before %s (after %d evaluations)" % (case["how"], t.where, n)
        ctx.nt(0 < n < len(free.evals))
        ctx.expect(len(r.evals) <= n + 1, "evaluations-after-stop", "%s: %d evaluations were made" % (what, len(r.evals)))
        ctx.expect(r.final is not None, "no-results", "%s: no results file" % what)
        for a, b in zip(free.evals, r.evals):
            ctx.expect(sut.same_controls(a, b["pulses"], b["timegrids"], b["parameters"], 1e-12), "different-run",
                       "%s: evaluation %d differs from the run without a stop" % (what, a["k"]))
        key = [k for k in r.final if "number of function evaluations" in k]
        for k in key:
            ctx.expect(int(r.final[k]) == len(r.evals), "evaluations-reported", "%s: %d evaluations were made, %r are "
                       "reported" % (what, len(r.evals), r.final[k]))
        best, rep = runs.best_of(r.evals), r.final["Figure of merit"]
        if best is None:
            runs.file_matches(ctx, cfg, r.file, None, what)
            ctx.expect(abs(rep) >= 1e9, "reported-without-evaluation", "%s: no evaluation finished, but the reported "
                       "figure of merit is %r" % (what, rep))
            return
        ctx.expect(abs(rep * r.sgn - best["F"]) <= 1e-9 * max(1, abs(best["F"])), "reported", "%s: reported %r, best "
                   "finished evaluation is %d with %r" % (what, rep, best["k"], best["user"]))
        runs.file_matches(ctx, cfg, r.file, best, what)
        ctx.expect(sut.same_controls(best, r.best["pulses"], r.best["timegrids"], r.best["parameters"], 1e-7),
                   "queried-best", "%s: the best controls are not those of evaluation %d" % (what, best["k"]))


FAMILIES = [Family("gradient-free", strategy, check, 960, 12000,
                   rule="the stop arrives after the first and before the last evaluation of the free run"),
            Family("grape", lambda: strategy(("GRAPE",), (2, 25)), check, 240, 3000, rule="as gradient-free"),
            Family("ad", lambda: strategy(("AD",), (2, 6)), check, 32, 500, rule="as gradient-free"),
            Family("noisy", lambda: strategy(("dCRAB",), noisy=True), noisy, 640, 8000, rule="as gradient-free"),
            Family("anywhere", anywhere_strategy, anywhere, 320, 4000,
                   rule="the stop arrives after the first evaluation started and before the last one of the free run"),
            Family("before", before_strategy, before, 160, 1000, rule="every case: the stop comes before the run")]

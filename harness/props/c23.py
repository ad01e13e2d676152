"""C23: histories and interface signals against the recorded evaluations."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, runs, sut
from ..engine import Family


@st.composite
def strategy(draw, algs=("dCRAB", "dCRAB", "DirectSearch"), maxe=(2, 60), noisy=False):
    cfg = draw(runs.any_cfg(algs=algs, max_eval_total=maxe, other=not noisy))
    a = cfg["algorithm_settings"]
    case = {"obj": draw(gen.objective_spec(table=True)), "signals": draw(st.integers(0, 3)) > 0}
    if noisy:
        k = draw(st.integers(0, 2))
        if k != 1:
            a["compensate_drift"] = {"compensate_after_SI": True, "num_average": draw(st.integers(1, 3))}
        if k != 0:
            a["re_evaluation"] = {"re_evaluation_steps": draw(st.sampled_from([[0.3, 0.5, 0.501], [0.5], [0.1, 0.6]]))}
        a["dsm_settings"]["stopping_criteria"]["max_eval"] = draw(st.integers(2, 15))
        a["super_iteration_number"] = draw(st.integers(1, 4))
        case["std"] = draw(st.lists(gen.fl(0.0, 1.0), min_size=1, max_size=4))
    if draw(st.integers(0, 2)) == 0:
        ev = {"type": draw(st.sampled_from(["user_stop", "sigint", "status", "status"])), "at": draw(st.integers(1, 12))}
        if ev["type"] == "status":
            ev["code"] = draw(st.sampled_from([-1, -2, 5]))
            ev["fom"] = draw(st.sampled_from(["same", "best", "none"]))
        case["event"] = ev
        cfg.pop("_other", None)
    case["cfg"] = cfg
    return case


def check(case, ctx):
    cfg = case["cfg"]
    log = {"msg": [], "val": [], "ctl": []}

    def attach(r):
        if not case["signals"]:
            return
        n = lambda: len(r.fom.evals)  # noqa
        cp = lambda xs: [np.array(x, copy=True) for x in xs]  # noqa
        r.signals[0].emit = lambda *m: log["msg"].append((n(), m))
        r.signals[1].emit = lambda k, v: log["val"].append((n(), int(k), float(v)))
        r.signals[2].emit = lambda p, t, x: log["ctl"].append((n(), cp(p), cp(t), [float(np.real(v)) for v in x]))
    with sut.scratch():
        r = runs.run(cfg, case["obj"], std=case.get("std"), events=[case["event"]] if "event" in case else (),
                     signals=case["signals"], attach=attach)
    E = r.evals
    good = [e for e in E if e["status"] == 0]
    ctx.expect([int(k) for k in r.alg.iteration_number_list] == [e["k"] for e in good], "numbers", lambda: (
        "the list of evaluation numbers is %s, the evaluations finished with status 0 are %s" % (
            list(r.alg.iteration_number_list)[:30], [e["k"] for e in good][:30])))
    H = [float(v) for v in r.alg.FoM_list]
    ctx.expect(len(H) == len(good), "history-length", "%d values in the history, %d evaluations" % (len(H), len(good)))
    if "re_evaluation" not in cfg["algorithm_settings"]:      # with re-evaluations they are averages, see C22
        for h, e in zip(H, good):
            ctx.expect(abs(h - e["user"]) <= 1e-6 * (1 + abs(e["user"])) if runs.alg_name(cfg) == "AD" else
                       h == e["user"], "history-value", lambda: "the history says %r for evaluation %d, the value was %r" % (
                           h, e["k"], e["user"]))
    if case["signals"]:
        msg = [(n, m) for n, m in log["msg"] if m == ("start",)]
        ctx.expect(len(msg) == 1 and msg[0][0] == 0, "start-message", "start messages: %s" % (log["msg"],))
        ctx.expect(len(log["ctl"]) == len(E), "controls-signals", "%d controls updates for %d evaluations" % (
            len(log["ctl"]), len(E)))
        tol = 1e-6 if runs.alg_name(cfg) == "AD" else 0.0
        for i, ((n, p, t, x), e) in enumerate(zip(log["ctl"], E)):
            ctx.expect(n == i, "controls-order", "controls update %d arrived after %d evaluations" % (i + 1, n))
            ctx.expect(sut.same_controls(e, p, t, x, tol), "controls-value", lambda: "the controls update before evaluation "
                       "%d differs from the controls evaluated by %s" % (e["k"], sut.diff_controls(e, p, x)))
        ctx.expect([k for _, k, _ in log["val"]] == [e["k"] for e in good], "value-signals", lambda: "values were sent for "
                   "evaluations %s, made were %s" % ([k for _, k, _ in log["val"]][:30], [e["k"] for e in good][:30]))
        if "re_evaluation" not in cfg["algorithm_settings"]:
            V = np.array([v for _, _, v in log["val"]])
            W = np.array([e["F"] for e in good])
            tol = 1e-6 if runs.alg_name(cfg) == "AD" else 0.0
            # either sign convention, but the same for all
            ctx.expect(not len(V) or any(np.all(np.abs(s * V - W) <= tol * (1 + np.abs(W))) for s in (1, -1)),
                       "value-sent", lambda: "values sent %s, evaluated %s" % (V[:8], W[:8]))
        for (n, k, _) in log["val"]:
            ctx.expect(n == k, "value-order", "the value of evaluation %d arrived after %d evaluations" % (k, n))
    runs.labels(ctx, cfg, r)
    ctx.label("signals" if case["signals"] else "no signals", case.get("event", {}).get("type", "no stop"))
    ctx.nt(len(E) > 3)


FAMILIES = [Family("gradient-free", strategy, check, 640, 9000, rule="more than three evaluations"),
            Family("noisy", lambda: strategy(algs=("dCRAB",), noisy=True), check, 320, 5000,
                   rule="more than three evaluations, with re-evaluation and/or drift compensation"),
            Family("grape", lambda: strategy(("GRAPE",), (2, 40)), check, 160, 2500, rule="more than three evaluations"),
            Family("ad", lambda: strategy(("AD",), (2, 8)), check, 24, 400, rule="more than three evaluations")]

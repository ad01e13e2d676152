"""C37: a figure of merit that raises, or returns nothing usable, ends the run with that error and loses nothing."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, quant, runs, sut
from ..engine import Family


class Own(Exception):
    pass


class OwnBase(BaseException):
    pass


RAISED = {"own": Own, "own-base": OwnBase, "value": ValueError, "key": KeyError, "type": TypeError, "index": IndexError,
          "attribute": AttributeError, "zero": ZeroDivisionError, "stop": StopIteration, "interrupt": KeyboardInterrupt,
          "exit": SystemExit, "os": FileNotFoundError, "exists": FileExistsError, "import": ImportError, "float": FloatingPointError,
          "linalg": np.linalg.LinAlgError, "runtime": RuntimeError, "not": NotImplementedError, "assert": AssertionError,
          "timeout": TimeoutError, "memory": MemoryError, "overflow": OverflowError, "warning": RuntimeWarning}
RETURNED = {"none": lambda v: None, "empty": lambda v: {}, "missing": lambda v: {"fom": v}, "no-number": lambda v: {"FoM": None},
            "text": lambda v: {"FoM": "failed"}, "pair": lambda v: {"FoM": np.array([v, v])}, "dict": lambda v: {"FoM": {"FoM": v}},
            "float": lambda v: v}


class Failing:
    at, how, error = None, None, None

    def get_FoM(self, pulses=[], parameters=[], timegrids=[], **kw):
        if quant.traced(pulses) or quant.traced(parameters):
            return super().get_FoM(pulses=pulses, parameters=parameters, timegrids=timegrids, **kw)
        if len(self.evals) + 1 >= self.at:
            type(self).calls += 1
            if self.how in RAISED:
                if type(self).error is None:
                    type(self).error = RAISED[self.how]("evaluation %d" % self.at)
                raise type(self).error
            return RETURNED[self.how](0.0)
        return super().get_FoM(pulses=pulses, parameters=parameters, timegrids=timegrids, **kw)


def strategy(algs, feats=True, **kw):
    @st.composite
    def s(draw):
        c = draw(runs.any_cfg(algs=algs, **kw))
        case = {"cfg": c, "obj": draw(gen.objective_spec(table=True)), "at": draw(st.integers(1, 14)),
                "how": draw(st.sampled_from(sorted(RAISED) + sorted(RETURNED)))}
        if feats and runs.alg_name(c) in ("dCRAB", "DirectSearch") and draw(st.integers(0, 2)) == 0:
            case.update(draw(runs.features(c))[0])
        return case
    return s


def check(case, ctx):
    cfg, at, how = case["cfg"], case["at"], case["how"]
    ad = runs.alg_name(cfg) == "AD"
    kw = runs.extra_kw(case)
    with sut.scratch():
        ref = runs.run(cfg, case["obj"], snapshot=True, **kw)
    base = {"GRAPE": quant.GrapeFoM, "AD": quant.ADFoM}.get(runs.alg_name(cfg), sut.RecFoM)
    cls = type("FailingFoM", (Failing, base), {"at": at, "how": how, "calls": 0})
    kw = runs.extra_kw(case)
    kept = {}
    raised = None
    with sut.scratch():
        try:
            runs.run(cfg, case["obj"], fom_class=cls, attach=lambda r: kept.update(r=r), **kw)
        except (Exception, OwnBase, KeyboardInterrupt, SystemExit) as e:
            raised = e
            if cls.calls == 0 or (how in RAISED and e is not cls.error and not is_from(e, cls.error)):
                raise
        r = kept["r"]
        file = sut.load_best_file(r.results_path)
        if at > len(ref.evals):
            ctx.expect(raised is None and len(r.fom.evals) == len(ref.evals) and file_same(file, ref.file), "no-failure",
                       "the run without the failure is different")
            ctx.label("not reached")
            return
        where = "evaluation %d %s" % (at, "raised " + how if how in RAISED else "returned " + how)
        ctx.expect(raised is not None, "swallowed", "%s, and the run ended normally" % where)
        ctx.expect(cls.calls == 1, "continued", "%s, and %d more evaluations were made" % (where, cls.calls - 1))
        want = ref.evals[at - 1]["snapshot"]
        ctx.expect(file_same(file, want), "file", lambda: "%s: best-controls file %s; before this evaluation it was %s" % (
            where, file, want))
        done = r.fom.evals
        alg = r.alg
        # a value that is no number may be found out after it was recorded
        more = how in RETURNED
        n = len(done)
        ctx.expect(list(alg.iteration_number_list[:n]) == [e["k"] for e in done] and len(alg.iteration_number_list) <= n + more,
                   "history-numbers", lambda: "%s: recorded evaluations %s" % (where, alg.iteration_number_list))
        if "std" not in case:
            ctx.expect(np.allclose(np.asarray(alg.FoM_list[:n], dtype=float), [e["user"] for e in done], rtol=1e-6 if ad else 1e-12,
                                   atol=0) and len(alg.FoM_list) <= n + more, "history-values", lambda: (
                                       "%s: recorded values %s; returned were %s" % (where, alg.FoM_list, [e["user"] for e in done])))
    # the next run is not affected
    with sut.scratch():
        again = runs.run(cfg, case["obj"], **runs.extra_kw(case))
    ctx.expect(len(again.evals) == len(ref.evals) and all(sut.same_controls(y, x["pulses"], x["timegrids"], x["parameters"], 0)
                                                          for x, y in zip(ref.evals, again.evals)) and again.final == ref.final,
               "next-run", "%s: the next run differs from the one before" % where)
    runs.labels(ctx, cfg, ref)
    ctx.label("raised" if how in RAISED else "returned", how)
    ctx.nt(at >= 3)


def is_from(e, first):
    """e was raised because of first"""
    seen = []
    while e is not None and e not in seen:
        if e is first:
            return True
        seen.append(e)
        e = e.__cause__ or e.__context__
    return False


def file_same(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is None and b is None
    return sorted(a) == sorted(b) and all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in a)


RULE = "the failing evaluation is the third or a later one"
FAMILIES = [Family("gradient-free", strategy(("dCRAB", "dCRAB", "DirectSearch"), max_eval_total=(2, 40)), check, 800, 10000, rule=RULE),
            Family("grape", strategy(("GRAPE",), max_eval_total=(2, 30)), check, 200, 2400, rule=RULE),
            Family("ad", strategy(("AD",), max_eval_total=(2, 6)), check, 16, 300, rule=RULE)]

"""C27: the file exchange with a simulated experiment, whose answers come at enumerated moments on a virtual clock."""
import json
import os
import sys

import numpy as np
from hypothesis import strategies as st

from .. import gen, runs, sut
from ..engine import Family
from quocslib.utils.FilesUpdateFom import FilesUpdateFoM

W = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_agent = None
_hooked = False


def _audit(event, args):
    if _agent is None or _agent.busy:
        return
    if event == "open":
        if isinstance(args[0], (str, bytes)) and args[2] & W:
            _agent.touched(os.fsdecode(args[0]))
    elif event in ("os.remove", "os.rename", "os.truncate"):
        for a in args[:2]:
            if isinstance(a, (str, bytes)):
                _agent.touched(os.fsdecode(a))


def setup():
    global _hooked
    if not _hooked:
        sys.addaudithook(_audit)
        _hooked = True


class Experiment:
    """Reads the controls as soon as they are complete and answers after its delay."""

    def __init__(self, ctx, clock, cfile, ffile, plan, cfg):
        self.ctx, self.clock, self.cfile, self.ffile, self.plan, self.cfg = ctx, clock, cfile, ffile, plan, cfg
        self.busy = False
        self.rec = None
        self.problem = None

    def begin(self, rec, answer, delay):
        self.rec, self.answer, self.delay = rec, answer, delay
        self.t0 = self.clock.t
        self.written = self.answered = self.checked = False
        self.stage = 0

    def touched(self, path):
        path = os.path.abspath(path)
        if self.rec is None:
            return
        if path == self.ffile:
            self.poll()            # the file is about to be removed or rewritten: an answer could be there by now
        elif path == self.cfile:
            self.written = True

    def poll(self):
        if self.rec is None or self.answered or not self.written or self.busy:
            return
        self.busy = True
        try:
            if not self.checked:
                ok = self.compare()
                if ok is None:
                    return          # not complete yet
                self.checked = True
                if ok is not True:
                    self.problem = self.problem or ("controls-file", "evaluation %d: %s" % (self.rec["k"], ok))
                if os.path.exists(self.ffile) and self.delay > 0:
                    self.problem = self.problem or ("stale", "evaluation %d: an old answer is still there while the library "
                                                    "waits" % self.rec["k"])
            if self.delay is None or self.clock.t - self.t0 < self.delay - 1e-9:
                return
            if self.answer[1] and self.stage == 0:
                self.stage = 1
                open(self.ffile, "wb").close()      # the file exists a moment before its content does
                return
            with open(self.ffile, "wb") as f:
                f.write(self.answer[0].encode("latin-1"))
            self.answered = True
        finally:
            self.busy = False

    def compare(self):
        try:
            with open(self.cfile) as f:
                text = f.read()
        except OSError:
            return None
        e = self.rec
        if self.cfile.endswith("json"):
            try:
                d = json.loads(text)
            except ValueError:
                return None
            want = {}
            for i, (p, t) in enumerate(zip(e["pulses"], e["timegrids"])):
                want["pulse%d" % (i + 1)] = [float(v) for v in np.real(p)]
                want["time_grid%d" % (i + 1)] = [float(v) for v in t]
            for i, x in enumerate(e["parameters"]):
                want["parameter%d" % (i + 1)] = x
            return True if d == want else "the controls file holds %s, evaluated are %s" % (d, want)
        rows = [[float(v) for v in line.split()] for line in text.split("\n") if line.strip()]
        want = []
        for p, t in zip(e["pulses"], e["timegrids"]):
            want += [list(np.real(p)), list(t)]
        want += [[x] for x in e["parameters"]]
        if [len(r) for r in rows] != [len(r) for r in want]:
            return "the controls file has lines of %s numbers, expected %s" % ([len(r) for r in rows], [len(r) for r in want])
        for i, (r, w) in enumerate(zip(rows, want)):
            if np.abs(np.array(r) - np.array(w)).max() > 0.5000001e-6 + 1e-12 * np.abs(w).max():
                return "line %d of the controls file is %s, evaluated is %s" % (i + 1, r, w)
        return True


class FileFoM(sut.RecFoM):
    def connect(self, files, exp, plan):
        self.files, self.exp, self.plan = files, exp, plan
        self.returned = []

    def get_FoM(self, pulses=[], parameters=[], timegrids=[], **kw):
        k = len(self.evals) + 1
        rec = {"k": k, "pulses": [np.array(p) for p in pulses], "timegrids": [np.array(t) for t in timegrids],
               "parameters": [float(np.real(x)) for x in parameters], "status": 0, "t": self.clock.t}
        self.evals.append(rec)
        F = self.objective(pulses, rec["parameters"], timegrids, k - 1)
        user = -F if self.maximize else F
        a = self.plan(k)
        text = a["text"] % user
        self.exp.begin(rec, (text, a["late_content"]), a["delay"])
        res = self.files.get_FoM(pulses=pulses, parameters=parameters, timegrids=timegrids)
        rec["elapsed"] = self.clock.t - rec["t"]
        self.exp.rec = None
        rec["plan"], rec["text"], rec["res"] = a, text, dict(res)
        try:
            rec["user"] = float(text.split("\n")[0].strip())
            rec["number"] = True
        except ValueError:
            rec["user"], rec["number"] = user, False
        rec["F"] = -rec["user"] if self.maximize else rec["user"]
        rec["status"] = res.get("status_code", 0)
        # what the experiment leaves behind for the next evaluation
        self.exp.busy = True
        if a["leave"]:
            with open(self.exp.ffile, "w") as f:
                f.write(a["leave"])
        self.exp.busy = False
        return res


NUM = ["%r", "%r\n", "%.17g\n", "  %r  \n", "%.17e", "%r\nsecond line\n", "%r\n\n", "\t%r\r\n"]
BAD = ["abc %r", "", "\n%r", "1,5 %r", "%rx", "--%r", "\xff%r", "{%r}", "None %r"]


@st.composite
def strategy(draw):
    cfg = draw(runs.any_cfg(algs=("dCRAB", "DirectSearch"), max_eval_total=(1, 25)))
    M = draw(st.sampled_from([0.2, 0.5, 1, 2, 2.25, 5, 60]))
    D = [0.0, 0.001, 0.25, 0.5, 0.75, 0.9, 0.99, 0.499 / M, (M - 0.1) / M]
    case = {"ext": draw(st.sampled_from(["json", "txt"])), "max_time": M, "obj": draw(gen.objective_spec(table=True)),
            "delays": draw(st.lists(st.sampled_from([d for d in D if 0 <= d < 1]), min_size=1, max_size=5)),
            "texts": draw(st.lists(st.sampled_from(NUM), min_size=1, max_size=3)),
            "leave": draw(st.lists(st.sampled_from(["", "", "-1e9\n", "1e9", "junk"]), min_size=1, max_size=3)),
            "late_content": draw(st.integers(0, 3)) == 0, "stale": draw(st.sampled_from([None, "-1e6\n", "1e6\n", "junk"])),
            "folders": draw(st.booleans()), "fault": None}
    if draw(st.integers(0, 3)):
        case["fault"] = {"at": draw(st.integers(1, 10)), "type": draw(st.sampled_from(["never", "late", "bad", "bad"])),
                         "bad": draw(st.sampled_from(BAD))}
    case["cfg"] = cfg
    return case


def check(case, ctx):
    global _agent
    setup()
    cfg, M, ft = case["cfg"], case["max_time"], case["fault"]
    clock = sut.Clock()

    def plan(k):
        a = {"delay": case["delays"][k % len(case["delays"])] * M, "text": case["texts"][k % len(case["texts"])].replace(
            "\xff", "\xff"), "leave": case["leave"][k % len(case["leave"])], "late_content": case["late_content"]}
        if ft and ft["at"] == k:
            if ft["type"] == "never":
                a["delay"] = None
            elif ft["type"] == "late":
                a["delay"] = M + 1.5
            else:
                a["text"] = ft["bad"]
        if "%" in a["text"]:
            return a
        a["text"] += "%.0s"
        return a
    with sut.scratch() as d:
        cf, ff = (os.path.join(d, "c"), os.path.join(d, "f")) if case["folders"] else (d, d)
        for x in {cf, ff} - {d}:
            os.mkdir(x)
        cfile, ffile = os.path.join(cf, "controls." + case["ext"]), os.path.join(ff, "FoM.txt")
        if case["stale"]:
            with open(ffile, "w") as f:
                f.write(case["stale"])
        files = FilesUpdateFoM(controls_folder=cf, file_extension=case["ext"], FoM_folder=ff, max_time=M)
        exp = Experiment(ctx, clock, cfile, ffile, plan, cfg)
        clock.on_sleep = exp.poll

        def attach(r):
            r.fom.connect(files, exp, plan)
        try:
            _agent = exp
            r = sut.optimize(cfg, case["obj"], fom_class=FileFoM, clock=clock, attach=attach)
        finally:
            _agent = None
        E = r.evals
        if exp.problem:
            ctx.fail(*exp.problem)
        for e in E:
            a = e["plan"]
            where = "evaluation %d (answer %r after %s s, at most %s s)" % (e["k"], e["text"], a["delay"], M)
            timeout = a["delay"] is None or a["delay"] > M
            if timeout:
                ctx.expect(e["status"] == -2, "timeout-status", lambda: where + " returned %s" % (e["res"],))
                ctx.expect(M - 1e-6 <= e["elapsed"] <= M + 1.0, "timeout-length", lambda: where + " gave up after %s s" % e["elapsed"])
            elif e["number"]:
                ctx.expect(e["status"] == 0, "discarded", lambda: where + " returned %s" % (e["res"],))
                ctx.expect(e["res"]["FoM"] == e["user"], "value", lambda: where + " returned %s" % (e["res"],))
                ctx.expect(e["elapsed"] <= a["delay"] + 1.0, "slow", lambda: where + " took %s s" % e["elapsed"])
            else:
                ctx.expect(e["status"] == -3, "bad-status", lambda: where + " returned %s" % (e["res"],))
            if e["status"] != 0:
                ctx.expect(e is E[-1], "went-on", lambda: where + " failed, but %d more evaluations were made" % (
                    len(E) - e["k"]))
                ctx.label("timeout" if e["status"] == -2 else "not a number")
        best = runs.best_of(E)
        runs.file_matches(ctx, cfg, r.file, best, "at the end")
        ctx.expect(r.final is not None, "no-results", "no results file")
        if best is not None:
            ctx.expect(r.sgn * r.final["Figure of merit"] == best["F"], "final", "the run reports %r, the best value is %r" % (
                r.final["Figure of merit"], best["user"]))
        runs.labels(ctx, cfg, r)
        ctx.label(case["ext"], "stale answers" if any(case["leave"]) or case["stale"] else "no stale answers")
        ctx.nt(len(E) > 1)


FAMILIES = [Family("protocol", strategy, check, 1600, 20000, rule="at least two evaluations", setup=setup)]

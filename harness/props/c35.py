"""C35: what a run writes to its log, against the history of evaluations the figure of merit recorded."""
import glob
import json
import os
import re
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen, runs, sut
from ..engine import Family

STAMP = re.compile(r"^(\d\d)/(\d\d)/(\d\d\d\d) (\d\d):(\d\d):(\d\d)\.(\d\d\d) - (.*?) - (DEBUG|INFO|WARNING|ERROR|CRITICAL) - (.*)$", re.S)
EVAL = re.compile(r"Function evaluation number: (\d+)")
NUM = r"([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf))"
LAST_FOM = re.compile(r"\bFoM: " + NUM)
RECORD = re.compile(r"New record achieved\. Previous FoM: " + NUM + r", new best FoM : " + NUM)
RECORD_AV = re.compile(r"New record achieved\. New best FoM: " + NUM + r", std: " + NUM)
DRIFT = re.compile(r"Current best FoM after drift compensation \(after SI\): " + NUM)
SI_END = re.compile(r"SI (\d+) finished - .*Best FoM: " + NUM)
FAILED = re.compile(r"interrupted with status code: (\S+) at iteration (\d+)")


@st.composite
def event(draw):
    k = draw(st.sampled_from([1, 2, 3, 5, 8, 13]))
    e = {"at": k, "type": draw(st.sampled_from(["status", "status", "user_stop", "nan", "sigint"]))}
    if e["type"] == "status":
        e["code"] = draw(st.sampled_from([1, -1, 404]))
        e["fom"] = draw(st.sampled_from(["same", "none", "best"]))
    return e


def strategy(algs, feats=False, **kw):
    @st.composite
    def s(draw):
        c = draw(runs.any_cfg(algs=algs, **kw))
        case = {"cfg": c, "obj": draw(gen.objective_spec(table=True))}
        if feats and draw(st.booleans()):
            extra, _ = draw(runs.features(c))
            case.update(extra)
        if feats and draw(st.booleans()):
            case["events"] = [draw(event())]
        case["switches"] = draw(st.sampled_from([[True, True], [True, False], [None, None], [True, None], [False, True],
                                                 [False, False]]))
        return case
    return s


def same(a, b, tol):
    a, b = float(a), float(b)
    return a == b or (a != a and b != b) or abs(a - b) <= tol * max(1e-300, abs(a), abs(b))


def messages(text):
    """[(stamp, level, message)]; a message can go over several lines."""
    out = []
    for line in text.split("\n"):
        m = STAMP.match(line)
        if m:
            g = m.groups()
            out.append([(g[2], g[1], g[0]) + g[3:7], g[8], g[9]])
        elif out:
            out[-1][2] += "\n" + line
        elif line:
            out.append([None, "?", line])
    return [(a, b, c.rstrip("\n")) for a, b, c in out]


def one(case, create, console):
    d = tempfile.mkdtemp(dir=os.getcwd())
    old = os.getcwd()
    os.chdir(d)
    try:
        return one_here(case, create, console)
    finally:
        os.chdir(old)


def one_here(case, create, console):
    cfg = {k: v for k, v in case["cfg"].items()}
    for k, v in (("create_logfile", create), ("console_info", console)):
        cfg.pop(k, None)
        if v is not None:
            cfg[k] = v
    raw = json.loads(json.dumps(cfg))
    raw["optimization_client_name"], raw["use_microsecond_name"] = "case", True
    raw.pop("sys", None)
    r = runs.run(cfg, case["obj"], raw_dict=raw, events=case.get("events", ()), attach=runs.attach_si,
                 **runs.extra_kw(case))
    r.printed = sut.printed.getvalue()
    r.files = sorted(os.path.basename(f) for f in glob.glob(os.path.join(glob.escape(r.results_path), "*")))
    return r


def check(case, ctx):
    cfg = case["cfg"]
    a = cfg["algorithm_settings"]
    alg = a["algorithm_name"]
    tol = 1e-6 if alg == "AD" else 1e-12
    create, console = case["switches"]
    with sut.scratch():
        r = one(case, create, console)
        logs = [f for f in r.files if f.endswith(".log")]
        ctx.expect(len(logs) == (0 if create is False else 1), "log-files", "create_logfile %s: the results folder holds %s" % (
            create, r.files))
        if not logs:
            # the same run with a log file
            q = r
            r = one(case, True, console)
            logs = [f for f in r.files if f.endswith(".log")]
        else:
            q = one(case, False, not console)
        with open(os.path.join(r.results_path, logs[0])) as f:
            text = f.read()
        # --- the switches change nothing else
        ctx.expect([e["user"] for e in r.evals] == [e["user"] for e in q.evals] or any(
            e["user"] != e["user"] for e in r.evals), "switch-changes-run", lambda: (
                "with a log file the values were %s, without %s" % ([e["user"] for e in r.evals], [e["user"] for e in q.evals])))
        ctx.expect(len(r.evals) == len(q.evals), "switch-changes-run", "%d evaluations with a log file, %d without" % (
            len(r.evals), len(q.evals)))
        ctx.expect(r.final == q.final, "switch-changes-results", "with a log file the results are %s, without %s" % (
            r.final, q.final))
        strip = (lambda fs: sorted(re.sub(r"^\d{8}_\d{6}_\d{6}", "", x) for x in fs if not x.endswith(".log")))
        ctx.expect(strip(r.files) == strip(q.files), "switch-changes-files", "with a log file the folder has %s, without %s" % (
            r.files, q.files))
        # --- lines
        msgs = messages(text)
        for s, level, m in msgs:
            ctx.expect(s is not None, "line-without-time", "the log starts with %r" % m)
        if "ticks" not in case:
            for (s1, _, m1), (s2, _, m2) in zip(msgs, msgs[1:]):
                ctx.expect(s1 <= s2, "time-order", "%s (%r) comes before %s (%r)" % (s1, m1, s2, m2))
        # --- console
        for w, run in (("with", r), ("without", q)):
            on = console is not False if run is r or create is False else not console
            mine = [m for _, l, m in msgs if l in (("INFO", "WARNING", "ERROR", "CRITICAL") if on else ("ERROR", "CRITICAL"))]
            pos = 0
            for m in mine:
                if "datetime" in m or m.lstrip().startswith("message:") or "hess_inv" in m:
                    continue
                k = run.printed.find(m, pos)
                ctx.expect(k >= 0, "console", lambda: "console_info %s: %r is in the log file, but was not printed (in order)" % (
                    on, m))
                pos = k + len(m)
            if not on:
                ctx.expect("Function evaluation" not in run.printed and "New record" not in run.printed, "console",
                           lambda: "console_info is off, but %r was printed" % run.printed[:300])
                for _, l, m in msgs:
                    ctx.expect(l not in ("INFO", "WARNING") or len(m) < 12 or m not in run.printed, "console", lambda: (
                        "console_info is off, but the message %r was printed" % m))
        # --- evaluations
        reeval = "re_evaluation" in a
        drift = bool(a.get("compensate_drift", {}).get("compensate_after_SI")) or bool(
            a.get("compensate_drift", {}).get("compensate_after_minutes"))
        num = a.get("compensate_drift", {}).get("num_average", 1)
        E = {e["k"]: e for e in r.evals}
        good = [e["k"] for e in r.evals if e["status"] == 0]
        seen, group = [], []
        best, records = None, []
        want_records = []
        for e in r.evals:
            if e["status"] == 0 and e["F"] < (1e10 if best is None else best["F"]):
                want_records.append((r.sgn * 1e10 if best is None else best["user"], e["user"], e["k"]))
                best = e
        failed, ended = [], []
        for i, (s, level, m) in enumerate(msgs):
            t = EVAL.search(m)
            if t:
                k = int(t.group(1))
                ctx.expect(k in E and E[k]["status"] == 0, "no-such-evaluation", "%r, but there was no such completed "
                           "evaluation (%s)" % (m, good[-5:]))
                v = LAST_FOM.search(m)
                ctx.expect(v is not None, "no-value", "%r does not give the figure of merit" % m)
                rep = re.search(r"Re-eval\. number: (\d+)", m)
                n = int(rep.group(1)) if rep else 0
                ctx.expect(n < k and n <= 10, "repetition", "%r: it cannot be a repetition of evaluation %d" % (m, k - n))
                ks = list(range(k - n, k + 1))
                mean = float(np.mean([E[j]["user"] for j in ks]))
                ctx.expect(same(v.group(1), mean, 1e-9 if n else tol), "value", lambda: "%r; the user returned %s" % (
                    m, [E[j]["user"] for j in ks]))
                if n:
                    ctx.expect(sut.same_controls(E[k], E[k - n]["pulses"], None, E[k - n]["parameters"], 1e-9), "repetition",
                               "%r, but the controls are not those of evaluation %d" % (m, k - n))
                if rep:
                    sd = float(np.mean([E[j].get("std", 1.0) for j in ks]))
                    v = re.search("std: " + NUM, m)
                    ctx.expect(v is not None and same(v.group(1), sd, 1e-9), "std", lambda: "%r; the mean of the standard "
                               "deviations is %r" % (m, sd))
                if alg == "dCRAB":
                    si = re.search(r"SI: (\d+)", m)
                    ctx.expect(si is not None and int(si.group(1)) == E[k]["si"], "super-iteration", "%r; it belongs to "
                               "super-iteration %d" % (m, E[k]["si"]))
                if not seen or seen[-1] != k:
                    seen.append(k)
                if rep or not reeval:
                    group = ks
                continue
            t = RECORD.search(m)
            if t:
                records.append((float(t.group(1)), float(t.group(2)), len(seen)))
            t = RECORD_AV.search(m)
            if t:
                ctx.expect(group and same(t.group(1), float(np.mean([E[j]["user"] for j in group])), 1e-9) and same(
                    t.group(2), float(np.mean([E[j].get("std", 1.0) for j in group])), 1e-9), "record-value", lambda: (
                        "%r, after the measurements %s" % (m, [(E[j]["user"], E[j].get("std", 1.0)) for j in group])))
            t = DRIFT.search(m)
            if t:
                ks = seen[-num:]
                ctx.expect(any(same(t.group(1), float(np.mean([E[j]["user"] for j in seen[-z:]])), 1e-9) for z in (
                    range(1, num + 1) if len(seen) == len(r.evals) else [num])), "drift-value", lambda: (
                        "%r, after the values %s" % (m, [E[j]["user"] for j in ks])))
            t = SI_END.search(m)
            if t:
                ended.append(int(t.group(1)))
                if not reeval and not drift:
                    b = runs.best_of(r.evals, seen[-1] if seen else 0)
                    want = r.sgn * 1e10 if b is None else b["user"]
                    ctx.expect(same(t.group(2), want, tol), "best-at-end", "%r after %d logged evaluations; the best one is %r" % (
                        m, len(seen), want))
            t = FAILED.search(m)
            if t:
                failed.append((t.group(1), int(t.group(2))))
        ctx.expect(seen == good, "evaluations", lambda: "the log has the evaluations %s, completed were %s" % (seen, good))
        if not reeval and not drift:
            ctx.expect(len(records) == len(want_records) and all(
                same(x[0], y[0], tol) and same(x[1], y[1], tol) and y[2] - 1 <= x[2] <= y[2] for x, y in zip(
                    records, want_records)), "records", lambda: (
                        "new records (previous, new, evaluations logged so far): %s; expected (previous, new, evaluation) %s" % (
                            records, want_records)))
        if alg == "dCRAB":
            sis = sorted({e["si"] for e in r.evals})
            ctx.expect(ended == list(range(1, len(ended) + 1)) and ended[:len(sis)] == sis, "super-iterations", (
                "super-iterations with a final line: %s; evaluations belong to %s" % (ended, sis)))
        bad = [(str(case["events"][0]["code"]), e["k"]) for e in r.evals if e["status"] != 0]
        ctx.expect(failed == bad, "failed-evaluation", "failed evaluations in the log: %s; expected %s" % (failed, bad))
        # --- the end
        tail = [m for i, (s, level, m) in enumerate(msgs)]
        for key, val in r.final.items():
            lines = [m for m in tail if m.startswith("%s : " % key)]
            ctx.expect(len(lines) == 1, "final-entry", "the result %r is %d times in the log" % (key, len(lines)))
            if isinstance(val, (int, float)) and not isinstance(val, bool):
                got = lines[0].split(" : ", 1)[1]
                ctx.expect(same(got, val, tol), "final-value", "%r in the log; the results file has %r" % (lines[0], val))
        reason = r.alg.higher_order_terminate_reason
        lines = [m for m in tail if m.startswith("Termination Reason : ")]
        ctx.expect(lines == (["Termination Reason : " + reason] if reason else []), "termination-reason", "the log says %s, "
                   "the run ended because of %r" % (lines, reason))
    runs.labels(ctx, cfg, r)
    ctx.label(*(["re-evaluation"] * reeval + ["drift"] * drift + ["create_logfile %s" % create] + ["failed evaluation"] * bool(
        bad)))
    ctx.nt(len(good) >= 3 and len(want_records) >= 2)


RULE = "at least three completed evaluations and two new best values"
FAMILIES = [Family("gradient-free", strategy(("dCRAB", "dCRAB", "DirectSearch"), feats=True, max_eval_total=(1, 45)), check,
                   560, 8000, rule=RULE),
            Family("grape", strategy(("GRAPE",), max_eval_total=(2, 30)), check, 160, 2000, rule=RULE),
            Family("ad", strategy(("AD",), max_eval_total=(2, 6)), check, 12, 240, rule=RULE)]

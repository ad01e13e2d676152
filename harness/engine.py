"""Search engine: Hypothesis-driven, sharded, with JSON cases, replay files and evidence.

A property module (harness/props/<id>.py) defines FAMILIES, a list of Family objects.  A family couples a Hypothesis
strategy that yields a plain JSON-able case with a function check(case, ctx) that runs the code under test and raises
Violation through ctx.fail when the oracle is contradicted.  Nothing random happens outside the strategy, so the
(shrunk) case *is* the replay file.
"""
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + "/src"
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
KNOWN = os.path.join(VERIF, "known_findings.json")
NSHARDS = 8


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig, self.msg = sig, msg


class Hang(BaseException):
    """Raised in a case that does not end. Not an Exception: nothing that is searched or shrunk catches it."""


CPU_LIMIT, WALL_LIMIT = 120.0, 400.0     # seconds for one case; the longest ones need a few


def watchdog(signum, frame):
    raise Hang()


def watched(run, *args):
    """run(*args), ended by Hang when it does not end by itself. The timers repeat, a Hang may be swallowed on its way."""
    for sig in (signal.SIGPROF, signal.SIGALRM):
        signal.signal(sig, watchdog)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT, 1.0)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT, 1.0)
    try:
        return run(*args)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


HANG = Violation("hang", "the run did not end within %g s of processor time (%g s in all)" % (CPU_LIMIT, WALL_LIMIT))


class Family:
    def __init__(self, name, strategy, check, quick, thorough=None, rule="", setup=None, examples=(), shards=None):
        """quick/thorough: total number of generated cases over all shards."""
        self.name, self.strategy, self.check, self.rule = name, strategy, check, rule
        self.quick, self.thorough = quick, thorough or quick * 12
        self.setup, self.examples = setup, list(examples)
        self.shards = shards


class Ctx:
    """Passed to a check: collects labels, decides about listed findings."""
    def __init__(self, prop, known):
        self.prop, self.known = prop, known
        self.known_hits = {}
        self.labels = {}
        self.cur_labels = set()
        self.nontrivial = False

    def begin(self):
        self.cur_labels, self.nontrivial = set(), False

    def label(self, *names):
        self.cur_labels.update(names)

    def nt(self, flag=True):
        self.nontrivial = self.nontrivial or bool(flag)

    def fail(self, sig, msg):
        """Report that the oracle was contradicted. Returns (does not raise) for a listed finding."""
        for f in self.known:
            if f["sig"] == sig:
                self.known_hits[sig] = self.known_hits.get(sig, 0) + 1
                return
        raise Violation(sig, msg)

    def expect(self, cond, sig, msg):
        if not cond:
            self.fail(sig, msg() if callable(msg) else msg)


def load_known(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f).get("findings", []) if k["property"] == prop]
    except FileNotFoundError:
        return []


def canon(case):
    return json.dumps(case, sort_keys=True)


def from_repo(exc):
    tb = exc.__traceback__
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(REPO_SRC):
            return True
        tb = tb.tb_next
    for e in (exc.__cause__, exc.__context__):
        if e is not None and e is not exc and from_repo(e):
            return True
    return False


def run_case(fam, case, ctx):
    """Run one case; every exception that passed through the code under test is a violation, and so is output that the
    oracle cannot read."""
    ctx.begin()
    case = json.loads(canon(case))   # the check only ever sees what a replay file would contain
    try:
        fam.check(case, ctx)
    except Violation:
        raise
    except Exception as e:  # noqa
        import hypothesis.errors as he
        if isinstance(e, (he.HypothesisException,)) or type(e).__module__.startswith("hypothesis"):
            raise
        if from_repo(e):
            sig = "exception:" + type(e).__name__
            tail = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
            ctx.fail(sig, "the code raised on a valid case: %s: %s\n%s" % (type(e).__name__, e, tail))
        elif isinstance(e, (LookupError, TypeError, ValueError)):
            # the oracle could not read what the run left: an entry is missing or has another type or shape than specified
            tail = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])
            ctx.fail("output:" + type(e).__name__, "what the code returned or wrote is not as specified: %s: %s\n%s" % (
                type(e).__name__, e, tail))
        else:
            raise


def load_prop(prop):
    return importlib.import_module("harness.props." + prop.lower())


# ------------------------------------------------------------------------------------------------------- worker
def worker(prop, shard, nshards, outdir, tier, seed, scale):
    sys.path.append(HYP)
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase, Verbosity
    mod = load_prop(prop)
    ctx = Ctx(prop, load_known(prop))
    out = {"families": {}, "known": {}, "violation": None, "error": None}
    respath = os.path.join(outdir, "shard%d.json" % shard)
    failpath = os.path.join(outdir, "fail%d.json" % shard)
    best = {"len": None}

    def record_failure(fam, case, v):
        s = canon(case)
        if best["len"] is None or len(s) < best["len"]:
            best["len"] = len(s)
            tmp = failpath + ".tmp"
            with open(tmp, "w") as f:
                json.dump({"property": prop, "family": fam.name, "case": case, "sig": v.sig, "message": v.msg,
                           "seed": seed, "tier": tier}, f, indent=1)
            os.replace(tmp, failpath)

    try:
        for fam in mod.FAMILIES:
            if fam.setup:
                fam.setup()
            n = fam.quick if tier == "quick" else fam.thorough
            n = max(1, int(n * scale))
            ns = min(nshards, fam.shards or nshards)
            if shard >= ns:
                continue
            n = max(1, n // ns)
            st = {"evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [], "distinct": set(), "wall": 0.0, "slowest": 0.0}
            t0 = time.time()

            def one(case, fam=fam, st=st):
                st["evaluations"] += 1
                key = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
                st["distinct"].add(key)
                t1 = time.process_time()
                try:
                    watched(run_case, fam, case, ctx)
                except Violation as v:
                    record_failure(fam, case, v)
                    raise
                except Hang:
                    record_failure(fam, case, HANG)
                    raise
                st["slowest"] = max(st["slowest"], time.process_time() - t1)
                if ctx.nontrivial:
                    if key not in st["nontrivial"]:
                        st["nontrivial"].add(key)
                        if len(st["samples"]) < 2 or (len(st["samples"]) < 3 and st["evaluations"] > n // 2):
                            if len(canon(case)) < 6000:
                                st["samples"].append(case)
                for l in ctx.cur_labels:
                    st["labels"][l] = st["labels"].get(l, 0) + 1

            if shard == 0:
                for ex in fam.examples:
                    one(ex)

            @hypothesis.seed(seed * 1000003 + shard * 101 + 7)
            @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                      phases=[Phase.generate, Phase.shrink], verbosity=Verbosity.quiet, print_blob=False)
            @given(fam.strategy() if callable(fam.strategy) else fam.strategy)
            def test(case):
                one(case)

            try:
                test()
            except Violation as v:
                out["violation"] = v.sig
            except hypothesis.errors.Flaky as e:
                if best["len"] is not None:
                    out["violation"] = "flaky"
                else:
                    raise
            except BaseExceptionGroup as e:  # noqa
                if best["len"] is not None:
                    out["violation"] = "group"
                else:
                    raise
            st["wall"] = time.time() - t0
            out["families"][fam.name] = {"evaluations": st["evaluations"], "nontrivial": sorted(st["nontrivial"]),
                                         "distinct": len(st["distinct"]),
                                         "labels": st["labels"], "samples": st["samples"], "wall": st["wall"],
                                         "slowest": st["slowest"]}
            if out["violation"]:
                break
        out["known"] = ctx.known_hits
    except Violation as v:
        out["violation"] = v.sig
    except Hang:
        out["violation"] = "hang"
    except BaseException as e:  # noqa
        if best["len"] is not None:
            out["violation"] = "with-error"
        out["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    with open(respath, "w") as f:
        json.dump(out, f)


# ------------------------------------------------------------------------------------------------------- driver
def check(prop, tier, seed, nshards, scale):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    outdir = tempfile.mkdtemp(prefix="quocs-verif-%s-" % prop)
    procs = []
    code = 2
    try:
        for s in range(nshards):
            log = open(os.path.join(outdir, "log%d.txt" % s), "w")
            procs.append(subprocess.Popen([sys.executable, os.path.join(VERIF, "run.py"), "worker", prop, str(s),
                                           str(nshards), outdir, "--tier", tier, "--scale", str(scale)],
                                          stdout=log, stderr=log, stdin=subprocess.DEVNULL,
                                          env=dict(os.environ, VERIF_SEED=str(seed), TMPDIR=outdir),
                                          start_new_session=True))
        limit = t0 + (780 if tier == "quick" else 6 * 3600)
        grace = None
        while any(p.poll() is None for p in procs):
            time.sleep(0.1)
            now = time.time()
            failed = [f for f in os.listdir(outdir) if f.startswith("fail") and f.endswith(".json")]
            if failed and grace is None:
                grace = now + 60
            done_fail = any(p.poll() is not None and os.path.exists(os.path.join(outdir, "fail%d.json" % i))
                            for i, p in enumerate(procs))
            if done_fail or (grace and now > grace) or now > limit:
                break
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            p.wait()
        code = report(prop, tier, seed, outdir, t0, nshards)
    finally:
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        shutil.rmtree(outdir, ignore_errors=True)
    return code


def report(prop, tier, seed, outdir, t0, nshards):
    mod = load_prop_meta(prop)
    fams, errors, known, missing = {}, [], {}, 0
    for s in range(nshards):
        p = os.path.join(outdir, "shard%d.json" % s)
        if not os.path.exists(p):
            missing += 1
            errors.append("shard %d gave no result\n%s" % (s, tail(os.path.join(outdir, "log%d.txt" % s))))
            continue
        r = json.load(open(p))
        if r["error"]:
            errors.append(r["error"])
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        for name, st in r["families"].items():
            f = fams.setdefault(name, {"evaluations": 0, "nt": set(), "labels": {}, "samples": [], "cpu_s": 0.0,
                                       "slowest": 0.0})
            f["evaluations"] += st["evaluations"]
            f["nt"].update(st["nontrivial"])
            f["cpu_s"] += st["wall"]
            f["slowest"] = max(f["slowest"], st["slowest"])
            f["samples"] += st["samples"]
            for l, c in st["labels"].items():
                f["labels"][l] = f["labels"].get(l, 0) + c
    fails = []
    for s in range(nshards):
        p = os.path.join(outdir, "fail%d.json" % s)
        if os.path.exists(p):
            try:
                fails.append(json.load(open(p)))
            except ValueError:
                pass
    fails.sort(key=lambda d: len(canon(d["case"])))
    samples = []
    for name in sorted(fams):
        fs = sorted(fams[name]["samples"], key=lambda c: len(canon(c)))
        if fs:
            samples.append({"family": name, "case": fs[len(fs) // 2]})
            if len(fs) > 2:
                samples.append({"family": name, "case": fs[-1]})
    rules = {f["name"]: f["rule"] for f in mod}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level_of(prop),
          "coverage": {"evaluations": sum(f["evaluations"] for f in fams.values()),
                       "distinct_nontrivial": sum(len(f["nt"]) for f in fams.values()),
                       "rule": " | ".join("%s: %s" % (n, rules.get(n, "")) for n in sorted(fams)) or "no family ran",
                       "samples": samples[:12],
                       "families": {n: {"evaluations": f["evaluations"], "distinct_nontrivial": len(f["nt"]),
                                        "labels": dict(sorted(f["labels"].items())),
                                        "cpu_s": round(f["cpu_s"], 2),
                                        "slowest_case_s": round(f["slowest"], 2)} for n, f in fams.items()},
                       "known_findings_hit": known, "shards": nshards,
                       "violations": len(fails), "harness_errors": len(errors)},
          "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        prop, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    for k in load_known(prop):
        print("KNOWN-FINDING: property=%s %s [%s, hit %d times]" % (prop, k["what"], k["sig"], known.get(k["sig"], 0)))
    if fails:
        d = fails[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        name = "%s-%s.json" % (prop, hashlib.sha1(canon(d["case"]).encode()).hexdigest()[:10])
        path = os.path.join(VERIF, "replays", name)
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        print("family %s, %s\n%s" % (d["family"], d["sig"], d["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("HARNESS ERROR in %s:\n%s" % (prop, errors[0]))
        return 2
    return 0


def level_of(prop):
    try:
        with open(os.path.join(VERIF, "MANIFEST.json")) as f:
            return [c["level"] for c in json.load(f)["checks"] if c["property"] == prop][0]
    except (OSError, ValueError, IndexError, KeyError):
        return "exploration"


def smoke():
    """setup_cmd: the code under test and the search library can be imported, and one trivial run works."""
    sys.path.append(HYP)
    import hypothesis  # noqa
    from harness import sut
    with sut.scratch():
        cfg = {"algorithm_settings": {"algorithm_name": "DirectSearch", "max_eval_total": 5, "dsm_settings": {
            "general_settings": {"dsm_algorithm_name": "NelderMead"}, "stopping_criteria": {}}}, "times": [],
            "pulses": [], "parameters": [{"parameter_name": "P", "lower_limit": -5, "upper_limit": 5,
                                          "initial_value": 0.5, "amplitude_variation": 0.3}]}
        r = sut.optimize(cfg, {"kind": "quad", "pc": [1.0], "pa": [0.0]})
        print("smoke: %d evaluations" % len(r.evals))
    sut.cleanup()
    return 0


def load_prop_meta(prop):
    """Names and rules of the families, without importing the code under test."""
    sys.path.append(HYP)
    try:
        return [{"name": f.name, "rule": f.rule} for f in load_prop(prop).FAMILIES]
    except Exception:
        return []


def tail(p, n=3000):
    try:
        return open(p, errors="replace").read()[-n:]
    except OSError:
        return ""


def replay(path):
    sys.path.append(HYP)
    d = json.load(open(path))
    mod = load_prop(d["property"])
    fam = [f for f in mod.FAMILIES if f.name == d["family"]][0]
    if fam.setup:
        fam.setup()
    ctx = Ctx(d["property"], load_known(d["property"]))
    try:
        try:
            watched(run_case, fam, d["case"], ctx)
        except Hang:
            raise HANG
    except Violation as v:
        print("%s: %s" % (v.sig, v.msg))
        print("VIOLATION property=%s replay=%s" % (d["property"], os.path.abspath(path)))
        return 1
    print("property=%s holds on %s" % (d["property"], path))
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "worker", "replay", "smoke"])
    ap.add_argument("args", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--shards", type=int, default=NSHARDS)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.cmd == "check":
        return check(a.args[0].upper(), a.tier, seed, a.shards, a.scale)
    if a.cmd == "smoke":
        return smoke()
    if a.cmd == "worker":
        worker(a.args[0], int(a.args[1]), int(a.args[2]), a.args[3], a.tier, seed, a.scale)
        return 0
    return replay(a.args[0])

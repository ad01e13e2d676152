"""Driving the code under test: scratch directories, recording FoM objects, virtual clock, fault injection."""
import atexit
import contextlib
import copy
import datetime as _dt
import glob
import gc
import importlib
import io
import json
import logging
import math
import os
import random
import shutil
import signal
import sys
import tempfile
import time as _time
import types
import warnings

import numpy as np

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
if sys.path[0] != REPO + "/src":
    sys.path.insert(0, REPO + "/src")
warnings.filterwarnings("ignore")

from harness import engine  # noqa: E402
from quocslib.Optimizer import Optimizer  # noqa: E402
from quocslib.utils.AbstractFoM import AbstractFoM  # noqa: E402
from quocslib.handleexit.HandleExit import HandleExit  # noqa: E402
import quocslib  # noqa: E402

MAX_EVALS = 20000      # a run of more evaluations does not end (the longest ones have some hundred)

assert os.path.realpath(quocslib.__file__).startswith(REPO), quocslib.__file__

# import now what the library imports lazily by name, so that the first run of a process is like every other one
for _m in ("optimizationalgorithms.dCRABAlgorithm", "optimizationalgorithms.DirectSearchAlgorithm",
           "optimizationalgorithms.GRAPEAlgorithm", "gradientfreemethods.NelderMead", "gradientfreemethods.CMAES"):
    try:
        importlib.import_module("quocslib." + _m)
    except ImportError:
        pass

_ROOT = None


def scratch_root():
    global _ROOT
    if _ROOT is None or not os.path.isdir(_ROOT):
        _ROOT = tempfile.mkdtemp(prefix="quocs-case-")
    return _ROOT


def cleanup():
    global _ROOT
    if _ROOT:
        shutil.rmtree(_ROOT, ignore_errors=True)
        _ROOT = None


atexit.register(cleanup)


@contextlib.contextmanager
def scratch():
    """A private current directory for one case; everything the code writes goes there and is removed afterwards."""
    d = tempfile.mkdtemp(dir=scratch_root())
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        close_logger()
        shutil.rmtree(d, ignore_errors=True)


def close_logger():
    lg = logging.getLogger("oc_logger")
    for h in list(lg.handlers):
        try:
            h.close()
        except Exception:
            pass
    lg.handlers = [logging.NullHandler()]


printed = None      # what the last silenced block wrote to the standard output


@contextlib.contextmanager
def quiet(gseed=12345):
    """Silence stdout/stderr at the Python level and give a deterministic global RNG state."""
    global printed
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = printed, _ = io.StringIO(), io.StringIO()
    old = signal.getsignal(signal.SIGINT)
    np_state, py_state = np.random.get_state(), random.getstate()
    np.random.seed(gseed)
    random.seed(gseed)
    try:
        with np.errstate(all="ignore"):
            yield
    finally:
        sys.stdout, sys.stderr = o, e
        signal.signal(signal.SIGINT, old)
        np.random.set_state(np_state)
        random.setstate(py_state)


# ------------------------------------------------------------------------------------------------ virtual clock
class Clock:
    """Virtual wall clock in seconds, substituted for every clock the quocslib modules can see."""
    BASE = _dt.datetime(2030, 1, 1, 12, 0, 0)

    def __init__(self, micro_step=0.0):
        self.t = 0.0
        self.micro_step = micro_step
        self.sleeps = 0.0
        self.on_sleep = None

    def advance(self, s):
        self.t += s

    def now(self):
        self.t += self.micro_step
        return self.BASE + _dt.timedelta(seconds=self.t)


@contextlib.contextmanager
def virtual_clock(clock):
    class FakeDT(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            n = clock.now()
            if tz is not None:
                return n.replace(tzinfo=_dt.timezone.utc).astimezone(tz)
            return n

        @classmethod
        def utcnow(cls):
            return clock.now()

        @classmethod
        def today(cls):
            return clock.now()

    epoch = Clock.BASE.timestamp()

    def f_time():
        clock.t += clock.micro_step
        return epoch + clock.t

    def f_mono():
        clock.t += clock.micro_step
        return clock.t

    def f_sleep(s):
        clock.t += max(s, 1e-6)   # a real sleep always takes some time
        clock.sleeps += s
        if clock.on_sleep:
            clock.on_sleep()

    def f_localtime(secs=None):
        return _time.localtime(f_time() if secs is None else secs)

    def f_gmtime(secs=None):
        return _time.gmtime(f_time() if secs is None else secs)

    def f_strftime(fmt, t=None):
        return _time.strftime(fmt, f_localtime() if t is None else t)

    def f_ctime(secs=None):
        return _time.ctime(f_time() if secs is None else secs)

    funcs = {"localtime": f_localtime, "gmtime": f_gmtime, "strftime": f_strftime, "ctime": f_ctime, "time": f_time, "monotonic": f_mono, "perf_counter": f_mono, "sleep": f_sleep, "process_time": f_mono,
             "time_ns": lambda: int(f_time() * 1e9), "monotonic_ns": lambda: int(f_mono() * 1e9),
             "perf_counter_ns": lambda: int(f_mono() * 1e9)}
    fake_time = types.ModuleType("time")
    for k in dir(_time):
        if not k.startswith("__"):
            setattr(fake_time, k, getattr(_time, k))
    for k, v in funcs.items():
        setattr(fake_time, k, v)
    fake_dtm = types.ModuleType("datetime")
    for k in dir(_dt):
        if not k.startswith("__"):
            setattr(fake_dtm, k, getattr(_dt, k))
    fake_dtm.datetime = FakeDT
    real_funcs = {getattr(_time, k): v for k, v in funcs.items() if hasattr(_time, k)}
    saved = []
    for name, mod in list(sys.modules.items()):
        if not (name == "quocslib" or name.startswith("quocslib.")) or mod is None:
            continue
        for attr, val in list(vars(mod).items()):
            new = None
            if val is _dt.datetime:
                new = FakeDT
            elif val is _dt:
                new = fake_dtm
            elif val is _time:
                new = fake_time
            elif isinstance(val, types.BuiltinFunctionType) and val in real_funcs:
                new = real_funcs[val]
            if new is not None:
                saved.append((mod, attr, val))
                setattr(mod, attr, new)
    try:
        yield clock
    finally:
        for mod, attr, val in saved:
            setattr(mod, attr, val)


# ------------------------------------------------------------------------------------------------ objectives
def objective_value(spec, pulses, parameters, k):
    """Deterministic objective to be minimised. spec kinds: quad, trig, table (history only), mixed."""
    kind = spec["kind"]
    if kind == "table":
        v = spec["vals"]
        return float(v[k % len(v)]) * spec.get("times", 1.0)
    val = float(spec.get("off", 0.0))
    for i, p in enumerate(pulses):
        p = np.asarray(p, dtype=complex).real
        a = spec["pa"][i % len(spec["pa"])]
        ramp = np.linspace(-1.0, 1.0, p.size)
        d = p - a * (1.0 + 0.5 * ramp)
        val += float(np.mean(d * d))
        if kind == "trig":
            val += 0.3 * float(np.mean(np.cos(3.0 * p)))
    for j, x in enumerate(parameters):
        x = float(np.real(x))
        c = spec["pc"][j % len(spec["pc"])]
        val += (x - c) ** 2
        if kind == "trig":
            val += 0.3 * math.cos(3.0 * x)
    if "noise" in spec:
        n = spec["noise"]
        val += float(n[k % len(n)])
    val *= spec.get("times", 1.0)
    if abs(val) > 1e6:     # far below the value the library treats as "no figure of merit yet"
        val = math.copysign(1e6 * (1.0 + math.log(abs(val) / 1e6)), val)
    return val


class RecFoM(AbstractFoM):
    """Figure of merit that records what it is given and injects the planned faults."""

    def __init__(self, spec, maximize=False, events=(), clock=None, ticks=None, hooks=None, stop=None, std=None,
                 snapshot=None):
        self.spec, self.maximize = spec, maximize
        self.events = {e["at"]: e for e in events}
        self.clock, self.ticks = clock, ticks
        self.evals = []
        self.stop = stop
        self.std = std
        self.snapshot = snapshot
        self.hook = hooks
        self.same = {}

    def objective(self, pulses, parameters, timegrids, k):
        return objective_value(self.spec, pulses, parameters, k)

    def returned(self, user):
        how = self.spec.get("ret")
        if how == "np64":
            return {"FoM": np.float64(user)}
        if how == "0d":
            return {"FoM": np.array(user)}
        if how == "int" and float(user).is_integer():
            return {"FoM": int(user)}
        if how == "status0":
            return {"status_code": 0, "FoM": user}
        if how == "more":
            return {"comment": "measured", "FoM": user, "shots": 100}
        if how == "shared":
            # the user returns one dictionary again and again, and only changes it when there is a reason to
            if self.same.get("FoM") is None or self.last != user:
                self.same["FoM"] = user
            self.last = user
            return self.same
        return {"FoM": user}

    same, last = None, None

    def get_FoM(self, pulses=[], parameters=[], timegrids=[], **kw):
        k = len(self.evals) + 1
        if k > MAX_EVALS:
            raise engine.Hang()
        rec = {"k": k, "pulses": [np.array(p) for p in pulses], "timegrids": [np.array(t) for t in timegrids],
               "parameters": [float(np.real(x)) for x in parameters], "extra": sorted(kw), "status": 0}
        if self.snapshot is not None:
            rec["snapshot"] = self.snapshot()
        if self.clock is not None:
            rec["t"] = self.clock.t
        self.evals.append(rec)
        F = self.objective(pulses, rec["parameters"], timegrids, k - 1)
        user = -F if self.maximize else F
        rec["F"], rec["user"] = F, user
        if self.clock is not None and self.ticks:
            self.clock.advance(self.ticks[(k - 1) % len(self.ticks)])
        res = self.returned(user)
        if self.std is not None:
            std = self.std[(k - 1) % len(self.std)]
            rec["std"] = 1.0 if std is None else float(std)      # 1 is the documented default
            if std is not None:
                res["std"] = float(std)
            else:
                res.pop("std", None)
        ev = self.events.get(k)
        if ev is not None:
            rec["event"] = ev["type"]
            res = dict(res)
            if ev["type"] == "user_stop":
                self.stop()
            elif ev["type"] == "sigint":
                os.kill(os.getpid(), signal.SIGINT)
                for _ in range(100):
                    pass
            elif ev["type"] == "status":
                res["status_code"] = ev["code"]
                rec["status"] = ev["code"]
                if ev.get("fom", "same") == "none":
                    res["FoM"] = None
                elif ev.get("fom") == "best":
                    res["FoM"] = -1e9 if not self.maximize else 1e9
            elif ev["type"] == "nan":
                res["FoM"] = float("nan")
                rec["F"] = rec["user"] = float("nan")
        if self.hook:
            self.hook(rec, res)
        return res


class Sig:
    def __init__(self):
        self.items = []

    def emit(self, *a):
        self.items.append(a)


class Run:
    pass


def prepare_dict(d):
    """Config dict of a case -> dictionary for Optimizer (private copy; quiet)."""
    d = copy.deepcopy(d)
    d.setdefault("console_info", False)
    d.setdefault("create_logfile", False)
    d.setdefault("use_microsecond_name", True)
    d.setdefault("optimization_client_name", "case")
    return d


def load_best_file(results_path):
    """The best-controls file, as a dict of plain values; None if absent; 'corrupt' if unreadable."""
    fs = glob.glob(os.path.join(glob.escape(results_path), "*best_controls.*"))
    if not fs:
        return None
    try:
        if fs[0].endswith(".npz"):
            with np.load(fs[0], allow_pickle=True) as z:
                return {k: z[k] for k in z.files}
        with open(fs[0]) as f:
            return json.load(f)
    except Exception as e:
        return "corrupt: %r" % (e,)


def load_final(results_path):
    fs = glob.glob(os.path.join(glob.escape(results_path), "*optimized_parameters.json"))
    if not fs:
        return None
    with open(fs[0]) as f:
        return json.load(f)


def optimize(cfg, obj, events=(), clock=None, ticks=None, std=None, snapshot=False, raw_dict=None, signals=False,
             fom_class=None, hook=None, stop_before=False, attach=None,
             system=None, gseed=12345, other=None):
    """Run one optimisation in the current directory and return everything observable about it."""
    r = Run()
    d = prepare_dict(cfg) if raw_dict is None else raw_dict
    r.dict = d
    maximize = d["algorithm_settings"].get("optimization_direction", "minimization") == "maximization"
    he = HandleExit()
    r.he = he
    r.signals = [Sig(), Sig(), Sig()] if signals else None
    state = {}
    snap = (lambda: load_best_file(state["opt"].results_path)) if snapshot else None
    fom = (fom_class or RecFoM)(obj, maximize=maximize, events=events, clock=clock, ticks=ticks, std=std,
                                snapshot=snap, hooks=hook, stop=lambda: he.set_is_user_running(False))
    if system is not None:
        fom.set_system(system)
    r.fom = fom
    cm = virtual_clock(clock) if clock is not None else contextlib.nullcontext()
    with cm, quiet(gseed):
        opt = Optimizer(d, fom, r.signals, he)
        state["opt"] = opt
        r.opt = opt
        r.results_path = opt.results_path
        r.alg = opt.get_optimization_algorithm()
        if attach:
            attach(r)
        if other is not None:
            # another optimisation is prepared and made before this one is started, or during one of its evaluations
            def make_other():
                od = prepare_dict({k: v for k, v in other["cfg"].items() if k != "sys"})
                od["optimization_client_name"] = "other"
                ofom = (fom_class or RecFoM)(obj)
                if system is not None:
                    ofom.set_system(system)
                Optimizer(od, ofom).execute()
            if other["at"] == 0:
                make_other()
            else:
                inner = fom.hook

                def nested(rec, res):
                    if inner:
                        inner(rec, res)
                    if rec["k"] == other["at"]:
                        make_other()
                fom.hook = nested
        if stop_before:
            he.set_is_user_running(False)
        opt.execute()
        r.best = opt.get_optimization_algorithm().get_best_controls()
    r.evals = fom.evals
    r.final = load_final(r.results_path)
    r.file = load_best_file(r.results_path)
    r.maximize = maximize
    r.sgn = -1.0 if maximize else 1.0
    return r


# ------------------------------------------------------------------------------------------------ comparisons
def arr(x):
    return np.asarray(x)


def close(a, b, rtol=1e-9, atol=1e-9):
    """Shape-safe comparison of arrays / lists of arrays; NaN never equals."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and a and not np.isscalar(a[0]):
        return len(a) == len(b) and all(close(x, y, rtol, atol) for x, y in zip(a, b))
    try:
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        s = max(float(np.max(np.abs(b))), 0.0)
        return bool(np.max(np.abs(a - b)) <= atol + rtol * s)
    except (TypeError, ValueError):
        return False


def same_controls(ev, pulses, timegrids, parameters, tol=1e-9):
    if len(ev["pulses"]) != len(pulses) or len(ev["parameters"]) != len(parameters):
        return False
    for p, q in zip(ev["pulses"], pulses):
        if not close(p, q, tol, tol):
            return False
    if timegrids is not None:
        for p, q in zip(ev["timegrids"], timegrids):
            if not close(p, q, tol, tol):
                return False
    return close(np.asarray(ev["parameters"], float), np.asarray([float(np.real(x)) for x in parameters]), tol, tol)


def diff_controls(ev, pulses, parameters):
    m = 0.0
    for p, q in zip(ev["pulses"], pulses):
        p, q = np.asarray(p), np.asarray(q)
        if p.shape != q.shape:
            return "shape %s vs %s" % (p.shape, q.shape)
        m = max(m, float(np.max(np.abs(p - q))) if p.size else 0.0)
    for x, y in zip(ev["parameters"], parameters):
        m = max(m, abs(x - float(np.real(y))))
    return m

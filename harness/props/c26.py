"""C26: results folders over histories of runs on a virtual clock, with everything the process writes observed."""
import os
import sys

from hypothesis import strategies as st

from .. import gen, runs, sut
from ..engine import Family

_watch = None
_hooked = False
W = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _audit(event, args):
    if _watch is None:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int) or not (flags & W):
            return
        _watch.append((event, path))
    elif event in ("os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.truncate", "os.link", "os.symlink", "os.chmod"):
        for a in args[:2]:
            if isinstance(a, (str, bytes)):
                _watch.append((event, a))


def setup():
    global _hooked
    if not _hooked:
        sys.addaudithook(_audit)
        _hooked = True


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            p = os.path.join(d, x)
            out[os.path.relpath(p, root)] = None
        for x in fs:
            p = os.path.join(d, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = (f.read(), os.stat(p).st_mtime_ns)
    return out


@st.composite
def small(draw):
    c = draw(runs.any_cfg(algs=("dCRAB", "DirectSearch", "DirectSearch"), max_eval_total=(1, 8), max_si=2))
    return c


@st.composite
def op(draw):
    o = {"dt": draw(st.sampled_from([0.0, 0.0, 0.0, 1e-6, 0.25, 0.5, 0.75, 1.0, 1.0, 30.0, 59.75, 3600.0, 86400.0])),
         "name": draw(st.sampled_from(["run", "run", "run", "a", "my run", "é", "x.y", "run2", "_run", ""])),
         "cwd": draw(st.integers(0, 1)), "cfg": draw(small()), "obj": draw(gen.objective_spec()),
         "obstacle": draw(st.sampled_from([None] * 8 + ["dir", "file", "full"]))}
    for k in ("use_microsecond_name", "create_logfile"):
        v = draw(st.sampled_from([None, True, False, False]))
        if v is not None:
            o["cfg"][k] = v
    if draw(st.integers(0, 6)):
        o["cfg"]["optimization_client_name"] = o["name"]
    else:
        o.pop("name")
    return o


@st.composite
def strategy(draw):
    return {"ops": [draw(op()) for _ in range(draw(st.integers(1, 5)))], "start": draw(st.sampled_from([0.0, 0.5, 43199.75]))}


def check(case, ctx):
    global _watch
    setup()
    clock = sut.Clock()
    clock.t = case["start"]
    taken = refused = close = 0
    last = None
    with sut.scratch() as root:
        for d in ("w0", "w1"):
            os.mkdir(os.path.join(root, d))
            with open(os.path.join(root, d, "notes.txt"), "w") as f:
                f.write("mine")
        for i, o in enumerate(case["ops"]):
            clock.advance(o["dt"])
            cfg = o["cfg"]
            cwd = os.path.join(root, "w%d" % o["cwd"])
            micro = cfg.get("use_microsecond_name", False)
            name = cfg.get("optimization_client_name", "run")
            stamp = clock.now().strftime("%Y%m%d_%H%M%S_%f" if micro else "%Y%m%d_%H%M%S")
            results = os.path.join(cwd, "QuOCS_Results")
            folder = os.path.join(results, stamp + "_" + name)
            if o["obstacle"] and not os.path.exists(folder):
                os.makedirs(results, exist_ok=True)
                if o["obstacle"] == "file":
                    with open(folder, "w") as f:
                        f.write("in the way")
                else:
                    os.mkdir(folder)
                    if o["obstacle"] == "full":
                        for fn in (stamp + "_best_controls.npz", "quocs_version.txt"):
                            with open(os.path.join(folder, fn), "w") as f:
                                f.write("old")
            exists = os.path.lexists(folder)
            before = tree(root)
            os.chdir(cwd)
            raw = {k: v for k, v in cfg.items()}
            raw.setdefault("console_info", False)
            raw = __import__("copy").deepcopy(raw)
            err, r = None, None
            wrote = []
            try:
                _watch = wrote
                r = runs.run(cfg, o["obj"], raw_dict=raw, clock=clock)
            except FileExistsError as e:
                err = e
            finally:
                _watch = None
                os.chdir(root)
            after = tree(root)
            where = "run %d (%s, started at %s)" % (i + 1, name, stamp)
            if exists:
                ctx.expect(err is not None, "no-error", lambda: "%s: the folder %s existed, no FileExistsError" % (where, folder))
                ctx.expect(after == before, "overwritten", lambda: "%s was refused, but changed %s" % (
                    where, sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))))
                refused += 1
                continue
            ctx.expect(err is None, "refused", lambda: "%s: the folder %s did not exist, but: %s" % (where, folder, err))
            ctx.expect(os.path.realpath(r.results_path) == os.path.realpath(folder), "folder", lambda: (
                "%s writes to %s instead of %s" % (where, r.results_path, folder)))
            for k, v in before.items():
                ctx.expect(k in after and after[k] == v, "overwritten", lambda: "%s changed %s" % (where, k))
            rel = os.path.relpath(folder, root)
            new = sorted(k for k in after if k not in before)
            ctx.expect(rel in new, "folder-missing", "%s made no folder %s" % (where, rel))
            bad = [k for k in new if not (k == rel or k.startswith(rel + os.sep) or k == os.path.dirname(rel))]
            ctx.expect(not bad, "elsewhere", "%s wrote %s, outside %s" % (where, bad, rel))
            out = sorted({os.path.realpath(os.fsdecode(p)) for ev, p in wrote if not os.path.abspath(os.path.join(
                cwd, os.fsdecode(p))).startswith((folder, "/dev/"))} - {os.path.realpath(results), os.path.realpath(folder)})
            out = [p for p in out if "__pycache__" not in p and not p.endswith((".pyc", ".nbi", ".nbc"))]
            ctx.expect(not out, "elsewhere", "%s wrote %s, outside its folder" % (where, out))
            inside = [k[len(rel) + 1:] for k in new if k.startswith(rel + os.sep)]
            logs = [k for k in inside if "log" in k.lower()]
            ctx.expect(bool(logs) == cfg.get("create_logfile", True), "log-file", "%s: log files %s, create_logfile %s" % (
                where, logs, cfg.get("create_logfile")))
            for what in ("optimization_dictionary.json", "optimized_parameters.json", "best_controls"):
                ctx.expect(any(what in k for k in inside), "content", "%s: no %s in %s" % (where, what, inside))
            taken += 1
            if last is not None and micro and o["dt"] < 1:
                close += 1
            last = clock.t
    ctx.label("refused" if refused else "none refused", "%d runs" % taken, "within one second" if close else "apart")
    ctx.nt(refused or taken > 1)


FAMILIES = [Family("history", strategy, check, 1200, 15000, rule="at least two runs, or one refused", setup=setup)]

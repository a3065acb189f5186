"""Monitor runtime: scenarios, cases, checks, journal.  Runs inside a worker process.

A monitor module registers scenarios; a scenario run is a sequence of *cases*, each a
deterministic function of (VERIF_SEED, property, scenario, index).  Inside a case the real
code runs and ctx.check(...) evaluates the oracle on what was observed.
"""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

import numpy as np

SCENARIOS = []


class Violation(Exception):
    def __init__(self, key, msg, witness=None):
        Exception.__init__(self, "%s: %s" % (key, msg))
        self.key, self.msg, self.witness = key, msg, witness


class Scenario(object):
    def __init__(self, fn, name, quick, thorough, allow, once):
        self.fn, self.name, self.quick, self.thorough = fn, name, quick, thorough
        self.allow = allow


def scenario(quick, thorough=None, name=None, allow=()):
    """Register <fn(rng, ctx)>; <quick>/<thorough> are case counts (a multiplier of 12 by default)."""
    def deco(fn):
        SCENARIOS.append(Scenario(fn, name or fn.__name__, quick,
                                  thorough if thorough is not None else quick * 12, allow, False))
        return fn
    return deco


def digest(*parts):
    h = hashlib.sha1()
    def feed(p):
        if isinstance(p, np.ndarray):
            h.update(str((p.dtype, p.shape)).encode())
            h.update(np.ascontiguousarray(p).tobytes())
        elif isinstance(p, (list, tuple)):
            h.update(b"[")
            for q in p:
                feed(q)
            h.update(b"]")
        else:
            h.update(repr(p).encode())
    for p in parts:
        feed(p)
    return h.hexdigest()[:16]


class Ctx(object):
    """Handed to each case: oracle entry point and observation counters."""

    def __init__(self, prop, seed, tier, scratch):
        self.prop, self.seed, self.tier, self.scratch = prop, seed, tier, scratch
        self.counters = {}
        self.checks = 0
        self.sig = None
        self.nontrivial = False
        self.sample = None
        self.soft = []

    # -- observation -----------------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def case(self, *parts, **kw):
        """Describe this case: <parts> make its identity, <trivial> says it exercises nothing."""
        self.sig = digest(*parts)
        self.nontrivial = not kw.get("trivial", False)
        if "sample" in kw:
            self.sample = kw["sample"]

    # -- oracle ----------------------------------------------------------------------
    def check(self, ok, key, msg="", **witness):
        self.checks += 1
        if not ok:
            raise Violation(key, msg, {k: short(v) for k, v in witness.items()})

    def soft_check(self, ok, key, msg="", **witness):
        """Like check, but the case goes on: for oracles that a recorded finding may trip."""
        self.checks += 1
        if not ok:
            self.soft.append(Violation(key, msg, {k: short(v) for k, v in witness.items()}))

    def close(self, a, b, key, msg="", rtol=0.0, atol=1e-9, **w):
        self.checks += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        ok = a.shape == b.shape and bool(np.all(
            (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))) |
            ((a == b)) | (np.isnan(a) & np.isnan(b))))
        if not ok:
            w = {k: short(v) for k, v in w.items()}
            w.update(got=short(a), expected=short(b))
            raise Violation(key, msg or "values differ", w)

    def equal(self, a, b, key, msg="", **w):
        self.checks += 1
        try:
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                a_, b_ = np.asarray(a), np.asarray(b)
                ok = a_.shape == b_.shape and bool(np.all((a_ == b_)))
            else:
                ok = bool(a == b)
        except Violation:
            raise
        if not ok:
            w = {k: short(v) for k, v in w.items()}
            w.update(got=short(a), expected=short(b))
            raise Violation(key, msg or "values differ", w)

    def raises(self, exc, fn, key, msg="", **w):
        """<fn()> must raise one of <exc>."""
        self.checks += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            raise Violation(key, "%s: raised %s instead of %s" % (msg, type(e).__name__, exc),
                            {k: short(v) for k, v in w.items()})
        raise Violation(key, "%s: nothing raised, returned %s" % (msg, short(r)),
                        {k: short(v) for k, v in w.items()})

    def tmp(self, name=""):
        """A fresh directory for this case."""
        self._n = getattr(self, "_n", 0) + 1
        d = os.path.join(self.scratch, "c%d%s" % (self._n, name))
        os.makedirs(d)
        return d


def short(v):
    try:
        if isinstance(v, np.ndarray):
            if v.size > 40:
                return "array%s %s %s..." % (v.shape, v.dtype, np.array2string(v.ravel()[:12], precision=8))
            return np.array2string(v, precision=17, threshold=60)
        s = repr(v)
    except Exception as e:
        s = "<unprintable %s>" % type(e).__name__
    return s if len(s) < 900 else s[:900] + "..."


def case_rng(seed, prop, name, idx):
    h = hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, name, idx)).encode()).digest()
    return np.random.Generator(np.random.PCG64(int.from_bytes(h[:16], "little")))


def guard_destructive(scratch):
    """rmtree/remove outside scratch is refused and reported instead of executed."""
    import shutil
    roots = [os.path.realpath(scratch), os.path.realpath(os.environ["TMPDIR"])]
    real = shutil.rmtree

    def rmtree(path, *a, **k):
        p = os.path.realpath(path)
        if not any(p.startswith(r + os.sep) for r in roots):
            raise Violation("rmtree-outside-scratch", "the code tried to delete %s" % p)
        return real(path, *a, **k)
    shutil.rmtree = rmtree


def worker_main(argv):
    cfg = json.loads(argv[0])
    prop, seed, tier = cfg["prop"], cfg["seed"], cfg["tier"]
    shard, nshards = cfg["shard"], cfg["nshards"]
    skip = {(a, b) for a, b in cfg.get("skip", [])}
    out = os.open(cfg["journal"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)

    def emit(o):
        os.write(out, (json.dumps(o) + "\n").encode())

    if cfg.get("address_space"):
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (cfg["address_space"],) * 2)
    sys.path.insert(0, cfg["monitors"])
    for p in reversed(cfg["paths"]):
        sys.path.insert(0, p)
    guard_destructive(cfg["scratch"])
    # C++ libraries write progress to stdout
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    emit({"ev": "import"})
    mods = cfg["modules"]
    for m in mods:
        importlib.import_module(m)
    t_end = time.monotonic() + cfg["budget_s"]
    todo = []
    for sc in [s for s in SCENARIOS if s.fn.__module__ in mods]:
        if cfg.get("only") and sc.name not in cfg["only"]:
            continue
        n = sc.quick if tier == "quick" else sc.thorough
        n = max(1, int(n * cfg.get("scale", 1.0)))
        todo.append((sc, n))
    if cfg.get("one"):
        plan = [(sc, cfg["one"][1]) for sc, _ in todo if sc.name == cfg["one"][0]]
    else:
        # interleave scenarios so that a time cap cuts all of them alike
        plan = []
        for sc, n in todo:
            plan += [((i + 0.5) / n, k, sc, i) for k, i in enumerate(range(n))]
        plan.sort(key=lambda x: (x[0], x[2].name, x[3]))
        plan = [(sc, i) for k, (_, _, sc, i) in enumerate(plan) if k % nshards == shard]
    agg = {"cases": {}, "checks": 0, "counters": {}}
    sigs, samples = set(), []
    bad_scen = {}
    since = 0

    def flush(final=False):
        emit({"ev": "stat", "agg": agg, "sigs": sorted(sigs), "samples": samples, "final": final})

    if os.path.isdir(os.path.join(cfg["scratch"], "w")):
        subprocess_rm(os.path.join(cfg["scratch"], "w"))
    emit({"ev": "ready", "n": len(plan)})
    for sc, i in plan:
        if (sc.name, i) in skip or bad_scen.get(sc.name, 0) >= 2:
            continue
        if time.monotonic() > t_end and not cfg.get("one"):
            emit({"ev": "timecap"})
            break
        emit({"ev": "case", "s": sc.name, "i": i})
        rng = case_rng(seed, prop, sc.name, i)
        d = os.path.join(cfg["scratch"], "w")
        os.makedirs(d, exist_ok=True)
        ctx = Ctx(prop, seed, tier, d)
        ctx.index = i
        viol = None
        os.chdir(d)
        try:
            sc.fn(rng, ctx)
        except Violation as e:
            viol = e
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:  # valid input: the code must not raise
            tb = traceback.format_exc()
            viol = Violation("exception:%s:%s" % (sc.name, type(e).__name__),
                             "unexpected %s: %s" % (type(e).__name__, str(e)[:400]),
                             {"traceback": tb[-1800:]})
        os.chdir("/")
        if os.listdir(d):
            subprocess_rm(d)
        for v in ctx.soft + ([viol] if viol else []):
            emit({"ev": "viol", "s": sc.name, "i": i, "key": v.key, "msg": v.msg, "w": v.witness})
        if viol is not None:
            bad_scen[sc.name] = bad_scen.get(sc.name, 0) + 1
        agg["cases"][sc.name] = agg["cases"].get(sc.name, 0) + 1
        agg["checks"] += ctx.checks
        for k, v in ctx.counters.items():
            agg["counters"][k] = agg["counters"].get(k, 0) + v
        if ctx.nontrivial and ctx.checks > 0:
            sigs.add(sc.name + ":" + (ctx.sig or str(i)))
        if ctx.sample is not None and sum(1 for s in samples if s["scenario"] == sc.name) < 1:
            samples.append({"scenario": sc.name, "index": i, "case": short(ctx.sample)})
        since += 1
        if since % 200 == 0:
            flush()
    if hasattr(sys, "_sumo_finish"):
        sys._sumo_finish(emit)
    flush(final=True)
    os._exit(0)


def subprocess_rm(d):
    import shutil
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)


if __name__ == "__main__":
    sys.modules["core"] = sys.modules["__main__"]
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)  # PR_SET_PDEATHSIG, SIGKILL: no worker outlives run.py
    except Exception:
        pass
    worker_main(sys.argv[1:])

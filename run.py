#!/usr/bin/env python3
"""Run one property's check.   run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Exit 2: inconclusive/error.
"""
import argparse
import glob
import json
import os
import pwd
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.dont_write_bytecode = True
import sumobuild  # noqa: E402
import registry   # noqa: E402

PY = sumobuild.PY
MEMORY_LIMIT = 2 << 30   # resident bytes one worker may use; normal ones stay below 0.5 GB
CASE_CPU_LIMIT = 150.0   # CPU seconds (not wall) one case may use; normal cases take < 5


def log(s):
    print("[%s] %s" % (time.strftime("%H:%M:%S"), s), file=sys.stderr, flush=True)


def cpu_of(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def rss_of(pid):
    try:
        return int(open("/proc/%d/statm" % pid).read().split()[1]) * os.sysconf("SC_PAGE_SIZE")
    except (OSError, IndexError):
        return 0


class Worker(object):
    def __init__(self, cfg, env, root, user):
        self.cfg, self.env, self.root, self.user = cfg, env, root, user
        self.skip, self.restarts = [], 0
        self.crashes = []
        self.events = []
        self.start()

    def start(self):
        self.cfg["skip"] = self.skip
        self.cfg["journal"] = os.path.join(self.root, "j%d.%d" % (self.cfg["shard"], self.restarts))
        open(self.cfg["journal"], "w").close()
        self.err = open(self.cfg["journal"] + ".err", "w+b")
        kw = {}
        if self.user is not None:
            os.chown(self.cfg["journal"], self.user, self.user)
            kw = dict(user=self.user, group=self.user, extra_groups=[])
        self.p = subprocess.Popen(
            [PY, "-X", "faulthandler", os.path.join(VERIF, "lib", "core.py"), json.dumps(self.cfg)],
            env=self.env, cwd=self.cfg["scratch"], stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL, stderr=self.err, start_new_session=True, **kw)
        self.pos, self.cur, self.cur_cpu, self.buf = 0, None, 0.0, b""
        self.final = False
        self.stat = None

    def pump(self):
        with open(self.cfg["journal"], "rb") as fh:
            fh.seek(self.pos)
            data = fh.read()
        self.pos += len(data)
        lines = (self.buf + data).split(b"\n")
        self.buf = lines.pop()
        for l in lines:
            o = json.loads(l)
            ev = o["ev"]
            if ev == "case":
                self.cur, self.cur_cpu = (o["s"], o["i"]), cpu_of(self.p.pid)
            elif ev == "stat":
                self.stat = o
                self.final = self.final or o["final"]
            else:
                self.events.append(o)

    def stderr_tail(self, n=6000):
        self.err.flush()
        with open(self.err.name, "rb") as fh:
            fh.seek(0, 2)
            size = fh.tell()
            fh.seek(max(0, size - 200000))
            return fh.read().decode("utf-8", "replace")


def sanitizer_summary(text):
    """(kind, frame) of the first sanitizer report in <text>, or None."""
    m = re.search(r"([\w./+-]+):(\d+):\d+: runtime error: ([^\n]*)", text)
    a = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if a:
        frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\s(]+)[^\n]*?(sumo/[\w./]+)", text[a.start():])
        where = "%s@%s" % (frames[0][0], frames[0][1]) if frames else "?"
        return ("asan:" + a.group(1), where, text[a.start():a.start() + 2500])
    if m:
        msg = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(3))
        f = m.group(1)
        f = f[f.find("sumo/"):] if "sumo/" in f else f
        return ("ubsan:" + msg[:60], f, text[m.start():m.start() + 1500])
    g = re.search(r"(\S+):(\d+): [^\n]*Assertion '([^']*)' failed", text)
    if g:
        return ("libstdc++-assert:" + g.group(3)[:60], g.group(1).split("/")[-1], text[g.start():g.start() + 800])
    return None


def run_group(prop, group, tier, seed, replay, root, user):
    """Run one (variant, modules) group of a property. Returns dict of results."""
    tree = sumobuild.build(group["variant"], log)
    env = dict(PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               HOME=root, LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPATH="/opt/vp/compat", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", MPLCONFIGDIR=root, OPENCV_LOG_LEVEL="SILENT",
               VERIF_TREE=tree)
    if group["variant"] == "asan":
        libs = [subprocess.run(["gcc", "-print-file-name=" + l], stdout=subprocess.PIPE, text=True,
                               check=True).stdout.strip() for l in ("libasan.so", "libubsan.so")]
        env["LD_PRELOAD"] = " ".join(libs)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=86:"
                               "allocator_may_return_null=1:detect_stack_use_after_return=0:"
                               "max_allocation_size_mb=4096:handle_segv=1:handle_abort=1")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=86"
    n = group.get("procs", 8)
    if replay:
        n = 1
    workers = []
    for k in range(n):
        scratch = os.path.join(root, "s%d" % k)
        for d in (scratch, scratch + "/tmp"):
            os.makedirs(d, exist_ok=True)
            if user is not None:
                os.chown(d, user, user)
        e = dict(env, TMPDIR=scratch + "/tmp")
        cfg = dict(prop=prop, seed=seed, tier=tier, shard=k, nshards=n, scratch=scratch,
                   monitors=os.path.join(VERIF, "monitors"), modules=group["modules"],
                   only=group.get("only"), scale=group.get("scale", 1.0) if tier == "quick"
                   else group.get("scale_thorough", group.get("scale", 1.0)),
                   budget_s=group.get("budget_quick", 420) if tier == "quick" else
                   group.get("budget_thorough", 700),
                   paths=[os.path.join(VERIF, "lib"), os.path.join(VERIF, "stubs"), tree],
                   verif=VERIF)
        if group["variant"] == "plain":
            cfg["address_space"] = 7 * MEMORY_LIMIT // 4  # endless allocation ends in MemoryError, not in an empty machine
        if replay:
            cfg["one"] = [replay["scenario"], replay["index"]]
        workers.append(Worker(cfg, e, root, user))
    res = dict(viol=[], errors=[], cases={}, checks=0, counters={}, sigs=set(), samples=[],
               timecap=0, planned=0, peak=0)
    live = list(workers)
    t0 = time.monotonic()
    hard = (600 if tier == "quick" else 1500)
    while live:
        time.sleep(0.05)
        for w in list(live):
            done = w.p.poll() is not None
            w.pump()
            hung = (not done and w.cur is not None and
                    cpu_of(w.p.pid) - w.cur_cpu > CASE_CPU_LIMIT *
                    (3 if group["variant"] == "asan" else 1))
            over = time.monotonic() - t0 > hard
            rss = 0 if done else rss_of(w.p.pid)
            res["peak"] = max(res["peak"], rss)
            huge = rss > MEMORY_LIMIT
            if hung or over or huge:
                os.killpg(w.p.pid, signal.SIGKILL)
                w.p.wait()
                w.pump()
            if not (done or hung or over or huge):
                continue
            if w.stat:
                for s, c in w.stat["agg"]["cases"].items():
                    res["cases"][s] = res["cases"].get(s, 0) + c
                res["checks"] += w.stat["agg"]["checks"]
                for k, v in w.stat["agg"]["counters"].items():
                    res["counters"][k] = res["counters"].get(k, 0) + v
                res["sigs"].update(w.stat["sigs"])
                res["samples"] += w.stat["samples"]
            for o in w.events:
                if o["ev"] == "viol" and group.get("crash_only"):
                    pass  # another property's business; this group watches for sanitizer reports and crashes
                elif o["ev"] == "viol":
                    res["viol"].append(dict(scenario=o["s"], index=o["i"], key=o["key"],
                                            msg=o["msg"], witness=o["w"]))
                elif o["ev"] == "timecap":
                    res["timecap"] += 1
                elif o["ev"] == "ready":
                    res["planned"] += o["n"] if w.restarts == 0 else 0
                elif o["ev"] == "finish_error":
                    res["errors"].append(o["msg"])
            w.events = []
            live.remove(w)
            if over:
                res["errors"].append("watchdog: wall clock limit of %d s" % hard)
                continue
            if huge and w.cur is not None:
                res["viol"].append(dict(
                    scenario=w.cur[0], index=w.cur[1], key="runaway-memory:%s" % w.cur[0],
                    msg="one case used more than %d MB of memory" % (MEMORY_LIMIT >> 20), witness=None))
                continue
            if hung and group.get("crash_only"):
                res["counters"]["hung"] = res["counters"].get("hung", 0) + 1
                continue
            if hung:
                res["viol"].append(dict(
                    scenario=w.cur[0], index=w.cur[1], key="no-termination:%s" % w.cur[0],
                    msg="one case used more than %g CPU seconds" % CASE_CPU_LIMIT, witness=None))
                continue
            if w.final and w.p.returncode == 0:
                continue
            # died
            err = w.stderr_tail()
            if w.cur is None:
                res["errors"].append("worker failed before its first case (rc=%s):\n%s" %
                                     (w.p.returncode, err[-3000:]))
                continue
            s = sanitizer_summary(err)
            rc = w.p.returncode
            key = "%s:%s" % (s[0], s[1]) if s else "crash:%s:%s" % (w.cur[0], rc)
            res["viol"].append(dict(scenario=w.cur[0], index=w.cur[1], key=key,
                                    msg="the process died (rc=%s)" % rc,
                                    witness={"stderr": (s[2] if s else err[-2500:])}))
            w.skip.append(list(w.cur))
            if w.restarts < 3 and not replay:
                # go on after the crashing case, leaving its scenario out
                w.restarts += 1
                w.skip += [[w.cur[0], i] for i in range(200000)] if False else []
                only = [x for x in (w.cfg["only"] or group["scenarios"](w.cfg, tree, env))
                        if x != w.cur[0]]
                if only:
                    w.cfg["only"] = only
                    w.start()
                    live.append(w)
    return res


def list_scenarios(group, tree, env):
    code = ("import sys,json\nfor p in %r: sys.path.insert(0,p)\nimport core,importlib\n"
            "[importlib.import_module(m) for m in %r]\n"
            "print('@@'+json.dumps([s.name for s in core.SCENARIOS]))" %
            ([os.path.join(VERIF, "monitors"), tree, os.path.join(VERIF, "stubs"),
              os.path.join(VERIF, "lib")], group["modules"]))
    out = subprocess.run([PY, "-c", code], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                         text=True, cwd="/tmp").stdout
    for l in out.splitlines():
        if l.startswith("@@"):
            return json.loads(l[2:])
    return []


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#"):
                continue
            if l.startswith("fixed:"):
                continue
            o = json.loads(l)
            if o.get("property") == prop:
                out.append(o)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    spec = registry.PROPS[prop]
    t0 = time.time()
    replay = None
    if a.replay:
        replay = json.load(open(a.replay))
        seed, tier = replay["seed"], replay["tier"]
    for sig in (signal.SIGTERM, signal.SIGINT):
        signal.signal(sig, lambda n, f: sys.exit(2))
    root = tempfile.mkdtemp(prefix="sumo-verif-%s-" % prop)
    os.chmod(root, 0o755)
    user = None
    if os.geteuid() == 0:
        try:
            user = pwd.getpwnam("nobody").pw_uid
            subprocess.run(["true"], user=user, group=user, extra_groups=[], check=True)
        except Exception as e:  # not allowed here: stay root (the rmtree guard still holds)
            log("running workers as root: %s" % e)
            user = None
    ok_build = True
    results = []
    try:
        for g in spec["groups"]:
            if replay and g["variant"] != replay["variant"]:
                continue
            g = dict(g)
            g["scenarios"] = lambda cfg, tree, env, g=g: list_scenarios(g, tree, env)
            results.append((g, run_group(prop, g, tier, seed, replay, root, user)))
    except Exception as e:
        print("ERROR: %s" % e, file=sys.stderr)
        ok_build = False
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if not ok_build:
        sys.exit(2)

    known = known_findings(prop)
    seen_known, fresh, errors = {}, {}, []
    for g, r in results:
        errors += r["errors"]
        for v in r["viol"]:
            v["variant"] = g["variant"]
            k = [o for o in known if re.fullmatch(o["key"], v["key"])
                 and ("scenario" not in o or re.fullmatch(o["scenario"], v["scenario"]))]
            if k:
                seen_known[k[0]["key"]] = k[0]
            else:
                fresh.setdefault((v["scenario"], v["key"]), v)
    cases, counters, samples, sigs, checks, caps = {}, {}, [], set(), 0, 0
    for g, r in results:
        pre = "" if g["variant"] == "plain" else g["variant"] + "/"
        for k, v in r["cases"].items():
            cases[pre + k] = cases.get(pre + k, 0) + v
        for k, v in r["counters"].items():
            counters[pre + k] = counters.get(pre + k, 0) + v
        for s in r["samples"]:
            if all(x["scenario"] != pre + s["scenario"] for x in samples):
                samples.append(dict(s, scenario=pre + s["scenario"]))
        sigs.update(pre + s for s in r["sigs"])
        checks += r["checks"]
        caps += r["timecap"]
    evaluations = sum(cases.values())
    # inconclusive when a monitor was never reached
    if not replay and not fresh:
        for g, r in results:
            for name in g.get("need", []):
                if r["counters"].get(name, 0) == 0:
                    errors.append("inconclusive: nothing observed for '%s'" % name)
        if checks == 0 or not sigs:
            errors.append("inconclusive: no oracle evaluation")
    if not replay:
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=evaluations, distinct_nontrivial=len(sigs),
                                rule=spec["rule"], samples=samples[:20], oracle_evaluations=checks,
                                cases_per_scenario=cases, observed=counters,
                                shards_stopped_by_time_cap=caps,
                                peak_worker_memory_mb=max([r["peak"] for _, r in results] + [0]) >> 20),
                  assumptions=spec.get("assumptions", []),
                  wall_s=round(time.time() - t0, 2), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
    for k, o in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, o["what"]))
    if fresh:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, ((sc, key), v) in enumerate(sorted(fresh.items())):
            if n >= 12:
                print("... %d more" % (len(fresh) - n))
                break
            safe = re.sub(r"[^\w.-]", "_", "%s-%s-%s-%d" % (prop, sc, v["index"], seed))
            path = os.path.join(rd, safe + ".json")
            with open(path, "w") as fh:
                json.dump(dict(property=prop, seed=seed, tier=tier, scenario=sc, index=v["index"],
                               variant=v["variant"], key=key, msg=v["msg"], witness=v["witness"],
                               replay="python3 run.py %s --replay %s" % (prop, path)), fh, indent=1)
            print("  %s [%s #%d] %s: %s" % (prop, sc, v["index"], key, v["msg"]))
            for k, x in (v["witness"] or {}).items():
                print("      %s = %s" % (k, str(x)[-1500:]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errors:
        for e in errors:
            print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
    print("%s held: %d cases (%d distinct, non-trivial), %d oracle evaluations, %.0f s" %
          (prop, evaluations, len(sigs), checks, time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()

"""C26: tools/evaluate-one.py, run as a user runs it."""
import contextlib
import io
import itertools
import math
import os
import re
import runpy
import subprocess
import sys
import warnings
import numpy as np
from core import scenario
import evalscenes as E
import gen
import m_metrics as M
import projects as P
import refmetrics as R

from sumo.semantic.project_scene import ProjectScene

warnings.simplefilter("ignore")
TOOL = os.path.join(os.environ["VERIF_TREE"], "..", "tools", "evaluate-one.py")
LABELS = ["Shape Score (1 is best)", "Translation Error (0 is best)", "Rotation Error (0 is best)",
          "Semantics Score (1 is best)", "Perceptual Score (1 is best)"]


def run(args, process):
    """-> (succeeded, standard output)"""
    if process:
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        r = subprocess.run([sys.executable, TOOL] + args, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=300)
        return r.returncode == 0, r.stdout.decode()
    out, argv = io.StringIO(), sys.argv
    sys.argv = [TOOL] + args
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(TOOL, run_name="__main__")
        return True, out.getvalue()
    except SystemExit as e:
        return not e.code, out.getvalue()
    except Exception:
        return False, out.getvalue()
    finally:
        sys.argv = argv


def parse(ctx, text):
    """The five numbers by their labels."""
    got = {}
    for line in text.splitlines():
        m = re.match(r"^\s*(.*?)\s*:\s*(\S+)\s*$", line)
        if m and m.group(1) in LABELS:
            ctx.check(m.group(1) not in got, "label-repeated", text=text)
            got[m.group(1)] = float(m.group(2))
    ctx.check(sorted(got) == sorted(LABELS), "labels", text=text)
    return [got[k] for k in LABELS]


def spell(rng, d, name):
    """Ways to name the scene directory <d>/<name>."""
    k = int(rng.integers(5))
    p = os.path.join(d, name)
    if k == 0:
        return p + "/"
    if k == 1:
        os.chdir(d)
        return gen.pick(rng, [name, "./" + name, name + "//"])
    if k == 2:
        return os.path.join(d, "x", "..", name)
    return p


def loaded(objs, scene):
    """The objects as the files have them (bounds are those of the stored shapes)."""
    out = []
    for o in objs:
        b = scene.elements[o["id"]].bounds
        out.append(dict(o, lo=np.array(b.min_corner, float), hi=np.array(b.max_corner, float)))
    return out


def clear(track, sim, ts):
    return all(v == 0 or v == 1 or min(abs(v - t) for t in ts) > 1e-6 for v in sim.values())


@scenario(quick=240)
def scores(rng, ctx):
    process = ctx.index % 16 == 0
    s = E.Evaluator.default_settings()
    ts = sorted(float(t) for t in s["thresholds"])
    perfect = rng.integers(5) == 0
    for _ in range(200):
        track, dets, gts, sim = E.pair(rng)
        if clear(track, sim, ts):
            break
    else:
        ctx.case("undecidable", trivial=True)
        return
    if rng.integers(2):
        gts[0]["evaluated"] = True
        gts[0]["category"] = "floor"
    if perfect:
        dets = [dict(g) for g in gts]
        for k, x in enumerate(dets):
            x["score"] = float((k + 1) / (len(dets) + 1))
        sim = {(a["id"], b["id"]): E.similarity(a, b) for a in dets for b in gts}
        if not clear(track, sim, ts) or any(v == 1 for (a, b), v in sim.items() if a != b):
            ctx.case("undecidable", trivial=True)
            return
    dg, ds = ctx.tmp("a b"), ctx.tmp()
    ng = gen.pick(rng, ["gt", "the scene", "s"])
    ns = gen.pick(rng, ["sub", "s", "x.y"])
    E.scene(track, gts).save(dg, ng)
    E.scene(track, dets).save(ds, ns)
    ctx.case(track, [sorted((k, repr(v)) for k, v in o.items()) for o in dets + gts])
    sub, gt = ProjectScene.load(ds, ns), ProjectScene.load(dg, ng)
    dets, gts = loaded(dets, sub), loaded(gts, gt)
    a = spell(rng, dg, ng)
    b = spell(rng, ds, ns)
    if not os.path.isabs(a) and os.getcwd() != dg:
        a = os.path.join(dg, ng)
    if not os.path.isabs(b) and os.getcwd() != ds:
        b = os.path.join(ds, ns)
    if rng.integers(4) == 0:  # kept elsewhere, under another name, and linked to
        store = ctx.tmp()
        for d, n in ((dg, ng), (ds, ns)):
            if rng.integers(2):
                os.rename(os.path.join(d, n), os.path.join(store, "%d" % (d == ds)))
                os.symlink(os.path.join(store, "%d" % (d == ds)), os.path.join(d, n))
                ctx.count("linked")
    elif rng.integers(5) == 0:  # from within the scene
        os.chdir(os.path.join(dg, ng))
        a, b = gen.pick(rng, [".", "./", os.path.join("..", ng)]), os.path.join(ds, ns)
        ctx.count("from_within")
    ok, text = run([a, b], process)
    ctx.check(ok, "tool-failed", args=[a, b], output=text)
    got = parse(ctx, text)
    ctx.count("as_process" if process else "in_process")
    ctx.count("tool_" + track)
    # what the library says about submission against ground truth
    lib = E.EVALUATORS[track](sub, gt, E.Evaluator.default_settings()).evaluate_all()
    want = [lib["shape_score"], lib["translation_error"], lib["rotation_error"], lib["semantics_score"], lib["perceptual_score"]]
    ctx.close(got, want, "differs-from-library", rtol=1e-9, atol=1e-12, track=track)
    # and what the definitions say
    combos = M.single([R.associations(dets, gts, sim, t, limit=16) for t in ts], 16)
    if combos is not None:
        if any(g["evaluated"] for g in gts):
            M.one_of(ctx, got[0], [R.shape_score(dets, gts, c) for c in combos], "shape", track=track)
        M.one_of(ctx, got[4], [R.perceptual(dets, gts, c, s["perceptual"]) for c in combos], "perceptual", rtol=1e-6, atol=1e-6, track=track)
        M.one_of(ctx, [got[2], got[1]], [R.pose_errors(dets, gts, c) for c in combos], "pose", atol=2e-6, track=track)
        ctx.count("against_definitions")
    by = {c: M.single([R.associations([x for x in dets if x["category"] == c], [x for x in gts if x["category"] == c],
                                      sim, t, limit=16) for t in ts], 16) for c in s["categories"]}
    n = 1
    for v in by.values():
        n *= 65 if v is None else len(v)
    if n <= 16:
        M.one_of(ctx, got[3], [R.semantics_score(dets, gts, s["categories"], dict(zip(by, c))) for c in itertools.product(*by.values())],
                 "semantics", track=track)
    if perfect and any(g["evaluated"] for g in gts):
        ctx.close(got[:3], [1, 0, 0], "perfect-submission", atol=2e-6)
        if not math.isnan(got[3]):
            ctx.close(got[3], 1, "perfect-submission-semantics")
            ctx.count("perfect_semantics")
        ctx.count("perfect")
        if abs(R.room_scale(dets, gts) - 1) < 1e-9 and all(R.volume(g) > 1e-12 for g in gts):
            ctx.close(got[4], 1, "perfect-submission-perceptual", atol=1e-6)
            ctx.count("perfect_perceptual")


@scenario(quick=60)
def refusals(rng, ctx):
    """Different tracks, missing scenes: no scores, and an exit status that says so."""
    process = ctx.index % 6 == 0
    kind = gen.pick(rng, ["tracks", "tracks", "missing-gt", "missing-sub", "arguments"])
    d = ctx.tmp()
    t = [P.TRACKS[k] for k in rng.permutation(len(P.TRACKS))]
    for k in range(2):
        track, dets, gts, _ = E.pair(rng, track=t[k], nd=2, ng=2)
        E.scene(track, gts).save(d, "s%d" % k)
    ctx.case(kind, t, int(rng.integers(2 ** 31)))
    a, b = os.path.join(d, "s0"), os.path.join(d, "s1")
    args = {"tracks": [a, b], "missing-gt": [os.path.join(d, "no"), b], "missing-sub": [a, os.path.join(d, "no")],
            "arguments": [a]}[kind]
    err = sys.stderr
    sys.stderr = io.StringIO()
    try:
        ok, text = run(args, process)
    finally:
        sys.stderr = err
    ctx.check(not ok, "accepted-" + kind, output=text, tracks=t)
    ctx.check(not any(k in text for k in LABELS), "scores-printed-" + kind, output=text)
    ctx.count("refused_" + kind)

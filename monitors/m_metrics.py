"""C18: association.  C19: average precision.  C20: pose error.  C22: perceptual score."""
import copy
import itertools
import math
import warnings
import numpy as np
from core import scenario
import evalscenes as E
import gen
import projects as P
import refmetrics as R

import sumo.metrics.utils as utils

warnings.simplefilter("ignore")


def prepared(rng, ctx, ties=False, n=None, **kw):
    """Scenes, settings, and every association the rule allows for each threshold."""
    track, dets, gts, sim = E.pair(rng, ties=ties, **kw)
    s = E.settings(rng, sim, n)
    ts = sorted(float(t) for t in s["thresholds"])
    if not E.exact(track, ts):
        s["thresholds"], ts = [0.5], [0.5]
    every = [R.associations(dets, gts, sim, t) for t in ts]
    ctx.case(track, [sorted((k, repr(v)) for k, v in o.items()) for o in dets + gts], ts, s["categories"],
             sample="%s: %d detections, %d ground truths, thresholds %s" % (track, len(dets), len(gts), ts))
    ctx.count("track_" + track)
    return track, dets, gts, sim, s, ts, every


def single(every, limit=64):
    """All combinations over the thresholds of allowed associations."""
    n = 1
    for e in every:
        if e is None:
            return None
        n *= len(e)
    return [list(c) for c in itertools.product(*every)] if n <= limit else None


def evaluate(ctx, rng, track, dets, gts, s):
    np.random.seed(int(rng.integers(2 ** 31)))
    sub, gt = E.scene(track, dets), E.scene(track, gts)
    return E.EVALUATORS[track](sub, gt, s), sub, gt


def one_of(ctx, got, wants, key, rtol=1e-9, atol=1e-9, **w):
    """<got> equals one of <wants> (each association the rule allows gives one)."""
    g = np.atleast_1d(np.asarray(got, float))
    ok = any(np.all((np.abs(g - np.atleast_1d(x)) <= atol + rtol * np.abs(g)) | (g == np.atleast_1d(x)) |
                    (np.isnan(g) & np.isnan(np.atleast_1d(np.asarray(x, float))))) for x in wants)
    ctx.check(ok, key, got=got, expected=wants[:4], **w)


def frozen(s):
    return repr([(k, (type(v).__name__, np.asarray(v).tolist()) if k in ("thresholds", "recall_samples") else v)
                 for k, v in sorted(s.items())])


# -- C18 -----------------------------------------------------------------------------

@scenario(quick=420)
def who_matches_whom(rng, ctx):
    """Which objects are matched shows in the translation error, as every pair's distance is different."""
    track, dets, gts, sim, s, ts, every = prepared(rng, ctx, ties=rng.integers(4) == 0)
    combos = single(every)
    if combos is None:
        ctx.case("too ambiguous", trivial=True)
        return
    before = frozen(s)
    ev, sub, gt = evaluate(ctx, rng, track, dets, gts, s)
    ctx.check(frozen(s) == before, "settings-changed", before=before, after=frozen(s))
    trans = ev.pose_error()[1]
    one_of(ctx, trans, [R.pose_errors(dets, gts, c, rotation=False)[1] for c in combos], "matched-pairs", track=track, thresholds=ts,
           sim=sim, scores={d["id"]: d["score"] for d in dets})
    ctx.count("matches", sum(len(a) for a in combos[0]))
    ctx.count("contested", sum(len(dets) > len(a) for a in combos[0]))
    # everything is evaluated: who is missed and who is extra shows in the penalties
    if len(combos) == 1 and all(g["evaluated"] for g in gts):
        ctx.count("all_evaluated")
    ctx.check(ev.pose_error()[1] == trans or trans != trans, "second-answer-differs")


@scenario(quick=220)
def within_categories(rng, ctx):
    """Detections of other categories neither match nor block."""
    track, dets, gts, sim, s, ts, _ = prepared(rng, ctx, ties=rng.integers(5) == 0)
    by = {}
    n = 1
    for c in s["categories"]:
        d = [x for x in dets if x["category"] == c]
        g = [x for x in gts if x["category"] == c]
        by[c] = single([R.associations(d, g, sim, t) for t in ts])
        n *= len(by[c] or [1] * 65)
    if n > 64:
        ctx.case("too ambiguous", trivial=True)
        return
    ev, _, _ = evaluate(ctx, rng, track, dets, gts, s)
    wants = [R.semantics_score(dets, gts, s["categories"], dict(zip(by, c))) for c in itertools.product(*by.values())]
    if len({d["score"] for d in dets}) < len(dets):
        wants += [R.semantics_score(list(p), gts, s["categories"], dict(zip(by, c)))
                  for c in itertools.product(*by.values()) for p in itertools.permutations(dets)][:6000] \
            if len(dets) <= 5 else []
        if len(dets) > 5:
            ctx.case("too ambiguous", trivial=True)
            return
    one_of(ctx, ev.semantics_score(), wants, "category-matches", track=track, thresholds=ts)
    ctx.count("categories_present", sum(any(g["category"] == c for g in gts) for c in s["categories"]))
    # the category-free metrics before and after do not influence each other
    a = (ev.shape_score(), ev.pose_error(), ev.semantics_score(), ev.perceptual_score())
    b = (ev.perceptual_score(), ev.semantics_score(), ev.pose_error(), ev.shape_score())
    ctx.check(repr(a) == repr(b[::-1]), "answers-depend-on-order", first=a, second=b)


@scenario(quick=120)
def inputs_left_alone(rng, ctx):
    track, dets, gts, sim, s, ts, _ = prepared(rng, ctx)
    sub, gt = E.scene(track, dets), E.scene(track, gts)
    if rng.integers(6) == 0:
        gt = sub
    before = [P.scene_state(sub), P.scene_state(gt), frozen(s)]
    np.random.seed(1)
    ev = E.EVALUATORS[track](sub, gt, s)
    want = sorted(["shape_score", "rotation_error", "translation_error", "semantics_score", "perceptual_score"] +
                  ([] if track == "bounding_box" else ["rms_points_error", "rms_color_error"]))
    r = ev.evaluate_all()
    ctx.check(sorted(r) == want, "reported-metrics", got=sorted(r), expected=want)
    ctx.check(frozen(s) == before[2], "settings-changed", before=before[2], after=frozen(s))
    for x, y in ((sub, before[0]), (gt, before[1])):
        P.same_scene(ctx, P.scene_state(x), y, "scene-changed")
        ctx.check(list(x.elements) == list(y["elements"]), "element-order-changed")
    one = dict(shape_score=ev.shape_score(), semantics_score=ev.semantics_score(),
               perceptual_score=ev.perceptual_score(), rotation_error=ev.pose_error()[0],
               translation_error=ev.pose_error()[1])
    if track != "bounding_box":
        one.update(rms_points_error=ev.rms_points_error(), rms_color_error=ev.rms_color_error())
    for k in want:
        ctx.check(r[k] == one[k] or (r[k] != r[k] and one[k] != one[k]), "all-is-not-each", metric=k, got=r[k],
                  expected=one[k])
    # thresholds in another order give the same answers
    s2 = dict(s, thresholds=list(rng.permutation(s["thresholds"])))
    np.random.seed(1)
    r2 = E.EVALUATORS[track](sub, gt, s2).evaluate_all()
    for k in want:
        if k.startswith("rms") and track == "meshes":
            continue
        ctx.close(r2[k], r[k], "threshold-order-matters", rtol=1e-12, atol=0, metric=k)


@scenario(quick=60)
def roles(rng, ctx):
    """A perfect submission is perfect; extra detections and missed objects count against different metrics."""
    track, dets, gts, sim, s, ts, _ = prepared(rng, ctx)
    s["thresholds"] = [t for t in ts if t <= 0.99] or [0.5]
    s["perceptual"] = E.Evaluator.default_settings()["perceptual"]
    for g in gts:
        g["evaluated"] = True
    dup = len({g["sites"] for g in gts}) < len(gts)
    ev, _, _ = evaluate(ctx, rng, track, gts, gts, s)
    ctx.close(ev.shape_score(), 1.0, "perfect-shape")
    present = any(g["category"] in s["categories"] for g in gts)
    if present:
        ctx.close(ev.semantics_score(), 1.0, "perfect-semantics")
    if not dup:
        r, t = ev.pose_error()
        ctx.close(r, 0.0, "perfect-rotation", atol=1e-6)
        ctx.close(t, 0.0, "perfect-translation")
        if R.room_scale(gts, gts) > 0:
            ctx.close(ev.perceptual_score(), 1.0, "perfect-perceptual")
    # only ground truth is missed / only detections are extra
    none, _, _ = evaluate(ctx, rng, track, [], gts, s)
    ctx.close(none.shape_score(), 0.0, "nothing-submitted")
    ctx.check(none.pose_error() == (math.inf, math.inf), "nothing-matched-pose", got=none.pose_error())
    want = R.perceptual([], gts, [{}] * len(s["thresholds"]), s["perceptual"])
    ctx.close(none.perceptual_score(), want, "nothing-submitted-perceptual")
    ctx.count("perfect")


# -- C19 -----------------------------------------------------------------------------

def ranked(rng):
    n = int(gen.pick(rng, [0, 1, 2, 3, 5, 10, 40, 200]))
    m = (rng.uniform(size=n) < gen.pick(rng, [0, 0.2, 0.5, 0.9, 1])).astype(int)
    s = rng.permutation(n) / max(n, 1) + gen.pick(rng, [0.0, -0.5]) if rng.integers(2) else rng.normal(size=n)
    if rng.integers(4) == 0:  # neighbours in double precision
        s = 0.75 + rng.permutation(n) * gen.pick(rng, [2.0 ** -52, 1e-12, 1e-9])
    n_gt = int(m.sum()) + int(gen.pick(rng, [0, 0, 1, 3, 50]))
    m = m * gen.pick(rng, [1, 1, 7])
    return m.astype(gen.pick(rng, [int, float])), np.asarray(s, float), max(n_gt, 1)


@scenario(quick=2500)
def average_precision(rng, ctx):
    m, s, n_gt = ranked(rng)
    ctx.case(m, s, n_gt, trivial=len(m) == 0)
    keep = m.copy(), s.copy()
    a, p, r = utils.compute_ap(det_matches=m, det_scores=s, n_gt=n_gt)
    ctx.check(np.array_equal(m, keep[0]) and np.array_equal(s, keep[1]), "arguments-changed")
    ctx.close(a, R.ap(m, s, n_gt), "area", matches=m, scores=s, n_gt=n_gt)
    ctx.check(-1e-12 <= a <= 1 + 1e-12, "range", got=a)
    q = rng.permutation(len(m))
    b = utils.compute_ap(m[q], s[q], n_gt)[0]
    ctx.close(b, a, "order-of-detections", rtol=1e-12, atol=1e-15)
    b = utils.compute_ap(m, 4 * s, n_gt, recall_samples=np.linspace(0, 1, 11), interp=True)[0]
    ctx.close(b, a, "only-the-ranking-counts", rtol=1e-12, atol=1e-15)
    pts = R.pr_curve(m, s, n_gt)
    ctx.check(len(p) == len(r) == len(pts), "curve-length", got=(len(p), len(r)), expected=len(pts))
    for k, (rk, _) in enumerate(pts):
        ctx.close(r[k], rk, "curve-recall")
        ctx.close(p[k], max(x for _, x in pts[k:]), "curve-precision")


@scenario(quick=1500)
def sampled_precision(rng, ctx):
    m, s, n_gt = ranked(rng)
    samples = gen.pick(rng, [np.linspace(0, 1, 11), np.linspace(0, 1, int(rng.integers(1, 60))),
                             np.sort(rng.uniform(0, 1, size=int(rng.integers(1, 20)))), np.array([0.0, 1.0])])
    interp = bool(rng.integers(2))
    ctx.case(m, s, n_gt, samples, interp)
    pts = R.pr_curve(m, s, n_gt)
    a, p, r = utils.compute_ap(m, s, n_gt, recall_samples=samples, interp=interp, area_under_curve=False)
    ctx.check(len(p) == len(samples) and np.array_equal(r, samples), "sampled-at", got=r, expected=samples)
    ctx.close(a, np.mean(p), "mean-of-samples")
    for x, got in zip(samples, p):
        if any(0 < abs(q - x) < 1e-12 for q, _ in pts):
            continue  # decided by rounding
        at = [k for k, (q, _) in enumerate(pts) if q >= x]
        want = 0.0 if not at else (max(pts[k][1] for k in at) if interp else pts[at[0]][1])
        ctx.close(got, want, "precision-at-recall", recall=x, interp=interp, matches=m, n_gt=n_gt)
        ctx.count("samples")
    p, r = utils.compute_pr(m, s, n_gt, interp=interp)
    for k, (rk, pk) in enumerate(pts):
        ctx.close(r[k], rk, "curve-recall")
        ctx.close(p[k], max(x for _, x in pts[k:]) if interp else pk, "curve-precision", interp=interp)
    if len(m):
        ctx.check(np.mean(p) <= 1 + 1e-12 and np.min(p) >= 0, "range")


@scenario(quick=260)
def shape_and_semantics(rng, ctx):
    track, dets, gts, sim, s, ts, every = prepared(rng, ctx)
    combos = single(every, 64)
    by = {c: single([R.associations([x for x in dets if x["category"] == c], [x for x in gts if x["category"] == c],
                                    sim, t) for t in ts], 64) for c in s["categories"]}
    ev, _, _ = evaluate(ctx, rng, track, dets, gts, s)
    got = ev.shape_score(), ev.semantics_score()
    if combos is not None and any(g["evaluated"] for g in gts):
        one_of(ctx, got[0], [R.shape_score(dets, gts, c) for c in combos], "shape-score", track=track, thresholds=ts)
        ctx.check(0 <= got[0] <= 1 + 1e-12, "range")
        ctx.count("shape_scores")
    n = 1
    for v in by.values():
        n *= 65 if v is None else len(v)
    if n <= 64:
        wants = [R.semantics_score(dets, gts, s["categories"], dict(zip(by, c)))
                 for c in itertools.product(*by.values())]
        one_of(ctx, got[1], wants, "semantics-score", track=track, thresholds=ts)
        ctx.count("semantics_scores")
    # listing order and unevaluated, unmatched objects make no difference
    if combos is not None and len(combos) == 1 and n == 1:
        d2, g2 = list(rng.permutation(np.array(dets, object))), list(rng.permutation(np.array(gts, object)))
        if track == "bounding_box":
            far = None
        else:
            far = dict(gts[0], id="far", evaluated=False, t=gts[0]["t"] + 50, points=gts[0]["points"])
            g2 = g2 + [far]
        ev2, _, _ = evaluate(ctx, rng, track, d2, g2, s)
        ctx.close(ev2.shape_score(), got[0], "order-of-objects-shape", rtol=1e-12, atol=1e-15)
        ctx.close(ev2.semantics_score(), got[1], "order-of-objects-semantics", rtol=1e-12, atol=1e-15)


# -- C20 -----------------------------------------------------------------------------

@scenario(quick=900, allow=())
def rotation_under_symmetry(rng, ctx):
    """One object; detection at a rotation equivalent to, near, or away from ground truth."""
    kinds = P.VALID[ctx.index % len(P.VALID)]
    g = E.attributes(rng, "g", set())
    d = E.attributes(rng, "d", set())
    g["symmetry"], g["evaluated"] = kinds, True
    d["symmetry"] = gen.pick(rng, P.VALID)
    group, cyl = R.symmetry_group(kinds)
    k = rng.integers(4)
    e = gen.pick(rng, group) if group is not None else gen.rotation(rng)
    if cyl is not None:
        e = e.dot(R.axis_rotation(cyl, rng.uniform(-7, 7)))
    if k == 0:  # equivalent pose
        d["R"] = g["R"].dot(e)
    elif k == 1:  # a little off an equivalent pose
        d["R"] = g["R"].dot(e).dot(gen.ref_axis_angle(gen.axis(rng), 10.0 ** rng.uniform(-4, 0)))
    elif k == 2:
        d["R"] = g["R"].dot(gen.ref_axis_angle(np.eye(3)[rng.integers(3)], gen.angle(rng)))
    d["R"] = np.ascontiguousarray(d["R"])
    ctx.case(kinds, d["R"], g["R"])
    track = "bounding_box"
    d["lo"] = g["lo"] = np.array([-1.0, -1, -1])
    d["hi"] = g["hi"] = np.array([1.0, 1, 1])
    s = E.Evaluator.default_settings()
    s["thresholds"] = [0.0]  # whatever overlaps or not is matched
    ev, sub, gt = evaluate(ctx, rng, track, [d], [g], s)
    rot, trans = ev.pose_error()
    want = R.rotation_error(d, g)
    ctx.check(np.isreal(rot) and 0 <= rot <= math.pi + 1e-6, "rotation-range", got=rot)
    ctx.close(rot, want, "rotation-error", atol=2e-6, symmetry=kinds, det=d["R"], gt=g["R"])
    if k == 0 or group is None:
        ctx.close(rot, 0.0, "equivalent-pose-has-no-error", atol=2e-6, symmetry=kinds)
        ctx.count("equivalent")
    ctx.close(trans, np.linalg.norm(d["t"] - g["t"]), "translation-error", rtol=1e-12, atol=1e-12)
    ctx.count("sym_" + "_".join(sorted(kinds)))
    one = ev.rotation_error_1(sub.elements["d"], gt.elements["g"])
    ctx.close(one, rot, "single-object-error", atol=1e-9)


@scenario(quick=260)
def pose_errors_of_scenes(rng, ctx):
    track, dets, gts, sim, s, ts, every = prepared(rng, ctx)
    combos = single(every, 16)
    if combos is None:
        ctx.case("too ambiguous", trivial=True)
        return
    ev, _, _ = evaluate(ctx, rng, track, dets, gts, s)
    got = ev.pose_error()
    one_of(ctx, got, [R.pose_errors(dets, gts, c) for c in combos], "scene-pose-errors", atol=1e-6, track=track,
           thresholds=ts)
    ctx.check(len(got) == 2, "two-errors")
    ctx.count("unmatched" if got[0] == math.inf else "matched")


# -- C22 -----------------------------------------------------------------------------

@scenario(quick=500)
def perceptual_scores(rng, ctx):
    track, dets, gts, sim, s, ts, every = prepared(rng, ctx)
    if rng.integers(2):  # make positive scores likely: room for floors, small volumes
        for o in dets + gts:
            if track != "bounding_box":
                o["hi"] = o["lo"] + 0.3 * (o["hi"] - o["lo"])
        gts[0]["category"] = "floor"
        gts[0]["evaluated"] = True
        dets[0]["category"] = "floor"
        if rng.integers(2) and track != "bounding_box":
            a = gts[0]["hi"] - gts[0]["lo"]
            dets[0]["lo"], dets[0]["hi"] = gts[0]["lo"] + 1, gts[0]["lo"] + 1 + a * rng.uniform(0.8, 1.2, size=3)
    combos = single(every, 64)
    if combos is None:
        ctx.case("too ambiguous", trivial=True)
        return
    ev, _, _ = evaluate(ctx, rng, track, dets, gts, s)
    got = ev.perceptual_score()
    # volumes come from the boxes that the objects have
    one_of(ctx, got, [R.perceptual(dets, gts, c, s["perceptual"]) for c in combos], "perceptual-score", rtol=1e-7,
           track=track, thresholds=ts, room_scale=R.room_scale(dets, gts))
    ctx.check(0 <= got <= 1 + 1e-12, "range", got=got)
    ctx.count("positive" if got > 0 else "zero")
    ctx.count("with_floor", R.room_scale(dets, gts) > 0)
    # unevaluated objects far away change nothing
    if track != "bounding_box" and len(combos) == 1:
        far = dict(gts[0], id="far", evaluated=False, t=gts[0]["t"] + 50, category="chair")
        ev2, _, _ = evaluate(ctx, rng, track, dets, gts + [far], s)
        ctx.close(ev2.perceptual_score(), got, "unevaluated-object-counts", rtol=1e-12, atol=1e-15)

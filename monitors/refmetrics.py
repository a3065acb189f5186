"""Evaluation metrics from their documented definitions (no sumo code).

Objects are dicts: id, score, category, evaluated, R, t, symmetry (three kind names), lo, hi (bounds).
A similarity is a dict {(det id, gt id): value}.
"""
import itertools
import math
import numpy as np
import gen


# -- association -----------------------------------------------------------------------

def orders(dets, limit):
    """Every order of decreasing score (equal scores in any order)."""
    groups = {}
    for d in dets:
        groups.setdefault(float(d["score"]), []).append(d)
    n = 1
    for g in groups.values():
        n *= math.factorial(len(g))
    if n > limit:
        return None
    ps = [list(itertools.permutations(groups[s])) for s in sorted(groups, reverse=True)]
    return [[d for g in c for d in g] for c in itertools.product(*ps)]


def associations(dets, gts, sim, t, limit=64):
    """Every correspondence {det id: gt id} the greedy rule allows, or None if too many."""
    out = set()
    os = orders(dets, limit)
    if os is None:
        return None
    for order in os:
        todo = [({}, 0)]
        while todo:
            a, k = todo.pop()
            if k == len(order):
                out.add(frozenset(a.items()))
                if len(out) > limit:
                    return None
                continue
            d = order[k]["id"]
            used = set(a.values())
            free = [(sim[d, g["id"]], g["id"]) for g in gts if g["id"] not in used and sim[d, g["id"]] >= t]
            if not free:
                todo.append((a, k + 1))
                continue
            best = max(free)[0]
            for s, g in free:
                if s == best:
                    b = dict(a)
                    b[d] = g
                    todo.append((b, k + 1))
                    if len(todo) > 4 * limit:
                        return None
    return [dict(x) for x in out]


# -- average precision -----------------------------------------------------------------

def pr_curve(matches, scores, n_gt):
    """[(recall, precision)] after each detection in order of decreasing score."""
    out, tp = [], 0
    for k, (s, m) in enumerate(sorted(zip(scores, matches), key=lambda x: -x[0])):
        tp += 1 if m else 0
        out.append((tp / n_gt, tp / (k + 1)))
    return out


def ap(matches, scores, n_gt):
    """Area under the interpolated curve p(r) = max precision at recall >= r."""
    pts = pr_curve(matches, scores, n_gt)
    total, prev = 0.0, 0.0
    for r in sorted({r for r, _ in pts}):
        total += (r - prev) * max(p for q, p in pts if q >= r)
        prev = r
    return total


def detections(dets, gts, assoc):
    """(matches, scores): unmatched 0, matched to an evaluated object 1, to another one left out."""
    ev = {g["id"]: g["evaluated"] for g in gts}
    m, s = [], []
    for d in dets:
        if d["id"] in assoc:
            if ev[assoc[d["id"]]]:
                m.append(1)
                s.append(d["score"])
        else:
            m.append(0)
            s.append(d["score"])
    return m, s


def shape_score(dets, gts, assocs):
    n = sum(1 for g in gts if g["evaluated"])
    return float(np.mean([ap(*detections(dets, gts, a), n_gt=n) for a in assocs])) if n else float("nan")


def semantics_score(dets, gts, cats, assocs_by_cat):
    """<assocs_by_cat>: {category: [association per threshold]}."""
    aps = []
    for c in cats:
        d = [x for x in dets if x["category"] == c]
        g = [x for x in gts if x["category"] == c]
        n = sum(1 for x in g if x["evaluated"])
        if n:
            aps += [ap(*detections(d, g, a), n_gt=n) for a in assocs_by_cat[c]]
    return float(np.mean(aps)) if aps else float("nan")


# -- pose ------------------------------------------------------------------------------

def axis_rotation(k, a):
    d = np.zeros(3)
    d[k] = 1.0
    return gen.ref_axis_angle(d, a)


def symmetry_group(kinds):
    """(finite group elements, continuous axis or None); None for spherical."""
    if "spherical" in kinds:
        return None, None
    gens, cyl = [], None
    for k, kind in enumerate(kinds):
        if kind == "twoFold":
            gens.append(axis_rotation(k, math.pi))
        elif kind == "fourFold":
            gens.append(axis_rotation(k, math.pi / 2))
        elif kind == "cylindrical":
            cyl = k
    gens = [np.round(g) for g in gens]
    group, todo = [np.eye(3)], [np.eye(3)]
    while todo:
        x = todo.pop()
        for g in gens:
            y = x.dot(g)
            if not any(np.array_equal(y, z) for z in group):
                group.append(y)
                todo.append(y)
    return group, cyl


def rotation_error(det, gt):
    group, cyl = symmetry_group(gt["symmetry"])
    if group is None:
        return 0.0
    best = math.inf
    for g in group:
        f = lambda a: gen.geodesic(det["R"], gt["R"].dot(g).dot(axis_rotation(cyl, a)))  # noqa: E731
        if cyl is None:
            best = min(best, gen.geodesic(det["R"], gt["R"].dot(g)))
            continue
        # the angle is unimodal along the circle: scan, then ternary search
        n = 24
        v = [f(2 * math.pi * k / n) for k in range(n)]
        k = int(np.argmin(v))
        lo, hi = 2 * math.pi * (k - 1) / n, 2 * math.pi * (k + 1) / n
        for _ in range(60):
            a, b = lo + (hi - lo) / 3, hi - (hi - lo) / 3
            if f(a) <= f(b):
                hi = b
            else:
                lo = a
        best = min(best, f((lo + hi) / 2), min(v))
    return best


def pose_errors(dets, gts, assocs, rotation=True):
    """(rotation, translation), means over thresholds with a match of means over evaluated matches."""
    D, G = {d["id"]: d for d in dets}, {g["id"]: g for g in gts}
    r, t = [], []
    for a in assocs:
        pairs = [(D[d], G[g]) for d, g in a.items() if G[g]["evaluated"]]
        if pairs:
            r.append(np.mean([rotation_error(d, g) if rotation else 0.0 for d, g in pairs]))
            t.append(np.mean([np.linalg.norm(d["t"] - g["t"]) for d, g in pairs]))
    return (float(np.mean(r)), float(np.mean(t))) if r else (math.inf, math.inf)


# -- perceptual ------------------------------------------------------------------------

def volume(o):
    return float(np.prod(o["hi"] - o["lo"]))


def floor_area(os):
    return sum((o["hi"][0] - o["lo"][0]) * (o["hi"][2] - o["lo"][2]) for o in os)


def room_scale(dets, gts):
    g = floor_area([o for o in gts if o["category"] == "floor" and o["evaluated"]])
    return floor_area([o for o in dets if o["category"] == "floor"]) / g if g > 0 else 0.0


def bell(p, x):
    return p["weight"] * math.exp(-((x - p["mean"]) / p["std_dev"]) ** 2 / 2)


def perceptual_1(dets, gts, assoc, p):
    D, G = {d["id"]: d for d in dets}, {g["id"]: g for g in gts}
    rs = room_scale(dets, gts)
    s, top = bell(p["room_scale"], rs), p["room_scale"]["weight"]
    for d, g in assoc.items():
        d, g = D[d], G[g]
        if not g["evaluated"]:
            continue
        if volume(g) > 0:
            s += bell(p["true_obj_scale"], volume(d) / volume(g))
            top += p["true_obj_scale"]["weight"]
        if volume(g) * rs > 0:
            s += bell(p["relative_obj_scale"], volume(d) / (volume(g) * rs))
            top += p["relative_obj_scale"]["weight"]
        s += bell(p["translation"], math.hypot(d["t"][0] - g["t"][0], d["t"][2] - g["t"][2]))
        s += bell(p["elevation"], d["t"][1] - g["t"][1])
        top += p["translation"]["weight"] + p["elevation"]["weight"]
    s -= p["missed_weight"] * sum(volume(g) for g in gts if g["evaluated"] and g["id"] not in assoc.values())
    s -= p["extra_weight"] * sum(volume(d) for d in dets if d["id"] not in assoc)
    return max(0.0, s / top) if s > 0 else 0.0


def perceptual(dets, gts, assocs, p):
    return float(np.mean([perceptual_1(dets, gts, a, p) for a in assocs]))


# -- point sets ------------------------------------------------------------------------

def nearest(a, b):
    """Distance from each of a to the closest of b and the set of closest ones' indices."""
    d = np.sqrt(((a[:, None, :] - b[None, :, :]) ** 2).sum(axis=2))
    return d.min(axis=1), d.argmin(axis=1), d


def iou(a, b, thresh):
    """Share of points with a neighbour in the other set within <thresh>; and the distance to undecided."""
    if len(a) + len(b) == 0:
        return 0.0, math.inf
    if len(a) == 0 or len(b) == 0:
        return 0.0, math.inf
    x, y = nearest(a, b)[0], nearest(b, a)[0]
    z = np.concatenate([x, y])
    return float(np.sum(z <= thresh)) / (len(a) + len(b)), float(np.min(np.abs(z - thresh)))


def rms_distance(a, b):
    if len(a) == 0 or len(b) == 0:
        return 0.0
    z = np.concatenate([nearest(a, b)[0], nearest(b, a)[0]])
    return float(np.sqrt(np.mean(z ** 2)))


def rms_color(a, b):
    """a, b: n x 6.  None when a nearest neighbour is not unique."""
    if len(a) == 0 or len(b) == 0:
        return 0.0
    z = []
    for p, q in ((a, b), (b, a)):
        _, i, d = nearest(p[:, :3], q[:, :3])
        s = np.sort(d, axis=1)
        if d.shape[1] > 1 and np.any((s[:, 1] - s[:, 0]) < 1e-9):
            return None
        z.append(((p[:, 3:6] - q[i, 3:6]) ** 2).sum(axis=1))
    return float(np.sqrt(np.mean(np.concatenate(z))))

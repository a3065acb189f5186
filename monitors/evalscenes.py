"""Pairs of scenes with known similarities, for every track.

The world has sites a metre apart; an object occupies a set of sites (points within 0.07 m of the
site), so with the default 15 cm threshold the similarity of two objects is 2 |A and B| / (|A| + |B|)
exactly, whatever their poses.  In the bounding box track an object is a box around one site, all
of them turned alike (see the finding on box similarity), so the similarity is 1 or 0.
"""
import math
import numpy as np
import gen
import projects as P

from sumo.metrics.bb_evaluator import BBEvaluator
from sumo.metrics.mesh_evaluator import MeshEvaluator
from sumo.metrics.voxel_evaluator import VoxelEvaluator
from sumo.metrics.evaluator import Evaluator
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.voxel_grid import VoxelGrid

EVALUATORS = {"bounding_box": BBEvaluator, "voxels": VoxelEvaluator, "meshes": MeshEvaluator}
SITES = np.array([(x, y, z) for x in range(3) for y in range(2) for z in range(2)], float) * 1.0
HALF = np.array([0.3, 0.2, 0.1])
CATS = ["chair", "floor", "ATM", "Table Lamp", "martian"]


def shape_points(rng, sites, R, t):
    """Local points (n x 3) that are near <sites> in the world."""
    w = SITES[sites] + rng.uniform(-0.02, 0.02, size=(len(sites), 3))
    return (w - t).dot(R)


def make(track, o):
    pose = Pose3(R=Rot3(o["R"]), t=np.array(o["t"]))
    kw = dict(id=o["id"], pose=pose, category=o["category"], symmetry=P.sym(o["symmetry"]),
              score=o["score"], evaluated=o["evaluated"], bounds=Box3d(o["lo"].copy(), o["hi"].copy()))
    if track == "bounding_box":
        return ProjectObject.gen_bounding_box_object(**kw)
    if track == "voxels":
        p = o["points"]
        corner = p.min(axis=0) - 0.005
        return ProjectObject.gen_voxels_object(voxels=VoxelGrid(0.02, corner, p), **kw)
    m = GltfModel()
    p = o["points"]
    parts = np.array_split(np.arange(len(p)), o["parts"])
    for part in parts:
        if len(part) == 0:
            continue
        v = np.repeat(p[part], 3, axis=0)
        v[1::3, 0] += 1e-3
        v[2::3, 1] += 1e-3
        v = np.ascontiguousarray(v.T).astype(np.float32)
        i = np.arange(v.shape[1], dtype=np.uint32)
        n = np.zeros_like(v)
        if o["textured"]:
            m.add_mesh(TexturedMesh(i, v, n, np.zeros((2, v.shape[1]), np.float32),
                                    np.full((2, 2, 3), o["parts"], np.uint8), np.zeros((0, 0, 3), np.uint8)))
        else:
            m.add_mesh(Mesh(i, v, n))
    return ProjectObject.gen_meshes_object(meshes=m, **kw)


def attributes(rng, id, distinct):
    while True:
        s = float(gen.pick(rng, [0.0, 0.25, 0.5, 1.0, -1.0])) if rng.integers(6) == 0 else float(rng.uniform())
        if distinct and rng.integers(6) == 0:  # next to another one
            s = float(gen.pick(rng, sorted(distinct))) + gen.pick(rng, [1e-15, 1e-9, -1e-9, -1e-12])
        if s not in distinct:
            break
    distinct.add(s)
    a = np.abs(rng.normal(size=3)) * gen.pick(rng, [0.05, 0.3, 1.0])
    if rng.integers(12) == 0:
        a[rng.integers(3)] = 0.0
    lo = rng.normal(size=3)
    return dict(id=id, score=s, category=gen.pick(rng, CATS[:int(rng.integers(1, 6))]),
                evaluated=bool(rng.integers(4)), symmetry=gen.pick(rng, P.VALID),
                R=np.ascontiguousarray(gen.rotation(rng)), t=rng.normal(size=3) * gen.pick(rng, [0.1, 1.0, 5.0]),
                lo=lo, hi=lo + a, parts=int(rng.integers(1, 4)), textured=bool(rng.integers(2)))


def occupy(rng, track, o, sites):
    o["sites"] = frozenset(int(s) for s in sites)
    if track == "bounding_box":
        c = (SITES[sites[0]] - o["t"]).dot(o["R"])
        o["lo"], o["hi"] = c - HALF, c + HALF
    else:
        o["points"] = shape_points(rng, list(sites), o["R"], o["t"])


def similarity(a, b):
    return 2.0 * len(a["sites"] & b["sites"]) / (len(a["sites"]) + len(b["sites"]))


def pair(rng, track=None, ties=False, nd=None, ng=None):
    """(track, detections, ground truths, similarities) as plain data."""
    track = track or gen.pick(rng, P.TRACKS)
    nd = int(gen.pick(rng, [1, 2, 3, 4, 5, 7])) if nd is None else nd
    ng = int(gen.pick(rng, [1, 2, 3, 4, 5, 6])) if ng is None else ng
    scores = set()
    ids = ["o%d" % k for k in range(max(nd, ng))] if rng.integers(2) else None
    gts = [attributes(rng, ids[k] if ids else "g%d" % k, set()) for k in range(ng)]
    dets = [attributes(rng, ids[k] if ids else "d%d" % k, set() if ties else scores) for k in range(nd)]
    dense = rng.integers(2)
    common = gen.rotation(rng)
    for o in gts + dets:
        if track == "bounding_box":
            o["R"] = common
        n = 1 if track == "bounding_box" else int(rng.integers(1, len(SITES) + 1))
        pool = len(SITES) if not dense or track != "bounding_box" else 3
        occupy(rng, track, o, rng.permutation(pool)[:n])
    for d in dets:  # about half are perturbed copies of some ground truth
        if rng.integers(2):
            g = gen.pick(rng, gts)
            k = rng.integers(3)
            if k:
                d["category"] = g["category"]
            if k > 1:
                d["symmetry"] = g["symmetry"]
            if track != "bounding_box":
                s = set(g["sites"])
                if rng.integers(2):
                    s ^= {int(rng.integers(len(SITES)))}
                if s:
                    d["t"] = g["t"] + rng.normal(size=3) * gen.pick(rng, [0, 1e-3, 0.3])
                    d["R"] = g["R"]
                    d["lo"], d["hi"] = g["lo"], g["lo"] + (g["hi"] - g["lo"]) * (1 + 0.1 * rng.normal())
                    d["hi"] = np.maximum(d["lo"], d["hi"])
                    occupy(rng, track, d, sorted(s))
            else:
                occupy(rng, track, d, sorted(g["sites"]))
    sim = {(d["id"], g["id"]): similarity(d, g) for d in dets for g in gts}
    return track, dets, gts, sim


def scene(track, objs):
    els = ProjectObjectDict()
    for o in objs:
        els[o["id"]] = make(track, o)
    return ProjectScene(track, els)


def settings(rng, sim, n=None):
    """Evaluation settings in which no threshold is near, but not at, a similarity."""
    s = Evaluator.default_settings()
    vals = sorted({v for v in sim.values() if v > 0})
    if n is None:
        n = int(gen.pick(rng, [1, 1, 2, 3, 6]))
    ts = []
    while len(ts) < n:
        t = float(rng.uniform(0.02, 0.98))
        if vals and rng.integers(3) == 0:
            t = float(gen.pick(rng, vals))
        if t not in ts and all(t == v or abs(t - v) > 1e-6 for v in vals):
            ts.append(t)
    s["thresholds"] = np.array(ts) if rng.integers(2) else list(ts)
    cats = [CATS[k] for k in rng.permutation(len(CATS)) if rng.integers(4)]
    s["categories"] = cats + gen.pick(rng, [[], ["unused"]])
    if rng.integers(2):
        for k in ("room_scale", "true_obj_scale", "relative_obj_scale", "translation", "elevation"):
            s["perceptual"][k] = dict(weight=float(rng.integers(1, 50)), mean=float(gen.pick(rng, [0, 1, 0.7])),
                                      std_dev=float(rng.uniform(0.1, 2)))
        s["perceptual"]["missed_weight"] = float(rng.integers(0, 30))
        s["perceptual"]["extra_weight"] = float(rng.integers(0, 30))
    return s


def exact(track, ts):
    """Box similarities are 0 or 1 up to rounding; a threshold of exactly 1 is not decidable."""
    return track != "bounding_box" or all(t < 0.999 for t in ts)

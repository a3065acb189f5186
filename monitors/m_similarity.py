"""C21: shape similarity and surface distances, measured through the public scores."""
import itertools
import math
import warnings
import numpy as np
from core import scenario
import evalscenes as E
import gen
import projects as P
import refmetrics as R
import shapes

import pymesh
import sumo.metrics.utils as utils
from sumo.metrics.mesh_evaluator import sample_element
from sumo.threedee.box_3d import Box3d
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh

warnings.simplefilter("ignore")


def scenes(track, a, b):
    return E.scene(track, [dict(a, id="a")]), E.scene(track, [dict(b, id="b", evaluated=True)])


def measure(track, sub, gt, settings=None, rounds=2, n=400):
    """The similarity of the only objects of two scenes, to n**-rounds: the share of thresholds it reaches."""
    lo, hi = 0.0, 1.0
    for _ in range(rounds):
        s = dict(settings or E.Evaluator.default_settings())
        edges = np.linspace(lo, hi, n + 1)
        s["thresholds"] = edges[1:] if lo == 0 else edges
        s["categories"] = []
        k = E.EVALUATORS[track](sub, gt, s).shape_score() * len(s["thresholds"])
        k = int(round(k)) + (1 if lo == 0 else 0)  # number of edges reached
        if k == 0:
            return lo
        if k == n + 1:
            return hi
        lo, hi = edges[k - 1], edges[k]
    return 0.5 * (lo + hi) if lo > 0 else 0.0


# -- boxes ---------------------------------------------------------------------------

def corners(o):
    c = np.array([[(o["lo"], o["hi"])[(k >> a) & 1][a] for a in range(3)] for k in range(8)])
    return c.dot(o["R"].T) + o["t"]


BOX_FACES = np.array([t for a, b, c, d in [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2),
                                           (1, 3, 7, 5)] for t in ((a, b, c), (a, c, d))])


def clip(poly, n, d):
    out = []
    for p, q in zip(poly, poly[1:] + poly[:1]):
        a, b = p.dot(n) - d, q.dot(n) - d
        if a <= 0:
            out.append(p)
        if (a < 0 < b) or (b < 0 < a):
            out.append(p + (q - p) * (a / (a - b)))
    return out


def planes(o):
    out = []
    for k in range(3):
        ax = o["R"][:, k]
        out += [(ax, ax.dot(o["t"]) + o["hi"][k]), (-ax, -ax.dot(o["t"]) - o["lo"][k])]
    return out


def intersection_volume(a, b):
    """Of two oriented boxes: sum over both boxes' faces, clipped by the other box, of cone volumes."""
    origin = 0.5 * (corners(a).mean(axis=0) + corners(b).mean(axis=0))
    vol = 0.0
    quads = [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5)]
    # shrunk a little, so that shared faces are counted once
    e = 1e-9 * (a["hi"] - a["lo"])
    a = dict(a, lo=a["lo"] + e, hi=a["hi"] - e)
    for x, y in ((a, b), (b, a)):
        for q in quads:
            poly = [corners(x)[i] for i in q]
            for n, d in planes(y):
                if len(poly) < 3:
                    break
                poly = clip(poly, n, d)
            for k in range(1, len(poly) - 1):
                u, v, w = poly[0] - origin, poly[k] - origin, poly[k + 1] - origin
                vol += u.dot(np.cross(v, w)) / 6
    return abs(vol)


def true_iou(a, b):
    i = intersection_volume(a, b)
    u = R.volume(a) + R.volume(b) - i
    return i / u if u > 0 else 0.0


def twisted(o):
    """The recorded finding: the mesh of a box with its last four corners taken one step further."""
    lo, hi = o["lo"], o["hi"]
    c = np.array([[lo[0], lo[1], hi[2]], [hi[0], lo[1], hi[2]], [hi[0], hi[1], hi[2]], [lo[0], hi[1], hi[2]],
                  [lo[0], lo[1], lo[2]], [hi[0], lo[1], lo[2]], [hi[0], hi[1], lo[2]], [lo[0], hi[1], lo[2]]])
    f = [[0, 1, 2], [0, 2, 3], [3, 2, 7], [3, 7, 4], [4, 7, 6], [4, 6, 5], [5, 6, 1], [5, 1, 0],
         [0, 3, 4], [0, 4, 5], [1, 6, 7], [1, 7, 2]]
    return c.dot(o["R"].T) + o["t"], np.array(f)


def mesh_iou(a, b):
    m1, m2 = pymesh.form_mesh(*a), pymesh.form_mesh(*b)
    i = abs(pymesh.boolean(m1, m2, operation="intersection").volume)
    u = abs(m1.volume) + abs(m2.volume) - i
    return i / u if u > 0 else 0.0


def two_boxes(rng):
    a, b = E.attributes(rng, "a", set()), E.attributes(rng, "b", set())
    a["t"] = rng.normal(size=3)
    a["lo"] = rng.normal(size=3) * 0.3
    a["hi"] = a["lo"] + rng.uniform(0.2, 1.5, size=3)
    k = int(rng.integers(7))
    size = a["hi"] - a["lo"]
    b.update(R=a["R"], t=a["t"].copy(), lo=a["lo"].copy(), hi=a["hi"].copy())
    if k == 1:  # shifted along an axis of the box
        b["lo"] = a["lo"] + size * rng.uniform(-1.2, 1.2, size=3) * (rng.integers(2, size=3))
        b["hi"] = b["lo"] + size
    elif k == 2:  # nested
        b["lo"] = a["lo"] + size * rng.uniform(0, 0.4, size=3)
        b["hi"] = a["hi"] - size * rng.uniform(0, 0.4, size=3)
    elif k == 3:  # the same world box seen from another frame
        q = np.eye(3)[rng.permutation(3)] * rng.choice([-1.0, 1.0], size=3)[:, None]
        q = q if np.linalg.det(q) > 0 else -q
        b["R"] = a["R"].dot(q)
        c = np.stack([a["lo"], a["hi"]]).dot(q)
        b["lo"], b["hi"] = c.min(axis=0), c.max(axis=0)
    elif k == 4:  # any pose nearby
        b["R"] = gen.rotation(rng)
        b["t"] = a["t"] + rng.normal(size=3) * 0.3
    elif k == 5:  # far away
        b["t"] = a["t"] + gen.axis(rng) * rng.uniform(5, 20)
    elif k == 6:  # touching
        ax = rng.integers(3)
        s = np.zeros(3)
        s[ax] = size[ax] * gen.pick(rng, [-1.0, 1.0])
        b["lo"], b["hi"] = a["lo"] + s, a["hi"] + s
    return ["same", "shifted", "nested", "other_frame", "turned", "far", "touching"][k], a, b


@scenario(quick=50)
def flat_boxes(rng, ctx):
    """Boxes of no thickness (a rug, a mirror) have a similarity too: finite, within 0 and 1, 0 with a solid or far one."""
    kind, a, b = two_boxes(rng)
    both = bool(rng.integers(2))
    for o in (a, b) if both else (a,):
        ax = rng.integers(3, size=int(rng.integers(1, 4)))
        o["hi"] = o["hi"].copy()
        o["hi"][ax] = o["lo"][ax]
    a, b = dict(a, R=np.ascontiguousarray(a["R"])), dict(b, R=np.ascontiguousarray(b["R"]))
    ctx.case(kind, both, [a[k] for k in ("R", "t", "lo", "hi")], [b[k] for k in ("R", "t", "lo", "hi")])
    got = measure("bounding_box", *scenes("bounding_box", a, b))
    ctx.check(np.isfinite(got) and 0 <= got <= 1, "flat-box-similarity-range", got=got, both=both)
    if kind == "far" or not both:
        ctx.check(got <= 1e-4, "flat-box-similarity", kind=kind, got=got, both=both)
    ctx.count("flat_boxes")


@scenario(quick=170)
def boxes(rng, ctx):
    kind, a, b = two_boxes(rng)
    if rng.integers(2):
        a, b = b, a
    a, b = dict(a, R=np.ascontiguousarray(a["R"])), dict(b, R=np.ascontiguousarray(b["R"]))
    ctx.case(kind, [a[k] for k in ("R", "t", "lo", "hi")], [b[k] for k in ("R", "t", "lo", "hi")], sample=kind)
    ctx.count("boxes_" + kind)
    got = measure("bounding_box", *scenes("bounding_box", a, b))
    want = true_iou(a, b)
    ctx.check(0 <= got <= 1, "box-similarity-range", got=got)
    tol = 2e-5
    if abs(got - want) > tol:
        known = mesh_iou(twisted(a), twisted(b))
        ctx.check(abs(got - known) <= tol, "box-similarity", kind=kind, got=got, expected=want, twisted=known,
                  a=corners(a), b=corners(b))
        ctx.soft_check(False, "box-similarity-of-twisted-meshes", kind=kind, got=got, expected=want)
        ctx.count("twisted")
    else:
        ctx.count("box_exact")
    if kind == "same":
        ctx.check(got > 1 - 1e-4, "identical-boxes", got=got)
    if kind in ("far", "touching"):
        ctx.check(got < 1e-4, "disjoint-boxes", got=got)
    # symmetric, and unchanged when both move together
    back = measure("bounding_box", *scenes("bounding_box", b, a))
    ctx.close(back, got, "box-similarity-symmetric", atol=tol)
    M, m = gen.rotation(rng), rng.normal(size=3)
    moved = [dict(o, R=np.ascontiguousarray(M.dot(o["R"])), t=M.dot(o["t"]) + m) for o in (a, b)]
    ctx.close(measure("bounding_box", *scenes("bounding_box", *moved)), got, "box-similarity-moved", atol=tol)


# -- points --------------------------------------------------------------------------

def cloud(rng, n=None):
    n = int(gen.pick(rng, [0, 1, 2, 5, 20, 60])) if n is None else n
    k = rng.integers(3)
    if k == 0:
        return rng.normal(size=(n, 3)) * 0.3
    if k == 1:
        return np.round(rng.normal(size=(n, 3)), 1)
    return rng.uniform(0, 1, size=(n, 3)) * np.array([1.0, 0.01, 0.3])


def tight(p):
    return Box3d(p.min(axis=0), p.max(axis=0)) if len(p) else Box3d(np.zeros(3), np.zeros(3))


@scenario(quick=900)
def point_sets(rng, ctx):
    a, b = cloud(rng), cloud(rng)
    k = rng.integers(4)
    if k == 0 and len(a):
        b = a[rng.permutation(len(a))] + rng.normal(size=a.shape) * gen.pick(rng, [0, 0.01, 0.1])
    if k == 1:
        b = b + gen.axis(rng) * gen.pick(rng, [0.2, 1, 10])
    t = float(gen.pick(rng, [0.15, 0.05, 0.5, 1e-3, 2.0]))
    wide = rng.integers(2)
    a6, b6 = (np.hstack([p, rng.integers(0, 256, size=p.shape)]) if wide else p for p in (a, b))
    ctx.case(a, b, t, trivial=len(a) == 0 or len(b) == 0)
    want, margin = R.iou(a, b, t)
    if margin > 1e-9:
        keep = a6.copy(), b6.copy()
        got = utils.points_iou(a6, tight(a), b6, tight(b), t)
        ctx.check(np.array_equal(a6, keep[0]) and np.array_equal(b6, keep[1]), "arguments-changed")
        ctx.close(got, want, "points-iou", atol=1e-12, points1=a, points2=b, thresh=t)
        ctx.check(0 <= got <= 1, "points-iou-range", got=got)
        ctx.close(utils.points_iou(b6, tight(b), a6, tight(a), t), want, "points-iou-symmetric", atol=1e-12)
        ctx.count("iou_zero" if want == 0 else "iou_one" if want == 1 else "iou_between")
    i12, i21, d12, d21 = utils.nearest_neighbors(a, b)
    if len(a) == 0 or len(b) == 0:
        ctx.check(np.size(d12) == 0 and np.size(d21) == 0 and len(i12) == 0 and len(i21) == 0, "no-neighbours")
        return
    for p, q, i, d in ((a, b, i12, d12), (b, a, i21, d21)):
        ctx.check(np.shape(i) == (len(p),), "neighbour-shape", got=np.shape(i))
        ctx.close(np.ravel(d), R.nearest(p, q)[0], "neighbour-distance", atol=1e-9)
        ctx.close(np.linalg.norm(p - q[i], axis=1), R.nearest(p, q)[0], "neighbour-index", atol=1e-9)


def voxel_like(rng, o, p):
    """Object <o> whose world points are <p>."""
    o["points"] = (p - o["t"]).dot(o["R"])
    o["sites"] = frozenset()


def world(o, p):
    return p.dot(o["R"].T) + o["t"]


def two_objects(rng):
    a, b = E.attributes(rng, "a", set()), E.attributes(rng, "b", set())
    n = int(gen.pick(rng, [1, 2, 6, 20, 40]))
    p = rng.normal(size=(n, 3)) * gen.pick(rng, [0.05, 0.3, 1.0])
    k = rng.integers(4)
    if k == 0:
        q = p.copy()
    elif k == 1:
        q = p + gen.axis(rng) * gen.pick(rng, [0.05, 0.12, 0.18, 0.4])
    elif k == 2:
        q = p[rng.integers(n, size=int(rng.integers(1, 30)))] + rng.normal(size=3) * 0.05
    else:
        q = rng.normal(size=(int(rng.integers(1, 30)), 3)) * 0.3
    voxel_like(rng, a, p)
    voxel_like(rng, b, q)
    if rng.integers(3) == 0:  # the same frame
        b.update(R=a["R"], t=a["t"])
        voxel_like(rng, b, q)
    return a, b


@scenario(quick=170)
def voxel_objects(rng, ctx):
    a, b = two_objects(rng)
    ctx.case(a["points"], b["points"], a["R"], b["R"])
    sub, gt = scenes("voxels", a, b)
    pa = world(a, np.array(sub.elements["a"].voxels.voxel_centers(), float))
    pb = world(b, np.array(gt.elements["b"].voxels.voxel_centers(), float))
    s = E.Evaluator.default_settings()
    s["voxel_overlap_thresh"] = float(gen.pick(rng, [0.15, 0.15, 0.07, 0.4]))
    want, margin = R.iou(pa, pb, s["voxel_overlap_thresh"])
    if margin > 1e-9:
        got = measure("voxels", sub, gt, s)
        ctx.close(got, want, "voxel-similarity", atol=2e-5, thresh=s["voxel_overlap_thresh"])
        ctx.close(measure("voxels", *scenes("voxels", b, a), settings=s), got, "voxel-similarity-symmetric", atol=2e-5)
        ctx.count("voxel_pairs")
    s["thresholds"] = [0.0, 0.0]  # matched whatever the similarity
    ev = E.EVALUATORS["voxels"](sub, gt, s)
    ctx.close(ev.rms_points_error(), R.rms_distance(pa, pb), "voxel-rms", atol=1e-9, rtol=1e-9)
    s["thresholds"] = [2.0]  # never matched
    ev = E.EVALUATORS["voxels"](sub, gt, s)
    ctx.check(ev.rms_points_error() == math.inf, "unmatched-rms", got=ev.rms_points_error())
    ctx.check(ev.rms_color_error() == math.inf, "unmatched-rms-colour", got=ev.rms_color_error())


SIDE = 1e-5


def speck_model(rng, p):
    """A model of tiny triangles (one sample each) at points <p>, and the colour of each."""
    m, colors = GltfModel(), np.zeros((len(p), 3))
    parts = [x for x in np.array_split(rng.permutation(len(p)), int(rng.integers(1, 4))) if len(x)]
    for part in parts:
        v = np.repeat(p[part], 3, axis=0)
        v[1::3, 0] += SIDE
        v[2::3, 1] += SIDE
        v = np.ascontiguousarray(v.T).astype(np.float32)
        i = np.arange(v.shape[1], dtype=np.uint32)
        nrm = np.zeros_like(v)
        k = rng.integers(4)
        if k == 0:
            m.add_mesh(Mesh(i, v, nrm))
            colors[part] = 128
        elif k == 1:
            z = np.zeros((0, 0, 3), np.uint8)
            m.add_mesh(TexturedMesh(i, v, nrm, np.zeros((2, v.shape[1]), np.float32), z, z))
            colors[part] = 128
        else:
            h, w = int(rng.integers(1, 7)), int(rng.integers(1, 7))
            tex = gen.u8(rng, (h, w, 3))
            r, c = rng.integers(h, size=len(part)), rng.integers(w, size=len(part))
            wrap = rng.integers(-2, 3, size=(2, len(part)))
            uv = np.stack([(c + 0.5) / w, (r + 0.5) / h]) + wrap
            m.add_mesh(TexturedMesh(i, v, nrm, np.repeat(uv, 3, axis=1).astype(np.float32), tex,
                                    np.zeros((0, 0, 3), np.uint8)))
            colors[part] = tex[r, c]
    return m, colors


def mesh_object(rng, o):
    m, colors = speck_model(rng, o["points"])
    obj = P.ProjectObject.gen_meshes_object(
        meshes=m, id=o["id"], pose=E.Pose3(R=E.Rot3(o["R"]), t=o["t"].copy()), category=o["category"],
        symmetry=P.sym(o["symmetry"]), score=o["score"], evaluated=o["evaluated"], bounds=Box3d(o["lo"], o["hi"]))
    return obj, colors


@scenario(quick=170)
def mesh_objects(rng, ctx):
    a, b = two_objects(rng)
    a["id"], b["id"], b["evaluated"] = "a", "b", True
    ctx.case(a["points"], b["points"], a["R"], b["R"])
    np.random.seed(int(rng.integers(2 ** 31)))
    oa, ca = mesh_object(rng, a)
    ob, cb = mesh_object(rng, b)
    sub, gt = (E.ProjectScene("meshes", E.ProjectObjectDict()) for _ in range(2))
    sub.elements["a"], gt.elements["b"] = oa, ob
    pa, pb = (world(o, o["points"]) for o in (a, b))
    s = E.Evaluator.default_settings()
    s["mesh_overlap_thresh"] = float(gen.pick(rng, [0.15, 0.15, 0.07, 0.4]))
    want, margin = R.iou(pa, pb, s["mesh_overlap_thresh"])
    if margin > 1e-4:
        ctx.close(measure("meshes", sub, gt, s), want, "mesh-similarity", atol=2e-5)
        ctx.close(measure("meshes", gt_first(gt), gt_second(sub), s), want, "mesh-similarity-symmetric", atol=2e-5)
        ctx.count("mesh_pairs")
    s["thresholds"] = [0.0]
    ev = E.EVALUATORS["meshes"](sub, gt, s)
    ctx.close(ev.rms_points_error(), R.rms_distance(pa, pb), "mesh-rms", atol=1e-4)
    c = R.rms_color(np.hstack([pa, ca]), np.hstack([pb, cb]))
    if c is not None and unique_by(pa, pb, 1e-4) and unique_by(pb, pa, 1e-4):
        ctx.close(ev.rms_color_error(), c, "mesh-rms-colour", atol=1e-6, rtol=1e-6)
        ctx.count("colour_errors")


def gt_first(s):
    return s


def gt_second(s):
    for e in s.elements.values():
        e.evaluated = True
    return s


def unique_by(a, b, eps):
    d = np.sort(R.nearest(a, b)[2], axis=1)
    return d.shape[1] < 2 or bool(np.all(d[:, 1] - d[:, 0] > eps))


@scenario(quick=120)
def rms_over_matches(rng, ctx):
    """The mean over all matches and thresholds, on whole scenes."""
    track, dets, gts, sim = E.pair(rng, track=gen.pick(rng, ["voxels", "meshes"]))
    s = E.settings(rng, sim)
    ts = sorted(float(t) for t in s["thresholds"])
    every = [R.associations(dets, gts, sim, t) for t in ts]
    ctx.case(track, [o["points"] for o in dets + gts], ts)
    if any(e is None or len(e) != 1 for e in every):
        ctx.case("ambiguous", trivial=True)
        return
    np.random.seed(int(rng.integers(2 ** 31)))
    sub, gt = E.scene(track, dets), E.scene(track, gts)
    ev = E.EVALUATORS[track](sub, gt, s)
    pts = {}
    for side, objs, sc in (("d", dets, sub), ("g", gts, gt)):
        for o in objs:
            p = o["points"] if track == "meshes" else np.array(sc.elements[o["id"]].voxels.voxel_centers(), float)
            pts[side, o["id"]] = world(o, p)
    z = [R.rms_distance(pts["d", d], pts["g", g]) for e in every for d, g in e[0].items()]
    want = float(np.mean(z)) if z else math.inf
    ctx.close(ev.rms_points_error(), want, "scene-rms", atol=1e-9 if track == "voxels" else 3e-3)
    ctx.count("rms_terms", len(z))
    back = ev.rms_points_error()
    ctx.close(back, ev.rms_points_error(), "second-answer-differs", atol=0)


@scenario(quick=60)
def dense_surfaces(rng, ctx):
    """Real surfaces, sampled: the same surface is similar, one beyond the threshold is not."""
    o = E.attributes(rng, "a", set())
    o["t"] = rng.normal(size=3)
    size = rng.uniform(0.6, 1.5, size=3)
    i, v, n = shapes.cube_arrays(-size / 2, size / 2)
    np.random.seed(int(rng.integers(2 ** 31)))

    def obj(id, R_, t):
        m = GltfModel()
        m.add_mesh(Mesh(i, v, n))
        return P.ProjectObject.gen_meshes_object(meshes=m, id=id, pose=E.Pose3(R=E.Rot3(R_), t=np.array(t)),
                                                 score=0.5, bounds=Box3d(-size / 2, size / 2))
    k = rng.integers(3)
    shift = np.zeros(3)
    if k:
        shift = gen.axis(rng) * (np.linalg.norm(size) + gen.pick(rng, [0.2, 3.0]))
    ctx.case(size, o["R"], o["t"], shift)
    sub, gt = (E.ProjectScene("meshes", E.ProjectObjectDict()) for _ in range(2))
    sub.elements["a"] = obj("a", o["R"], o["t"])
    gt.elements["b"] = obj("b", o["R"], o["t"] + shift)
    got = measure("meshes", sub, gt, rounds=1)
    if k:
        ctx.check(got == 0, "separate-surfaces", got=got)
    else:
        ctx.check(got > 0.9, "same-surface", got=got)
    e = sub.elements["a"]
    s = sample_element(e, density=200)
    tris = v.T.astype(float)[i.reshape(-1, 3).astype(int)]
    local = (s[:, :3] - o["t"]).dot(o["R"])
    ctx.check(shapes.point_surface_distance(local, tris).max() < 1e-5, "samples-off-the-surface")
    ctx.check(np.allclose(s[:, 3:], 128, rtol=0, atol=1e-9), "untextured-colour")
    area = 0.5 * np.linalg.norm(np.cross(tris[:, 1] - tris[:, 0], tris[:, 2] - tris[:, 0]), axis=1)
    lo = np.maximum(1, np.floor(200 * area * (1 - 1e-5) - 1e-6)).sum()
    hi = np.maximum(1, np.floor(200 * area * (1 + 1e-5) + 1e-6)).sum()
    ctx.check(lo <= len(s) <= hi, "number-of-samples", got=len(s), expected=(lo, hi))
    ctx.count("dense")

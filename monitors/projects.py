"""Random project scenes of any track, and what is observable of them."""
import itertools
import numpy as np
import gen
import shapes

from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.semantic.object_symmetry import ObjectSymmetry, SymmetryType
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
from sumo.threedee.voxel_grid import VoxelGrid

TRACKS = ["bounding_box", "voxels", "meshes"]
KINDS = ["none", "twoFold", "fourFold", "cylindrical", "spherical"]


def rule(kinds):
    """Validity as the class documentation lists it, by counting."""
    k = sorted(kinds)
    return k in [sorted(x) for x in (
        ["none"] * 3,
        ["twoFold", "none", "none"], ["fourFold", "none", "none"],
        ["twoFold", "twoFold", "fourFold"], ["fourFold"] * 3, ["twoFold"] * 3,
        ["cylindrical", "none", "none"], ["cylindrical", "twoFold", "twoFold"],
        ["spherical"] * 3)]


VALID = [k for k in itertools.product(KINDS, repeat=3) if rule(k)]


def sym(kinds):
    return ObjectSymmetry(*[SymmetryType[k] for k in kinds])


def kinds_of(s):
    return (s.x_symmetry.name, s.y_symmetry.name, s.z_symmetry.name)


ALPHABET = ["a", "Z", "0", "-", "_", " ", ".", "&", "<", ">", '"', "'", "é", "椅", "😀", ";", "#", "\u00a0", "%"]


def text(rng, filename=False, n=None):
    if n is None:
        n = int(rng.integers(1, 12))
    s = "".join(gen.pick(rng, ALPHABET) for _ in range(n))
    return "i" + s + "e" if filename else s


def xml_text(rng):
    """Text that survives XML as such (white space included, no carriage return)."""
    s = text(rng)
    if rng.integers(4) == 0:
        s = gen.pick(rng, [" ", "\n", "\t", "  "]) + s + gen.pick(rng, [" ", "\n", ""])
    return s


def pose(rng, scale=None):
    t = gen.vec3(rng) if scale is None else rng.normal(size=3) * scale
    return Pose3(R=Rot3(gen.rotation(rng)), t=t)


def pose_arrays(p):
    return np.array(p.R.matrix(), float), np.array(p.t, float)


def score(rng):
    k = rng.integers(6)
    if k == 0:
        return -1
    if k == 1:
        return float(gen.pick(rng, [0.0, 1.0, 1e300, -1e-300, float("inf"), 5e-324, 0.1]))
    if k == 2:
        return gen.pick(rng, [np.float64, np.float32])(rng.normal())
    return float(rng.uniform())


def voxels(rng):
    size = float(gen.pick(rng, [0.1, 0.5, 1.0, 0.03]))
    lo = np.array(rng.normal(size=3))
    n = int(rng.integers(1, 30))
    p = lo + rng.uniform(0, 6, size=(n, 3)) * size
    return VoxelGrid(size, lo, p)


def box(rng):
    a = gen.vec3(rng, -3, 3)
    return Box3d(a, a + np.abs(gen.vec3(rng, -3, 3)))


def settings(rng):
    s = {"version": gen.pick(rng, ["2.0", "2.1", xml_text(rng)]), "categories_id": xml_text(rng),
         "categories_url": "https://x.org/?a=1&b=" + text(rng)}
    if rng.integers(5) == 0:  # not filled in
        s[gen.pick(rng, sorted(s))] = ""
    if rng.integers(5) == 0:  # not there, as after loading a file without them
        for k in sorted(s):
            if rng.integers(2):
                del s[k]
    return s


def obj(rng, track, id, own_bounds=False):
    kw = dict(id=id, pose=pose(rng), category=gen.pick(rng, ["chair", "unknown", "", xml_text(rng)]),
              symmetry=sym(gen.pick(rng, VALID)), score=score(rng),
              evaluated=gen.pick(rng, [True, False, True, False, True, False, 1, 0, np.True_, np.False_]))
    if rng.integers(8) == 0:  # leave some to their defaults
        for k in ["pose", "category", "symmetry", "score", "evaluated"]:
            if rng.integers(2):
                del kw[k]
    if track == "bounding_box":
        return ProjectObject.gen_bounding_box_object(bounds=box(rng), **kw)
    if own_bounds and rng.integers(4) == 0:  # of an earlier shape, say
        kw["bounds"] = box(rng)
    if track == "voxels":
        return ProjectObject.gen_voxels_object(voxels=voxels(rng), **kw)
    if rng.integers(2):
        m = shapes.solid_model(rng)[0]
    else:
        m = shapes.model(rng, nv=int(rng.integers(3, 9)))[0]
    return ProjectObject.gen_meshes_object(meshes=m, **kw)


def scene(rng, track=None, n=None, own_bounds=False):
    track = track or gen.pick(rng, TRACKS)
    if n is None:
        n = int(gen.pick(rng, [0, 1, 2, 3, 5]))
    els = ProjectObjectDict()
    while len(els) < n:
        id = gen.pick(rng, [str(len(els)), text(rng, filename=True)])
        if id not in els:
            els[id] = obj(rng, track, id, own_bounds)
    if rng.integers(4) == 0:
        return ProjectScene(track, els)
    return ProjectScene(track, els, settings(rng))


def box_arrays(b):
    return None if b is None else (np.array(b.min_corner, float), np.array(b.max_corner, float))


def voxel_state(v):
    c = np.array(v.voxel_centers(), float)
    return dict(size=float(v.voxel_size), corner=np.array(v.min_corner, float), centers=c[np.lexsort(c.T)])


def obj_state(o):
    R, t = pose_arrays(o.pose)
    s = dict(id=o.id, track=o.project_type, R=R, t=t, category=o.category, symmetry=kinds_of(o.symmetry),
             score=float(o.score), evaluated=o.evaluated, bounds=box_arrays(o.bounds), voxels=None, meshes=None)
    if o.voxels is not None:
        s["voxels"] = voxel_state(o.voxels)
    if o.meshes is not None:
        s["meshes"] = shapes.model_states(o.meshes)
    return s


def scene_state(s):
    return dict(track=s.project_type, settings=dict(s.settings), elements={k: obj_state(o) for k, o in s.elements.items()})


def same_obj(ctx, got, want, key, skip=(), **w):
    for f in ("id", "track", "category", "symmetry", "score", "evaluated"):
        if f not in skip:
            ctx.check(got[f] == want[f], key + "-" + f, got=got[f], expected=want[f], **w)
    ctx.check(type(got["evaluated"]) is bool or got["evaluated"] in (True, False), key + "-evaluated-type")
    if "pose" not in skip:
        ctx.equal(got["R"], want["R"], key + "-rotation", **w)
        ctx.equal(got["t"], want["t"], key + "-translation", **w)
    if "bounds" not in skip:
        same_box(ctx, got["bounds"], want["bounds"], key + "-bounds", **w)
    if "shape" not in skip:
        ctx.check((got["voxels"] is None) == (want["voxels"] is None), key + "-has-voxels")
        ctx.check((got["meshes"] is None) == (want["meshes"] is None), key + "-has-meshes")
        if want["voxels"] is not None:
            for f in ("size", "corner", "centers"):
                ctx.close(got["voxels"][f], want["voxels"][f], key + "-voxels-" + f, rtol=1e-12, atol=0, **w)
        if want["meshes"] is not None:
            ctx.check(len(got["meshes"]) == len(want["meshes"]), key + "-number-of-meshes")
            for a, b in zip(got["meshes"], want["meshes"]):
                shapes.same(ctx, a, b, key + "-mesh", **w)


def same_box(ctx, got, want, key, **w):
    ctx.check((got is None) == (want is None), key + "-presence", got=got, expected=want, **w)
    if want is not None:
        ctx.equal(got[0], want[0], key + "-min", **w)
        ctx.equal(got[1], want[1], key + "-max", **w)


def same_scene(ctx, got, want, key, skip=()):
    ctx.equal(got["track"], want["track"], key + "-track")
    ctx.equal(got["settings"], want["settings"], key + "-settings")
    ctx.check(set(got["elements"]) == set(want["elements"]), key + "-ids",
              got=list(got["elements"]), expected=list(want["elements"]))
    for k in want["elements"]:
        same_obj(ctx, got["elements"][k], want["elements"][k], key, skip)

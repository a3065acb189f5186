"""C10: axis-aligned boxes and bounding boxes against brute force."""
import itertools
import numpy as np
from core import scenario
import gen

from sumo.base.vector import Vector3f
from sumo.threedee.box_3d import Box3d
from sumo.threedee.compute_bbox import ComputeBbox
from sumo.threedee.mesh import Mesh
from sumo.threedee.point_cloud import PointCloud

F = np.float32


def corner(rng, dt):
    v = gen.vec3(rng, -2, 4)
    if rng.integers(3) == 0:
        v = np.round(v)
    return v.astype(dt)


def boxes(rng, dt=None):
    dt = dt or gen.pick(rng, [F, float])
    a, b = corner(rng, dt), corner(rng, dt)
    k = rng.integers(5)
    if k == 0:
        b[rng.integers(3)] = a[0]
    if k == 1:
        b = a.copy()
    return a, b


@scenario(quick=500)
def box_facts(rng, ctx):
    a, b = boxes(rng)
    a0, b0 = a.copy(), b.copy()
    ctx.case(a, b)
    x = Box3d(a, b)
    lo, hi = np.minimum(a0, b0), np.maximum(a0, b0)
    a[:] = 9e9
    b[:] = -9e9
    ctx.equal(x.min_corner, lo, "min-corner")
    ctx.equal(x.max_corner, hi, "max-corner")
    for p in itertools.product((0, 1), repeat=3):  # any two opposite corners, in any order
        s = np.array(p, bool)
        y = Box3d(np.where(s, lo, hi), np.where(s, hi, lo))
        ctx.equal(y.min_corner, lo, "corner-order")
        ctx.equal(y.max_corner, hi, "corner-order")
        ctx.check(y == x, "equal-boxes-differ")
    d = hi.astype(float) - lo
    ctx.close(x.volume(), d.prod(), "volume", rtol=1e-5 if a0.dtype == F else 1e-11, atol=1e-30)
    ctx.close(x.center(), (hi.astype(float) + lo) / 2, "center", rtol=1e-6, atol=1e-6 * float(np.abs([lo, hi]).max() + 1e-30))
    c = x.corners()
    want = [(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1), (0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)]
    ctx.equal(c, np.array([[(lo, hi)[p[i]][i] for p in want] for i in range(3)]), "corners")
    # containment, strictly inside
    for _ in range(6):
        q = lo + (hi - lo) * rng.uniform(-0.3, 1.3, size=3)
        k = rng.integers(3)
        if k == 0:
            q[rng.integers(3)] = (lo, hi)[rng.integers(2)][rng.integers(3)]
        if k == 1:
            q = lo + (hi - lo) * rng.uniform(0.1, 0.9, size=3)
        inside = bool(((q > lo) & (q < hi)).all())
        ctx.check(bool(x.point_in_box(q)) == inside, "point-in-box", q=q, lo=lo, hi=hi)
        ctx.count("inside" if inside else "outside")
    for q in c.T:
        ctx.check(not x.point_in_box(q), "boundary-is-inside", q=q)
    y = Box3d(lo, np.nextafter(hi, np.inf).astype(hi.dtype))
    ctx.check(not (x == y), "different-boxes-equal")
    ctx.check(x.almost_equal(y), "almost-equal")
    y = Box3d(np.nextafter(lo, -np.inf).astype(lo.dtype), hi)
    ctx.check(not (x == y) and not (y == x), "different-boxes-equal")
    far = hi.copy()
    far[rng.integers(3)] += 1 + abs(far).max()
    ctx.check(not x.almost_equal(Box3d(lo, far)), "almost-equal-far")


@scenario(quick=200)
def whole_number_corners(rng, ctx):
    """Corners given in whole numbers, as lists or arrays."""
    a, b = rng.integers(-40, 40, size=3), rng.integers(-40, 40, size=3)
    kind = gen.pick(rng, [lambda v: [int(k) for k in v], lambda v: v.astype(np.int64), lambda v: v.astype(np.int32), lambda v: v.astype(float)])
    ctx.case(a, b)
    x = Box3d(kind(a), kind(b))
    lo, hi = np.minimum(a, b), np.maximum(a, b)
    ctx.equal(np.array(x.min_corner, float), lo.astype(float), "min-corner")
    ctx.equal(np.array(x.max_corner, float), hi.astype(float), "max-corner")
    ctx.equal(np.array(x.center(), float), (lo + hi) / 2.0, "whole-center")
    ctx.check(float(x.volume()) == float(np.prod(hi - lo)), "whole-volume", got=x.volume())
    q = (lo + hi) / 2.0
    ctx.check(bool(x.point_in_box(q)) == bool((lo < hi).all()), "whole-center-inside")
    ctx.check(not x.point_in_box(lo - 0.5) and not x.point_in_box(hi + 0.5), "outside-is-inside")
    m = Box3d.merge([x, Box3d(hi.astype(float), hi + 0.5)])
    ctx.equal(np.array(m.max_corner, float), hi + 0.5, "whole-merge-max")
    ctx.equal(np.array(m.min_corner, float), lo.astype(float), "whole-merge-min")


@scenario(quick=200)
def defaults_are_independent(rng, ctx):
    a, b = boxes(rng)
    ctx.case(a, b)
    z = Box3d()
    ctx.equal(z.min_corner, np.zeros(3), "default-min")
    ctx.equal(z.max_corner, np.zeros(3), "default-max")
    z.min_corner[:] = -1
    z.max_corner[:] = 5
    y = Box3d()
    ctx.equal(y.min_corner, np.zeros(3), "default-shared")
    ctx.equal(y.max_corner, np.zeros(3), "default-shared")
    x = Box3d(a, b)
    y = Box3d(a, b)
    m = Box3d.merge([x])
    x.min_corner[:] -= 1
    ctx.equal(y.min_corner, np.minimum(a, b), "boxes-share")
    ctx.equal(m.min_corner, np.minimum(a, b), "merge-shares")


@scenario(quick=300)
def merge(rng, ctx):
    n = int(rng.integers(0, 7))
    bs = [boxes(rng) for _ in range(n)]
    if not bs:
        ctx.case("none", trivial=True)
        m = Box3d.merge([])
        ctx.check(m == Box3d(), "merge-none")
        return
    ctx.case(*[v for p in bs for v in p])
    lo = np.min([np.minimum(*b) for b in bs], axis=0)
    hi = np.max([np.maximum(*b) for b in bs], axis=0)
    objs = [Box3d(*b) for b in bs]
    before = [(o.min_corner.copy(), o.max_corner.copy()) for o in objs]
    m = Box3d.merge(objs)
    ctx.equal(m.min_corner, lo, "merge-min")
    ctx.equal(m.max_corner, hi, "merge-max")
    for o, (p, q) in zip(objs, before):
        ctx.equal(o.min_corner, p, "merge-mutates")
        ctx.equal(o.max_corner, q, "merge-mutates")
    perm = Box3d.merge([objs[int(i)] for i in rng.permutation(n)])
    ctx.check(perm == m, "merge-order")
    ctx.check(Box3d.merge([m] + objs) == m, "merge-idempotent")


def signed_volume(v, idx):
    t = v[:, idx.reshape(-1, 3)]
    return float(np.einsum("ij,ij->j", t[:, :, 0], np.cross(t[:, :, 1], t[:, :, 2], axis=0)).sum() / 6)


@scenario(quick=300)
def box_mesh(rng, ctx):
    c = rng.normal(size=3) * 3
    e = rng.uniform(0.05, 4, size=3)
    x = Box3d((c - e).astype(F), (c + e).astype(F))
    lo, hi = x.min_corner.astype(float), x.max_corner.astype(float)
    ctx.case(lo, hi)
    for out in (True, False):
        col = rng.integers(0, 256, size=(3, 1)).astype(np.uint8)
        if rng.integers(2):  # nearly grey
            col = (int(rng.integers(0, 253)) + rng.integers(0, 3, size=(3, 1))).astype(np.uint8)
        for textured in (False, True):
            if textured:
                m = x.to_textured_mesh(normals_out=out, color=col) if rng.integers(2) else x.to_textured_mesh(out, col)
            else:
                m = x.to_mesh(normals_out=out)
            v, idx, nr = m.vertices().astype(float), m.indices(), m.normals().astype(float)
            ctx.check(idx.size % 3 == 0 and idx.max() < v.shape[1], "mesh-indices")
            vol = signed_volume(v - lo[:, None], idx) * (1 if out else -1)
            ctx.close(vol, (hi - lo).prod(), "mesh-volume", rtol=1e-4, atol=0)
            ctx.equal(v.min(axis=1), lo, "mesh-extent")
            ctx.equal(v.max(axis=1), hi, "mesh-extent")
            area = 0
            for t in idx.reshape(-1, 3):
                a, b, d = v[:, t[0]], v[:, t[1]], v[:, t[2]]
                n = np.cross(b - a, d - a)
                area += np.linalg.norm(n) / 2
                n /= np.linalg.norm(n)
                mid = (a + b + d) / 3
                away = np.dot(n, mid - (lo + hi) / 2)
                ctx.check((away > 0) == out, "mesh-winding")
                for k in t:
                    ctx.close(nr[:, k], n, "mesh-normal", atol=1e-5)
            d = hi - lo
            ctx.close(area, 2 * (d[0] * d[1] + d[1] * d[2] + d[2] * d[0]), "mesh-area", rtol=1e-4, atol=0)
            if textured:
                ctx.check(m.is_color_only() if hasattr(m, "is_color_only") else True, "mesh-color")
                bc = m.base_color()
                ctx.check((bc.reshape(-1, 3) == col.ravel()).all(), "mesh-base-color", got=bc, want=col)
                ctx.check((m.uv_coords() == 0).all() and m.uv_coords().shape[1] == v.shape[1], "mesh-uv")


def cloud(rng, n):
    p = rng.normal(size=(3, n)) * 10.0 ** rng.uniform(-2, 3) + gen.vec3(rng, -1, 3)[:, None]
    if rng.integers(3) == 0:
        p = np.abs(p) * gen.pick(rng, [1, -1])
    return p


@scenario(quick=300)
def bounding_boxes(rng, ctx):
    cb = ComputeBbox()
    n = int(gen.pick(rng, [1, 2, 3, 20]))
    p = cloud(rng, n)
    p0 = p.copy()
    ctx.case(p)
    for arr in (p, np.asfortranarray(p), p.astype(F), PointCloud(p).points()):
        b = cb.from_point_cloud(arr)
        ctx.equal(b.min_corner, arr.min(axis=1), "cloud-min")
        ctx.equal(b.max_corner, arr.max(axis=1), "cloud-max")
    ctx.equal(p, p0, "cloud-mutated")
    z = cb.from_point_cloud(np.zeros((3, 0)))
    ctx.check(z == Box3d(), "empty-cloud")
    meshes, allv = [], []
    for _ in range(int(rng.integers(1, 5))):
        k = int(rng.integers(1, 4))
        v = cloud(rng, 3 * k).astype(F)
        meshes.append(Mesh(np.arange(3 * k, dtype=np.uint32), v, np.zeros_like(v)))
        allv.append(v)
    first = meshes[0]
    if rng.integers(3) == 0:  # a mesh without vertices has no part in it
        none = Mesh(np.zeros(0, np.uint32), np.zeros((3, 0), F), np.zeros((3, 0), F))
        meshes.insert(int(rng.integers(len(meshes) + 1)), none)
        ctx.check(cb.from_meshes([none]) == Box3d() and cb.from_meshes([]) == Box3d(), "no-vertices")
        ctx.count("meshes_without_vertices")
    b = cb.from_mesh(first)
    ctx.equal(b.min_corner, allv[0].min(axis=1), "mesh-min")
    ctx.equal(b.max_corner, allv[0].max(axis=1), "mesh-max")
    u = np.hstack(allv)
    b = cb.from_meshes(meshes)
    ctx.equal(b.min_corner, u.min(axis=1), "meshes-min")
    ctx.equal(b.max_corner, u.max(axis=1), "meshes-max")
    from sumo.threedee.gltf_model import GltfModel
    from sumo.threedee.textured_mesh import TexturedMesh
    g = GltfModel()
    for v in allv:
        k = v.shape[1]
        g.add_textured_primitive_mesh(TexturedMesh(
            np.arange(k, dtype=np.uint32), v, np.zeros_like(v), np.zeros((2, k), F),
            np.full((2, 2, 3), 9, np.uint8)))
    b = cb.from_gltf_object(g)
    ctx.equal(b.min_corner, u.min(axis=1), "gltf-min")
    ctx.equal(b.max_corner, u.max(axis=1), "gltf-max")


@scenario(quick=60)
def corner_types(rng, ctx):
    a, b = boxes(rng, float)
    ctx.case(a, b)
    x = Box3d(list(a), tuple(b))
    ctx.equal(x.min_corner, np.minimum(a, b), "list-corners")
    x = Box3d(Vector3f(*a), Vector3f(*b))
    ctx.equal(x.max_corner, np.maximum(a.astype(F), b.astype(F)), "vector3f-corners")
    x = Box3d(corner2=b, corner1=a)
    ctx.equal(x.max_corner, np.maximum(a, b), "keyword-corners")

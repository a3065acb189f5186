"""Random meshes and models, their observable state, and reference geometry (numpy only)."""
import numpy as np
import gen

from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh


def f32(rng, shape, scale=1.0):
    k = rng.integers(6)
    if k == 0:
        a = rng.integers(-3, 4, size=shape).astype(np.float32)
    elif k == 1:
        a = rng.uniform(0, 1, size=shape) * 10.0 ** rng.uniform(-3, 3)
    else:
        a = rng.normal(size=shape) * scale
    a = np.asarray(a, dtype=np.float32)
    if rng.integers(3) == 0:
        a = np.asfortranarray(a)
    return a


def indices(rng, nv, nt):
    i = rng.integers(0, nv, size=3 * nt) if nv else np.zeros(0)
    return i.astype(np.uint32)


def arrays(rng, nv=None, nt=None, scale=1.0, far=False):
    """indices, vertices, normals of a triangle soup (degenerate and repeated triangles included)."""
    if nv is None:
        nv = int(gen.pick(rng, [0, 1, 3, 4, 5, 8, 20, 60]))
    if nt is None:
        nt = int(gen.pick(rng, [0, 1, 2, 4, 12, 40]))
    v = f32(rng, (3, nv), scale)
    if far and rng.integers(5) == 0:  # very large, and on one side of the origin
        v = ((v + np.float32(gen.pick(rng, [-5.0, 0.0, 5.0]))) * np.float32(10.0 ** rng.uniform(5, 30))).astype(np.float32)
    return indices(rng, nv, nt), v, f32(rng, (3, nv))


def texture(rng, empty=False):
    if empty:
        return np.zeros((0, 0, 3), np.uint8)
    if rng.integers(25) == 0:  # long sides
        h, w = int(gen.pick(rng, [1, 3, 200, 300, 700])), int(gen.pick(rng, [1, 2, 255, 256, 400]))
        return np.ascontiguousarray(gen.u8(rng, (h, w, 3)))
    return np.ascontiguousarray(gen.u8(rng, (int(rng.integers(1, 9)), int(rng.integers(1, 9)), 3)))


def textured_arrays(rng, full_uv=True, **kw):
    i, v, n = arrays(rng, **kw)
    nu = v.shape[1] if full_uv or rng.integers(2) else int(rng.integers(0, v.shape[1] + 1))
    uv = f32(rng, (2, nu)) if rng.integers(3) else rng.uniform(0, 1, size=(2, nu)).astype(np.float32)
    k = rng.integers(8)
    return i, v, n, uv, texture(rng, k == 0), texture(rng, k in (0, 1))


def cube_arrays(lo, hi):
    """The closed outward box surface <lo>..<hi>, 8 vertices, 12 triangles."""
    v = np.array([[(lo, hi)[(c >> a) & 1][a] for c in range(8)] for a in range(3)], np.float32)
    q = [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5)]
    t = []
    for a, b, c, d in q:
        t += [a, b, c, a, c, d]
    return np.array(t, np.uint32), v, np.zeros((3, 8), np.float32) + np.float32(0.5)


def mesh(rng, kind=None, **kw):
    """A Mesh or TexturedMesh and its expected state."""
    kind = kind or gen.pick(rng, ["plain", "textured", "textured"])
    if kind == "plain":
        a = arrays(rng, **kw)
        return Mesh(*a), as_state(a)
    a = textured_arrays(rng, **kw)
    return TexturedMesh(*a), as_state(a)


def as_state(a):
    s = dict(indices=np.array(a[0]), vertices=np.array(a[1]), normals=np.array(a[2]))
    if len(a) > 3:
        s.update(uv=np.array(a[3]), bc=np.array(a[4]), mr=np.array(a[5]))
    return s


def state(m):
    """Everything observable of a mesh, copied."""
    s = dict(indices=np.array(m.indices()), vertices=np.array(m.vertices()), normals=np.array(m.normals()))
    if isinstance(m, TexturedMesh):
        s.update(uv=np.array(m.uv_coords()), bc=np.array(m.base_color()), mr=np.array(m.metallic_roughness()))
    return s


def copy_state(s):
    return {k: np.array(v) for k, v in s.items()}


def same(ctx, got, want, key, **w):
    ctx.check(sorted(got) == sorted(want), key + "-kind", got=sorted(got), expected=sorted(want), **w)
    for k in got:
        a, b = got[k], want[k]
        if k in ("bc", "mr") and a.size == 0 and b.size == 0:
            continue
        ctx.check(a.shape == b.shape and np.array_equal(a, b), key + "-" + k, got=a, expected=b, **w)


def triangles(s):
    """n x 3 x 3 corner positions (float64) of a mesh state."""
    return s["vertices"].T.astype(float)[s["indices"].reshape(-1, 3).astype(int)]


def model(rng, n=None, **kw):
    """A GltfModel with its meshes' expected states."""
    if n is None:
        n = int(gen.pick(rng, [1, 1, 2, 3, 5]))
    m, states = GltfModel(), []
    for _ in range(n):
        x, s = mesh(rng, **kw)
        m.add_mesh(x)
        states.append(s)
    return m, states


def solid_model(rng, scale=1.0):
    """A model with at least one triangle and every vertex used; metre-sized."""
    m, states = GltfModel(), []
    for _ in range(int(gen.pick(rng, [1, 1, 2, 3]))):
        k = rng.integers(3)
        if k == 0:
            lo = rng.normal(size=3) * scale
            i, v, n = cube_arrays(lo, lo + rng.uniform(0, 1, size=3) * scale * gen.pick(rng, [0.05, 1.0]))
        elif k == 1:  # a flat one
            i, v, n = arrays(rng, nv=int(rng.integers(3, 8)), nt=int(rng.integers(1, 8)), scale=scale)
            v[rng.integers(3)] = np.float32(rng.normal())
        else:
            i, v, n = arrays(rng, nv=int(rng.integers(3, 8)), nt=int(rng.integers(1, 8)), scale=scale)
        v = np.clip(v, -3 * scale, 3 * scale)
        if rng.integers(2):
            a = (i, v, n)
            x = Mesh(*a)
        else:
            a = (i, v, n, rng.uniform(-1, 2, size=(2, v.shape[1])).astype(np.float32), texture(rng), texture(rng))
            x = TexturedMesh(*a)
        m.add_mesh(x)
        states.append(as_state(a))
    return m, states


def model_states(m):
    return [state(x) for x in m.primitive_meshes()]


def bounds(states):
    v = np.concatenate([s["vertices"] for s in states], axis=1).astype(float)
    return v.min(axis=1), v.max(axis=1)


def point_triangle_distance(p, tri):
    """Distance from each point (n x 3) to one triangle (3 x 3); any degeneracy."""
    a, b, c = tri
    p = np.asarray(p, float)
    best = np.full(len(p), np.inf)
    for s, e in ((a, b), (b, c), (c, a)):  # edges
        d = e - s
        l = d.dot(d)
        t = np.clip((p - s).dot(d) / l, 0, 1) if l > 0 else np.zeros(len(p))
        best = np.minimum(best, np.linalg.norm(p - s - t[:, None] * d, axis=1))
    n = np.cross(b - a, c - a)
    l = np.linalg.norm(n)
    scale = max(np.linalg.norm(b - a), np.linalg.norm(c - a), np.linalg.norm(c - b))
    if l > 1e-9 * scale * scale and l > 0:
        n = n / l
        h = (p - a).dot(n)
        q = p - h[:, None] * n
        inside = np.ones(len(p), bool)
        for s, e in ((a, b), (b, c), (c, a)):
            inside &= np.cross(e - s, q - s).dot(n) >= 0
        best = np.where(inside, np.minimum(best, np.abs(h)), best)
    return best


def point_surface_distance(p, tris):
    best = np.full(len(p), np.inf)
    for t in tris:
        best = np.minimum(best, point_triangle_distance(p, t))
    return best


def boxes_touch_triangle(centers, half, tri):
    """Separating-axis test of cubes (n x 3 centres, half side) against one triangle."""
    v = tri[None, :, :] - centers[:, None, :]
    ok = np.ones(len(centers), bool)
    e = [tri[1] - tri[0], tri[2] - tri[1], tri[0] - tri[2]]
    axes = list(np.eye(3)) + [np.cross(e[0], e[1])]
    axes += [np.cross(x, y) for x in np.eye(3) for y in e]
    for ax in axes:
        l = np.linalg.norm(ax)
        if l < 1e-12:
            continue
        ax = ax / l
        p = v.dot(ax)
        r = half * np.abs(ax).sum()
        ok &= (p.min(axis=1) <= r) & (p.max(axis=1) >= -r)
    return ok

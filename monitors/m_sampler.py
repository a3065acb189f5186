"""C12: sampling points on models, voxelizing models."""
import math
import os
import numpy as np
from PIL import Image
from core import scenario
import gen
import shapes

from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.model_sampler import ModelSampler
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.voxel_grid import VoxelGrid
from sumo.threedee.voxelizer import Voxelizer

GRAY = np.array([128.0] * 3)


def colours(s):
    """n x 3 x 3 corner colours of a mesh state, as its texture has them."""
    i = s["indices"].reshape(-1, 3).astype(int)
    if "uv" not in s or s["bc"].size == 0:
        return np.tile(GRAY, (len(i), 3, 1))
    h, w = s["bc"].shape[:2]
    u, v = s["uv"].astype(float)
    c, r = np.floor(u * w).astype(int) % w, np.floor(v * h).astype(int) % h
    return s["bc"][r, c].astype(float)[i]


def texture_coords(rng, n, h, w):
    """Pixel centres (and exact corners), in any tile of the repeated texture."""
    k = np.stack([rng.integers(0, w, size=n) + 0.5, rng.integers(0, h, size=n) + 0.5])
    uv = k / np.array([[w], [h]]) + rng.integers(-2, 3, size=(2, n))
    exact = rng.integers(8, size=n) == 0
    uv[:, exact] = rng.integers(-2, 3, size=(2, int(exact.sum())))
    return uv.astype(np.float32)


def build(rng, groups):
    """A model of meshes with the given triangles (lists of 3x3), random vertex sharing and textures."""
    m, states = GltfModel(), []
    for tris in groups:
        v = np.asarray(tris, np.float32).reshape(-1, 3)
        v, i = (np.unique(v, axis=0, return_inverse=True) if rng.integers(2) else (v, np.arange(len(v))))
        extra = int(rng.integers(3))  # unused vertices
        v = np.concatenate([v, rng.normal(size=(extra, 3)).astype(np.float32) * 100])
        p = rng.permutation(len(v))
        inv = np.argsort(p)
        v, i = np.ascontiguousarray(v[p].T), inv[np.asarray(i).ravel()].astype(np.uint32)
        nrm = shapes.f32(rng, v.shape)
        if rng.integers(3) == 0:
            a = (i, v, nrm)
            m.add_mesh(Mesh(*a))
        else:
            bc = shapes.texture(rng, rng.integers(6) == 0)
            h, w = bc.shape[:2]
            uv = texture_coords(rng, v.shape[1], h, w) if h else rng.normal(size=(2, v.shape[1])).astype(np.float32)
            a = (i, v, nrm, uv, bc, shapes.texture(rng, rng.integers(3) == 0))
            m.add_mesh(TexturedMesh(*a))
        states.append(shapes.as_state(a))
    return m, states


def areas(t):
    return 0.5 * np.linalg.norm(np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]), axis=1)


def barycentric(p, t):
    """Coordinates of p (n x 3) in the plane of triangle t, least squares."""
    A = np.stack([t[1] - t[0], t[2] - t[0]], axis=1)
    x = np.linalg.lstsq(A, (p - t[0]).T, rcond=None)[0]
    return np.stack([1 - x[0] - x[1], x[0], x[1]], axis=1)


@scenario(quick=2400)
def separate_triangles(rng, ctx):
    """Triangles far apart: each sample is told by its position."""
    n = int(gen.pick(rng, [1, 2, 5, 12, 30]))
    scale = 10.0 ** rng.uniform(-2, 1)
    cells = rng.permutation(64)[:n]
    tris = []
    for c in cells:
        t = rng.normal(size=(3, 3)) * scale * gen.pick(rng, [1.0, 0.3, 0.01])
        k = rng.integers(10)
        if k == 0:
            t[2] = t[1]  # a line
        elif k == 1:
            t[:] = t[0]  # a point
        elif k == 2:
            t[:, rng.integers(3)] = 0.5 * scale  # in a coordinate plane
        t = np.clip(t, -3 * scale, 3 * scale) + 20 * scale * np.array([c % 4, c // 4 % 4, c // 16])
        tris.append(t)
    groups, k = [], 0
    while k < n:
        s = int(rng.integers(1, 6))
        groups.append(tris[k:k + s])
        k += s
    m, states = build(rng, groups)
    t = np.concatenate([shapes.triangles(s) for s in states])
    col = np.concatenate([colours(s) for s in states])
    ar = areas(t)
    density = float(gen.pick(rng, [0.0, 1.0, 30.0, 100.0, 1.0 / max(ar.max(), 1e-12)]) / max(np.median(ar), 1e-12))
    density = min(density, 20000 / max(ar.sum(), 1e-12))
    np.random.seed(int(rng.integers(2 ** 31)))
    ctx.case(t, col, density)
    got = ModelSampler(density).run(m)
    ctx.check(isinstance(got, np.ndarray) and got.ndim == 2 and got.shape[1] == 6 and np.isfinite(got).all(), "samples-shape")
    centre = t.mean(axis=1)
    who = np.argmin(((got[:, None, :3] - centre[None]) ** 2).sum(axis=2), axis=1)
    span = np.abs(t).max()
    for k in range(n):
        p = got[who == k]
        x = density * ar[k]
        lo, hi = max(1, math.floor(x * (1 - 1e-9))), max(1, math.floor(x * (1 + 1e-9)))
        ctx.check(lo <= len(p) <= hi, "samples-of-triangle", got=len(p), expected=(lo, hi), area=ar[k], density=density)
        d = shapes.point_triangle_distance(p[:, :3], t[k])
        ctx.check((d <= 1e-6 * span).all(), "sample-off-surface", distance=d.max(), triangle=t[k])
        size = max(np.linalg.norm(t[k][a] - t[k][b]) for a, b in ((0, 1), (1, 2), (2, 0)))
        if ar[k] > 1e-2 * size * size and size > 1e-3 * span:
            b = barycentric(p[:, :3], t[k])
            ctx.check((b >= -1e-5).all(), "sample-outside-triangle", got=b.min())
            ctx.close(p[:, 3:], b.dot(col[k]), "sample-colour", atol=0.02, corner_colours=col[k])
            ctx.count("coloured_samples", len(p))
        lo, hi = col[k].min(axis=0) - 1e-6, col[k].max(axis=0) + 1e-6
        ctx.check(((p[:, 3:] >= lo) & (p[:, 3:] <= hi)).all(), "sample-colour-range")
        if len(p) > 1 and size > 1e-3 * span:
            ctx.check(len(np.unique(p[:, :3], axis=0)) > len(p) // 2, "samples-repeat", n=len(p))
        if x < 1:
            ctx.count("small_triangles")
        ctx.count("triangles")
    ctx.check(len(got) == sum((who == k).sum() for k in range(n)), "samples-lost")


@scenario(quick=400)
def slivers(rng, ctx):
    """Long thin triangles get their share too."""
    L = float(np.float32(10.0 ** rng.uniform(-2, 2)))
    w = float(np.float32(L * 10.0 ** -rng.uniform(1, 7.5)))
    t = np.array([[0, 0, 0], [L, 0, 0], [L * rng.uniform(-0.5, 1.5), w, 0]])
    t = t[rng.permutation(3)][:, rng.permutation(3)].astype(np.float32).astype(float)
    ar = areas(t[None])[0]
    density = float(rng.uniform(50, 400) / ar)
    m, states = build(rng, [[t]])
    np.random.seed(int(rng.integers(2 ** 31)))
    ctx.case(t, density)
    got = ModelSampler(density).run(m)
    x = density * ar
    ctx.check(math.floor(x * (1 - 1e-9)) <= len(got) <= math.floor(x * (1 + 1e-9)), "samples-of-sliver",
              got=len(got), expected=x, triangle=t, density=density)
    d = shapes.point_triangle_distance(got[:, :3], t)
    ctx.check((d <= 1e-6 * L).all(), "sliver-off-surface", distance=d.max(), triangle=t)
    # along the triangle, on both halves of its area
    a, b, c = t
    k = got[:, :3].mean(axis=0)
    ctx.check(np.linalg.norm(k - t.mean(axis=0)) < 0.2 * np.abs(t).max() * (1 + 3 / math.sqrt(len(got))), "sliver-mean", got=k, triangle=t)
    ctx.count("slivers")


def check_soup(ctx, got, states, density, key):
    """Count, positions and possible colours of samples of a model in the given states."""
    t = np.concatenate([shapes.triangles(s) for s in states])
    x = density * areas(t)
    lo, hi = (np.maximum(1, np.floor(x * (1 + e))).sum() for e in (-1e-9, 1e-9))
    ctx.check(got.shape[1] == 6 and lo <= len(got) <= hi, key + "-count", got=len(got), expected=(lo, hi))
    d = shapes.point_surface_distance(got[:, :3], t)
    ctx.check((d <= 1e-6 * max(np.abs(t).max(), 1e-6)).all(), key + "-off-surface", got=d.max())
    used = [s["bc"].reshape(-1, 3).astype(float) for s in states if "uv" in s and s["bc"].size]
    if any("uv" not in s or s["bc"].size == 0 for s in states):
        used.append(GRAY[None])
    pal = np.concatenate(used)
    ctx.check(((got[:, 3:] >= pal.min(axis=0) - 1e-6) & (got[:, 3:] <= pal.max(axis=0) + 1e-6)).all(), key + "-colour-range")


@scenario(quick=250)
def reused(rng, ctx):
    """One sampler and one voxelizer, on several models and on models changed in between."""
    density, size = float(gen.pick(rng, [0.2, 2.0, 10.0])), float(gen.pick(rng, [0.25, 0.5]))
    sampler, voxelizer = ModelSampler(density), Voxelizer(density, size)
    models = [shapes.solid_model(rng)[0] for _ in range(int(rng.integers(1, 4)))]
    np.random.seed(int(rng.integers(2 ** 31)))
    d, log = ctx.tmp(), []
    for step in range(int(rng.integers(2, 7))):
        m = gen.pick(rng, models)
        states = shapes.model_states(m)
        t = np.concatenate([shapes.triangles(s) for s in states])
        if (density * areas(t)).sum() > 4000:
            continue
        got = sampler.run(m)
        check_soup(ctx, got, states, density, "reused")
        c = np.asarray(voxelizer.run(m).voxel_centers())
        touched = np.zeros(len(c), bool)
        for x in t:
            b = shapes.boxes_touch_triangle(c, 0.5 * size * (1 + 1e-6) + 1e-6 * np.abs(t).max(), x)
            ctx.check(b.any(), "reused-triangle-without-voxel", triangle=x)
            touched |= b
        ctx.check(touched.all(), "reused-voxel-off-surface", voxel=c[~touched][:3])
        ctx.count("reuses")
        op = gen.pick(rng, ["texture", "color", "mesh", "replace", "nothing"])
        log.append((op, len(states)))
        k = int(rng.integers(len(states)))
        if op == "texture":
            col = tuple(int(v) for v in rng.integers(0, 256, size=3))
            Image.fromarray(np.full((3, 4, 3), col, np.uint8)).save(os.path.join(d, "t%d.png" % step))
            m.update_materials(d, [None] * k + [{"color": np.zeros(3), "uri": "t%d.png" % step}])
            now = shapes.model_states(m)[k]
            if "uv" in now and now["bc"].size:
                ctx.check((now["bc"].reshape(-1, 3) == col).all(), "texture-not-updated")
                ctx.count("textures_changed")
        elif op == "color":
            m.update_materials(d, [None] * k + [{"color": rng.uniform(size=3), "uri": ""}])
        elif op == "mesh":
            other = shapes.solid_model(rng)[0]
            for x in other.primitive_meshes():
                m.add_mesh(x)
        elif op == "replace":
            models[rng.integers(len(models))] = shapes.solid_model(rng)[0]
    ctx.case(density, size, str(log), *[s["vertices"] for m in models for s in shapes.model_states(m)])


@scenario(quick=1000)
def any_models(rng, ctx):
    """Overlapping soups: totals, positions and possible colours."""
    if rng.integers(2):
        m, states = shapes.solid_model(rng)
    else:
        m, states = shapes.model(rng, nv=int(rng.integers(3, 30)), nt=int(rng.integers(1, 20)))
    t = np.concatenate([shapes.triangles(s) for s in states])
    density = min(float(gen.pick(rng, [625.0, 50.0, 1.0])), 3000 / max(areas(t).sum(), 1e-9))
    before = [shapes.copy_state(s) for s in shapes.model_states(m)]
    np.random.seed(int(rng.integers(2 ** 31)))
    ctx.case(t, density)
    got = ModelSampler(sampling_density=density).run(m)
    check_soup(ctx, got, states, density, "soup")
    for a, b in zip(shapes.model_states(m), before):
        shapes.same(ctx, a, b, "sampling-changed-model")
    if rng.integers(8) == 0:  # the default density; models without triangles
        s = ModelSampler().run(Mesh_only_vertices())
        ctx.check(s.shape == (0, 6), "empty-model", got=s.shape)
        cube, v, nrm = shapes.cube_arrays(np.zeros(3), np.ones(3))
        g = GltfModel()
        g.add_mesh(Mesh(cube, v, nrm))
        ctx.equal(len(ModelSampler().run(g)), 12 * 312, "default-density")


def Mesh_only_vertices():
    g = GltfModel()
    g.add_mesh(Mesh(np.zeros(0, np.uint32), np.ones((3, 4), np.float32), np.ones((3, 4), np.float32)))
    return g


@scenario(quick=60, thorough=400)
def even_spread(rng, ctx):
    """Sub-triangles of equal area get equally many samples (limits far beyond chance)."""
    t = rng.normal(size=(3, 3)) * 10.0 ** rng.uniform(-1, 1)
    a = areas(t[None].astype(np.float32).astype(float))[0]
    if a < 1e-2 * np.abs(t).max() ** 2:
        t = np.array([[0, 0, 0], [2, 0, 0.5], [0.3, 1.5, 0]])
        a = areas(t[None].astype(np.float32).astype(float))[0]
    N = 16000
    m, states = build(rng, [[t]])
    np.random.seed(int(rng.integers(2 ** 31)))
    got = ModelSampler(N / a * (1 + 1e-6)).run(m)
    tt = shapes.triangles(states[0])[0]
    ctx.case(tt)
    ctx.check(N - 1 <= len(got) <= N + 1, "spread-count", got=len(got))
    b = np.clip(barycentric(got[:, :3], tt), 0, 1 - 1e-12)
    # 16 sub-triangles: two levels of midpoint subdivision
    q = np.floor(b * 4).astype(int)
    cell = q[:, 0] * 100 + q[:, 1] * 10 + q[:, 2]
    n = np.array(sorted(np.unique(cell, return_counts=True)[1]))
    mean, sd = len(got) / 16.0, math.sqrt(len(got) / 16.0)
    big = n[n > 0]
    ctx.check(len(big) >= 16 and (np.abs(np.sort(big)[-16:] - mean) < 7 * sd).all(), "spread-uneven", got=big, expected=mean)
    ctx.count("spread_cells", 16)
    c = got[:, :3].mean(axis=0) - tt.mean(axis=0)
    ctx.check(np.linalg.norm(c) < 7 * np.abs(tt - tt.mean(axis=0)).max() / math.sqrt(N) * 2, "spread-centre", got=c)


@scenario(quick=800)
def voxelized(rng, ctx):
    """Occupied voxels touch the surface; every triangle has one."""
    m, states = shapes.solid_model(rng, scale=float(gen.pick(rng, [1.0, 0.2, 3.0])))
    t = np.concatenate([shapes.triangles(s) for s in states])
    size = float(gen.pick(rng, [0.1, 0.05, 0.5, rng.uniform(0.02, 1.0)]))
    span = (t.max(axis=(0, 1)) - t.min(axis=(0, 1))).max()
    size = max(size, span / 60)
    density = float(min(gen.pick(rng, [625.0, 5.0, 2000.0]), 20000 / max(areas(t).sum(), 1e-9)))
    before = shapes.model_states(m)
    np.random.seed(int(rng.integers(2 ** 31)))
    ctx.case(t, size, density)
    g = Voxelizer(density, size).run(m)
    ctx.check(isinstance(g, VoxelGrid), "voxels-type")
    ctx.close(g.voxel_size, size, "voxel-size", rtol=1e-12)
    c = np.asarray(g.voxel_centers())
    ctx.check(c.ndim == 2 and c.shape[1] == 3 and len(c) >= 1 and len(np.unique(np.round(c / size, 3), axis=0)) == len(c), "voxels-repeat")
    h = 0.5 * size * (1 + 1e-6) + 1e-6 * np.abs(t).max()
    touched = np.zeros(len(c), bool)
    for x in t:
        b = shapes.boxes_touch_triangle(c, h, x)
        ctx.check(b.any(), "triangle-without-voxel", triangle=x, size=size)
        touched |= b
    ctx.check(touched.all(), "voxel-off-surface", voxel=c[~touched][:3], size=size)
    n = np.maximum(1, np.floor(density * areas(t) * (1 + 1e-9))).sum()
    ctx.check(len(c) <= n, "more-voxels-than-samples", got=len(c), samples=n)
    for a, b in zip(shapes.model_states(m), before):
        shapes.same(ctx, a, b, "voxelizing-changed-model")
    ctx.count("voxels", len(c))
    ctx.count("voxel_triangles", len(t))


@scenario(quick=60)
def covered(rng, ctx):
    """With enough samples no part of the surface is left out."""
    density = float(gen.pick(rng, [625.0, 2500.0]))
    r = math.sqrt(12 * 45 / (math.pi * density))  # a sixth of a disc holds 45 samples and more on average
    lo = rng.normal(size=3)
    side = rng.uniform(2.2, 3.5, size=3) * r
    i, v, nrm = shapes.cube_arrays(lo, lo + side)
    g = GltfModel()
    g.add_mesh(Mesh(i, v, nrm))
    size = float(gen.pick(rng, [0.1, 0.2, 0.05, r]))
    np.random.seed(int(rng.integers(2 ** 31)))
    dflt = density == 625.0 and size == 0.1
    ctx.case(v, size, density)
    vox = (Voxelizer() if dflt else Voxelizer(sampling_density=density, voxel_size=size)).run(g)
    if dflt:
        ctx.close(vox.voxel_size, 0.1, "default-voxel-size", rtol=1e-12)
        ctx.count("default_voxelizer")
    c = np.asarray(vox.voxel_centers())
    for t in shapes.triangles(dict(indices=i, vertices=v)):
        w = rng.dirichlet([0.5] * 3, size=20).dot(t)
        gap = np.abs(w[:, None] - c[None]) - 0.5 * size
        d = np.linalg.norm(np.maximum(gap, 0), axis=2).min(axis=1)
        ctx.check((d <= r).all(), "surface-left-out", got=d.max(), radius=r)
        ctx.count("covered_points", len(w))

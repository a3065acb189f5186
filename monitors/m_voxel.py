"""C11: voxel grids stepped along insertion / save / load histories against a set of indices."""
import copy
import os
import h5py
import numpy as np
from core import scenario
import gen
from gen import limited

from sumo.base.vector import Vector3f
from sumo.threedee.voxel_grid import VoxelGrid


def corner(rng, size):
    k = rng.integers(5)
    if k == 0:
        return None, np.zeros(3)
    if k == 1:
        v = rng.integers(-8, 9, size=3).astype(float)
        return Vector3f(*v), v
    v = rng.normal(size=3) * size * 10.0 ** rng.uniform(-2, 3)
    if k == 2:
        v = v.astype(np.float32)
    return v, np.array(v, dtype=float)


def batch(rng, lo, size, scale):
    """(points, indices): points well inside voxels, or exactly on their lower corner when exact."""
    n = int(gen.pick(rng, [1, 1, 2, 3, 7, 30, 200]))
    ext = [int(gen.pick(rng, scale)) for _ in range(3)]
    idx = np.stack([rng.integers(0, e, size=n) for e in ext], axis=1)
    exact = np.log2(size) % 1 == 0 and np.all(lo == np.round(lo)) and rng.integers(3) == 0
    u = np.zeros((n, 3)) if exact else rng.uniform(0.02, 0.98, size=(n, 3))
    p = lo + (idx + u) * size
    if rng.integers(3) == 0:
        p = np.asfortranarray(p)
    return p, idx


def agrees(ctx, vg, lo, size, model, key):
    ctx.close(vg.voxel_size, size, key + "-voxel-size", rtol=1e-12, atol=0)
    ctx.close(np.asarray(vg.min_corner, float), lo, key + "-min-corner", rtol=1e-12, atol=0)
    c = vg.voxel_centers()
    ctx.check(np.ndim(c) == 2 and c.shape[1] == 3, key + "-centers-shape", got=np.shape(c))
    q = (c - lo) / size - 0.5
    r = np.round(q)
    # the corner may be kept in single precision (Vector3f)
    slack = 4e-7 * (float(np.abs(lo).max()) + size)
    tol = 1e-6 + slack / size + 1e-12 * float(np.abs(q).max() if q.size else 0)
    ctx.check(np.all(np.abs(q - r) < min(tol, 0.1)), key + "-centers-off-grid", worst=float(np.abs(q - r).max()) if q.size else 0)
    got = set(map(tuple, r.astype(int).tolist()))
    ctx.check(len(got) == len(c), key + "-duplicate-voxels", n=len(c), distinct=len(got))
    ctx.check(got == model, key + "-voxels", missing=sorted(model - got)[:4], extra=sorted(got - model)[:4])
    if model:
        a = np.array(sorted(model))
        b = vg.bounds()
        ext = float(np.abs(a).max() + 2) * size + float(np.abs(lo).max())
        ctx.close(b.min_corner, lo + a.min(axis=0) * size, key + "-bounds-min", atol=1e-9 * ext + slack)
        ctx.close(b.max_corner, lo + (a.max(axis=0) + 1) * size, key + "-bounds-max", atol=1e-9 * ext + slack)


@scenario(quick=2000)
def histories(rng, ctx):
    size = float(gen.pick(rng, [1.0, 0.5, 0.1, 0.25, 2.0, 10.0 ** rng.uniform(-3, 2)]))
    given, lo = corner(rng, size)
    scale = gen.pick(rng, [[1, 2, 3], [1, 4, 20], [1, 5, 300], [2, 100, 4000]])
    model, log = set(), []
    if rng.integers(2):
        p, i = batch(rng, lo, size, scale)
        vg = VoxelGrid(size, given, p) if rng.integers(2) else VoxelGrid(voxel_size=size, min_corner=given, points=p)
        model |= set(map(tuple, i.tolist()))
        log.append(("new", i))
    else:
        vg = VoxelGrid(size, given)
    agrees(ctx, vg, lo, size, model, "new")
    d = ctx.tmp()
    for step in range(int(rng.integers(1, 7))):
        op = gen.pick(rng, ["add", "add", "add", "grow1", "again", "empty", "below", "io", "copy"])
        log.append(op)
        if op in ("add", "grow1"):
            p, i = batch(rng, lo, size, scale)
            if op == "grow1":  # far out along one axis only
                ax = rng.integers(3)
                i = np.zeros_like(i[:1])
                i[0, ax] = int(rng.integers(1, 50)) + (max(t[ax] for t in model) if model else 0)
                p = lo + (i + 0.5) * size
            q = p.copy()
            vg.add_points(p)
            ctx.equal(p, q, "add-changed-argument")
            model |= set(map(tuple, i.tolist()))
            ctx.count("grow_one_axis" if op == "grow1" else "adds")
            log.append(i)
        elif op == "again" and model:
            i = np.array(sorted(model))[rng.permutation(len(model))[:20]]
            vg.add_points(lo + (i + 0.5) * size)
        elif op == "empty":
            vg.add_points(np.zeros((0, 3)))
        elif op == "below":
            p, _ = batch(rng, lo, size, scale)
            p = np.array(p)
            p[rng.integers(len(p)), rng.integers(3)] = 0
            j = int(rng.integers(len(p)))
            p[j] = lo + 0.5 * size
            ax = rng.integers(3)
            p[j, ax] = lo[ax] - size * float(gen.pick(rng, [0.01, 0.5, 1.5, 1000.0]))
            ctx.raises(ValueError, lambda: vg.add_points(p), "below-min-corner-accepted")
            ctx.count("refused")
        elif op == "io":
            f = os.path.join(d, "g%d" % step + gen.pick(rng, ["", ".", ".h5.old", ".h5x", ".hdf5", " x", ".H5"]))
            vg.save(f + ".h5" if rng.integers(2) else f)
            vg = VoxelGrid.from_file(f + ".h5")
            ctx.count("file_roundtrips")
        elif op == "copy":
            other = copy.deepcopy(vg)
            vg.add_points((lo + 0.5 * size).reshape(1, 3))
            agrees(ctx, other, lo, size, model, "copy")
            model.add((0, 0, 0))
        agrees(ctx, vg, lo, size, model, op)
    ctx.case(size, lo, [x for x in log], sample=log)


@scenario(quick=600)
def borders(rng, ctx):
    """Points close to a voxel border, on either side of it, and close to the minimum corner."""
    size = float(2.0 ** rng.integers(-4, 3))
    lo = rng.integers(-8, 9, size=3) * size if rng.integers(3) else np.zeros(3)
    n = int(gen.pick(rng, [1, 2, 10, 60]))
    idx = rng.integers(0, 12, size=(n, 3))
    near = lambda shape: gen.pick(rng, [1e-4, 1e-6, 1e-8, 1e-9, 1e-10]) * rng.uniform(0.5, 1.0, size=shape)
    u = rng.uniform(0.02, 0.98, size=(n, 3))
    k = rng.integers(4, size=(n, 3))
    u = np.where(k == 0, 0.0, np.where(k == 1, near((n, 3)), np.where(k == 2, 1 - near((n, 3)), u)))
    p = lo + (idx + u) * size
    ctx.case(size, lo, p)
    vg = VoxelGrid(size, lo if np.any(lo) or rng.integers(2) else None)
    vg.add_points(p)
    model = set(map(tuple, idx.tolist()))
    agrees(ctx, vg, lo, size, model, "border")
    ctx.count("points_next_to_borders", int((k < 3).sum()))
    bad = p.copy()
    j, ax = int(rng.integers(n)), int(rng.integers(3))
    bad[j, ax] = lo[ax] - size * near(())
    ctx.raises(ValueError, lambda: vg.add_points(bad), "just-below-min-corner-accepted", point=bad[j], corner=lo)
    agrees(ctx, vg, lo, size, model, "border-refused")
    ctx.count("just_below_refused")


@scenario(quick=300)
def far_out(rng, ctx):
    """Grids whose index products exceed 2^31 and 2^53."""
    size = float(gen.pick(rng, [1.0, 0.5, 0.125]))
    big = int(2 ** rng.uniform(12, 21))
    n = int(rng.integers(1, 12))
    idx = rng.integers(0, big, size=(n, 3))
    if rng.integers(2):
        idx[:, rng.integers(3)] = rng.integers(0, 5, size=n)
    idx[0] = big - 1
    ctx.case(size, idx)
    k = int(rng.integers(0, n + 1))
    vg = VoxelGrid(size, None)
    for part in (idx[:k], idx[k:]):
        if len(part):
            vg.add_points((part + 0.5) * size)
    agrees(ctx, vg, np.zeros(3), size, set(map(tuple, idx.tolist())), "far")
    if rng.integers(3) == 0:
        f = os.path.join(ctx.tmp(), "far.h5")
        vg.save(f)
        agrees(ctx, VoxelGrid.from_file(f), np.zeros(3), size, set(map(tuple, idx.tolist())), "far-loaded")
        ctx.count("far_roundtrips")


@scenario(quick=600)
def files_of_other_writers(rng, ctx):
    """The stored format: voxels_3d (N x 3 indices), scale, min_corner, size_x, size_y."""
    size = float(gen.pick(rng, [1.0, 0.5, 0.1, 0.03]))
    lo = rng.normal(size=3)
    n = int(rng.integers(1, 30))
    idx = np.unique(rng.integers(0, 9, size=(n, 3)), axis=0)
    idx = idx[rng.permutation(len(idx))]
    f = os.path.join(ctx.tmp(), "a.h5")
    with h5py.File(f, "w") as h:
        h.create_dataset("voxels_3d", data=idx.astype(gen.pick(rng, ["int32", "int64", "uint8"])))
        h.attrs["scale"] = 1 / size
        h.attrs["min_corner"] = lo
        h.attrs["size_x"] = int(idx[:, 0].max()) + 1 + int(rng.integers(3))
        h.attrs["size_y"] = int(idx[:, 1].max()) + 1 + int(rng.integers(3))
    ctx.case(size, idx)
    model = set(map(tuple, idx.tolist()))
    vg = VoxelGrid.from_file(f)
    agrees(ctx, vg, lo, size, model, "foreign")
    p, i = batch(rng, lo, size, [1, 12])
    vg.add_points(p)
    model |= set(map(tuple, i.tolist()))
    agrees(ctx, vg, lo, size, model, "foreign-add")
    g = os.path.join(os.path.dirname(f), "b.h5")
    vg.save(g)
    with h5py.File(g, "r") as h:
        ctx.check(set(map(tuple, h["voxels_3d"][()].astype(int).tolist())) == model, "stored-voxels")
        ctx.close(h.attrs["scale"], 1 / size, "stored-scale", rtol=1e-12, atol=0)
        ctx.close(h.attrs["min_corner"], lo, "stored-min-corner", rtol=1e-12, atol=0)
    vg.load(f)  # replaces the whole contents
    agrees(ctx, vg, lo, size, set(map(tuple, idx.tolist())), "load-into")


@scenario(quick=400)
def file_failures(rng, ctx):
    d = ctx.tmp()
    n = int(rng.integers(1, 3000))
    p = rng.uniform(0, 20, size=(n, 3))
    vg = VoxelGrid(0.5, None, p)
    f, g = os.path.join(d, "a.h5"), os.path.join(d, "b.h5")
    vg.save(f)
    size = os.path.getsize(f)
    want = set(map(tuple, vg.voxel_centers().tolist()))
    limit = int(rng.integers(0, size + 100)) if rng.integers(4) else size + 10000
    ctx.case(n, limit)
    try:
        limited(limit, lambda: vg.save(g))
    except IOError:
        ctx.checks += 1
        ctx.count("write_failures_reported")
    else:
        ctx.count("writes_completed")
        ctx.check(set(map(tuple, VoxelGrid.from_file(g).voxel_centers().tolist())) == want, "silent-write-failure",
                  limit=limit, size=size)
    ctx.raises(IOError, lambda: vg.save(os.path.join(d, "no", "x.h5")), "missing-directory")
    ctx.raises(IOError, lambda: VoxelGrid.from_file(os.path.join(d, "none.h5")), "missing-file")
    # unreadable: not HDF5, or an attribute or the data set missing; the grid stays what it was
    bad = os.path.join(d, "bad.h5")
    kind = gen.pick(rng, ["text", "noset", "noattr", "shape", "truncated"])
    if kind == "text":
        open(bad, "wb").write(rng.bytes(int(rng.integers(0, 200))))
    elif kind == "truncated":
        b = open(f, "rb").read()
        open(bad, "wb").write(b[:int(rng.integers(0, len(b) // 2))])
    else:
        with h5py.File(bad, "w") as h:
            if kind != "noset":
                h.create_dataset("voxels_3d", data=np.zeros((4, 2) if kind == "shape" else (4, 3), "int32"))
            for a, v in (("scale", 1.0), ("min_corner", np.zeros(3)), ("size_x", 1), ("size_y", 1)):
                if not (kind == "noattr" and a == gen.pick(rng, ["scale", "min_corner", "size_x", "size_y"])):
                    h.attrs[a] = v
            if kind == "noattr" and "scale" in h.attrs:
                del h.attrs["scale"]
    ctx.raises(IOError, lambda: VoxelGrid.from_file(bad), "bad-file:" + kind)
    ctx.raises(IOError, lambda: vg.load(bad), "bad-load:" + kind)
    ctx.check(set(map(tuple, vg.voxel_centers().tolist())) == want, "failed-load-changed-grid")


@scenario(quick=300)
def refused_arguments(rng, ctx):
    s = float(gen.pick(rng, [0.0, -1.0, -1e-9]))
    ctx.case(s, rng.integers(1 << 30))
    ctx.raises(ValueError, lambda: VoxelGrid(s), "voxel-size-accepted")
    p = rng.normal(size=(5, 3))
    lo = p.min(axis=0)
    VoxelGrid(0.3, lo, p)
    ax = rng.integers(3)
    lo2 = lo.copy()
    lo2[ax] += 0.1
    ctx.raises(ValueError, lambda: VoxelGrid(0.3, lo2, p), "constructor-below-min")

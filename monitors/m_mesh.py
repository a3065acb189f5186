"""C07: mesh operations against a numpy shadow."""
import json
import numpy as np
from core import scenario
import gen
import shapes as S

from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh


def check(ctx, m, want, key, **w):
    """The mesh's whole observable state is <want>, and its faces refer to its vertices."""
    got = S.state(m)
    textured = "uv" in want
    ctx.check(m.is_textured() == textured, key + "-is-textured")
    loose = want.pop("undefined", None)  # slots whose contents are not specified
    for k in ("indices", "vertices", "normals") + (("uv", "bc", "mr") if textured else ()):
        a, b = got[k], want[k]
        if k in ("bc", "mr") and a.size == 0 and b.size == 0:
            continue
        ctx.check(a.shape == b.shape, key + "-" + k + "-shape", got=a.shape, expected=b.shape, **w)
        if loose is not None and len(loose) and k in ("vertices", "normals", "uv"):
            b = want[k] = np.array(b)
            for i in loose:
                if i < b.shape[1]:
                    b[:, i] = a[:, i]
        ctx.check(np.array_equal(a, b), key + "-" + k, got=a, expected=b, **w)
    ctx.check(m.num_indices() == len(want["indices"]) and m.num_vertices() == want["vertices"].shape[1],
              key + "-counts", got=(m.num_indices(), m.num_vertices()))
    ctx.check(got["vertices"].shape[0] == 3 and got["normals"].shape == got["vertices"].shape, key + "-per-vertex")
    ctx.check(got["indices"].dtype == np.uint32 and got["vertices"].dtype == np.float32, key + "-types")


def ref_merge(a, b, common):
    na, nb = a["vertices"].shape[1], b["vertices"].shape[1]
    i = b["indices"].astype(np.int64)
    out = dict(a)
    out["indices"] = np.concatenate([a["indices"], np.where(i < common, i, i + na - common)]).astype(np.uint32)
    for k in ("vertices", "normals"):
        out[k] = np.concatenate([a[k], b[k][:, common:]], axis=1)
    if "uv" in a:
        ua, ub = a["uv"], b["uv"]
        if ub.shape[1] > common:
            pad = np.zeros((2, na), np.float32)
            pad[:, :ua.shape[1]] = ua
            out["uv"] = np.concatenate([pad, ub[:, common:]], axis=1)
    return out


def ref_renumber(a, n, order):
    k = len(order)
    out = dict(a)
    i = a["indices"].astype(np.int64)
    table = np.array(list(order) + [n + j - k for j in range(k, a["vertices"].shape[1])], np.int64)
    out["indices"] = table[i].astype(np.uint32) if len(i) else a["indices"]
    for f in ("vertices", "normals", "uv"):
        x = a[f]
        head = np.zeros((x.shape[0], n), np.float32)
        for j, t in enumerate(order):
            head[:, t] = x[:, j]
        out[f] = np.concatenate([head, x[:, k:]], axis=1)
    out["undefined"] = set(range(n)) - set(order)
    return out


def edges(tris):
    return np.stack([np.linalg.norm(tris[:, a] - tris[:, b], axis=1) for a, b in ((0, 1), (1, 2), (2, 0))], axis=1)


def triangle_keep(ctx, s, keep):
    out = dict(s)
    out["indices"] = s["indices"].reshape(-1, 3)[keep].ravel()
    return out


def near(ctx, got, want, scale, key, **w):
    ctx.close(got, want, key, atol=3e-6 * scale + 1e-12, **w)


@scenario(quick=3000)
def histories(rng, ctx):
    """Random operations on a few meshes of one kind, the shadow stepped along."""
    kind = gen.pick(rng, ["plain", "textured"])
    pool = []
    for _ in range(int(rng.integers(1, 4))):
        m, s = S.mesh(rng, kind, **({} if kind == "plain" else dict(full_uv=bool(rng.integers(3)))))
        pool.append([m, s])
    log = [repr(sorted((k, v.tolist()) for k, v in p[1].items())) for p in pool]
    n = int(gen.pick(rng, [1, 3, 6, 12]))
    ops = []
    for step in range(n):
        k = int(rng.integers(len(pool)))
        m, s = pool[k]
        if s["vertices"].shape[1] > 4000 or len(s["indices"]) > 9000:
            break
        op = gen.pick(rng, ["merge", "merge", "merge_common", "merge_self", "bad_merge", "replace", "long", "origin",
                            "rotate", "transform", "renumber", "renumber_grow", "bad_renumber", "material"])
        if op.endswith("renumber") or op.startswith("renumber"):
            if kind == "plain":
                op = "merge"
        ops.append((op, k))
        o = int(rng.integers(len(pool)))
        m2, s2 = pool[o]
        if op == "merge":
            m.merge(m2)
            new = ref_merge(s, s2, 0)
        elif op == "merge_common":
            c = int(rng.integers(0, min(s["vertices"].shape[1], s2["vertices"].shape[1] + 2) + 1))
            m.merge(m2, c)
            new = ref_merge(s, s2, c)
            ctx.count("merges_with_common", c > 0)
        elif op == "merge_self":
            m.merge(m)
            new = ref_merge(s, s, 0)
        elif op == "bad_merge":
            ctx.raises((ValueError,), lambda: m.merge(m2, s["vertices"].shape[1] + 1 + int(rng.integers(5))),
                       "too-many-common", "merging more common vertices than there are")
            new = s
            ctx.count("refused")
        elif op == "replace":
            m.replace_geometry(m2)
            new = dict(s)
            for f in ("indices", "vertices", "normals", "uv"):
                if f in s:
                    new[f] = s2[f]
        elif op in ("long", "origin"):
            t = S.triangles(s)
            if len(s["indices"]) and s["indices"].max() >= s["vertices"].shape[1]:
                continue
            if op == "long":
                e = edges(t).max(axis=1) if len(t) else np.zeros(0)
                th = float(np.float32(gen.pick(rng, [0, 0.5, 1, 2, 5] + ([float(x) for x in e[:3]]))))
                if np.any(np.abs(e - th) < 1e-5 * (1 + th)) and not np.all(np.abs(e - th)[np.abs(e - th) < 1e-5 * (1 + th)] == 0):
                    continue
                if np.any(e == th) and np.any((s["vertices"] != np.round(s["vertices"]))):
                    continue  # float32 rounding decides
                if rng.integers(3):
                    m.cleanup_long_edges(th)
                else:
                    m.cleanup_long_edges(threshold=th)
                keep = e <= th
                ctx.count("long_removed", (~keep).sum())
            else:
                m.cleanup_edges_to_origin()
                keep = ~np.any(np.all(t == 0, axis=2), axis=1)
                if np.any((np.abs(t).max(axis=2) < 1e-8) & (np.abs(t).max(axis=2) > 0)):
                    continue
                ctx.count("origin_removed", (~keep).sum())
            new = triangle_keep(ctx, s, keep)
        elif op in ("rotate", "transform"):
            R, t = np.ascontiguousarray(gen.rotation(rng)), rng.normal(size=3) * gen.pick(rng, [0, 1, 30])
            r = m.rotate(Rot3(R)) if op == "rotate" else m.transform(Pose3(R=Rot3(R), t=t))
            check(ctx, m, s, op + "-changed-its-mesh", ops=ops)
            g = S.state(r)
            new = S.copy_state(s)
            new["vertices"] = R.dot(s["vertices"].astype(float)) + (t[:, None] if op == "transform" else 0)
            new["normals"] = R.dot(s["normals"].astype(float))
            for f in ("vertices", "normals"):
                scale = (np.abs(new[f]).max() if new[f].size else 0) + np.abs(t).max() + 1
                ctx.check(g[f].shape == new[f].shape, op + "-shape", got=g[f].shape, expected=new[f].shape)
                near(ctx, g[f], new[f], scale, op + "-" + f, ops=ops)
                new[f] = g[f]
            m = r
            ctx.count(op)
        elif op == "renumber":  # all vertices that have texture coordinates
            nu, nv = s["uv"].shape[1], s["vertices"].shape[1]
            k_ = nu if nu == nv else int(rng.integers(0, nu + 1))
            order = [int(x) for x in rng.permutation(k_)]
            m.renumber(k_, order)
            new = ref_renumber(s, k_, order)
            new = partial(ctx, m, s, new, k_, k_, ops)
            if new is None:
                return finish(ctx, log, ops)
        elif op == "renumber_grow":
            nu = s["uv"].shape[1]
            k_ = nu if s["vertices"].shape[1] == nu else int(rng.integers(0, nu + 1))
            n_ = k_ + int(rng.integers(0, 4))
            order = [int(x) for x in rng.permutation(n_)[:k_]]
            m.renumber(n_, order)
            new = ref_renumber(s, n_, order)
            new = partial(ctx, m, s, new, n_, k_, ops)
            if new is None:
                return finish(ctx, log, ops)
        elif op == "bad_renumber":
            nu = s["uv"].shape[1]
            if rng.integers(2) or nu == 0:
                bad = (nu + 3, list(range(nu + 1)))
            else:
                bad = (nu, list(range(nu - 1)) + [nu + int(rng.integers(3))])
            ctx.raises((ValueError,), lambda: m.renumber(*bad), "bad-renumbering", "renumber%s" % (bad,))
            new = s
            ctx.count("refused")
        else:
            same = m.has_same_material(m2)
            want = kind == "plain" or (s["mr"].size > 0) == (s2["mr"].size > 0)
            ctx.check(same == want, "same-material", got=same, expected=want)
            if kind == "textured":
                ctx.check(m.has_dual_texture_material() == (s["mr"].size > 0), "dual-texture")
            ctx.check(m.same_size(m2) == (len(s["indices"]) == len(s2["indices"]) and
                                          s["vertices"].shape[1] == s2["vertices"].shape[1]), "same-size")
            new = s
        pool[k] = [m, new]
        for j, (x, sx) in enumerate(pool):
            check(ctx, x, sx, "%s%s" % (op, "" if j == k else "-changed-another-mesh"), ops=ops)
        ctx.count("steps")
    finish(ctx, log, ops)


@scenario(quick=250)
def materials(rng, ctx):
    """Meshes have the same material exactly if their factors and textures are the same."""
    import refgltf
    n = int(rng.integers(2, 7))
    s = S.as_state((np.arange(3, dtype=np.uint32), S.f32(rng, (3, 3)), S.f32(rng, (3, 3))))
    s["itype"] = np.uint16
    base = dict(baseColorFactor=[float(x) for x in rng.uniform(0.1, 0.9, size=4)], metallicFactor=float(rng.uniform()),
                roughnessFactor=float(rng.uniform()))
    facs = []
    for _ in range(n):
        f = {k: (list(v) if k[0] == "b" else v) for k, v in base.items()}
        k = int(rng.integers(6))
        if k in (0, 1):
            q = int(rng.integers(4))
            f["baseColorFactor"][q] = 1 - f["baseColorFactor"][q]
        elif k == 2:
            f["metallicFactor"] = 1 - f["metallicFactor"]
        elif k == 3:
            f["roughnessFactor"] = 1 - f["roughnessFactor"]
        facs.append(f)
    d = ctx.tmp()
    path, _ = refgltf.write(rng, d, "m", [s] * n, facs, "gltf")
    with open(path, "rb") as g:
        j = json.loads(g.read().decode("utf-8"))
    for x in j["materials"]:
        x["name"] = "paint"
    with open(path, "w") as g:
        json.dump(j, g)
    m = GltfModel.load_from_gltf(path)
    ctx.case(repr(facs))
    parts = m.primitive_meshes()
    for a in range(n):
        for b in range(n):
            got = parts[a].has_same_material(parts[b])
            ctx.check(got == (facs[a] == facs[b]), "same-material-of-factors", got=got, first=facs[a], second=facs[b])
            ctx.count("same_materials" if facs[a] == facs[b] else "different_materials")


def finish(ctx, log, ops):
    ctx.case(log, ops, sample=ops)


def partial(ctx, m, s, new, n, k, ops):
    """Renumbering of a leading part: the recorded finding, or as it should be."""
    got = m.indices()
    if np.array_equal(got, new["indices"]):
        return new
    i = s["indices"].astype(np.int64)
    if 0 < k < s["vertices"].shape[1]:
        table = np.array(list(range(s["vertices"].shape[1])), np.int64) + n
        head = new["indices"].astype(np.int64)
        shifted = np.where(i < k, head, table[i]).astype(np.uint32)
        if np.array_equal(got, shifted):
            ctx.soft_check(False, "renumber-of-a-leading-part", n=n, k=k, got=got, expected=new["indices"])
            ctx.count("partial_renumbering")
            return None
    ctx.check(False, "renumber-indices", got=got, expected=new["indices"], ops=ops)


@scenario(quick=500)
def normals(rng, ctx):
    i, v, _ = S.arrays(rng, scale=10.0 ** (rng.uniform(-2, 2) if rng.integers(3) else rng.uniform(-7, 5)))
    ctx.case(i, v, trivial=len(i) == 0)
    keep = i.copy(), v.copy()
    f = Mesh.calculate_face_normals(i, v)
    e = Mesh.estimate_normals(i, v)
    ctx.check(np.array_equal(i, keep[0]) and np.array_equal(v, keep[1]), "arguments-changed")
    ctx.check(f.shape == (3, len(i) // 3) and e.shape == v.shape, "normal-shapes", got=(f.shape, e.shape))
    t = v.T.astype(float)[i.reshape(-1, 3).astype(int)] if len(i) else np.zeros((0, 3, 3))
    a, b = t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]
    c = np.cross(a, b)
    l = np.linalg.norm(c, axis=1)
    ref = np.divide(c, l[:, None], out=np.zeros_like(c), where=l[:, None] > 0)
    size = np.abs(t).max(axis=(1, 2)) if len(t) else np.zeros(0)
    good = l > 1e-2 * size * np.maximum(np.linalg.norm(a, axis=1), np.linalg.norm(b, axis=1))
    exact = np.all(t == np.round(t), axis=(1, 2)) & (size < 100) if len(t) else np.zeros(0, bool)
    good |= exact
    for k in range(len(t)):
        if good[k]:
            ctx.close(f[:, k], ref[k], "face-normal", atol=2e-4, triangle=t[k])
            ctx.count("face_normals")
        else:
            n = np.linalg.norm(f[:, k])
            ctx.check(n < 1e-12 or abs(n - 1) < 1e-4, "unit-face-normal", got=f[:, k], triangle=t[k])
    total = np.zeros(v.T.shape)
    ok = np.ones(v.shape[1], bool)
    for k, tri in enumerate(i.reshape(-1, 3).astype(int)):
        for x in tri:
            total[x] += ref[k]
            ok[x] &= good[k]
    for x in range(v.shape[1]):
        n = np.linalg.norm(total[x])
        if ok[x] and n == 0:
            ctx.check(np.linalg.norm(e[:, x]) < 1e-6 or abs(np.linalg.norm(e[:, x]) - 1) < 1e-4, "lone-vertex", got=e[:, x])
        elif ok[x] and n > 0.05:
            ctx.close(e[:, x], total[x] / n, "vertex-normal", atol=1e-2 if n < 0.5 else 2e-3)
            ctx.count("vertex_normals")


@scenario(quick=700)
def cleanups(rng, ctx):
    """Dropping triangles with long edges, and those with a corner at the origin."""
    kind = gen.pick(rng, ["plain", "textured"])
    a = list(S.arrays(rng, nv=int(rng.integers(3, 20)), nt=int(rng.integers(1, 20))) if kind == "plain" else
             S.textured_arrays(rng, nv=int(rng.integers(3, 20)), nt=int(rng.integers(1, 20))))
    v = a[1]
    if rng.integers(2):
        v[:] = np.round(v * 3)
    for k in range(int(rng.integers(0, 4))):
        x = int(rng.integers(v.shape[1]))
        z = rng.integers(3)
        v[:, x] = 0 if z == 0 else np.float32(1e-12) if z == 1 else v[:, x]
        if z == 2:  # on an axis or next to the origin: not at it
            v[:, x] = 0
            v[rng.integers(3), x] = gen.pick(rng, [1e-3, -1.0, 1e-6, 1.2e-10, -3e-10, 0.8e-10])
    m = (Mesh if kind == "plain" else TexturedMesh)(*a)
    s = S.as_state(a)
    t = S.triangles(s)
    ctx.case(*a)
    if rng.integers(2):
        m.cleanup_edges_to_origin()
        near0 = np.abs(t).max(axis=2)
        keep = ~np.any(near0 <= 1e-10, axis=1)
        ctx.count("origin_removed", (~keep).sum())
        ctx.count("origin_kept", keep.sum())
    else:
        e = edges(t).max(axis=1)
        whole = bool(np.all(v == np.round(v)))
        if rng.integers(4) == 0:  # tiny meshes, huge ones
            f = np.float32(10.0 ** gen.pick(rng, [-9, -5, 4, 9]))
            v *= f
            m = (Mesh if kind == "plain" else TexturedMesh)(*a)
            s = S.as_state(a)
            t = S.triangles(s)
            e = edges(t).max(axis=1)
            whole = False
            ctx.count("far_scales")
        th = gen.pick(rng, [None, 0.0, float(np.median(e)), float(e.max()), float(e.min()), float(rng.uniform(0, 5)),
                            float(np.median(e)) * 1.3, float(np.median(e)) * 0.7, -1.0, -float(e.max()), 1e15, float("inf")])
        lim = 5.0 if th is None else float(np.float32(th))
        close = np.abs(e - lim) < 1e-5 * max(abs(lim) if np.isfinite(lim) else 0, np.abs(t).max(), 1e-44)
        squares = np.isin(e, np.arange(200))  # exact in float32 too
        if np.any(close & ~(squares & whole & (e == lim))):
            ctx.case("decided by rounding", trivial=True)
            return
        m.cleanup_long_edges() if th is None else m.cleanup_long_edges(th)
        keep = e <= lim
        ctx.count("long_removed", (~keep).sum())
        ctx.count("long_kept", keep.sum())
    check(ctx, m, triangle_keep(ctx, s, keep), "cleanup")
    again = S.state(m)
    m.cleanup_edges_to_origin() if rng.integers(2) else m.cleanup_long_edges(1e30)
    ctx.check(len(m.indices()) <= len(again["indices"]), "cleanup-adds-triangles")


@scenario(quick=150)
def bad_indices(rng, ctx):
    i, v, n = S.arrays(rng, nv=int(rng.integers(1, 9)), nt=int(rng.integers(1, 6)))
    i[rng.integers(len(i))] = v.shape[1] + int(gen.pick(rng, [0, 1, 1000, 2 ** 31]))
    ctx.case(i, v)
    for f, name in ((Mesh.calculate_face_normals, "face-normals"), (Mesh.estimate_normals, "estimate-normals")):
        ctx.raises((IndexError,), lambda: f(i, v), "index-out-of-range", name)
    m = Mesh(i, v, n)
    for f, name in ((m.cleanup_long_edges, "long-edges"), (m.cleanup_edges_to_origin, "edges-to-origin")):
        ctx.raises((IndexError,), f, "index-out-of-range", name)
    check(ctx, m, S.as_state((i, v, n)), "after-refusal")
    # data that do not belong together
    ctx.raises((AssertionError, ValueError), lambda: Mesh(i, v, n[:, 1:]), "normals-missing")
    uv = np.zeros((2, v.shape[1] + 1), np.float32)
    ctx.raises((AssertionError, ValueError), lambda: TexturedMesh(i, v, n, uv), "too-many-uv")


def closed_box(ctx, s, lo, hi, inward, key):
    """The triangles of <s> are the surface of a box, all facing one way."""
    t = S.triangles(s)
    ctx.check(len(t) == 12, key + "-triangles", got=len(t))
    c = np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])
    area = 0.5 * np.linalg.norm(c, axis=1)
    size = np.asarray(hi) - np.asarray(lo)
    ctx.close(area.sum(), 2 * (size[0] * size[1] + size[1] * size[2] + size[2] * size[0]), key + "-area", rtol=1e-5, atol=1e-9)
    out = np.einsum("ij,ij->i", c, t.mean(axis=1) - (np.asarray(lo) + np.asarray(hi)) / 2)
    ctx.check(np.all(out < 0 if inward else out > 0), key + "-facing", got=out)
    ctx.close(t.reshape(-1, 3).min(axis=0), lo, key + "-min", rtol=1e-6)
    ctx.close(t.reshape(-1, 3).max(axis=0), hi, key + "-max", rtol=1e-6)
    vol = np.einsum("ij,ij->i", t[:, 0], np.cross(t[:, 1], t[:, 2])).sum() / 6
    ctx.close(abs(vol), np.prod(size), key + "-volume", rtol=1e-5, atol=1e-9)


@scenario(quick=150)
def ready_made(rng, ctx):
    """Example, cube and from_mesh constructors."""
    l = float(gen.pick(rng, [2.0, 1.0, 0.01, 37.5, rng.uniform(0.1, 10)]))
    inward = bool(rng.integers(2))
    size = int(rng.integers(1, 6)) if rng.integers(8) else int(rng.integers(6, 120))
    ctx.case(l, inward, size)
    m = Mesh.example(l, inward) if rng.integers(2) else Mesh.example(length=l, inward=inward)
    s = S.state(m)
    closed_box(ctx, s, [-l / 2] * 3, [l / 2] * 3, inward, "example")
    ctx.close(s["normals"], Mesh.estimate_normals(m.indices(), m.vertices()), "example-normals", atol=1e-6)
    out = np.sign(np.einsum("ij,ij->j", s["normals"].astype(float), s["vertices"].astype(float)))
    ctx.check(np.all(out == (-1 if inward else 1)), "example-normals-facing", got=out)
    bc, mr = gen.u8(rng, (size, 6 * size, 3)), gen.u8(rng, (2, 12, 3))
    plain, tex = Mesh.cube(), TexturedMesh.cube(bc, mr)
    for x, name in ((plain, "cube"), (tex, "textured-cube")):
        t = S.state(x)
        closed_box(ctx, t, [-1] * 3, [1] * 3, True, name)
        n = Mesh.calculate_face_normals(t["indices"], t["vertices"])
        for k, tri in enumerate(t["indices"].reshape(-1, 3)):
            for v in tri:
                ctx.close(t["normals"][:, v], n[:, k], name + "-normals", atol=1e-6)
    t = S.state(tex)
    ctx.check(np.array_equal(t["bc"], bc) and np.array_equal(t["mr"], mr), "cube-textures")
    # one sixth of the strip per face, in face order, right way round
    for f in range(6):
        u = t["uv"][:, 4 * f:4 * f + 4]
        want = np.array([[f / 6, (f + 1) / 6, f / 6, (f + 1) / 6], [1, 1, 0, 0]])
        ctx.close(u, want, "cube-uv", atol=1e-6, face=f)
    ctx.raises((AssertionError, ValueError), lambda: TexturedMesh.cube(gen.u8(rng, (size, 6 * size + 1, 3)), mr), "cube-aspect")
    depth = int(gen.pick(rng, [1, 2, 4, 5]))
    texels = gen.u8(rng, (int(rng.integers(1, 4)), int(rng.integers(1, 5)), depth))
    odd = dict(base_color_texture=texels) if rng.integers(2) else dict(metallic_roughness_texture=texels)
    ctx.raises((ValueError, RuntimeError), lambda: TexturedMesh(**odd), "texture-channels", "texture with %d channels accepted" % depth)
    ex = S.state(TexturedMesh.example())
    closed_box(ctx, ex, [-1] * 3, [1] * 3, True, "textured-example")
    base, want = S.mesh(rng, "plain")
    if rng.integers(3) == 0:
        col, made = np.full((3, 1), 255, np.uint8), TexturedMesh.from_mesh(base)
    else:
        col = gen.u8(rng, (3, 1))
        made = TexturedMesh.from_mesh(base, col)
    g = S.state(made)
    for k in ("indices", "vertices", "normals"):
        ctx.equal(g[k], want[k], "from-mesh-" + k)
    ctx.check(g["uv"].shape == (2, want["vertices"].shape[1]) and not np.any(g["uv"]), "from-mesh-uv")
    ctx.check(g["bc"].size > 0 and np.all(g["bc"] == col.ravel()), "from-mesh-colour", got=g["bc"], expected=col)
    check(ctx, base, want, "from-mesh-changed-its-mesh")


@scenario(quick=150)
def quadrants(rng, ctx):
    """Four quads with shared corners become one mesh of nine vertices in the documented order."""
    pos, nrm, uv = (rng.normal(size=(k, 9)).astype(np.float32) for k in (3, 3, 2))
    labels = [(0, 5, 4, 6), (5, 1, 6, 8), (4, 6, 2, 7), (6, 8, 7, 3)]
    faces = np.array([0, 1, 2, 1, 3, 2], np.uint32)
    bc, mr = S.texture(rng), S.texture(rng)
    ms, tris = [], []
    for q in labels:
        f = faces[rng.permutation(6).reshape(2, 3).ravel()] if rng.integers(2) else faces
        ms.append(TexturedMesh(f, pos[:, q].copy(), nrm[:, q].copy(), uv[:, q].copy(), bc, mr))
        tris.append(np.array(q)[f.astype(int)])
    ctx.case(pos, [t for t in tris])
    r = TexturedMesh.merge_quadrant_meshes(*ms)
    want = dict(indices=np.concatenate(tris).astype(np.uint32), vertices=pos, normals=nrm, uv=uv, bc=bc, mr=mr)
    check(ctx, r, want, "quadrants")


@scenario(quick=250)
def constructors(rng, ctx):
    """What goes in comes out, is a copy, and survives its arguments."""
    kind = gen.pick(rng, ["plain", "textured"])
    a = S.arrays(rng) if kind == "plain" else S.textured_arrays(rng, full_uv=bool(rng.integers(2)))
    ctx.case(kind, *a, trivial=a[1].shape[1] == 0)
    m = (Mesh if kind == "plain" else TexturedMesh)(*a)
    want = S.as_state(a)
    check(ctx, m, want, "constructor")
    for x in a:
        x[...] = 7
    check(ctx, m, want, "constructor-shares-arguments")
    for f in (m.indices, m.vertices, m.normals) + ((m.uv_coords,) if kind == "textured" else ()):
        y = f()
        y[...] = 9
    check(ctx, m, want, "accessor-shares-mesh")
    empty = (Mesh if kind == "plain" else TexturedMesh)()
    ctx.check(empty.num_indices() == 0 and empty.num_vertices() == 0, "default-is-empty")
    ctx.check(m.is_textured() == (kind == "textured"), "is-textured")

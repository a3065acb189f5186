"""C08: models in memory and in glTF/GLB files."""
import json
import os
import numpy as np
from PIL import Image
from core import scenario
import gen
import refgltf
import shapes

from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh

NAMES = ["m", "a b", "x.y", "$HOME", "~", "`id`", "$(id)", "*", "\u00fc\u4e2d", "a'b", 'q"q', "-n", "100%", "a;b", "m.gltf", "\\n"]
PLAIN = {"baseColorFactor": [1.0] * 4, "metallicFactor": 1.0, "roughnessFactor": 1.0}


def decode(ctx, path, key):
    try:
        return refgltf.Doc(path).primitives()
    except (refgltf.Bad, KeyError, IndexError, ValueError, OSError) as e:
        ctx.check(False, key + "-not-gltf", "%s: %s" % (type(e).__name__, e), head=open(path, "rb").read(3000))


def same_factors(ctx, got, want, key):
    ctx.check(sorted(got) == sorted(want), key + "-names", got=got, expected=want)
    for k in want:
        ctx.close(got[k], want[k], key + "-" + k, rtol=1e-13, atol=1e-300)


def same_model(ctx, m, want, key):
    """<m> has exactly the meshes <want>, by every way of asking."""
    ctx.equal(m.num_primitive_meshes(), len(want), key + "-count")
    got = m.primitive_meshes()
    ctx.equal(len(got), len(want), key + "-length")
    for k, (g, w) in enumerate(zip(got, want)):
        ctx.check(type(g) is (TexturedMesh if "uv" in w else Mesh), key + "-type", got=type(g))
        shapes.same(ctx, shapes.state(g), w, key)
        shapes.same(ctx, shapes.state(m.extract_primitive_mesh(k)), w, key + "-extract")
        if "uv" in w:
            shapes.same(ctx, shapes.state(m.extract_textured_primitive_mesh(k)), w, key + "-extract-textured")
        else:
            ctx.raises(AssertionError, lambda: m.extract_textured_primitive_mesh(k), key + "-extract-plain")
    ctx.raises((IndexError, RuntimeError, OverflowError), lambda: m.extract_primitive_mesh(len(want)), key + "-extract-beyond")


def image_list(want):
    return [s[k] for s in want if "uv" in s for k in ("bc", "mr") if s[k].size]


def big_mesh(rng):
    """More vertices than 16-bit indices reach."""
    nv = int(gen.pick(rng, [65535, 65536, 65537, 70000]))
    i = rng.integers(0, nv, size=60).astype(np.uint32)
    i[0], i[1], i[2] = nv - 1, 0, nv - 2
    a = (i, rng.normal(size=(3, nv)).astype(np.float32), rng.normal(size=(3, nv)).astype(np.float32))
    return Mesh(*a), shapes.as_state(a)


@scenario(quick=1500)
def save_and_load(rng, ctx):
    """A model built from meshes, in memory, as glTF, as GLB and through our own reader."""
    n = int(gen.pick(rng, [1, 1, 2, 3, 5, 12]))
    m, want = GltfModel(), []
    for _ in range(n):
        if rng.integers(40) == 0:
            x, s = big_mesh(rng)
        else:
            x, s = shapes.mesh(rng, far=True, **({'nv': 4} if not want else {}))
            if "uv" in s and s["uv"].shape[1] > 1 and rng.integers(8) == 0:  # fewer texture coordinates than vertices
                s["uv"] = s["uv"][:, :int(rng.integers(1, s["uv"].shape[1]))].copy()
                x = TexturedMesh(*[s[k] for k in ("indices", "vertices", "normals", "uv", "bc", "mr")])
        way = rng.integers(2)
        if way:
            m.add_mesh(x)
        elif "uv" in s:
            m.add_textured_primitive_mesh(x)
        else:
            m.add_primitive_mesh(x)
        want.append(s)
        del x
    ctx.case([[s[k] for k in sorted(s)] for s in want])
    same_model(ctx, m, want, "memory")
    images = image_list(want)
    ctx.equal(m.num_images(), len(images), "num_images")
    ctx.equal(m.num_nodes(), n, "num_nodes")
    ctx.check(m.num_buffers() >= 1, "num_buffers")
    for k, a in enumerate(images):
        ctx.equal(m.image_size(k), a.size, "image_size")
    ctx.check(len({m.image_uri(k) for k in range(len(images))}) == len(images), "image_uri-not-unique")
    for f in (m.image_size, m.image_uri):
        ctx.raises(IndexError, lambda: f(len(images)), "image-beyond")
    d = ctx.tmp(gen.pick(rng, NAMES))
    root = gen.pick(rng, NAMES)
    rel = bool(rng.integers(2))
    if rel:
        os.chdir(d)
    cwd = os.getcwd()
    for gen_ in range(2):
        g = os.path.join("." if rel else d, "g%d" % gen_)
        os.mkdir(g)
        p = m.save_as_gltf(g, root)
        ctx.equal(p, os.path.join(g, root + ".gltf"), "gltf-path")
        for (s, f), w in zip(decode(ctx, p, "gltf"), want):
            shapes.same(ctx, s, w, "gltf-file")
            same_factors(ctx, f, PLAIN, "gltf-factors")
        ctx.equal(len(refgltf.Doc(p).primitives()), n, "gltf-file-count")
        m1 = GltfModel.load_from_gltf(p)
        same_model(ctx, m1, want, "gltf")
        b = os.path.join(g, root + ".glb")
        before = sorted(os.listdir(g))
        tmp = sorted(os.listdir(os.environ["TMPDIR"]))
        m.save_as_glb(b)
        ctx.equal(sorted(os.listdir(g)), sorted(before + [root + ".glb"]), "glb-other-files")
        ctx.equal(sorted(os.listdir(os.environ["TMPDIR"])), tmp, "glb-left-temporary-files")
        ctx.equal(os.getcwd(), cwd, "glb-changed-directory")
        got = decode(ctx, b, "glb")
        ctx.equal(len(got), n, "glb-file-count")
        for (s, f), w in zip(got, want):
            shapes.same(ctx, s, w, "glb-file")
            same_factors(ctx, f, PLAIN, "glb-factors")
        m2 = GltfModel.load_from_glb(b)
        same_model(ctx, m2, want, "glb")
        ctx.equal([m2.image_size(k) for k in range(m2.num_images())], [a.size for a in images], "glb-image_size")
        ctx.check(m1.same_size(m) and m.same_size(m2) and m2.same_size(m1), "same_size")
        ctx.count("saved")
        m = m1 if rng.integers(2) else m2
        if rng.integers(2):
            break
    if root != root.strip() or rel:
        ctx.count("relative")


@scenario(quick=900)
def model_histories(rng, ctx):
    """Any order of adding, recolouring, retexturing, copying, saving and loading."""
    base = ctx.tmp("textures")
    pics = {}
    for k in range(3):
        a = shapes.texture(rng)
        n = ["t%d.png" % k, "sub/t%d.png" % k, "a.b.png", ["t.png", "sub/t.png", "other/t.png"][k], ["0.png", "sub/0.png", "1.png"][k]][int(rng.integers(5))]
        os.makedirs(os.path.join(base, os.path.dirname(n)), exist_ok=True)
        Image.fromarray(a).save(os.path.join(base, n))
        pics[n] = a
    m = GltfModel()
    x, s = shapes.mesh(rng, nv=5, far=True)  # (a file without any data is not glTF)
    m.add_mesh(x)
    want = [(s, json.loads(json.dumps(PLAIN)))]
    ops = []
    kept = []
    for step in range(int(rng.integers(2, 9))):
        op = gen.pick(rng, ["add", "add", "update", "update", "material", "copy", "gltf", "glb", "take"])
        ops.append(op)
        ctx.count("op_" + op)
        if op == "add":
            x, s = shapes.mesh(rng, far=True)
            m.add_mesh(x)
            want.append((s, json.loads(json.dumps(PLAIN))))
        elif op == "update":
            ups = []
            for k in range(int(rng.integers(0, len(want) + 2))):
                if rng.integers(3) == 0:
                    ups.append(None)
                    continue
                c = rng.uniform(0, 1, size=3)
                if rng.integers(4) == 0:  # nearly black
                    c = c * 10.0 ** rng.uniform(-9, -2)
                if rng.integers(2):
                    c = c * rng.integers(0, 2, size=3)
                uri = gen.pick(rng, [""] + sorted(pics))
                ups.append({"color": c, "uri": uri})
                ops.append((c, uri))
                if k < len(want):
                    s, f = want[k]
                    s, f = dict(s), dict(f)
                    if c.any():
                        f["baseColorFactor"] = list(c) + [1.0]
                    if uri and "uv" in s:
                        s["bc"] = pics[uri]
                    want[k] = (s, f)
            m.update_materials(base, ups)
        elif op == "material":
            f = dict(baseColorFactor=list(rng.uniform(0, 1, size=3)) + [1.0], metallicFactor=float(rng.uniform()),
                     roughnessFactor=float(rng.uniform()))
            d = ctx.tmp()
            before = len(json.load(open(m.save_as_gltf(d, "x")))["materials"])
            k = m.add_colored_material(gen.pick(rng, NAMES), np.array(f["baseColorFactor"][:3]), f["metallicFactor"], f["roughnessFactor"])
            ctx.equal(k, before, "material-index")
            pbr = json.load(open(m.save_as_gltf(d, "x")))["materials"][k]["pbrMetallicRoughness"]
            same_factors(ctx, pbr, f, "material-factors")
        elif op == "copy":
            kept.append((m, [w for w in want]))
            m = m.deepcopy()
        elif op in ("gltf", "glb"):
            d = ctx.tmp()
            if op == "gltf":
                p = m.save_as_gltf(d, "m")
                got = decode(ctx, p, "history")
                m = GltfModel.load_from_gltf(p)
            else:
                p = os.path.join(d, "m.glb")
                m.save_as_glb(p)
                got = decode(ctx, p, "history")
                m = GltfModel.load_from_glb(p)
            ctx.equal(len(got), len(want), "history-file-count", ops=ops)
            for (s, f), (ws, wf) in zip(got, want):
                shapes.same(ctx, s, ws, "history-file", ops=ops)
                same_factors(ctx, f, wf, "history-factors")
        else:  # its meshes make a new model, materials included
            got = m.primitive_meshes()
            keep = [0] + [k for k in range(1, len(want)) if rng.integers(3)]
            m = GltfModel()
            for k in keep:
                m.add_mesh(got[k])
            want = [want[k] for k in keep]
        same_model(ctx, m, [w for w, _ in want], "history-" + op)
    ctx.case(ops, [[s[k] for k in sorted(s)] for s, _ in want])
    for c, w in kept:  # copies stand on their own
        same_model(ctx, c, [s for s, _ in w], "history-original")
        got = decode(ctx, c.save_as_gltf(ctx.tmp(), "o"), "history-original")
        for (s, f), (ws, wf) in zip(got, w):
            same_factors(ctx, f, wf, "history-original-factors")
    got = decode(ctx, m.save_as_gltf(ctx.tmp(), "z"), "history-end")
    for (s, f), (ws, wf) in zip(got, want):
        shapes.same(ctx, s, ws, "history-end-file")
        same_factors(ctx, f, wf, "history-end-factors")


def foreign_prims(rng):
    prims, facs = [], []
    for _ in range(int(gen.pick(rng, [1, 1, 2, 3, 4]))):
        nt = int(gen.pick(rng, [1, 2, 4, 12]))
        it = gen.pick(rng, [np.uint8, np.uint16, np.uint32])
        nv = int(gen.pick(rng, [1, 3, 4, 8, 60, 200, 255, 256] + ([257, 400] if it is not np.uint8 else [])))
        if it is not np.uint8 and rng.integers(40) == 0:
            nv = int(gen.pick(rng, [32767, 32768, 32769, 40000, 65535, 65536] + ([65537, 70000] if it is np.uint32 else [])))
        i = rng.integers(0, nv, size=3 * nt)
        i[int(rng.integers(len(i)))] = nv - 1
        s = dict(indices=i.astype(np.uint32), itype=it, vertices=rng.normal(size=(3, nv)).astype(np.float32),
                 normals=rng.normal(size=(3, nv)).astype(np.float32))
        if rng.integers(3):
            s.update(uv=rng.normal(size=(2, nv)).astype(np.float32),
                     bc=shapes.texture(rng, rng.integers(6) == 0), mr=shapes.texture(rng, rng.integers(3) == 0))
        prims.append(s)
        f = {}
        if rng.integers(2):
            f["baseColorFactor"] = [float(x) for x in rng.uniform(0, 1, size=4)]
        if rng.integers(2):
            f["metallicFactor"] = gen.pick(rng, [0, 1, 0.0, float(rng.uniform())])
        if rng.integers(2):
            f["roughnessFactor"] = gen.pick(rng, [0, 0.5, float(rng.uniform())])
        facs.append(f)
    if rng.integers(4) == 0:  # one material for all but one
        k = int(rng.integers(len(facs)))
        facs = [dict(f if j == k and rng.integers(2) else facs[0]) for j, f in enumerate(facs)]
        for s in prims:
            if "uv" in s and rng.integers(2):
                s["bc"] = s["mr"] = np.zeros((0, 0, 3), np.uint8)
    return prims, facs


@scenario(quick=24)
def many_parts(rng, ctx):
    """Models of very many meshes and images."""
    n = int(gen.pick(rng, [40, 130, 260, 300]))
    m, want = GltfModel(), []
    for _ in range(n):
        x, s = shapes.mesh(rng, nv=int(rng.integers(1, 6)), nt=int(rng.integers(1, 3)), kind=gen.pick(rng, ["plain"] * 3 + ["textured"]))
        m.add_mesh(x)
        want.append(s)
    ctx.case(n, want[0]["vertices"], want[-1]["vertices"], sample=dict(meshes=n))
    d = ctx.tmp()
    if rng.integers(2):
        p = m.save_as_gltf(d, "many")
        back = GltfModel.load_from_gltf(p)
    else:
        p = os.path.join(d, "many.glb")
        m.save_as_glb(p)
        back = GltfModel.load_from_glb(p)
    for key, x in (("many", m), ("many-back", back)):
        ctx.equal(x.num_primitive_meshes(), n, key + "-count")
        got = x.primitive_meshes()
        ctx.equal(len(got), n, key + "-list")
        for k in [0, n // 2, n - 1] + [int(q) for q in rng.integers(0, n, size=20)]:
            shapes.same(ctx, shapes.state(got[k]), want[k], key)
    got = decode(ctx, p, "many")
    ctx.equal(len(got), n, "many-file-count")
    for (s, f), w in zip(got, want):
        shapes.same(ctx, s, w, "many-file")
    ctx.count("many_meshes", n)


@scenario(quick=1200)
def foreign_files(rng, ctx):
    """What other software writes loads to what it encodes."""
    prims, facs = foreign_prims(rng)
    kind = gen.pick(rng, ["gltf", "gltf", "glb"])
    d = ctx.tmp(gen.pick(rng, NAMES))
    path, used = refgltf.write(rng, d, gen.pick(rng, NAMES), prims, facs, kind)
    ctx.case(open(path, "rb").read())
    for u in used:
        ctx.count("foreign_" + u)
    want = [{k: v for k, v in s.items() if k != "itype"} for s in prims]
    # the generator's own reading agrees
    for (s, f), w in zip(refgltf.Doc(path).primitives(), want):
        shapes.same(ctx, s, w, "reference")
    m = (GltfModel.load_from_gltf if kind == "gltf" else GltfModel.load_from_glb)(path)
    same_model(ctx, m, want, "foreign")
    ctx.equal(m.num_buffers(), len(refgltf.Doc(path).buffers), "foreign-buffers")
    d2 = ctx.tmp()
    for _ in range(int(rng.integers(3))):  # and takes further meshes
        x, s = shapes.mesh(rng, nv=int(rng.integers(1, 9)), far=True)
        m.add_mesh(x)
        want.append(s)
        facs.append({})
        ctx.count("foreign_added")
    if rng.integers(3) == 0:  # a new colour for some: the others keep what they have
        ups = [dict(color=np.zeros(3), uri="") for _ in range(int(rng.integers(1, len(want) + 1)))]
        for k in rng.permutation(len(ups))[:2]:
            ups[k]["color"] = rng.uniform(0.01, 1, size=3)
            facs[k] = dict(facs[k], baseColorFactor=list(ups[k]["color"]) + [1.0])
        m.update_materials("", ups)
        ctx.count("foreign_updated")
        same_model(ctx, m, want, "foreign-updated")
    if rng.integers(2):
        p2 = m.save_as_gltf(d2, "again")
        back = GltfModel.load_from_gltf(p2)
    else:
        p2 = os.path.join(d2, "again.glb")
        m.save_as_glb(p2)
        back = GltfModel.load_from_glb(p2)
    same_model(ctx, back, want, "foreign-again")
    got = decode(ctx, p2, "foreign-again")
    ctx.equal(len(got), len(want), "foreign-again-count")
    for (s, f), w, wf in zip(got, want, facs):
        shapes.same(ctx, s, w, "foreign-again-file")
        same_factors(ctx, f, dict(PLAIN, **wf), "foreign-again-factors")
    ctx.count("foreign_saved_again")


@scenario(quick=250)
def failing_saves(rng, ctx):
    """A save that cannot be completed raises; nothing but the target is touched."""
    m, want = shapes.model(rng, nv=int(rng.integers(1, 30)))
    d = ctx.tmp()
    m.save_as_gltf(d, "m")
    b = os.path.join(d, "m.glb")
    m.save_as_glb(b)
    sizes = sorted({os.path.getsize(os.path.join(d, f)) for f in os.listdir(d)})
    kind = gen.pick(rng, ["gltf", "glb", "nodir", "nodir-glb", "isdir", "name", "kind"])
    ctx.case(kind, [[s[k] for k in sorted(s)] for s in want])
    cwd, tmp = os.getcwd(), sorted(os.listdir(os.environ["TMPDIR"]))
    if kind in ("gltf", "glb"):
        e = ctx.tmp()
        top = max(os.path.getsize(os.path.join(d, f)) for f in os.listdir(d) if (f == "m.glb" or kind == "gltf"))
        gl = [os.path.getsize(os.path.join(d, f)) for f in os.listdir(d) if f != "m.glb"]
        top = max(gl) if kind == "gltf" else max(gl + [os.path.getsize(b)])
        limit = int(gen.pick(rng, [0, 1, top // 2, top - 1] + [s - 1 for s in sizes if 0 < s <= top]))
        if kind == "gltf":
            fn = lambda: m.save_as_gltf(e, "m")
        else:
            fn = lambda: m.save_as_glb(os.path.join(e, "m.glb"))
        ctx.raises((RuntimeError, OSError), lambda: gen.limited(limit, fn), "disk-full-" + kind, limit=limit, sizes=sizes)
        ctx.count("write_failures_reported")
        if kind == "glb":
            ctx.check(set(os.listdir(e)) <= {"m.glb"}, "disk-full-left-files", got=os.listdir(e))
    elif kind == "nodir":
        ctx.raises(ValueError, lambda: m.save_as_gltf(os.path.join(d, "no"), "m"), "no-folder")
        ctx.raises(ValueError, lambda: m.save_as_gltf(b, "m"), "folder-is-file")
        ctx.check(not os.path.exists(os.path.join(d, "no")), "no-folder-made")
    elif kind == "nodir-glb":
        ctx.raises(OSError, lambda: m.save_as_glb(os.path.join(d, "no", "m.glb")), "glb-no-folder")
    elif kind == "isdir":
        os.mkdir(os.path.join(d, "x.gltf"))
        os.mkdir(os.path.join(d, "x.glb"))
        ctx.raises((OSError, RuntimeError), lambda: m.save_as_gltf(d, "x"), "gltf-is-dir")
        ctx.raises((OSError, RuntimeError), lambda: m.save_as_glb(os.path.join(d, "x.glb")), "glb-is-dir")
    elif kind == "name":
        ctx.raises((AssertionError, ValueError), lambda: m.save_as_glb(os.path.join(d, "m.gltf")), "glb-extension")
    else:
        for bad in (None, 3, "mesh", m, np.zeros(3)):
            ctx.raises((ValueError, TypeError), lambda: m.add_mesh(bad), "add_mesh-kind")
        same_model(ctx, m, want, "refused-add")
        ctx.raises(OSError, lambda: GltfModel.load_from_gltf(os.path.join(d, "none.gltf")), "load-missing")
        ctx.raises(OSError, lambda: GltfModel.load_from_glb(os.path.join(d, "none.glb")), "load-missing-glb")
        ctx.raises(OSError, lambda: GltfModel.load_from_glb(os.path.join(d, "m.gltf")), "load-gltf-as-glb")
        ctx.raises(OSError, lambda: GltfModel.load_from_gltf(b), "load-glb-as-gltf")
        ctx.raises((RuntimeError, OSError), lambda: m.update_materials(d, [{"color": np.zeros(3), "uri": "none.png"}]), "texture-missing")
        same_model(ctx, m, want, "refused-texture")
    ctx.equal(os.getcwd(), cwd, "failed-save-changed-directory")
    if kind not in ("name",):
        ctx.equal(sorted(os.listdir(os.environ["TMPDIR"])), tmp, "failed-save-left-temporary-files")


@scenario(quick=60)
def given_models(rng, ctx):
    """The example, one-mesh models and same_size."""
    x, s = shapes.mesh(rng, kind="textured")
    m = GltfModel.from_textured_mesh(x)
    ctx.case([s[k] for k in sorted(s)])
    same_model(ctx, m, [s], "from_textured_mesh")
    e = GltfModel.example()
    same_model(ctx, e, [shapes.state(TexturedMesh.example())], "example")
    a, sa = shapes.model(rng)
    b, sb = shapes.model(rng)

    def size(q):
        return (len(q["indices"]), q["vertices"].shape[1])
    # same number of meshes of the same sizes
    if len(sa) != len(sb) or any(size(p) != size(q) for p, q in zip(sa, sb)):
        ctx.check(not a.same_size(b) and not b.same_size(a), "same_size-of-different")
        ctx.count("different_size")
    ctx.check(a.same_size(a) and a.same_size(a.deepcopy()), "same_size-of-copy")
    c = a.deepcopy()
    c.add_mesh(x)
    ctx.check(not a.same_size(c) and not c.same_size(a), "same_size-of-longer")
    same_model(ctx, a, sa, "copy-changed-original")
    same_model(ctx, c, sa + [s], "copy-changed")

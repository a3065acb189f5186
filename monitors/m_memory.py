"""C23: allocator, descriptor and lifetime monitors around every public operation, and its failing forms.

growth            live native bytes, open descriptors and scratch files must not rise with repetition
results_outlive   results stay as they are after everything they were made from is gone and the heap was churned
heap_independent  the same call on a heap filled with 0x5a or 0xa5 gives the same result (no uninitialised memory)
pool              random creation and destruction orders
"""
import ctypes
import gc
import io
import os
import struct
import numpy as np
from core import scenario
import gen
import m_alias as A
import projects as P
import shapes

from sumo.geometry.pose3 import Pose3
from sumo.geometry.quaternion import Quaternion
from sumo.geometry.rot3 import Rot3
from sumo.images.multi_image_tiff import MultiImageTiff
from sumo.images.rgbd_360 import Rgbd360
from sumo.images.rgbd_tiff import MultiImagePageType as T
import sumo.images.rgbd_tiff as rgbd_tiff
from sumo.images.rgbdci_360 import Rgbdci360
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.point_cloud import PointCloud
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.voxel_grid import VoxelGrid

libc = ctypes.CDLL(None)
ASAN = "asan" in os.environ.get("LD_PRELOAD", "")


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in
                "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


if ASAN:
    libc.__sanitizer_get_current_allocated_bytes.restype = ctypes.c_size_t
else:
    libc.mallinfo2.restype = Mallinfo2


def live_bytes():
    gc.collect()
    if ASAN:
        return int(libc.__sanitizer_get_current_allocated_bytes())
    m = libc.mallinfo2()
    return int(m.uordblks + m.hblkhd)


def descriptors():
    return len(os.listdir("/proc/self/fd"))


def perturb(byte):
    if not ASAN:
        libc.mallopt(-6, byte)


def churn(byte):
    """Fill the heap's free chunks (and numpy's small-block cache) with <byte>."""
    perturb(byte)
    blocks = []
    for size in [1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 72, 96, 120, 128, 200, 256, 300, 512, 600, 1000, 1024, 2000, 4096, 9000, 20000, 60000]:
        for _ in range(12):
            blocks.append(np.full(size, byte, np.uint8))
    del blocks


# -- operations that fail ------------------------------------------------------------------------

FAIL = []


def fails(name, args, call):
    FAIL.append((name, args, call))


def f(name, data):
    p = os.path.join(os.getcwd(), name)
    with open(p, "wb") as fh:
        fh.write(data)
    return p


def missing(x):
    return os.path.join(os.getcwd(), "no", "such", "x" + x)


def big(r, n=400):
    return shapes.textured_arrays(r, nv=n, nt=200)


def tiff_bytes(r):
    p = missing("")
    p = os.path.join(os.getcwd(), "good.tiff")
    a = A.images(r)
    MultiImageTiff({T.RGB: np.tile(a[0], (6, 6, 1)).copy(), T.Depth: np.tile(a[1], (6, 6)).copy(), T.Category: np.tile(a[2], (6, 6)).copy(),
                    T.Instance: np.tile(a[3], (6, 6)).copy()}).save(p)
    return open(p, "rb").read()


def big_pages(r, **kw):
    h, w = 20, 30
    d = {T.RGB: gen.u8(r, (h, w, 3)), T.Depth: r.uniform(0.5, 20, size=(h, w)).astype(np.float32), T.Category: gen.u16(r, (h, w)),
         T.Instance: gen.u16(r, (h, w))}
    d.update(kw)
    return d


def glb_bytes(r):
    p = os.path.join(os.getcwd(), "good.glb")
    A.model(r).save_as_glb(p)
    return open(p, "rb").read()


def gltf_text(r):
    A.model(r).save_as_gltf(os.getcwd(), "good")
    return open(os.path.join(os.getcwd(), "good.gltf"), "rb").read()


def ply_text(r):
    p = os.path.join(os.getcwd(), "good.ply")
    A.cloud(r).write_ply(p)
    return open(p, "rb").read()


def h5_bytes(r):
    p = os.path.join(os.getcwd(), "good.h5")
    A.grid(r).save(p)
    return open(p, "rb").read()


def load_voxels(p):
    g = VoxelGrid()
    g.load(p)
    return g


def half(b):
    return b[:len(b) // 2]


for _n in (3, 5, 0):
    fails("Quaternion of %d" % _n, lambda r, n=_n: [np.zeros(n)], Quaternion)
fails("Quaternion of 2x2", lambda r: [np.zeros((2, 2))], Quaternion)
fails("Quaternion of text", lambda r: [np.array(["a", "b", "c", "d"])], Quaternion)
fails("Mesh of unequal arrays", lambda r: (lambda a: [a[0], a[1], a[2][:, :-1].copy()])(big(r)), Mesh)
fails("Mesh of wrong type", lambda r: (lambda a: [a[0], a[1].astype(float), a[2]])(big(r)), Mesh)
fails("Mesh of 2-row vertices", lambda r: (lambda a: [a[0], a[1][:2].copy(), a[2]])(big(r)), Mesh)
fails("TexturedMesh of unequal arrays", lambda r: (lambda a: [a[0], a[1], a[2][:, :-1].copy()] + list(a[3:]))(big(r)), TexturedMesh)
fails("TexturedMesh of wrong texture", lambda r: (lambda a: list(a[:4]) + [np.zeros((4, 4), np.uint8)])(big(r)), TexturedMesh)
fails("TexturedMesh of 1-row uv", lambda r: (lambda a: list(a[:3]) + [a[3][:1].copy()])(big(r)), TexturedMesh)
fails("merge too many", lambda r: [Mesh(*big(r)[:3]), Mesh(*big(r)[:3])], lambda a, b: a.merge(b, 10 ** 6))
fails("textured merge too many", lambda r: [TexturedMesh(*big(r)), TexturedMesh(*big(r))], lambda a, b: a.merge(b, 10 ** 6))
fails("renumber out of range", lambda r: [TexturedMesh(*big(r))], lambda m: m.renumber(400, [5000] * 400))
fails("face normals out of range", lambda r: [np.array([0, 1, 9999], np.uint32), shapes.f32(r, (3, 500))], Mesh.calculate_face_normals)
fails("estimate normals out of range", lambda r: [np.array([0, 1, 9999], np.uint32), shapes.f32(r, (3, 500))], Mesh.estimate_normals)
fails("add something else", lambda r: [A.model(r)], lambda g: g.add_mesh(3))
fails("extract beyond", lambda r: [A.model(r)], lambda g: g.extract_primitive_mesh(77))
fails("extract textured of plain", lambda r: [A.plain(r)], lambda m: (lambda g: (g.add_mesh(m), g.extract_textured_primitive_mesh(0)))(GltfModel()))
fails("image_size beyond", lambda r: [A.model(r)], lambda g: g.image_size(77))
fails("image_uri beyond", lambda r: [A.model(r)], lambda g: g.image_uri(77))
fails("model into missing folder", lambda r: [A.model(r)], lambda g: g.save_as_gltf(os.path.dirname(missing("")), "x"))
fails("glb into missing folder", lambda r: [A.model(r)], lambda g: g.save_as_glb(missing(".glb")))
fails("materials from missing file", lambda r: [A.model(r)], lambda g: g.update_materials(os.getcwd(), [{"color": np.ones(3), "uri": "nope.png"}]))
for _n, _l, _x in (("glb", GltfModel.load_from_glb, ".glb"), ("gltf", GltfModel.load_from_gltf, ".gltf"), ("ply", PointCloud.load_ply, ".ply"),
                   ("tiff", rgbd_tiff.load, ".tiff"), ("MultiImageTiff", MultiImageTiff.load, ".tiff"), ("Rgbd360", Rgbd360.load, ".tiff"),
                   ("Rgbdci360", Rgbdci360.load, ".tiff"), ("voxels", load_voxels, ".h5")):
    fails("%s missing" % _n, lambda r, x=_x: [missing(x)], _l)
    fails("%s empty" % _n, lambda r, x=_x: [f("e" + x, b"")], _l)
    fails("%s garbage" % _n, lambda r, x=_x: [f("g" + x, bytes(r.integers(0, 256, size=5000, dtype=np.uint8)))], _l)
for _n, _l, _b in (("glb", GltfModel.load_from_glb, glb_bytes), ("gltf", GltfModel.load_from_gltf, gltf_text),
                   ("tiff", rgbd_tiff.load, tiff_bytes), ("Rgbdci360", Rgbdci360.load, tiff_bytes), ("voxels", load_voxels, h5_bytes)):
    fails("%s truncated" % _n, lambda r, n=_n, b=_b: [f("t." + n, half(b(r)))], _l)
fails("gltf without its buffer", lambda r: [(gltf_text(r), os.remove("good.bin"))[0] and os.path.join(os.getcwd(), "good.gltf")], GltfModel.load_from_gltf)
fails("gltf with empty buffer", lambda r: [(gltf_text(r), f("good.bin", b""))[0] and os.path.join(os.getcwd(), "good.gltf")], GltfModel.load_from_gltf)
fails("ply truncated", lambda r: [f("t.ply", ply_text(r)[:40])], PointCloud.load_ply)
fails("points 2xN", lambda r: [r.normal(size=(2, 900))], PointCloud)
fails("points of text", lambda r: [np.array([["a"] * 500] * 3)], PointCloud)
fails("colours unequal", lambda r: [r.normal(size=(3, 900)), gen.u8(r, (3, 899))], PointCloud)
fails("colours of text", lambda r: [r.normal(size=(3, 500)), np.array([["a"] * 500] * 3)], PointCloud)
fails("point beyond", lambda r: [PointCloud(r.normal(size=(3, 400)))], lambda c: c.point(400))
fails("colour of none", lambda r: [PointCloud(r.normal(size=(3, 400)))], lambda c: c.color(0))
fails("merge mixed", lambda r: [PointCloud(r.normal(size=(3, 400)), gen.u8(r, (3, 400))), PointCloud(r.normal(size=(3, 400)))], PointCloud.merge)
fails("append mixed", lambda r: [PointCloud(r.normal(size=(3, 400)), gen.u8(r, (3, 400))), PointCloud(r.normal(size=(3, 400)))], lambda a, b: a.append(b))
fails("register mixed", lambda r: [PointCloud(r.normal(size=(3, 400)), gen.u8(r, (3, 400))), PointCloud(r.normal(size=(3, 400)))],
      lambda a, b: PointCloud.register([(Pose3(), a), (Pose3(), b)]))
fails("register of failing iterator", lambda r: [PointCloud(r.normal(size=(3, 400)))], lambda a: PointCloud.register((Pose3(), a if k < 2 else a.point(9999)) for k in range(3)))
fails("ply into missing folder", lambda r: [PointCloud(r.normal(size=(3, 400)))], lambda c: c.write_ply(missing(".ply")))
fails("coloured ply into missing folder", lambda r: [PointCloud(r.normal(size=(3, 400)), gen.u8(r, (3, 400)))], lambda c: c.write_ply(missing(".ply")))
fails("tiff into missing folder", lambda r: [big_pages(r)], lambda p: rgbd_tiff.save(p, missing(".tiff")))
fails("tiff page of unknown type", lambda r: [big_pages(r, bogus=np.zeros((20, 30), np.uint16))], lambda p: rgbd_tiff.save(p, os.path.join(os.getcwd(), "x.tiff")))
fails("tiff category of wrong type", lambda r: [big_pages(r, **{T.Instance: np.zeros((20, 30), np.float32)})], lambda p: rgbd_tiff.save(p, os.path.join(os.getcwd(), "x.tiff")))
fails("tiff pages of unequal size", lambda r: [big_pages(r, **{T.Category: np.zeros((3, 4), np.uint16)})], lambda p: rgbd_tiff.save(p, os.path.join(os.getcwd(), "x.tiff")))
fails("tiff depth of wrong type", lambda r: [big_pages(r, **{T.Depth: np.zeros((20, 30))})], lambda p: rgbd_tiff.save(p, os.path.join(os.getcwd(), "x.tiff")))
fails("cloud of unequal images", lambda r: [Rgbdci360(gen.u8(r, (4, 24, 3)), np.ones((5, 30), np.float32), gen.u16(r, (4, 24)), gen.u16(r, (4, 24)))], lambda i: i.create_point_cloud())
fails("project missing", lambda r: [os.getcwd()], lambda d: ProjectScene.load(d, "nothere"))


def damaged_project(r, track, damage):
    """A saved project with one of its files spoilt."""
    s = A.scene(r, track)
    name = "p"
    s.save(os.getcwd(), name)
    root = os.path.join(os.getcwd(), name)
    files = sorted(os.path.join(d, n) for d, _, ns in os.walk(root) for n in ns)
    sel = [p for p in files if p.endswith(damage)] or files
    with open(sel[-1], "rb") as fh:
        data = fh.read()
    with open(sel[-1], "wb") as fh:
        fh.write(half(data))
    return os.getcwd()


for _t, _x in (("meshes", ".glb"), ("voxels", ".h5"), ("meshes", ".xml"), ("bounding_box", ".xml")):
    fails("project of %s with half a %s" % (_t, _x), lambda r, t=_t, x=_x: [damaged_project(r, t, x)], lambda d: ProjectScene.load(d, "p"))

# readers, as operations
READ = []


def reads(name, make, load):
    READ.append((name, make, load, (), None))


def save_both(p):
    rgbd_tiff.save(p, os.path.join(os.getcwd(), "both.tiff"))
    return rgbd_tiff.load(os.path.join(os.getcwd(), "both.tiff"))


reads("save tiff of depth and inverse depth", lambda r: [big_pages(r, **{T.InverseDepth: gen.u16(r, (20, 30))})], save_both)
reads("load tiff", lambda r: [f("a.tiff", tiff_bytes(r))], lambda p: rgbd_tiff.load(p))
reads("load Rgbd360", lambda r: [f("a.tiff", tiff_bytes(r))], lambda p: Rgbd360.load(p))
reads("load Rgbdci360", lambda r: [f("a.tiff", tiff_bytes(r))], lambda p: Rgbdci360.load(p))
reads("load MultiImageTiff", lambda r: [f("a.tiff", tiff_bytes(r))], lambda p: MultiImageTiff.load(p))
reads("load glb", lambda r: [f("a.glb", glb_bytes(r))], GltfModel.load_from_glb)
reads("load gltf", lambda r: [gltf_text(r) and os.path.join(os.getcwd(), "good.gltf")], GltfModel.load_from_gltf)
reads("load ply", lambda r: [f("a.ply", ply_text(r))], PointCloud.load_ply)
reads("load voxels", lambda r: [f("a.h5", h5_bytes(r))], load_voxels)
for _t in P.TRACKS:
    reads("load project of " + _t, lambda r, t=_t: [A.scene(r, t).save(os.getcwd(), "p") or os.getcwd()], lambda d: ProjectScene.load(d, "p"))

OPS = A.OPS + READ
# results that depend on what went before (their own random numbers): not comparable between runs
RANDOM = ("PointCloud.thin", "ModelSampler", "Voxelizer", "Evaluator", "ProjectConverter.run-voxels")


def clean_up():
    import shutil
    for n in os.listdir("."):
        shutil.rmtree(n) if os.path.isdir(n) and not os.path.islink(n) else os.remove(n)


def repeat(make, call, seed, n, failing):
    """<n> times the same operation; returns how often it raised."""
    raised = 0
    for _ in range(n):
        try:
            a = make(np.random.default_rng(seed))
            call(*a)
        except Exception:
            if not failing:
                raise
            raised += 1
        a = None
        if os.listdir("."):
            clean_up()
    return raised


@scenario(quick=len(OPS) + len(FAIL), thorough=4 * (len(OPS) + len(FAIL)))
def growth(rng, ctx):
    k = ctx.index % (len(OPS) + len(FAIL))
    failing = k >= len(OPS)
    name, make, call = (FAIL[k - len(OPS)] if failing else OPS[k])[:3]
    seed = int(rng.integers(2 ** 62))
    n = 40
    ctx.case(name, seed, sample=dict(operation=name, failing=failing))
    tmp = os.environ["TMPDIR"]
    repeat(make, call, seed, n // 2, failing)
    grown, raised = [], 0
    fd, tf, last = descriptors(), len(os.listdir(tmp)), live_bytes()
    for window in range(16):  # one that adds nothing settles it: a leak adds something every time
        raised += repeat(make, call, seed, n, failing)
        now = live_bytes()
        grown.append(now - last)
        last = now
        if window >= 1 and min(grown) < 12 * n:
            break
    n *= len(grown)
    ctx.check(descriptors() <= fd + 1, "descriptors-leaked:" + name, "%d before, %d after %d calls" % (fd, descriptors(), n))
    ctx.check(len(os.listdir(tmp)) <= tf + 1, "scratch-files-leaked:" + name, got=os.listdir(tmp)[:5])
    ctx.check(min(grown) < 12 * 40, "native-memory-grows:" + name,
              "every 40 calls add %s bytes" % grown)
    ctx.count("failing_calls_repeated" if failing else "calls_repeated", n)
    if failing:
        ctx.count("calls_that_raised", raised)


@scenario(quick=len(OPS) * 3, thorough=len(OPS) * 30)
def results_outlive(rng, ctx):
    """Results of every operation, after all arguments are gone and the heap was overwritten."""
    name, make, call = OPS[ctx.index % len(OPS)][:3]
    seed = int(rng.integers(2 ** 62))
    ctx.case(name, seed)
    a = make(np.random.default_rng(seed))
    res = call(*a)
    was = A.snap(res)
    targets = [(x, A.snap(x)) for j, x in enumerate(a) if j in OPS[ctx.index % len(OPS)][3]]
    a = None
    gc.collect()
    for byte in (0x5a, 0xa5):
        churn(byte)
        ctx.check(A.snap(res) == was, "result-dangles:" + name)
        for x, w in targets:
            ctx.check(A.snap(x) == w, "target-dangles:" + name)
    perturb(0)
    ctx.count("results_checked")


@scenario(quick=len(OPS) * 3, thorough=len(OPS) * 30)
def heap_independent(rng, ctx):
    """The same call on differently filled heaps: a difference means memory nobody wrote was read."""
    name, make, call, inplace = OPS[ctx.index % len(OPS)][:4]
    seed = int(rng.integers(2 ** 62))
    ctx.case(name, seed)
    seen = []
    for byte in (0x5a, 0xa5, 0x11):
        np.random.seed(5)
        churn(byte)
        a = make(np.random.default_rng(seed))
        churn(byte)
        A.FNAME[0] = 0
        res = call(*a)
        seen.append((A.snap(res), [A.snap(a[j]) for j in inplace]))
        a = res = None
        clean_up()
    perturb(0)
    ctx.check(seen[0] == seen[1] == seen[2], "depends-on-heap:" + name)
    ctx.count("heaps_compared")


@scenario(quick=60, thorough=720)
def pool(rng, ctx):
    """Objects of all kinds, created and destroyed in random order, failing calls in between."""
    live = []
    log = []
    for step in range(60):
        k = int(rng.integers(10))
        if k < 2:
            name, make, call = FAIL[int(rng.integers(len(FAIL)))]
            try:
                call(*make(np.random.default_rng(int(rng.integers(2 ** 62)))))
            except Exception:
                pass
        else:
            name, make, call, inplace, alias = OPS[int(rng.integers(len(OPS)))]
            a = make(np.random.default_rng(int(rng.integers(2 ** 62))))
            res = call(*a)
            keep = [x for j, x in enumerate(a) if rng.integers(2)] + [res]
            a = res = None
            live.append((name, keep, [A.snap(x) for x in keep]))
            keep = None
        log.append(name)
        clean_up()
        while len(live) > 12:
            n, keep, was = live.pop(int(rng.integers(len(live))))
            ctx.check([A.snap(x) for x in keep] == was, "changed-while-alive:" + n, log=log[-8:])
            keep = None
    ctx.case(log)
    while live:
        n, keep, was = live.pop(int(rng.integers(len(live))))
        ctx.check([A.snap(x) for x in keep] == was, "changed-while-alive:" + n)
        keep = None
        ctx.count("pool_objects")

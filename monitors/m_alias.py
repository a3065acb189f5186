"""C25: before/after snapshots around every public operation, then modification of results and arguments."""
import os
import warnings
import numpy as np
from core import scenario
import evalscenes as E
import gen
import m_cloud
import projects as P
import shapes

from sumo.base.colored_category import ColoredCategory
import sumo.base.vector as vector
import sumo.geometry.inverse_depth as inverse_depth
from sumo.geometry.pose3 import Pose3
from sumo.geometry.quaternion import Quaternion
from sumo.geometry.rot3 import Rot3
from sumo.images.multi_image_tiff import MultiImageTiff
from sumo.images.rgbd_360 import Rgbd360
from sumo.images.rgbd_tiff import MultiImagePageType
import sumo.images.rgbd_tiff as rgbd_tiff
from sumo.images.rgbdci_360 import Rgbdci360
import sumo.metrics.utils as utils
from sumo.semantic.object_symmetry import ObjectSymmetry
from sumo.semantic.project_converter import ProjectConverter
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
from sumo.threedee.compute_bbox import ComputeBbox
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.model_sampler import ModelSampler
from sumo.threedee.point_cloud import PointCloud
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.voxel_grid import VoxelGrid
from sumo.threedee.voxelizer import Voxelizer

warnings.simplefilter("ignore")


# -- what can be seen of a value, and every way to modify it in place -----------------------

def snap(x):
    if x is None or isinstance(x, (bool, int, float, str, bytes, np.generic)):
        return (type(x).__name__, repr(x))
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, dict) and not isinstance(x, ProjectObjectDict):
        return ("dict", [(repr(k), snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, Rot3):
        return ("Rot3", snap(np.array(x.matrix())))
    if isinstance(x, Pose3):
        return ("Pose3", snap(np.array(x.matrix())))
    if isinstance(x, Quaternion):
        return ("Quaternion", snap(np.array(x.as_vector())))
    if isinstance(x, Box3d):
        return ("Box3d", snap(np.array(x.min_corner)), snap(np.array(x.max_corner)))
    if isinstance(x, Mesh):
        return ("Mesh", [(k, snap(v)) for k, v in sorted(shapes.state(x).items())])
    if isinstance(x, GltfModel):
        return ("GltfModel", [snap(m) for m in x.primitive_meshes()], x.num_images(),
                [x.image_uri(k) for k in range(x.num_images())], x.num_nodes(), x.num_buffers())
    if isinstance(x, PointCloud):
        return ("PointCloud", snap(np.array(x.points())), x.colored(), snap(np.array(x.colors())) if x.colored() else None)
    if isinstance(x, VoxelGrid):
        return ("VoxelGrid", x.voxel_size, snap(np.array(x.min_corner)), snap(np.array(x.voxel_centers())))
    if isinstance(x, ObjectSymmetry):
        return ("ObjectSymmetry", P.kinds_of(x))
    if isinstance(x, ProjectObject):
        return ("ProjectObject", x.id, x.project_type, snap(x.pose), snap(x.bounds), snap(x.voxels), snap(x.meshes), x.category,
                snap(x.symmetry), repr(x.score), x.evaluated)
    if isinstance(x, ProjectObjectDict):
        return ("ProjectObjectDict", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, ProjectScene):
        return ("ProjectScene", x.project_type, snap(x.elements), snap(x.settings))
    if isinstance(x, MultiImageTiff):
        return ("tiff", [snap(v) for v in (x.rgb, x.range, x.category, x.instance)])
    if isinstance(x, (Rgbd360, Rgbdci360)):
        return ("image", [(k, snap(v)) for k, v in sorted(vars(x).items())])
    if hasattr(x, "itertext"):  # an XML element
        import xml.etree.ElementTree as ET
        return ("xml", ET.tostring(x))
    raise TypeError("no snapshot for %s" % type(x))


def scramble(x, rng):
    """Modify <x> in place, by everything its class offers; returns what was touched."""
    n = 0
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable and x.dtype.kind in "uifb":
            x[...] = (x ^ 0x55 if x.dtype.kind in "ui" else x * -1.5 - 3)
            n += 1
    elif isinstance(x, ProjectObjectDict):
        for v in list(x.values()):
            n += scramble(v, rng)
        x["extra"] = ProjectObject.gen_bounding_box_object("extra", Box3d())
        n += 1
    elif isinstance(x, dict):
        for v in list(x.values()):
            n += scramble(v, rng)
        x["extra"] = 1
        n += 1
    elif isinstance(x, list):
        for v in x:
            n += scramble(v, rng)
        x.append(None)
        n += 1
    elif isinstance(x, tuple):
        for v in x:
            n += scramble(v, rng)
    elif isinstance(x, Rot3):
        n += scramble(x.matrix(), rng)
        n += scramble(x.R, rng) if hasattr(x, "R") else 0
    elif isinstance(x, Pose3):
        n += scramble(x.rotation(), rng) + scramble(x.translation(), rng)
        x.t = np.ones(3)
        x.R = Rot3.Rx(0.1)
        n += 1
    elif isinstance(x, Quaternion):
        n += scramble(x.as_vector(), rng)
    elif isinstance(x, Box3d):
        n += scramble(x.min_corner, rng) + scramble(x.max_corner, rng)
    elif isinstance(x, Mesh):
        for v in shapes_arrays(x):
            n += scramble(v, rng)
        if x.num_vertices():
            x.rotate(Rot3.AxisAngle(np.array([0.6, 0.8, 0]), 1.0)) if not isinstance(x, TexturedMesh) else None
            other = Mesh(*shapes.cube_arrays(np.zeros(3), np.ones(3)))
            if isinstance(x, TexturedMesh):
                x.replace_geometry(TexturedMesh.example())
            else:
                x.merge(other)
            n += 1
    elif isinstance(x, GltfModel):
        for m in x.primitive_meshes():
            n += scramble(m, rng)
        x.add_mesh(Mesh.example())
        x.update_materials("/", [{"color": np.array([0.5, 0.1, 0.2]), "uri": ""}])
        n += 1
    elif isinstance(x, PointCloud):
        n += scramble(x.points(), rng)
        n += scramble(x.colors(), rng) if x.colored() else 0
        if x.colored():
            x.append(PointCloud(np.ones((3, 2)), np.ones((3, 2), np.uint8)))
        else:
            x.append(PointCloud(np.ones((3, 2))))
        n += 1
    elif isinstance(x, VoxelGrid):
        n += scramble(x.voxel_centers(), rng)
        n += scramble(x.min_corner, rng)
        x.add_points(np.array([np.array(x.min_corner) + 2.5 * x.voxel_size + 100]))
        n += 1
    elif isinstance(x, ProjectObject):
        for v in (x.pose, x.bounds, x.voxels, x.meshes):
            n += scramble(v, rng) if v is not None else 0
        x.category = "scrambled"
        x.score = -77
        x.pose = Pose3()
        n += 1
    elif isinstance(x, ProjectScene):
        n += scramble(x.elements, rng) + scramble(x.settings, rng)
    elif isinstance(x, (Rgbd360, Rgbdci360)):
        for v in list(vars(x).values()):
            n += scramble(v, rng)
    elif isinstance(x, MultiImageTiff):
        for v in (x.rgb, x.range, x.category, x.instance):
            n += scramble(v, rng) if v is not None else 0
    elif hasattr(x, "itertext"):
        x.clear()
        x.text = "scrambled"
        n += 1
    return n


def shapes_arrays(m):
    out = [m.indices(), m.vertices(), m.normals()]
    if isinstance(m, TexturedMesh):
        out += [m.uv_coords(), m.base_color(), m.metallic_roughness()]
    return out


# -- argument makers -------------------------------------------------------------------------

def rot(rng):
    if rng.integers(5) == 0:  # the operand that changes nothing
        return Rot3()
    return Rot3(np.array(gen.rotation(rng)))


def pose(rng):
    k = rng.integers(6)
    if k == 0:
        return Pose3()
    if k == 1:
        return Pose3(rot(rng), np.zeros(3))
    return Pose3(rot(rng), rng.normal(size=3))


def v3(rng):
    return rng.normal(size=3)


def pts(rng):
    return rng.normal(size=(3, int(rng.integers(1, 9))))


def box(rng):
    a = rng.normal(size=3)
    if rng.integers(2):
        a = a.astype(np.float32)
    return Box3d(a, a + np.abs(rng.normal(size=3)).astype(a.dtype))


def plain(rng):
    return shapes.mesh(rng, kind="plain", nv=int(rng.integers(3, 9)), nt=int(rng.integers(1, 6)))[0]


def textured(rng):
    i, v, n = shapes.arrays(rng, nv=6, nt=4)
    return TexturedMesh(i, v, n, shapes.f32(rng, (2, 6)), shapes.texture(rng), shapes.texture(rng))


def either(rng):
    return plain(rng) if rng.integers(2) else textured(rng)


def model(rng):
    m = GltfModel()
    for _ in range(int(rng.integers(1, 4))):
        m.add_mesh(either(rng))
    return m


def cloud(rng, coloured=None):
    n = int(rng.integers(1, 12))
    if coloured is None:
        coloured = rng.integers(2)
    return PointCloud(m_cloud.points(rng, n), m_cloud.colors(rng, n)) if coloured else PointCloud(m_cloud.points(rng, n))


def two_clouds(rng):
    k = rng.integers(2)
    return [cloud(rng, k), cloud(rng, k)]


def grid(rng):
    return P.voxels(rng)


def gpts(rng, g):
    return [g, np.array(g.min_corner) + rng.uniform(0, 9, size=(int(rng.integers(1, 9)), 3)) * g.voxel_size]


def images(rng):
    h = int(rng.integers(1, 5))
    w = 6 * h
    r = rng.uniform(0.5, 20, size=(h, w)).astype(np.float32)
    return [gen.u8(rng, (h, w, 3)), r, gen.u16(rng, (h, w)), gen.u16(rng, (h, w))]


def pages(rng):
    a = images(rng)
    t = MultiImagePageType
    return {t.RGB: a[0], t.Depth: a[1], t.Category: a[2], t.Instance: a[3]}


def obj(rng):
    return P.obj(rng, gen.pick(rng, P.TRACKS), "o")


def objs(rng):
    t = gen.pick(rng, P.TRACKS)
    return [P.obj(rng, t, "o"), P.obj(rng, t, "o")]


def scene(rng, track=None):
    s = P.scene(rng, track, n=int(rng.integers(1, 4)))
    return s


def rich(rng):
    return scene(rng, gen.pick(rng, ["voxels", "meshes"]))


def ranked(rng):
    n = int(rng.integers(1, 9))
    return [rng.integers(0, 2, size=n), rng.permutation(n) / 10.0, n]


def fname(x):
    FNAME[0] += 1
    return os.path.join(os.getcwd(), "f%d%s" % (FNAME[0], x))


FNAME = [0]
HOLDS = "holds"  # the result is a holder of (or is) what it was given


def op(name, args, call, inplace=(), alias=None):
    OPS.append((name, args, call, inplace, alias))


OPS = []
# geometry
op("Rot3", lambda r: [np.array(gen.rotation(r))], lambda R: Rot3(R), alias=HOLDS)
op("Rot3.matrix", lambda r: [rot(r)], lambda a: a.matrix(), alias=HOLDS)
op("Rot3.column", lambda r: [rot(r)], lambda a: a(1), alias=HOLDS)
op("Rot3.inverse", lambda r: [rot(r)], lambda a: a.inverse(), alias=HOLDS)
op("Rot3.rotate", lambda r: [rot(r), v3(r)], lambda a, p: a.rotate(p))
op("Rot3.unrotate", lambda r: [rot(r), v3(r)], lambda a, p: a.unrotate(p))
op("Rot3*Rot3", lambda r: [rot(r), rot(r)], lambda a, b: a * b)
op("Rot3*array", lambda r: [rot(r), v3(r)], lambda a, b: a * b)
op("Rot3.FromColumns", lambda r: list(np.array(gen.rotation(r)).T.copy()), lambda x, y, z: Rot3.FromColumns(x, y, z))
op("Rot3.AxisAngle", lambda r: [gen.axis(r)], lambda d: Rot3.AxisAngle(d, 0.3))
op("Rot3.almost_equal", lambda r: [rot(r), rot(r)], lambda a, b: a.almost_equal(b))
op("Rot3.to_xml", lambda r: [rot(r)], lambda a: a.to_xml())
op("Rot3.from_xml", lambda r: [rot(r).to_xml()], lambda e: Rot3.from_xml(e))
op("Rot3.to_json", lambda r: [rot(r)], lambda a: a.to_json())
op("Rot3.from_json", lambda r: [rot(r).to_json()], lambda e: Rot3.from_json(e))
op("Pose3", lambda r: [rot(r), v3(r)], lambda R, t: Pose3(R, t), alias=HOLDS)
op("Pose3.rotation", lambda r: [pose(r)], lambda p: p.rotation(), alias=HOLDS)
op("Pose3.translation", lambda r: [pose(r)], lambda p: p.translation(), alias=HOLDS)
op("Pose3.compose", lambda r: [pose(r), pose(r)], lambda a, b: a.compose(b))
op("Pose3*Pose3", lambda r: [pose(r), pose(r)], lambda a, b: a * b)
op("Pose3*array", lambda r: [pose(r), v3(r)], lambda a, b: a * b)
op("Pose3*points", lambda r: [pose(r), pts(r)], lambda a, b: a * b)
op("Pose3.inverse", lambda r: [pose(r)], lambda a: a.inverse(), alias=HOLDS)
op("Pose3.transform_from", lambda r: [pose(r), v3(r)], lambda a, b: a.transform_from(b))
op("Pose3.transform_to", lambda r: [pose(r), v3(r)], lambda a, b: a.transform_to(b))
op("Pose3.transform_all_from", lambda r: [pose(r), pts(r)], lambda a, b: a.transform_all_from(b))
op("Pose3.transform_all_to", lambda r: [pose(r), pts(r)], lambda a, b: a.transform_all_to(b))
op("Pose3.matrix34", lambda r: [pose(r)], lambda a: a.matrix34())
op("Pose3.matrix", lambda r: [pose(r)], lambda a: a.matrix())
op("Pose3.almost_equal", lambda r: [pose(r), pose(r)], lambda a, b: a.almost_equal(b))
op("Pose3.FromMatrix34", lambda r: [pose(r).matrix34()], lambda m: Pose3.FromMatrix34(m), alias=HOLDS)
op("Pose3.to_xml", lambda r: [pose(r)], lambda a: a.to_xml())
op("Pose3.from_xml", lambda r: [pose(r).to_xml()], lambda e: Pose3.from_xml(e))
op("Pose3.to_json", lambda r: [pose(r)], lambda a: a.to_json())
op("Pose3.from_json", lambda r: [pose(r).to_json()], lambda e: Pose3.from_json(e))
op("Pose3.to_surreal", lambda r: [pose(r)], lambda a: a.to_surreal())
op("Pose3.from_surreal", lambda r: [pose(r).to_surreal()], lambda e: Pose3.from_surreal(e))
op("Pose3.ENU_camera", lambda r: [v3(r)], lambda t: Pose3.ENU_camera(0.1, 0.2, 0.3, t), alias=HOLDS)
op("Quaternion", lambda r: [r.normal(size=4)], lambda q: Quaternion(q))
op("Quaternion.as_vector", lambda r: [Quaternion(r.normal(size=4))], lambda q: q.as_vector())
op("Quaternion.to_rotation_matrix", lambda r: [Quaternion(r.normal(size=4))], lambda q: q.to_rotation_matrix())
for _f in ("inverse_depth_map_of_depth_image", "uint8_inverse_depth_map_of_depth_image"):
    op(_f, lambda r: [r.uniform(0.4, 9, size=(3, 4)).astype(np.float32)], getattr(inverse_depth, _f))
op("depth_image_of_inverse_depth_map", lambda r: [gen.u16(r, (3, 4))], inverse_depth.depth_image_of_inverse_depth_map)
for _f in ("depth_image_of_uint8_inverse_depth_map", "uint16_of_uint8_inverse_depth_map"):
    op(_f, lambda r: [gen.u8(r, (3, 4))], getattr(inverse_depth, _f))
op("unitize", lambda r: [v3(r)], vector.unitize)
op("on_left", lambda r: [v3(r), v3(r), v3(r), v3(r)], vector.on_left)
op("text_of_vector", lambda r: [v3(r)], vector.text_of_vector)
# boxes
op("Box3d", lambda r: [v3(r), v3(r)], lambda a, b: Box3d(a, b))
op("Box3d.point_in_box", lambda r: [box(r), v3(r)], lambda b, p: b.point_in_box(p))
op("Box3d.corners", lambda r: [box(r)], lambda b: b.corners())
op("Box3d.volume", lambda r: [box(r)], lambda b: b.volume())
op("Box3d.center", lambda r: [box(r)], lambda b: b.center())
op("Box3d==", lambda r: [box(r), box(r)], lambda a, b: a == b)
op("Box3d.almost_equal", lambda r: [box(r), box(r)], lambda a, b: a.almost_equal(b))
op("Box3d.to_mesh", lambda r: [box(r)], lambda b: b.to_mesh())
op("Box3d.to_textured_mesh", lambda r: [box(r)], lambda b: b.to_textured_mesh())
op("Box3d.to_xml", lambda r: [box(r)], lambda b: b.to_xml())
op("Box3d.from_xml", lambda r: [box(r).to_xml()], lambda e: Box3d.from_xml(e))
op("Box3d.merge", lambda r: [[box(r) for _ in range(int(r.integers(1, 4)))]], lambda b: Box3d.merge(b))
op("ComputeBbox.from_point_cloud", lambda r: [pts(r)], lambda p: ComputeBbox().from_point_cloud(p))
op("ComputeBbox.from_mesh", lambda r: [either(r)], lambda m: ComputeBbox().from_mesh(m))
op("ComputeBbox.from_meshes", lambda r: [[either(r), either(r)]], lambda m: ComputeBbox().from_meshes(m))
op("ComputeBbox.from_gltf_object", lambda r: [model(r)], lambda m: ComputeBbox().from_gltf_object(m))
# meshes
op("Mesh", lambda r: list(shapes.arrays(r, nv=5, nt=3)), lambda *a: Mesh(*a))
op("TexturedMesh", lambda r: list(shapes.textured_arrays(r, nv=5, nt=3)), lambda *a: TexturedMesh(*a))
for _f in ("indices", "vertices", "normals", "num_vertices", "num_indices"):
    op("Mesh." + _f, lambda r: [either(r)], lambda m, f=_f: getattr(m, f)())
for _f in ("uv_coords", "base_color", "metallic_roughness"):
    op("TexturedMesh." + _f, lambda r: [textured(r)], lambda m, f=_f: getattr(m, f)())
op("Mesh.rotate", lambda r: [plain(r), rot(r)], lambda m, R: m.rotate(R), inplace=(0,), alias=HOLDS)
op("Mesh.transform", lambda r: [plain(r), pose(r)], lambda m, T: m.transform(T), inplace=(0,), alias=HOLDS)
op("TexturedMesh.rotate", lambda r: [textured(r), rot(r)], lambda m, R: m.rotate(R), inplace=(0,), alias=HOLDS)
op("TexturedMesh.transform", lambda r: [textured(r), pose(r)], lambda m, T: m.transform(T), inplace=(0,), alias=HOLDS)
op("Mesh.merge", lambda r: [plain(r), plain(r)], lambda a, b: a.merge(b), inplace=(0,))
op("TexturedMesh.merge", lambda r: [textured(r), textured(r)], lambda a, b: a.merge(b), inplace=(0,))
def common(a, b, rng):
    """Two meshes and a number of vertices the second one has in common with the first (more than it has, now and then)."""
    return [a, b, int(rng.integers(a.num_vertices() + 1))]


op("Mesh.merge-common", lambda r: common(plain(r), plain(r), r), lambda a, b, n: a.merge(b, n), inplace=(0,))
op("TexturedMesh.merge-common", lambda r: common(textured(r), textured(r), r), lambda a, b, n: a.merge(b, n), inplace=(0,))
op("Mesh.replace_geometry", lambda r: [plain(r), plain(r)], lambda a, b: a.replace_geometry(b), inplace=(0,))
op("TexturedMesh.replace_geometry", lambda r: [textured(r), textured(r)], lambda a, b: a.replace_geometry(b), inplace=(0,))
op("TexturedMesh.from_mesh", lambda r: [plain(r), gen.u8(r, (3, 1))], lambda m, c: TexturedMesh.from_mesh(m, c))
op("Mesh.calculate_face_normals", lambda r: list(shapes.arrays(r, nv=5, nt=3)[:2]), lambda i, v: Mesh.calculate_face_normals(i, v))
op("Mesh.estimate_normals", lambda r: list(shapes.arrays(r, nv=5, nt=3)[:2]), lambda i, v: Mesh.estimate_normals(i, v))
op("Mesh.has_same_material", lambda r: [either(r), either(r)], lambda a, b: a.has_same_material(b))
op("Mesh.same_size", lambda r: [either(r), either(r)], lambda a, b: a.same_size(b))
op("TexturedMesh.renumber", lambda r: [textured(r), [int(x) for x in r.permutation(6)]], lambda m, p: m.renumber(6, p), inplace=(0,))
op("merge_quadrant_meshes", lambda r: [textured(r) for _ in range(4)], lambda a, b, c, d: TexturedMesh.merge_quadrant_meshes(a, b, c, d),
   inplace=(0, 1, 2, 3), alias=HOLDS)  # documented: "mutates arguments"
# models
op("GltfModel.from_textured_mesh", lambda r: [textured(r)], lambda m: GltfModel.from_textured_mesh(m))
op("GltfModel.add_mesh", lambda r: [model(r), either(r)], lambda g, m: g.add_mesh(m), inplace=(0,))
op("GltfModel.deepcopy", lambda r: [model(r)], lambda g: g.deepcopy())
op("GltfModel.primitive_meshes", lambda r: [model(r)], lambda g: g.primitive_meshes())
op("GltfModel.extract_primitive_mesh", lambda r: [model(r)], lambda g: g.extract_primitive_mesh(0))
op("GltfModel.same_size", lambda r: [model(r), model(r)], lambda a, b: a.same_size(b))
op("GltfModel.save_as_gltf", lambda r: [model(r)], lambda g: g.save_as_gltf(os.getcwd(), "m") and None)
op("GltfModel.save_as_glb", lambda r: [model(r)], lambda g: g.save_as_glb(fname(".glb")))
op("GltfModel.update_materials", lambda r: [model(r), [{"color": r.uniform(size=3), "uri": ""}, None]],
   lambda g, m: g.update_materials("/", m), inplace=(0,))
op("GltfModel.add_colored_material", lambda r: [model(r), r.uniform(size=3)], lambda g, c: g.add_colored_material("n", c, 0.1, 0.2),
   inplace=(0,))
op("ModelSampler", lambda r: [model(r)], lambda g: ModelSampler(3.0 / scale_of(g)).run(g))
op("Voxelizer", lambda r: [model(r)], lambda g: Voxelizer(3.0 / scale_of(g), max(0.1, scale_of(g) ** 0.5)).run(g))
# clouds
op("PointCloud", lambda r: [pts(r)], lambda p: PointCloud(p))
op("PointCloud-coloured", lambda r: (lambda p: [p, m_cloud.colors(r, p.shape[1])])(pts(r)), lambda p, c: PointCloud(p, c))
op("PointCloud.points", lambda r: [cloud(r)], lambda c: c.points())
op("PointCloud.colors", lambda r: [cloud(r, True)], lambda c: c.colors())
op("PointCloud.point", lambda r: [cloud(r)], lambda c: c.point(0))
op("PointCloud.color", lambda r: [cloud(r, True)], lambda c: c.color(0))
op("PointCloud.merge", two_clouds, lambda a, b: PointCloud.merge(a, b))
op("PointCloud+", two_clouds, lambda a, b: a + b)
op("sum of clouds", lambda r: [two_clouds(r)], lambda cs: sum(cs))
op("sum of one cloud", lambda r: [[cloud(r)]], lambda cs: sum(cs), alias=HOLDS)
op("PointCloud.register", lambda r: [[(c, pose(r)) for c in two_clouds(r)]], lambda cs: PointCloud.register((p, c) for c, p in cs))
op("PointCloud.register-one", lambda r: [[(c, pose(r)) for c in two_clouds(r)[:1]]], lambda cs: PointCloud.register((p, c) for c, p in cs))
op("PointCloud.append", two_clouds, lambda a, b: a.append(b), inplace=(0,))
op("PointCloud.thin", lambda r: [cloud(r)], lambda c: c.thin(3), inplace=(0,), alias=HOLDS)
op("PointCloud.transform_from", lambda r: [cloud(r), pose(r)], lambda c, p: c.transform_from(p))
op("PointCloud.transform_to", lambda r: [cloud(r), pose(r)], lambda c, p: c.transform_to(p))
op("PointCloud.write_ply", lambda r: [cloud(r)], lambda c: c.write_ply(fname(".ply")))
op("PointCloud.save", lambda r: [cloud(r), np.array([1, 2, 3])], lambda c, k: c.save(fname(".ply"), k))
# voxels
op("VoxelGrid", lambda r: [v3(r)], lambda lo: VoxelGrid(0.5, lo, lo + r_points()))
op("VoxelGrid-points", lambda r: (lambda lo: [lo, lo + r.uniform(0, 3, size=(5, 3))])(v3(r)), lambda lo, p: VoxelGrid(0.5, lo, p))
op("VoxelGrid.add_points", lambda r: gpts(r, grid(r)), lambda g, p: g.add_points(p), inplace=(0,))
op("VoxelGrid.voxel_centers", lambda r: [grid(r)], lambda g: g.voxel_centers())
op("VoxelGrid.min_corner", lambda r: [grid(r)], lambda g: g.min_corner)
op("VoxelGrid.bounds", lambda r: [grid(r)], lambda g: g.bounds())
op("VoxelGrid.save", lambda r: [grid(r)], lambda g: g.save(fname(".h5")))
# images
op("Rgbd360", lambda r: images(r)[:2], lambda *a: Rgbd360(*a), alias=HOLDS)
op("Rgbdci360", lambda r: images(r), lambda *a: Rgbdci360(*a), alias=HOLDS)
op("MultiImageTiff", lambda r: [pages(r)], lambda p: MultiImageTiff(p), alias=HOLDS)
op("rgbd_tiff.save", lambda r: [pages(r)], lambda p: rgbd_tiff.save(p, fname(".tiff")))
op("Rgbd360.save", lambda r: [Rgbd360(*images(r)[:2])], lambda i: i.save(fname(".tiff")))
op("Rgbdci360.save", lambda r: [Rgbdci360(*images(r))], lambda i: i.save(fname(".tiff")))
op("MultiImageTiff.save", lambda r: [MultiImageTiff(pages(r))], lambda i: i.save(fname(".tiff")))
op("create_point_cloud", lambda r: [Rgbdci360(*images(r))], lambda i: i.create_point_cloud(True))
op("create_point_cloud-valid", lambda r: [Rgbdci360(*images(r))], lambda i: i.create_point_cloud())
# projects
op("ProjectObject.transform_pose", lambda r: [obj(r), pose(r)], lambda o, p: o.transform_pose(p), alias="shape")
op("ProjectObject.almost_equal", lambda r: objs(r), lambda a, b: a.almost_equal(b))
op("ProjectScene.transform_pose", lambda r: [scene(r), pose(r)], lambda s, p: s.transform_pose(p), alias="shape")
op("ProjectScene.save", lambda r: [scene(r)], lambda s: s.save(os.getcwd(), os.path.basename(fname(""))))
op("ProjectObjectDict.almost_equal", lambda r: (lambda t: [scene(r, t).elements, scene(r, t).elements])(gen.pick(r, P.TRACKS)), lambda a, b: a.almost_equal(b))
op("ProjectConverter.run", lambda r: [converted(r)], lambda s: ProjectConverter().run(s, "bounding_box"))
op("ProjectConverter.run-voxels", lambda r: [solid(r)], lambda s: ProjectConverter().run(s, "voxels"))
op("ObjectSymmetry.from_strings", lambda r: [list(gen.pick(r, P.VALID))], lambda k: ObjectSymmetry.from_strings(k))
op("ObjectSymmetry.to_xml", lambda r: [P.sym(gen.pick(r, P.VALID))], lambda s: s.to_xml())
op("ObjectSymmetry.from_xml", lambda r: [P.sym(gen.pick(r, P.VALID)).to_xml()], lambda e: ObjectSymmetry.from_xml(e))
# metrics
op("compute_ap", ranked, lambda m, s, n: utils.compute_ap(m, s, n))
op("compute_ap-sampled", lambda r: ranked(r) + [np.linspace(0, 1, 11)], lambda m, s, n, q: utils.compute_ap(m, s, n, q, interp=True))
op("compute_pr", ranked, lambda m, s, n: utils.compute_pr(m, s, n))
op("compute_auc_ap", ranked, lambda m, s, n: utils.compute_auc_ap(m, s, n))
op("matrix_to_quat", lambda r: [np.array(gen.rotation(r))], utils.matrix_to_quat)
op("quat_to_matrix", lambda r: [(lambda q: q / np.linalg.norm(q))(r.normal(size=4))], utils.quat_to_matrix)
op("quat_to_euler", lambda r: [(lambda q: q / np.linalg.norm(q))(r.normal(size=4))], utils.quat_to_euler)
op("euler_to_quat", lambda r: [r.uniform(-1, 1, size=3)], utils.euler_to_quat)
op("euler_to_matrix", lambda r: [r.uniform(-1, 1, size=3)], utils.euler_to_matrix)
op("matrix_to_euler", lambda r: [np.array(gen.rotation(r))], utils.matrix_to_euler)
op("points_iou", lambda r: [r.normal(size=(4, 3)), box(r), r.normal(size=(5, 3)), box(r)], lambda a, b, c, d: utils.points_iou(a, b, c, d, 0.5))
op("nearest_neighbors", lambda r: [r.normal(size=(4, 3)), r.normal(size=(5, 3))], utils.nearest_neighbors)
op("Evaluator", lambda r: evaluation(r), lambda t, s, g, c: E.EVALUATORS[t](s, g, c).evaluate_all())


def scale_of(g):
    s = [shapes.triangles(shapes.state(m)) for m in g.primitive_meshes()]
    t = np.concatenate(s)
    return max(float(np.abs(t).max()) ** 2, 1e-6) if len(t) else 1.0


def r_points():
    return np.array([[0.1, 0.2, 0.3], [1.0, 2.0, 0.5]])


def solid(rng):
    s = scene(rng, "meshes")
    for k in s.elements:
        s.elements[k].meshes = shapes.solid_model(rng)[0]
    return s


def converted(rng):
    return solid(rng) if rng.integers(2) else scene(rng, "voxels")


def evaluation(rng):
    track, dets, gts, _ = E.pair(rng, nd=2, ng=2)
    gts[0]["evaluated"] = True
    s = E.Evaluator.default_settings()
    s["thresholds"] = np.array([0.5, 0.8])
    s["categories"] = list(E.CATS)
    return [track, E.scene(track, dets), E.scene(track, gts), s]


def without_shape(s):
    """Moved copies share the shape, category and so on with the original; poses are their own."""
    return s


@scenario(quick=len(OPS) * 40)
def operations(rng, ctx):
    name, make, call, inplace, alias = OPS[ctx.index % len(OPS)]
    seed = int(rng.integers(2 ** 62))

    def args():
        return make(np.random.default_rng(seed))
    a = args()
    before = [snap(x) for x in a]
    ctx.case(name, repr(before))
    res = call(*a)
    ctx.count("operations")
    for k, (x, b) in enumerate(zip(a, before)):
        if k not in inplace:
            ctx.check(snap(x) == b, "argument-changed:" + name, argument=k)
    first = snap(res)
    now = [snap(x) for x in a]
    if alias is None:
        n = scramble(res, rng)
        for x, b in zip(a, now):
            ctx.check(snap(x) == b, "result-shares-with-argument:" + name)
        ctx.count("results_modified", n > 0)
    # and the other way round, on fresh arguments
    a = args()
    np.random.seed(1)
    res = call(*a)
    was = snap(res)
    if alias is None and inplace == ():
        n = sum(scramble(x, rng) for x in a)
        ctx.check(snap(res) == was, "argument-shares-with-result:" + name)
        ctx.count("arguments_modified", n > 0)
    elif inplace:  # the target must not share with what was merged in, moved by, ...
        target = a[inplace[0]]
        was = snap(target)
        for k, x in enumerate(a):
            if k not in inplace:
                scramble(x, rng)
        ctx.check(snap(target) == was, "target-shares-with-argument:" + name)
        others = args()
        call(*others)
        kept = [snap(x) for x in others]
        scramble(others[inplace[0]], rng)
        for k, x in enumerate(others):
            if k not in inplace:
                ctx.check(snap(x) == kept[k], "argument-shares-with-target:" + name)
        ctx.count("targets_modified")
    elif alias == "shape":  # only the shape is shared
        for o, m in moved(a[0], res):
            p = snap(o.pose)
            o.category, o.score, o.symmetry = "changed", -5, ObjectSymmetry()
            q = (snap(m.pose), m.category, repr(m.score))
            m_t = m.pose.translation()
            m_t += 1
            ctx.check(snap(o.pose) == p, "moved-pose-shared:" + name)
            ctx.check(q[1] != "changed" and q[2] != "-5", "moved-fields-shared:" + name)
            ctx.count("moved_copies")
    del first


def moved(a, b):
    if isinstance(a, ProjectObject):
        return [(a, b)]
    return [(a.elements[k], b.elements[k]) for k in a.elements]


@scenario(quick=400)
def module_defaults(rng, ctx):
    """Objects made with default arguments share nothing with each other."""
    makers = [("Box3d", Box3d), ("Pose3", Pose3), ("Rot3", Rot3), ("Quaternion", Quaternion), ("Mesh", Mesh), ("TexturedMesh", TexturedMesh),
              ("Mesh.example", Mesh.example), ("Mesh.cube", Mesh.cube), ("TexturedMesh.example", TexturedMesh.example),
              ("TexturedMesh.cube", lambda: TexturedMesh.cube(*[np.full((2, 12, 3), 9, np.uint8)] * 2)), ("GltfModel.example", GltfModel.example), ("VoxelGrid", VoxelGrid),
              ("default_settings", E.Evaluator.default_settings), ("ProjectObject.example", ProjectObject.example),
              ("ObjectSymmetry.example", ObjectSymmetry.example),
              ("gen_bounding_box_object", lambda: ProjectObject.gen_bounding_box_object("x", box(np.random.default_rng(3)))),
              ("ProjectScene", lambda: ProjectScene("meshes")), ("Rot3.Rx", lambda: Rot3.Rx(0.5)),
              ("Pose3.Maya_camera", Pose3.Maya_camera), ("Pose3.ENU_camera", Pose3.ENU_camera),
              ("from_mesh", lambda: TexturedMesh.from_mesh(Mesh.example()))]
    name, make = makers[ctx.index % len(makers)]
    ctx.case(name, int(rng.integers(2 ** 40)))
    first = make()
    was = snap(first)
    second = make()
    ctx.check(snap(second) == was, "defaults-differ:" + name)
    scramble(second, rng)
    ctx.check(snap(first) == was, "defaults-shared:" + name)
    ctx.check(snap(make()) == was, "default-changed:" + name)
    ctx.count("defaults")

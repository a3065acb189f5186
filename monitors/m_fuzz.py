"""C24: damaged and hostile files.  Valid files of every format are spoilt (cut, flipped, fields edited, documents
rewritten) and read on the sanitizer build.  Each read must end in a Python exception or in consistent data, within
bounds of time and memory, leaving descriptors, directory and environment alone."""
import base64
import gc
import json
import os
import resource
import struct
import time
import xml.etree.ElementTree as ET
import zlib
import numpy as np
import h5py
from core import scenario, Violation
import gen
import m_cloud
import m_gltf
import m_memory as M
import m_tiff
import projects as P
import refgltf
import shapes

from sumo.images.multi_image_tiff import MultiImageTiff
from sumo.images.rgbd_360 import Rgbd360
from sumo.images.rgbdci_360 import Rgbdci360
import sumo.images.rgbd_tiff as rgbd_tiff
from sumo.images.rgbd_tiff import MultiImagePageType as T
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
from sumo.threedee.glb_converter import gltf2glb
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.point_cloud import PointCloud
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.voxel_grid import VoxelGrid

CPU_S = 20.0          # CPU seconds one read of a file below 100 KB may take (instrumented; typical: milliseconds)
MEMORY = 1200 << 20   # bytes by which one read may raise the process's peak (typical: below 10 MB)
INTERESTING = [0, 1, 2, 3, 4, 7, 8, 16, 32, 64, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 2 ** 24, 2 ** 31 - 1, 2 ** 31,
               2 ** 32 - 1, 2 ** 32 - 4, 2 ** 32 - 12, 1431655766, 357913942, 2 ** 30, 2 ** 30 + 1]


def damage(rng, data):
    """One change of a byte string."""
    data = bytearray(data)
    n = len(data)
    k = int(rng.integers(11))
    if n == 0 or k == 0:
        return bytes(data) + bytes(rng.integers(0, 256, size=int(rng.integers(1, 40)), dtype=np.uint8))
    p = int(rng.integers(n))
    if rng.integers(2):  # headers and directories decide most
        p = int(min(n - 1, abs(rng.normal()) * 60))
        if rng.integers(3) == 0:
            p = n - 1 - p
    if k <= 2:
        return bytes(data[:p])
    if k == 3:
        data[p] ^= 1 << int(rng.integers(8))
    elif k == 4:
        data[p] = int(rng.integers(256))
    elif k in (5, 6):
        w = int(gen.pick(rng, [1, 2, 4, 4, 8]))
        v = int(gen.pick(rng, INTERESTING)) % (1 << 8 * w)
        p -= p % min(w, 4) if rng.integers(2) else 0
        data[p:p + w] = v.to_bytes(w, gen.pick(rng, ["little", "big"]))[:max(0, n - p)]
    elif k == 7:
        q = min(n, p + int(rng.integers(1, 30)))
        del data[p:q]
    elif k == 8:
        q = min(n, p + int(rng.integers(1, 60)))
        data[p:p] = data[p:q]
    elif k == 9:
        q = min(n, p + int(rng.integers(1, 200)))
        data[p:q] = bytes(rng.integers(0, 256, size=q - p, dtype=np.uint8)) if rng.integers(2) else bytes(q - p)
    else:
        q = int(rng.integers(n))
        w = min(n - p, n - q, int(rng.integers(1, 16)))
        data[p:p + w], data[q:q + w] = data[q:q + w], data[p:p + w]
    return bytes(data)


def number(rng):
    return gen.pick(rng, [0, 1, 2, 3, 5, -1, -2, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 63, 2 ** 64, -2 ** 31, -2 ** 63,
                          1e308, -1e308, 1e-320, 0.5, 1e20, 5120, 5121, 5122, 5123, 5124, 5125, 5126, 5130, 4, 6, 12])


def junk(rng):
    return gen.pick(rng, [None, True, False, "", "x", "a/b", [], {}, [1], [[]], {"a": 1}, "$(touch pwned)", "`touch pwned`", "../../../x", "\x00", "é" * 300,
                          [0] * 300, "data:application/octet-stream;base64,", "data:,", "data:image/png;base64,AAAA", "SCALAR", "VEC2", "VEC3", "VEC4", "MAT4", "bogus"])


def places(x, out, path=()):
    """Every position in a JSON document."""
    if isinstance(x, dict):
        for k in x:
            out.append((x, k))
            places(x[k], out)
    elif isinstance(x, list):
        for k in range(len(x)):
            out.append((x, k))
            places(x[k], out)
    return out


def damage_json(rng, doc):
    """One change of a JSON document, in place."""
    at = places(doc, [])
    if not at:
        return
    c, k = at[int(rng.integers(len(at)))]
    h = int(rng.integers(8))
    old = c[k]
    if isinstance(old, bool) or not isinstance(old, (int, float)):
        h = int(rng.integers(2, 8))
    if h <= 1:
        c[k] = number(rng)
    elif h == 2:
        c[k] = number(rng) if rng.integers(2) else junk(rng)
    elif h == 3:
        del c[k]
    elif h == 4 and isinstance(c, list):
        c.insert(k, json.loads(json.dumps(old)))
    elif h == 5:
        o, j = at[int(rng.integers(len(at)))]
        try:
            c[k] = json.loads(json.dumps(o[j]))
        except (ValueError, KeyError, IndexError):
            pass
    elif h == 6 and isinstance(old, list):
        c[k] = old * int(gen.pick(rng, [0, 2, 3]))
    elif h == 7 and isinstance(old, int) and not isinstance(old, bool):
        c[k] = old + int(gen.pick(rng, [-2, -1, 1, 2, 4, 1000]))
    else:
        c[k] = junk(rng)


# -- what must hold of whatever was read ----------------------------------------------------------

def ok_array(ctx, a, dtype, shape, key):
    ctx.check(isinstance(a, np.ndarray) and a.dtype == dtype and a.ndim == len(shape) and
              all(w is None or g == w for g, w in zip(a.shape, shape)), key, got="%s %s" % (getattr(a, "dtype", None), getattr(a, "shape", None)))
    a.sum(dtype=float)  # touch everything


def ok_mesh(ctx, m):
    i, v, n = m.indices(), m.vertices(), m.normals()
    nv = m.num_vertices()
    ok_array(ctx, i, np.uint32, (m.num_indices(),), "mesh-indices")
    ok_array(ctx, v, np.float32, (3, nv), "mesh-vertices")
    ok_array(ctx, n, np.float32, (3, nv), "mesh-normals")
    ctx.check(len(i) == 0 or int(i.max()) < nv, "mesh-index-out-of-range", got=int(i.max()) if len(i) else None, vertices=nv)
    ctx.check(isinstance(m, TexturedMesh) == bool(m.is_textured()), "mesh-kind")
    if isinstance(m, TexturedMesh):
        uv = m.uv_coords()
        ok_array(ctx, uv, np.float32, (2, None), "mesh-uv")
        ctx.check(uv.shape[1] <= nv, "mesh-uv-count")
        ok_array(ctx, m.base_color(), np.uint8, (None, None, 3), "mesh-texture")
        ok_array(ctx, m.metallic_roughness(), np.uint8, (None, None, 3), "mesh-texture")


def ok_model(ctx, g):
    ctx.check(isinstance(g, GltfModel), "model-type")
    n = g.num_primitive_meshes()
    for k in range(g.num_images()):
        g.image_size(k)
        try:
            g.image_uri(k)
        except UnicodeDecodeError:
            pass
    g.num_nodes(), g.num_buffers()
    try:
        ms = g.primitive_meshes()
    except Exception:
        ctx.count("models_refused_on_access")
        return
    ctx.check(len(ms) == n, "model-count", got=len(ms), expected=n)
    for m in ms:
        ok_mesh(ctx, m)
    # and it can be used further
    d = g.deepcopy()
    d.add_mesh(Mesh.example())
    try:
        d.save_as_gltf(os.getcwd() if os.path.isdir("out") is False and not os.mkdir("out") and False else os.path.join(os.getcwd(), "out"), "again")
    except Exception:
        ctx.count("models_refused_on_saving")
    try:
        d.update_materials(os.getcwd(), [{"color": np.ones(3), "uri": ""}] * (n + 1))
    except Exception:
        pass


def ok_pages(ctx, m):
    if isinstance(m, dict):
        m = MultiImageTiff(m)
    for a, t, nd in ((m.rgb, np.uint8, 3), (m.range, np.float32, 2), (m.category, np.uint16, 2), (m.instance, np.uint16, 2)):
        if a is not None:
            ok_array(ctx, a, t, (None, None, 3)[:nd], "tiff-page")


def ok_rgbd(ctx, m):
    ok_array(ctx, m.rgb, np.uint8, (None, None, 3), "rgbd-rgb")
    ok_array(ctx, m.range, np.float32, (None, None), "rgbd-range")


def ok_rgbdci(ctx, m):
    ok_rgbd(ctx, m)
    ok_array(ctx, m.category, np.uint16, (None, None), "rgbdci-category")
    ok_array(ctx, m.instance, np.uint16, (None, None), "rgbdci-instance")
    try:
        c = m.create_point_cloud(True)
    except Exception:
        return
    ok_cloud(ctx, c)


def ok_cloud(ctx, c):
    ok_array(ctx, c.points(), np.float64, (3, c.num_points()), "cloud-points")
    if c.colored():
        ok_array(ctx, c.colors(), np.uint8, (3, c.num_points()), "cloud-colors")


def ok_grid(ctx, g):
    c = g.voxel_centers()
    ctx.check(isinstance(c, np.ndarray) and c.ndim == 2 and c.shape[1] == 3, "voxel-centers", got=np.shape(c))
    g.min_corner, g.voxel_size
    if len(c):
        g.bounds()


def ok_scene(ctx, s):
    ctx.check(isinstance(s, ProjectScene) and s.project_type in P.TRACKS and isinstance(s.elements, ProjectObjectDict), "scene")
    for k, o in s.elements.items():
        ctx.check(isinstance(o, ProjectObject) and o.project_type == s.project_type, "object")
        ctx.check(o.pose.matrix().shape == (4, 4) and isinstance(o.bounds, (Box3d, type(None))) and isinstance(o.category, str) and isinstance(o.evaluated, (bool, np.bool_)), "object-fields",
                  got=repr((np.shape(o.pose.matrix()), type(o.bounds), o.category, o.evaluated))[:500])
        if s.project_type == "meshes":
            ok_model(ctx, o.meshes)
        if s.project_type == "voxels":
            ok_grid(ctx, o.voxels)


def listing():
    out = {}
    for d, dirs, files in os.walk("."):
        for n in files + dirs:
            p = os.path.join(d, n)
            out[p] = os.path.getsize(p) if os.path.isfile(p) else -1
    return out


def read(ctx, load, ok, what, **w):
    """One monitored read; returns 'ok' or 'refused'."""
    before, fds, env, cwd = listing(), M.descriptors(), dict(os.environ), os.getcwd()
    t0 = time.process_time()
    peak = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss << 10
    res = None
    try:
        res = load()
        how = "ok"
    except Violation:
        raise
    except Exception as e:  # any Python exception is an answer; what kills the process is seen outside
        how = "refused"
        ctx.check(not isinstance(e, SystemError), "system-error:" + what, repr(e), **w)
        e = None
    t = time.process_time() - t0
    grown = (resource.getrusage(resource.RUSAGE_SELF).ru_maxrss << 10) - peak
    ctx.check(t < CPU_S, "takes-too-long:" + what, "%.1f CPU seconds" % t, **w)
    ctx.check(grown < MEMORY, "memory:" + what, "the peak rose by %d MB" % (grown >> 20), **w)
    now = listing()
    ctx.check(now == before, "reading-changed-files:" + what, got=sorted(set(now) ^ set(before)), **w)
    ctx.check(dict(os.environ) == env and os.getcwd() == cwd, "reading-changed-process:" + what, **w)
    if res is not None:
        ok(ctx, res)
    res = None
    gc.collect()
    left = M.descriptors()
    ctx.check(left <= fds, "descriptor-leaked:" + what, "%d before, %d after" % (fds, left), **w)
    ctx.count("%s_%s" % (what, how))
    ctx.count(how)
    return how


def spoilt(rng, data, n=None):
    for _ in range(int(n or gen.pick(rng, [1, 1, 1, 2, 3, 6]))):
        data = damage(rng, data)
    return data


def put(name, data):
    with open(name, "wb") as fh:
        fh.write(data)
    return os.path.join(os.getcwd(), name)


def fresh(ctx):
    os.chdir(ctx.tmp())


# -- formats -----------------------------------------------------------------------------------------

def tiff_file(rng):
    h, w = int(rng.integers(1, 9)), int(rng.integers(1, 20))
    k = int(rng.integers(4))
    if k == 0:
        m_tiff.write_legacy("g.tiff", [gen.u8(rng, (h, w, 3)), gen.u8(rng, (h, w)) if rng.integers(2) else gen.u16(rng, (h, w))],
                            None if rng.integers(2) else ["rgb", "depth"], gen.pick(rng, [None, '{"near":0.5,"version":1}']))
    else:
        d = {T.RGB: gen.u8(rng, (h, w, 3)), T.Depth: rng.uniform(0.3, 20, size=(h, w)).astype(np.float32)}
        if k > 1:
            d[T.Category] = gen.u16(rng, (h, w))
            d[T.Instance] = gen.u16(rng, (h, w))
        rgbd_tiff.save(d, os.path.join(os.getcwd(), "g.tiff"))
    return open("g.tiff", "rb").read()


TIFF_READERS = [("tiff", rgbd_tiff.load, ok_pages), ("MultiImageTiff", MultiImageTiff.load, ok_pages), ("Rgbd360", Rgbd360.load, ok_rgbd),
                ("Rgbdci360", Rgbdci360.load, ok_rgbdci)]


def directories(data):
    """Offsets of all entries of a little- or big-endian TIFF's directories."""
    try:
        o = "<" if data[:2] == b"II" else ">"
        out, p, seen = [], struct.unpack_from(o + "I", data, 4)[0], set()
        while p and p not in seen:
            seen.add(p)
            n, = struct.unpack_from(o + "H", data, p)
            out += [(o, p + 2 + 12 * i) for i in range(n)]
            p, = struct.unpack_from(o + "I", data, p + 2 + 12 * n)
        return out
    except struct.error:
        return []


def damage_tiff(rng, data):
    es = directories(data)
    if not es or rng.integers(3) == 0:
        return damage(rng, data)
    o, p = es[int(rng.integers(len(es)))]
    data = bytearray(data)
    k = int(rng.integers(4))
    if k == 0:
        struct.pack_into(o + "H", data, p, int(gen.pick(rng, [256, 257, 258, 259, 262, 270, 273, 277, 278, 279, 284, 285, 317, 322, 323, 324, 325, 339, 65000])))
    elif k == 1:
        struct.pack_into(o + "H", data, p + 2, int(rng.integers(0, 19)))
    elif k == 2:
        struct.pack_into(o + "I", data, p + 4, int(gen.pick(rng, INTERESTING)) & 0xffffffff)
    elif rng.integers(2):
        struct.pack_into(o + "I", data, p + 8, int(gen.pick(rng, INTERESTING)) & 0xffffffff)
    else:
        struct.pack_into(o + "H", data, p + 8, int(gen.pick(rng, [0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 32, 64, 32773, 50000, 65535])))
    return bytes(data)


@scenario(quick=450)
def tiffs(rng, ctx):
    fresh(ctx)
    data = tiff_file(rng)
    for k in range(4):
        bad = data
        for _ in range(int(gen.pick(rng, [1, 1, 2, 4]))):
            bad = damage_tiff(rng, bad)
        p = put("b%d.tiff" % k, bad)
        ctx.case(bad, sample=dict(bytes=len(bad)))
        what, load, ok = gen.pick(rng, TIFF_READERS)
        read(ctx, lambda: load(p), ok, what, file=bad.hex()[:600])


def page_layout(data):
    """Per page: (offsets, byte counts, compression) of its strips; little endian classic TIFF only."""
    out = []
    p, = struct.unpack_from("<I", data, 4)
    while p:
        n, = struct.unpack_from("<H", data, p)
        tags = {}
        for i in range(n):
            tag, kind, count, value = struct.unpack_from("<HHII", data, p + 2 + 12 * i)
            size = {3: 2, 4: 4}.get(kind)
            if size:
                at = p + 2 + 12 * i + 8 if size * count <= 4 else value
                tags[tag] = list(struct.unpack_from("<%d%s" % (count, "H" if size == 2 else "I"), data, at))
        out.append(tags)
        p, = struct.unpack_from("<I", data, p + 2 + 12 * n)
    return out


@scenario(quick=120)
def tiff_rows(rng, ctx):
    """Damage to the compressed rows alone: rows that the decompressor cannot deliver are never made up."""
    fresh(ctx)
    h, w = int(rng.integers(2, 90)), int(rng.integers(1, 60))
    page = {T.RGB: gen.u8(rng, (h, w, 3)), T.Depth: np.full((h, w), 1.0, np.float32), T.Category: gen.u16(rng, (h, w)), T.Instance: gen.u16(rng, (h, w))}
    if rng.integers(2):
        page[T.RGB][:] = rng.integers(0, 3, size=(h, w, 3)) * 90
    path = os.path.join(os.getcwd(), "g.tiff")
    rgbd_tiff.save(page, path)
    good = open(path, "rb").read()
    ctx.case(good)
    if good[:4] != b"II*\0":
        return
    strips = [(n, o, c) for n, t in enumerate(page_layout(good)) if t.get(259, [1])[0] in (8, 32946) for o, c in zip(t.get(273, []), t.get(279, []))]
    for _ in range(6):
        if not strips:
            return
        n, o, c = strips[int(rng.integers(len(strips)))]
        bad = bytearray(good)
        at = o + int(rng.integers(c))
        stop = min(o + c, at + int(gen.pick(rng, [1, 1, 2, 30, 400])))
        bad[at:stop] = bytes(stop - at) if rng.integers(2) else bytes(rng.integers(0, 256, size=stop - at, dtype=np.uint8))
        want = len(zlib.decompress(good[o:o + c]))
        d = zlib.decompressobj()
        got = 0
        try:
            for i in range(o, o + c):  # byte by byte, so that nothing that can be delivered is lost with the error
                got += len(d.decompress(bytes(bad[i:i + 1])))
            broken = got < want
        except zlib.error:
            broken = got < want
        p = put("b.tiff", bytes(bad))
        how = read(ctx, lambda: rgbd_tiff.load(p), ok_pages, "tiff-rows", page=n, at=at, stop=stop)
        if broken:
            ctx.check(how == "refused", "rows-made-up", "%d of %d bytes of the strip can be decompressed, yet the file was read" % (got, want), page=n, at=at, stop=stop)
            ctx.count("rows_missing")
        else:
            ctx.count("rows_complete")


@scenario(quick=60)
def tiffs_cut(rng, ctx):
    """Every truncation point (a window of them per case)."""
    fresh(ctx)
    data = tiff_file(rng)
    lo = int(rng.integers(max(1, len(data) - 40)))
    ctx.case(data, lo)
    for n in range(lo, min(len(data), lo + 40)):
        p = put("c.tiff", data[:n])
        read(ctx, lambda: rgbd_tiff.load(p), ok_pages, "tiff", cut=n, of=len(data))


METADATA = ['{"near":', '{"near":"x"}', '{"near":null}', '{"near":[1]}', '{"near":1e999}', '{"near":-1}', '{"near":0}', '[]', '1', '"x"', '{"version":"a","near":1}',
            '{"version":1e300,"near":1}', '{' * 30, '[' * 2000, '{"near":NaN}', '\x01\x02', '{"near":1,"near":2}', '{"near":1}garbage', '{"version":null}', '{"a":"\\ud800"}',
            '{"near":0.3,"version":18446744073709551616}', '"\\u12"', '{"near":1' + "0" * 400 + '}']


@scenario(quick=60)
def tiff_metadata(rng, ctx):
    fresh(ctx)
    h, w = 2, 3
    names = ["rgb", gen.pick(rng, ["depth", "inv_depth", "bogus", "", "x" * 3000, "rgb", "category"])]
    desc = gen.pick(rng, METADATA) if rng.integers(2) else spoilt(rng, b'{"near":0.30000001192092896,"version":1}').decode("latin-1").replace("\0", "")
    m_tiff.write_legacy("m.tiff", [gen.u8(rng, (h, w, 3)), gen.u16(rng, (h, w))], names, desc.encode("ascii", "replace").decode() or None)
    ctx.case(desc, names)
    what, load, ok = gen.pick(rng, TIFF_READERS)
    read(ctx, lambda: load(os.path.abspath("m.tiff")), ok, what + "-metadata", description=desc, names=names)


def ply_file(rng):
    n = int(rng.integers(1, 9))
    p = m_cloud.points(rng, n)
    k = int(rng.integers(3))
    path = os.path.join(os.getcwd(), "g.ply")
    if k < 2:
        (PointCloud(p, m_cloud.colors(rng, n)) if k else PointCloud(p)).write_ply(path)
        return open(path, "rb").read()
    kind = gen.pick(rng, ["ascii", "binary_little_endian", "binary_big_endian"])
    t = gen.pick(rng, ["double", "float"])
    head = "ply\nformat %s 1.0\ncomment c\nobj_info o\nelement vertex %d\nproperty %s x\nproperty %s y\nproperty %s z\n" % (kind, n, t, t, t)
    if rng.integers(2):
        head += "element face 1\nproperty list uchar int vertex_indices\n"
    head += "end_header\n"
    body = "".join("%r %r %r\n" % tuple(float(x) for x in c) for c in p.T) + "3 0 0 0\n"
    if kind != "ascii":
        o = "<" if "little" in kind else ">"
        return head.encode() + np.ascontiguousarray(p.T).astype(o + ("f8" if t == "double" else "f4")).tobytes() + b"\3" + np.zeros(3, o + "i4").tobytes()
    return (head + body).encode()


WORDS = [b"ply", b"format", b"ascii", b"binary_little_endian", b"binary_big_endian", b"1.0", b"element", b"vertex", b"property", b"float", b"double", b"uchar", b"list",
         b"int", b"x", b"y", b"z", b"end_header", b"0", b"1", b"-1", b"2147483647", b"4294967295", b"18446744073709551615", b"99999999999999999999", b"100000", b"2", b"short",
         b"char", b"uint", b"float64", b"nan", b"bogus", b"comment", b""]


def damage_words(rng, data, words):
    """Replace, drop or repeat one token or line of the textual part."""
    end = data.find(b"end_header")
    end = len(data) if end < 0 else end + 11
    head, body = data[:end], data[end:]
    lines = head.split(b"\n")
    i = int(rng.integers(len(lines)))
    k = int(rng.integers(4))
    if k == 0:
        del lines[i]
    elif k == 1:
        lines.insert(i, lines[int(rng.integers(len(lines)))])
    else:
        t = lines[i].split(b" ")
        t[int(rng.integers(len(t)))] = gen.pick(rng, words)
        lines[i] = b" ".join(t)
    return b"\n".join(lines) + body


@scenario(quick=600)
def plys(rng, ctx):
    fresh(ctx)
    data = ply_file(rng)
    for k in range(5):
        bad = data
        for _ in range(int(gen.pick(rng, [1, 1, 2, 3]))):
            bad = damage_words(rng, bad, WORDS) if rng.integers(2) else damage(rng, bad)
        p = put("b%d.ply" % k, bad)
        ctx.case(bad, sample=dict(bytes=len(bad)))
        read(ctx, lambda: PointCloud.load_ply(p), ok_cloud, "ply", file=repr(bad[:400]))


@scenario(quick=40)
def plys_cut(rng, ctx):
    fresh(ctx)
    data = ply_file(rng)
    ctx.case(data)
    for n in range(len(data)):
        p = put("c.ply", data[:n])
        read(ctx, lambda: PointCloud.load_ply(p), ok_cloud, "ply", cut=n, of=len(data))


def h5_file(rng):
    P.voxels(rng).save(os.path.join(os.getcwd(), "g.h5"))
    return open("g.h5", "rb").read()


@scenario(quick=150)
def voxel_files(rng, ctx):
    fresh(ctx)
    data = h5_file(rng)
    for k in range(4):
        bad = spoilt(rng, data)
        p = put("b%d.h5" % k, bad)
        ctx.case(bad)
        read(ctx, lambda: M.load_voxels(p), ok_grid, "voxels", size=len(bad))


@scenario(quick=150)
def voxel_fields(rng, ctx):
    """Well-formed HDF5 with other fields than a grid has."""
    fresh(ctx)
    h5_file(rng)
    with h5py.File("g.h5", "r+") as f:
        what = gen.pick(rng, ["scale", "min_corner", "size_x", "size_y", "voxels_3d"])
        how = int(rng.integers(3))
        if what == "voxels_3d":
            old = np.array(f[what])
            del f[what]
            v = gen.pick(rng, [None, old[:, :2], old.ravel(), old - 5, old + 10 ** 6, old * 0 + 2 ** 30, np.zeros((0, 3), int), old.astype(float) + np.nan, np.zeros((2, 3, 4)),
                               "text", np.float32(3), old[:0], np.array([[2 ** 62] * 3])])
            if v is not None:
                f[what] = v
        else:
            del f.attrs[what]
            v = gen.pick(rng, [None, -1, 0, 1e300, np.nan, np.inf, "x", [1.0, 2.0], [[1.0, 2.0, 3.0]], [np.nan] * 3, 2 ** 62, -2 ** 62, [], [1, 2, 3, 4], b"\xff", 1e-300])
            if v is not None:
                f.attrs[what] = v
    ctx.case(what, repr(v), open("g.h5", "rb").read())
    read(ctx, lambda: M.load_voxels(os.path.abspath("g.h5")), ok_grid, "voxel-fields", field=what, value=v)


def gltf_file(rng, kind):
    """(path, files) of a valid model, written by the code or by other software."""
    if rng.integers(3) == 0:
        m, _ = shapes.model(rng, nv=int(rng.integers(3, 9)))
        if kind == "glb":
            m.save_as_glb(os.path.join(os.getcwd(), "g.glb"))
            return os.path.join(os.getcwd(), "g.glb")
        return m.save_as_gltf(os.getcwd(), "g")
    prims, facs = m_gltf.foreign_prims(rng)
    return refgltf.write(rng, os.getcwd(), "g", prims[:2], facs[:2], kind)[0]


def split_glb(data):
    n, = struct.unpack_from("<I", data, 12)
    return json.loads(data[20:20 + n].decode("utf-8")), data[20 + n:]


def join_glb(doc, rest):
    j = (doc if isinstance(doc, bytes) else json.dumps(doc, ensure_ascii=False).encode("utf-8", "surrogatepass"))
    j += b" " * (-len(j) % 4)
    return struct.pack("<4sIIII", b"glTF", 2, 20 + len(j) + len(rest), len(j), 0x4e4f534a) + j + rest


@scenario(quick=450)
def glbs(rng, ctx):
    fresh(ctx)
    data = open(gltf_file(rng, "glb"), "rb").read()
    for k in range(5):
        if rng.integers(3):
            doc, rest = split_glb(data)
            for _ in range(int(gen.pick(rng, [1, 1, 1, 2, 4]))):
                damage_json(rng, doc)
            bad = join_glb(doc, rest)
            if rng.integers(8) == 0:
                bad = damage(rng, bad)
        else:
            bad = spoilt(rng, data)
        p = put("b%d.glb" % k, bad)
        ctx.case(bad, sample=dict(bytes=len(bad)))
        read(ctx, lambda: GltfModel.load_from_glb(p), ok_model, "glb", file=repr(bad[:700]))


@scenario(quick=60)
def glbs_cut(rng, ctx):
    fresh(ctx)
    data = open(gltf_file(rng, "glb"), "rb").read()
    lo = int(rng.integers(max(1, len(data) - 40)))
    if rng.integers(2):
        lo = 0
    ctx.case(data, lo)
    for n in range(lo, min(len(data), lo + 40)):
        p = put("c.glb", data[:n])
        read(ctx, lambda: GltfModel.load_from_glb(p), ok_model, "glb", cut=n, of=len(data))


HOSTILE_URIS = ["$(touch pwned).bin", "`touch pwned`", "$HOME/x.bin", "~/x.bin", "a;touch pwned", "|touch pwned", "g.bin && touch pwned", "*", "?.bin", "{g.bin,x}", "\"g.bin\"", "'g.bin'",
                "/dev/null", "/dev/zero", ".", "..", "", "g.bin\n", "g.bin\x00", "%2e%2e", "http://example.com/x.bin", "file:///etc/hostname", "x" * 5000, "data:", "data:;base64,",
                "data:application/octet-stream;base64,!!!!", "data:application/octet-stream;base64,AAA", "data:image/png;base64,iVBORw0KGgo=", "data:text/plain;base64,AAAA", "\\", "é.bin"]


@scenario(quick=450)
def gltfs(rng, ctx):
    fresh(ctx)
    path = gltf_file(rng, "gltf")
    text = open(path, "rb").read()
    for k in range(5):
        fresh_copy = text
        side = None
        if rng.integers(4) == 0:
            bad = spoilt(rng, text)
        else:
            doc = json.loads(text.decode("utf-8"))
            for _ in range(int(gen.pick(rng, [1, 1, 1, 2, 4]))):
                damage_json(rng, doc)
            if rng.integers(4) == 0:
                for what in ("buffers", "images"):
                    l = doc.get(what) if isinstance(doc, dict) else None
                    if isinstance(l, list) and l and rng.integers(2) and isinstance(l[-1], dict):
                        l[-1]["uri"] = gen.pick(rng, HOSTILE_URIS)
                        ctx.count("hostile_uris")
            bad = json.dumps(doc, ensure_ascii=bool(rng.integers(2))).encode("utf-8", "surrogatepass")
        if rng.integers(4) == 0:  # a file it refers to
            names = sorted(n for n in os.listdir(".") if n.endswith((".bin", ".png")))
            if names:
                side = gen.pick(rng, names)
                good = open(side, "rb").read()
                put(side, spoilt(rng, good))
        p = put("b%d.gltf" % k, bad)
        ctx.case(bad, open(side, "rb").read() if side else None)
        read(ctx, lambda: GltfModel.load_from_gltf(p), ok_model, "gltf", file=repr(bad[:700]), side=side)
        if side:
            put(side, good)


@scenario(quick=100)
def gltf_packing(rng, ctx):
    """gltf2glb on damaged documents: refused, or a GLB of consistent lengths; nothing else is written."""
    fresh(ctx)
    path = gltf_file(rng, "gltf")
    doc = json.loads(open(path, "rb").read().decode("utf-8"))
    for _ in range(int(gen.pick(rng, [1, 1, 2, 3]))):
        damage_json(rng, doc)
    if rng.integers(4) == 0 and isinstance(doc, dict) and isinstance(doc.get("buffers"), list) and doc["buffers"] and isinstance(doc["buffers"][0], dict):
        doc["buffers"][0]["uri"] = gen.pick(rng, [u for u in HOSTILE_URIS if u != "/dev/zero"])  # packing a device without end would be right
        ctx.count("hostile_uris")
    bad = json.dumps(doc).encode()
    put("b.gltf", bad)
    ctx.case(bad)
    before, fds = listing(), M.descriptors()
    t0 = time.process_time()
    try:
        gltf2glb("b.gltf", "out.glb")
        how = "ok"
    except Exception as e:
        how = "refused"
        e = None
    ctx.check(time.process_time() - t0 < CPU_S, "takes-too-long:gltf2glb")
    gc.collect()
    now = listing()
    ctx.check({k: v for k, v in now.items() if k != "./out.glb"} == before, "packing-changed-files", got=sorted(set(now) ^ set(before)))
    ctx.check(M.descriptors() <= fds, "descriptor-leaked:gltf2glb")
    ctx.count("packing_" + how)
    if how == "ok":
        read(ctx, lambda: GltfModel.load_from_glb(os.path.abspath("out.glb")), ok_model, "glb-of-damaged", file=repr(bad[:700]))


DEEP = [("gltf", b"[" * 100000), ("gltf", b'{"a":' * 50000), ("glb", b"[" * 100000), ("gltf", b'{"asset":{"version":"2.0"},"extras":' + b"[" * 60000 + b"]" * 60000 + b"}"),
        ("gltf", b"[" * 1000 + b"]" * 1000), ("glb", b'{"extras":' * 30000 + b"1" + b"}" * 30000)]


@scenario(quick=len(DEEP), thorough=len(DEEP))
def deep_nesting(rng, ctx):
    fresh(ctx)
    kind, text = DEEP[ctx.index % len(DEEP)]
    ctx.case(kind, len(text), text[:20])
    p = put("d." + kind, text if kind == "gltf" else join_glb(text, b""))
    read(ctx, lambda: (GltfModel.load_from_gltf if kind == "gltf" else GltfModel.load_from_glb)(p), ok_model, "deep-" + kind, start=text[:30])
    d = "[" * 3000
    m_tiff.write_legacy("d.tiff", [gen.u8(rng, (2, 3, 3)), gen.u16(rng, (2, 3))], None, d * 20)
    read(ctx, lambda: rgbd_tiff.load(os.path.abspath("d.tiff")), ok_pages, "deep-tiff-metadata")


def damage_xml(rng, root):
    es = list(root.iter())
    e = es[int(rng.integers(len(es)))]
    k = int(rng.integers(8))
    texts = ["", "x", "-1", "1e400", "nan", "1, 2", "1, 2, 3", "0, 0, 0", "True", "None", "../../etc/passwd", "$(touch pwned)", "voxels", "meshes", "bounding_box", "é" * 50, "1" * 5000]
    if k == 0:
        e.text = gen.pick(rng, texts)
    elif k == 1:
        e.tag = gen.pick(rng, ["bogus", "element", "elements", "pose", "rotation", "id", "version"])
    elif k == 2 and len(e):
        e.remove(e[int(rng.integers(len(e)))])
    elif k == 3 and len(e):
        e.append(e[int(rng.integers(len(e)))])
    elif k == 4:
        o = es[int(rng.integers(len(es)))]
        if o is not e and e not in list(o.iter()):
            e.append(o)
    elif k == 5 and e.attrib:
        n = gen.pick(rng, sorted(e.attrib))
        if rng.integers(2):
            del e.attrib[n]
        else:
            e.attrib[n] = gen.pick(rng, texts)
    elif k == 6:
        e.clear()
    else:
        e.text = (e.text or "") + gen.pick(rng, texts)


BOMB = ('<?xml version="1.0"?><!DOCTYPE l [<!ENTITY a0 "aaaaaaaaaa">' + "".join('<!ENTITY a%d "%s">' % (i, "&a%d;" % (i - 1) * 10) for i in range(1, 10)) +
        ']><project_objects><version>&a9;</version></project_objects>').encode()
OUTSIDE = b'<?xml version="1.0"?><!DOCTYPE l [<!ENTITY e SYSTEM "file:///etc/hostname">]><project_objects><version>&e;</version></project_objects>'


@scenario(quick=350)
def project_dirs(rng, ctx):
    fresh(ctx)
    track = gen.pick(rng, P.TRACKS)
    P.scene(rng, track, n=int(rng.integers(1, 4))).save(os.getcwd(), "p")
    files = sorted(os.path.join(d, n) for d, _, ns in os.walk("p") for n in ns)
    k = int(rng.integers(8))
    f = gen.pick(rng, files)
    xmls = [x for x in files if x.endswith(".xml")]
    what = "project"
    if k <= 3 and xmls:
        f = gen.pick(rng, xmls)
        root = ET.parse(f).getroot()
        for _ in range(int(gen.pick(rng, [1, 1, 2, 4]))):
            damage_xml(rng, root)
        put(f, ET.tostring(root))
    elif k == 4:
        os.remove(f)
    elif k == 5 and xmls:
        f = gen.pick(rng, xmls)
        put(f, gen.pick(rng, [BOMB, OUTSIDE, b"<a>" * 5000, b"", b"<project_objects/>", b"\xff\xfe", b"<a b='1' b='2'/>"]))
    elif k == 6:
        os.remove(f)
        os.mkdir(f)
    else:
        put(f, spoilt(rng, open(f, "rb").read()))
    ctx.case(track, k, f, open(f, "rb").read() if os.path.isfile(f) else None)
    read(ctx, lambda: ProjectScene.load(os.getcwd(), "p"), ok_scene, what, damaged=f, kind=k)


CODE = ["open('pwned', 'w').fileno() * 0 + 1.0", "__import__('os').system('touch pwned') + 1.0", "1.0 if open('pwned', 'w') else 0.0", "0 * len(open('pwned', 'w').name)",
        "(open('pwned', 'w').fileno() * 0, 0.5, 1.0)", "exec(\"open('pwned', 'w')\")", "[open('pwned', 'w')] == 1", "%s; touch pwned", "$(touch pwned)", "`touch pwned`",
        "!!python/object/apply:os.system [touch pwned]", "cos\nsystem\n(S'touch pwned'\ntR.", "{open('pwned','w')}", "{0.__class__}", "${open('pwned','w')}"]


def leaves(x, path=()):
    """Every place of a JSON document that holds a string or a number."""
    if isinstance(x, dict):
        return [q for k in x for q in leaves(x[k], path + (k,))]
    if isinstance(x, list):
        return [q for k in range(len(x)) for q in leaves(x[k], path + (k,))]
    return [path]


@scenario(quick=len(CODE) * 4)
def code_in_files(rng, ctx):
    """Texts that would leave a file behind if anything evaluated them, everywhere a file can hold text."""
    fresh(ctx)
    code = CODE[ctx.index % len(CODE)]
    kind = ctx.index // len(CODE) % 4
    ctx.case(code, kind, int(rng.integers(2 ** 40)))
    if kind < 2:  # every text and attribute of a project's files
        P.scene(rng, gen.pick(rng, P.TRACKS), n=2).save(os.getcwd(), "p")
        for f in sorted(os.path.join(d, n) for d, _, ns in os.walk("p") for n in ns if n.endswith(".xml")):
            good = open(f, "rb").read()
            for i in range(len(list(ET.fromstring(good).iter()))):
                root = ET.fromstring(good)
                e = list(root.iter())[i]
                if len(e) == 0:
                    old = e.text or ""
                    n = old.count(",")
                    for text in ([code] if kind == 0 else [old + code, code + old] + ([",".join([code] + ["0"] * n)] if n else [])):
                        e.text = text
                        put(f, ET.tostring(root))
                        read(ctx, lambda: ProjectScene.load(os.getcwd(), "p"), ok_scene, "project-code", tag=e.tag, text=text)
                        ctx.count("code_in_projects")
                    e.text = old
                for a in e.attrib:
                    e.attrib[a] = code
                    put(f, ET.tostring(root))
                    read(ctx, lambda: ProjectScene.load(os.getcwd(), "p"), ok_scene, "project-code", tag=e.tag, attribute=a)
            put(f, good)
    elif kind == 2:  # every value of a model's description
        for form in ("gltf", "glb"):
            data = open(gltf_file(rng, form), "rb").read()
            doc, rest = (json.loads(data), None) if form == "gltf" else split_glb(data)
            text = json.dumps(doc)
            for path in leaves(doc)[:60]:
                new = json.loads(text)
                at = new
                for k in path[:-1]:
                    at = at[k]
                at[path[-1]] = code
                if form == "gltf":
                    p = put("m.gltf", json.dumps(new).encode())
                    read(ctx, lambda: GltfModel.load_from_gltf(p), ok_model, "gltf-code", path=repr(path))
                else:
                    p = put("m.glb", join_glb(json.dumps(new).encode(), rest))
                    read(ctx, lambda: GltfModel.load_from_glb(p), ok_model, "glb-code", path=repr(path))
                ctx.count("code_in_models")
    else:
        code = code.encode("ascii", "replace").decode()
        for names in (["rgb", code], [code, "depth"]):
            m_tiff.write_legacy("m.tiff", [gen.u8(rng, (2, 3, 3)), gen.u16(rng, (2, 3))], names, code)
            read(ctx, lambda: rgbd_tiff.load(os.path.abspath("m.tiff")), ok_pages, "tiff-code", code=code)
        m_tiff.write_legacy("m.tiff", [gen.u8(rng, (2, 3, 3)), gen.u16(rng, (2, 3))], None, '{"near":"%s","version":"%s"}' % (code, code))
        read(ctx, lambda: rgbd_tiff.load(os.path.abspath("m.tiff")), ok_pages, "tiff-code", code=code)
        good = ply_file(rng)
        lines = good.split(b"\n")
        for i in range(min(len(lines), 12)):
            for new in (code.encode(), b"comment " + code.encode(), b"obj_info " + code.encode(), lines[i].rsplit(b" ", 1)[0] + b" " + code.encode()):
                p = put("c.ply", b"\n".join(lines[:i] + [new] + lines[i + 1:]))
                read(ctx, lambda: PointCloud.load_ply(p), ok_cloud, "ply-code", line=i)
        ctx.count("code_in_images_and_clouds")


def seeds():
    d = os.path.join(os.environ["VERIF_TREE"], "sumo")
    out = []
    for r, _, ns in os.walk(d):
        for n in ns:
            p = os.path.join(r, n)
            if n.endswith((".glb", ".ply", ".tif", ".tiff", ".h5")) and os.path.getsize(p) < 300000:
                out.append(p)
    return sorted(out)


SEEDS = seeds()
LOADERS = {".glb": (GltfModel.load_from_glb, ok_model), ".ply": (PointCloud.load_ply, ok_cloud), ".tif": (rgbd_tiff.load, ok_pages), ".tiff": (rgbd_tiff.load, ok_pages),
           ".h5": (M.load_voxels, ok_grid)}


@scenario(quick=80)
def given_files(rng, ctx):
    """The repository's own data files, spoilt."""
    if not SEEDS:
        ctx.case(trivial=True)
        return
    fresh(ctx)
    src = SEEDS[ctx.index % len(SEEDS)]
    ext = os.path.splitext(src)[1]
    data = open(src, "rb").read()
    bad = spoilt(rng, data)
    if ext.startswith(".tif") and rng.integers(2):
        bad = damage_tiff(rng, data)
    p = put("b" + ext, bad)
    ctx.case(bad)
    load, ok = LOADERS[ext]
    read(ctx, lambda: load(p), ok, "given" + ext, source=os.path.basename(src))

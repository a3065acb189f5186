"""C09: gltf2glb."""
import copy
import hashlib
import json
import os
import shutil
import numpy as np
from core import scenario
import gen
import m_gltf
import refgltf
import shapes

from sumo.threedee.glb_converter import gltf2glb
from sumo.threedee.gltf_model import GltfModel

TEXTS = ["", "a", "b c", "\u00fc\u4e2d\U0001f600", "line\nbreak", "q\"\\/", "\u0001", "null", "0.png", "</x>", "\u2028", "e\u0301"]


def value(rng, depth=0):
    """Any JSON value."""
    k = int(rng.integers(9 if depth < 3 else 6))
    if k == 0:
        return gen.pick(rng, TEXTS)
    if k == 1:
        return int(gen.pick(rng, [0, 1, -1, 2 ** 31, 2 ** 53 + 1, -2 ** 63, 10 ** 20, int(rng.integers(1000))]))
    if k == 2:
        return float(gen.pick(rng, [0.0, -0.0, 0.1, 1e-300, 1e300, 1 / 3., rng.normal(), 5e-324, 1.0, 1e22]))
    if k == 3:
        return gen.pick(rng, [True, False])
    if k == 4:
        return None
    if k == 5:
        return gen.pick(rng, [[], {}])
    if k == 6:
        return [value(rng, depth + 1) for _ in range(int(rng.integers(1, 4)))]
    return {gen.pick(rng, TEXTS + ["uri", "buffer", "byteOffset", "buffers"]): value(rng, depth + 1)
            for _ in range(int(rng.integers(1, 4)))}


def noise(rng):
    return bytes(rng.integers(0, 256, size=int(gen.pick(rng, [1, 2, 3, 4, 5, 7, 8, 31, 64, 100, 1001]))).astype(np.uint8))


def document(rng, d):
    """A glTF document with its files in <d> -> document, bytes of each file."""
    files, buffers, views, images = {}, [], [], []

    def put(uri, data):
        p = os.path.join(d, uri)
        assert uri not in files
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        files[uri] = data
        return uri

    def name(patterns, k, ext=""):
        """A fresh name; many share their last part, or all but the case of a letter."""
        if rng.integers(3) == 0:
            free = [n + ext for n in ("x", "X", "p/x", "q/x", "p/X", "p/q/x", "x.y", "p.q/x") if n + ext not in files]
            if free:
                return gen.pick(rng, free)
        return gen.pick(rng, patterns) % k + ext
    nb = int(gen.pick(rng, [1, 1, 2, 3, 5]))
    for k in range(nb):
        if k and rng.integers(6) == 0:
            b = copy.deepcopy(gen.pick(rng, buffers))  # the same file twice
        else:
            data = noise(rng)
            b = {"uri": put(name(["b%d.bin", "sub/b%d.bin", "b %d", "\u00fc%d.bin", "%d.png"], k), data),
                 "byteLength": max(1, len(data) - int(gen.pick(rng, [0, 0, 0, 1, 4])))}
        if rng.integers(3) == 0:
            b["name"] = gen.pick(rng, TEXTS)
        buffers.append(b)
    for _ in range(int(gen.pick(rng, [0, 1, 2, 4, 9]))):
        k = int(rng.integers(nb))
        n = buffers[k]["byteLength"]
        o = int(gen.pick(rng, [0, 0, rng.integers(n), n - 1]))
        v = {"buffer": k, "byteLength": int(gen.pick(rng, [1, n - o, rng.integers(1, n - o + 1)]))}
        if o or rng.integers(2):
            v["byteOffset"] = o
        if rng.integers(3) == 0:
            v["byteStride"] = 4 * int(rng.integers(1, 64))
        if rng.integers(3) == 0:
            v["target"] = gen.pick(rng, [34962, 34963])
        if rng.integers(5) == 0:
            v["extras"] = value(rng)
        views.append(v)
    for k in range(int(gen.pick(rng, [0, 0, 1, 2, 5]))):
        if views and rng.integers(4) == 0:
            im = {"bufferView": int(rng.integers(len(views))), "mimeType": gen.pick(rng, ["image/png", "image/jpeg"])}
        elif k and rng.integers(5) == 0 and "uri" in images[-1]:
            im = copy.deepcopy(images[-1])
        else:
            ext = gen.pick(rng, [".png", ".png", ".jpg", ".jpeg", ".PNG", ""])
            im = {"uri": put(name(["i%d", "tex/i%d", "i %d.x", "\u4e2d%d", "img%d.bin"], k, ext), noise(rng))}
            if not ext or rng.integers(4) == 0:
                im["mimeType"] = gen.pick(rng, ["image/png", "image/jpeg"])
        if rng.integers(3) == 0:
            im["name"] = gen.pick(rng, TEXTS)
        images.append(im)
    j = {"asset": {"version": "2.0"}, "buffers": buffers, "bufferViews": views}
    if images or rng.integers(4) == 0:
        j["images"] = images
    for k in ("accessors", "meshes", "materials", "nodes", "scenes", "scene", "extras", "extensions", "animations", "textures",
              "samplers", "extensionsUsed", "\u00fcnknown"):
        if rng.integers(4) == 0:
            j[k] = value(rng)
    if views and rng.integers(2):
        j["accessors"] = [{"bufferView": int(rng.integers(len(views))), "byteOffset": 4, "componentType": 5126, "count": 2,
                           "type": "SCALAR", "sparse": {"indices": {"bufferView": int(rng.integers(len(views)))}}}]
    return j, files


def snapshot(d):
    return {os.path.relpath(os.path.join(r, f), d): hashlib.sha1(open(os.path.join(r, f), "rb").read()).hexdigest()
            for r, _, fs in os.walk(d) for f in fs}


def file_of(j, files, v):
    o = v.get("byteOffset", 0)
    return files[j["buffers"][v["buffer"]]["uri"]][o:o + v["byteLength"]]


def identical(a, b):
    """Equal JSON values, telling 1 from 1.0 and from true."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return sorted(a) == sorted(b) and all(identical(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    return repr(a) == repr(b)


def packed(ctx, j, files, path):
    """The container at <path> is document <j>."""
    try:
        g, body = refgltf.parse_glb(open(path, "rb").read())
    except (refgltf.Bad, ValueError, IndexError) as e:
        ctx.check(False, "container", str(e))
    ctx.check(body is not None, "no-binary-chunk")
    ctx.check(len(g["buffers"]) == 1 and "uri" not in g["buffers"][0], "buffers", got=g["buffers"])
    n = g["buffers"][0]["byteLength"]
    ctx.check(len(body) - 3 <= n <= len(body), "buffer-length", got=n, body=len(body))
    views = g["bufferViews"]

    def resolve(v):
        ctx.equal(v["buffer"], 0, "view-buffer")
        o = v.get("byteOffset", 0)
        ctx.check(0 <= o and o + v["byteLength"] <= n, "view-range", view=v, length=n)
        return body[o:o + v["byteLength"]]
    ctx.check(len(views) >= len(j["bufferViews"]), "views-lost")
    for v, w in zip(views, j["bufferViews"]):
        got = resolve(v)
        ctx.check(got == file_of(j, files, w), "view-bytes", view=w, now=v)
        ctx.check((v.get("byteOffset", 0) - w.get("byteOffset", 0)) % 4 == 0, "view-alignment", view=w, now=v)
        skip = ("buffer", "byteOffset")
        ctx.check(identical({k: x for k, x in v.items() if k not in skip}, {k: x for k, x in w.items() if k not in skip}),
                  "view-changed", got=v, expected=w)
        ctx.count("views")
    ctx.check(("images" in g) == ("images" in j) and len(g.get("images", [])) == len(j.get("images", [])), "images-lost")
    seen = set()
    for a, b in zip(g.get("images", []), j.get("images", [])):
        if "uri" not in b:
            ctx.check(identical(a, b), "image-changed", got=a, expected=b)
            ctx.count("images_in_views")
            continue
        k = a.get("bufferView")
        ctx.check(isinstance(k, int) and len(j["bufferViews"]) <= k < len(views), "image-view", got=a)
        seen.add(k)
        got, want = resolve(views[k]), files[b["uri"]]
        ctx.check(got[:len(want)] == want and len(got) <= len(want) + 3, "image-bytes", image=b, got=len(got), expected=len(want))
        ctx.check(views[k].get("byteOffset", 0) % 4 == 0, "image-alignment")
        e = b["uri"].lower().rsplit(".", 1)[-1]
        mime = b.get("mimeType") or {"png": "image/png", "jpg": "image/jpeg", "jpeg": "image/jpeg"}[e]
        ctx.equal(a.get("mimeType"), mime, "image-type")
        skip = ("uri", "mimeType", "bufferView")
        ctx.check(identical({k: x for k, x in a.items() if k not in skip}, {k: x for k, x in b.items() if k not in skip}) and "uri" not in a,
                  "image-changed", got=a, expected=b)
        ctx.count("images_packed")
    ctx.check(seen == set(range(len(j["bufferViews"]), len(views))), "extra-views", got=views)
    skip = ("buffers", "bufferViews", "images")
    ctx.check(identical({k: x for k, x in g.items() if k not in skip}, {k: x for k, x in j.items() if k not in skip}),
              "document-changed", got={k: x for k, x in g.items() if k not in skip}, expected={k: x for k, x in j.items() if k not in skip})


@scenario(quick=8000)
def packing(rng, ctx):
    d = ctx.tmp(gen.pick(rng, m_gltf.NAMES))
    j, files = document(rng, d)
    name = gen.pick(rng, m_gltf.NAMES) + ".gltf"
    src = os.path.join(d, name)
    with open(src, "wb") as f:
        f.write(json.dumps(j, ensure_ascii=bool(rng.integers(2)), indent=int(rng.integers(3)) or None).encode("utf-8"))
    ctx.case(open(src, "rb").read(), sorted(files.items()))
    ctx.count("buffers_%d" % len(j["buffers"]))
    before, cwd = snapshot(d), os.getcwd()
    kind = int(rng.integers(4))
    if kind == 0:
        gltf2glb(src)
        out = src[:-5] + ".glb"
        ctx.count("default_output")
    elif kind == 1:
        out = os.path.join(ctx.tmp(), "o.glb")
        open(out, "wb").write(b"x" * 5000)  # replaced
        gltf2glb(src, out)
    elif kind == 2:
        os.chdir(d)
        gltf2glb(name)
        out = os.path.join(d, name[:-5] + ".glb")
        ctx.equal(os.getcwd(), d, "directory-changed")
    else:
        out = os.path.join(d, "other name")
        gltf2glb(src, output_glb=out)
    after = snapshot(d)
    after.pop(os.path.relpath(out, d), None)
    ctx.equal(after, before, "other-files-touched")
    packed(ctx, j, files, out)


@scenario(quick=300)
def packed_models(rng, ctx):
    """The packed file is the same model."""
    prims, facs = m_gltf.foreign_prims(rng)
    d = ctx.tmp()
    path, used = refgltf.write(rng, d, "m", prims, facs, "gltf", data_uris=False)
    ctx.case(open(path, "rb").read())
    gltf2glb(path)
    want = [{k: v for k, v in s.items() if k != "itype"} for s in prims]
    b = path[:-5] + ".glb"
    for f in os.listdir(d):  # it needs no other file
        if os.path.isdir(os.path.join(d, f)):
            shutil.rmtree(os.path.join(d, f))
        elif f != "m.glb":
            os.unlink(os.path.join(d, f))
    for (s, f), w in zip(m_gltf.decode(ctx, b, "packed"), want):
        shapes.same(ctx, s, w, "packed-file")
    m_gltf.same_model(ctx, GltfModel.load_from_glb(b), want, "packed-model")
    ctx.count("packed_models")


@scenario(quick=300)
def refusals(rng, ctx):
    d = ctx.tmp()
    j, files = document(rng, d)
    kind = gen.pick(rng, ["no-buffer-file", "no-image-file", "empty-uri", "extension", "json", "missing", "disk-full", "data-uri"])
    ctx.case(kind, json.dumps(j))
    src, out = os.path.join(d, "m.gltf"), os.path.join(d, "out.glb")
    exc = OSError
    if kind == "no-buffer-file":
        j["buffers"][int(rng.integers(len(j["buffers"])))]["uri"] = "none.bin"
    elif kind == "no-image-file":
        j.setdefault("images", []).append({"uri": "none.png"})
    elif kind == "empty-uri":
        j.setdefault("images", []).append({"uri": ""})
        exc = (ValueError, OSError)
    elif kind == "extension":
        src, exc = os.path.join(d, gen.pick(rng, ["m.glb", "m", "m.gltf.bak", "gltf"])), (SystemExit, ValueError, OSError)
    elif kind == "data-uri":
        j["buffers"][0]["uri"] = "data:application/octet-stream;base64,AAAA"
        j["buffers"][0]["byteLength"] = 3
    if kind != "missing":
        text = json.dumps(j).encode()
        if kind == "json":
            text, exc = text[:int(rng.integers(len(text)))], ValueError
        open(src, "wb").write(text)
    before = snapshot(d)
    if kind == "data-uri":  # not supported: either way, never wrong bytes
        try:
            gltf2glb(src, out)
        except OSError:
            ctx.count("refused")
            ctx.check(True, "data-uri")
            return
        files[j["buffers"][0]["uri"]] = b"\0\0\0"
        return packed(ctx, j, files, out)
    if kind == "disk-full":
        gltf2glb(src, out)
        n = os.path.getsize(out)
        os.unlink(out)
        ctx.raises(OSError, lambda: gen.limited(int(gen.pick(rng, [0, 1, n // 2, n - 1])), lambda: gltf2glb(src, out)), "disk-full")
        ctx.count("write_failures_reported")
        return
    ctx.raises(exc, lambda: gltf2glb(src, out), "accepted-" + kind)
    ctx.equal(snapshot(d), before, "refusal-left-files", kind=kind)
    ctx.count("refused")

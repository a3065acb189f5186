"""An independent glTF 2.0 reader and writer (json, struct, PIL only)."""
import base64
import io
import json
import os
import struct
import numpy as np
from PIL import Image
import gen

CT = {5121: np.uint8, 5123: np.uint16, 5125: np.uint32, 5126: np.float32}
NC = {"SCALAR": 1, "VEC2": 2, "VEC3": 3, "VEC4": 4}


class Bad(Exception):
    """The file is not the glTF 2.0 it should be."""


def need(ok, what, *more):
    if not ok:
        raise Bad("%s %s" % (what, more))


def parse_glb(data):
    """-> (document, BIN chunk or None); every rule of the container is enforced."""
    need(len(data) >= 20, "too short")
    magic, version, length = struct.unpack("<4sII", data[:12])
    need(magic == b"glTF", "magic")
    need(version == 2, "version", version)
    need(length == len(data), "length", length, len(data))
    pos, chunks = 12, []
    while pos < len(data):
        need(pos % 4 == 0 and pos + 8 <= len(data), "chunk header", pos)
        n, kind = struct.unpack("<I4s", data[pos:pos + 8])
        need(n % 4 == 0, "chunk length not a multiple of 4", n)
        need(pos + 8 + n <= len(data), "chunk exceeds file")
        chunks.append((kind, data[pos + 8:pos + 8 + n]))
        pos += 8 + n
    need(chunks and chunks[0][0] == b"JSON", "first chunk")
    need(len(chunks) < 2 or chunks[1][0] == b"BIN\0", "second chunk")
    text = chunks[0][1]
    need(text.rstrip(b" ") == text.rstrip(), "JSON padding")
    return json.loads(text.decode("utf-8")), chunks[1][1] if len(chunks) > 1 else None


def load_uri(base, uri):
    if uri.startswith("data:"):
        return base64.b64decode(uri.split(",", 1)[1])
    with open(os.path.join(base, uri), "rb") as f:
        return f.read()


class Doc(object):
    def __init__(self, path):
        self.base = os.path.dirname(path)
        with open(path, "rb") as f:
            data = f.read()
        self.bin = None
        if path.endswith(".glb"):
            self.j, self.bin = parse_glb(data)
        else:
            self.j = json.loads(data.decode("utf-8"))
        need(self.j.get("asset", {}).get("version") == "2.0", "asset version")
        self.buffers = []
        for k, b in enumerate(self.j.get("buffers", [])):
            if "uri" in b:
                d = load_uri(self.base, b["uri"])
            else:
                need(k == 0 and self.bin is not None, "buffer without data")
                d = self.bin
                need(len(d) - 4 < b["byteLength"] <= len(d), "BIN chunk length", b["byteLength"], len(d))
            need(len(d) >= b["byteLength"], "buffer shorter than byteLength", len(d), b["byteLength"])
            self.buffers.append(d[:b["byteLength"]])

    def view(self, k):
        v = self.j["bufferViews"][k]
        o, n = v.get("byteOffset", 0), v["byteLength"]
        b = self.buffers[v["buffer"]]
        need(o + n <= len(b), "view exceeds buffer", o, n, len(b))
        return b[o:o + n]

    def accessor(self, k):
        """-> count x components"""
        a = self.j["accessors"][k]
        data = self.view(a["bufferView"])
        t, c = np.dtype(CT[a["componentType"]]).newbyteorder("<"), NC[a["type"]]
        size = t.itemsize * c
        stride = self.j["bufferViews"][a["bufferView"]].get("byteStride", size)
        o = a.get("byteOffset", 0)
        n = a["count"]
        need(n == 0 or o + stride * (n - 1) + size <= len(data), "accessor exceeds view", k)
        raw = np.frombuffer(data, np.uint8)
        rows = raw[(o + stride * np.arange(n))[:, None] + np.arange(size)] if n else np.zeros((0, size), np.uint8)
        out = np.ascontiguousarray(rows).view(t).astype(t.newbyteorder("=")).reshape(n, c)
        if n and "min" in a:
            need(np.allclose(a["min"], out.min(axis=0), rtol=1e-6, atol=0), "min", k, a["min"], out.min(axis=0))
            need(np.allclose(a["max"], out.max(axis=0), rtol=1e-6, atol=0), "max", k, a["max"], out.max(axis=0))
        return out

    def image(self, k):
        i = self.j["images"][k]
        need(("uri" in i) != ("bufferView" in i), "image source")
        if "bufferView" in i:
            need(i.get("mimeType") in ("image/png", "image/jpeg"), "image mimeType", i.get("mimeType"))
            d = self.view(i["bufferView"])
        else:
            d = load_uri(self.base, i["uri"])
        return np.array(Image.open(io.BytesIO(d)).convert("RGB"))

    def texture(self, ref):
        if ref is None:
            return np.zeros((0, 0, 3), np.uint8)
        t = self.j["textures"][ref["index"]]
        need("sampler" not in t or 0 <= t["sampler"] < len(self.j.get("samplers", [])), "sampler index")
        return self.image(t["source"])

    def primitives(self):
        out = []
        for m in self.j.get("meshes", []):
            for p in m["primitives"]:
                at = p["attributes"]
                need(p.get("mode", 4) == 4, "mode")
                s = dict(indices=self.accessor(p["indices"])[:, 0].astype(np.uint32),
                         vertices=self.accessor(at["POSITION"]).T, normals=self.accessor(at["NORMAL"]).T)
                need(s["indices"].size == 0 or s["indices"].max() < s["vertices"].shape[1], "index exceeds vertices")
                pbr = self.j["materials"][p["material"]].get("pbrMetallicRoughness", {})
                if "TEXCOORD_0" in at:
                    s.update(uv=self.accessor(at["TEXCOORD_0"]).T, bc=self.texture(pbr.get("baseColorTexture")),
                             mr=self.texture(pbr.get("metallicRoughnessTexture")))
                f = {"baseColorFactor": [1.0] * 4, "metallicFactor": 1.0, "roughnessFactor": 1.0}
                f.update({k: v for k, v in pbr.items() if k.endswith("Factor")})
                out.append((s, f))
        for k in range(len(self.j.get("images", []))):
            self.image(k)
        for n in self.j.get("nodes", []):
            need("mesh" not in n or 0 <= n["mesh"] < len(self.j["meshes"]), "node mesh")
        for s in self.j.get("scenes", []):
            need(all(0 <= n < len(self.j["nodes"]) for n in s.get("nodes", [])), "scene node")
        return out


def png(a, mode="RGB", **kw):
    f = io.BytesIO()
    Image.fromarray(a, mode).save(f, "PNG", **kw)
    return f.getvalue()


class Blob(object):
    """Bytes of one buffer under construction."""

    def __init__(self):
        self.data = bytearray()

    def add(self, b, rng, align=4):
        pad = (-len(self.data)) % align + align * int(rng.integers(3))
        self.data += bytes(rng.integers(0, 256, size=pad).astype(np.uint8)) + b
        return len(self.data) - len(b)


def write(rng, d, name, prims, factors, kind, data_uris=True):
    """Write <prims> (states as in shapes; 'itype' gives the index type) as other software might.

    Returns (path, set of layout features used)."""
    used = set()
    nb = int(rng.integers(1, 4))
    short = int(rng.integers(0, 3))  # image files numbered from here
    one = int(rng.integers(3) > 0)  # else all materials have one name
    blobs = [Blob() for _ in range(nb)]
    views, accs, images, textures, mats, jp = [], [], [], [], [], []

    def view(b, data, target=None, stride=None):
        o = blobs[b].add(data, rng)
        v = {"buffer": b, "byteLength": len(data)}
        if o or rng.integers(2):
            v["byteOffset"] = o
        if stride:
            v["byteStride"] = stride
        if target and rng.integers(2):
            v["target"] = target
        views.append(v)
        return len(views) - 1

    def acc(v, off, ct, ty, a):
        x = {"bufferView": v, "componentType": ct, "count": len(a), "type": ty}
        if off or rng.integers(2):
            x["byteOffset"] = off
        if len(a) and (ty == "VEC3" or rng.integers(2)):
            x["min"], x["max"] = [float(c) for c in a.min(axis=0)], [float(c) for c in a.max(axis=0)]
        accs.append(x)
        return len(accs) - 1

    def image(a):
        h, w = a.shape[:2]
        k = int(rng.integers(3))
        if k == 0:
            alpha = rng.integers(0, 256, size=(h, w, 1)).astype(np.uint8)
            data = png(np.concatenate([a, alpha], axis=2), "RGBA")
            used.add("rgba")
        else:
            data = png(a, optimize=bool(k == 1))
        src = int(rng.integers(3 if data_uris else 2)) if kind == "gltf" else int(gen.pick(rng, [1, 1, 1, 0, 2] if data_uris else [1]))
        if src == 0:
            n = "%s img%d.png" % (name, len(images)) if not short else "%d.png" % (len(images) + short)
            sub = gen.pick(rng, ["", "", "", "tex/", "a b/c/"])
            if sub:
                os.makedirs(os.path.join(d, sub), exist_ok=True)
                used.add("image_folder")
                n = sub + n
            with open(os.path.join(d, n), "wb") as f:
                f.write(data)
            im = {"uri": n}
            used.add("image_file")
        elif src == 1:
            im = {"bufferView": view(int(rng.integers(nb)), data), "mimeType": "image/png"}
            used.add("image_view")
        else:
            im = {"uri": "data:image/png;base64," + base64.b64encode(data).decode()}
            used.add("image_data_uri")
        images.append(im)
        textures.append({"source": len(images) - 1})
        return {"index": len(textures) - 1}

    for s, f in zip(prims, factors):
        n = s["vertices"].shape[1]
        it = s["itype"]
        used.add(np.dtype(it).name)
        ind = s["indices"].astype(it)
        ct = {1: 5121, 2: 5123, 4: 5125}[ind.itemsize]
        at, cols = {}, [("POSITION", "VEC3", s["vertices"].T), ("NORMAL", "VEC3", s["normals"].T)]
        if "uv" in s:
            cols.append(("TEXCOORD_0", "VEC2", s["uv"].T))
        cols = [(k, t, np.ascontiguousarray(a, dtype="<f4")) for k, t, a in cols]
        lay = int(rng.integers(4))
        if lay == 0:  # interleaved
            extra = 4 * int(rng.integers(3))
            order = [cols[k] for k in rng.permutation(len(cols))]
            rows = np.concatenate([a for _, _, a in order] + [np.zeros((n, extra // 4), "<f4") - 7], axis=1)
            lead = 4 * int(rng.integers(3))
            tail = rows.tobytes()
            if extra and n and rng.integers(2):
                tail = tail[:len(tail) - extra]  # the last element need not be padded
            v = view(int(rng.integers(nb)), bytes(lead) + tail, 34962, rows.shape[1] * 4)
            o = lead
            for k, t, a in order:
                at[k] = acc(v, o, 5126, t, a)
                o += a.shape[1] * 4
            used.add("interleaved")
        elif lay == 1:  # one view, one after the other
            data, offs = b"", []
            for k, t, a in cols:
                offs.append(len(data))
                data += a.tobytes() + bytes(4 * int(rng.integers(3)))
            v = view(int(rng.integers(nb)), data)
            for (k, t, a), o in zip(cols, offs):
                at[k] = acc(v, o, 5126, t, a)
            used.add("one_view")
        else:
            for k, t, a in cols:
                stride = a.shape[1] * 4 if rng.integers(2) else None
                at[k] = acc(view(int(rng.integers(nb)), a.tobytes(), 34962, stride), 0, 5126, t, a)
            used.add("own_views")
        lead = ind.itemsize * int(rng.integers(3))
        iv = view(int(rng.integers(nb)), bytes(lead) + ind.tobytes(), 34963)
        p = {"attributes": at, "indices": acc(iv, lead, ct, "SCALAR", ind.reshape(-1, 1)), "material": len(mats)}
        if rng.integers(2):
            p["mode"] = 4
        pbr = dict(f)
        if "uv" in s:
            if s["bc"].size:
                pbr["baseColorTexture"] = image(s["bc"])
            if s["mr"].size:
                pbr["metallicRoughnessTexture"] = image(s["mr"])
        same = [k for k, x in enumerate(mats) if x["pbrMetallicRoughness"] == pbr]
        if same and rng.integers(4):  # several primitives may refer to one material
            p["material"] = int(gen.pick(rng, same))
            used.add("shared_material")
        else:
            mats.append({"pbrMetallicRoughness": pbr, "name": "m%d" % (len(mats) * one)})
        jp.append(p)
    meshes = []
    while jp:
        k = int(rng.integers(1, 4))
        if len(jp) > 1 and k > 1:
            used.add("several_primitives")
        meshes.append({"primitives": jp[:k]})
        jp = jp[k:]
    perm = rng.permutation(len(accs))  # the order of accessors means nothing
    inv = np.argsort(perm)
    accs = [accs[k] for k in perm]
    for m in meshes:
        for p in m["primitives"]:
            p["attributes"] = {k: int(inv[v]) for k, v in p["attributes"].items()}
            p["indices"] = int(inv[p["indices"]])
    j = {"asset": {"version": "2.0", "generator": "monitor"}, "accessors": accs, "bufferViews": views,
         "meshes": meshes, "materials": mats, "nodes": [{"mesh": k} for k in range(len(meshes))],
         "scenes": [{"nodes": list(range(len(meshes)))}], "scene": 0, "buffers": []}
    if images:
        j["images"], j["textures"] = images, textures
    if nb > 1:
        used.add("several_buffers")
    for k, b in enumerate(blobs):
        if not b.data:
            b.data += b"\0\0\0\0"
        e = {"byteLength": len(b.data)}
        if kind == "glb" and k == 0:
            pass
        elif data_uris and rng.integers(3) == 0:
            e["uri"] = "data:application/octet-stream;base64," + base64.b64encode(bytes(b.data)).decode()
            used.add("buffer_data_uri")
        else:
            e["uri"] = "%s %d.bin" % (name, k)
            with open(os.path.join(d, e["uri"]), "wb") as f:
                f.write(bytes(b.data))
        j["buffers"].append(e)
    path = os.path.join(d, name + "." + kind)
    text = json.dumps(j, indent=int(rng.integers(3)) or None, ensure_ascii=bool(rng.integers(2))).encode("utf-8")
    with open(path, "wb") as f:
        if kind == "gltf":
            f.write(text)
        else:
            text += b" " * (-len(text) % 4)
            body = bytes(blobs[0].data) + b"\0" * (-len(blobs[0].data) % 4)
            f.write(struct.pack("<4sII", b"glTF", 2, 12 + 8 + len(text) + 8 + len(body)))
            f.write(struct.pack("<I4s", len(text), b"JSON") + text)
            f.write(struct.pack("<I4s", len(body), b"BIN\0") + body)
    return path, used

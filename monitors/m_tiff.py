"""C04: the RGB-D TIFF container, read back by the code and by an independent reader (PIL)."""
import os
import struct
import zlib

import numpy as np
from PIL import Image, TiffImagePlugin
from core import scenario, Violation
import gen
from gen import limited, u8, u16
from m_inverse_depth import depths, ideal, nears

from sumo.geometry import inverse_depth as idp
from sumo.images.multi_image_tiff import MultiImageTiff
from sumo.images.rgbd_360 import Rgbd360
from sumo.images.rgbd_tiff import MultiImagePageType as PT
from sumo.images.rgbdci_360 import Rgbdci360

F = np.float32


def size(rng):
    k = rng.integers(8)
    if k == 0:  # several strips per page
        return int(rng.integers(30, 70)), int(rng.integers(150, 400))
    if k == 1:
        return 1, int(rng.integers(1, 40))
    if k == 2:
        return int(rng.integers(1, 40)), 1
    if k == 3:
        h = int(rng.integers(1, 12))
        return h, 6 * h
    return int(rng.integers(1, 24)), int(rng.integers(1, 40))


def depth(rng, shape, near):
    return depths(rng, near, shape[0] * shape[1]).reshape(shape)


def depth_ok(ctx, got, want, near, key):
    """<got> is <want> to within half a code of the 16-bit inverse-depth scale of plane <near>."""
    ctx.check(got.dtype == np.float32 and got.shape == want.shape, key + "-shape", got=got)
    g, w = ideal(got, near, 65535), ideal(want, near, 65535)
    bad = np.abs(g - w) > 0.5 + 1e-6 * np.maximum(w, 1)
    # zero, which means unknown, comes back as infinitely far
    ctx.check(not bad.any(), key, "depth off by more than half a code", near=near,
              want=want[bad], got=got[bad], code_err=np.abs(g - w)[bad])
    ctx.check(bool((got > 0).all()) and not np.isnan(got).any(), key + "-positive")
    ctx.count("depth_pixels", got.size)


def save_args(rng):
    k = rng.integers(3)
    if k == 0:
        return F(idp.DEFAULT_NEAR), {}
    near = nears(rng)
    return F(near), dict(near=float(near))


def scan(path):
    """Pages of a TIFF as an independent reader sees them: [(page name, array)]."""
    data = open(path, "rb").read()
    e = {b"II": "<", b"MM": ">"}[data[:2]]
    u = lambda f, o: struct.unpack_from(e + f, data, o)
    out, off = [], u("I", 4)[0]
    while off:
        tags = {}
        for k in range(u("H", off)[0]):
            o = off + 2 + 12 * k
            tag, typ, n = u("HHI", o)
            c, sz = {1: ("B", 1), 2: ("s", 1), 3: ("H", 2), 4: ("I", 4), 5: ("II", 8)}[typ]
            at = o + 8 if n * sz <= 4 else u("I", o + 8)[0]
            tags[tag] = data[at:at + n] if typ == 2 else u(c * n, at)
        off = u("I", off + 2 + 12 * u("H", off)[0])[0]
        w, h, spp = tags[256][0], tags[257][0], tags.get(277, (1,))[0]
        bits, comp = tags[258][0], tags.get(259, (1,))[0]
        raw = b""
        for at, n in zip(tags[273], tags[279]):
            d = data[at:at + n]
            raw += d if comp == 1 else zlib.decompress(d)
        assert comp in (1, 8, 32946) and tags.get(317, (1,))[0] == 1 and tags.get(284, (1,))[0] == 1
        a = np.frombuffer(raw, dtype=e + ("u1" if bits == 8 else "u2")).reshape(h, w, spp)
        name = tags.get(285)
        out.append((name.rstrip(b"\0").decode() if name else None, a if spp > 1 else a[:, :, 0]))
    return out


@scenario(quick=250)
def rgbd360_roundtrip(rng, ctx):
    h, w = size(rng)
    near, kw = save_args(rng)
    rgb, rng_img = u8(rng, (h, w, 3)), depth(rng, (h, w), near)
    ctx.case(rgb, rng_img, near, sample=dict(shape=[h, w], near=float(near)))
    r0, d0 = rgb.copy(), rng_img.copy()
    p = os.path.join(ctx.tmp(), "a.tif")
    Rgbd360(rgb, rng_img).save(p, **kw)
    ctx.equal(rgb, r0, "save-mutates-rgb")
    ctx.equal(rng_img, d0, "save-mutates-range")
    b = Rgbd360.load(p)
    ctx.check(b.rgb.dtype == np.uint8, "rgb-dtype")
    ctx.equal(b.rgb, r0, "rgb-roundtrip")
    depth_ok(ctx, b.range, d0, near, "range-roundtrip")
    # a second trip through the same plane must be the identity
    q = os.path.join(ctx.tmp(), "b.tif")
    b.save(q, **kw)
    c = Rgbd360.load(q)
    ctx.equal(c.range, b.range, "range-second-trip")
    ctx.equal(c.rgb, r0, "rgb-second-trip")
    # the same file through the other reader
    m = MultiImageTiff.load(p)
    ctx.equal(m.rgb, r0, "multi-rgb")
    ctx.equal(m.range, b.range, "multi-range")
    ctx.check(m.category is None and m.instance is None, "absent-pages-are-none")
    pages = scan(p)
    ctx.check([n for n, _ in pages] == ["rgb", "inv_depth"], "page-names", names=[n for n, _ in pages])
    ctx.equal(pages[0][1], r0, "independent-rgb")
    ctx.check(bool((np.abs(pages[1][1].astype(float) - ideal(d0, near, 65535)) <= 0.51).all()),
              "independent-inverse-depth")


@scenario(quick=250)
def rgbdci360_roundtrip(rng, ctx):
    h, w = size(rng)
    near, kw = save_args(rng)
    rgb, d = u8(rng, (h, w, 3)), depth(rng, (h, w), near)
    cat, ins = u16(rng, (h, w)), u16(rng, (h, w))
    ctx.case(rgb, d, cat, ins, near)
    p = os.path.join(ctx.tmp(), "a.tif")
    src = Rgbdci360(rgb.copy(), d.copy(), cat.copy(), ins.copy())
    src.save(p, **kw)
    ctx.equal(src.category, cat, "save-mutates-category")
    ctx.equal(src.instance, ins, "save-mutates-instance")
    b = Rgbdci360.load(p)
    ctx.equal(b.rgb, rgb, "rgb-roundtrip")
    ctx.check(b.category.dtype == np.uint16 and b.instance.dtype == np.uint16, "label-dtype")
    ctx.equal(b.category, cat, "category-roundtrip")
    ctx.equal(b.instance, ins, "instance-roundtrip")
    depth_ok(ctx, b.range, d, near, "range-roundtrip")
    pages = scan(p)
    ctx.check([n for n, _ in pages] == ["rgb", "inv_depth", "category", "instance"], "page-names",
              names=[n for n, _ in pages])
    ctx.equal(pages[2][1].astype(np.uint16), cat, "independent-category")
    ctx.equal(pages[3][1].astype(np.uint16), ins, "independent-instance")
    # overwriting an existing file leaves nothing of it
    p2 = os.path.join(ctx.tmp(), "b.tif")
    Rgbd360(u8(rng, (h + 3, w + 1, 3)), depth(rng, (h + 3, w + 1), near)).save(p2)
    src.save(p2, **kw)
    c = Rgbdci360.load(p2)
    ctx.equal(c.category, cat, "overwrite-category")
    ctx.equal(c.range, b.range, "overwrite-range")
    Rgbd360(rgb, d).save(p2, **kw)
    ctx.check(MultiImageTiff.load(p2).category is None, "overwrite-keeps-old-page")


@scenario(quick=250)
def multi_image_subsets(rng, ctx):
    """Any subset of pages, sizes that differ per page, exact 16-bit inverse depth."""
    near, kw = save_args(rng)
    same = rng.integers(2)
    s = size(rng)
    dim = lambda: s if same else size(rng)
    pages, inv = {}, None
    pages[PT.RGB] = u8(rng, dim() + (3,))
    if rng.integers(2):
        inv = u16(rng, dim())
        pages[PT.InverseDepth] = inv
    else:
        pages[PT.Depth] = depth(rng, dim(), near)
    if rng.integers(2):
        pages[PT.Category] = u16(rng, dim())
    if rng.integers(2):
        pages[PT.Instance] = u16(rng, dim())
    keys = [list(pages)[i] for i in rng.permutation(len(pages))]
    pages = {k: pages[k] for k in keys}
    keep = {k: v.copy() for k, v in pages.items()}
    ctx.case(*[(k, v) for k, v in keep.items()], near)
    ctx.count("pages_%d" % len(pages))
    p = os.path.join(ctx.tmp(), u"\u00e9 a.tif" if rng.integers(4) == 0 else "a.tif")
    MultiImageTiff(pages).save(p, **kw)
    m = MultiImageTiff.load(p)
    ctx.equal(m.rgb, keep[PT.RGB], "rgb-roundtrip")
    for name, key in (("category", PT.Category), ("instance", PT.Instance)):
        got = getattr(m, name)
        if key in keep:
            ctx.check(got is not None, name + "-lost")
            ctx.equal(got, keep[key], name + "-roundtrip")
        else:
            ctx.check(got is None, name + "-invented")
    if inv is not None:
        with np.errstate(divide="ignore"):
            want = float(near) * 65535 / inv.astype(float)
        ctx.close(m.range, want, "inverse-depth-page", rtol=3e-7, atol=0)
        ctx.equal(scan(p)[1][1].astype(np.uint16), inv, "independent-inverse-depth")
    else:
        depth_ok(ctx, m.range, keep[PT.Depth], near, "depth-page")
    for k in keep:
        ctx.equal(pages[k], keep[k], "save-mutates-" + k)


def write_legacy(path, pages, names=None, description=None):
    ims = []
    for k, a in enumerate(pages):
        im = Image.fromarray(a)
        info = TiffImagePlugin.ImageFileDirectory_v2()
        if names and names[k] is not None:
            info[285] = names[k]
        if k == 0 and description is not None:
            info[270] = description
        ims.append((im, info))
    with TiffImagePlugin.AppendingTiffWriter(path, True) as tf:
        for im, info in ims:
            im.save(tf, format="TIFF", tiffinfo=info)
            tf.newFrame()


@scenario(quick=200)
def files_of_other_writers(rng, ctx):
    """8-bit depth, missing page names, old page names, missing or partial metadata."""
    h, w = size(rng)
    rgb = u8(rng, (h, w, 3))
    eight = bool(rng.integers(2))
    code = u8(rng, (h, w)) if eight else u16(rng, (h, w))
    named = rng.integers(3)
    names = None
    if named:
        names = ["rgb", gen.pick(rng, ["depth", "inv_depth"])]
    pages = [rgb, code]
    cat = None
    if named and rng.integers(2):
        cat = u16(rng, (h, w))
        pages.append(cat)
        names.append(gen.pick(rng, ["category", "semantic"]))
    order = list(range(len(pages)))
    if rng.integers(2):
        order = [int(i) for i in rng.permutation(len(pages))]
    near = 1.0
    desc = None
    k = rng.integers(4)
    if k == 0:
        near = float(nears(rng))
        desc = '{"near":%r,"version":1}' % near
    elif k == 1:
        desc = '{"version":1}'
    elif k == 2:
        near = float(nears(rng))
        desc = ' { "other": [1, {"a": "b"}], "near" : %r }' % near
    p = os.path.join(ctx.tmp(), "l.tif")
    write_legacy(p, [pages[i] for i in order], [names[i] for i in order] if names else None, desc)
    ctx.case(rgb, code, desc, str(names), tuple(order))
    ctx.count("legacy_8bit" if eight else "legacy_16bit")
    if not names:
        ctx.count("legacy_unnamed")
    m = MultiImageTiff.load(p)
    ctx.equal(m.rgb, rgb, "legacy-rgb")
    if cat is None:
        ctx.check(m.category is None, "legacy-category-invented")
    else:
        ctx.equal(m.category, cat, "legacy-category")
    with np.errstate(divide="ignore"):
        if eight:  # 8-bit depth has always meant a plane of one metre
            true = (255.0 / code.astype(float)).astype(F)
            depth_ok(ctx, m.range, true, F(idp.DEFAULT_NEAR), "legacy-depth8")
        else:
            ctx.close(m.range, float(F(near)) * 65535 / code.astype(float), "legacy-depth16", rtol=3e-7, atol=0)
    r = Rgbd360.load(p)
    ctx.equal(r.range, m.range, "legacy-two-readers")


@scenario(quick=250)
def odd_arrays_exact_or_refused(rng, ctx):
    """Views, other layouts and other types: what is written is what was given, or save raises."""
    h, w = int(rng.integers(1, 10)), int(rng.integers(1, 14))
    near = F(idp.DEFAULT_NEAR)
    which = gen.pick(rng, ["rgb", "range", "category", "instance"])
    a = dict(rgb=u8(rng, (h, w, 3)), range=depth(rng, (h, w), near), category=u16(rng, (h, w)),
             instance=u16(rng, (h, w)))
    x = a[which]
    k = gen.pick(rng, ["strided", "fortran", "flip", "byteswap", "widen", "float", "int8", "slice3", "readonly"])
    if k == "strided":
        big = np.zeros((2 * h, 2 * w) + x.shape[2:], x.dtype)
        big[::2, ::2] = x
        y = big[::2, ::2]
    elif k == "fortran":
        y = np.asfortranarray(x)
    elif k == "flip":
        y = x[:, ::-1].copy()[:, ::-1]
    elif k == "byteswap":
        y = x.astype(x.dtype.newbyteorder())
    elif k == "widen":
        y = x.astype(np.float64 if x.dtype == F else np.int32)
    elif k == "float":
        y = x.astype(F)
    elif k == "int8":
        y = x.astype(np.uint8)
    elif k == "slice3":
        big = np.zeros((h, w, 5), x.dtype)
        if x.ndim == 3:
            big[:, :, 1:4] = x
            y = big[:, :, 1:4]
        else:
            big[:, :, 2] = x
            y = big[:, :, 2]
    else:
        y = x.copy()
        y.setflags(write=False)
    b = dict(a)
    b[which] = y
    before = {n: np.array(v) for n, v in b.items()}
    ctx.case(k, which, x)
    p = os.path.join(ctx.tmp(), "a.tif")
    try:
        pages = {PT.RGB: b["rgb"], PT.Depth: b["range"], PT.Category: b["category"], PT.Instance: b["instance"]}
        MultiImageTiff(pages).save(p)
    except (TypeError, ValueError, AssertionError):
        ctx.count("refused")
        ctx.checks += 1
        return
    ctx.count("accepted")
    m = MultiImageTiff.load(p)
    for n in ("rgb", "category", "instance"):
        ctx.equal(getattr(m, n), before[n], "odd-%s-%s" % (k, n))
    depth_ok(ctx, m.range, before["range"].astype(F), near, "odd-%s-range" % k)


@scenario(quick=200)
def wrong_type_constructors(rng, ctx):
    """An image object of the wrong type or rank is refused when built."""
    h, w = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    a = dict(rgb=u8(rng, (h, w, 3)), range=depth(rng, (h, w), F(.3)), category=u16(rng, (h, w)),
             instance=u16(rng, (h, w)))
    which = gen.pick(rng, sorted(a))
    x = a[which]
    bad = gen.pick(rng, ["dtype", "rank+", "rank-", "channels"])
    if bad == "dtype":
        y = x.astype(gen.pick(rng, [d for d in (np.int32, np.float64, np.int8, np.float32, np.uint16, np.uint8)
                                    if d != x.dtype]))
    elif bad == "rank+":
        y = x[..., None]
    elif bad == "rank-":
        y = x[0]
    else:
        y = np.zeros((h, w, int(gen.pick(rng, [1, 2, 4]))), x.dtype)
    ctx.case(which, bad, x)
    b = dict(a)
    b[which] = y
    ctx.raises((TypeError,), lambda: Rgbdci360(b["rgb"], b["range"], b["category"], b["instance"]),
               "wrong-type-accepted", which=which, bad=bad)
    if which in ("rgb", "range"):
        ctx.raises((TypeError,), lambda: Rgbd360(b["rgb"], b["range"]), "wrong-type-accepted-2", which=which, bad=bad)
    Rgbdci360(**a)


@scenario(quick=120)
def failed_writes_reported(rng, ctx):
    """When the medium fills up part-way, save raises or everything is on disk."""
    h, w = size(rng)
    near = F(idp.DEFAULT_NEAR)
    src = Rgbdci360(u8(rng, (h, w, 3)), depth(rng, (h, w), near), u16(rng, (h, w)), u16(rng, (h, w)))
    d = ctx.tmp()
    full = os.path.join(d, "full.tif")
    src.save(full)
    n = os.path.getsize(full)
    limit = int(rng.integers(0, n + 10))
    ctx.case(src.rgb, src.category, limit)
    p = os.path.join(d, "cut.tif")
    try:
        limited(limit, lambda: src.save(p))
    except (RuntimeError, OSError):
        ctx.count("write_failures_reported")
        ctx.checks += 1
        return
    ctx.count("writes_completed")
    try:
        b = Rgbdci360.load(p)
    except Exception as e:
        raise Violation("silent-write-failure", "save returned but the file cannot be read: %r" % e,
                        dict(limit=limit, full=n))
    ctx.equal(b.instance, src.instance, "silent-write-failure", limit=limit, full=n)
    ctx.equal(b.rgb, src.rgb, "silent-write-failure", limit=limit, full=n)


@scenario(quick=24)
def unusable_paths_and_pages(rng, ctx):
    d = ctx.tmp()
    img = Rgbd360(u8(rng, (3, 5, 3)), depth(rng, (3, 5), F(.3)))
    ctx.case(img.rgb)
    ctx.raises((RuntimeError, OSError), lambda: img.save(os.path.join(d, "no", "a.tif")), "missing-directory")
    ctx.raises((RuntimeError, OSError), lambda: img.save(d), "directory-as-file")
    if os.path.exists("/dev/full"):
        ctx.raises((RuntimeError, OSError), lambda: img.save("/dev/full"), "full-device")
    ctx.raises((RuntimeError, OSError), lambda: Rgbd360.load(os.path.join(d, "none.tif")), "missing-file")
    p = os.path.join(d, "empty.tif")
    open(p, "w").close()
    ctx.raises((RuntimeError, OSError), lambda: Rgbd360.load(p), "empty-file")
    only = {PT.RGB: img.rgb}
    ctx.raises((RuntimeError, KeyError), lambda: MultiImageTiff(only).save(os.path.join(d, "x.tif")), "no-depth-page")
    ctx.raises((RuntimeError, KeyError), lambda: MultiImageTiff({PT.Depth: img.range}).save(os.path.join(d, "x.tif")),
               "no-rgb-page")
    bad = {PT.RGB: img.rgb, PT.Depth: img.range, "normals": img.rgb}
    ctx.raises((ValueError, KeyError), lambda: MultiImageTiff(bad).save(os.path.join(d, "x.tif")), "unknown-page")
    img.save(os.path.join(d, "y.tif"))
    ctx.raises((KeyError, RuntimeError, ValueError), lambda: Rgbdci360.load(os.path.join(d, "y.tif")), "labels-absent")

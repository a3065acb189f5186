"""C05: panorama to point cloud, pixel by pixel against the cube-map formula."""
import numpy as np
from core import scenario
import gen
from gen import u8, u16

from sumo.images.rgbdci_360 import Rgbdci360

F = np.float32


def ranges(rng, h, w):
    r = (10.0 ** rng.uniform(-3, 5, size=(h, w))).astype(F)
    k = rng.integers(0, 12, size=(h, w))
    r[k == 0] = 0
    r[k == 1] = np.inf
    if rng.integers(2):
        r[k == 2] = np.nan
        r[k == 3] = -r[k == 3]
        r[k == 4] = -np.inf
    r[k == 5] = 1
    r[k == 6] = np.finfo(F).max
    r[k == 7] = np.nextafter(F(0), F(1))
    m = rng.integers(6)
    if m == 0:
        r[...] = 0
    if m == 1:
        r[...] = F(rng.uniform(.1, 10))
    return r


def reference(h, w, r):
    """Row-major (valid mask, 3xN points)."""
    rows, cols = np.mgrid[0:h, 0:w]
    face = cols // h
    x = (cols - face * h + 0.5 - h / 2.0) / (h / 2.0)
    y = (rows + 0.5 - h / 2.0) / (h / 2.0)
    one = np.ones_like(x)
    ray = np.zeros((3, h, w))
    for f, d in enumerate(((-x, y, -one), (-one, y, x), (x, y, one), (one, y, -x), (x, -one, y), (x, one, -y))):
        s = face == f
        for i in range(3):
            ray[i][s] = d[i][s]
    with np.errstate(all="ignore"):
        valid = (r > 0) & (r != np.inf)
        p = ray / np.sqrt((ray ** 2).sum(axis=0)) * r.astype(float)
    return valid, p


@scenario(quick=500)
def every_pixel(rng, ctx):
    h = int(rng.integers(1, 14))
    k = rng.integers(3)
    w = 6 * h if k else int(rng.integers(1, 6 * h + 1))
    r, rgb = ranges(rng, h, w), u8(rng, (h, w, 3))
    r0, rgb0 = r.copy(), rgb.copy()
    ctx.case(r0, rgb0, sample=dict(shape=[h, w]))
    img = Rgbdci360(rgb, r, u16(rng, (h, w)), u16(rng, (h, w)))
    valid, p = reference(h, w, r0)
    for f in range(6):
        ctx.count("face_%d_pixels" % f, int(valid[:, f * h:(f + 1) * h].sum()))
    ctx.count("invalid_pixels", int((~valid).sum()))
    for form in (dict(), dict(all_points=False)):
        c = img.create_point_cloud(**form)
        ctx.check(c.num_points() == int(valid.sum()), "point-count", got=c.num_points(), want=int(valid.sum()))
        ctx.close(c.points(), p[:, valid], "points", rtol=1e-9, atol=1e-12)
        ctx.equal(c.colors(), rgb0[valid].T, "colors")
    c = img.create_point_cloud(all_points=True)
    ctx.check(c.num_points() == h * w, "all-point-count", got=c.num_points())
    want = np.where(valid[None], p, 0.0).reshape(3, -1)
    ctx.close(c.points(), want, "all-points", rtol=1e-9, atol=1e-12)
    ctx.equal(c.colors(), np.where(valid[..., None], rgb0, 0).reshape(-1, 3).T, "all-colors")
    ctx.equal(img.range, r0, "range-mutated") if not np.isnan(r0).any() else None
    ctx.equal(rgb, rgb0, "rgb-mutated")
    # the distance of each point is the range of its pixel
    n = np.sqrt((img.create_point_cloud().points() ** 2).sum(axis=0))
    ctx.close(n, r0[valid].astype(float), "norm-is-range", rtol=1e-9, atol=0)


@scenario(quick=120)
def refused_images(rng, ctx):
    h = int(rng.integers(1, 6))
    if rng.integers(2):
        w = 6 * h + int(rng.integers(1, 8))
        r = np.ones((h, w), F)
        ctx.case("wide", h, w)
        img = Rgbdci360(u8(rng, (h, w, 3)), r, u16(rng, (h, w)), u16(rng, (h, w)))
        ctx.raises((RuntimeError, ValueError, IndexError), lambda: img.create_point_cloud(bool(rng.integers(2))),
                   "too-wide-accepted", h=h, w=w)
        ctx.count("too_wide")
    else:
        w = 6 * h
        h2, w2 = h + int(rng.integers(-1, 3)), w + int(rng.integers(-2, 3))
        if (h2, w2) == (h, w) or h2 < 1:
            h2, w2 = h + 1, w
        ctx.case("mismatch", h, w, h2, w2)
        img = Rgbdci360(u8(rng, (h, w, 3)), np.ones((h2, w2), F), u16(rng, (h, w)), u16(rng, (h, w)))
        ctx.raises((ValueError,), lambda: img.create_point_cloud(), "mismatch-accepted", h2=h2, w2=w2)
        ctx.count("mismatch")


@scenario(quick=12)
def large_panorama(rng, ctx):
    h = int(rng.integers(40, 100))
    w = 6 * h
    r = ranges(rng, h, w)
    rgb = u8(rng, (h, w, 3))
    ctx.case(r)
    valid, p = reference(h, w, r)
    c = Rgbdci360(rgb, r, u16(rng, (h, w)), u16(rng, (h, w))).create_point_cloud()
    ctx.close(c.points(), p[:, valid], "points", rtol=1e-9, atol=1e-12)
    ctx.equal(c.colors(), rgb[valid].T, "colors")

"""C03: the inverse-depth codec, against the formula and exhaustively over all codes."""
import numpy as np
from core import scenario
import gen

from sumo.geometry import inverse_depth as idp

F = np.float32


def nears(rng):
    k = rng.integers(4)
    if k == 0:
        return F(0.3)
    if k == 1:
        return F(gen.pick(rng, [1.0, 0.5, 0.25, 2.0, 0.1]))
    return F(10.0 ** rng.uniform(-2, 1.5))


def depths(rng, near, n):
    d = (10.0 ** rng.uniform(-3, 7, size=n)).astype(F)
    k = rng.integers(0, 12, size=n)
    d[k == 0] = F(0)
    d[k == 1] = F(np.inf)
    d[k == 2] = near
    d[k == 3] = np.nextafter(near, F(np.inf))
    d[k == 4] = np.nextafter(near, F(0))
    v = rng.integers(1, 65536, size=n)
    on = (np.float64(near) * 65535 / v).astype(F)
    d[k == 5] = on[k == 5]
    # on the border between two codes, and next to it
    v = np.where(rng.integers(2, size=n) == 0, v, rng.integers(32768, 65535, size=n))
    border = (np.float64(near) * 65535 / (v + 0.5)).astype(F)
    d[k == 9] = border[k == 9]
    d[k == 10] = np.nextafter(border, F(0))[k == 10]
    d[k == 11] = np.nextafter(border, F(np.inf))[k == 11]
    d[k == 6] = (F(near) * (1 + rng.random(n)).astype(F) * 4)[k == 6]
    return d


def ideal(depth, near, m):
    """Real-valued code, before rounding."""
    depth = depth.astype(np.float64)
    with np.errstate(divide="ignore", invalid="ignore"):
        r = np.float64(near) * m / depth
    r = np.where(depth == 0, 0.0, np.where(depth <= np.float64(near), float(m), r))
    return r


@scenario(quick=600)
def encode_decode_image(rng, ctx):
    h, w = int(rng.integers(1, 9)), int(rng.integers(1, 12))
    near = nears(rng)
    d = depths(rng, near, h * w).reshape(h, w)
    if rng.integers(3) == 0:  # a strided view
        big = np.zeros((h * 2, w * 3), F)
        big[::2, ::3] = d
        d = big[::2, ::3]
    keep = d.copy()
    default = bool(rng.integers(4) == 0)
    if default:
        near = F(idp.DEFAULT_NEAR)
    args = () if default else (near,)
    ctx.case(keep, near, sample=dict(depth=keep, near=near))
    for m, enc, encs, dec, decs, dt in (
            (65535, idp.inverse_depth_map_of_depth_image, idp.inverse_depth_of_depth,
             idp.depth_image_of_inverse_depth_map, idp.depth_of_inverse_depth, np.uint16),
            (255, idp.uint8_inverse_depth_map_of_depth_image, idp.uint8_inverse_depth_of_depth,
             idp.depth_image_of_uint8_inverse_depth_map, idp.depth_of_uint8_inverse_depth, np.uint8)):
        code = enc(d, *args)
        ctx.equal((code.dtype, code.shape), (np.dtype(dt), d.shape), "encode-type")
        ctx.equal(d, keep, "encode-mutated")
        r = ideal(keep, near, m)
        # (8-bit codes, kept for old files, are computed in single precision)
        slack = 1e-7 if m == 65535 else 2e-6 * m
        ctx.count("near_code_borders_%d" % m, np.sum(np.abs(np.abs(code.astype(float) - r) - 0.5) < 5e-3))
        ctx.check(bool(np.all(np.abs(code.astype(float) - r) <= 0.5 + slack)), "encode-error",
                  "code is not the nearest to near*max/depth", depth=keep, near=near, code=code, ideal=r, m=m)
        ctx.check(bool(np.all(code[keep == 0] == 0)) and bool(np.all(code[np.isinf(keep)] == 0)), "encode-unknown",
                  "zero/infinite depth must encode as 0", depth=keep, code=code)
        ctx.check(bool(np.all(code[(keep > 0) & (keep <= near)] == m)), "encode-near-clamp",
                  depth=keep, code=code, near=near)
        v, u = int(rng.integers(h)), int(rng.integers(w))
        one = encs(float(keep[v, u]), *args)
        ctx.check(abs(int(one) - r[v, u]) <= 0.5 + slack and abs(int(one) - int(code[v, u])) <= (m == 255),
                  "encode-scalar", depth=keep[v, u], near=near, got=one, ideal=r[v, u])
        back = dec(code, *args)
        ctx.equal((back.dtype, back.shape), (np.dtype(np.float32), d.shape), "decode-type")
        ctx.check(bool(np.all(np.isinf(back) == (code == 0))), "decode-unknown", code=code, depth=back)
        fin = code > 0
        ctx.close(back[fin], np.float64(near) * m / code[fin].astype(np.float64), "decode-value", rtol=3e-7, atol=0)
        ctx.check(bool(np.all(back >= near * F(1 - 1e-6))), "decode-below-near", depth=back, near=near)
        ctx.close(float(decs(int(code[v, u]), *args)), float(back[v, u]), "decode-scalar-vs-map", rtol=3e-7, atol=0)
        # round trip, judged in inverse depth: half a step
        inv0 = np.where(keep == 0, 0.0, np.minimum(1.0 / np.float64(near), 1.0 / np.where(keep == 0, 1, keep).astype(np.float64)))
        inv1 = np.where(np.isinf(back), 0.0, 1.0 / back.astype(np.float64))
        step = 1.0 / (np.float64(near) * m)
        ctx.check(bool(np.all(np.abs(inv0 - inv1) <= 0.502 * step + 1e-6 * inv0)), "roundtrip-error", depth=keep, back=back,
                  near=near, m=m)
        # decoding then encoding reproduces the code
        ctx.equal(enc(back, *args), code, "recode", near=near)
        # monotone
        flat, cf = keep.ravel(), code.ravel().astype(int)
        o = np.argsort(np.where(flat == 0, np.inf, flat), kind="stable")
        ctx.check(bool(np.all(np.diff(cf[o]) <= 0)), "monotone", depth=flat[o], code=cf[o])


@scenario(quick=24, thorough=240)
def all_codes(rng, ctx):
    """Every 16-bit and 8-bit code, for one near plane."""
    near = nears(rng) if rng.integers(4) else F(0.3)
    ctx.case(near, sample=dict(near=near, codes="0..65535"))
    code = np.arange(65536, dtype=np.uint16).reshape(256, 256)
    if rng.integers(2):
        code = np.asfortranarray(code)
    d = idp.depth_image_of_inverse_depth_map(code, near)
    ctx.equal(idp.inverse_depth_map_of_depth_image(d, near), code, "all-codes-16", near=near)
    flat = d[np.unravel_index(np.arange(65536), (256, 256))]
    ctx.check(bool(np.isinf(flat[0])) and bool(np.all(np.diff(flat[1:]) < 0)), "decode-strictly-decreasing", near=near)
    ctx.close(float(flat[-1]), float(near), "decode-max-is-near", rtol=3e-7, atol=0)
    ctx.count("codes_16bit", 65536)
    c8 = np.arange(256, dtype=np.uint8).reshape(16, 16)
    d8 = idp.depth_image_of_uint8_inverse_depth_map(c8, near)
    ctx.equal(idp.uint8_inverse_depth_map_of_depth_image(d8, near), c8, "all-codes-8", near=near)
    # 8-bit to 16-bit conversion keeps the depth (new near plane: the default)
    c16 = idp.uint16_of_uint8_inverse_depth_map(c8, near)
    ctx.equal((c16.dtype, c16.shape), (np.dtype(np.uint16), c8.shape), "convert-type")
    want = np.minimum(np.float64(idp.DEFAULT_NEAR) * 65535 / np.where(c8 == 0, np.inf, d8.astype(np.float64)), 65535.0)
    ctx.check(bool(np.all(np.abs(c16 - want) <= 0.52)), "convert-8-16", near=near, got=c16, want=want)
    i = int(rng.integers(256))
    ctx.check(abs(int(idp.inverse_depth_from_uint8(i, near)) - want.ravel()[i]) <= 0.52, "convert-scalar", i=i, near=near)
    ctx.count("codes_8bit", 256)

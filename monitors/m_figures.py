"""C29: figures show the object's own data, and drawing, timing or comparing an object changes nothing.

Runs with the real matplotlib (Agg), not with the stand-in that the other monitors use."""
import contextlib
import gc
import io
import os
import sys

_stubs = [p for p in sys.path if os.path.isdir(os.path.join(p, "matplotlib")) and os.path.basename(p) == "stubs"]
_path = list(sys.path)
sys.path[:] = [p for p in sys.path if p not in _stubs]
import matplotlib  # noqa: E402
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
from mpl_toolkits.mplot3d import Axes3D  # noqa: E402,F401
sys.path[:] = _path
matplotlib.use = lambda *a, **k: None  # sumo.metrics.utils asks for TkAgg; there is no display here
import numpy as np  # noqa: E402
from core import scenario  # noqa: E402
import gen  # noqa: E402
import shapes  # noqa: E402
from m_inverse_depth import depths, ideal  # noqa: E402
from m_cloud import points, colors, npts  # noqa: E402

from sumo.geometry.pose3 import Pose3  # noqa: E402
from sumo.geometry.rot3 import Rot3  # noqa: E402
from sumo.images.rgbd_360 import Rgbd360  # noqa: E402
from sumo.images.rgbdci_360 import Rgbdci360  # noqa: E402
from sumo.threedee.mesh import Mesh  # noqa: E402
from sumo.threedee.point_cloud import PointCloud  # noqa: E402
from sumo.base.colored_category import ColoredCategory  # noqa: E402
from sumo.metrics import utils  # noqa: E402

F = np.float32
calls = []
for _name in ("show", "waitforbuttonpress"):
    setattr(plt, _name, lambda *a, _n=_name, **k: calls.append(_n))


@contextlib.contextmanager
def figures(ctx, key, want=1):
    """Exactly one new figure, nothing shown, other figures untouched."""
    plt.close("all")
    before = plt.figure()
    ax = before.add_subplot(1, 1, 1)
    del calls[:]
    yield
    ctx.check(not calls, key + "-shown", "the figure was shown", calls=list(calls))
    ctx.check(len(plt.get_fignums()) == 1 + want, key + "-one-figure", got=len(plt.get_fignums()))
    ctx.check(before.axes == [ax] and not ax.images and not ax.collections and not ax.lines, key + "-other-figure",
              "something was drawn in a figure that was open before")
    plt.close("all")


def shown(ax):
    """What an image axes displays: its array and whether every pixel of it is in view, the right way up."""
    im = ax.images
    return (len(im), np.ma.getdata(im[0].get_array()) if len(im) == 1 else None)


def is_image(ctx, ax, want, key, title):
    n, got = shown(ax)
    ctx.check(n == 1, key + "-images", got=n)
    ctx.equal(got.shape, want.shape, key + "-shape")
    ctx.equal(got, want, key + "-pixels")
    h, w = want.shape[:2]
    ctx.equal((tuple(ax.get_xlim()), tuple(ax.get_ylim())), ((-0.5, w - 0.5), (h - 0.5, -0.5)), key + "-view")
    ctx.equal(tuple(ax.images[0].get_extent()), (-0.5, w - 0.5, h - 0.5, -0.5), key + "-extent")
    ctx.equal(ax.get_title(), title, key + "-title")


@scenario(quick=260)
def panoramas(rng, ctx):
    h = int(gen.pick(rng, [1, 2, 3, 5, 8]))
    w = 2 * h
    labels = bool(rng.integers(2))
    rgb = gen.u8(rng, (h, w, 3))
    near = F(0.3)
    rng_img = depths(rng, near, h * w).reshape(h, w)
    keep = rgb.copy(), rng_img.copy()
    size = gen.pick(rng, [None, (4, 3), (7.5, 2.25)])
    kw = {} if size is None else dict(figsize=size)
    if labels:
        n = int(gen.pick(rng, [1, 3, 60, 256, 700]))
        cat = rng.integers(0, n, size=(h, w)).astype(np.uint16)
        ins = rng.integers(0, 65536, size=(h, w)).astype(np.uint16)
        kc, ki = cat.copy(), ins.copy()
        im = Rgbdci360(rgb, rng_img, cat, ins)
        lut = None
        k = rng.integers(3)
        if k:
            lut = rng.integers(0, 256, size=(n, 3)).astype(np.uint8)
            if k == 2:
                p = os.path.join(ctx.tmp(), "c.csv")
                with open(p, "w") as f:
                    f.write("id,category,is_evaluated,color\n")
                    for i in range(n):
                        f.write("%d,c%d,True,%d;%d;%d\n" % ((i, i) + tuple(lut[i])))
                kw["category_lut"] = ColoredCategory(p).LUT
            else:
                kw["category_lut"] = lut.copy()
        ctx.case(rgb, rng_img, cat, ins, repr(size), k, sample=dict(h=h, w=w, lut=bool(k)))
    else:
        im = Rgbd360(rgb, rng_img)
        ctx.case(rgb, rng_img, repr(size), sample=dict(h=h, w=w))
    with figures(ctx, "panorama"):
        fig = im.show(**kw)
        ctx.equal(tuple(fig.get_size_inches()), tuple(map(float, size or (12, 6))), "panorama-figsize")
        axes = fig.axes
        ctx.check(len(axes) == (4 if labels else 2), "panorama-axes", got=len(axes))
        is_image(ctx, axes[0], keep[0], "rgb", "RGB")
        n_, codes = shown(axes[1])
        ctx.check(n_ == 1 and codes.shape == (h, w), "range-image")
        ctx.check(bool(np.all(np.abs(codes.astype(float) - ideal(keep[1], near, 65535)) <= 0.5 + 2e-6 * 65535)), "range-codes",
                  range=keep[1], got=codes)
        is_image(ctx, axes[1], np.asarray(codes), "range", "Inverse range")
        if labels:
            is_image(ctx, axes[2], kc if lut is None else lut[kc], "category", "Category")
            is_image(ctx, axes[3], ki, "instance", "Instance")
            ctx.count("with_lut" if lut is not None else "without_lut")
            ctx.equal(im.category, kc, "panorama-category-kept")
            ctx.equal(im.instance, ki, "panorama-instance-kept")
            if lut is not None:
                ctx.equal(np.asarray(kw["category_lut"]), lut, "panorama-lut-kept")
        ctx.equal(im.rgb, keep[0], "panorama-rgb-kept")
        ctx.equal(im.range, keep[1], "panorama-range-kept")
        tops = [a.get_position().y1 for a in axes]
        ctx.check(tops == sorted(tops, reverse=True) and len(set(tops)) == len(tops), "panorama-order", tops=tops)
        if rng.integers(8) == 0:
            fig.savefig(io.BytesIO(), format="png")
            ctx.count("rendered")
    ctx.count("panoramas")


@scenario(quick=260)
def clouds(rng, ctx):
    n = npts(rng)
    P = points(rng, n)
    C = colors(rng, n) if rng.integers(2) else None
    colored = bool(rng.integers(2))
    kw = {}
    size = gen.pick(rng, [None, (5, 4), (3.5, 8.25)])
    if size:
        kw["figsize"] = size
    if colored or rng.integers(2):
        kw["colored"] = colored
    opts = {}
    if rng.integers(3) == 0:
        opts["s"] = float(rng.integers(2, 9))
    if rng.integers(3) == 0:
        opts["marker"] = gen.pick(rng, ["o", "x", "+"]) if not colored else "o"
    if rng.integers(3) == 0:
        opts["alpha"] = 0.5
    given = dict(opts)
    ctx.case(P, C if C is not None else "plain", repr(kw), repr(opts), sample=dict(n=n, colored=colored, has=C is not None))
    P64 = P.astype(float)
    cloud = PointCloud(P64) if C is None else PointCloud(P64, C)
    with figures(ctx, "cloud"):
        fig = cloud.show(**dict(kw, **opts))
        ctx.equal(opts, given, "cloud-options-kept")
        ctx.equal(tuple(fig.get_size_inches()), tuple(map(float, size or (12, 6))), "cloud-figsize")
        axes = fig.axes
        ctx.check(len(axes) == 3, "cloud-axes", got=len(axes))
        for ax, (i, j), title in zip(axes, ((0, 1), (0, 2), (1, 2)), ("XY", "XZ", "YZ")):
            ctx.equal(ax.get_title(), title, "cloud-title")
            ctx.check(len(ax.collections) == 1, "cloud-one-scatter", got=len(ax.collections))
            s = ax.collections[0]
            got = np.ma.getdata(s.get_offsets())
            ctx.equal(got.shape, (n, 2), "cloud-points-shape", title=title)
            ctx.equal(got, P64[[i, j]].T, "cloud-points", title=title)
            ctx.check(ax.get_aspect() in ("equal", 1.0), "cloud-aspect", got=ax.get_aspect())
            ctx.equal(list(s.get_sizes()), [opts.get("s", 1)], "cloud-size")
            if colored and C is not None and n:
                want = C.T / 255.0
                face = s.get_facecolors()
                if n > 1 and len(face) == 1:
                    face = np.repeat(face, n, axis=0)
                ctx.close(face[:, :3], want, "cloud-colors", rtol=0, atol=1e-12, title=title)
                ctx.count("colored_points", n)
            elif n:
                ctx.check(len(s.get_facecolors()) <= 1, "cloud-plain-colors")
        ctx.equal(cloud.points(), P64, "cloud-points-kept")
        if C is not None and n:
            ctx.equal(cloud.colors(), C, "cloud-colors-kept")
        if rng.integers(8) == 0 and np.all(np.isfinite(P64)):
            fig.savefig(io.BytesIO(), format="png")
            ctx.count("rendered")
    ctx.count("clouds")


class Axes(object):
    def __init__(self):
        self.calls = []

    def quiver(self, *a, **k):
        self.calls.append(([np.array(x, float) for x in a], dict(k)))


@scenario(quick=400)
def poses(rng, ctx):
    """draw_poses: three sets of arrows, the columns of each rotation, red, green and blue, starting at the position."""
    n = int(gen.pick(rng, [1, 1, 2, 3, 7]))
    Rs = [gen.rotation(rng) for _ in range(n)]
    ts = [gen.vec3(rng, -3, 3) for _ in range(n)]
    ps = [Pose3(Rot3(np.ascontiguousarray(R)), t) for R, t in zip(Rs, ts)]
    length = gen.pick(rng, [None, 0.5, 3.0])
    kw = {} if length is None else dict(length=length)
    ctx.case(np.array(Rs), np.array(ts), repr(length), sample=dict(n=n))
    ax = Axes()
    seq = ps if rng.integers(2) else tuple(ps)
    Pose3.draw_poses(seq, ax, **kw)
    ctx.check(len(ax.calls) == 3, "axes-drawn", got=len(ax.calls))
    by = {c[1].get("color"): c for c in ax.calls}
    ctx.equal(sorted(by), ["b", "g", "r"], "axis-colors")
    for k, col in enumerate("rgb"):
        a, o = by[col]
        ctx.equal(np.array(a[:3]).T, np.array(ts), "arrow-origin", axis=k)
        ctx.close(np.array(a[3:]).T, np.array(Rs)[:, :, k], "arrow-direction", rtol=1e-12, atol=1e-12, axis=k)
        ctx.equal((o.get("length"), o.get("pivot")), (length or 0.01, "tail"), "arrow-options", axis=k)
    for p, R, t in zip(ps, Rs, ts):
        ctx.equal(p.R.matrix(), R, "pose-kept")
        ctx.equal(p.t, t, "pose-kept")
    if rng.integers(10) == 0:
        plt.close("all")
        fig = plt.figure()
        ax3 = fig.add_subplot(1, 1, 1, projection="3d")
        Pose3.draw_poses(ps, ax3, **kw)
        ctx.check(len(ax3.collections) == 3, "real-axes")
        plt.close("all")
        ctx.count("real_axes")
    ctx.count("poses", n)


@scenario(quick=200)
def precision_recall(rng, ctx):
    n = int(gen.pick(rng, [1, 2, 5, 101]))
    prec = np.round(rng.random(n), 3)
    rec = np.sort(np.round(rng.random(n), 3))
    keep = prec.copy(), rec.copy()
    ctx.case(prec, rec, sample=dict(n=n))
    with figures(ctx, "curve"):
        fig = utils.plot_pr(prec, rec)
        ctx.check(len(fig.axes) == 1 and len(fig.axes[0].lines) == 1, "curve-one-line")
        ax = fig.axes[0]
        x, y = ax.lines[0].get_data()
        ctx.equal(np.asarray(x), keep[1], "curve-recall")
        ctx.equal(np.asarray(y), keep[0], "curve-precision")
        ctx.equal((ax.get_xlabel(), ax.get_ylabel()), ("Recall", "Precision"), "curve-labels")
        ctx.close(np.array(ax.get_xlim() + ax.get_ylim()), np.array([0, 1, 0, 1.1]), "curve-range", rtol=0, atol=1e-12)
        ctx.equal(np.array([prec, rec]), np.array(keep), "curve-inputs-kept")
    ctx.count("curves")


@scenario(quick=200)
def surfaces(rng, ctx):
    """visualize_mesh hands the plotter one polygon per triangle, with the mesh's own corners."""
    a = shapes.arrays(rng)
    ind, ver, nor = (np.array(x) for x in a[:3])
    m = Mesh(*a[:3])
    vis = bool(rng.integers(2))
    ctx.case(ind, ver, vis, sample=dict(triangles=len(ind) // 3))
    plots = []
    import pyny3d.geoms as pyny
    old = pyny.Surface.plot
    pyny.Surface.plot = lambda s, *x, **k: plots.append(s)
    del calls[:]
    try:
        plt.close("all")
        utils.visualize_mesh(m, visualize=vis)
    finally:
        pyny.Surface.plot = old
    ctx.check(len(plots) == (1 if vis else 0), "surface-plotted", got=len(plots), visualize=vis)
    ctx.check(("show" in calls) == vis, "surface-shown", calls=list(calls), visualize=vis)
    if vis:
        polys = plots[0].polygons
        ctx.equal(len(polys), len(ind) // 3, "surface-triangles")
        for p, tri in zip(polys, ind.reshape(-1, 3)):
            ctx.equal(np.asarray(p.points), ver[:, tri].T.astype(float), "surface-corners")
            ctx.count("polygons")
    ctx.equal(m.indices(), ind, "surface-mesh-kept")
    ctx.equal(m.vertices(), ver, "surface-mesh-kept")


@scenario(quick=300)
def comparisons(rng, ctx):
    """almost_equal, assert_almost_equal and assert_equal say the same as comparing the matrices."""
    R, t = gen.rotation(rng), gen.vec3(rng, -2, 2)
    eps = gen.pick(rng, [0.0, 1e-12, 1e-9, 1e-7, 1e-3, 0.5])
    what = int(rng.integers(3))
    R2, t2 = R.copy(), np.array(t, float).copy()
    if what != 1 and eps:
        R2 = gen.ref_axis_angle(gen.axis(rng), eps).dot(R)
    if what != 0 and eps:
        k = int(rng.integers(3))
        t2[k] += eps
    ctx.case(R, t, R2, t2, sample=dict(eps=eps, what=what))
    a, b = (Rot3(np.ascontiguousarray(x)) for x in (R, R2))
    p, q = Pose3(a, t), Pose3(b, t2)
    M, N = (np.hstack([x, np.reshape(y, (3, 1))]) for x, y in ((R, t), (R2, t2)))
    for key, x, y, A, B in (("rotation", a, b, R, R2), ("pose", p, q, M, N)):
        for u, v, U, V in ((x, y, A, B), (y, x, B, A), (x, x, A, A)):
            for args, kw in (((), {}), ((), dict(rtol=0, atol=1e-10)), ((), dict(rtol=0, atol=1e-5)), ((0.0, 1e-2), {})):
                ctx.equal(bool(u.almost_equal(v, *args, **kw)), bool(np.allclose(U, V, *args, **kw)), key + "-almost-equal",
                          args=args, kw=kw, eps=eps)
            for args in ((), (3,), (8,), (11,)):
                ctx.equal(raised(lambda: u.assert_almost_equal(v, *args)), raised(lambda: np.testing.assert_array_almost_equal(U, V, *args)),
                          key + "-assert-almost", args=args, eps=eps)
            ctx.equal(raised(lambda: u.assert_equal(v)), not np.array_equal(U, V), key + "-assert-equal", eps=eps)
    ctx.count("different" if eps else "same")


def raised(fn):
    try:
        fn()
    except AssertionError:
        return True
    return False


class Foreign(object):
    """Behaves like an Open3D triangle mesh."""

    def __init__(self, tri, ver, nor):
        self.triangles, self.vertices = tri, ver
        self.vertex_normals, self.computed, self.later = nor, 0, None

    def compute_vertex_normals(self):
        self.computed += 1
        self.vertex_normals = self.later


@scenario(quick=300)
def foreign_meshes(rng, ctx):
    a = shapes.arrays(rng)
    ind, ver, nor = (np.array(x) for x in a[:3])
    nv = ver.shape[1]
    tri = ind.reshape(-1, 3).astype(gen.pick(rng, [np.int32, np.int64, np.uint32]))
    rows, nrm = ver.T.astype(float), nor.T.astype(float)
    has = gen.pick(rng, ["all", "none", "some"]) if nv > 1 else gen.pick(rng, ["all", "none"])
    give = dict(all=nrm, none=np.zeros((0, 3)), some=nrm[:nv // 2])[has]
    if rng.integers(2):
        tri, rows, give = [np.asfortranarray(x) for x in (tri, rows, give)]
    ctx.case(tri, rows, give, has, sample=dict(vertices=nv, normals=has))
    o = Foreign(tri, rows, give)
    o.later = nrm
    m = Mesh.from_open3d_mesh(o)
    ctx.equal(m.indices(), ind, "foreign-indices")
    ctx.equal(m.vertices(), ver, "foreign-vertices")
    ctx.equal(m.normals(), nor, "foreign-normals", normals=has)
    ctx.equal(o.computed > 0, has != "all" and nv > 0, "foreign-computed", normals=has, nv=nv)
    ctx.equal(np.asarray(o.triangles), tri, "foreign-kept")
    ctx.equal(np.asarray(o.vertices), rows, "foreign-kept")
    # nothing is shared with the source
    if nv:
        o.vertices[:] = 77.0
        o.vertex_normals[:] = 77.0
        if len(tri):
            o.triangles[:] = 0
        ctx.equal(m.vertices(), ver, "foreign-shared")
        ctx.equal(m.normals(), nor, "foreign-shared")
        ctx.equal(m.indices(), ind, "foreign-shared")
    ctx.count("normals_" + has)


@scenario(quick=200)
def timed_calls(rng, ctx):
    """measure_time: same result, same exception, same name, collector left as it was; off while the function runs."""
    seen = {}
    boom = bool(rng.integers(3) == 0)
    value = object()
    err = gen.pick(rng, [ValueError, KeyError, KeyboardInterrupt, SystemExit])("x")
    depth = int(rng.integers(3))

    def inner(*a, **k):
        """words"""
        seen["on"], seen["args"] = gc.isenabled(), (a, k)
        if boom:
            raise err
        return value
    fn = inner
    for _ in range(depth + 1):
        fn = utils.measure_time(fn)
    args = tuple(range(int(rng.integers(3))))
    kw = dict(z=1) if rng.integers(2) else {}
    on = bool(rng.integers(2))
    ctx.case(boom, depth, args, repr(kw), on, type(err).__name__, int(rng.integers(1 << 30)), sample=dict(raises=boom, enabled=on, nested=depth))
    was = gc.isenabled()
    out = io.StringIO()
    got = exc = None
    try:
        (gc.enable if on else gc.disable)()
        with contextlib.redirect_stdout(out):
            try:
                got = fn(*args, **kw)
            except BaseException as e:
                exc = e
        after = gc.isenabled()
    finally:
        (gc.enable if was else gc.disable)()
    ctx.equal(after, on, "collector-restored", raises=boom, nested=depth)
    ctx.equal(seen.get("on"), False, "collector-off-meanwhile")
    ctx.equal(seen.get("args"), (args, kw), "timed-arguments")
    ctx.check(got is (None if boom else value), "timed-result")
    ctx.check(exc is (err if boom else None), "timed-exception", got=repr(exc))
    ctx.equal((fn.__name__, fn.__doc__), ("inner", "words"), "timed-name")
    ctx.equal([l.split('"')[1] for l in out.getvalue().splitlines()], ["inner"] * (depth + 1), "timed-report")
    for l in out.getvalue().splitlines():
        s = float(l.rsplit(" ", 1)[1].rstrip("s"))
        ctx.check(0 <= s < 60, "timed-seconds", got=l)
    ctx.count("timed_raising" if boom else "timed")

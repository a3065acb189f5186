"""C13: point clouds, driven through operation histories against a list model, and PLY files."""
import os
import numpy as np
from core import scenario, Violation
import gen
from gen import limited

from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.threedee.point_cloud import PointCloud

F = np.float32


def points(rng, n):
    k = rng.integers(4)
    if k == 0:
        p = rng.integers(-4, 5, size=(3, n)).astype(float)
    else:
        p = rng.normal(size=(3, n)) * 10.0 ** rng.uniform(-3, 4)
    if k == 2 and n:
        p[:, rng.integers(n)] = 0
    if rng.integers(3) == 0:
        p = np.asfortranarray(p)
    if rng.integers(4) == 0:
        p = p.astype(F)
    return p


def colors(rng, n):
    c = rng.integers(0, 256, size=(3, n)).astype(np.uint8)
    return np.asfortranarray(c) if rng.integers(3) == 0 else c


def npts(rng):
    return int(gen.pick(rng, [0, 1, 2, 3, 5, 9, 40]))


class Model(object):
    def __init__(self, p, c):
        self.p, self.c = np.array(p, float).reshape(3, -1), None if c is None else np.array(c)


def agrees(ctx, cloud, m, key, tol=0.0):
    ctx.check(cloud.num_points() == m.p.shape[1], key + "-count", got=cloud.num_points(), want=m.p.shape[1])
    got = cloud.points()
    ctx.check(got.shape == m.p.shape, key + "-shape", got=got.shape)
    if tol:
        ctx.close(got, m.p, key + "-points", rtol=1e-9, atol=tol)
    else:
        ctx.equal(got, m.p, key + "-points")
    if m.p.shape[1]:
        ctx.check(cloud.colored() == (m.c is not None), key + "-colored")
    if m.c is not None:
        ctx.equal(cloud.colors(), m.c, key + "-colors")
    n = m.p.shape[1]
    for i in {0, n // 2, n - 1} if n else ():
        ctx.close(cloud.point(i), m.p[:, i], key + "-point", rtol=1e-9, atol=tol)
        if m.c is not None:
            ctx.equal(cloud.color(i), m.c[:, i], key + "-color")


def cat(a, b):
    c = None
    if a.c is not None or b.c is not None:
        z = np.zeros((3, 0), np.uint8)
        c = np.hstack([z if a.c is None else a.c, z if b.c is None else b.c])
    return Model(np.hstack([a.p, b.p]), c)


@scenario(quick=500)
def histories(rng, ctx):
    """Create, append, merge, add, sum, register, transform, thin in random order."""
    colored = bool(rng.integers(2))

    def new():
        n = npts(rng)
        p = points(rng, n)
        c = colors(rng, n) if colored else None
        keep = p.copy()
        cl = PointCloud(p, c) if c is not None else PointCloud(p)
        m = Model(keep, c)
        if n:
            p[:] = -7e7  # the cloud owns its points
            if c is not None:
                c[:] = 255 - c
        return [cl, m, 0.0]

    pool = [new() for _ in range(2)]
    log = []
    for step in range(int(rng.integers(3, 10))):
        i, j = int(rng.integers(len(pool))), int(rng.integers(len(pool)))
        a, b = pool[i], pool[j]
        big = max(1.0, float(np.abs(a[1].p).max()) if a[1].p.size else 1.0)
        op = gen.pick(rng, ["new", "append", "merge", "add", "sum", "register", "from", "to", "thin"])
        log.append((op, i, j))
        ctx.count("op_" + op)
        if op == "new":
            pool.append(new())
        elif op == "append":
            if a[1].p.shape[1] + b[1].p.shape[1] > 2000:
                continue
            m = cat(a[1], b[1])
            a[0].append(b[0])
            a[1], a[2] = m, max(a[2], b[2])
        elif op in ("merge", "add"):
            r = PointCloud.merge(a[0], b[0]) if op == "merge" else a[0] + b[0]
            pool.append([r, cat(a[1], b[1]), max(a[2], b[2])])
        elif op == "sum":
            k = [pool[int(t)] for t in rng.integers(len(pool), size=int(rng.integers(1, 5)))]
            r = sum([x[0] for x in k])
            m = k[0][1]
            for x in k[1:]:
                m = cat(m, x[1])
            pool.append([r, m, max(x[2] for x in k)])
        elif op == "register":
            k = [pool[int(t)] for t in rng.integers(len(pool), size=int(rng.integers(1, 4)))]
            poses = [(gen.rotation(rng), gen.vec3(rng, -2, 3)) for _ in k]
            m = Model(np.zeros((3, 0)), np.zeros((3, 0), np.uint8) if colored else None)
            for x, (R, t) in zip(k, poses):
                m = cat(m, Model(R.dot(x[1].p) + t[:, None], x[1].c))
            r = PointCloud.register((Pose3(Rot3(R), t), x[0]) for x, (R, t) in zip(k, poses))
            tol = 1e-9 * max([1.0] + [float(np.abs(x[1].p).max()) for x in k if x[1].p.size])
            pool.append([r, m, 2 * max([tol] + [x[2] for x in k])])
        elif op in ("from", "to"):
            R, t = gen.rotation(rng), gen.vec3(rng, -2, 3)
            T = Pose3(Rot3(R), t)
            if op == "from":
                r, p = a[0].transform_from(T), R.dot(a[1].p) + t[:, None]
            else:
                r, p = a[0].transform_to(T), R.T.dot(a[1].p - t[:, None])
            pool.append([r, Model(p, a[1].c), 2 * a[2] + 1e-9 * max(big, float(np.abs(t).max()))])
        elif op == "thin":
            if not a[1].p.shape[1]:
                continue
            k = int(rng.integers(1, 8))
            np.random.seed(int(rng.integers(2 ** 31)))
            r = a[0].thin(k)
            ctx.check(r.num_points() == k, "thin-count")
            src = a[0].points()
            have = {}
            for q in range(src.shape[1]):
                have.setdefault(src[:, q].tobytes(), set()).add(
                    a[1].c[:, q].tobytes() if a[1].c is not None else b"")
            rp = r.points()
            for q in range(k):
                ctx.check(rp[:, q].tobytes() in have, "thin-invents-point")
                if a[1].c is not None:
                    ctx.check(r.color(q).tobytes() in have[rp[:, q].tobytes()], "thin-mixes-colors")
            if 1 < src.shape[1] <= 6 and rng.integers(4) == 0:  # every point has its chance
                seen = set()
                for _ in range(200):
                    one = a[0].thin(1).points()
                    seen.add(one[:, 0].tobytes())
                ctx.check(seen == set(have), "thin-never-keeps-some", "%d of %d points" % (len(seen), len(have)))
                ctx.count("thinned_often")
        for q, (c, m, tol) in enumerate(pool):
            agrees(ctx, c, m, "history-" + op, tol)
        if len(pool) > 6:
            pool = pool[-6:]
    ctx.case(str(log), *[m.p for _, m, _ in pool])


@scenario(quick=150)
def mixed_and_bad_arguments(rng, ctx):
    n, k = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    col = PointCloud(points(rng, n), colors(rng, n))
    plain = PointCloud(points(rng, k))
    p0, c0, q0 = col.points(), col.colors(), plain.points()
    ctx.case(p0, q0)
    T = Pose3(Rot3(gen.rotation(rng)), gen.vec3(rng, -2, 2))

    def app(a, b):
        return lambda: a.append(b)
    for key, fn in (("append-plain", app(col, plain)), ("append-colored", app(plain, col)),
                    ("merge", lambda: PointCloud.merge(col, plain)), ("merge2", lambda: PointCloud.merge(plain, col)),
                    ("add", lambda: col + plain), ("register", lambda: PointCloud.register([(T, col), (T, plain)]))):
        ctx.raises((ValueError,), fn, "mixed-" + key)
    ctx.equal(col.points(), p0, "refused-changed-points")
    ctx.equal(col.colors(), c0, "refused-changed-colors")
    ctx.equal(plain.points(), q0, "refused-changed-plain")
    ctx.raises((IndexError,), lambda: col.point(n), "point-past-end")
    ctx.raises((IndexError,), lambda: col.color(n), "color-past-end")
    ctx.raises((IndexError,), lambda: plain.color(0), "color-of-plain")
    ctx.raises((IndexError, OverflowError), lambda: col.point(-1), "point-negative")
    ctx.raises((AssertionError, ValueError), lambda: PointCloud(points(rng, n), colors(rng, n + 1)), "uneven")
    ctx.raises((AssertionError, ValueError), lambda: PointCloud(points(rng, n)[:2].copy()), "not-3-rows")
    # a cloud handed out earlier does not change with the source
    got = col.points()
    got[:] = 0
    ctx.equal(col.points(), p0, "points-alias")


def parse_ply(path):
    """Independent reader of the binary files the code writes."""
    data = open(path, "rb").read()
    end = data.index(b"end_header\n") + len(b"end_header\n")
    lines = data[:end].decode().split("\n")
    props, n = [], None
    fmt = [l for l in lines if l.startswith("format")][0].split()
    for l in lines:
        t = l.split()
        if t[:2] == ["element", "vertex"]:
            n = int(t[2])
        elif t[:1] == ["property"]:
            props.append((t[2], {"float": "<f4", "float32": "<f4", "uchar": "u1", "uint8": "u1"}[t[1]]))
    return fmt, np.frombuffer(data[end:], dtype=np.dtype(props)), n


@scenario(quick=250)
def ply_roundtrip(rng, ctx):
    n = int(gen.pick(rng, [1, 2, 3, 17, 64]))
    p = points(rng, n)
    c = colors(rng, n) if rng.integers(2) else None
    ctx.case(p, c)
    cl = PointCloud(p, c) if c is not None else PointCloud(p)
    f = os.path.join(ctx.tmp(), "a.ply")
    if rng.integers(2):  # something longer already there
        open(f, "wb").write(b"x" * 100000)
    cl.write_ply(f)
    ctx.equal(cl.points(), p.astype(float), "write-changes-points")
    fmt, rec, cnt = parse_ply(f)
    ctx.check(fmt[1] == "binary_little_endian" and cnt == n and len(rec) == n, "ply-header", fmt=fmt, n=cnt, recs=len(rec))
    want = p.astype(F)
    ctx.equal(np.stack([rec["x"], rec["y"], rec["z"]]), want, "ply-coordinates")
    if c is not None:
        ctx.equal(np.stack([rec["red"], rec["green"], rec["blue"]]), c, "ply-colors")
    else:
        ctx.check(len(rec.dtype) == 3, "ply-extra-properties")
    b = PointCloud.load_ply(f)
    ctx.equal(b.points(), want.astype(float), "ply-roundtrip")
    ctx.check(not b.colored(), "ply-load-colored")


@scenario(quick=200)
def ply_of_other_writers(rng, ctx):
    """ascii and both binary orders, float or double, further properties and elements around them."""
    n = int(rng.integers(1, 20))
    p = points(rng, n).astype(float)
    p = np.round(p, 3) if rng.integers(2) else p
    dbl = bool(rng.integers(2))
    kind = gen.pick(rng, ["ascii", "binary_little_endian", "binary_big_endian"])
    o = ">" if kind == "binary_big_endian" else "<"
    if kind == "ascii" and not dbl:
        p = p.astype(F).astype(float)
    tn = gen.pick(rng, [["double", "float64"], ["float", "float32"]][0 if dbl else 1])
    extra = int(rng.integers(3))
    props = [("x", tn, o + ("f8" if dbl else "f4")), ("y", tn, o + ("f8" if dbl else "f4")),
             ("z", tn, o + ("f8" if dbl else "f4"))]
    if extra:
        props.insert(int(rng.integers(4)), ("nx", "float", o + "f4"))
    if extra == 2:
        props += [("red", "uchar", "u1"), ("q", "ushort", o + "u2"), ("k", "int", o + "i4")]
    rec = np.zeros(n, dtype=np.dtype([(a, c) for a, _, c in props]))
    for i, nm in enumerate("xyz"):
        rec[nm] = p[i]
    for a, _, c in props:
        if a not in "xyz":
            rec[a] = rng.integers(0, 100, size=n)
    faces = int(rng.integers(4))
    head = "ply\nformat %s 1.0\ncomment made by hand\n" % kind
    head += "element vertex %d\n" % n + "".join("property %s %s\n" % (b, a) for a, b, _ in props)
    if faces:
        head += "element face %d\nproperty list uchar int vertex_indices\n" % faces
    head += "end_header\n"
    f = os.path.join(ctx.tmp(), "a.ply")
    with open(f, "wb") as out:
        out.write(head.encode())
        if kind == "ascii":
            for r in rec:
                out.write((" ".join(repr(float(r[a])) if c[-2] == "f" else str(int(r[a])) for a, _, c in props)
                           + "\n").encode())
            for _ in range(faces):
                out.write(b"3 0 0 0\n")
        else:
            out.write(rec.tobytes())
            for _ in range(faces):
                out.write(b"\3" + np.zeros(3, o + "i4").tobytes())
    ctx.case(p, kind, dbl, extra, faces)
    ctx.count("ply_" + kind)
    ctx.count("ply_double" if dbl else "ply_float")
    got = PointCloud.load_ply(f)
    want = np.stack([rec[a] for a in "xyz"]).astype(F).astype(float)
    ctx.check(got.num_points() == n, "foreign-count", got=got.num_points(), want=n)
    ctx.close(got.points(), want, "foreign-coordinates", rtol=2e-7 if kind == "ascii" else 0, atol=0)
    # the same file with the end of its points missing
    with open(f, "rb") as fh:
        data = fh.read()
    lost = int(rng.integers(1, n + 1))
    if kind == "ascii":
        body = data[len(head):].split(b"\n")
        cut = data[:len(head)] + b"".join(b + b"\n" for b in body[:n - lost])
    else:
        cut = data[:len(head) + n * rec.itemsize - int(rng.integers(1, lost * rec.itemsize + 1))]
    with open(f, "wb") as fh:
        fh.write(cut)
    ctx.raises((RuntimeError, OSError, ValueError), lambda: PointCloud.load_ply(f), "points-missing-at-the-end", kind=kind, lost=lost)
    ctx.count("ply_cut_refused")


INTS = {"char": "i1", "int8": "i1", "uchar": "u1", "uint8": "u1", "short": "i2", "int16": "i2", "ushort": "u2", "uint16": "u2",
        "int": "i4", "int32": "i4", "uint": "u4", "uint32": "u4"}
FLOATS = {"float": "f4", "float32": "f4", "double": "f8", "float64": "f8"}


@scenario(quick=300)
def ply_with_lists(rng, ctx):
    """Elements before and after the vertices, and list properties of every count and item type anywhere."""
    kind = gen.pick(rng, ["ascii", "binary_little_endian", "binary_big_endian"])
    o = ">" if kind == "binary_big_endian" else "<"
    names = sorted(INTS) + sorted(FLOATS)

    def other(k):
        t = gen.pick(rng, names)
        if rng.integers(2):
            return ("p%d" % k, t, None)
        return ("p%d" % k, t, gen.pick(rng, sorted(INTS)))
    n = int(rng.integers(1, 9))
    dbl = gen.pick(rng, sorted(FLOATS))
    # coordinates that a float holds exactly
    p = np.round(rng.normal(size=(3, n)) * 1000) / 8
    mine = [other(k) for k in range(int(rng.integers(4)))]
    for j, a in enumerate("xyz"):
        at = int(rng.integers(max([mine.index(q) for q in mine if q[0] in "xyz"], default=-1) + 1, len(mine) + 1))
        mine.insert(at, (a, dbl, None))
    elements = [("e%d" % k, int(rng.integers(0, 4)), [other(q) for q in range(int(rng.integers(1, 4)))]) for k in range(int(rng.integers(3)))]
    before = int(rng.integers(len(elements) + 1))
    elements.insert(before, ("vertex", n, mine))
    head, body = "ply\nformat %s 1.0\n" % kind, []
    for name, count, props in elements:
        head += "element %s %d\n" % (name, count)
        for a, t, c in props:
            head += "property %s %s\n" % (t, a) if c is None else "property list %s %s %s\n" % (c, t, a)
        for q in range(count):
            row = []
            for a, t, c in props:
                d = np.dtype(o + (INTS.get(t) or FLOATS[t]))
                if name == "vertex" and a in "xyz":
                    row.append((d, p["xyz".index(a), q]))
                    continue
                m = 1
                if c is not None:
                    m = int(gen.pick(rng, [0, 1, 3, 4, 7]))
                    row.append((np.dtype(o + INTS[c]), m))
                    ctx.count("list_%s" % ("same_size" if np.dtype(INTS[c]).itemsize == d.itemsize else "mixed_size"))
                row += [(d, int(rng.integers(0, 100)) if d.kind != "f" else float(rng.integers(-800, 800)) / 16) for _ in range(m)]
            if kind == "ascii":
                body.append(" ".join(repr(float(v)) if d.kind == "f" else str(v) for d, v in row).encode() + b"\n")
            else:
                body += [np.array(v, d).tobytes() for d, v in row]
    f = os.path.join(ctx.tmp(), "a.ply")
    with open(f, "wb") as out:
        out.write((head + "end_header\n").encode() + b"".join(body))
    ctx.case(head, p, b"".join(body))
    ctx.count("elements_before_vertices", before)
    got = PointCloud.load_ply(f)
    ctx.check(got.num_points() == n, "listed-count", got=got.num_points(), want=n, header=head)
    ctx.equal(got.points(), p, "listed-coordinates", header=head)


@scenario(quick=100)
def ply_failures_reported(rng, ctx):
    n = int(rng.integers(1, 3000))
    cl = PointCloud(points(rng, n), colors(rng, n)) if rng.integers(2) else PointCloud(points(rng, n))
    d = ctx.tmp()
    f, g = os.path.join(d, "a.ply"), os.path.join(d, "b.ply")
    cl.write_ply(f)
    size = os.path.getsize(f)
    limit = int(rng.integers(0, size + 10))
    ctx.case(n, limit)
    err = (RuntimeError, OSError)
    try:
        limited(limit, lambda: cl.write_ply(g))
    except err:
        ctx.checks += 1
        ctx.count("write_failures_reported")
    else:
        ctx.count("writes_completed")
        ctx.check(open(g, "rb").read() == open(f, "rb").read(), "silent-write-failure", limit=limit, size=size)
    ctx.raises(err, lambda: cl.write_ply(os.path.join(d, "no", "a.ply")), "missing-directory")
    ctx.raises(err, lambda: PointCloud.load_ply(os.path.join(d, "none.ply")), "missing-file")


@scenario(quick=80)
def text_save(rng, ctx):
    n = int(rng.integers(1, 20))
    p = points(rng, n).astype(float)
    cl = PointCloud(p)
    f = os.path.join(ctx.tmp(), "a.txt")
    col = rng.integers(0, 256, size=3)
    ctx.case(p, col)
    default = bool(rng.integers(2))
    cl.save(f) if default else cl.save(f, color=col)
    rows = np.loadtxt(f).reshape(n, -1)
    ctx.check(rows.shape == (n, 6), "text-shape", got=rows.shape)
    ctx.close(rows[:, :3], p.T, "text-points", rtol=1e-15, atol=0)
    ctx.equal(rows[:, 3:], np.tile([255, 255, 255] if default else col, (n, 1)).astype(float), "text-colors")

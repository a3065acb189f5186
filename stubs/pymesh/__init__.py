"""Stand-in for pymesh, which is not installed: the few calls sumo.metrics makes.

Meshes are triangle lists; volume is the signed sum of tetrahedra, as in pymesh.
boolean(..., "intersection") is exact up to rounding for closed meshes whose winding number is
0 or 1 everywhere (so also for non-convex ones): each mesh is a signed sum of tetrahedra, and
the product of the winding numbers is the signed sum of the tetrahedra's pairwise intersections.
"""
import numpy as np

from . import meshutils  # noqa: F401


class Mesh(object):
    def __init__(self, vertices, faces):
        self.vertices = np.array(vertices, dtype=float).reshape(-1, 3)
        self.faces = np.array(faces, dtype=int).reshape(-1, 3)

    @property
    def num_vertices(self):
        return len(self.vertices)

    @property
    def num_faces(self):
        return len(self.faces)

    @property
    def volume(self):
        if len(self.faces) == 0:
            return 0.0
        o = self.vertices.mean(axis=0)
        a, b, c = (self.vertices[self.faces[:, k]] - o for k in range(3))
        return float(np.sum(np.einsum("ij,ij->i", a, np.cross(b, c))) / 6.0)

    @property
    def bbox(self):
        return self.vertices.min(axis=0), self.vertices.max(axis=0)


def form_mesh(vertices, faces):
    return Mesh(vertices, faces)


def _dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def _cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def _sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def _tets(mesh, origin):
    """[(sign, [triangles, outward], [(n, d)], lo, hi)] whose signed sum is the mesh's winding number."""
    v = [tuple(map(float, p - origin)) for p in mesh.vertices]
    scale = max(max(abs(c) for c in p) for p in v) or 1.0
    o = v[mesh.faces[0][0]]
    out = []
    for f in mesh.faces:
        a, b, c = (v[i] for i in f)
        vol = _dot(_sub(a, o), _cross(_sub(b, o), _sub(c, o)))
        if abs(vol) <= 1e-15 * scale ** 3:
            continue
        s = 1
        if vol < 0:
            s, b, c = -1, c, b
        tris = [[a, b, c], [o, b, a], [o, c, b], [o, a, c]]
        planes = []
        for p, q, r in tris:
            n = _cross(_sub(q, p), _sub(r, p))
            l = _dot(n, n) ** 0.5
            n = (n[0] / l, n[1] / l, n[2] / l)
            planes.append((n, _dot(n, p)))
        pts = (o, a, b, c)
        out.append((s, tris, planes, [min(p[k] for p in pts) for k in range(3)],
                    [max(p[k] for p in pts) for k in range(3)]))
    return out


def _clip(polys, n, d, eps):
    """The convex solid <polys> (outward polygons) cut to n.x <= d, closed by a cap."""
    out, cap = [], []
    for poly in polys:
        side = [_dot(n, p) - d for p in poly]
        side = [0.0 if abs(s) <= eps else s for s in side]
        new = []
        k = len(poly)
        for i in range(k):
            j = (i + 1) % k
            if side[i] <= 0:
                new.append(poly[i])
                if side[i] == 0:
                    cap.append(poly[i])
            if (side[i] < 0 < side[j]) or (side[j] < 0 < side[i]):
                t = side[i] / (side[i] - side[j])
                p, q = poly[i], poly[j]
                x = (p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1]), p[2] + t * (q[2] - p[2]))
                new.append(x)
                cap.append(x)
        if len(new) >= 3 and any(s < 0 for s in side):
            out.append(new)
    if not out:
        return []
    if len(cap) >= 3:
        c = tuple(sum(p[k] for p in cap) / len(cap) for k in range(3))
        t = (1.0, 0.0, 0.0) if abs(n[0]) < 0.6 else (0.0, 1.0, 0.0)
        u = _cross(n, t)
        w = _cross(n, u)
        cap.sort(key=lambda p: np.arctan2(_dot(_sub(p, c), w), _dot(_sub(p, c), u)))
        out.append(cap)
    return out


def boolean(mesh1, mesh2, operation="intersection", engine="auto"):
    if operation != "intersection":
        raise NotImplementedError(operation)
    if len(mesh1.faces) == 0 or len(mesh2.faces) == 0:
        return Mesh(np.zeros((0, 3)), np.zeros((0, 3), int))
    origin = mesh1.vertices.mean(axis=0)
    eps = 1e-13 * float(np.abs(np.vstack([mesh1.vertices, mesh2.vertices]) - origin).max())
    verts, faces = [], []
    t2s = _tets(mesh2, origin)
    for s1, tris, _, lo1, hi1 in _tets(mesh1, origin):
        for s2, _, planes, lo2, hi2 in t2s:
            if any(lo1[k] >= hi2[k] or lo2[k] >= hi1[k] for k in range(3)):
                continue
            polys = tris
            for n, d in planes:
                polys = _clip(polys, n, d, eps)
                if not polys:
                    break
            for p in polys:
                b = len(verts)
                verts += p
                for i in range(1, len(p) - 1):
                    faces.append([b, b + i, b + i + 1] if s1 * s2 > 0 else [b, b + i + 1, b + i])
    return Mesh(np.array(verts).reshape(-1, 3) + origin, np.array(faces, dtype=int).reshape(-1, 3))

"""C01: rotations, poses, quaternions and vector helpers form one consistent algebra."""
import math
import numpy as np
from core import scenario
import gen

from sumo.base.vector import (Vector2, Vector2f, Vector3, Vector3f, Vector4, Matrix3, unitize, on_left)
from sumo.geometry.pose3 import Pose3
from sumo.geometry.quaternion import Quaternion
from sumo.geometry.rot3 import Rot3


def rx(t):
    return gen.ref_axis_angle(np.array([1.0, 0, 0]), t)


def ry(t):
    return gen.ref_axis_angle(np.array([0, 1.0, 0]), t)


def rz(t):
    return gen.ref_axis_angle(np.array([0, 0, 1.0]), t)


ENU = np.array([[1, 0, 0], [0, 0, 1], [0, -1, 0]], float)    # camera z -> north, y -> down
MAYA = np.array([[1, 0, 0], [0, -1, 0], [0, 0, -1]], float)  # camera z -> -z, y -> -y


@scenario(quick=1500)
def rotation_algebra(rng, ctx):
    A, B, C = gen.rotation(rng), gen.rotation(rng), gen.rotation(rng)
    keep = [A.copy(), B.copy(), C.copy()]
    ra, rb, rc = Rot3(A), Rot3(B), Rot3(C)
    p = gen.vec3(rng)
    P = np.stack([gen.vec3(rng) for _ in range(int(rng.integers(1, 6)))], axis=1)
    ctx.case(A, B, C, p, P, sample=dict(A=A, B=B, p=p))
    s = 1e-12 * (1 + np.linalg.norm(p))
    ctx.close(ra.matrix(), A, "matrix", atol=0)
    ab = ra * rb
    ctx.check(isinstance(ab, Rot3), "compose-type", "Rot3*Rot3 is a Rot3")
    ctx.close(ab.matrix(), A.dot(B), "compose", atol=1e-12)
    ctx.check(gen.is_rotation(ab.matrix()), "orthonormal", "composition left SO(3)", R=ab.matrix())
    ctx.close(((ra * rb) * rc).matrix(), (ra * (rb * rc)).matrix(), "associative", atol=1e-12)
    ctx.close((ra * ra.inverse()).matrix(), np.eye(3), "inverse", atol=1e-12)
    ctx.close((ra.inverse() * ra).matrix(), np.eye(3), "inverse-left", atol=1e-12)
    ctx.close((ab).inverse().matrix(), (rb.inverse() * ra.inverse()).matrix(), "inverse-of-product", atol=1e-12)
    ctx.close(ra.rotate(p), A.dot(p), "rotate", atol=s)
    ctx.close(ra.unrotate(ra.rotate(p)), p, "unrotate-rotate", atol=10 * s)
    ctx.close(ra.rotate(ra.unrotate(p)), p, "rotate-unrotate", atol=10 * s)
    ctx.close(ra * p, A.dot(p), "mul-vector", atol=s)
    ctx.close(ra * P, np.stack([A.dot(P[:, i]) for i in range(P.shape[1])], axis=1), "mul-points",
              atol=1e-12 * (1 + np.abs(P).max()))
    ctx.close(np.linalg.norm(ra.rotate(p)), np.linalg.norm(p), "length-preserved", atol=10 * s)
    for j in range(3):
        ctx.close(ra(j), A[:, j], "column", atol=0)
    ctx.close(Rot3.FromColumns(A[:, 0], A[:, 1], A[:, 2]).matrix(), A, "from-columns", atol=0)
    ctx.close(Rot3.FromScalars(*np.ascontiguousarray(A).ravel()).matrix(), A, "from-scalars", atol=0)
    ctx.close(Rot3().matrix(), np.eye(3), "default-identity", atol=0)
    ctx.check(ra.almost_equal(Rot3(A.copy())), "almost-equal-self")
    far = gen.geodesic(A, B) > 1e-3
    ctx.check(ra.almost_equal(rb) == (not far) or not far, "almost-equal-far", "almost_equal accepted different rotations",
              A=A, B=B)
    for a, k in zip((A, B, C), keep):
        ctx.equal(a, k, "input-mutated", "an argument was modified")


@scenario(quick=1200)
def rotation_constructors(rng, ctx):
    t, d, a = gen.angle(rng), gen.axis(rng), gen.angle(rng)
    ctx.case(t, d, a, sample=dict(angle=t, axis=d, axis_angle=a))
    ctx.close(Rot3.Rx(t).matrix(), rx(t), "Rx", atol=1e-12)
    ctx.close(Rot3.Ry(t).matrix(), ry(t), "Ry", atol=1e-12)
    ctx.close(Rot3.Rz(t).matrix(), rz(t), "Rz", atol=1e-12)
    r = Rot3.AxisAngle(d, a)
    ctx.close(r.matrix(), gen.ref_axis_angle(d, a), "axis-angle", atol=1e-12)
    ctx.check(gen.is_rotation(r.matrix()), "axis-angle-orthonormal")
    ctx.close(r.rotate(d), d, "axis-fixed", atol=1e-12)
    ctx.close(Rot3.AxisAngle(d, -a).matrix(), r.inverse().matrix(), "negated-angle", atol=1e-12)
    roll, pitch, yaw = gen.angle(rng), gen.angle(rng), gen.angle(rng)
    pos = gen.vec3(rng)
    rel = ry(yaw).dot(rx(pitch)).dot(rz(roll))
    ctx.close(Rot3.ENU_camera(roll, pitch, yaw).matrix(), ENU.dot(rel), "ENU-camera", atol=1e-12)
    ctx.close(Rot3.Maya_camera(roll, pitch, yaw).matrix(), MAYA.dot(rel), "Maya-camera", atol=1e-12)
    # the pose versions take single-precision angles
    for f, base, nm in ((Pose3.ENU_camera, ENU, "pose-ENU-camera"), (Pose3.Maya_camera, MAYA, "pose-Maya-camera")):
        q = f(roll=roll, pitch=pitch, yaw=yaw, position=pos)
        ctx.close(q.rotation().matrix(), base.dot(rel), nm, atol=4e-6)
        ctx.close(q.translation(), pos, nm + "-position", atol=0)
    ctx.close(Rot3.ENU_camera().rotate(np.array([0, 0, 1.0])), [0, 1, 0], "ENU-default-north", atol=1e-15)
    ctx.close(Rot3.ENU_camera().rotate(np.array([0, 1.0, 0])), [0, 0, -1], "ENU-default-down", atol=1e-15)
    ctx.close(Rot3.Maya_camera().rotate(np.array([0, 0, 1.0])), [0, 0, -1], "Maya-default", atol=1e-15)


@scenario(quick=1500)
def pose_algebra(rng, ctx):
    A, B, C = gen.rotation(rng), gen.rotation(rng), gen.rotation(rng)
    s, t, u = gen.vec3(rng), gen.vec3(rng), gen.vec3(rng)
    p = gen.vec3(rng)
    n = int(rng.integers(1, 6))
    P = np.stack([gen.vec3(rng) for _ in range(n)], axis=1)
    keep = [x.copy() for x in (A, B, C, s, t, u, p, P)]
    pa = Pose3(Rot3(A), s) if rng.integers(2) else Pose3(A, s)
    pb, pc = Pose3(Rot3(B), t), Pose3(R=Rot3(C), t=u)
    ctx.case(A, B, C, s, t, u, p, P, sample=dict(R=A, t=s, p=p, P=P))
    sc = 1e-11 * (1 + sum(np.abs(x).max() for x in (s, t, u, p, P)))
    ctx.close(pa.rotation().matrix(), A, "rotation", atol=0)
    ctx.close(pa.translation(), s, "translation", atol=0)
    ctx.close(pa.transform_from(p), A.dot(p) + s, "transform-from", atol=sc)
    ctx.close(pa.transform_to(p), A.T.dot(p - s), "transform-to", atol=sc)
    ctx.close(pa.transform_to(pa.transform_from(p)), p, "to-from", atol=sc)
    ctx.close(pa.transform_from(pa.transform_to(p)), p, "from-to", atol=sc)
    ctx.close(pa.transform_all_from(P), np.stack([A.dot(P[:, i]) + s for i in range(n)], axis=1),
              "transform-all-from", atol=sc)
    ctx.close(pa.transform_all_to(P), np.stack([A.T.dot(P[:, i] - s) for i in range(n)], axis=1),
              "transform-all-to", atol=sc)
    ctx.close(pa.transform_all_to(pa.transform_all_from(P)), P, "all-to-from", atol=sc)
    ctx.close(pa * p, pa.transform_from(p), "mul-point", atol=sc)
    ctx.close(pa * P, pa.transform_all_from(P), "mul-points", atol=sc)
    ab = pa * pb
    ctx.check(isinstance(ab, Pose3), "compose-type")
    ctx.close(ab.matrix(), pa.compose(pb).matrix(), "mul-is-compose", atol=sc)
    ctx.close(ab * p, pa * (pb * p), "compose-acts-in-sequence", atol=sc)
    ctx.close(((pa * pb) * pc).matrix(), (pa * (pb * pc)).matrix(), "associative", atol=sc)
    ctx.close((pa * pa.inverse()).matrix(), np.eye(4), "inverse-right", atol=sc)
    ctx.close((pa.inverse() * pa).matrix(), np.eye(4), "inverse-left", atol=sc)
    ctx.close(ab.inverse().matrix(), (pb.inverse() * pa.inverse()).matrix(), "inverse-of-product", atol=sc)
    ctx.close(pa.inverse() * p, pa.transform_to(p), "inverse-is-transform-to", atol=sc)
    M = np.eye(4)
    M[:3, :3], M[:3, 3] = A, s
    ctx.close(pa.matrix(), M, "matrix", atol=0)
    ctx.close(pa.matrix34(), M[:3], "matrix34", atol=0)
    ctx.close(ab.matrix(), pa.matrix().dot(pb.matrix()), "matrix-homomorphism", atol=sc)
    ctx.close(Pose3.FromMatrix34(M[:3].copy()).matrix(), M, "from-matrix34", atol=0)
    bad = M if rng.integers(2) else M[:3, :3]
    ctx.raises(ValueError, lambda: Pose3.FromMatrix34(bad), "from-matrix34-shape", "bad shape accepted")
    ctx.close(Pose3().matrix(), np.eye(4), "default-identity", atol=0)
    ctx.close((Pose3() * pa).matrix(), pa.matrix(), "identity-left", atol=0)
    ctx.close((pa * Pose3()).matrix(), pa.matrix(), "identity-right", atol=0)
    ctx.check(pa.almost_equal(Pose3(A.copy(), s.copy())), "almost-equal-self")
    if gen.geodesic(A, B) > 1e-2 or np.linalg.norm(s - t) > 1e-2 * (1 + np.linalg.norm(t)):
        ctx.check(not pa.almost_equal(pb), "almost-equal-far", "almost_equal accepted different poses")
    for a, k in zip((A, B, C, s, t, u, p, P), keep):
        ctx.equal(a, k, "input-mutated", "an argument was modified")


@scenario(quick=400)
def default_objects_are_independent(rng, ctx):
    """Changing one default-constructed object in place does not change the next one."""
    v = gen.vec3(rng) + 1.0
    which = int(rng.integers(4))
    ctx.case(v, which)
    def state():
        return np.concatenate([Pose3().matrix().ravel(), Rot3().matrix().ravel(),
                               Pose3.ENU_camera().t, Pose3.Maya_camera().t])
    ref = state()
    obj = [Pose3(), Rot3(), Pose3.ENU_camera(), Pose3.Maya_camera()][which]
    target = obj.R if isinstance(obj, Rot3) else obj.t
    old = np.array(target)
    try:
        target[...] = v if target.ndim == 1 else np.diag(v)
        now = state()
    finally:
        target[...] = old
    ctx.close(now, ref, "shared-default", "default value shared between instances", atol=0, v=v, which=which)


@scenario(quick=1200)
def quaternions(rng, ctx):
    R = gen.rotation(rng)
    keep = R.copy()
    if rng.integers(3) == 0:
        big = np.zeros((6, 6))
        big[::2, ::2] = R
        R = big[::2, ::2]
    q = Quaternion(R)
    v = q.as_vector()
    ctx.case(keep, sample=dict(R=keep, q=v))
    ctx.equal(v.shape, (4,), "quat-shape")
    ctx.close(np.linalg.norm(v), 1.0, "quat-unit", atol=1e-9)
    ctx.close(gen.quat_to_matrix(v), keep, "quat-of-matrix", atol=1e-8)
    ctx.close(q.to_rotation_matrix(), keep, "quat-matrix-roundtrip", atol=1e-8)
    w = rng.normal(size=4)
    if rng.integers(3) == 0:
        w[rng.integers(4)] = 0.0
    w = w / np.linalg.norm(w) * (1.0 if rng.integers(2) else 10.0 ** rng.uniform(-3, 3))
    q2 = Quaternion(w)
    ctx.close(q2.as_vector(), w, "quat-vector", atol=0)
    ctx.close(q2.to_rotation_matrix(), gen.quat_to_matrix(w), "quat-to-matrix", atol=1e-12)
    ctx.check(gen.is_rotation(np.array(q2.to_rotation_matrix())), "quat-orthonormal")
    ctx.close(Quaternion(np.ascontiguousarray(q2.to_rotation_matrix())).to_rotation_matrix(),
              gen.quat_to_matrix(w), "matrix-quat-matrix", atol=1e-8)
    ctx.close(Quaternion().to_rotation_matrix(), np.eye(3), "quat-default", atol=0)


@scenario(quick=600)
def vector_helpers(rng, ctx):
    a, b, c, d = rng.normal(size=4) * 10.0 ** rng.uniform(-5, 5, size=4)
    ctx.case(a, b, c, d)
    for got, want, dt in ((Vector2(a, b), [a, b], np.float64), (Vector3(a, b, c), [a, b, c], np.float64),
                          (Vector4(a, b, c, d), [a, b, c, d], np.float64),
                          (Vector2f(a, b), [a, b], np.float32), (Vector3f(a, b, c), [a, b, c], np.float32)):
        ctx.equal(got.dtype, np.dtype(dt), "vector-dtype")
        ctx.equal(got, np.array(want, dtype=dt), "vector-components")
    M = rng.normal(size=(3, 3))
    ctx.equal(Matrix3(M[0], M[1], M[2]), M, "matrix3")
    v = gen.vec3(rng)
    k = v.copy()
    u = unitize(v)
    ctx.equal(v, k, "unitize-mutated")
    n = np.linalg.norm(v)
    if n > 0:
        ctx.close(np.linalg.norm(u), 1.0, "unit-length", atol=1e-12)
        ctx.close(u * n, v, "unit-direction", atol=1e-12 * n)
    else:
        ctx.equal(u, v, "unit-zero")
    # on_left: a frame in which the answer is known by construction, rotated and scaled
    R = gen.rotation(rng)
    o = rng.normal(size=3)
    side = float(gen.pick(rng, [1, -1]) * 10.0 ** rng.uniform(-3, 2))
    x, N = R[:, 0], R[:, 2]
    y = R[:, 1]
    A = o
    Bp = o + x * 10.0 ** rng.uniform(-2, 2)
    pt = o + x * rng.normal() + y * side + N * rng.normal()
    ctx.equal(bool(on_left(N * 10.0 ** rng.uniform(-2, 2), pt, A, Bp)), side > 0, "on-left", side=side)
    ctx.equal(bool(on_left(-N, pt, A, Bp)), side < 0, "on-left-flipped", side=side)

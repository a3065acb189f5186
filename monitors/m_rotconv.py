"""C27: matrices, quaternions and Euler angles."""
import math
import warnings
import numpy as np
from core import scenario
import gen

import sumo.metrics.utils as U

warnings.simplefilter("ignore")


def zyx(e):
    z = np.array([[math.cos(e[0]), -math.sin(e[0]), 0], [math.sin(e[0]), math.cos(e[0]), 0], [0, 0, 1]])
    y = np.array([[math.cos(e[1]), 0, math.sin(e[1])], [0, 1, 0], [-math.sin(e[1]), 0, math.cos(e[1])]])
    x = np.array([[1, 0, 0], [0, math.cos(e[2]), -math.sin(e[2])], [0, math.sin(e[2]), math.cos(e[2])]])
    return z.dot(y).dot(x)


def euler(rng):
    e = np.array([gen.angle(rng) for _ in range(3)])
    if rng.integers(3) == 0:
        e[1] = gen.pick(rng, [1, -1]) * (math.pi / 2 - gen.pick(rng, [0.0, 1e-12, 1e-9, 1e-5]))
    return e


@scenario(quick=4000)
def conversions(rng, ctx):
    M = np.ascontiguousarray(gen.rotation(rng)) if rng.integers(2) else zyx(euler(rng))
    ctx.case(M)
    q = U.matrix_to_quat(M)
    ctx.check(q.shape == (4,) and abs(np.linalg.norm(q) - 1) < 1e-9, "unit-quaternion", got=q, M=M)
    ctx.close(gen.quat_to_matrix(q), M, "matrix-to-quaternion", atol=1e-11, M=M)
    ctx.close(U.quat_to_matrix(q), M, "quaternion-to-matrix", atol=1e-11, M=M)
    ctx.close(U.quat_to_matrix(-q), M, "negated-quaternion", atol=1e-11)
    for e, name in ((U.matrix_to_euler(M), "matrix-to-euler"), (U.quat_to_euler(q), "quaternion-to-euler")):
        ctx.check(e.shape == (3,) and np.all(np.isfinite(e)), name + "-finite", got=e, M=M)
        ctx.close(zyx(e), M, name, atol=3e-7, M=M)  # asin near +-1
        ctx.check(abs(e[1]) <= math.pi / 2 + 1e-12 and np.all(np.abs(e) <= math.pi + 1e-12), name + "-range", got=e)
    k = "branch_%d" % int(np.argmax(np.abs(q)))
    ctx.count(k)


@scenario(quick=4000)
def from_euler(rng, ctx):
    e = euler(rng)
    ctx.case(e)
    M = zyx(e)
    ctx.close(U.euler_to_matrix(e), M, "euler-to-matrix", atol=1e-12, e=e)
    q = U.euler_to_quat(e)
    ctx.close(np.linalg.norm(q), 1.0, "unit-quaternion", atol=1e-12)
    ctx.close(gen.quat_to_matrix(q), M, "euler-to-quaternion", atol=1e-12, e=e)
    if abs(e[1]) < math.pi / 2 - 1e-3 and np.all(np.abs(e) < math.pi - 1e-3):  # unique angles
        ctx.close(U.matrix_to_euler(M), e, "euler-angles-kept", atol=1e-6, e=e)
        ctx.close(U.quat_to_euler(q), e, "euler-angles-kept-by-quaternion", atol=1e-6, e=e)
        ctx.count("unique_angles")


@scenario(quick=1500)
def from_quaternion(rng, ctx):
    q = rng.normal(size=4)
    k = rng.integers(4)
    if k == 0:
        q = q * (rng.uniform(size=4) < 0.5)
        if not np.any(q):
            q[rng.integers(4)] = 1.0
    elif k == 1:
        q = q * np.array([1.0, 1e-6, 1e-3, 1])[rng.permutation(4)]
    q = q / np.linalg.norm(q)
    ctx.case(q)
    ctx.close(U.quat_to_matrix(q), gen.quat_to_matrix(q), "quaternion-to-matrix", atol=1e-12, q=q)
    r = U.matrix_to_quat(gen.quat_to_matrix(q))
    ctx.check(min(np.linalg.norm(r - q), np.linalg.norm(r + q)) < 1e-11, "quaternion-kept", got=r, expected=q)
    ctx.close(zyx(U.quat_to_euler(q)), gen.quat_to_matrix(q), "quaternion-to-euler", atol=3e-7, q=q)


@scenario(quick=1500)
def nearly_orthonormal(rng, ctx):
    """Rotation matrices kept in single precision, or rounded to some decimals."""
    M = gen.rotation(rng) if rng.integers(2) else zyx(euler(rng))
    k = int(rng.integers(3))
    M = np.asarray(M, float)
    N = M.astype(np.float32).astype(float) if k == 0 else np.round(M, 6) if k == 1 else M * (1 + 1e-7)
    off = float(np.abs(N - M).max())
    ctx.case(N)
    q = U.matrix_to_quat(N)
    ctx.check(abs(np.linalg.norm(q) - 1) < 1e-11, "unit-quaternion-of-rounded", got=q, norm_error=float(np.linalg.norm(q) - 1), M=N)
    ctx.close(gen.quat_to_matrix(q), M, "rounded-matrix-to-quaternion", atol=20 * off + 1e-9, M=N)
    ctx.count(["single_precision", "six_decimals", "scaled"][k])

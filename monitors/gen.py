"""Shared input generators and tiny reference implementations (numpy only, no sumo code)."""
import math
import resource
import signal
import numpy as np


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def skew(d):
    return np.array([[0, -d[2], d[1]], [d[2], 0, -d[0]], [-d[1], d[0], 0]], dtype=float)


def ref_axis_angle(d, a):
    """Rodrigues, independent of the code: exp([d] a) = I + sin a K + (1-cos a) K^2."""
    K = skew(d)
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K.dot(K)


def axis(rng):
    k = rng.integers(4)
    if k == 0:
        v = np.zeros(3)
        v[rng.integers(3)] = pick(rng, [1.0, -1.0])
        return v
    v = rng.normal(size=3)
    if k == 1:
        v[rng.integers(3)] = 0.0
    if k == 2:
        v *= np.array([1.0, 1e-7, 1e-4])[rng.permutation(3)]
    return v / np.linalg.norm(v)


def angle(rng):
    k = rng.integers(6)
    if k == 0:
        return float(pick(rng, [0.0, math.pi / 2, math.pi, -math.pi / 2, 1.5 * math.pi, 2 * math.pi, -math.pi]))
    if k == 1:
        return float(10.0 ** rng.uniform(-9, -2) * pick(rng, [1, -1]))
    if k == 2:
        return float(math.pi + 10.0 ** rng.uniform(-9, -2) * pick(rng, [1, -1]))
    return float(rng.uniform(-2 * math.pi, 2 * math.pi))


def rotation(rng):
    """A random proper rotation matrix (float64), special positions included, any memory order."""
    k = rng.integers(5)
    if k == 0:  # one of the 24 axis-aligned ones
        P = np.eye(3)[rng.permutation(3)] * rng.choice([-1.0, 1.0], size=3)[:, None]
        if np.linalg.det(P) < 0:
            P[0] *= -1
        R = P
    elif k == 1:
        R = ref_axis_angle(axis(rng), angle(rng))
    else:
        R = ref_axis_angle(axis(rng), angle(rng)).dot(ref_axis_angle(axis(rng), angle(rng)))
    R = R + 0.0
    if rng.integers(2):
        R = np.asfortranarray(R)
    return R


def vec3(rng, lo=-6, hi=6):
    k = rng.integers(6)
    if k == 0:
        return np.zeros(3)
    v = rng.normal(size=3) * 10.0 ** rng.uniform(lo, hi)
    if k == 1:
        v[rng.integers(3)] = 0.0
    if k == 2:
        v = np.round(v)
    if k == 3:
        v = v * np.array([1.0, 1e-5, 1e4])[rng.permutation(3)]
    return v + 0.0


def is_rotation(R, tol=1e-9):
    return (R.shape == (3, 3) and np.allclose(R.T.dot(R), np.eye(3), atol=tol, rtol=0)
            and abs(np.linalg.det(R) - 1) < tol)


def quat_to_matrix(q):
    """Reference, q = (w, x, y, z), any norm."""
    w, x, y, z = np.asarray(q, float) / np.linalg.norm(q)
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def geodesic(A, B):
    """Angle of A^T B, accurate for small and large angles."""
    D = A.T.dot(B)
    s = 0.5 * np.array([D[2, 1] - D[1, 2], D[0, 2] - D[2, 0], D[1, 0] - D[0, 1]])
    return math.atan2(np.linalg.norm(s), (np.trace(D) - 1) / 2)


def u8(rng, shape):
    a = rng.integers(0, 256, size=shape).astype(np.uint8)
    if rng.integers(4) == 0:
        a[...] = rng.integers(256)
    return a


def u16(rng, shape):
    k = rng.integers(4)
    if k == 0:
        return rng.integers(0, 4, size=shape).astype(np.uint16)
    a = rng.integers(0, 65536, size=shape).astype(np.uint16)
    if k == 1:
        a.flat[0] = 65535
    return a


def limited(limit, fn):
    """Run <fn> with writes beyond <limit> bytes of any file failing."""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    h = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
    try:
        return fn()
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        signal.signal(signal.SIGXFSZ, h)

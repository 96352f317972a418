"""Independent synthetic Kikuchi-band patterns (numpy only, EDAX pattern centre).

Detector frame v: x right, y up, z towards ... such that a pixel at (x, y) (origin
bottom left, in pixels) is seen from the source along d = (x - tx, y - ty, +L)
with tx = PCx*W, ty = PCy*H, L = PCz*min(H, W).  A band is the set of pixels whose
direction is nearly perpendicular to the plane normal n.
"""
import numpy as np


def q2m(q):
    """Active rotation matrix of a (w, x, y, z) quaternion."""
    q = np.asarray(q, float)
    q = q / np.linalg.norm(q)
    w, x, y, z = q
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def qmul(a, b):
    w, x, y, z = a
    W, X, Y, Z = b
    return np.array([w * W - x * X - y * Y - z * Z, w * X + x * W + y * Z - z * Y,
                     w * Y - x * Z + y * W + z * X, w * Z + x * Y - y * X + z * W])


def axang(axis, deg):
    a = np.asarray(axis, float)
    a = a / np.linalg.norm(a)
    h = np.radians(deg) / 2
    return np.concatenate([[np.cos(h)], np.sin(h) * a])


def cubic_rots():
    """The 24 proper rotations of the cube as matrices."""
    import itertools
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            m = np.zeros((3, 3))
            for i in range(3):
                m[i, p[i]] = s[i]
            if np.linalg.det(m) > 0:
                out.append(m)
    return np.array(out)


def hex_rots():
    out = []
    for k in range(6):
        out.append(q2m(axang([0, 0, 1], 60 * k)))
        out.append(q2m(axang([0, 0, 1], 60 * k)) @ q2m(axang([1, 0, 0], 180)))
    return np.array(out)


def family(hkl, rots):
    """Unique +- normals (unit) of a plane family under rots."""
    v = np.asarray(hkl, float)
    v = v / np.linalg.norm(v)
    out = []
    for r in rots:
        w = r @ v
        if not any(abs(abs(w @ o) - 1) < 1e-6 for o in out):
            out.append(w)
    return np.array(out)


FCC = [([1, 1, 1], 1.0, 2.2), ([0, 0, 2], 0.8, 2.5), ([0, 2, 2], 0.5, 3.4), ([1, 1, 3], 0.3, 4.0)]
BCC = [([0, 1, 1], 1.0, 2.2), ([0, 0, 2], 0.8, 3.0), ([1, 1, 2], 0.5, 3.6)]


def pattern(R, shape=(60, 60), PC=(0.47, 0.67, 0.63), reflectors=FCC, rots=None, base=100.0, gain=60.0, noise=0.0, seed=0):
    """R: matrix taking crystal vectors to the detector frame v."""
    H, W = shape
    if rots is None:
        rots = cubic_rots()
    c = np.arange(W) + 0.5
    r = H - (np.arange(H) + 0.5)
    X, Y = np.meshgrid(c, r)
    d = np.stack([X - PC[0] * W, Y - PC[1] * H, np.full_like(X, PC[2] * min(H, W))], -1)
    d /= np.linalg.norm(d, axis=-1, keepdims=True)
    im = np.full(shape, float(base))
    for hkl, w, width in reflectors:
        for n in family(hkl, rots):
            a = np.degrees(np.arcsin(np.clip(d @ (R @ n), -1, 1)))
            im += gain * w * np.exp(-(a / (width * 0.6)) ** 2)
    if noise:
        im += np.random.default_rng(seed).normal(scale=noise, size=shape)
    return im

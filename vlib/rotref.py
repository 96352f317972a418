"""Reference model of the orientation representations (plain numpy, double
precision, from the definitions in Rowenhorst et al., MSMSE 23 (2015) 083501)."""
import numpy as np

R1 = (3 * np.pi / 4) ** (1.0 / 3.0)
AP2 = 0.5 * np.pi ** (2.0 / 3.0)


def q2m(q):
    w, x, y, z = np.asarray(q, float) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def m2q(m):
    # largest eigenvector of Davenport's K matrix: no branch cut anywhere
    m = np.asarray(m, float)
    k = np.zeros((4, 4))
    k[0, 0] = np.trace(m)
    z = np.array([m[2, 1] - m[1, 2], m[0, 2] - m[2, 0], m[1, 0] - m[0, 1]])
    k[0, 1:] = z
    k[1:, 0] = z
    k[1:, 1:] = m + m.T - np.trace(m) * np.eye(3)
    v, e = np.linalg.eigh(k)
    q = e[:, -1]
    return q if q[0] >= 0 else -q


def ax2q(ax):
    ax = np.asarray(ax, float)
    n = ax[:3] / np.linalg.norm(ax[:3])
    return np.concatenate(([np.cos(ax[3] / 2)], np.sin(ax[3] / 2) * n))


def eu2m(e):
    c1, c, c2 = np.cos(e)
    s1, s, s2 = np.sin(e)
    z1 = np.array([[c1, s1, 0], [-s1, c1, 0], [0, 0, 1.0]])
    x = np.array([[1.0, 0, 0], [0, c, s], [0, -s, c]])
    z2 = np.array([[c2, s2, 0], [-s2, c2, 0], [0, 0, 1.0]])
    return z2 @ x @ z1


def _angle_of_ho(h):
    # solve 3/4 (w - sin w) = h^3 on [0, pi]
    lo, hi = 0.0, np.pi
    t = min(h, R1) ** 3
    for _ in range(80):
        m = 0.5 * (lo + hi)
        if 0.75 * (m - np.sin(m)) < t:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


def ho2q(ho):
    h = np.linalg.norm(ho)
    if h < 1e-12:
        return np.array([1.0, 0, 0, 0])
    return ax2q(np.append(np.asarray(ho, float) / h, _angle_of_ho(h)))


def q2ho(q):
    q = np.asarray(q, float)
    q = q if q[0] >= 0 else -q
    v = np.linalg.norm(q[1:])
    if v < 1e-14:
        return np.zeros(3)
    w = 2 * np.arctan2(v, q[0])
    return q[1:] / v * (0.75 * (w - np.sin(w))) ** (1 / 3.0)


def cu2ho(cu):
    cu = np.asarray(cu, float)
    ax = int(np.argmax(np.abs(cu)))
    if abs(cu[ax]) < 1e-14:
        return np.zeros(3)
    perm = [(ax + 1) % 3, (ax + 2) % 3, ax]
    sc = (np.pi ** (5 / 6.) / 6 ** (1 / 6.)) / np.pi ** (2 / 3.)
    x, y, z = cu[perm] * sc
    pref = np.sqrt(6 / np.pi)
    if max(abs(x), abs(y)) < 1e-14:
        r = np.array([0, 0, pref * z])
    else:
        swap = abs(y) > abs(x)
        a, b = (y, x) if swap else (x, y)
        q = np.pi * b / (12 * a)
        beta = np.pi ** (5 / 6.) / 6 ** (1 / 6.) / 2
        k = R1 * 2 ** 0.25 / beta * a / np.sqrt(np.sqrt(2) - np.cos(q))
        t1 = (np.sqrt(2) * np.cos(q) - 1) * k
        t2 = np.sqrt(2) * np.sin(q) * k
        if swap:
            t1, t2 = t2, t1
        c = t1 * t1 + t2 * t2
        f = np.sqrt(max(1 - np.pi * c / (24 * z * z), 0))
        r = np.array([t1 * f, t2 * f, pref * z - np.sqrt(np.pi) * c / (np.sqrt(24) * z)])
    out = np.zeros(3)
    out[perm] = r
    return out


def to_q(rep, v):
    """quaternion (scalar >= 0) described by value v of representation rep."""
    v = np.asarray(v, float)
    if rep == "qu":
        q = v / np.linalg.norm(v)
    elif rep == "om":
        q = m2q(v)
    elif rep == "eu":
        q = m2q(eu2m(v))
    elif rep == "ax":
        q = ax2q(v)
    elif rep == "ro":
        w = np.pi if np.isinf(v[3]) else 2 * np.arctan(v[3])
        q = ax2q(np.append(v[:3], w)) if np.linalg.norm(v[:3]) > 0 else np.array([1.0, 0, 0, 0])
    elif rep == "ho":
        q = ho2q(v)
    elif rep == "cu":
        q = ho2q(cu2ho(v))
    return q if q[0] >= 0 else -q


def from_q(rep, q):
    q = np.asarray(q, float) / np.linalg.norm(q)
    q = q if q[0] >= 0 else -q
    v = np.linalg.norm(q[1:])
    w = 2 * np.arctan2(v, q[0])
    n = q[1:] / v if v > 1e-14 else np.array([0, 0, 1.0])
    if rep == "qu":
        return q
    if rep == "om":
        return q2m(q)
    if rep == "ax":
        return np.append(n, w)
    if rep == "ro":
        return np.append(n, np.inf if q[0] < 1e-15 else v / q[0])
    if rep == "ho":
        return q2ho(q)
    if rep == "eu":
        m = q2m(q)
        s = np.hypot(m[2, 0], m[2, 1])
        P = np.arctan2(s, m[2, 2])
        if s < 1e-12:
            e = np.array([np.arctan2(m[0, 1], m[0, 0]), 0 if m[2, 2] > 0 else np.pi, 0.0])
        else:
            e = np.array([np.arctan2(m[2, 0], -m[2, 1]), P, np.arctan2(m[0, 2], m[1, 2])])
        e[[0, 2]] %= 2 * np.pi
        return e
    raise KeyError(rep)


def misor(qa, qb):
    d = np.abs(np.dot(qa, qb))
    s = min(np.linalg.norm(np.asarray(qa) - qb), np.linalg.norm(np.asarray(qa) + qb))
    return 4 * np.arcsin(min(1.0, s / 2))


def in_range(rep, v, tol):
    v = np.asarray(v, float)
    if np.any(np.isnan(v)):
        return "contains nan"
    if rep == "qu":
        if abs(np.linalg.norm(v) - 1) > tol:
            return "norm %r" % np.linalg.norm(v)
        if v[0] < -tol:
            return "negative scalar part"
    elif rep == "om":
        if np.abs(v @ v.T - np.eye(3)).max() > 4 * tol:
            return "not orthogonal (%g)" % np.abs(v @ v.T - np.eye(3)).max()
        if np.linalg.det(v) < 0:
            return "improper"
    elif rep == "eu":
        if v.min() < -tol or v[[0, 2]].max() > 2 * np.pi + tol or v[1] > np.pi + tol:
            return "angles out of range"
    elif rep == "ax":
        if abs(np.linalg.norm(v[:3]) - 1) > tol:
            return "axis norm %r" % np.linalg.norm(v[:3])
        if v[3] < -tol or v[3] > np.pi + max(tol, 2e-6):
            return "angle out of range"
    elif rep == "ro":
        if abs(np.linalg.norm(v[:3]) - 1) > tol:
            return "axis norm %r" % np.linalg.norm(v[:3])
        if v[3] < -tol:
            return "negative tangent"
    elif rep == "ho":
        if np.linalg.norm(v) > R1 + tol:
            return "outside the homochoric ball"
    elif rep == "cu":
        if np.abs(v).max() > AP2 + tol:
            return "outside the cubochoric cube"
    return None

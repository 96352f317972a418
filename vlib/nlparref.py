"""Reference NLPAR in double precision, point by point from its definition."""
import numpy as np


def automask(h, w):
    """Pixels nearer to the centre pixel (h//2, w//2), the pattern being periodic, than 0.49 of the smaller side."""
    y = np.abs(np.arange(h) - h // 2); x = np.abs(np.arange(w) - w // 2)
    y, x = np.minimum(y, h - y), np.minimum(x, w - x)
    return (np.sqrt(y[:, None] ** 2.0 + x[None, :] ** 2.0) < min(h, w) * 0.49).astype(np.uint8)


def pair(P, a, b, m, cut):
    u, v = P[a][m], P[b][m]
    k = (u < cut) & (v < cut)
    return float(((u[k] - v[k]) ** 2).sum()), int(k.sum())


def sigma(P, nr, nc, mask, sat, nn=1):
    """Smallest root mean square difference / sqrt 2 to a (non identical) neighbour."""
    X = P.reshape(nr * nc, -1).astype(np.float64)
    m = mask.ravel() > 0
    mx = float(np.float32(P.max()))
    cut = mx * 0.9961 if sat else mx + 1
    s = np.zeros((nr, nc))
    for r in range(nr):
        for c in range(nc):
            best = 1e24
            for r2 in range(max(0, r - nn), min(nr, r + nn + 1)):
                for c2 in range(max(0, c - nn), min(nc, c + nn + 1)):
                    if (r2, c2) != (r, c):
                        d2, n = pair(X, r * nc + c, r2 * nc + c2, m, cut)
                        if d2 >= 1e-3:
                            best = min(best, d2 / (2 * n))
            s[r, c] = np.sqrt(best)
    return s


def window(k, n, sr):
    """A window of 2 sr + 1 places around k, moved to lie inside 0..n-1, cut if n is smaller."""
    if n <= 2 * sr + 1:
        return range(0, n)
    lo = min(max(k - sr, 0), n - (2 * sr + 1))
    return range(lo, lo + 2 * sr + 1)


def mirrored(k, n, sr):
    """The 2 sr + 1 places around k; those outside 0..n-1 are mirrored at the first and last place."""
    return [int(i) for i in np.pad(np.arange(n), sr, mode="reflect")[k:k + 2 * sr + 1]] if n > 1 else [0] * (2 * sr + 1)


def nlpar(P, nr, nc, lam, sr, dthresh, sig, mask, sat, off=0.0, window=window, level=0.999):
    shp = P.shape
    X = P.reshape(nr * nc, -1).astype(np.float64)
    m = mask.ravel() > 0
    mx = float(np.float32(P.max()))
    cut = mx * level if sat else mx + 1
    out = np.zeros_like(X)
    D = {}
    for r in range(nr):
        for c in range(nc):
            i = r * nc + c
            tot, acc = 0.0, np.zeros(X.shape[1])
            for r2 in window(r, nr, sr):
                for c2 in window(c, nc, sr):
                    j = r2 * nc + c2
                    if i == j:
                        w = 1.0 + off
                    else:
                        key = (min(i, j), max(i, j))
                        if key not in D:
                            d2, n = pair(X, i, j, m, cut)
                            v = sig[r, c] ** 2 + sig[r2, c2] ** 2
                            den = v * np.sqrt(2.0 * n)
                            D[key] = (d2 - n * v) / den if den > 1e-8 else 1e6 * n
                        w = np.exp(-max(D[key] - dthresh, 0.0) / lam ** 2)
                    tot += w
                    acc += w * X[j]
            out[i] = acc / tot
    return out.reshape(shp)

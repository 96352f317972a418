"""Helpers shared by the checks that index patterns."""
import contextlib, io
import numpy as np
from vlib import simpat


def same(a, b, what):
    """None if equal, else a description of the first difference."""
    if a.shape != b.shape:
        return "%s shape %s != %s" % (what, a.shape, b.shape)
    for n in a.dtype.names:
        x, y = a[n], b[n]
        if x.dtype.kind == "f":
            good = np.isclose(x, y, rtol=2e-4, atol=2e-5) | (np.isnan(x) & np.isnan(y))
        else:
            good = x == y
        if not good.all():
            i = np.argwhere(~good)[0]
            return "%s field %s index %s: got %s, serial gives %s" % (what, n, i.tolist(), x[tuple(i)], y[tuple(i)])
    return None



@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


PC = (0.47, 0.67, 0.63)


def rots(n):
    return [simpat.q2m(simpat.axang([1, 2 + .3 * k, 3 - k], 20 + 23 * k)) for k in range(n)]


def pool(n=6, shape=(40, 44), pc=PC, flat=None, bcc=(2,)):
    """Dissimilar patterns of known orientation; `flat` = index of a featureless one."""
    R = rots(n)
    P = np.array([simpat.pattern(r, shape, pc, gain=40 + 5 * i) for i, r in enumerate(R)])
    for i in bcc:
        if i < n:
            P[i] = simpat.pattern(R[i], shape, pc, reflectors=simpat.BCC)
    if flat is not None:
        P[flat] = 100.0
    return P.astype(np.float32), R


def up_file(path, pats, bits=16):
    """Independent writer of an EDAX UP file, version 1."""
    n, h, w = pats.shape
    with open(path, "wb") as f:
        f.write(np.array([1, w, h, 16], "<u4").tobytes())
        f.write(pats.astype("<u2" if bits == 16 else "u1").tobytes())

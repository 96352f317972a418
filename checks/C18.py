"""C18: crystal geometry against an independent Cartesian construction of the unit cell.
Alphabet: a finite lattice of cells covering all crystal systems, every unit of length in
use, all index triples up to a bound."""
import contextlib, io, itertools, math
import numpy as np
from vlib import core


def cells():
    out = []
    L = (1.0, 1.63, 4.05)
    for a, b, c in itertools.product(L, L, L):
        out.append((a, b, c, 90, 90, 90))
    for c in (0.9, 1.0, 1.63, 2.73, 8.0):
        out.append((1.0, 1.0, c, 90, 90, 120))
        out.append((3.2, 3.2, 3.2 * c, 90, 90, 120))
    for al in (35, 60, 75, 89.9, 90.1, 100, 109.5, 115):
        out.append((2.5, 2.5, 2.5, al, al, al))
    for be in (50, 89.5, 95.7, 120, 140):
        out.append((5.1, 5.2, 5.3, 90, be, 90))
    for al, be, ga in itertools.product((70, 90, 100), (80, 90, 115), (65, 90, 120)):
        out.append((8.17, 12.9, 7.1, al, be, ga))
    out += [(1.0, 30.0, 2.0, 90, 90, 90), (1.0, 1.0, 100.0, 90, 90, 120), (3.0, 0.2, 40.0, 91, 103, 88)]
    if core.THOROUGH:
        for al, be, ga in itertools.product((55, 70, 85, 90, 95, 110, 125), repeat=3):
            if al + be > ga and al + ga > be and be + ga > al and al + be + ga < 360:
                for abc in ((1, 1, 1), (1, 2, 3), (9, 4.4, 0.7)):
                    out.append(abc + (al, be, ga))
    return [c for c in out if gram(c) > 1e-3]


def gram(c):
    ca, cb, cg = [math.cos(math.radians(x)) for x in c[3:]]
    return 1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg


def basis(c):
    """columns a, b, c with a along x and b in the xy plane."""
    a, b, cc = c[:3]
    al, be, ga = [math.radians(x) for x in c[3:]]
    va = np.array([a, 0, 0])
    vb = b * np.array([math.cos(ga), math.sin(ga), 0])
    x = math.cos(be)
    y = (math.cos(al) - math.cos(be) * math.cos(ga)) / math.sin(ga)
    vc = cc * np.array([x, y, math.sqrt(max(0.0, 1 - x * x - y * y))])
    return np.array([va, vb, vc]).T


def body(ck):
    from pyebsdindex import crystallometry as cr
    units = (1.0, 0.1, 10.0, 100.0, 1e-10, 1e4) if core.THOROUGH else (1.0, 0.1, 100.0, 1e-10)
    idx = np.array([h for h in itertools.product((-1, 0, 1, 2), repeat=3) if any(h)], float)
    if core.THOROUGH:
        idx = np.array([h for h in itertools.product(range(-3, 4), repeat=3) if any(h)], float)
    ck.section("cells x units")
    for cell in cells():
        ref_ang = None
        for u in units:
            c = tuple(x * u for x in cell[:3]) + tuple(cell[3:])
            ok, X = ck.call("crystal", cr.Crystal, "x", *c)
            if not ok:
                return
            A = basis(c)
            B = np.linalg.inv(A).T
            s = max(np.linalg.norm(A, axis=0))
            na, nb = np.linalg.norm(A, axis=0), np.linalg.norm(B, axis=0)
            key = "u%g" % u

            def near(name, got, want, scale):
                got = np.asarray(got, float)
                err = np.abs(got - want) / scale
                if got.shape != np.shape(want) or not np.all(err < 1e-7):
                    ck.fail("%s:%s" % (name, key), "cell %s: %s is %s, expected %s" % (c, name, got.tolist(), np.asarray(want).tolist()))
            ck.case([c], np.round(A / s, 4))
            near("metricTensor", X.metricTensor, A.T @ A, np.outer(na, na))
            near("reciprocalMetricTensor", X.reciprocalMetricTensor, B.T @ B, np.outer(nb, nb))
            near("volume", X.volume, np.linalg.det(A), np.linalg.det(A))
            near("directStructureMatrix", X.directStructureMatrix, A, na[None, :])
            near("reciprocalStructureMatrix", X.reciprocalStructureMatrix, B, nb[None, :])
            near("invDirectStructureMatrix", X.invDirectStructureMatrix, np.linalg.inv(A), nb[:, None])
            near("invReciprocalStructureMatrix", X.invReciprocalStructureMatrix, A.T, na[:, None])
            # the identities themselves, on the values reported
            near("G Gr", (X.metricTensor @ X.reciprocalMetricTensor), np.eye(3), np.outer(na, 1 / na) + np.outer(nb, 1 / nb) + 1)
            near("duality", np.asarray(X.directStructureMatrix).T @ X.reciprocalStructureMatrix, np.eye(3), np.outer(na, nb))
            ck.ok(np.linalg.det(X.directStructureMatrix) > 0, "handed:" + key, "cell %s: left handed Cartesian frame" % (c,))
            # spacings and angles of all planes, independent of unit
            g = idx @ np.asarray(X.reciprocalMetricTensor) @ idx.T
            n = np.sqrt(np.diag(g))
            cart = idx @ B.T
            near("dspacing", 1 / n, 1 / np.linalg.norm(cart, axis=1), 1 / np.linalg.norm(cart, axis=1))
            cosang = g / np.outer(n, n)
            rc = cart @ cart.T / np.outer(np.linalg.norm(cart, axis=1), np.linalg.norm(cart, axis=1))
            near("plane_angles", cosang, rc, 1)
            via = idx @ np.asarray(X.reciprocalStructureMatrix).T
            near("plane_cart", via / np.linalg.norm(via, axis=1)[:, None], cart / np.linalg.norm(cart, axis=1)[:, None], 1)
            gd = idx @ np.asarray(X.metricTensor) @ idx.T
            nd = np.sqrt(np.diag(gd))
            dc = idx @ A.T
            rd = dc @ dc.T / np.outer(np.linalg.norm(dc, axis=1), np.linalg.norm(dc, axis=1))
            near("direction_angles", gd / np.outer(nd, nd), rd, 1)
            if ref_ang is None:
                ref_ang = cosang
            else:
                ck.ok(np.abs(cosang - ref_ang).max() < 1e-7, "unit_independence:" + key,
                      "cell %s: plane angles change with the unit of length (factor %g)" % (cell, u))
    ck.section("list of planes (face centred)")
    for cell, m in itertools.product([(1, 1, 1, 90, 90, 90), (4.05, 4.05, 4.05, 90, 90, 90), (3, 4, 5, 90, 100, 90)], (1, 2, 3)):
        for dmin in (0.0, 0.4, 1.1):
            X = cr.Crystal("x", *cell)
            with contextlib.redirect_stdout(io.StringIO()):
                ok, _ = ck.call("planes", X.generate_list_of_planes, maxhkl=m, dmin=dmin)
            B = np.linalg.inv(basis(cell)).T
            ck.case([cell, m, dmin])
            if not ck.ok(hasattr(X, "planeList"), "planes:none", "generate_list_of_planes(%d, %g) produced no list" % (m, dmin)):
                break
            got = {tuple(int(v) for v in np.ravel(p.hkl)): float(np.ravel(p.d)[0]) for p in X.planeList}
            got.pop((0, 0, 0), None)
            want = {}
            near_dmin = set()
            for h in itertools.product(range(-m, m + 1), repeat=3):
                if any(h) and len({x % 2 for x in h}) == 1:
                    d = 1 / np.linalg.norm(B @ np.array(h, float))
                    if abs(d - dmin) < 1e-9:
                        near_dmin.add(h)
                    if d > dmin:
                        want[h] = d
            gs, ws = set(got) - near_dmin, set(want) - near_dmin
            ck.ok(gs == ws, "planes:set", lambda: "cell %s: planes listed wrongly: extra %s missing %s" % (cell, sorted(gs - ws)[:4], sorted(ws - gs)[:4]))
            bad = [h for h in gs & ws if abs(got[h] - want[h]) > 1e-9 * want[h]]
            ck.ok(not bad, "planes:d", lambda: "cell %s: d of %s is %r, expected %r" % (cell, bad[0], got[bad[0]], want[bad[0]]))
    ck.section("four-index directions")
    r = range(-3, 4) if core.THOROUGH else range(-2, 3)
    A = basis((1, 1, 1.63, 90, 90, 120))
    a3 = -(A[:, 0] + A[:, 1])
    for u, v, w in itertools.product(r, r, r):
        if not (u or v or w):
            continue
        t = -(u + v)
        inp = np.array([u, v, t, w])
        keep = inp.copy()
        ok, got = ck.call("uvtw", cr.uvtw2uvw, inp)
        if not ok:
            return
        got = np.asarray(got, float)
        want = u * A[:, 0] + v * A[:, 1] + t * a3 + w * A[:, 2]
        d = A @ got
        ck.case([u, v, t, w], got)
        ck.ok(np.linalg.norm(np.cross(d, want)) < 1e-9 * np.linalg.norm(d) * np.linalg.norm(want) and d @ want > 0,
              "uvtw", "[%d %d %d %d] -> %s is another direction" % (u, v, t, w, got))
        ck.ok(np.all(got == np.rint(got)) and math.gcd(*[int(abs(x)) for x in got]) == 1, "uvtw:coprime", "%s -> %s" % (inp, got))
        ck.ok(np.array_equal(inp, keep), "uvtw:input", "input changed")


if __name__ == "__main__":
    core.main("C18", "exploration",
              "every cell of a finite lattice of cells (all crystal systems) in every unit of length, every index triple up to "
              "the bound, against a Cartesian construction; distinct = distinct cell shapes and results", body)

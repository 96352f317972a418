"""C04: solving one set of band normals does not depend on the other sets of the batch, on
their order, on earlier calls, or on what invalid bands contain.  All ordered pairs and
triples of a pool of dissimilar band sets; all small sets of invalid bands times a finite
alphabet of left-over normals."""
import itertools
import numpy as np
from vlib import core, simpat as S

NAMES = ("quat", "fit", "cm", "polematch", "nMatch", "ij", "votes")
NB = 8


def tilt(v, k, deg):
    a = np.cross(v, [0.3 + k, 1, -0.2 * k])
    return S.q2m(S.axang(a, deg)) @ v


def phases():
    from pyebsdindex import tripletvote as tv
    out = [("fcc", tv.addphase("FCC")), ("hcp", tv.addphase("HCP")),
           ("one", tv.addphase(phasename="one", spacegroup=229, latticeparameter=(1, 1, 1, 90, 90, 90), polefamilies=[[0, 1, 1]]))]
    out += [("bcc", tv.addphase("BCC")),
            ("tet", tv.addphase(phasename="tet", spacegroup=139, latticeparameter=(3, 3, 4.4, 90, 90, 90),
                                polefamilies=[[0, 0, 2], [1, 0, 1], [1, 1, 0], [1, 1, 2]])),
            ("mono", tv.addphase(phasename="mono", spacegroup=14, latticeparameter=(5.15, 5.2, 5.3, 90, 99.2, 90),
                                 polefamilies=[[0, 0, 1], [1, 1, 0], [1, 1, 1], [-1, 1, 1], [2, 0, 0]]))]
    return out


def halfsphere(lib):
    pc = np.asarray(lib.completelib["polesCart"])
    keep = []
    for i in range(len(pc)):
        if not any(abs(abs(pc[i] @ pc[j]) - 1) < 1e-6 for j in keep):
            keep.append(i)
    return keep, pc


def near(a, b, tol):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=tol, atol=tol, equal_nan=True)


def body(ck):
    for pname, lib in phases():
        half, pc = halfsphere(lib)
        R = S.q2m(S.axang([1, 2.2, 3.1], 37))
        rs = np.random.RandomState(11)  # fixed pool
        if len(half) >= NB:
            sel = [half[i] for i in rs.permutation(len(half))[:NB]]
            sel2 = [half[i] for i in rs.permutation(len(half))[:NB]]
        else:
            sel = sel2 = [half[i % len(half)] for i in range(NB)]
        true = np.array([R @ pc[i] for i in sel])
        R2 = S.q2m(S.axang([-2, 0.4, 1], 111))
        true2 = np.array([R2 @ pc[i] for i in sel2])
        rnd = rs.normal(size=(NB, 3))
        rnd /= np.linalg.norm(rnd, axis=1)[:, None]
        inten = np.linspace(1.0, 0.4, NB)

        def inv(idx, w=inten):
            w = w.copy()
            w[list(idx)] = 0
            return w
        noisy = np.array([tilt(v, k, 0.2 + 0.15 * k) for k, v in enumerate(true)])
        mixed = true2.copy()
        mixed[[2, 5]] = rnd[[2, 5]]
        pool = {
            "exact": (true, inten), "noisy": (noisy, inten), "other": (true2 * np.where(np.arange(NB) % 2, -1, 1)[:, None], inten),
            "mixed": (mixed, inten[::-1].copy()), "random": (rnd, inten), "few": (true, inv(range(5, NB))),
            "two": (true, inv(range(2, NB))), "none": (true, np.zeros(NB)), "same": (np.tile(true[0], (NB, 1)), inten),
            "zero": (np.zeros((NB, 3)), np.zeros(NB)), "flat": (np.array([tilt(v, k, 1.9) for k, v in enumerate(true)]), inten)}
        if not core.THOROUGH and pname != "fcc":
            pool = {k: pool[k] for k in ("exact", "mixed", "random", "few", "none")}
        pool["nan"] = (np.full((NB, 3), np.nan), np.zeros(NB))
        pool = {k: (a.astype(np.float32), b.astype(np.float32)) for k, (a, b) in pool.items()}
        names = list(pool)
        ref = {}
        ck.section(pname + " alone")
        for n in names:
            a, b = pool[n]
            ok, r = ck.call(pname + ":alone", lib.bandindex, a[None].copy(), b[None].copy())
            if not ok:
                return
            ref[n] = [np.asarray(x)[0] for x in r]
            ck.case([pname, n], [np.round(np.asarray(x, float), 3) for x in ref[n]])
        if ref["exact"][4] < (NB if len(half) >= NB else 6):
            raise RuntimeError("pool set does not solve: %s" % ref["exact"])
        if ref["none"][4] >= 3 or ref["two"][4] >= 3 if "two" in ref else False:
            ck.fail(pname + ":unsolvable-solved", "a set with fewer than three valid bands is solved: %s" % (ref["two"],))
        for n in names:
            w = pool[n][1]
            pm = np.asarray(ref[n][3])
            if ref[n][4] >= 3:
                ck.ok(not np.any(pm[w <= 0] >= 0), pname + ":invalid-matched", "set %s: invalid bands %s are reported as matched: %s" % (
                    n, np.flatnonzero(w <= 0).tolist(), pm.tolist()))
                ck.ok(ref[n][4] == np.sum(pm >= 0), pname + ":count", "set %s: nMatch %s but %s bands have a matched plane" % (
                    n, ref[n][4], np.sum(pm >= 0)))

        def compare(got, want, key, desc, skip=()):
            for f, g, x in zip(NAMES, got, want):
                if f in skip:
                    continue
                if not near(g, x, 2e-5 if f != "fit" else 2e-3):
                    ck.fail("%s:%s:%s" % (pname, key, f), "%s: %s is %s, alone %s" % (desc, f, g, x))
                    return

        def run(seq, key, cast=None, two_d=False):
            a = np.array([pool[n][0] for n in seq])
            b = np.array([pool[n][1] for n in seq])
            if cast:
                a, b = cast(a), cast(b)
            if two_d:
                a, b = a[0], b[0]
            ka, kb = a.copy(), b.copy()
            ck.case([pname, list(seq), key])
            ok, r = ck.call("%s:%s" % (pname, key), lib.bandindex, a, b)
            if not ok:
                return
            ck.ok(np.array_equal(ka, a, equal_nan=True) and np.array_equal(kb, b, equal_nan=True), "%s:%s:input-modified" % (pname, key),
                  "bandindex modified its input for %s" % (list(seq),))
            if not ck.ok(all(len(np.asarray(x)) == len(seq) for x in r), "%s:%s:length" % (pname, key), "%s" % [np.shape(x) for x in r]):
                return
            for i, n in enumerate(seq):
                if n == "nan":
                    continue
                compare([np.asarray(x)[i] for x in r], ref[n], key, "%s set %r at place %d of %s" % (pname, n, i, list(seq)))

        ck.section(pname + " ordered pairs and triples")
        for seq in itertools.product(names, repeat=2):
            run(seq, "pair")
        few = names if core.THOROUGH else (names[:4] + ["none", "nan"] if pname == "fcc" else names[:4] + ["nan"])
        for seq in itertools.product(few, repeat=3):
            run(seq, "triple")
        ck.section(pname + " rotations of the whole pool, repetition, 2-D input")
        for k in range(len(names)):
            run(names[k:] + names[:k], "pool")
            run((names[k:] + names[:k])[::-1], "pool")
        for n in names:
            run([n], "repeat")
            run([n] * 5, "repeat")
            run([n], "2d", two_d=True)

        ck.section(pname + " invalid bands")
        garbage = {"zero": np.zeros(3), "extra plane": None, "copy of a valid band": None, "opposite": None, "generic": np.array([0.6, -0.48, 0.64]),
                   "long": np.array([0, 0, 50.0]), "axis": np.array([1.0, 0, 0])}
        for n in ("exact", "noisy", "mixed", "random", "flat", "other"):
            if n not in pool:
                continue
            a, w = pool[n]
            Rn = R2 if n in ("other", "mixed") else R
            used = sel2 if n in ("other", "mixed") else sel
            spare = [i for i in half if i not in used] or half
            for m in range(1, (4 if core.THOROUGH else 3)) if pname == "fcc" else (1, 2):
                for idx in itertools.combinations(range(NB), m):
                    valid = [i for i in range(NB) if i not in idx]
                    base = None
                    for g, vec in garbage.items():
                        x = a.copy()
                        for j, i in enumerate(idx):
                            x[i] = vec if vec is not None else (Rn @ pc[spare[(j + 1) % len(spare)]] if g == "extra plane" else
                                                                (-1 if g == "opposite" else 1) * a[valid[j]])
                        wi = inv(idx, w)
                        ck.case([pname, n, list(idx), g])
                        ok, r = ck.call(pname + ":invalid", lib.bandindex, x[None].astype(np.float32), wi[None])
                        if not ok:
                            continue
                        r = [np.asarray(y)[0] for y in r]
                        if base is None:
                            base = r
                            ck.outcome([np.round(r[0], 3), r[4]])
                        compare(r, base, "invalid-bands", "set %s, invalid bands %s holding %s instead of zeros" % (n, list(idx), g))
                        if r[4] >= 3:
                            ck.ok(not np.any(np.asarray(r[3])[list(idx)] >= 0), pname + ":invalid-matched",
                                  "set %s: invalid bands %s (%s) reported as matched %s" % (n, list(idx), g, r[3]))
    ck.assumptions = ["single precision normals and intensities, as band detection delivers them"]


if __name__ == "__main__":
    core.main("C04", "exploration",
              "ordered selections of a pool of band sets, and every small set of invalid bands x left-over normals, on the real "
              "solver; the row must equal the one obtained alone (resp. with zeroed invalid bands)", body)

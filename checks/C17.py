"""C17: the library of planes, angle pairs and angle triplets of a phase, against an
independent enumeration (own symmetry groups, own cell geometry, all planes, all pairs, all
triplets of planes)."""
import itertools
import numpy as np
from vlib import core
from checks.C16 import closure, GEN, TABLE
from checks.C18 import basis
from vlib import rotref as R

PHASES = [
    ("fcc", 225, (1, 1, 1, 90, 90, 90), [[0, 0, 2], [1, 1, 1], [0, 2, 2], [1, 1, 3]]),
    ("bcc", 229, (2.87, 2.87, 2.87, 90, 90, 90), [[0, 1, 1], [0, 0, 2], [1, 1, 2], [0, 1, 3]]),
    ("diamond", 227, (5.43, 5.43, 5.43, 90, 90, 90), [[1, 1, 1], [0, 2, 2], [0, 0, 4], [1, 1, 3], [2, 2, 4], [1, 3, 3]]),
    ("pyrite", 205, (5.4, 5.4, 5.4, 90, 90, 90), [[2, 0, 0], [2, 1, 0], [1, 2, 0], [1, 1, 1]]),
    ("hcp", 194, (1, 1, 1.63, 90, 90, 120), [[1, 0, -1, 0], [0, 0, 0, 2], [1, 0, -1, 1], [1, 0, -1, 2], [1, 1, -2, 0]]),
    ("hexlow", 176, (9.4, 9.4, 6.9, 90, 90, 120), [[1, 0, 0], [0, 0, 2], [2, 1, 1], [1, 1, 0]]),
    ("trig", 166, (3.8, 3.8, 11.7, 90, 90, 120), [[0, 0, 3], [1, 0, 1], [0, 1, 2], [1, 1, 0]]),
    ("triglow", 148, (5, 5, 13.0, 90, 90, 120), [[0, 0, 3], [1, 0, 4], [1, 1, 3]]),
    ("tet", 139, (3, 3, 4.4, 90, 90, 90), [[0, 0, 2], [1, 0, 1], [1, 1, 0], [1, 1, 2]]),
    ("tetlow", 88, (5.2, 5.2, 11.4, 90, 90, 90), [[0, 0, 4], [1, 1, 2], [2, 1, 1]]),
    ("ortho", 62, (4.8, 10.2, 6.0, 90, 90, 90), [[0, 2, 0], [1, 1, 0], [1, 1, 1], [0, 2, 1]]),
    ("mono", 14, (5.15, 5.2, 5.3, 90, 99.2, 90), [[0, 0, 1], [1, 1, 0], [1, 1, 1], [-1, 1, 1], [2, 0, 0]]),
    ("tricl", 2, (8.1, 12.9, 7.2, 94, 116, 88), [[0, 0, 1], [1, 1, 0], [0, 2, 1], [1, 3, 0], [1, -1, 2]]),
    ("onefam", 225, (1, 1, 1, 90, 90, 90), [[1, 1, 1]]),
    ("twofam", 229, (1, 1, 1, 90, 90, 90), [[1, 1, 0], [2, 0, 0]]),
    ("close1", 225, (1, 1, 1, 90, 90, 90), [[1, 0, 0], [1, 0, 7], [1, 0, 9]]),
    ("close2", 139, (3, 3, 30, 90, 90, 90), [[0, 0, 2], [1, 0, 1], [1, 0, 2], [1, 1, 1]]),
    ("close3", 14, (5, 5.2, 5.1, 90, 91.5, 90), [[1, 0, 1], [2, 1, 2], [1, 1, 0], [0, 0, 1], [1, 0, 0]]),
    ("scaled", 225, (404.9, 404.9, 404.9, 90, 90, 90), [[0, 0, 2], [1, 1, 1], [0, 2, 2], [1, 1, 3]]),
]
DEEP = [
    ("bcc6", 229, (1, 1, 1, 90, 90, 90), [[0, 1, 1], [0, 0, 2], [1, 1, 2], [0, 1, 3], [2, 2, 2], [1, 2, 3]]),
    ("hcp8", 194, (1, 1, 1.58, 90, 90, 120), [[1, 0, -1, 0], [0, 0, 0, 2], [1, 0, -1, 1], [1, 0, -1, 2], [1, 1, -2, 0], [1, 0, -1, 3], [1, 1, -2, 2], [2, 0, -2, 1]]),
    ("gamma", 139, (1, 1, 1.02, 90, 90, 90), [[1, 1, 1], [0, 0, 2], [2, 0, 0], [2, 0, 2], [2, 2, 0], [1, 1, 3]]),
]


def laue_of(sg):
    return [l for lo, hi, l in TABLE if lo <= sg <= hi][0]


def three(h):
    return np.array([h[0], h[1], h[3]]) if len(h) == 4 else np.array(h)


def reference(sg, cell, fams):
    B = np.linalg.inv(basis(cell)).T
    Bi = np.linalg.inv(B)
    els, _ = closure([R.ax2q(np.append(a, 2 * np.pi / f)) for a, f in GEN[laue_of(sg)]])
    mats = [R.q2m(q) for q in els.values()]
    out = []
    for f in fams:
        h = three(f).astype(float)
        orb = {tuple(int(x) for x in np.rint(Bi @ m @ B @ h)) for m in mats}
        orb |= {tuple(-x for x in h) for h in orb}  # a band is a plane and its inverse
        out.append(orb)
    return B, mats, out


def triplet_sets(lib):
    return {tuple(np.round(a, 2)) + tuple(int(x) for x in i) for a, i in zip(lib["angles"], lib["familyid"])}


def body(ck):
    from pyebsdindex import tripletvote as tv
    phases = PHASES + (DEEP if core.THOROUGH else [])
    base = {}
    ck.section("planes, pairs and triplets of every phase")
    for name, sg, cell, fams in phases:
        ok, p = ck.call("build:" + name, tv.addphase, phasename=name, spacegroup=sg, latticeparameter=cell, polefamilies=fams)
        if not ok:
            continue
        base[name] = p
        B, mats, orbs = reference(sg, cell, fams)
        cl = p.completelib
        poles = np.rint(np.asarray(cl["poles"])).astype(int)
        fam = np.asarray(cl["familyid"]).astype(int)
        ck.ok(np.abs(poles - cl["poles"]).max() < 1e-2, "hkl:" + name, "non-integer plane indices in the library")
        n = len(poles)
        ck.ok(len(np.unique(fam)) == len(fams) and p.npolefamilies == len(fams), "nfam:" + name, "families %s of %d" % (np.unique(fam), len(fams)))
        for i, orb in enumerate(orbs):
            rows = [tuple(int(x) for x in h) for h in poles[fam == i]]
            ck.case([name, fams[i], len(orb)], sorted(rows))
            ck.state((name, i))
            ck.ok(len(rows) == len(set(rows)), "dup:%s:%d" % (name, i), "family %s lists a plane twice: %s" % (fams[i], rows))
            ck.ok(set(rows) == orb, "family:%s:%d" % (name, i), lambda: "family %s of %s: extra %s missing %s" % (
                fams[i], name, sorted(set(rows) - orb)[:4], sorted(orb - set(rows))[:4]))
            ck.ok(int(cl["nFamily"][i]) == len(orb), "count:%s:%d" % (name, i), "nFamily %s, multiplicity %d" % (cl["nFamily"][i], len(orb)))
            j0 = int(cl["famIndex"][i])
            ck.ok(np.all(fam[j0:j0 + len(orb)] == i) and np.sum(fam == i) == len(orb), "famindex:%s:%d" % (name, i), "family index is inconsistent")
        cart = poles @ B.T
        cart = cart / np.linalg.norm(cart, axis=1)[:, None]
        ck.ok(np.abs(np.asarray(cl["polesCart"]) - cart).max() < 1e-5, "cart:" + name,
              lambda: "Cartesian normals differ by %g" % np.abs(np.asarray(cl["polesCart"]) - cart).max())
        ang = np.degrees(np.arccos(np.clip(cart @ cart.T, -1, 1)))
        at = np.asarray(cl["angTable"], float)
        ck.ok(at.shape == (n, n) and np.all(np.isfinite(at)) and np.abs(at - ang).max() < 0.05, "angtable:" + name,
              lambda: "angle table off by %g" % np.nanmax(np.abs(at - ang)))
        a90 = np.minimum(ang, 180 - ang)
        # angle pairs
        pa, pf = np.asarray(p.angpairs["angles"], float), np.asarray(p.angpairs["familyid"]).astype(int)
        pf = pf.reshape(-1, 2)
        for i in range(len(fams)):
            for j in range(i, len(fams)):
                true = a90[np.ix_(fam == i, fam == j)].ravel()
                have = pa[(pf[:, 0] == i) & (pf[:, 1] == j)]
                ck.transitions += true.size
                need = true[true > 1.02]
                dist = np.abs(need[:, None] - have[None, :]).min(axis=1) if have.size and need.size else np.full(need.size, 99.0)
                ck.ok(need.size == 0 or dist.max() < 0.012, "pair_missing:%s:%d:%d" % (name, i, j),
                      lambda: "%s: angle %.3f between %s and %s is not listed" % (name, need[dist.argmax()], fams[i], fams[j]))
                d2 = np.abs(have[:, None] - true[None, :]).min(axis=1) if have.size else np.zeros(1)
                ck.ok(d2.max() < 0.012, "pair_extra:%s:%d:%d" % (name, i, j),
                      lambda: "%s: angle %.3f listed between %s and %s does not exist" % (name, have[d2.argmax()], fams[i], fams[j]))
        # triplets: every triple of planes that are not parallel
        axes = [k for k in range(n)]
        keep = []
        for k in axes:
            if all(not (fam[k] == fam[m] and abs(cart[k] @ cart[m]) > 0.999999) for m in keep):
                keep.append(k)
        LA = np.asarray(p.angtriplets["angles"], float)
        LI = np.asarray(p.angtriplets["familyid"]).astype(int)
        ck.ok(np.all(np.diff(LA, axis=1) >= -1e-9), "tripsorted:" + name, "triplet angles are not sorted")
        lib = {}
        for a, f in zip(np.rint(LA * 100).astype(int), LI):
            lib.setdefault(tuple(f), set()).add(tuple(a))
        checked = 0
        missing = None
        for t in itertools.combinations(keep, 3):
            if min(a90[t[0], t[1]], a90[t[0], t[2]], a90[t[1], t[2]]) < 1.02:
                continue
            checked += 1
            found = False
            for a, b, c in itertools.permutations(t):
                x = (a90[a, b], a90[a, c], a90[b, c])
                if x[0] > x[1] + 0.021 or x[1] > x[2] + 0.021:
                    continue
                S = lib.get((fam[a], fam[b], fam[c]))
                if S is None:
                    continue
                r = [int(round(v * 100)) for v in x]
                if tuple(r) in S or any((r[0] + d0, r[1] + d1, r[2] + d2) in S for d0 in (-1, 0, 1) for d1 in (-1, 0, 1) for d2 in (-1, 0, 1)):
                    found = True
                    break
            if not found:
                missing = ([poles[k].tolist() for k in t], [round(float(v), 2) for v in sorted((a90[t[0], t[1]], a90[t[0], t[2]], a90[t[1], t[2]]))])
                break
        ck.transitions += checked
        ck.evaluations += checked
        ck.ok(missing is None, "triplet:" + name, lambda: "%s: the planes %s with angles %s are in no library triplet" % (name, missing[0], missing[1]))
        # and every library triplet is made of listed pair angles
        for a, f in zip(LA, LI):
            for ang1, (i, j) in zip(a, ((f[0], f[1]), (f[0], f[2]), (f[1], f[2]))):
                i, j = min(i, j), max(i, j)
                if not np.any((pf[:, 0] == i) & (pf[:, 1] == j) & (np.abs(pa - ang1) < 0.006)):
                    ck.fail("triplet_extra:" + name, "%s: library triplet %s %s uses an angle that families %d,%d do not make" % (name, a, f, i, j))
                    break
    ck.section("equivalent inputs give the same library")
    for name, sg, cell, fams in phases:
        if name not in base:
            continue
        p0 = base[name]
        four = laue_of(sg) in (3, 32, 6, 62)
        rng = list(range(len(fams)))
        _, _, orbs = reference(sg, cell, fams)
        variants = []
        for k in range(3):
            variants.append(("member%d" % k, [sorted(o)[(5 * k + 3) % len(o)] for o in orbs]))
        variants.append(("inverted", [tuple(-x for x in three(f)) for f in fams]))
        if four:
            variants.append(("3-index", [tuple(three(f)) for f in fams]))
            variants.append(("4-index", [(three(f)[0], three(f)[1], -(three(f)[0] + three(f)[1]), three(f)[2]) for f in fams]))
            variants.append(("4-index member", [(h[0], h[1], -(h[0] + h[1]), h[2]) for h in (sorted(o)[-1] for o in orbs)]))
        variants.append(("float array", np.array([three(f) for f in fams], dtype=float)))
        variants.append(("with zero row", [tuple(three(f)) for f in fams] + [(0, 0, 0)]))
        variants.append(("with inverse rows", [tuple(three(f)) for f in fams] + [tuple(-three(f))  for f in fams]))
        for vn, vf in variants:
            keep = np.array(vf).copy()
            arr = np.array(vf)
            ok, p = ck.call("variant:%s:%s" % (name, vn), tv.addphase, phasename=name, spacegroup=sg, latticeparameter=list(cell), polefamilies=arr)
            if not ok:
                continue
            ck.case([name, vn])
            ck.ok(np.array_equal(arr, keep), "variant:%s:input" % vn, "caller's family list changed")
            want, got = p0.completelib, p.completelib
            k = "variant:%s:%s" % (name, vn)
            def sets(l):
                o = {}
                for h, f in zip(np.rint(np.asarray(l["poles"])).astype(int), l["familyid"]):
                    o.setdefault(int(f), set()).add(tuple(int(x) for x in h))
                return o
            ck.ok(sets(got) == sets(want), k + ":planes", lambda: "%s given as %s lists other planes" % (name, vf))
            ck.ok(list(got["nFamily"]) == list(want["nFamily"]), k + ":counts", "family sizes %s, expected %s" % (got["nFamily"], want["nFamily"]))
            A, Bs = triplet_sets(p0.angtriplets), triplet_sets(p.angtriplets)
            def unmatched(X, Y):
                Yd = {}
                for y in Y:
                    Yd.setdefault(y[3:], []).append(y[:3])
                out = []
                for x in X:
                    c = Yd.get(x[3:], []) + []
                    tie = abs(x[0] - x[1]) < 0.02 or abs(x[1] - x[2]) < 0.02
                    if tie:
                        c = [y[:3] for y in Y if sorted(y[3:]) == sorted(x[3:])]
                    if not any(max(abs(u - v) for u, v in zip(x[:3], y)) < 0.021 for y in c):
                        out.append(x)
                return out
            if A != Bs:
                u = unmatched(A, Bs)
                v = unmatched(Bs, A)
                ck.ok(not u and not v, k + ":triplets", lambda: "%s given as %s: triplets differ, e.g. %s / %s" % (name, vf, u[:2], v[:2]))
    ck.section("building one phase does not change another")
    snap = {n: (p.completelib["poles"].copy(), p.angtriplets["angles"].copy(), p.angtriplets["familyid"].copy()) for n, p in base.items()}
    for (a, pa_), (b, _) in itertools.product(list(base.items())[:6], list(base.items())[:6]):
        spec = [x for x in phases if x[0] == b][0]
        tv.addphase(phasename=b, spacegroup=spec[1], latticeparameter=spec[2], polefamilies=spec[3])
        ck.case([a, b])
        ck.ok(np.array_equal(pa_.completelib["poles"], snap[a][0]) and np.array_equal(pa_.angtriplets["angles"], snap[a][1])
              and np.array_equal(pa_.angtriplets["familyid"], snap[a][2]), "independent:%s" % a, "building %s changed %s" % (b, a))
    ck.section("shorthand phases")
    for lt, sg, cell, fams in (("FCC", 225, (1, 1, 1, 90, 90, 90), [[0, 0, 2], [1, 1, 1], [0, 2, 2], [1, 1, 3]]),
                               ("BCC", 229, (1, 1, 1, 90, 90, 90), [[0, 1, 1], [0, 0, 2], [1, 1, 2], [0, 1, 3]]),
                               ("HCP", 194, (1, 1, 1.63, 90, 90, 120), [[1, 0, -1, 0], [0, 0, 0, 2], [1, 0, -1, 1], [1, 0, -1, 2], [1, 1, -2, 0], [1, 0, -1, 3], [1, 1, -2, 2], [2, 0, -2, 1]])):
        for arg in (lt, lt.lower()):
            p = tv.addphase(libtype=arg)
            q = tv.addphase(phasename=lt, spacegroup=sg, latticeparameter=cell, polefamilies=fams)
            ck.case([arg])
            ck.ok(p.spacegroup == sg and p.lauecode == laue_of(sg) and np.array_equal(np.asarray(p.latticeparameter, float), np.array(cell, float))
                  and np.array_equal(p.completelib["poles"], q.completelib["poles"]) and triplet_sets(p.angtriplets) == triplet_sets(q.angtriplets),
                  "shorthand:" + lt, "addphase(%r) differs from the explicit phase" % arg)
            p = tv.addphase(libtype=arg, latticeparameter=cell[:2] + (cell[2] * 1.1,) + cell[3:] if lt == "HCP" else (4, 4, 4, 90, 90, 90), polefamilies=fams[:3], phasename="mine")
            ck.ok(p.phasename == "mine" and p.npolefamilies == 3, "shorthand_override:" + lt, "overrides of %s ignored" % lt)
    ck.traces = ck.evaluations


if __name__ == "__main__":
    core.main("C17", "model_checking",
              "for each phase of a list covering all Laue classes, all planes, all pairs and all triplets of planes are enumerated "
              "independently (a state per plane family, a transition per pair/triplet) and looked up in the library the code built", body)

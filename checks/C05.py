"""C05: exact plane normals, and simulated patterns, of a known orientation are indexed to
that orientation.  All symmetry-distinct subsets of the planes of a phase that determine
the orientation (decided by a brute-force reference over every pair assignment), all
orders and signs of chosen subsets, spurious bands at every place; and simulated patterns
over a lattice of orientations."""
import itertools
import numpy as np
from vlib import core, simpat as S
from vlib.idx import PC, quiet
from checks.C04 import halfsphere
from checks.C16 import closure, GEN
from checks.C17 import laue_of
from checks.C21 import from_edax
from vlib import rotref as R_

TOL = 2.0


LOW = [
    ("trig", 167, (.5, .5, 1.7, 90, 90, 120), [[1, 0, -1, 4], [1, 1, -2, 3], [0, 1, -1, 2], [1, 1, -2, 0]], ((7, 15), (8, 15))),
    ("pyrite", 205, (5.4, 5.4, 5.4, 90, 90, 90), [[2, 0, 0], [2, 1, 0], [1, 1, 1], [2, 1, 1]], ((7, 13), (8, 13)) if core.THOROUGH else ((7, 9),)),
    ("tetlow", 88, (.5, .5, .8, 90, 90, 90), [[1, 1, 1], [2, 1, 1], [1, 0, 2], [0, 2, 1]], ((7, 16), (8, 16))),
    ("hexlow", 176, (9.4, 9.4, 6.9, 90, 90, 120), [[1, 0, 0], [0, 0, 2], [2, 1, 1], [1, 1, 0], [1, 0, 2]], ((7, 16), (8, 16))),
    ("ortho", 62, (.5, .6, .8, 90, 90, 90), [[1, 1, 1], [1, 1, 0], [1, 0, 2], [0, 2, 1]], ((6, 10), (7, 10), (8, 10))),
    ("mono", 14, (.5, .6, .8, 90, 105, 90), [[1, 1, 1], [1, 1, 0], [1, 0, 2], [0, 2, 1], [0, 1, 0]], ((6, 8), (7, 8), (8, 8))),
    ("tricl", 2, (.5, .6, .8, 85, 105, 95), [[1, 1, 1], [1, 1, 0], [1, 0, 2], [0, 2, 1], [1, 0, 0], [0, 1, -1], [-1, 1, 1], [0, 0, 1]],
     ((6, 8), (7, 8), (8, 8))),
]


def sym_rots(sg):
    """Rotations of the Laue group, from its generators (vlib, not the library)."""
    els, _ = closure([R_.ax2q(np.append(a, 2 * np.pi / f)) for a, f in GEN[laue_of(sg)]])
    return np.array([R_.q2m(q) for q in els.values()])


def misor(T, rots):
    tr = np.einsum("ij,kij->k", T, rots)
    return np.degrees(np.arccos(np.clip((tr.max() - 1) / 2, -1, 1)))


def alternatives(planes, rots, TOL=TOL):
    """Every orientation, other than the true one, that brings two planes onto two planes
    within tolerance, as a bit mask of the planes that then coincide with some plane.
    Brute force over all pairs."""
    n = len(planes)
    full = np.concatenate([planes, -planes])
    masks = set()
    ang = np.degrees(np.arccos(np.clip(full @ full.T, -1, 1)))
    for i, j in itertools.combinations(range(n), 2):
        a = ang[i, j]
        u1 = planes[i]
        u2 = np.cross(planes[i], planes[j])
        u2 /= np.linalg.norm(u2)
        B = np.array([u1, u2, np.cross(u1, u2)])
        P, Q = np.nonzero(np.abs(ang - a) < TOL + 0.5)
        ok = ang[P, Q] > 1
        P, Q = P[ok], Q[ok]
        w1 = full[P]
        w2 = np.cross(full[P], full[Q])
        w2 /= np.linalg.norm(w2, axis=1)[:, None]
        A = np.stack([w1, w2, np.cross(w1, w2)], axis=-1)
        T = A @ B  # maps plane i to full[P]
        tr = T.reshape(-1, 9) @ rots.reshape(-1, 9).T
        T = T[np.degrees(np.arccos(np.clip((tr.max(1) - 1) / 2, -1, 1))) > 3 * TOL]
        best = np.abs((planes @ T.transpose(0, 2, 1)).reshape(-1, 3) @ planes.T).max(-1).reshape(len(T), n)
        m = best > np.cos(np.radians(TOL + 0.6))
        masks |= {int(x) for x in (m @ (1 << np.arange(n, dtype=np.int64)))}
    # fewer than 5 coinciding planes never make a set of 6 or more ambiguous
    masks = sorted((m for m in masks if bin(m).count("1") >= 5), key=lambda x: -bin(x).count("1"))
    out = np.zeros(0, dtype=np.int64)
    for m in masks:
        if not np.any(out & m == m):
            out = np.append(out, np.int64(m))
    return out


def popcount(x):
    return np.bitwise_count(np.asarray(x, dtype=np.uint64)).astype(int)


def orbits(planes, rots, n, N):
    """One representative of every orbit (under the symmetry group) of the n-subsets of the first N planes
    (whole families, so that the group permutes them)."""
    perms = []
    for r in rots:
        perms.append(np.abs((planes @ r.T) @ planes.T).argmax(1))
    perms = np.unique(np.array(perms), axis=0)
    if perms[:, :N].max() >= N:
        perms = perms[:1] * 0 + np.arange(len(planes))  # not closed under the group: no reduction
    combos = np.array(list(itertools.combinations(range(N), n)), dtype=np.int64)
    masks = (np.int64(1) << combos).sum(1)
    best = masks.copy()
    for p in perms:
        best = np.minimum(best, (np.int64(1) << p[combos]).sum(1))
    return combos[best == masks]


def body(ck):
    from pyebsdindex import tripletvote as tv, ebsd_index
    T = core.THOROUGH
    ck.split()
    # (subset size, number of leading planes the subsets are drawn from)
    PH = [("fcc", tv.addphase("FCC"), 225, ((6, 25), (7, 25)) if T else ((6, 25), (7, 13))),
          ("bcc", tv.addphase("BCC"), 229, ((7, 33), (8, 21)) if T else ((7, 21),)),
          ("hcp", tv.addphase("HCP"), 194, ((8, 22), (9, 18)) if T else ((8, 15),)),
          ("tet", tv.addphase(phasename="tet", spacegroup=139, latticeparameter=(3, 3, 4.4, 90, 90, 90),
                              polefamilies=[[0, 0, 2], [1, 0, 1], [1, 1, 0], [1, 1, 2]]), 139, ((6, 11), (7, 11), (8, 11)))]
    # phases whose rotations do not bring every plane onto its inverse
    for nm, sg, cell, fams, sizes in LOW:
        PH.append((nm, tv.addphase(phasename=nm, spacegroup=sg, latticeparameter=cell, polefamilies=fams), sg, sizes))
    orient = [S.q2m(S.axang([1, 2.2, 3.1], 37)), np.eye(3), S.q2m(S.axang([1, 0, 0], 180)), S.q2m(S.axang([0, 1, 1], 180)),
              S.q2m(S.axang([1, 2, 3], 180)), S.q2m(S.axang([0, 0, 1], 45)), S.q2m(S.axang([1, 1, 1], 60)),
              S.q2m(S.axang([-3, 1, 2], 179.9)), S.q2m(S.axang([1, 1, 0], 90)), S.q2m(S.axang([2, -1, 0.3], 1e-3))]
    for name, lib, symname, sizes in PH:
        rots = sym_rots(symname)
        half, pc = halfsphere(lib)
        fam = np.asarray(lib.completelib["familyid"])
        planes = pc[half]
        pf = fam[half]
        alt = alternatives(planes, rots)
        early = lib.nband_earlyexit

        def determined(combos, extra=0, alt=alt):
            m = (np.int64(1) << combos).sum(1)
            worst = np.zeros(len(combos), int)
            for a in alt:
                worst = np.maximum(worst, popcount(m & a))
            n = combos.shape[1]
            # no other orientation explains more than n - 2 of the bands, nor enough for an early exit
            return (worst + extra <= n - 2) & (worst + extra < early)

        def check(combo_list, R, key, signs=None, spurious=None, places=None):
            """combo_list: (k, n) plane numbers; places: positions of spurious normals."""
            combos = np.asarray(combo_list)
            for lo in range(0, len(combos), 4000):
                if not ck.mine():
                    continue
                c = combos[lo:lo + 4000]
                v = np.einsum("ij,knj->kni", R, planes[c])
                if signs is not None:
                    v = v * np.asarray(signs)[lo:lo + 4000][..., None]
                f = pf[c]
                if spurious is not None:
                    for pos, d in zip(places, spurious):
                        v = np.insert(v, pos, d, axis=1)
                        f = np.insert(f, pos, -1, axis=1)
                inten = np.tile(np.linspace(1, 0.5, v.shape[1]), (len(c), 1)).astype(np.float32)
                ck.beat()
                ok, r = ck.call("%s:%s" % (name, key), lib.bandindex, v.astype(np.float32), inten)
                if not ok:
                    return
                q, fit, cm, pm, nm = [np.asarray(x) for x in r[:5]]
                ck.evaluations += len(c)
                ck.sections[ck._section] += len(c)
                M = np.array([S.q2m(x) for x in q])
                TT = M @ R
                tr = np.einsum("kij,sij->ks", TT, rots).max(1)
                mis = np.degrees(np.arccos(np.clip((tr - 1) / 2, -1, 1)))
                real = f >= 0
                famok = ((fam[pm.clip(0)] == f) & (pm >= 0)) | ~real
                plok = np.abs(np.einsum("knj,knj->kn", np.einsum("kij,knj->kni", M, v), pc[pm.clip(0)])) > np.cos(np.radians(0.5))
                good = (mis < 0.3) & (fit < 0.1) & famok.all(1) & (plok | ~real).all(1) & (nm >= real.sum(1)) & ~np.isnan(q).any(1)
                if not good.all():
                    ck.extra.setdefault("failures", []).append([name, key, int((~good).sum())])
                for k in np.flatnonzero(~good)[:3]:
                    why = "orientation" if not mis[k] < 0.3 else "fit" if not fit[k] < 0.1 else "count" if nm[k] < real[k].sum() else "family"
                    ck._case = {"phase": name, "planes": c[k].tolist(), "normals": v[k].tolist()}
                    ck.fail("%s:%s:%s" % (name, key, why), "%s planes %s (families %s): off by %.3f deg, fit %.4f, %s matched, families %s" % (
                        name, c[k].tolist(), f[k].tolist(), mis[k], fit[k], nm[k], fam[pm[k].clip(0)].tolist()))

        ck.section(name + " subsets of planes")
        for n, N in sizes:
            cand = orbits(planes, rots, n, min(N, len(planes)))
            keep = cand[determined(cand)]
            ck.child or ck.extra.setdefault("subsets", []).append({"phase": name, "size": n, "planes": N, "orbits": len(cand), "determined": len(keep)})
            ck.case([name, n, len(keep)])
            check(keep, orient[0], "subset%d" % n)
            ck.outcome([name, n])
            if n == sizes[0][0] and len(keep):
                for R in orient[1:]:
                    check(keep[::max(1, len(keep) // (600 if T else 150))], R, "orientation")
        # a full set: every order of its first bands, every sign pattern, every orientation
        order = sorted(range(len(planes)), key=lambda i: (pf[i], i))
        nb = min(8, len(order))
        chosen = []
        for st in range(len(order)):
            c = [order[(st * 5 + k * 3) % len(order)] for k in range(nb)]
            if len(set(c)) == nb and determined(np.array([c]), 1)[0]:
                chosen.append(c)
        if not chosen:
            cand = np.array(list(itertools.combinations(range(len(planes)), nb)))
            chosen = [list(map(int, c)) for c in cand[determined(cand, 0)][:6]]
        if not chosen:
            raise RuntimeError("no determined %d-band set for %s" % (nb, name))
        ck.section(name + " orders")
        for c in chosen[:3 if T else 1]:
            perms = list(itertools.permutations(c[:6 if T else 5]))
            check([list(p) + c[len(p):] for p in perms], orient[0], "order")
            check([list(p) + c[len(p):] for p in perms[::7]], orient[2], "order")
            ck.case([name, c])
        ck.section(name + " signs")
        for c in chosen[:3 if T else 1]:
            sg = list(itertools.product((1, -1), repeat=nb))
            for R in orient[:3]:
                check([c] * len(sg), R, "sign", signs=sg)
            ck.case([name, c])
        ck.section(name + " orientations")
        lat = [S.q2m(np.array(q, float)) for q in itertools.product((-1, 0, 1), repeat=4) if any(q)]
        for R in lat:
            check(chosen[:6], R, "lattice")
        ck.case([name, len(lat)])
        ck.section(name + " spurious bands")
        R = orient[0]
        rs = np.random.RandomState(3)
        spur = []
        dirs = rs.normal(size=(400, 3))
        dirs /= np.linalg.norm(dirs, axis=1)[:, None]
        sep = np.degrees(np.arccos(np.clip(np.abs((dirs @ R) @ planes.T).max(1), 0, 1)))
        cand = dirs[np.argsort(-sep)]
        for d in cand:
            if all(abs(d @ e) < 0.95 for e in spur):
                spur.append(d)
            if len(spur) == 4:
                break
        for c in chosen:
            if not determined(np.array([c]), 2)[0]:
                continue
            # the spurious normals may add one match each to another orientation: margin of 2 above
            for p1 in range(0, nb + 1):
                for d in spur:
                    check([c], R, "spurious", spurious=[d], places=[p1])
                    ck.case([name, c, p1])
                for p2 in (0, nb // 2, nb + 1):
                    check([c], R, "spurious2", spurious=spur[:2], places=[p1, p2])

        ck.section(name + " perturbed bands")
        amp = 0.3
        alt4 = alternatives(planes, rots, 2 * TOL)
        sets = [c for c in chosen if determined(np.array([c]), 0, alt4)[0]][:4 if T else 1]
        if not sets:
            # sets of all planes / of nb planes that are unambiguous also with a wider tolerance
            cand = np.array(list(itertools.islice(itertools.combinations(range(len(planes)), min(nb + 1, len(planes))), 4000)))
            sets = [list(map(int, c)) for c in cand[determined(cand, 0, alt4)][:1]]
        for c in sets:
            v0 = (R @ planes[c].T).T
            e1 = np.cross(v0, [0.31, -0.22, 0.9])
            e1 /= np.linalg.norm(e1, axis=1)[:, None]
            e2 = np.cross(v0, e1)
            push = np.array([np.zeros_like(e1), e1, -e1, e2, -e2])
            nd = 5
            for first in (0, 3):
                if not ck.mine():
                    continue
                ck.beat()
                ways = np.array([np.pad(np.roll(w, first), (0, len(c) - nd), mode="wrap") for w in itertools.product(range(5), repeat=nd)])
                v = v0 + np.tan(np.radians(amp)) * push[ways, np.arange(len(c))]
                v /= np.linalg.norm(v, axis=-1)[..., None]
                ok, r = ck.call(name + ":noise", lib.bandindex, v.astype(np.float32), np.tile(np.linspace(1, .5, len(c)), (len(v), 1)).astype(np.float32))
                if not ok:
                    continue
                q, fit, cm, pm, nm = [np.asarray(x) for x in r[:5]]
                tr = np.einsum("kij,sij->ks", np.array([S.q2m(x) for x in q]) @ R, rots).max(1)
                mis = np.degrees(np.arccos(np.clip((tr - 1) / 2, -1, 1)))
                ck.evaluations += len(v)
                ck.sections[ck._section] += len(v)
                ck.extra.setdefault("perturbed", []).append({"phase": name, "worst_deg": round(float(mis.max()), 3), "fit": round(float(fit.max()), 3)})
                good = (mis < 4 * amp) & (fit < 2 * amp) & (nm == len(c)) & (fam[pm.clip(0)] == pf[c]).all(1)
                for k in np.flatnonzero(~good)[:2]:
                    ck._case = {"phase": name, "planes": list(c), "normals": v[k].tolist()}
                    ck.fail(name + ":noise", "%s planes %s, each within %.1f deg: off by %.3f deg, fit %.3f, %s matched, families %s" % (
                        name, c, amp, mis[k], fit[k], nm[k], fam[pm[k].clip(0)].tolist()))
            ck.case([name, c, len(push)])

    # ---------------------------------------------------------------- simulated patterns
    ck.section("simulated patterns")
    grid = []
    for ax in ((0, 0, 1), (1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 2, 3), (-2, 1, 0.5)):
        for w in ((0, 13, 30, 45, 62, 90, 145, 180) if T else (0, 30, 45, 145)):
            grid.append(S.q2m(S.axang(ax, w)))
    hcp = PH[2][1].completelib
    hexr = []
    for k, (w, wd) in enumerate(((0.8, 2.2), (0.9, 2.4), (1.0, 2.4), (0.5, 2.8))):
        hexr.append((np.asarray(hcp["polesCart"])[int(np.asarray(hcp["famIndex"])[k])], w, wd))
    SYM = {"FCC": S.cubic_rots(), "BCC": S.cubic_rots(), "HCP": S.hex_rots()}
    shapes = [((60, 60), PC), ((48, 64), (0.52, 0.6, 0.7)), ((64, 48), (0.5, 0.55, 0.65))] + ([((120, 120), PC), ((96, 120), (0.45, 0.7, 0.55))] if T else [])
    for shape, pc in shapes:
        for phn, refl in (("FCC", S.FCC), ("BCC", S.BCC), ("HCP", hexr)):
            pats = np.array([S.pattern(R, shape, pc, reflectors=refl, rots=SYM[phn]) for R in grid]).astype(np.float32)
            for vendor, tilt, elev in (("EDAX", 70.0, 5.3), ("EDAX", 60.0, 10.0), ("EDAX", 72.0, 0.0), ("OXFORD", 70.0, 5.3),
                                       ("EMSOFT", 70.0, 5.3), ("KIKUCHIPY", 70.0, 5.3), ("BRUKER", 70.0, 5.3)):
                if shape != (60, 60) and tilt != 70.0 or vendor != "EDAX" and phn != "FCC" and not T or not ck.mine():
                    continue
                with quiet():
                    ok, r = ck.call("sim:" + phn, ebsd_index.index_pats, pats, phaselist=[phn], PC=from_edax(pc, vendor, shape), vendor=vendor, sampleTilt=tilt,
                                    camElev=elev, nRho=90, nTheta=90, nBands=8, tSigma=1.0, rSigma=1.2, rhoMaskFrac=0.15)
                if not ok:
                    continue
                d = r[0][-1]
                # sample frame: detector frame turned by the (independently written) tilt rotations
                a = -np.radians(90.0 - tilt + elev)
                F = S.q2m([np.cos(a / 2), np.sin(a / 2), 0, 0])
                if vendor not in ("OXFORD", "BRUKER"):
                    F = F @ S.q2m([np.sqrt(0.5), 0, 0, -np.sqrt(0.5)])
                ms = []
                for k, R in enumerate(grid):
                    ck.case([phn, shape, vendor, tilt, k], np.round(d["quat"][k], 2))
                    Q = S.q2m(d["quat"][k])  # sample -> crystal
                    m = misor(Q @ F.T @ R, SYM[phn])  # detector -> crystal is Q F^T
                    ms.append(m)
                    ck.ok(d["phase"][k] == 0 and m < 1.0 and d["fit"][k] < 1.5, "sim:%s:%s:%s:%s" % (phn, shape, vendor, "off" if m >= 1.0 else "poor"),
                          "%s pattern %s %s tilt %s orientation %d: off by %.2f deg, fit %.2f, %d bands, phase %d" % (
                              phn, shape, vendor, tilt, k, m, d["fit"][k], d["nmatch"][k], d["phase"][k]))
                ck.extra.setdefault("simulated", []).append({"phase": phn, "shape": shape, "vendor": vendor, "tilt": tilt, "worst_deg": round(max(ms), 3)})
    ck.assumptions = [
        "a set determines the orientation when no other orientation explains more than n-2 of its bands within 2.6 degrees (brute force over all pair "
        "assignments) nor as many as the early-exit count", "single precision normals"]


if __name__ == "__main__":
    core.main("C05", "exploration",
              "symmetry-distinct plane subsets (brute-force reference decides which determine the orientation), orders, signs, spurious "
              "bands, orientation lattice, simulated patterns; known orientation is the oracle", body)

"""C06: detector geometry.  Every Radon position of a grid x detector shape x pattern centre x
vendor convention through the real radon2pole against an independent construction of the plane
through the source point and the line; simulated patterns indexed in every convention."""
import itertools
import numpy as np
from vlib import core, idx, simpat as S

VENDORS = ("EDAX", "OXFORD", "BRUKER", "KIKUCHIPY", "EMSOFT")


def pc_for(v, tx, ty, L, H, W, delta=59.2):
    """Source point (tx, ty pixels from the bottom left corner, L pixels away) in a vendor's convention."""
    if v == "EDAX":
        return [tx / W, ty / H, L / min(H, W)]
    if v == "OXFORD":
        return [tx / W, ty / W, L / W]
    if v in ("BRUKER", "KIKUCHIPY"):
        return [tx / W, 1 - ty / H, L / H]
    return [W / 2 - tx, ty - H / 2, L * delta, delta]


def normals(th, rho, H, W, src):
    """Unit normals of the planes through src and the detector lines x cos + y sin = rho
    (x to the right, y down, from the image centre), frame x right, y up, z away from the source."""
    c, s = np.cos(th), np.sin(th)
    a = np.stack([rho * c - 7 * s, rho * s + 7 * c], -1)
    b = np.stack([rho * c + 11 * s, rho * s - 11 * c], -1)

    def ray(p):
        x, y, z = np.broadcast_arrays(p[..., 0] + W / 2 - src[..., 0], H / 2 - p[..., 1] - src[..., 1], src[..., 2])
        return np.stack([x, y, z], -1)
    n = np.cross(ray(a), ray(b))
    return n / np.linalg.norm(n, axis=-1)[..., None]


def body(ck):
    from pyebsdindex import ebsd_index
    from pyebsdindex.radon_fast import Radon
    shapes = [(60, 60), (40, 52), (52, 40), (31, 77), (9, 8)]
    srcs = [(0.5, 0.5, 0.6), (0.47, 0.67, 0.63), (0.1, 0.9, 0.4), (0.85, 0.2, 1.3), (-0.2, 1.2, 0.9), (0.52, 0.71, 0.05)]
    dt = np.dtype([("aveloc", np.float32, (2,)), ("theta", np.float32), ("rho", np.float32)])
    ck.section("line to plane, all vendors")
    for (H, W), (nT, nR), rm in itertools.product(shapes, ((180, 90), (36, 15), (7, 30)), (None, "min")):
        rmax = None if rm is None else np.float32(0.5 * min(H, W))
        R = Radon(imageDim=np.array([H, W]), nTheta=nT, nRho=nR, rhoMax=rmax)
        rM = 0.5 * np.hypot(H, W) if rm is None else 0.5 * min(H, W)
        d = 2 * rM / nR
        tl = np.concatenate([np.arange(0, nT, 1 if core.THOROUGH else max(1, nT // 30)), [0.25, nT / 2 + 0.4, nT - 1, nT - 0.4, -0.6]])
        rl = np.concatenate([np.arange(0, nR, 1 if core.THOROUGH else max(1, nR // 12)), [0.5, nR / 2 + 0.3, nR - 1, nR - 0.7, -0.6]])
        loc = np.array(list(itertools.product(rl, tl)), np.float32)
        th = loc[:, 1].astype(float) * np.pi / nT
        rho = loc[:, 0] * d - (rM - d)
        inside = (loc[:, 0] >= 0) & (loc[:, 0] <= nR - 1) & (loc[:, 1] >= 0) & (loc[:, 1] <= nT - 1)
        for k, (px, py, pz) in enumerate(srcs):
            src = np.array([px * W, py * H, pz * min(H, W)])
            want = normals(th, rho, H, W, src)
            for v in VENDORS:
                for vn in (v, v.lower(), v.capitalize()) if k == 0 else (v,):
                    for npat in (1, 3) if k < 2 else (1,):
                        b = np.zeros((npat, len(loc)), dt)
                        b["aveloc"] = loc
                        pc = pc_for(v, *src, H, W)
                        for form in (list, tuple, np.array, lambda x: np.array(x, np.float32), lambda x: np.array([x])) if k < 2 else (np.array,):
                            arg = form(pc)
                            keep = np.array(arg, copy=True)
                            ok, n = ck.call("radon2pole", R.radon2pole, b, PC=arg, vendor=vn)
                            if not ok:
                                return
                            ck.case([[H, W], [nT, nR], rm, k, vn, npat], n[0])
                            ck.evaluations += len(loc)
                            ck.ok(np.array_equal(keep, np.array(arg)), "pc-modified:" + v, "radon2pole modified the pattern centre it was given (%s)" % v)
                            if not ck.ok(n.shape == (npat, len(loc), 3), "shape", "normals have shape %s" % (n.shape,)):
                                return
                            n = n.astype(float)
                            ck.ok(np.allclose(np.linalg.norm(n, axis=-1), 1, atol=1e-5), "unit", "normals are not unit vectors")
                            err = np.degrees(np.arcsin(np.clip(np.linalg.norm(np.cross(n, want[None]), axis=-1), 0, 1)))
                            w = np.argwhere(err > 0.02 + (0.05 if pz < 0.1 else 0))
                            if len(w):
                                p, i = w[0]
                                ck.fail("plane:%s%s" % (v, "" if inside[i] else ":edge"), "%s, detector %dx%d, source %s: Radon position %s (%sinside the grid) gives normal %s, the plane through "
                                        "source and line has %s (%.2f degrees off)" % (vn, H, W, src, loc[i], "" if inside[i] else "not ", n[p, i], want[i], err[p, i]))
                            # reported theta, rho: the same line with y up
                            t2, r2 = b["theta"].astype(float), b["rho"].astype(float)
                            ct, st = np.cos(t2), np.sin(t2)
                            x0, y0 = rho * np.cos(th), -rho * np.sin(th)
                            x1, y1 = x0 - 9 * np.sin(th), y0 - 9 * np.cos(th)
                            e = np.maximum(np.abs(x0 * ct + y0 * st - r2), np.abs(x1 * ct + y1 * st - r2))
                            ck.ok(not (e > 2e-2).any(), "theta-rho", lambda: "reported theta/rho of Radon position %s do not describe that line" % loc[np.argwhere(e > 2e-2)[0][1]])

    ck.section("one pattern centre per pattern")
    for (H, W) in shapes[:3]:
        R = Radon(imageDim=np.array([H, W]), nTheta=90, nRho=45)
        rM = 0.5 * np.hypot(H, W)
        d = 2 * rM / 45
        loc = np.array(list(itertools.product(np.arange(2, 44, 5), np.arange(0, 90, 7))), np.float32)
        th = loc[:, 1] * np.pi / 90
        rho = loc[:, 0] * d - (rM - d)
        for v in VENDORS:
            for n in (1, 2, 3, 4, 5):
                for perm in itertools.permutations(range(len(srcs) - 1), n) if core.THOROUGH else list(itertools.permutations(range(len(srcs) - 1), n))[::11]:
                    src = np.array([[srcs[k][0] * W, srcs[k][1] * H, srcs[k][2] * min(H, W)] for k in perm])
                    pc = np.array([pc_for(v, *s, H, W, delta=20 + 7 * k) for s, k in zip(src, perm)])
                    keep = pc.copy()
                    b = np.zeros((n, len(loc)), dt)
                    b["aveloc"] = loc
                    nn = R.radon2pole(b, PC=pc, vendor=v).astype(float)
                    want = normals(th[None], rho[None], H, W, src[:, None, :])
                    ck.case([[H, W], v, list(perm)], nn)
                    err = np.degrees(np.arcsin(np.clip(np.linalg.norm(np.cross(nn, want), axis=-1), 0, 1)))
                    ck.ok(err.max() < 0.02 and np.array_equal(pc, keep), "per-pattern:" + v, lambda: "%s: pattern centres %s for %d patterns: pattern %d is %.2f degrees off" % (
                        v, pc, n, np.argwhere(err >= 0.02)[0][0], err.max()))

    ck.section("simulated patterns in every convention")
    shapes = [(60, 60), (60, 76), (76, 60)] if core.THOROUGH else [(60, 76), (76, 60)]
    rots = idx.rots(4 if core.THOROUGH else 3)
    cub = S.cubic_rots()
    tilts = [(70.0, 5.3), (60.0, 0.0), (75.0, -8.0)]

    def mis(A, B):
        """Smallest angle between A and B up to the cube's rotations applied on the crystal side."""
        tr = max(np.einsum("ij,kij->k", A, np.einsum("kij,jl->kil", cub, B)))
        return np.degrees(np.arccos(np.clip((tr - 1) / 2, -1, 1)))
    for (H, W) in shapes:
        src = (0.47 * W, 0.67 * H, 0.63 * min(H, W))
        P = np.array([S.pattern(r, (H, W), pc_for("EDAX", *src, H, W), gain=60) for r in rots])
        ref = {}
        for v in VENDORS + ("edax", "Oxford"):
            for tilt, elev in tilts:
                V = v.upper()
                for pckind in ("shared", "per pattern", "argument"):
                    pc = np.array(pc_for(V, *src, H, W))
                    if pckind == "per pattern":
                        pc = np.tile(pc, (len(rots), 1))
                    if pckind == "argument":
                        ind = ebsd_index.EBSDIndexer(phaselist=["FCC"], vendor=v, PC=[0.3, 0.3, 0.3] if V != "EMSOFT" else [0, 0, 9, 1], sampleTilt=tilt, camElev=elev, patDim=(H, W))
                        ok, r = ck.call("index", ind.index_pats, patsin=P, PC=pc)
                    elif (tilt, elev) == tilts[0]:
                        ok, r = ck.call("index", ebsd_index.index_pats, patsin=P, phaselist=["FCC"], vendor=v, PC=pc, sampleTilt=tilt, camElev=elev, tSigma=1.0, rSigma=1.2, rhoMaskFrac=0.15)
                    else:
                        continue
                    if not ok:
                        return
                    q = r[0]["quat"][-1]
                    ck.case([[H, W], v, tilt, elev, pckind], np.round(q, 3))
                    a = -np.radians(90 - tilt + elev)
                    F = S.q2m([np.cos(a / 2), np.sin(a / 2), 0, 0])
                    if V in ("EDAX", "EMSOFT", "KIKUCHIPY"):
                        F = F @ S.q2m([np.sqrt(.5), 0, 0, -np.sqrt(.5)])
                    for i, rot in enumerate(rots):
                        if not ck.ok(r[0]["phase"][-1][i] == 0, "index:unsolved:" + V, "%s %dx%d: pattern %d is not indexed" % (v, H, W, i)):
                            break
                        # Q takes sample to crystal; F = frame of the detector; rot takes crystal to detector
                        Q = S.q2m(q[i])
                        e = mis(Q, (F.T @ rot).T)
                        ck.ok(e < 1.0, "index:" + V, "%s, detector %dx%d, tilt %s, elevation %s, pattern centre %s: orientation %d is %.2f degrees off the true one" % (
                            v, H, W, tilt, elev, pckind, i, e))
                        k = (H, W, tilt, elev, i, V in ("EDAX", "EMSOFT", "KIKUCHIPY"))
                        if k in ref:
                            e = mis(Q, ref[k])
                            ck.ok(e < 0.02, "index:agree:" + V, "%s gives an orientation %.3f degrees from the other conventions of its family" % (v, e))
                        else:
                            ref[k] = Q


core.main("C06", "exploration", "every Radon position of a grid x detector shape x pattern centre x vendor (shared or per pattern), and simulated patterns x vendor x tilt; "
          "distinct = distinct normals/orientations", body)

"""C19: the Radon transform.  A linear map is decided completely by its response to every
single-pixel image: all of them are run through both real implementations for a set of
detector shapes, resolutions, masks, index maps and paddings, and compared with an independent
definition of which pixels lie on a line."""
import itertools
import numpy as np
from vlib import core

EPS = 2e-3  # pixels; single precision angles and distances


def lines(shape, nT, nR, rhoMax):
    """must[r,t,p] / may[r,t,p]: pixel p lies (strictly / within rounding) on the line."""
    h, w = shape
    th = np.arange(nT) * np.pi / nT
    d = 2.0 * rhoMax / nR
    rho = np.arange(nR) * d - (rhoMax - d)
    y, x = np.mgrid[0:h, 0:w]
    X = (x - (w - 1) * 0.5).ravel()
    Y = (y - (h - 1) * 0.5).ravel()
    c, s = np.cos(th)[None, :, None], np.sin(th)[None, :, None]
    res = X * c + Y * s - rho[:, None, None]
    edge = np.abs(np.abs(s) - np.sqrt(0.5)) < 1e-4
    a = np.abs(res) / np.maximum(np.abs(s), 1e-9)   # distance along y
    b = np.abs(res) / np.maximum(np.abs(c), 1e-9)   # distance along x
    dist = np.where(np.abs(s) > np.sqrt(0.5), a, b)
    other = np.where(np.abs(s) > np.sqrt(0.5), b, a)
    must = dist < 0.5 - EPS
    may = dist < 0.5 + EPS
    must = np.where(edge, must & (other < 0.5 - EPS), must)
    may = np.where(edge, may | (other < 0.5 + EPS), may)
    return must, may


def transforms(plan, images, pad=(0, 0), **k):
    out = {"radon_faster": plan.radon_faster(images, padding=np.array(pad), **k)}
    if k.get("normalization", True):
        k.pop("normalization", None)
        out["radon_fast"] = plan.radon_fast(images, padding=np.array(pad), **k)
    return out


def body(ck):
    from pyebsdindex.radon_fast import Radon
    shapes = [(7, 7), (6, 9), (9, 6), (8, 8), (1, 5), (5, 1), (12, 7)]
    if core.THOROUGH:
        shapes += [(16, 16), (15, 20), (20, 13), (2, 2), (3, 24)]
    reso = [(4, 5), (12, 10), (9, 8), (45, 12), (180, 9)] + ([(180, 30), (90, 45)] if core.THOROUGH else [])
    rhos = [None, "min", 3.3]
    for shape, (nT, nR), rm in itertools.product(shapes, reso, rhos):
        ck.section("every single-pixel image")
        h, w = shape
        n = h * w
        diag = 0.5 * np.sqrt(h * h + w * w)
        rmax = {None: None, "min": np.float32(0.5 * min(h, w)), 3.3: 3.3}[rm]
        r = diag if rmax is None else float(rmax)
        tag = "%dx%d:%dx%d:%s" % (h, w, nT, nR, rm)
        case = [list(shape), nT, nR, rm]
        ok, plan = ck.call("plan", Radon, imageDim=np.array(shape), nTheta=nT, nRho=nR, rhoMax=rmax)
        if not ok:
            continue
        d = 2 * r / nR
        ck.ok(np.allclose(plan.theta, np.arange(nT) * 180.0 / nT, atol=1e-3) and np.allclose(plan.rho, np.arange(nR) * d - (r - d), atol=1e-3),
              "axes:" + tag, "angles or distances of the transform are wrong for %s" % case)
        must, may = lines(shape, nT, nR, r)
        eye = np.eye(n, dtype=np.float32).reshape(n, h, w)
        ref = None
        for name, R in transforms(plan, eye).items():
            ck.case(case + [name], R)
            ck.evaluations += n
            R = np.asarray(R, float)
            if not ck.ok(R.shape == (nR, nT, n), "shape:" + name, "%s of %s gives shape %s" % (name, case, R.shape)):
                return
            hit = R > 0
            empty = (R == -1).all(axis=2)
            cnt = hit.sum(axis=2)
            ck.ok(not np.any(must & ~hit), "pixel-missing:%s" % name, lambda: "%s %s: pixel %s lies on line %s and does not contribute" % (
                name, case, np.argwhere(must & ~hit)[0][2], np.argwhere(must & ~hit)[0][:2]))
            ck.ok(not np.any(~may & hit), "pixel-wrong:%s" % name, lambda: "%s %s: pixel %s is not on line %s and contributes" % (
                name, case, np.argwhere(~may & hit)[0][2], np.argwhere(~may & hit)[0][:2]))
            ck.ok(np.array_equal(empty, cnt == 0), "empty:%s" % name, "%s %s: cells without pixels must hold -1" % (name, case))
            want = np.where(hit, 1.0 / np.maximum(cnt, 1)[:, :, None], 0.0)
            want[empty] = -1
            ck.ok(np.allclose(R, want, atol=1e-6), "mean:%s" % name, "%s %s: a cell is not the mean of its pixels" % (name, case))
            if ref is not None:
                ck.ok(np.allclose(R, ref, atol=1e-6), "agree", "%s: the two implementations differ" % case)
            ref = R
        M = np.where(ref > 0, ref, 0)
        hit = ref > 0
        cnt = hit.sum(axis=2)
        empty = cnt == 0

        ck.section("linear on whole images")
        rs = np.random.RandomState(3)
        imgs = {"const": np.full(shape, 3.0), "ramp": np.arange(n, dtype=float).reshape(shape), "neg": rs.normal(size=shape) * 10 - 20,
                "u8": rs.randint(0, 256, shape).astype(np.uint8), "u16": rs.randint(0, 65536, shape).astype(np.uint16),
                "f64": rs.rand(*shape), "zero": np.zeros(shape), "spike": np.where(np.arange(n).reshape(shape) == n // 2, 1e6, 1.0)}
        for iname, im in imgs.items():
            keep = im.copy()
            want = M @ im.ravel().astype(float)
            want[empty] = -1
            for name, R in transforms(plan, im).items():
                ck.case(case + [name, iname], np.round(R, 2))
                ck.ok(np.allclose(R[:, :, 0], want, rtol=2e-5, atol=2e-5 * max(1.0, np.abs(im.astype(float)).max())), "linear:" + name,
                      lambda: "%s %s: image %s, cell %s" % (name, case, iname, np.argwhere(~np.isclose(R[:, :, 0], want, rtol=1e-4, atol=1e-3))[:1]))
                ck.ok(np.array_equal(keep, im) and keep.dtype == im.dtype, "image-modified:" + name, "%s modified its image" % name)
        stack = np.array([v.astype(np.float32) for v in imgs.values()])
        for name, R in transforms(plan, stack).items():
            ck.case(case + [name, "stack"])
            want = np.moveaxis(np.array([M @ s.ravel().astype(float) for s in stack]), 0, -1)
            want[empty] = -1
            ck.ok(np.allclose(R, want, rtol=1e-4, atol=1e-1) and R.shape == want.shape, "stack:" + name, "%s %s: transforming a stack" % (name, case))
        sums = plan.radon_faster(imgs["ramp"], normalization=False)
        want = hit @ imgs["ramp"].ravel()
        want = np.where(empty, -1, want)
        ck.ok(np.allclose(sums[:, :, 0], want, rtol=1e-5), "sum", "%s: without normalisation a cell is the sum of its pixels" % case)

        if (nT, nR) in ((180, 9), (4, 5)) and not core.THOROUGH:
            continue
        ck.section("padding, missing value, artefact columns, background")
        im = imgs["neg"]
        base = M @ im.ravel()
        for pad in itertools.product((0, 1, 3), (0, 1, 4)):
            for miss in (-1.0, 0.0, -7.5):
                plan.missingval = miss
                for art in (False, True):
                    want = np.full((nR + 2 * pad[0], nT + 2 * pad[1]), miss)
                    want[pad[0]:pad[0] + nR, pad[1]:pad[1] + nT] = np.where(empty, miss, base)
                    if art:
                        want[:, pad[1]] = want[:, pad[1] + 1]
                        want[:, pad[1] + nT - 1] = want[:, pad[1] + nT - 2]
                    for name, R in transforms(plan, im, pad, fixArtifacts=art).items():
                        ck.case(case + [name, list(pad), miss, art])
                        ck.ok(R.shape == want.shape + (1,) and np.allclose(R[:, :, 0], want, rtol=1e-4, atol=1e-4), "padding:%s%s%s" % (
                            name, ":artifacts" if art else "", ":missing" if miss != -1 else ""),
                            "%s %s: padding %s, missing value %s, artefact columns %s" % (name, case, pad, miss, art))
            plan.missingval = -1.0
        bg = imgs["f64"] * 5
        want = M @ (im - bg).ravel()
        want[empty] = -1
        for two in (True, False):
            arr = im if two else im[None]
            k2, kb = arr.copy(), bg.copy()
            for name in ("radon_faster", "radon_fast"):
                ck.case(case + [name, "background", two])
                ok, R = ck.call("background:" + name, getattr(plan, name), arr, background=bg)
                if ok:
                    ck.ok(np.allclose(np.squeeze(R[:, :, 0]), want, rtol=1e-4, atol=1e-3), "background:" + name, "%s %s: background" % (name, case))
                    ck.ok(np.array_equal(arr, k2) and np.array_equal(bg, kb), "background-modified:" + name, "image or background modified")

        ck.section("masks and index maps")
        yy, xx = np.mgrid[0:h, 0:w]
        masks = {"disk": (xx - w / 2) ** 2 + (yy - h / 2) ** 2 < (0.45 * min(h, w)) ** 2, "half": xx >= w // 2, "one-off": np.arange(n).reshape(shape) != n // 3,
                 "none": np.zeros(shape, bool), "only-one": np.arange(n).reshape(shape) == n // 2, "checker": (xx + yy) % 2 == 0}
        maps = {"id": None, "mirror": np.arange(n).reshape(shape)[:, ::-1].copy(), "drop": np.where((xx + 2 * yy) % 3 == 0, -1, np.arange(n).reshape(shape)),
                "one": np.zeros(shape, int), "flip-drop": np.where(xx == 0, -1, np.arange(n).reshape(shape)[::-1, :])}
        for (mn, mask), (pn, mp) in itertools.product(masks.items(), maps.items()):
            for typ in (bool, np.uint8, float):
                if typ is not bool and not (mn == "disk" and pn == "id"):
                    continue
                ok, pl = ck.call("mask-plan", Radon, imageDim=np.array(shape), nTheta=nT, nRho=nR, rhoMax=rmax, mask=mask.astype(typ),
                                 maskindex=None if mp is None else mp.copy())
                if not ok:
                    continue
                idx = np.arange(n) if mp is None else mp.ravel()
                use = mask.ravel() & (idx >= 0)
                # cell x original pixel -> cell x source pixel
                S = np.zeros((nR, nT, n))
                H = hit & use
                for p in np.flatnonzero(use):
                    S[:, :, idx[p]] += H[:, :, p]
                c = H.sum(axis=2)
                W = S / np.maximum(c, 1)[:, :, None]
                W[c == 0] = -1
                for name, R in transforms(pl, eye).items():
                    ck.case(case + [name, mn, pn, typ.__name__], R)
                    ck.ok(np.allclose(R, W, atol=1e-5), "mask:%s" % name, lambda: "%s %s: mask %s, index map %s: cell/pixel %s" % (
                        name, case, mn, pn, np.argwhere(~np.isclose(R, W, atol=1e-5))[:1].tolist()))


core.main("C19", "exploration", "every single-pixel image (all of them) x detector shapes x resolutions x radius limits, "
          "x masks x index maps, x padding x missing value, through both implementations; distinct = distinct transforms", body)

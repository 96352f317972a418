"""C20: masked pixels and background.  Every mask of a family x every filling of the masked
pixels x pattern pool x entry points; every order and subset of a pattern pool for the
background, for arrays, datasets and files."""
import itertools, os
import numpy as np
from vlib import core, dist, idx

SHAPE = (40, 44)


def lines(shape, nT, nR, rhoMax):
    h, w = shape
    th = np.arange(nT) * np.pi / nT
    d = 2.0 * rhoMax / nR
    rho = np.arange(nR) * d - (rhoMax - d)
    y, x = np.mgrid[0:h, 0:w]
    X = (x - (w - 1) * 0.5).ravel()
    Y = (y - (h - 1) * 0.5).ravel()
    return th, rho, X, Y


def masks(shape):
    h, w = shape
    y, x = np.mgrid[0:h, 0:w]
    r = np.hypot(x - (w - 1) / 2, y - (h - 1) / 2)
    m = {"disk": r < 0.48 * min(h, w), "small disk": r < 0.3 * min(h, w), "left": x < w // 2, "top": y < 0.6 * h, "hole": r > 0.12 * h,
         "corner": ~((x < w // 4) & (y < h // 4)), "stripe": (x % 7) != 3, "one pixel": ~((x == 5) & (y == 9)),
         "frame": (x > 2) & (x < w - 3) & (y > 1) & (y < h - 2), "all": np.ones(shape, bool)}
    return m


def eq(a, b):
    for n in ("max", "normmax", "maxloc", "avemax", "aveloc", "width", "valid"):
        if not np.allclose(a[n], b[n], rtol=2e-4, atol=1e-5, equal_nan=True):
            return "%s: %s != %s" % (n, a[n].ravel()[:9], b[n].ravel()[:9])
    return None


def body(ck):
    from pyebsdindex import band_detect, ebsd_index, ebsd_pattern
    from pyebsdindex.radon_fast import Radon
    ck.split()
    P, R = idx.pool(5, SHAPE)
    P = np.clip(np.round(P), 0, 255)
    rs = np.random.RandomState(5)
    fills = {"zero": 0.0, "255": 255.0, "huge": 6e4, "noise": None, "inverse": "inv", "next": "next"}
    ffills = dict(fills, negative=-3e4, nan=np.nan, inf=np.inf)

    def fill(pats, mask, f):
        out = pats.copy()
        if f is None:
            v = rs.randint(0, 255, pats.shape).astype(np.float32)
        elif f == "inv":
            v = 255 - pats
        elif f == "next":
            v = np.roll(pats, 1, axis=0)
        else:
            v = np.full(pats.shape, f, np.float32)
        out[:, ~mask] = v[:, ~mask]
        return out

    def plan(mask=None, how="setup", frac=0.1, nT=90, nR=45, **k):
        kw = dict(nTheta=nT, nRho=nR, tSigma=1.0, rSigma=1.2, rhoMaskFrac=frac, nBands=8)
        kw.update(k)
        if how == "ctor":
            return band_detect.BandDetect(patDim=SHAPE, patternmask=mask, **kw)
        p = band_detect.BandDetect(**kw)
        p.band_detect_setup(patDim=SHAPE, patternmask=mask)
        return p

    nomask = plan().find_bands(P)
    mk = masks(SHAPE)
    for mname, mask in mk.items():
        for frac in (0.1, 0.15, 0.0, -0.2) if core.THOROUGH else (0.1, -0.2):
            ck.section("fillings of the masked pixels")
            if not ck.mine():
                continue
            for how in ("setup", "ctor"):
                ok, pl = ck.call("plan-%s" % how, plan, mask.astype(np.uint8) if how == "ctor" else mask, how, frac)
                if not ok:
                    continue
                ref = pl.find_bands(P)
                ck.ok(how != "setup" or ref["valid"].sum() >= 3 * len(P), "too-few-bands", "mask %s gives hardly any band" % mname)
                if mname == "all" and frac == 0.1:
                    d = eq(ref, nomask)
                    ck.ok(d is None, "all-ones", "a mask that keeps every pixel changes the bands: %s" % d)
                if how == "setup":
                    ref0 = ref
                else:
                    d = eq(ref, ref0)
                    ck.ok(d is None, "ctor-mask", "mask given to the constructor: %s" % d)
                for fname, f in ffills.items():
                    for typ in (np.float32, np.float64, np.uint8, np.uint16):
                        if typ in (np.uint8, np.uint16) and fname not in fills or (typ is not np.float32 and how == "ctor"):
                            continue
                        if typ is np.uint8 and fname == "huge":
                            continue
                        pats = fill(P, mask, f)
                        pats = np.clip(pats, 0, 65535).astype(typ) if typ in (np.uint8, np.uint16) else pats.astype(typ)
                        keep = pats.copy()
                        got = pl.find_bands(pats, chunksize=2)
                        ck.case([mname, frac, how, fname, typ.__name__], got["aveloc"])
                        d = eq(got, ref)
                        ck.ok(d is None, "leak:%s" % how, "mask %s (rhoMaskFrac %s, given by %s): filling the masked pixels with %s (%s) changes the bands: %s" % (
                            mname, frac, how, fname, typ.__name__, d))
                        ck.ok(np.array_equal(keep, pats, equal_nan=True), "modified", "find_bands modified the patterns")
            ck.section("no band outside the masked Radon region")
            p = plan(mask, "setup", frac)
            th, rho, X, Y = lines(SHAPE, p.nTheta, p.nRho, float(p.rhoMax))
            # cells whose line passes within half a pixel of some unmasked pixel
            keepx, keepy = X[mask.ravel()], Y[mask.ravel()]
            res = np.abs(keepx * np.cos(th)[None, :, None] + keepy * np.sin(th)[None, :, None] - rho[:, None, None]).min(axis=2)
            region = res <= 0.5 + 1e-3
            if frac > 0:
                n = max(1, int(p.nRho * frac))
                region[:n] = False
                region[-n:] = False
            noise = rs.randint(0, 255, (6,) + SHAPE).astype(np.float32)
            for pats in (P, noise, np.full((2,) + SHAPE, 9.0, np.float32)):
                b = p.find_bands(pats)
                ck.case([mname, frac, "region"], b["maxloc"])
                loc = np.round(b["maxloc"]).astype(int)
                v = b["valid"] > 0
                inb = (loc[..., 0] >= 0) & (loc[..., 0] < p.nRho) & (loc[..., 1] >= 0) & (loc[..., 1] < p.nTheta)
                bad = v & ~inb
                ck.ok(not bad.any(), "outside-transform", lambda: "mask %s: band at %s, outside the transform" % (mname, loc[bad][:1]))
                good = v & inb
                bad = good.copy()
                bad[good] = ~region[loc[good][:, 0], loc[good][:, 1]]
                ck.ok(not bad.any(), "outside-region", lambda: "mask %s, rhoMaskFrac %s: band reported at Radon cell %s, which is masked" % (mname, frac, loc[bad][:1].tolist()))

    ck.section("masks through the indexers")
    sc = core.SCRATCH
    up = os.path.join(sc, "m.up2")
    idx.up_file(up, P)
    kw = dict(PC=idx.PC, phaselist=["FCC", "BCC"])
    ikw = dict(tSigma=1.0, rSigma=1.2, rhoMaskFrac=0.15)
    for mname in ("disk", "left", "hole", "stripe") if not core.THOROUGH else mk:
        mask = mk[mname]
        refs = []
        if not ck.mine():
            continue

        def run(kind, pats):
            if kind == "index_pats":
                return ebsd_index.index_pats(patsin=pats, patternmask=mask, vendor="EDAX", **kw, **ikw)
            if kind == "index_pats reused":
                return ebsd_index.index_pats(patsin=pats, ebsd_indexer_obj=ebsd_index.EBSDIndexer(patDim=SHAPE, patternmask=mask, vendor="EDAX", **kw))
            if kind == "indexer method":
                return ebsd_index.EBSDIndexer(patDim=SHAPE, patternmask=mask, vendor="EDAX", **kw).index_pats(patsin=pats)[:2]
            if kind == "indexer without patDim":
                return ebsd_index.EBSDIndexer(patternmask=mask, vendor="EDAX", **kw).index_pats(patsin=pats)[:2]
            if kind == "index_pats, indexer without patDim":
                return ebsd_index.index_pats(patsin=pats, ebsd_indexer_obj=ebsd_index.EBSDIndexer(patternmask=mask, vendor="EDAX", **kw))
            if kind == "file":
                idx.up_file(up, pats)
                return ebsd_index.index_pats(filename=up, patternmask=mask, vendor="EDAX", **kw, **ikw)
            if kind == "distributed":
                r = dist.distributed(patsin=pats, ebsd_indexer_obj=ebsd_index.EBSDIndexer(patDim=SHAPE, patternmask=mask, vendor="EDAX", **kw), ncpu=2, chunksize=2)
                return r[0], r[1]
        for kind in ("index_pats", "index_pats reused", "indexer method", "indexer without patDim", "index_pats, indexer without patDim", "file", "distributed"):
            base = None
            for fname in ("zero", "noise", "inverse", "original"):
                pats = P if fname == "original" else np.clip(fill(P, mask, ffills[fname]), 0, 255)
                with idx.quiet():
                    ok, r = ck.call("mask:" + kind, run, kind, pats.astype(np.float32))
                if not ok:
                    break
                ck.case([mname, kind, fname], r[0]["quat"])
                if not refs:
                    refs.append(r)
                d = idx.same(r[0], refs[0][0], "results") or eq(r[1], refs[0][1])
                ck.ok(d is None, "mask:" + kind, "mask %s, %s, masked pixels filled with %s: %s" % (mname, kind, fname, d))

    ck.section("background: orders, subsets and containers")
    import h5py
    gy, gx = np.mgrid[0:40, 0:44]
    B = 20 + 0.25 * (P - 100) + 0.4 * gx + (150 * np.exp(-(gy - 18) ** 2 / 200.0 - (gx - 25) ** 2 / 280.0))
    B = np.clip(np.round(B), 0, 255).astype(np.float32)
    h5 = h5py.File(os.path.join(sc, "b.h5"), "w")
    h5["p"] = B.astype(np.uint16)

    def back(pats, **k):
        p = plan()
        p.collect_background(patsIn=pats, **k)
        return p.backgroundsub

    def bfile(pats, typ=16, **k):
        f = os.path.join(sc, "bg.up%d" % (typ // 8))
        idx.up_file(f, pats, typ)
        raw = open(f, "rb").read()
        p = plan()
        fo = ebsd_pattern.get_pattern_file_obj(f)
        p.collect_background(fileobj=fo, **k)
        ck.ok(open(f, "rb").read() == raw, "background:file-modified", "collect_background modified the file")
        return p.backgroundsub
    for k in range(1, 5):
        for sub in itertools.combinations(range(5), k) if core.THOROUGH else list(itertools.combinations(range(5), k))[::3]:
            if not ck.mine():
                continue
            ref = None
            perms = list(itertools.permutations(sub))
            for perm in perms if (core.THOROUGH and k < 4) else perms[:: max(1, len(perms) // 4)]:
                pats = B[list(perm)]
                keep = pats.copy()
                outs = {"array": lambda: back(pats), "uint8": lambda: back(pats.astype(np.uint8)), "uint16": lambda: back(pats.astype(np.uint16)),
                        "float64": lambda: back(pats.astype(float)), "nsample": lambda: back(pats, nsample=1000),
                        "even": lambda: back(pats, nsample=k, method="evenStride"), "file": lambda: bfile(pats), "file8": lambda: bfile(pats, 8),
                        "file nsample": lambda: bfile(pats, nsample=1000), "file even": lambda: bfile(pats, nsample=k, method="evenStride")}
                if k == 1:
                    outs["2-D"] = lambda: back(pats[0])
                for cname, fn in outs.items():
                    ck.case([list(perm), cname])
                    with idx.quiet():
                        ok, b = ck.call("background:" + cname, fn)
                    if not ok:
                        continue
                    if ref is None:
                        ref = b
                        ck.outcome(np.round(b))
                        ck.ok(b.shape == SHAPE and np.isfinite(b).all() and abs(b.mean()) < 1e-2 * np.abs(B).max(), "background:shape", "background of %s: shape %s mean %s" % (perm, b.shape, b.mean()))
                    scale = max(1.0, np.abs(ref).max())
                    ck.ok(b.shape == ref.shape and np.allclose(b, ref, atol=5e-3 * scale), "background:" + cname,
                          lambda: "background of patterns %s from %s differs from that of %s by %s" % (list(perm), cname, perms[0], np.abs(b - ref).max()))
                    ck.ok(np.array_equal(pats, keep), "background:input", "collect_background modified the patterns (%s)" % cname)
    for n, k in ((5, 2), (5, 3), (4, 2), (5, 1)):
        if not ck.mine():
            continue
        ck.case(["even", n, k])
        ok, a = ck.call("background:even-array", back, B[:n], nsample=k, method="evenStride")
        ok2, b = ck.call("background:even-file", bfile, B[:n], nsample=k, method="evenStride")
        if ok and ok2:
            ck.ok(np.allclose(a, b, atol=0.5), "background:even", "evenly spaced sample of %d of %d patterns: array and file differ by %s" % (k, n, np.abs(a - b).max()))

    ck.section("background subtraction is per pattern")
    for mask in (None, mk["disk"]):
        if not ck.mine():
            continue
        p = plan(mask)
        p.collect_background(patsIn=B)
        bg = p.backgroundsub
        kbg = bg.copy()
        p0 = plan(mask)
        for typ in (np.float32, np.uint8, np.uint16, np.float64):
            pats = B.astype(typ)
            keep = pats.copy()
            one = [p.find_bands(pats[i:i + 1]) for i in range(5)]
            for i in range(5):
                ck.case(["alone", typ.__name__, i], one[i]["aveloc"])
                want = p0.find_bands((pats[i].astype(float) - kbg)[None])
                d = eq(one[i], want)
                ck.ok(d is None, "background:value", "pattern %d (%s) with background differs from the pattern minus the background: %s" % (i, typ.__name__, d))
                d = eq(p.find_bands(pats[i])[0], one[i][0])
                ck.ok(d is None, "background:2d", "2-D pattern %d (%s) with background: %s" % (i, typ.__name__, d))
            for perm in list(itertools.permutations(range(5)))[:: 1 if core.THOROUGH else 17]:
                for chunk in (-1, 2, 3):
                    got = p.find_bands(pats[list(perm)], chunksize=chunk)
                    ck.case(["order", typ.__name__, list(perm), chunk])
                    for j, i in enumerate(perm):
                        d = eq(got[j], one[i][0])
                        ck.ok(d is None, "background:independent", "pattern %d at place %d of %s (chunk %d, %s): %s" % (i, j, perm, chunk, typ.__name__, d))
            ck.ok(np.array_equal(keep, pats) and np.array_equal(bg, kbg), "background:find-modified", "find_bands modified the patterns or the background")

    ck.section("background through index_pats")
    if not ck.mine():
        return
    idx.up_file(up, B)
    outs = {}
    for kind in ("array", "u16", "dataset", "file", "EBSDPatterns", "reversed"):
        def go():
            if kind == "file":
                return ebsd_index.index_pats(filename=up, backgroundSub=True, vendor="EDAX", **kw, **ikw)
            src = {"array": B.copy(), "u16": B.astype(np.uint16), "dataset": h5["p"], "reversed": B[::-1].copy(), "EBSDPatterns": None}[kind]
            if kind == "EBSDPatterns":
                src = ebsd_pattern.get_pattern_file_obj(up).read_data(convertToFloat=True)
            r = ebsd_index.index_pats(patsin=src, backgroundSub=True, vendor="EDAX", **kw, **ikw)
            ck.ok(np.array_equal(np.asarray(src.patterns if kind == "EBSDPatterns" else src, float), (B[::-1] if kind == "reversed" else B).astype(float)),
                  "index-background:modified", "index_pats(backgroundSub=True) modified the patterns (%s)" % kind)
            return r
        with idx.quiet():
            ok, r = ck.call("index-background:" + kind, go)
        if not ok:
            continue
        d, b = r
        if kind == "reversed":
            d, b = d[:, ::-1], b[::-1]
        ck.case(["index_pats", kind], d["quat"])
        outs[kind] = d
        if "array" in outs:
            x = outs["array"]
            bad = np.abs(np.abs((d["quat"] * x["quat"]).sum(axis=-1)) - 1) > 1e-4
            ck.ok(not (bad & (x["phase"] >= 0)).any() and np.array_equal(d["phase"], x["phase"]), "index-background:" + kind,
                  "indexing with background from %s differs from the array: quat %s %s %s" % (kind, np.argwhere(bad)[:1], d["quat"][bad][:1], x["quat"][bad][:1]))


core.main("C20", "exploration", "every mask of a family x every filling of the masked pixels x pixel type x way of giving the mask; every order and subset "
          "of a pattern pool x container for the background; distinct = distinct band positions/backgrounds", body, max_violations=12)

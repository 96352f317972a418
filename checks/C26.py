"""C26: what band detection reports is where the bands are.  Every straight bright line of a grid
of (angle, distance) over the half circle is put through the real band detection for a set of
detector shapes, Radon resolutions, edge trims, pattern masks, gains and offsets, and the strongest
band reported is compared with the line; several lines of distinct strength have to come out in
order; offset and gain of the pattern must not change any reported number."""
import itertools
import numpy as np
from vlib import core

GPU = False     # C27: the same lines on an OpenCL device, whose reported strengths are not free of the gain
GAINS = [(1., 0.), (1., -100.), (1., 60000.), (1000., 0.), (1e-3, 5.)]


def line(shape, th, rho, sig, amp=60.):
    h, w = shape
    y, x = np.mgrid[0:h, 0:w]
    x = x - (w - 1) / 2
    y = y - (h - 1) / 2
    t = np.radians(th)
    return amp * np.exp(-.5 * ((x * np.cos(t) + y * np.sin(t) - rho) / sig) ** 2)


def errors(loc, th, rho, R, d, nT):
    """Distance in Radon cells of reported locations from the true ones (theta wraps: rho changes sign)."""
    er = loc[:, 0] - (rho + R - d) / d
    et = loc[:, 1] - th / (180 / nT)
    fl = np.abs(et) > nT / 2
    er = np.where(fl, loc[:, 0] - (-rho + R - d) / d, er)
    et = np.where(fl, et - np.sign(et) * nT, et)
    return er, et


def limit(shape, R, d, frac):
    # outside of the trimmed edge rows the line may not be a peak; with no trim, keep to lines that cross the pattern
    if 0 < frac < 1:
        return R * (1 - 2 * frac) - 2 * d - 1.5
    return .5 * min(shape) * .85 - (frac * d if frac >= 1 else 0)


def detector(shape, nT, nR, frac, mask=None, nBands=5):
    from pyebsdindex import band_detect
    return band_detect.BandDetect(patDim=np.array(shape), nTheta=nT, nRho=nR, rhoMaskFrac=frac, nBands=nBands,
                                  patternmask=mask)


def single(ck, shape, nT, nR, frac, dth, nrho, gains):
    tag = "%dx%d:%dx%d:%g" % (shape + (nT, nR, frac))
    ok, bd = ck.call("line", detector, shape, nT, nR, frac)
    if not ok:
        return
    R = float(bd.rhoMax)
    d = 2 * R / nR
    sig = max(1.2, .9 * d)
    lim = limit(shape, R, d, frac)
    grid = np.array(list(itertools.product(np.arange(0, 180, dth), np.linspace(-lim, lim, nrho))))
    L = np.array([line(shape, t, r, sig) for t, r in grid])
    ref = None
    for gain, off in gains:
        k = "g%g:o%g" % (gain, off)
        ok, b = ck.call("line:" + k, bd.find_bands, (gain * (L + 100.) + off).astype(np.float32))
        if not ok:
            continue
        er, et = errors(b['aveloc'][:, 0].astype(float), grid[:, 0], grid[:, 1], R, d, nT)
        bad = misplaced(er, et, nT)
        case = [list(shape), nT, nR, frac, gain, off]
        for i in range(len(grid)):
            ck.state(case + grid[i].tolist())
        ck.transitions += len(grid)
        ck.traces += len(grid)
        ck.case(case, [len(bad), round(float(np.abs(er).max()), 3), round(float(np.abs(et).max()), 3)])
        ck.ok(bool(np.all(b['valid'][:, 0])), "line:%s:%s:valid" % (tag, k), "%s: lines without any band" % case)
        ck.ok(len(bad) == 0, "line:%s:%s:place" % (tag, k),
              "detector %s pixels, %d x %d Radon cells, trim %g, gain %g, offset %g: strongest band of %d of %d single-line patterns "
              "is not the line, e.g. (angle, distance), error in distance cells, in angle cells: %s"
              % (shape, nT, nR, frac, gain, off, len(bad), len(grid),
                 [(grid[i].tolist(), float(er[i]), float(et[i])) for i in bad[:3]]))
        rms = [float((er ** 2).mean() ** .5), float((et ** 2).mean() ** .5)]
        ck.ok(rms[0] < .25 and rms[1] < .8, "line:%s:%s:rms" % (tag, k), "%s: root mean square error %s Radon cells" % (case, rms))
        mean = [float(er.mean()), float(et.mean())]
        ck.ok(abs(mean[0]) < .06 and abs(mean[1]) < .12, "line:%s:%s:mean" % (tag, k), "%s: mean error %s Radon cells" % (case, mean))
        if 0 < frac < 1:
            row = b['maxloc'][..., 0][b['valid'] > 0]
            trim = max(1, int(nR * frac + 1e-6))
            ck.ok(row.min() >= trim and row.max() <= nR - 1 - trim, "line:%s:%s:trimmed" % (tag, k),
                  "%s: bands in rows %g to %g, but %d rows are trimmed" % (case, row.min(), row.max(), trim))
        if ref is None:
            ref = b
        else:
            # 32-bit patterns: with an offset of 60000 grey levels are rounded to 1/256
            drift = float(np.abs(b['aveloc'][:, 0].astype(float) - ref['aveloc'][:, 0]).max())
            ck.ok(drift < (.5 if off > 1000 else .02), "line:%s:%s:drift" % (tag, k),
                  "%s: gain and offset move the strongest band by %g cells" % (case, drift))


def misplaced(er, et, nT):
    return np.nonzero((np.abs(er) > 1.) | (np.abs(et) > max(2.75, 3.5 / (180 / nT))))[0]


def body(ck):
    T = core.THOROUGH
    shapes = [(60, 60), (48, 64), (64, 48), (40, 100)] + ([(80, 80), (90, 30), (33, 47), (120, 96)] if T else [])
    resos = [(180, 90), (90, 60), (180, 40), (120, 120)] + ([(60, 60), (240, 100), (360, 90)] if T else [])
    fracs = [.1, .15, .3, 0, -.1, 1, 4]
    dth, nrho = (1.3, 31) if T else (5.3, 9)
    jobs = []
    for shape, (nT, nR), frac in itertools.product(shapes, resos, fracs):
        full = T or (nT, nR) in ((180, 90), (90, 60))
        jobs.append(("single lines", single, (shape, nT, nR, frac, dth, nrho, GAINS if full else GAINS[:1] + GAINS[2:3])))
    mshapes = [(60, 60), (48, 64)] + ([(64, 48), (40, 100)] if T else [])
    for shape, (nT, nR), frac in itertools.product(mshapes, [(180, 90), (90, 60)], [.1, .15, .3]):
        jobs.append(("masks", masks, (shape, nT, nR, frac)))
    for shape, frac in itertools.product(mshapes, (.1, .15, .3)):
        jobs.append(("lines in the trimmed part", trimmed, (shape, frac)))
    for frac in (.1, .15):
        jobs.append(("several lines", several, (frac,)))
    for frac in (.1, .15, 0):
        jobs.append(("gain and offset of patterns", offsets, (frac,)))
    jobs.sort(key=lambda j: j[0] != "gain and offset of patterns")

    def do(k):
        name, fn, a = jobs[k]
        ck.section(name)
        fn(ck, *a)
    ck.fanout(len(jobs), do)


def pmasks(shape):
    h, w = shape
    y, x = np.mgrid[0:h, 0:w]
    x = x - (w - 1) / 2
    y = y - (h - 1) / 2
    r = min(shape) / 2
    out = {"disk": x * x + y * y < r * r, "small disk": x * x + y * y < (.8 * r) ** 2}
    m = np.zeros(shape, bool)
    m[5:-4, 7:-6] = True
    out["rectangle"] = m
    m = np.ones(shape, bool)
    m[:, -12:] = False
    out["right side missing"] = m
    m = np.ones(shape, bool)
    m[:9, :9] = False
    out["corner missing"] = m
    return out


def masks(ck, shape, nT, nR, frac):
    for name, m in pmasks(shape).items():
        ok, bd = ck.call("mask", detector, shape, nT, nR, frac, m.astype(np.uint8))
        if not ok:
            continue
        R = float(bd.rhoMax)
        d = 2 * R / nR
        sig = max(1.2, .9 * d)
        lim = limit(shape, R, d, frac)
        grid, pats = [], []
        for t in np.arange(0, 180, 2.9 if core.THOROUGH else 7.3):
            for r in np.linspace(-lim, lim, 13 if core.THOROUGH else 7):
                L = line(shape, t, r, sig)
                # a line of which a good part, well inside, is seen through the mask
                if (L[m] > 30).sum() >= min(shape) * sig:
                    grid.append((t, r))
                    pats.append(L)
        grid = np.array(grid)
        pats = np.array(pats)
        # what is outside the mask must be irrelevant
        fills = {"as is": pats + 100., "zero outside": np.where(m, pats + 100., 0), "bright outside": np.where(m, pats + 100., 5000.)}
        ref = None
        for fn, p in fills.items():
            case = [list(shape), nT, nR, frac, name, fn]
            tag = "mask:%dx%d:%dx%d:%g:%s:%s" % (shape + (nT, nR, frac, name, fn))
            ok, b = ck.call("mask", bd.find_bands, p.astype(np.float32))
            if not ok:
                continue
            for i in range(len(grid)):
                ck.state(case + grid[i].tolist())
            ck.transitions += len(grid)
            er, et = errors(b['aveloc'][:, 0].astype(float), grid[:, 0], grid[:, 1], R, d, nT)
            bad = misplaced(er, et, nT)
            ck.case(case, [len(bad), round(float(np.abs(er).max()), 3), round(float(np.abs(et).max()), 3)])
            ck.ok(len(bad) == 0, tag + ":place", "%s: %d of %d lines misplaced, e.g. %s"
                  % (case, len(bad), len(grid), [(grid[i].tolist(), float(er[i]), float(et[i])) for i in bad[:3]]))
            if ref is None:
                ref = b
            else:
                ck.ok(all(np.allclose(b[f], ref[f], rtol=1e-4, atol=1e-4) for f in ("max", "avemax", "aveloc", "maxloc", "valid")),
                      tag + ":outside", "%s: pixels outside the mask change the bands" % case)


def trimmed(ck, shape, frac):
    """Lines outside of the trimmed distance are not reported there, however strong."""
    nT, nR = 180, 90
    ok, bd = ck.call("trimmed", detector, shape, nT, nR, frac)
    if not ok:
        return
    R = float(bd.rhoMax)
    d = 2 * R / nR
    grid = list(itertools.product(np.arange(0, 180, 7.3), (-1, 1), np.linspace(R * (1 - 2 * frac) + 2 * d, R, 4)))
    ok, b = ck.call("trimmed", bd.find_bands, np.array([line(shape, t, s * r, 1.3, 600.) + 20 for t, s, r in grid], np.float32))
    if not ok:
        return
    trim = max(1, int(nR * frac + 1e-6))
    for g, q in zip(grid, b):
        case = [list(shape), frac] + [float(x) for x in g]
        ck.state(case)
        row = q['maxloc'][:, 0][q['valid'] > 0]
        ck.case(case, len(row))
        ck.ok(np.all(row >= trim) and np.all(row <= nR - 1 - trim), "trimmed:%g" % frac,
              "%s: bands in rows %s, but %d rows are trimmed on either side" % (case, row.tolist(), trim))


def several(ck, frac):
    """Top-k order: up to four lines whose strengths differ by a clear factor, in every order."""
    shape, nT, nR = (60, 60), 180, 90
    places = [(10., 8.), (55., -12.), (100., 3.), (145., -5.)]
    if core.THOROUGH:
        sets = [places, [(0., 0.), (45., 0.), (90., 0.), (135., 0.)], [(0., 15.), (40., 15.), (90., -15.), (130., -15.)]]
    else:
        sets = [places, [(0., 0.), (45., 0.), (90., 0.), (135., 0.)]]
    bd = detector(shape, nT, nR, frac, nBands=6)
    R = float(bd.rhoMax)
    d = 2 * R / nR
    for si, s in enumerate(sets):
        perms = list(itertools.permutations(range(4)))
        for k in (2, 3, 4):
            pats, order = [], []
            for p in perms:
                sel = p[:k]
                pats.append(sum(line(shape, *s[i], sig=1.3, amp=100. * .62 ** j) for j, i in enumerate(sel)) + 50.)
                order.append(sel)
            ok, b = ck.call("several", bd.find_bands, np.array(pats, np.float32))
            if not ok:
                continue
            for q, sel in enumerate(order):
                ck.state([frac, si, list(sel)])
                want = np.array([s[i] for i in sel])
                er, et = errors(b['aveloc'][q, :k].astype(float), want[:, 0], want[:, 1], R, d, nT)
                good = bool(np.all(np.abs(er) < 1.2) and np.all(np.abs(et) < 3))
                ck.case([frac, si, list(sel)], [round(float(np.abs(er).max()), 2), round(float(np.abs(et).max()), 2)])
                ck.ok(good, "several:%g:%d:%s" % (frac, si, "".join(map(str, sel))),
                      "lines %s, strongest first: errors in Radon cells %s %s" % (want.tolist(), er.round(2).tolist(), et.round(2).tolist()))
                mx = b['max'][q][b['valid'][q] > 0]
                ck.ok(bool(np.all(np.diff(mx) <= 0)), "several:order", "bands are not in order of strength: %s" % mx.tolist())


def offsets(ck, frac):
    """Gain and offset change nothing that is reported for a pattern."""
    from vlib import simpat as S
    from pyebsdindex import ebsd_index
    pc = (0.47, 0.67, 0.63)
    rots = [S.q2m(S.axang([1, 2 + .3 * k, 3 - k], 20 + 23 * k)) for k in range(16 if core.THOROUGH else 8)]
    shape = (60, 60)
    P = np.array([S.pattern(r, shape, pc) for r in rots]).astype(np.float64)
    P = (P - P.min()) / (P.max() - P.min()) * 200
    for name, m in [("none", None)] + list(pmasks(shape).items())[:3]:
        ok, ix = ck.call("indexer", ebsd_index.EBSDIndexer, phaselist=["FCC"], vendor="EDAX", PC=pc, patDim=np.array(shape),
                         patternmask=None if m is None else m.astype(np.uint8), rhoMaskFrac=frac)
        if not ok:
            continue
        ref = None
        for gain, off in [(1, 0), (1, 100), (1, -100), (.01, 0), (100, 0), (1, 4000)]:
            if GPU and off > 1000:
                continue
            case = [frac, name, gain, off]
            ok, r = ck.call("index", ix.index_pats, (P * gain + off).astype(np.float32))
            if not ok:
                continue
            ck.state(case)
            d, b = r[0][-1], r[1]
            # off the simulated pattern the fit is judged in C05; here: the same answer
            ck.case(case, [int(x) for x in d["nmatch"]])
            if ref is None:
                ref = (d, b)
                # bands of almost the same strength may change places by rounding
                clear = np.all(np.abs(np.diff(b["max"], axis=1)) > 2e-3 * b["max"][:, :1], axis=1)
                ck.extra["patterns compared"] = ck.extra.get("patterns compared", 0) + int(clear.sum())
                if m is None or name == "disk":
                    ck.ok(bool(np.all(d["nmatch"] >= 5) and np.all(d["fit"] < 2)), "offset:%g:%s:solved" % (frac, name),
                          "simulated patterns are not indexed: matches %s fit %s" % (d["nmatch"].tolist(), d["fit"].tolist()))
                continue
            d0, b0, d, b = ref[0][clear], ref[1][clear], d[clear], b[clear]
            tol = 2e-3 if abs(off) < 1000 else 2e-2
            ck.ok(bool(np.allclose(b["aveloc"], b0["aveloc"], atol=5 * tol) and np.array_equal(b["maxloc"], b0["maxloc"])),
                  "offset:%g:%s:%g:%g:bands" % (frac, name, gain, off),
                  "trim %g, mask %s: gain %g and offset %g move bands by up to %g cells"
                  % (frac, name, gain, off, float(np.abs(b["aveloc"] - b0["aveloc"]).max())))
            ck.ok(bool(np.array_equal(d["nmatch"], d0["nmatch"]) and np.allclose(d["fit"], d0["fit"], atol=tol)
                       and np.allclose(d["cm"], d0["cm"], atol=tol)),
                  "offset:%g:%s:%g:%g:record" % (frac, name, gain, off),
                  "trim %g, mask %s: gain %g and offset %g change the record: matches %s / %s, fit %s / %s"
                  % (frac, name, gain, off, d0["nmatch"].tolist(), d["nmatch"].tolist(), d0["fit"].tolist(), d["fit"].tolist()))
            ck.ok(bool((GPU and gain != 1 or np.allclose(d["pq"], d0["pq"], rtol=tol)) and (gain != 1 or np.allclose(d["iq"], d0["iq"], rtol=tol))),
                  "offset:%g:%s:%g:%g:quality" % (frac, name, gain, off),
                  "trim %g, mask %s: gain %g and offset %g: quality %s %s, was %s %s"
                  % (frac, name, gain, off, d["pq"].tolist(), d["iq"].tolist(), d0["pq"].tolist(), d0["iq"].tolist()))


if __name__ == "__main__":
    core.main("C26", "exploration",
              "every line of an (angle, distance) grid x detector shapes x Radon resolutions x trims x masks x gains and offsets; "
              "every order of up to four lines of distinct strength", body, max_violations=8)

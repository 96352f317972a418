"""C12: NLPAR on all small scan shapes x search radii x row chunkings x settings against a
double precision reference made point by point from the definition."""
import itertools, os
import numpy as np
from vlib import core, patfiles as pf, nlparref as ref
from vlib.idx import quiet
import numba
from pyebsdindex import ebsd_pattern as ep
from pyebsdindex.nlpar_cpu import NLPAR


def data(nr, nc, h=4, w=5, salt=0, top=True, dtype="f4"):
    """Two grains with noise; with `top` every row holds the largest value (so that the
    saturation level is the same in every chunk of rows)."""
    k = np.arange(h * w).reshape(h, w)
    base = [80 + 60 * np.sin(k * 0.7), 110 + 50 * np.cos(k * 1.1)]
    P = np.zeros((nr * nc, h, w))
    x = 12345 + salt
    for i in range(nr * nc):
        r, c = divmod(i, nc)
        for q in range(h * w):
            x = (x * 1103515245 + 12345) % 2 ** 31
            P[i].ravel()[q] = base[(c + r // 2) // 2 % 2].ravel()[q] + ((x >> 16) % 1000) / 1000.0 * (8 + 3 * (c % 3))
        if top and c == 0:
            P[i, 1, 2] = 240.0
            P[i, 2, 2] = 239.5  # near the top: beyond the level of the noise estimate, and of the averaging
    return P.astype(dtype) if dtype[0] == "f" else np.floor(P).astype(dtype)


class Env:
    def __init__(self, ck, d):
        self.ck, self.d = ck, d
        self.files = {}

    def file(self, nr, nc, kind="edax", top=True, dtype="f4", salt=0, pats=None):
        key = (nr, nc, kind, top, dtype, salt, None if pats is None else pats.tobytes())
        if key not in self.files:
            P = data(nr, nc, top=top, dtype=dtype, salt=salt) if pats is None else pats
            s = pf.Scan(P, nr, nc)
            ext = {"edax": "oh5", "up1": "up1", "up2": "up2", "ebsp": "ebsp", "pat": "pat", "bruker": "h5", "kikuchipy": "h5", "oina": "h5oina"}[kind]
            p = os.path.join(self.d, "f%d.%s" % (len(self.files), ext))
            if kind == "ebsp":
                s.xy = pf.grid(nr, nc, .5, -.25)
                pf.ebsp_write(p, s, 2, True)
            elif kind == "pat":
                pf.tf_write(p, s)
            elif kind in ("up1", "up2"):
                pf.up_write(p, s, 3)
            else:
                {"edax": pf.oh5, "bruker": pf.bruker, "kikuchipy": pf.kikuchipy, "oina": pf.oina}[kind](p, {"1": s})
            self.files[key] = (p, P, ext)
        return self.files[key]

    def run(self, p, ext, obj=None, **k):
        out = os.path.join(self.d, "out." + ext)
        if os.path.exists(out):
            os.remove(out)
        n = obj if obj is not None else NLPAR(p)
        with quiet():
            n.calcnlpar(fileout=out, verbose=0, **k)
            r = ep.get_pattern_file_obj(out).read_data(patStartCount=[0, -1], returnArrayOnly=True)[0]
        return n, r


MASKS = {}


def body(ck):
    d = os.path.join(core.SCRATCH, "c12")
    os.makedirs(d)
    E = Env(ck, d)
    mask = {True: ref.automask(4, 5), False: np.ones((4, 5), np.uint8)}

    def compare(got, exp, key, what, tol=2e-4):
        ck.outcome(np.round(exp, 2))
        if not ck.ok(got.shape == exp.shape, key + ":shape", lambda: "%s: shape %s, should be %s" % (what, got.shape, exp.shape)):
            return
        bad = np.abs(got.astype(np.float64) - exp) > tol * (1 + np.abs(exp))
        ck.ok(not bad.any(), key, lambda: "%s: wrong at scan point(s) %s, e.g. %s instead of %s" % (
            what, np.nonzero(bad.any(axis=(1, 2)))[0].tolist(), got[bad][:3].tolist(), exp[bad][:3].tolist()))

    numba.set_num_threads(2)
    shapes = [(r, c) for r in range(1, 6) for c in range(1, 6)]
    if not core.THOROUGH:
        shapes = [s for s in shapes if s in ((1, 1), (1, 2), (1, 5), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (3, 5), (4, 1), (4, 4), (5, 1), (5, 2), (5, 4))]
    ck.section("noise estimate")
    for (nr, nc), sat, auto, nn in itertools.product(shapes, (True, False), (True, False), (1, 2)):
        p, P, ext = E.file(nr, nc)
        exp = ref.sigma(P, nr, nc, mask[auto], sat, nn)
        for ch in [0] + list(range(1, nr + 2)):
            what = "calcsigma of %dx%d, chunksize %d, reach %d, saturation_protect %s, automask %s" % (nr, nc, ch, nn, sat, auto)
            ck.case({"scan": [nr, nc], "chunk": ch, "nn": nn, "saturation": sat, "automask": auto, "what": "sigma"})
            with quiet():
                ok, s = ck.call("sigma", lambda: NLPAR(p).calcsigma(chunksize=ch, nn=nn, saturation_protect=sat, automask=auto))
            if ok:
                ck.outcome(np.round(exp, 3))
                ck.ok(np.shape(s) == exp.shape and np.allclose(s, exp, rtol=1e-4), "sigma", lambda: "%s: %s, should be %s" % (what, np.asarray(s).tolist(), exp.tolist()))
    ck.section("averages")
    sets = [dict(lam=0.7, dthresh=0.0), dict(lam=2.0, dthresh=0.5), dict(lam=0.7, dthresh=0.0, saturation_protect=False), dict(lam=1.2, dthresh=0.1, automask=False),
            dict(lam=0.9, dthresh=0.0, diff_offset=0.5), dict(lam=0.9, dthresh=0.0, sigma="scalar"), dict(lam=0.9, dthresh=0.0, sigma="map"), dict(lam=0.7, dthresh=0.0, reset_sigma=True)]
    for (nr, nc), sr in itertools.product(shapes, (0, 1, 2, 3)):
        p, P, ext = E.file(nr, nc)
        for st in sets:
            k = dict(st)
            sg = k.pop("sigma", None)
            auto, sat = k.get("automask", True), k.get("saturation_protect", True)
            est = ref.sigma(P, nr, nc, mask[auto], sat)
            given = None
            if sg == "scalar":
                given, est = 3.5, np.full((nr, nc), 3.5)
            elif sg == "map":
                est = 2.0 + 0.25 * np.arange(nr * nc).reshape(nr, nc)
                given = est.astype(np.float32)
            exp = ref.nlpar(P, nr, nc, k["lam"], sr, k["dthresh"], est, mask[auto], sat, k.get("diff_offset", 0.0))
            for ch in [0] + list(range(1, nr + 1)):
                what = "scan %dx%d, search radius %d, chunksize %d, %s" % (nr, nc, sr, ch, st)
                ck.case({"scan": [nr, nc], "searchradius": sr, "chunk": ch, "settings": st})
                n = NLPAR(p)
                n.sigma = given
                ok, r = ck.call("average", lambda: E.run(p, ext, obj=n, searchradius=sr, chunksize=ch, **k))
                if not ok:
                    continue
                compare(r[1], exp, "average" + ("" if "diff_offset" not in st else ":offset"), what)
                if sr == 0:
                    compare(r[1], P.astype(np.float64), "radius 0", what, 1e-7)
                s = np.asarray(r[0].sigma, dtype=float)
                ck.ok(s.shape == (nr, nc) and np.allclose(s, est, rtol=1e-4), "average:sigma", lambda: "%s: the noise map kept is %s, should be %s" % (what, s.tolist(), est.tolist()))
                lo, hi = P.min(axis=0), P.max(axis=0)
                ck.ok((r[1] >= lo - 1e-3).all() and (r[1] <= hi + 1e-3).all(), "average:range", lambda: what + ": outside of the range of the patterns")
    ck.section("threads")
    for (nr, nc), off in itertools.product(((5, 5), (3, 5)), (0.0, 0.5)):
        p, P, ext = E.file(nr, nc)
        est = ref.sigma(P, nr, nc, mask[True], True)
        exp = ref.nlpar(P, nr, nc, 0.9, 1, 0.0, est, mask[True], True, off)
        for th in range(1, numba.config.NUMBA_NUM_THREADS + 1):
            for ch in (1, 2, 5):
                numba.set_num_threads(th)
                ck.case({"scan": [nr, nc], "threads": th, "chunk": ch, "diff_offset": off})
                ok, r = ck.call("threads", lambda: E.run(p, ext, searchradius=1, lam=0.9, dthresh=0.0, chunksize=ch, diff_offset=off))
                if ok:
                    compare(r[1], exp, "threads" + (":offset" if off else ""), "scan %dx%d with %d threads, chunksize %d, diff_offset %s" % (nr, nc, th, ch, off))
                ck.ok(numba.get_num_threads() == th, "threads:setting", lambda: "the number of threads is %d after the run, was %d" % (numba.get_num_threads(), th))
    numba.set_num_threads(2)
    ck.section("formats")
    for kind, dt in (("up1", "u1"), ("up2", "u2"), ("ebsp", "u1"), ("ebsp", "u2"), ("pat", "u2"), ("edax", "u1"), ("edax", "u2"), ("edax", "f4"), ("bruker", "u1"), ("kikuchipy", "u2"), ("oina", "u1")):
        for (nr, nc) in ((3, 4), (1, 3), (4, 1)):
            p, P, ext = E.file(nr, nc, kind, dtype=dt)
            est = ref.sigma(P, nr, nc, mask[True], True)
            for sr, ch in itertools.product((0, 1, 2), (0, 1, 2)):
                exp = ref.nlpar(P, nr, nc, 0.8, sr, 0.0, est, mask[True], True)
                ck.case({"format": kind, "type": dt, "scan": [nr, nc], "searchradius": sr, "chunk": ch})
                ok, r = ck.call("format:" + kind, lambda: E.run(p, ext, searchradius=sr, chunksize=ch, lam=0.8, dthresh=0.0))
                if ok:
                    what = "%s %s scan %dx%d, search radius %d, chunksize %d" % (kind, dt, nr, nc, sr, ch)
                    if dt == "f4":
                        compare(r[1], exp, "format:" + kind, what)
                    else:  # whole numbers: within rounding
                        ck.ok(r[1].dtype == P.dtype, "format:type", lambda: "%s: written as %s" % (what, r[1].dtype))
                        bad = np.abs(r[1].astype(float) - exp) > 1.0 + 1e-3
                        ck.ok(r[1].shape == exp.shape and not bad.any(), "format:" + kind, lambda: "%s: wrong at scan point(s) %s" % (what, np.nonzero(bad.any(axis=(1, 2)))[0].tolist()))
                        if sr == 0:
                            ck.ok((r[1] == P).all(), "radius 0", lambda: what + ": the patterns changed")
    ck.section("uniform scans")
    for kind, dt in (("up1", "u1"), ("up2", "u2")):
        for (nr, nc), sr in itertools.product([(3, 3), (2, 5), (1, 4), (5, 2)], (1, 2)):
            for val in (1, 2, 3) if not core.THOROUGH else range(1, 12):
                one = ((np.arange(20) * 37 * val + val) % 251 + 1).reshape(4, 5).astype(dt)
                P = np.repeat(one[None], nr * nc, 0)
                p, P, ext = E.file(nr, nc, kind, pats=P)
                for sg, off in itertools.product((None, 2.0), (0.0, 0.3)):
                    ck.case({"uniform": val, "type": dt, "scan": [nr, nc], "searchradius": sr, "sigma": sg, "offset": off})
                    n = NLPAR(p)
                    n.sigma = sg
                    ok, r = ck.call("uniform", lambda: E.run(p, ext, obj=n, searchradius=sr, lam=0.8, dthresh=0.0, chunksize=2, diff_offset=off))
                    if ok:
                        ck.ok((r[1] == P).all(), "uniform", lambda: "uniform scan %dx%d of %s, search radius %d: %s becomes %s" % (nr, nc, dt, sr, P[r[1] != P][:3].tolist(), r[1][r[1] != P][:3].tolist()))
    ck.section("rescaled and background corrected")
    for kind, dt in (("up1", "u1"), ("up2", "u2"), ("edax", "u1"), ("edax", "f4")):
        for (nr, nc), sr, ch in itertools.product(((3, 4), (2, 2)), (0, 1, 2), (0, 1)):
            p, P, ext = E.file(nr, nc, kind, dtype=dt)
            est = ref.sigma(P, nr, nc, mask[True], True)
            exp = ref.nlpar(P, nr, nc, 0.8, sr, 0.0, est, mask[True], True)
            if dt != "f4":
                lo, hi = exp.min(axis=(1, 2), keepdims=True), exp.max(axis=(1, 2), keepdims=True)
                exp = (exp - lo) / (hi - lo) * np.iinfo(dt).max
            ck.case({"rescale": True, "type": dt, "scan": [nr, nc], "searchradius": sr, "chunk": ch})
            ok, r = ck.call("rescale", lambda: E.run(p, ext, searchradius=sr, chunksize=ch, lam=0.8, dthresh=0.0, rescale=True))
            if ok:
                tol = 1.0 + (0 if dt == "f4" else np.iinfo(dt).max * 2e-5)
                bad = np.abs(r[1].astype(float) - exp) > tol
                ck.ok(not bad.any(), "rescale", lambda: "%s %s scan %dx%d radius %d chunk %d: rescaled patterns wrong at %s" % (kind, dt, nr, nc, sr, ch, np.nonzero(bad.any(axis=(1, 2)))[0].tolist()))
    ck.assumptions += ["row chunks see the same saturation level (the largest value of the scan occurs in every row) when saturation protection is on: the level is by design that of the chunk",
                       "background subtraction (a fit to the mean of a chunk) is not compared"]


core.main("C12", "exploration", "a behaviour = one NLPAR run: scan shape x radius x chunk size x settings, compared point by point with the reference", body)

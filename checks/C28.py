"""C28: NLPAR on an OpenCL device.  The device's kernels, compiled from the tree by clang as OpenCL C,
run on the CPU under a stand-in for pyopencl; ray is replaced by the deterministic stand-in of C01.
Scan shapes x radii x settings x device memories (tiles) x device freedoms x worker schedules are
enumerated and compared with a double precision reference made point by point from the definition;
every load and store of the kernels is recorded to show that no two work items interfere."""
import contextlib, io, itertools, os
from vlib import core, fakecl, dist, fakeray, explore
fakecl.install(devices=((1 << 28, False),))
import numpy as np
from vlib import patfiles as pf, nlparref as ref
from vlib.idx import quiet
from pyebsdindex import ebsd_pattern as ep
from checks.C27 import knobs

H, W = 4, 5


def data(nr, nc, h=H, w=W, salt=0, dtype="f4", top=True, low=0.0, blank=()):
    """Two grains with noise; with `top` every pattern holds the largest value (and one beyond the
    saturation level), so that the level is the same in every tile."""
    k = np.arange(h * w)
    base = [80 + 60 * np.sin(k * 0.7), 110 + 50 * np.cos(k * 1.1)]
    P = np.zeros((nr * nc, h * w))
    x = 12345 + salt
    for i in range(nr * nc):
        r, c = divmod(i, nc)
        for q in range(h * w):
            x = (x * 1103515245 + 12345) % 2 ** 31
            P[i, q] = base[(c + r // 2) // 2 % 2][q] + ((x >> 16) % 1000) / 1000.0 * (8 + 3 * (c % 3))
        if top:
            P[i, w + 2] = 240.0
            P[i, 2 * w + 2] = 239.5
            P[i, 0] = 0.0
    P = P.reshape(-1, h, w) + low
    for i, v in blank:
        P[i] = v
    return P.astype(dtype) if dtype[0] == "f" else np.floor(P).astype(dtype)


EXT = {"edax": "oh5", "up1": "up1", "up2": "up2", "bruker": "h5"}


class Env:
    def __init__(self, d):
        self.d, self.files, self.refs = d, {}, {}
        os.makedirs(d, exist_ok=True)

    def file(self, nr, nc, kind="edax", **k):
        key = (nr, nc, kind) + tuple(sorted(k.items()))
        if key not in self.files:
            P = data(nr, nc, **k)
            s = pf.Scan(P, nr, nc)
            p = os.path.join(self.d, "f%d.%s" % (len(self.files), EXT[kind]))
            if kind in ("up1", "up2"):
                pf.up_write(p, s, 3)
            else:
                {"edax": pf.oh5, "bruker": pf.bruker}[kind](p, {"1": s})
            self.files[key] = (p, P, EXT[kind], key)
        return self.files[key]

    def sigma(self, f, nr, nc, auto=True, sat=True):
        key = ("sigma", f[3], auto, sat)
        if key not in self.refs:
            self.refs[key] = ref.sigma(f[1], nr, nc, mask(f[1], auto), sat)
        return self.refs[key]

    def average(self, f, nr, nc, lam, sr, dthresh=0.0, auto=True, sat=True, off=0.0, sig=None):
        key = ("avg", f[3], lam, sr, dthresh, auto, sat, off, None if sig is None else np.asarray(sig).tobytes())
        if key not in self.refs:
            s = self.sigma(f, nr, nc, auto, sat) if sig is None else np.broadcast_to(np.asarray(sig, float), (nr, nc))
            self.refs[key] = ref.nlpar(f[1], nr, nc, lam, sr, dthresh, s, mask(f[1], auto), sat, off, window=ref.mirrored, level=.9961)
        return self.refs[key]


def mask(P, auto):
    return ref.automask(*P.shape[1:]) if auto else np.ones(P.shape[1:], np.uint8)


def make(p, ray=False, mem=1 << 28, unified=False):
    """An NLPAR object and the device it sees."""
    from pyebsdindex.opencl import nlpar_cl, nlpar_clray
    fakecl.PLATFORMS[:] = [fakecl.Platform([fakecl.Device(mem, unified)])]
    return (nlpar_clray if ray else nlpar_cl).NLPAR(p)


class NoMemo(dict):
    def __contains__(self, k):
        return False

    def __setitem__(self, k, v):
        pass


class Sched(dist.Sched):
    """Worker schedules: which of the running tiles are ready at each poll; some tiles fail."""

    def fault(self, t):
        return ("raise" if self.ch.choose("fault", 2) else None) if self.faults else None


def session(ch=None, faults=False):
    fakeray.CUR = fakeray.Session(Sched(ch or dist.Plain(), faults), NoMemo(), 4000)


def run(E, n, ext, **k):
    out = os.path.join(E.d, "out." + ext)
    if os.path.exists(out):
        os.remove(out)
    before = os.environ.get("CUDA_VISIBLE_DEVICES")
    if fakeray.CUR is None:
        session()
    try:
        with quiet():
            n.calcnlpar(fileout=out, verbose=0, **k)
            return ep.get_pattern_file_obj(out).read_data(patStartCount=[0, -1], returnArrayOnly=True)[0]
    finally:
        if before is None:
            os.environ.pop("CUDA_VISIBLE_DEVICES", None)


def compare(ck, got, exp, key, what, tol=2e-4, step=0.0):
    """step: how coarse the numbers of the file are."""
    ck.outcome(np.round(exp, 2))
    if not ck.ok(got.shape == exp.shape, key + ":shape", lambda: "%s: shape %s, should be %s" % (what, got.shape, exp.shape)):
        return
    bad = ~(np.abs(got.astype(np.float64) - exp) <= step + tol * (1 + np.abs(exp)))
    ck.ok(not bad.any(), key, lambda: "%s: wrong at scan point(s) %s, e.g. %s instead of %s" % (
        what, np.nonzero(bad.any(axis=(1, 2)))[0].tolist(), got[bad][:3].tolist(), exp[bad][:3].tolist()))


SETS = [dict(lam=0.7), dict(lam=2.0, dthresh=0.5), dict(lam=0.7, saturation_protect=False), dict(lam=1.2, dthresh=0.1, automask=False),
        dict(lam=0.9, diff_offset=0.5), dict(lam=0.9, sigma="scalar"), dict(lam=0.9, sigma="map"), dict(lam=0.7, reset_sigma=True)]


def averages(ck, E, nr, nc):
    f = E.file(nr, nc)
    for st, sr, ray in itertools.product(SETS, (0, 1, 2, 3), (False, True)):
        st = dict(st)
        sig = {"scalar": 6.5, "map": 4.0 + np.arange(nr * nc).reshape(nr, nc) * .25, None: None}[st.pop("sigma", None)]
        exp = E.average(f, nr, nc, st["lam"], sr, st.get("dthresh", 0.0), st.get("automask", True), st.get("saturation_protect", True), st.get("diff_offset", 0.0), sig)
        what = "%dx%d, radius %d, %s%s, %s" % (nr, nc, sr, st, "" if sig is None else ", noise given", "workers" if ray else "serial")
        ck.case({"scan": [nr, nc], "radius": sr, "settings": str(st), "noise": np.size(sig) if sig is not None else 0, "ray": ray})
        n = make(f[0], ray)
        if sig is not None:
            n.sigma = sig
        if st.get("reset_sigma"):
            n.sigma = np.full((nr, nc), 50.0, np.float32)
        session()
        ok, got = ck.call("average:ray" if ray else "average", run, E, n, f[2], searchradius=sr, **st)
        ck.transitions += 1
        if ok:
            compare(ck, got, exp, "average:ray" if ray else "average", what)
            if sig is None:
                e = E.sigma(f, nr, nc, st.get("automask", True), st.get("saturation_protect", True))
                ck.ok(np.shape(n.sigma) == e.shape and np.allclose(n.sigma, e, rtol=1e-4), "noise kept", lambda: "%s: noise %s, should be %s" % (what, np.asarray(n.sigma).tolist(), e.tolist()))


def noise(ck, E, nr, nc):
    f = E.file(nr, nc)
    for nn, sat, auto, ray, small in itertools.product((1, 2), (True, False), (True, False), (False, True), (False, True)):
        exp = ref.sigma(f[1], nr, nc, mask(f[1], auto), sat, nn)
        n = make(f[0], ray, mem=H * W * 8 * 2 * 40 if small else 1 << 28)
        session()
        ck.case(["noise", nr, nc, nn, sat, auto, ray, small])
        with quiet():
            ok, s = ck.call("noise", n.calcsigma, nn=nn, saturation_protect=sat, automask=auto, verbose=0)
        if ok:
            ck.outcome(np.round(exp, 3))
            ck.ok(np.shape(s) == exp.shape and np.allclose(s, exp, rtol=1e-4), "noise", lambda: "noise of %dx%d, reach %d, saturation_protect %s, automask %s, %s, tiles of %s: %s, should be %s" % (
                nr, nc, nn, sat, auto, "workers" if ray else "serial", 40 if small else "any size", np.asarray(s).tolist(), exp.tolist()))


def kinds(ck, E, shape):
    """Pattern sizes (of which not all are multiples of the vector length), number types, file kinds, rescaling."""
    h, w = shape
    nr, nc = 3, 4
    for (kind, dt, low), sr, ray, resc in itertools.product((("up1", "u1", 0.), ("up2", "u2", 0.), ("up2", "u2", 40000.), ("edax", "u1", 0.), ("edax", "u2", 0.), ("edax", "f4", 0.),
                                                             ("edax", "f8", 0.), ("edax", "i4", 0.), ("edax", "f4", -100.), ("bruker", "u1", 0.), ("bruker", "u2", 0.)), (1, 2), (False, True), (False, True)):
        if resc and dt == "i4":
            continue  # (written as bytes)
        f = E.file(nr, nc, kind, h=h, w=w, dtype=dt, low=low)
        sat = low == 0
        exp = E.average(f, nr, nc, .8, sr, 0.0, True, sat)
        if resc and dt[0] != "f":
            lo, hi = exp.min(axis=(1, 2), keepdims=True), exp.max(axis=(1, 2), keepdims=True)
            exp = (exp - lo) / (hi - lo) * np.iinfo(dt).max
        what = "%s %s from %g on, patterns %dx%d, radius %d, %s%s" % (kind, dt, low, h, w, sr, "workers" if ray else "serial", ", rescaled" if resc else "")
        ck.case(["kind", kind, dt, low, h, w, sr, ray, resc])
        session()
        ok, got = ck.call("kinds", lambda: run(E, make(f[0], ray), f[2], searchradius=sr, lam=.8, saturation_protect=sat, rescale=resc))
        if ok:
            top = np.iinfo(dt).max if dt[0] != "f" else 0
            compare(ck, got, exp, "kinds:%s%s" % ("workers:" if ray else "", "rescaled" if resc else "plain"), what, step=(1.0 if top else 0) + (top * 1e-4 if resc else 0), tol=3e-4)


def tiles(ck, E, nr, nc):
    """Device memories from tiles of a few points to the whole scan."""
    f = E.file(nr, nc)
    for sr, npt, ray, sat in itertools.product((1, 2, 3), (10, 20, 30, 45, 70, 110), (False, True), (True, False)):
        mem = H * W * 8 * npt * (6 if ray else 4)
        n = make(f[0], ray, mem)
        if ray:
            fakecl.PLATFORMS[0].devices[0].global_mem_size = mem * 100
        c = n._calcchunks([W, H], nc, nr, target_bytes=H * W * 8 * npt, col_overlap=sr, row_overlap=sr)
        ck.case(["tiles", nr, nc, sr, npt, ray, sat])
        ck.state([nr, nc, sr, [t.tolist() for t in c[2:]]])
        session()
        exp = E.average(f, nr, nc, .8, sr, 0.0, True, sat)
        ok, got = ck.call("tiles", run, E, n, f[2], searchradius=sr, lam=.8, saturation_protect=sat)
        if ok:
            compare(ck, got, exp, "tiles", "%dx%d, radius %d, %s, tiles %s x %s" % (nr, nc, sr, "workers" if ray else "serial", c[3].tolist(), c[2].tolist()))


OTHER = (1, 2, 3, 5, 7, 11)


def cover(ck):
    """Every way to divide a scan: each point is computed exactly once or more, with its whole neighbourhood in the tile."""
    from pyebsdindex.nlpar_cpu import NLPAR
    n = NLPAR.__new__(NLPAR)
    for N in range(1, 61 if not core.THOROUGH else 131):
        for (nc, nr, ax), sr, k in itertools.product([(N, m, 0) for m in OTHER + (N, 2 * N)] + [(m, N, 1) for m in OTHER + (N, 2 * N)], range(5), (2, 5, 13, 30, 50, 80, 144, 200, 300, 500, 1000)):
            c = n._calcchunks([4, 5], nc, nr, target_bytes=160 * k, col_overlap=np.int64(sr), row_overlap=np.int64(sr))
            t = c[2 + ax]
            ck.transitions += 1
            ck.state([nc, nr, ax, sr, t.tolist()])
            ck.ok(c[ax] == len(t), "cover", lambda: "%d tiles announced, %d made" % (c[ax], len(t)))
            seen = np.zeros(N, int)
            why = None
            for i, (a, b) in enumerate(t.tolist()):
                s, e = a + (sr if i else 0), b - (sr if i < len(t) - 1 else 0)
                if not 0 <= a < b <= N or s >= e or s - sr < a and a > 0 or e + sr > b and b < N:
                    why = "tile %s" % [a, b]
                    break
                seen[s:e] += 1
            if why is None and not seen.all():
                why = "points %s in no tile" % np.nonzero(seen == 0)[0].tolist()
            ck.ok(why is None, "cover", lambda: "%d places, radius %d, room for %d points: %s of %s" % (N, sr, k, why, t.tolist()))


def device(ck, E, shape):
    """Whatever a device may choose, the result is the same; no two work items interfere; a failing call never makes a wrong file."""
    h, w = shape
    for (nr, nc), sr, dt in itertools.product(((1, 1), (1, 2), (3, 4), (5, 2)), (1, 2), ("u1", "u2", "f4")):
        f = E.file(nr, nc, "edax", h=h, w=w, dtype=dt)
        first = None
        for order, lazy, fill, watch in [("fwd", False, 0xC3, True)] + [k + (False,) for k in itertools.product(("fwd", "rev", "inter"), (False, True), (0x00, 0xC3, 0xFF, 0x7F))]:
            with knobs(order=order, lazy=lazy, fill=fill, watch=watch, accesses=0):
                session()
                ok, got = ck.call("device:watched" if watch else "device", lambda: run(E, make(f[0]), f[2], searchradius=sr, lam=.8))
                if watch:
                    ck.transitions += fakecl.K.accesses
                    ck.ok(fakecl.K.missing or fakecl.K.accesses > 0 or not ok, "watch", "no accesses recorded")
            what = [h, w, nr, nc, sr, dt, order, lazy, fill, watch]
            ck.state(what)
            if ok:
                ck.case(what, got)
                first = got if first is None else first
                ck.ok(np.array_equal(got, first), "device", lambda: "%dx%d patterns %dx%d %s, radius %d: work items %s, commands %s, unwritten memory 0x%02x: other result" % (
                    nr, nc, h, w, dt, sr, order, "late" if lazy else "at once", fill))
    f = E.file(3, 4, "edax", h=h, w=w, dtype="u1")
    exp = E.average(f, 3, 4, .8, 1)
    for at in itertools.count(1):
        hit = []
        with knobs(fail=lambda what, n: n == at + base and not hit.append(what)):
            base = fakecl.K.calls
            session()
            try:
                got = run(E, make(f[0]), f[2], searchradius=1, lam=.8)
            except fakecl.Error:
                got = None
        if not hit:
            break
        ck.case(["failure", h, w, at, hit[0]])
        if got is not None:
            compare(ck, got, exp, "failure", "call %d (%s) fails and no error is raised" % (at, hit[0]), step=1)


def blanks(ck, E, nr, nc):
    """Scans with empty or even patterns."""
    mid = nr * nc // 2
    for blank, dt, ray, sr in itertools.product((((mid, 0),), ((0, 0),), ((nr * nc - 1, 0),), ((mid, 0), (mid + 1, 0)), ((mid, 7),), ((1, 0), (mid, 7), (mid + nc, 7))), ("u1", "f4"), (False, True), (1, 2)):
        f = E.file(nr, nc, dtype=dt, blank=blank)
        exp = E.average(f, nr, nc, .8, sr)
        session()
        ok, got = ck.call("blank", lambda: run(E, make(f[0], ray), f[2], searchradius=sr, lam=.8))
        ck.case(["blank", nr, nc, blank, dt, ray, sr])
        if ok:
            compare(ck, got, exp, "blank", "%dx%d %s, even patterns %s, radius %d, %s" % (nr, nc, dt, blank, sr, "workers" if ray else "serial"), step=1 if dt == "u1" else 0)


def silent(ck, E, nr, nc):
    """A device that now and then leaves the output empty without an error: up to three empty answers in a row are mended."""
    for npt, dt, low in itertools.product((1000, 30), ("u1", "f4"), (0., -100.)):
        if low and dt == "u1":
            continue
        f = E.file(nr, nc, dtype=dt, low=low)
        exp = E.average(f, nr, nc, .8, 1, sat=not low)
        for start, n in itertools.product(range(4), (1, 2, 3) if npt == 1000 else (1, 2)):
            hit = []

            def lazy(kernel):
                if kernel != "calcnlpar":
                    return False
                hit.append(0)
                return start < len(hit) <= start + n
            with knobs(noop=lazy):
                session()
                ok, got = ck.call("silent", lambda: run(E, make(f[0], mem=H * W * 8 * npt * 4), f[2], searchradius=1, lam=.8, saturation_protect=not low))
            ck.case(["silent", nr, nc, npt, dt, low, start, n])
            ck.ok(hit, "silent", "the averaging kernel was not used")
            if ok and len(hit) > start:
                compare(ck, got, exp, "silent", "%dx%d %s from %g on, tiles of %d: answers %d to %d left empty by the device" % (nr, nc, dt, low, npt, start + 1, start + n), step=1 if dt == "u1" else 0)


def schedules(ck, E, nr, nc, sr, npt, faults):
    """All bounded schedules of the workers, with failing tiles: the result is that of the serial run."""
    f = E.file(nr, nc)
    exp = E.average(f, nr, nc, .8, sr)
    sig = E.sigma(f, nr, nc)

    def one(ch):
        n = make(f[0], True, H * W * 8 * npt * 6)
        fakecl.PLATFORMS[0].devices[0].global_mem_size = H * W * 8 * npt * 600
        n.sigma = np.asarray(sig, np.float32)
        session(ch, faults)
        try:
            return run(E, n, f[2], searchradius=sr, lam=.8)
        except (fakeray.Livelock, fakeray.Deadlock, fakeray.RayError) as e:
            return e

    def est(ch):
        n = make(f[0], True, H * W * 8 * npt * 2)
        fakecl.PLATFORMS[0].devices[0].global_mem_size = H * W * 8 * npt * 600
        session(ch, faults)
        try:
            with quiet():
                return n.calcsigma(nn=1, verbose=0)
        except (fakeray.Livelock, fakeray.Deadlock, fakeray.RayError) as e:
            return e
    for what, fn, e in (("average", one, exp), ("noise", est, sig)):
        for ch, got in explore.explore(fn, {"sched": 2, "fault": 2, "total": 3 if core.THOROUGH else 2}, maxpoints=40):
            ck.state([what, nr, nc, sr, npt, ch.choices])
            ck.transitions += fakeray.CUR.events
            ck.traces += 1
            desc = "%s, %dx%d in tiles of %d, radius %d, schedule %s" % (what, nr, nc, npt, sr, ch.choices)
            if not ck.ok(isinstance(got, np.ndarray), "schedule:" + what, lambda: "%s: %r" % (desc, got)):
                continue
            ck.case([desc])
            g = got if what == "average" else got[None]
            compare(ck, g, e if what == "average" else e[None], "schedule:" + what, desc)


def reuse(ck, E):
    """One object for several files and settings in a row."""
    fa, fb, fc = E.file(3, 4), E.file(4, 4), E.file(3, 4, h=6, w=5)
    ops = [(fa, 3, 4, True), (fb, 4, 4, True), (fc, 3, 4, True), (fa, 3, 4, False), (fc, 3, 4, False)]
    for seq, ray in itertools.product(itertools.product(ops, repeat=2 if not core.THOROUGH else 3), (False, True)):
        n = make(seq[0][0][0], ray)
        for i, (f, nr, nc, auto) in enumerate(seq):
            session()
            k = {} if i == 0 else {"filename": f[0]}
            ok, got = ck.call("reuse", run, E, n, f[2], searchradius=1, lam=.8, automask=auto, reset_sigma=True, **k)
            ck.transitions += 1
            if not ok:
                break
            compare(ck, got, E.average(f, nr, nc, .8, 1, auto=auto), "reuse", "run %d of %s, %s" % (i + 1, [(s[1], s[2], s[0][1].shape[1:], s[3]) for s in seq], "workers" if ray else "serial"))
        ck.case(["reuse", [(s[0][3], s[3]) for s in seq], ray])
    for sig, ray in itertools.product((5.0, [5.0], np.float32(5), np.full((3, 4), 5.0), np.full((3, 3), 9.0), np.full((4, 4), 9.0), np.full((2, 2), 9.0)), (False, True)):
        n = make(fa[0], ray)
        n.sigma = sig
        session()
        ok, got = ck.call("reuse:noise", run, E, n, fa[2], searchradius=1, lam=.8)
        ck.case(["reuse", np.shape(sig), ray])
        if ok:
            compare(ck, got, E.average(fa, 3, 4, .8, 1, sig=5.0 if np.size(sig) == 1 or np.shape(sig) == (3, 4) else None), "reuse:noise", "noise of shape %s given" % (np.shape(sig),))
    m = np.zeros((H, W), np.uint8)
    m[1:3, 1:4] = 1
    for auto, ray in itertools.product((True, False), (False, True)):
        n = make(fa[0], ray)
        n.mask = m
        session()
        ok, got = ck.call("reuse:mask", run, E, n, fa[2], searchradius=1, lam=.8, automask=auto)
        ck.case(["mask", auto, ray])
        if ok:
            s = ref.sigma(fa[1], 3, 4, m, True)
            compare(ck, got, ref.nlpar(fa[1], 3, 4, .8, 1, 0.0, s, m, True, window=ref.mirrored, level=.9961), "reuse:mask", "own mask, automask %s" % auto)
    # a device that shares the memory of the host takes the serial way
    for sr, kw in itertools.product((1, 2), (dict(), dict(dthresh=.3), dict(diff_offset=.5), dict(saturation_protect=False), dict(automask=False))):
        session()
        ok, got = ck.call("unified", lambda: run(E, make(fa[0], True, unified=True), fa[2], searchradius=sr, lam=.8, **kw))
        ck.case(["unified", sr, sorted(kw)])
        if ok:
            compare(ck, got, E.average(fa, 3, 4, .8, sr, kw.get("dthresh", 0.), kw.get("automask", True), kw.get("saturation_protect", True), kw.get("diff_offset", 0.)), "unified", "shared memory, radius %d, %s" % (sr, kw))


def deviations(f, nr, nc, sig, sat=True, nn=1):
    """For every point and every place of its window: how much more the patterns differ than noise explains; the number of pixels compared."""
    m = mask(f[1], True).ravel() > 0
    X = f[1].reshape(nr * nc, -1).astype(float)
    cut = float(f[1].max()) * .9961 if sat else float(f[1].max()) + 1
    D, N = np.zeros((2, nr, nc, (2 * nn + 1) ** 2))
    for r, c in itertools.product(range(nr), range(nc)):
        for q, (r2, c2) in enumerate(itertools.product(ref.mirrored(r, nr, nn), ref.mirrored(c, nc, nn))):
            d2, n = ref.pair(X, r * nc + c, r2 * nc + c2, m, cut)
            v = sig[r, c] ** 2 + sig[r2, c2] ** 2
            D[r, c, q] = (d2 - n * v) / (v * np.sqrt(2. * n))
            N[r, c, q] = n
    return D, N


def pairs(ck, E, nr, nc):
    """The table of deviations that the strength search uses, for every division into tiles."""
    f = E.file(nr, nc)
    for nn, sat, ray, npt in itertools.product((1, 2), (True, False), (False, True), (30, 45, 70, 1000)):
        sig = E.sigma(f, nr, nc, True, sat) if nn == 1 else ref.sigma(f[1], nr, nc, mask(f[1], True), sat, nn)
        D, N = deviations(f, nr, nc, sig, sat, nn)
        n = make(f[0], ray, mem=H * W * 8 * npt * 2)
        fakecl.PLATFORMS[0].devices[0].global_mem_size = H * W * 8 * npt * 200
        session()
        ck.case(["pairs", nr, nc, nn, sat, ray, npt])
        with quiet():
            ok, got = ck.call("pairs", n.calcsigma, nn=nn, saturation_protect=sat, return_nndist=True, normalize_d=True, verbose=0)
        if ok:
            ck.outcome(np.round(D, 2))
            for what, g, e in zip(("noise", "deviations", "numbers of pixels"), got, (sig, D, N)):
                ck.ok(np.shape(g) == e.shape and np.allclose(g, e, rtol=1e-3, atol=2e-3), "pairs", lambda: "%dx%d, reach %d, saturation_protect %s, %s, tiles of %d: %s wrong at %s" % (
                    nr, nc, nn, sat, "workers" if ray else "serial", npt, what, np.argwhere(~np.isclose(g, e, rtol=1e-3, atol=2e-3))[:4].tolist() if np.shape(g) == e.shape else np.shape(g)))


def strength(ck, E, nr, nc):
    """opt_lambda returns the strengths whose mean self-weight comes nearest to the wanted ones."""
    f = E.file(nr, nc)
    D = deviations(f, nr, nc, E.sigma(f, nr, nc))[0]
    for tw, dth, ray in itertools.product(([.5, .34, .25], [.6], [.3, .4]), (0., .2), (False, True)):
        n = make(f[0], ray)
        session()
        ck.case(["strength", nr, nc, tw, dth, ray])
        with quiet():
            ok, lam = ck.call("strength", n.opt_lambda, target_weights=tw, dthresh=dth, verbose=0)
        if not ok:
            continue

        def metric(l, w):
            return np.mean(np.abs(w - 1 / np.exp(-np.maximum(D, dth) / l ** 2).sum(axis=2)))
        for l, w in zip(lam, tw):
            best = min(metric(x, w) for x in np.concatenate([np.linspace(.05, 3, 600), np.linspace(3, 10, 100)]))
            ck.ok(metric(l, w) <= best + 5e-3, "strength", lambda: "%dx%d, wanted %g, dthresh %g: %g (misses by %.4f, the best strength by %.4f)" % (nr, nc, w, dth, l, metric(l, w), best))
        ck.ok(np.isclose(float(np.squeeze(n.lam)), np.median(lam)), "strength:kept", lambda: "strength %s kept of %s" % (n.lam, lam))


def settings(ck, E, kind):
    """Settings kept by the object, default output names, several devices, the input left alone."""
    import hashlib, shutil
    nr, nc = 4, 5
    dt = {"edax": "f4", "up1": "u1", "bruker": "u2"}[kind]
    f = E.file(nr, nc, kind=kind, dtype=dt)
    step = 0.0 if dt == "f4" else 1.0
    sums = lambda p: hashlib.sha256(open(p, "rb").read()).hexdigest()
    before = sums(f[0])

    def read(p):
        return ep.get_pattern_file_obj(str(p)).read_data(patStartCount=[0, -1], returnArrayOnly=True)[0]
    # how the settings arrive: with the object, with the run, with an earlier run
    for (lam, sr, dth, off), how, ray in itertools.product(((.7, 3, 0., 0.), (1.3, 1, .4, .5), (.9, 2, .2, 0.)), ("object", "run", "earlier run", "attributes"), (False, True)):
        from pyebsdindex.opencl import nlpar_cl, nlpar_clray
        fakecl.PLATFORMS[:] = [fakecl.Platform([fakecl.Device(1 << 28, False)])]
        cls = (nlpar_clray if ray else nlpar_cl).NLPAR
        full = dict(lam=lam, searchradius=sr, dthresh=dth)
        ck.case(["settings", kind, full, off, how, ray])
        what = "%s, lam %g, radius %d, dthresh %g, diff_offset %g given with the %s, %s" % (kind, lam, sr, dth, off, how, "workers" if ray else "serial")
        d = os.path.join(E.d, "named")
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, "scan one." + f[2])
        shutil.copy(f[0], src)

        def go():
            session()
            env = os.environ.get("CUDA_VISIBLE_DEVICES")
            try:
                with quiet():
                    if how == "object":
                        n = cls(src, **full)
                        return n, n.calcnlpar(verbose=0, **({"diff_offset": off} if off else {}))
                    n = cls(src)
                    if how == "run":
                        return n, n.calcnlpar(verbose=0, diff_offset=off, **full)
                    if how == "attributes":
                        n.lam, n.searchradius, n.dthresh, n.diff_offset = lam, sr, dth, off
                        return n, n.calcnlpar(verbose=0)
                    n.calcnlpar(verbose=0, diff_offset=off, **full)
                    os.remove(str(n.filepathout))
                    session()
                    return n, n.calcnlpar(verbose=0)
            finally:
                os.environ.pop("CUDA_VISIBLE_DEVICES", None) if env is None else os.environ.__setitem__("CUDA_VISIBLE_DEVICES", env)
        ok, r = ck.call("settings", go)
        if ok:
            n, path = r
            here = sorted(x for x in os.listdir(d) if x != "scan one." + f[2])
            want = "scan one_NLPAR_l%1.2fsr%d.%s" % (lam, sr, f[2])
            if ck.ok(here == [want] and os.path.abspath(str(path)) == os.path.join(d, want), "settings:name", lambda: "%s: wrote %s and returned %s, should be %s" % (what, here, path, want)):
                compare(ck, read(os.path.join(d, want)), E.average(f, nr, nc, lam, sr, dth, off=off), "settings", what, step=step)
            ck.ok(sums(src) == before, "settings:input", lambda: what + ": the input file is changed")
            ck.ok((float(np.squeeze(n.lam)), n.searchradius, float(n.dthresh), float(np.squeeze(n.diff_offset))) == (lam, sr, dth, off), "settings:kept", lambda: "%s: kept %s" % (what, (n.lam, n.searchradius, n.dthresh, n.diff_offset)))
        shutil.rmtree(d, ignore_errors=True)
    # several devices: whichever is taken, the answer is the same
    exp = E.average(f, nr, nc, .8, 1)
    big, small = 1 << 28, H * W * 8 * 60
    for mems, gpu, ray in itertools.product(((big,), (big, small), (small, big), (small, small, big)), (None, 0, 1, 2, 7), (False, True)):
        from pyebsdindex.opencl import nlpar_cl, nlpar_clray
        fakecl.PLATFORMS[:] = [fakecl.Platform([fakecl.Device(m, False) for m in mems])]
        n = (nlpar_clray if ray else nlpar_cl).NLPAR(f[0])
        session()
        ck.case(["devices", mems, gpu, ray])
        ok, got = ck.call("devices", run, E, n, f[2], searchradius=1, lam=.8, gpu_id=gpu)
        if ok:
            compare(ck, got, exp, "devices", "%s, devices with memories %s, number %s, %s" % (kind, mems, gpu, "workers" if ray else "serial"), step=step)
        session()
        with quiet():
            ok, got = ck.call("devices:noise", lambda: np.squeeze((nlpar_clray if ray else nlpar_cl).NLPAR(f[0]).calcsigma(gpu_id=gpu, verbose=0)))
        if ok:
            s = E.sigma(f, nr, nc)
            ck.ok(np.shape(got) == s.shape and np.allclose(got, s, rtol=2e-3, atol=1e-3), "devices:noise", lambda: "%s, devices with memories %s, number %s, %s: noise estimate %s" % (kind, mems, gpu, "workers" if ray else "serial", got))
    # the strength search keeps its answer only when asked to
    for auto, ray, tw in itertools.product((True, False), (False, True), ([.5, .34, .25], [.4])):
        n = make(f[0], ray)
        n.lam = .123
        session()
        ck.case(["autoupdate", auto, ray])
        with quiet():
            ok, lam = ck.call("strength", n.opt_lambda, target_weights=tw, autoupdate=auto, verbose=0)
        if ok:
            want = float(np.median(lam)) if auto else .123
            ck.ok(np.shape(lam) == (len(tw),) and np.isclose(float(np.squeeze(n.lam)), want), "strength:kept", lambda: "autoupdate %s: strength %s kept of %s" % (auto, n.lam, lam))
            session()
            ok, got = ck.call("strength", run, E, n, f[2], searchradius=1)
            if ok:
                compare(ck, got, E.average(f, nr, nc, want, 1), "strength:used", "run after a strength search, autoupdate %s" % auto, step=step)


def body(ck):
    ck.unsure = lambda: fakecl.K.missing
    T = core.THOROUGH
    jobs = [("division of a scan", lambda ck, E: cover(ck), ())]
    shapes = [(r, c) for r in range(1, 6) for c in range(1, 6)] if T else [(1, 1), (1, 2), (1, 5), (2, 1), (2, 2), (2, 3), (3, 3), (4, 5), (5, 1), (5, 4)]
    for s in shapes:
        jobs.append(("averages", averages, s))
        jobs.append(("noise estimate", noise, s))
    for s in ((4, 4), (4, 5), (7, 5), (3, 3)):
        jobs.append(("pattern sizes, types, files", kinds, (s,)))
    for s in ((7, 9), (14, 6), (4, 20), (16, 3), (1, 30), (24, 1), (2, 11)):
        jobs.append(("tiles", tiles, s))
    jobs.append(("noise estimate", noise, (9, 8)))
    for s in ((4, 4), (4, 5), (6, 7)):
        jobs.append(("device freedom, interference and failures", device, (s,)))
    jobs.append(("even patterns", blanks, (4, 5)))
    jobs.append(("even patterns", blanks, (3, 3)))
    jobs.append(("empty answers", silent, (5, 8)))
    for s in ((9, 5, 1, 20, False), (9, 5, 1, 20, True), (5, 9, 1, 15, True), (12, 7, 1, 30, True)):
        jobs.append(("worker schedules", schedules, s))
    jobs.append(("objects used again", reuse, ()))
    for k in ("edax", "up1", "bruker"):
        jobs.append(("settings, names and devices", settings, (k,)))
    for s in ((7, 9), (4, 20), (1, 30), (3, 4)):
        jobs.append(("deviations of pairs", pairs, s))
    for s in ((3, 4), (5, 5), (2, 3)):
        jobs.append(("strength search", strength, s))

    def do(k):
        name, fn, a = jobs[k]
        ck.section(name)
        fn(ck, Env(os.path.join(core.SCRATCH, "c28_%d" % k)), *a)
    ck.fanout(len(jobs), do)
    if not ck.child:
        ck.assumptions = ["no OpenCL device in the sandbox: the kernels of the tree, compiled by clang as OpenCL C for the CPU, under a pyopencl stand-in",
                          "tiles see the same saturation level (every pattern holds the largest value) when saturation protection is on: the level is by design that of the tile"]


if __name__ == "__main__":
    core.main("C28", "exploration", "NLPAR runs on a device: scan shape x radius x settings x number type x device memory x device freedom x worker schedule, "
              "compared point by point with the reference", body, max_violations=8)

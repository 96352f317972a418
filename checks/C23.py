"""C23: orientation colours and images.  Colours of a grid of directions under every symmetry
operator; images of every scan shape with every point singled out."""
import itertools, os
import numpy as np
from vlib import core, rotref as RR
from vlib.idx import quiet
from vlib import simpat as S

CUB = S.cubic_rots()
HEX = S.hex_rots()


def mk(quats, nphase, phase, ix, fit=None):
    n = len(quats)
    d = np.zeros((nphase + 1, n), ix.dataTemplate)
    d["quat"] = quats
    d["fit"] = 0.5 if fit is None else fit
    d["phase"] = phase
    for f in ("pq", "iq", "cm"):
        d[f] = (np.arange(n) + 1.0) / (n + 1)
    d["nmatch"] = np.arange(n)
    return d


def indexer(names):
    from pyebsdindex import ebsd_index, tripletvote as tv
    lib = {"FCC": lambda: tv.addphase("FCC"), "HCP": lambda: tv.addphase("HCP"), "BCC": lambda: tv.addphase("BCC")}
    with quiet():
        return ebsd_index.EBSDIndexer(phaselist=[lib[n]() for n in names], vendor="EDAX", PC=(0.47, 0.67, 0.63), patDim=np.array([16, 16]))


def colours(ck):
    from pyebsdindex.EBSDImage import IPFcolor as I
    dirs = [np.array(d, float) for d in itertools.product((-2, -1, 0, 1, 2), repeat=3) if any(d)]
    dirs += [np.array(d, float) for d in itertools.product((-1, 0.37, 1), repeat=3)] + [np.array([1e-7, 1, 0]), np.array([1, 1e-9, -1e-9]), np.array([-1e-8, -1e-8, 1])]
    dirs = np.array([d / np.linalg.norm(d) for d in dirs])
    corners = {"cubic": np.array([[0, 0, 1.0], [0, 1, 1], [1, 1, 1]]), "hex": np.array([[0, 0, 1.0], [1, 0, 0], [np.sqrt(3) / 2, 0.5, 0]])}
    for name, qfun, ops in (("cubic", I.qu2ipf_cubic, CUB), ("hex", I.qu2ipf_hex, HEX)):
        ck.section("colour key " + name)
        # crystal direction d of a sample direction v under rotation q: any q with R(q) v = d gives the colour of d
        zup = np.array([0, 0, 1.0])

        def to(d, v=zup, spin=0.4):
            v = v / np.linalg.norm(v)
            d = d / np.linalg.norm(d)
            a = np.cross(v, d)
            c = float(v @ d)
            if np.linalg.norm(a) < 1e-12:
                p = np.cross(v, [1, 0.3, 0.2])
                q = RR.ax2q(np.append(p, 0.0 if c > 0 else np.pi))
            else:
                q = RR.ax2q(np.append(a, np.arctan2(np.linalg.norm(a), c)))
            return S.qmul(RR.ax2q(np.append(d, spin)), q)

        def col(q, v=zup):
            good, c = ck.call("colour:" + name, qfun, np.atleast_2d(q), vector=v)
            return (np.asarray(c, float).reshape(-1, 3)) if good else np.zeros((len(np.atleast_2d(q)), 3))
        qs = np.array([to(d) for d in dirs])
        base = col(qs)
        for i, d in enumerate(dirs):
            ck.state((name, np.round(d, 6)))
        ck.ok(np.isfinite(base).all() and base.min() >= 0 and base.max() <= 1, name + ":range", "colours out of [0, 1]: %s" % base[(base < 0).any(1) | (base > 1).any(1)][:3])

        def same(c, key, text):
            ck.transitions += len(c)
            bad = np.abs(c - base).max(1) > 2e-3
            if bad.any():
                i = int(np.argmax(bad))
                ck.fail(name + ":" + key, "direction %s has colour %s, %s colour %s" % (dirs[i].round(4).tolist(), base[i].round(4).tolist(), text, c[i].round(4).tolist()))
        for k, m in enumerate(ops):
            sq = RR.m2q(m)
            ck.case((name, "operator", k))
            same(col(np.array([S.qmul(sq, q) for q in qs])), "symmetry", "the equivalent orientation by operator %d has" % k)
        same(col(-qs), "sign", "the negative quaternion")
        same(col(qs, -zup), "inverse", "the inverted sample direction")
        for spin in (0.0, 1.9, -2.5):
            same(col(np.array([to(d, spin=spin) for d in dirs])), "spin", "turned about the direction")
        for v in ([1, 0, 0], [0, 1, 0], [1, 1, 0], [0.3, -0.7, 0.2], [0, -1, 1], [0, 0, 5]):
            w = np.array(v)
            ck.case((name, "vector", v))
            same(col(np.array([to(d, np.array(v, float)) for d in dirs]), w), "vector", "seen along the sample direction %s" % (v,))
            same(col(np.array([to(d, np.array(v, float)) for d in dirs]), 3.0 * w), "length", "seen along %s times 3" % (v,))
        same(col(qs.astype(np.float32)), "float32", "in single precision")
        one = np.array([col(q)[0] for q in qs])
        same(one, "single", "converted alone")
        good, g = ck.call("colour1:" + name, qfun, qs[5].copy())
        if good:
            ck.ok(np.allclose(np.ravel(g), base[5], atol=1e-5), name + ":1d", "one quaternion as a 1-D array: %s, %s" % (g, base[5]))
        c3 = col(np.array([to(c) for c in corners[name]]))
        ck.outcome(np.round(base, 3))
        dom = [int(np.argmax(c)) for c in c3]
        ck.ok(sorted(dom) == [0, 1, 2] and min(np.abs(c3[a] - c3[b]).max() for a, b in ((0, 1), (0, 2), (1, 2))) > 0.3, name + ":corners", "corners have the colours %s" % c3.round(3).tolist())
        ck.ok(dom == [0, 1, 2], name + ":rgb", "corners are not red, green, blue: %s" % c3.round(3).tolist())
        # inside one unit triangle different directions have different colours, near ones similar colours
        tri = corners[name] / np.linalg.norm(corners[name], axis=1)[:, None]
        grid = [np.array([a, b, m - a - b], float) / m for m in (12,) for a in range(m + 1) for b in range(m + 1 - a)]
        pts = np.array([g @ tri for g in grid])
        pts /= np.linalg.norm(pts, axis=1)[:, None]
        cc = col(np.array([to(p) for p in pts]))
        for i, j in itertools.combinations(range(len(pts)), 2):
            ang = np.degrees(np.arccos(min(1, abs(pts[i] @ pts[j]))))
            dc = np.abs(cc[i] - cc[j]).max()
            ck.transitions += 1
            ck.ok(dc > 1e-3, name + ":distinct", lambda: "directions %s and %s, %.1f degrees apart, have the same colour %s" % (pts[i], pts[j], ang, cc[i]))
        # continuity across all boundaries of the key: neighbours on the sphere
        for d in dirs:
            t = np.cross(d, [0.21, 0.83, -0.4])
            t /= np.linalg.norm(t)
            near = np.array([(d + 1e-5 * (np.cos(a) * t + np.sin(a) * np.cross(d, t))) for a in np.linspace(0, 2 * np.pi, 13)])
            cn = col(np.array([to(x) for x in near]))
            ck.ok(np.abs(cn - cn[0]).max() < 0.02, name + ":continuous", lambda: "colours next to %s jump: %s" % (d, cn.round(3).tolist()))
        ck.case((name, "triangle", len(pts)))


def images(ck):
    from pyebsdindex.EBSDImage import IPFcolor as I, scalarimage as SI
    ck.section("orientation images")
    sets = (("FCC",), ("HCP",), ("FCC", "HCP"), ("HCP", "BCC", "FCC"))
    red = np.array([1.0, 0, 0, 0])               # [001] up
    big = (4, 5) if core.THOROUGH else (3, 4)
    for names in sets:
        ix = indexer(names)
        nph = len(names)
        other = {"FCC": RR.ax2q([1, 0, 0, np.pi / 4]), "BCC": RR.ax2q([1, 0, 0, np.pi / 4]), "HCP": RR.ax2q([0, 1, 0, np.pi / 2])}

        def colour(p, q):
            f = I.qu2ipf_hex if names[p] == "HCP" else I.qu2ipf_cubic
            return np.asarray(f(np.array([q, q])))[0]
        for r, c in itertools.product(range(1, big[0] + 1), range(1, big[1] + 1)):
            n = r * c
            for special in range(n):
                for miss in ((), (special,), tuple(i for i in range(n) if i != special)):
                    if len(miss) > 1 and n > 6 and not core.THOROUGH:
                        continue
                    ph = (np.arange(n) * 2 + special) % nph
                    q = np.array([red] * n)
                    q[special] = other[names[ph[special]]]
                    d = mk(q, nph, ph, ix)
                    for j in range(nph):  # the rows of the phases hold other orientations for points of another phase
                        d[j]["phase"] = j
                        w = ph != j
                        d[j]["quat"][w] = RR.ax2q([1, 2, 3, 1.0])
                    for i in miss:
                        d[:, i] = np.zeros((), ix.dataTemplate)
                        d["fit"][:, i] = 180
                        d["phase"][:, i] = -1
                    d0 = d.copy()
                    ck.case((names, r, c, special, miss))
                    for kw, rows in ((dict(xsize=c), r), (dict(xsize=c, ysize=r), r), (dict(xsize=c, ysize=r + 2), r + 2)):
                        with quiet(), np.errstate(all="ignore"):
                            good, im = ck.call("makeipf", I.makeipf, d, ix, **kw)
                        if not good:
                            continue
                        if not ck.ok(im.shape == (rows, c, 3), "ipf:shape", "image %s for %d rows of %d" % (im.shape, rows, c)):
                            continue
                        want = np.zeros((rows * c, 3))
                        for i in range(n):
                            if i not in miss:
                                want[i] = colour(ph[i], q[i])
                        bad = np.abs(im.reshape(-1, 3) - want).max(1) > 1e-4
                        ck.ok(not bad.any(), "ipf:place", lambda: "%s scan %dx%d, point %d special, %s not indexed: pixel %d is %s, expected %s" % (
                            names, r, c, special, miss, int(np.argmax(bad)), im.reshape(-1, 3)[bad][0], want[bad][0]))
                        ck.outcome(np.round(im, 2))
                    ck.ok(d.tobytes() == d0.tobytes(), "ipf:data", "the image changed the data")
            # ragged: fewer points than the grid, and more than fit
            if n > 2:
                d = mk(np.array([red] * n), nph, np.zeros(n, int), ix)
                d["quat"][:, n - 1] = other[names[0]]
                with quiet():
                    good, im = ck.call("ragged", I.makeipf, d[:, :n - 1], ix, xsize=c)
                    if good and n - 1 > 0:
                        f = im.reshape(-1, 3)
                        ck.ok(im.shape == (-(-(n - 1) // c), c, 3) and not f[n - 1:].any() and np.abs(f[:n - 1] - colour(0, red)).max() < 1e-4, "ipf:ragged", "image of %d points in %d columns: %s" % (
                            n - 1, c, im.round(2).tolist()))
                    good, im = ck.call("short", I.makeipf, d, ix, xsize=c, ysize=max(1, r - 1))
                    if good:
                        f = im.reshape(-1, 3)
                        ck.ok(f.shape[0] == c * max(1, r - 1) and np.abs(f[:min(len(f), n - 1)] - colour(0, red)).max() < 1e-4, "ipf:short", "image of %d points in %d pixels" % (n, len(f)))
    ck.section("scalar images")
    ix = indexer(("FCC",))
    for r, c in itertools.product(range(1, 4), range(1, 5)):
        n = r * c
        perms = itertools.permutations(range(n)) if n <= 4 else [np.roll(np.arange(n), k) for k in range(n)] + [np.arange(n)[::-1]]
        for perm in perms:
            perm = np.array(perm)
            d = mk(np.array([red] * n), 1, 0, ix)
            for f in ("pq", "iq", "cm", "fit"):
                d[f] = (perm + 1.0) / (n + 1)
            d["nmatch"] = perm
            d["matchattempts"] = perm[:, None] * [1, -1, 0, 2]
            d0 = d.copy()
            for field, idx, sign in (("pq", 0, 1), ("fit", 0, 1), ("fitinv", 0, -1), ("nmatch", 0, 1), ("matchattempts", 1, -1), ("cm", 0, 1)):
                for extra in (0, 2):
                    kw = dict(xsize=c, datafield=field, datafieldindex=idx)
                    if extra:
                        kw["ysize"] = r + extra
                    ck.case((r, c, perm.tolist(), field, extra))
                    with quiet(), np.errstate(all="ignore"):
                        good, im = ck.call("scalar", SI.scalarimage, d, ix, cmap="gray", norescalegray=True, **kw)
                    if good and ck.ok(im.shape == (r + extra, c), "scalar:shape", "%s for %dx%d" % (im.shape, r + extra, c)):
                        src = d[-1]["fit" if field == "fitinv" else field]
                        src = src if src.ndim == 1 else src[:, idx]
                        w = np.concatenate([np.float32(src) * (-1 if field == "fitinv" else 1), np.zeros(extra * c)])
                        ck.ok(np.allclose(im.ravel(), w, atol=1e-6), "scalar:place", lambda: "%s: %s, expected %s" % (field, im.tolist(), w.reshape(-1, c).tolist()))
                        ck.outcome(im)
                    with quiet(), np.errstate(all="ignore"):
                        good, im = ck.call("scalar-rgb", SI.scalarimage, d, ix, cmap="gray", **kw)
                    if good and ck.ok(im.shape == (r + extra, c, 3), "scalar-rgb:shape", "%s for %dx%d" % (im.shape, r + extra, c)):
                        g = im[..., 0].ravel()
                        ck.ok(g.min() >= 0 and g.max() <= 1 and not g[n:].any(), "scalar-rgb:range", "gray %s" % g)
                        o = np.argsort(sign * perm)
                        ck.ok(np.all(np.diff(g[:n][o]) >= -1e-6) and (n == 1 or field in ("fit", "fitinv") or g[:n][o][-1] > g[:n][o][0]), "scalar-rgb:order", lambda: "%s: values %s have the grays %s" % (
                            field, perm.tolist(), g.round(3).tolist()))
            ck.ok(d.tobytes() == d0.tobytes(), "scalar:data", "the image changed the data")
    files(ck, red)
    ck.section("orientation image with a gray channel")
    ix = indexer(("FCC",))
    for r, c in ((1, 1), (2, 3), (3, 2), (1, 4)):
        n = r * c
        for k in range(n):
            d = mk(np.array([red] * n), 1, 0, ix)
            d["pq"] = np.roll(np.arange(n) + 1.0, k)
            d["quat"][:, k] = RR.ax2q([1, 0, 0, np.pi / 4])
            d0 = d.copy()
            with quiet(), np.errstate(all="ignore"):
                good, im = ck.call("gray", I.makeipf, d, ix, xsize=c, graychannel="pq")
                good2, pl = ck.call("gray", I.makeipf, d, ix, xsize=c)
                good3, gr = ck.call("gray", SI.scalarimage, d, ix, xsize=c, datafield="pq", cmap="gray", rescalenice=True)
            ck.case(("gray", r, c, k))
            if good and good2 and good3:
                ck.ok(np.allclose(im, pl * gr, atol=1e-5), "gray:product", "image with gray channel is not the colours times the grays")
            ck.ok(d.tobytes() == d0.tobytes(), "gray:data", "data changed")


def files(ck, red):
    """The size of the scan and the step taken from the pattern file of the indexer."""
    import shutil, tempfile
    from checks import C09
    from pyebsdindex import ebsd_index, tripletvote as tv
    from pyebsdindex.EBSDImage import IPFcolor as I, scalarimage as SI, micronbar as MB
    ck.section("size of the scan from the file")
    d = tempfile.mkdtemp(prefix="vf_C23_")
    try:
        with quiet():
            cases = [c for c in C09.build(d, core.THOROUGH) if c.head and c.head.get("nCols") and "patternW" in c.head and not (c.setup and "v1" not in c.name)]
        with quiet():
            lib = tv.addphase("FCC")
            one = ebsd_index.EBSDIndexer(filename=cases[0].path, phaselist=[lib], vendor="EDAX", PC=(0.47, 0.67, 0.63))
        seen = set()
        for c in cases:
            s, name = c.scan, " ".join(x for x in c.name.split(" ") if "," not in x)
            key = (name, s.nrows, s.ncols)
            if key in seen or c.setup is not None:
                continue
            seen.add(key)
            with quiet():
                if "second scan" in c.name or "by path" in c.name or c.name.startswith("h5 "):
                    one.fID = c.openers["auto"]()
                    one.fID.read_header()
                    good = True
                else:
                    good, _ = ck.call("update_file", one.update_file, c.path)
            if not good:
                continue
            n, nc, nr = s.n, s.ncols, s.nrows
            for k in {0, n - 1, n // 2, nc - 1, min(nc, n - 1)}:
                dd = mk(np.array([red] * n), 1, 0, one)
                dd["quat"][:, k] = RR.ax2q([1, 0, 0, np.pi / 4])
                dd["pq"] = (np.arange(n) == k) + 1.0
                ck.case((c.name, k))
                with quiet(), np.errstate(all="ignore"):
                    good, im = ck.call("makeipf", I.makeipf, dd, one)
                    good2, gr = ck.call("scalar", SI.scalarimage, dd, one, datafield="pq", cmap="gray", norescalegray=True)
                if good and ck.ok(im.shape == (nr, nc, 3), "file:shape", "%s: scan of %d x %d, image %s" % (c.name, nr, nc, im.shape)):
                    f = np.abs(im.reshape(-1, 3) - im.reshape(-1, 3)[(k + 1) % n]).max(1) > 1e-3
                    ck.ok(n == 1 or np.flatnonzero(f).tolist() == [k], "file:place", "%s: point %d of %d x %d is at pixels %s" % (c.name, k, nr, nc, np.flatnonzero(f)))
                if good2 and ck.ok(gr.shape == (nr, nc), "file:gray", "%s: scan of %d x %d, image %s" % (c.name, nr, nc, gr.shape)):
                    ck.ok(np.flatnonzero(gr.ravel() > 1.5).tolist() == [k], "file:grayplace", "%s: point %d: %s" % (c.name, k, gr.tolist()))
            # the scale bar is the one of the step of the file
            if not float(c.head.get("xStep") or 0) > 0:
                continue
            for kw in (dict(zoom_xsize=300), dict(zoom_xsize=400, addminor=True)):
                with quiet(), np.errstate(all="ignore"):
                    good, im = ck.call("makeipf bar", I.makeipf, dd, one, addmicronbar=True, **kw)
                    good2, plain = ck.call("makeipf", I.makeipf, dd, one)
                    good3, want = ck.call("bar", MB.addmicronbar, plain, float(c.head["xStep"]), rescale=True, **kw)
                    good4, g = ck.call("scalar bar", SI.scalarimage, dd, one, datafield="pq", cmap="gray", addmicronbar=True, **kw)
                    good5, gp = ck.call("scalar", SI.scalarimage, dd, one, datafield="pq", cmap="gray")
                    good6, gw = ck.call("bar", MB.addmicronbar, gp, float(c.head["xStep"]), rescale=False, **kw)
                ck.case((c.name, "bar", str(kw)))
                if good and good2 and good3:
                    ck.ok(im.shape == want.shape and np.allclose(im, want, atol=1e-5), "file:bar", "%s: step %s, the image with scale bar is not the image with the bar of that step" % (c.name, c.head["xStep"]))
                if good4 and good5 and good6:
                    ck.ok(g.shape == gw.shape and np.allclose(g, gw, atol=1e-5), "file:graybar", "%s: step %s, the gray image with scale bar" % (c.name, c.head["xStep"]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def body(ck):
    colours(ck)
    images(ck)
    ck.traces = ck.evaluations


core.main("C23", "model_checking", "a state is a crystal direction, the transitions are all symmetry operators, inversions and ways of looking at it, applied to the real colour keys; "
          "every scan shape to a bound with every point singled out", body, max_violations=12)

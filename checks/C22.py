"""C22: exported scan files.  All scan shapes up to a bound, all subsets of unindexed points,
all phase counts, all ways of giving the grid, both kinds of file, read back by parsers of
their own."""
import itertools, os
import numpy as np
from vlib import core, patfiles as P, rotref as RR
from vlib.idx import quiet

PHASES = (("FCC", dict(libtype="FCC")), ("HCP", dict(libtype="HCP")), ("BCC", dict(libtype="BCC", phasename="Ferrite alpha", latticeparameter=(0.28665, 0.28665, 0.28665, 90, 90, 90))))


def eulers(e):
    return RR.eu2m(np.asarray(e, float))


def make_indexer(nphase, fid=None, extra=None):
    from pyebsdindex import ebsd_index, tripletvote as tv
    libs = [tv.addphase(**kw) for _, kw in PHASES[:nphase]] if extra is None else extra
    with quiet():
        ix = ebsd_index.EBSDIndexer(filename=fid, phaselist=libs, vendor="EDAX", PC=np.array([0.4717, 0.6751, 0.6301]), sampleTilt=69.5, camElev=5.25, patDim=np.array([16, 16]))
    return ix, libs


def quats(n, salt=0):
    q = np.zeros((n, 4))
    for i in range(n):
        k = i + salt
        a = np.array([1 + (k % 3), -1 + 0.7 * (k % 5), 0.3 * (k % 7) - 1])
        th = np.radians(3 + 61.7 * k % 178)
        q[i] = np.r_[np.cos(th / 2), np.sin(th / 2) * a / np.linalg.norm(a)]
    if n > 1:
        q[1] = [1, 0, 0, 0]
    if n > 2:
        q[2] = [0, 1, 0, 0]
    if n > 3:
        q[3] = [np.cos(0.7), 0, 0, np.sin(0.7)]
    return q


def result(ix, n, nphase, unindexed=(), salt=0):
    d = np.zeros((nphase + 1, n), ix.dataTemplate)
    for j in range(nphase + 1):
        d[j]["quat"] = quats(n, 3 * j + salt)
        d[j]["fit"] = 0.05 + 0.013 * np.arange(n) + 0.2 * j
        d[j]["cm"] = (0.111 + 0.037 * np.arange(n) + 0.05 * j) % 1
        d[j]["iq"] = 0.3 + 0.01 * np.arange(n) + j
        d[j]["pq"] = 1000.5 + 31.3 * np.arange(n) + 7 * j
        d[j]["nmatch"] = 5 + j
        d[j]["phase"] = j if j < nphase else (np.arange(n) * 2 + salt) % nphase
    for i in unindexed:
        for j in range(nphase + 1):
            d[j]["quat"][i] = 0
            d[j]["fit"][i] = 180.0
            d[j]["phase"][i] = -1
            d[j]["nmatch"][i] = 0
            d[j]["cm"][i] = 0.0 if i % 2 else 0.42  # a left-over confidence
    return d


def parse_ang(path):
    raw = open(path, "rb").read().decode("utf-8")
    head, rows, phases, cur = {}, [], {}, None
    for line in raw.split("\r\n"):
        if line.startswith("#"):
            t = line[1:].strip()
            if t.startswith("Phase "):
                cur = {"fam": []}
                phases[int(t.split()[1])] = cur
            elif t.startswith("hklFamilies"):
                cur["fam"].append(t.split()[1:])
            elif t.startswith("MaterialName"):
                cur["name"] = t[len("MaterialName"):].strip()
            elif t.startswith("Symmetry"):
                cur["sym"] = int(t.split()[1])
            elif t.startswith("LatticeConstants"):
                cur["latt"] = [float(v) for v in t.split()[1:]]
            elif t.startswith("NumberFamilies"):
                cur["nfam"] = int(t.split()[1])
            elif ":" in t:
                k, _, v = t.partition(":")
                head.setdefault(k.strip(), v.strip())
            elif len(t.split()) == 2:
                head[t.split()[0]] = t.split()[1]
        elif line.strip():
            rows.append([float(v) for v in line.split()])
    return head, phases, rows


def hkl3(lib):
    p = np.array(lib.polefamilies)
    return p[:, [0, 1, 3]] if p.shape[1] == 4 else p


def check_phase(ck, key, k, lib, sym, latt, fam, name):
    ck.ok(sym == lib.lauecode, key + ":sym", "phase %d symmetry %s, phase has %s" % (k, sym, lib.lauecode))
    want = np.array(lib.latticeparameter, float) * [10, 10, 10, 1, 1, 1]
    ck.ok(np.allclose(latt, want, rtol=2e-4, atol=6e-4), key + ":latt", "phase %d lattice %s, phase has %s" % (k, latt, want))
    ck.ok(np.array_equal(np.array(fam), hkl3(lib)), key + ":hkl", "phase %d families %s, phase has %s" % (k, np.array(fam).tolist(), hkl3(lib).tolist()))
    ck.ok(name == lib.phasename, key + ":name", "phase %d is called %r, phase %r" % (k, name, lib.phasename))


def points(ck, key, d, n, got, tol):
    """got: dict of euler rows, iq?, pq, fit, ci, unindexed flags, phase numbers."""
    best = d[-1]
    for i in range(n):
        un = best["phase"][i] < 0
        if un:
            ck.ok(got["ci"][i] == -1, key + ":unindexed-ci", "unindexed point %d has confidence %r" % (i, got["ci"][i]))
            continue
        m, w = eulers(got["eu"][i]), RR.q2m(best["quat"][i])
        ck.ok(min(np.abs(m - w).max(), np.abs(m.T - w).max() if got.get("transpose") else 9) < tol, key + ":orientation",
              lambda: "point %d: Euler angles %s describe %s, orientation is %s" % (i, got["eu"][i], m.round(4).tolist(), w.round(4).tolist()))
        ck.ok(abs(got["ci"][i] - best["cm"][i]) < 6e-4, key + ":ci", "point %d confidence %s, result has %s" % (i, got["ci"][i], best["cm"][i]))
        ck.ok(abs(got["fit"][i] - best["fit"][i]) < 6e-4, key + ":fit", "point %d fit %s, result has %s" % (i, got["fit"][i], best["fit"][i]))
        ck.ok(abs(got["pq"][i] - best["pq"][i]) < 0.06, key + ":pq", "point %d quality %s, result has %s" % (i, got["pq"][i], best["pq"][i]))


def grid_ok(ck, key, n, ncols, xs, ys, x, y):
    want = np.stack([(np.arange(n) % ncols) * xs, (np.arange(n) // ncols) * ys], 1)
    if not ck.ok(len(x) == n and len(y) == n, key + ":positions", "%d/%d positions for %d points" % (len(x), len(y), n)):
        return
    ck.ok(np.allclose(np.stack([x, y], 1), want, rtol=1e-5, atol=1e-5), key + ":grid", lambda: "grid positions %s, expected %s" % (np.stack([x, y], 1).tolist(), want.tolist()))


def one(ck, tag, ix, libs, d, ncols, xs, ys, kind, kw, fn):
    from pyebsdindex import ebsdfile
    n, nph = d.shape[1], len(libs)
    d0 = d.copy()
    key = "%s:%s" % (kind, tag)
    if os.path.exists(fn):
        os.unlink(fn)
    if kind == "ang":
        with quiet():
            good, _ = ck.call(key, ebsdfile.writeang, fn, ix, d, **kw)
        if not good:
            return
        ck.ok(d.tobytes() == d0.tobytes(), key + ":memory", "writing changed the result in memory: %s" % [f for f in d.dtype.names if not np.array_equal(d[f], d0[f])])
        head, phases, rows = parse_ang(fn)
        if not ck.ok(len(rows) == n, key + ":rows", "%d rows for %d points" % (len(rows), n)):
            return
        if not ck.ok(all(len(r) == 10 for r in rows), key + ":columns", "columns: %s" % [len(r) for r in rows]):
            return
        r = np.array(rows)
        ck.outcome(r)
        grid_ok(ck, key, n, ncols, xs, ys, r[:, 3], r[:, 4])
        points(ck, key, d, n, {"eu": r[:, :3], "ci": r[:, 6], "fit": r[:, 9], "pq": r[:, 5]}, 3e-5)
        num = {}
        for i in range(n):
            if d[-1]["phase"][i] >= 0:
                num.setdefault(int(d[-1]["phase"][i]), set()).add(int(r[i, 7]))
        for p, s in num.items():
            ck.ok(s == {p + 1} if nph > 1 else s <= {0, 1} and len(s) == 1, key + ":phase", "points of phase %d of %d carry the numbers %s" % (p, nph, s))
        ck.ok(sorted(phases) == list(range(1, nph + 1)), key + ":phases", "phases listed %s of %d" % (sorted(phases), nph))
        for k, lib in enumerate(libs):
            p = phases.get(k + 1)
            if p:
                fam = [[int(v) for v in f[:3]] for f in p["fam"]]
                ck.ok(p["nfam"] == len(fam), key + ":nfam", "%d families announced, %d listed" % (p["nfam"], len(fam)))
                check_phase(ck, key, k, lib, p["sym"], p["latt"], fam, p["name"])
        ck.ok(int(head["NCOLS_ODD"]) == ncols == int(head["NCOLS_EVEN"]) and int(head["NROWS"]) == -(-n // ncols), key + ":dims", "columns %s rows %s for %d points in %d columns" % (
            head["NCOLS_ODD"], head["NROWS"], n, ncols))
        ck.ok(abs(float(head["XSTEP"]) - xs) < 1e-6 and abs(float(head["YSTEP"]) - ys) < 1e-6, key + ":step", "steps %s %s, expected %s %s" % (head["XSTEP"], head["YSTEP"], xs, ys))
        ck.ok(head["GRID"] == kw.get("gridtype", "SqrGrid"), key + ":gridtype", head["GRID"])
        ck.ok(abs(float(head["SampleTiltAngle"]) - 69.5) < 1e-9 and abs(float(head["CameraElevationAngle"]) - 5.25) < 1e-9, key + ":geometry", "tilt %s elevation %s" % (
            head["SampleTiltAngle"], head["CameraElevationAngle"]))
        for a, v in zip(("x-star", "y-star", "z-star"), np.ravel(ix.PC)):
            ck.ok(abs(float(head[a]) - v) < 1e-6, key + ":pc", "%s is %s, indexer has %s" % (a, head[a], v))
        return
    import h5py
    with quiet():
        good, _ = ck.call(key, ebsdfile.writeoh5, fn, ix, d, **kw)
    if not good:
        return
    ck.ok(d.tobytes() == d0.tobytes(), key + ":memory", "writing changed the result in memory: %s" % [f for f in d.dtype.names if not np.array_equal(d[f], d0[f])])
    name = kw.get("datasetname", "Scan 1")
    first = 1 if kw.get("version", "8.6") == "8.6" else 0
    with h5py.File(fn, "r") as f:
        D = {k: np.array(v) for k, v in f[name + "/EBSD/Data"].items()}
        H = f[name + "/EBSD/Header"]
        bad = {k: v.shape for k, v in D.items() if v.shape != (n,)}
        if not ck.ok(not bad, key + ":rows", "datasets of another shape than (%d,): %s" % (n, bad)):
            return
        ck.outcome(sorted(D.items()))
        grid_ok(ck, key, n, ncols, xs, ys, D["X Position"], D["Y Position"])
        points(ck, key, d, n, {"eu": np.stack([D["Phi1"], D["Phi"], D["Phi2"]], 1), "ci": D["CI"], "fit": D["Fit"], "pq": D["Pattern Quality"]}, 3e-6)
        w = d[-1]["phase"] >= 0
        ck.ok(np.allclose(D["IQ"][w], d[-1]["iq"][w]), key + ":iq", "IQ %s, result %s" % (D["IQ"], d[-1]["iq"]))
        ck.ok(np.array_equal(D["Phase"][w], d[-1]["phase"][w] + first), key + ":phase", "phase numbers %s, phases %s start at %d" % (D["Phase"], d[-1]["phase"], first))
        ck.ok(not first or not D["Phase"][~w].any(), key + ":phase-unindexed", "unindexed points carry the phases %s" % D["Phase"][~w])
        ck.ok(sorted(H["Phase"]) == sorted(str(k + first) for k in range(nph)), key + ":phases", "phases listed %s" % list(H["Phase"]))
        for k, lib in enumerate(libs):
            g = H["Phase"].get(str(k + first))
            if g is None:
                continue
            fam = np.array(g["hkl Families"])
            latt = [g["Lattice Constant " + c][0] for c in ("a", "b", "c", "alpha", "beta", "gamma")]
            ck.ok(int(g["NumberFamilies"][0]) == fam.size, key + ":nfam", "%d families announced, %d listed" % (g["NumberFamilies"][0], fam.size))
            check_phase(ck, key, k, lib, int(g["LGsymID"][0]), latt, np.stack([fam["H"], fam["K"], fam["L"]], 1), g["MaterialName"][0].decode("utf-8").rstrip("\0"))
            ck.ok(int(g["SpaceGroupNumber"][0]) == lib.spacegroup, key + ":sg", "space group %s, phase has %s" % (g["SpaceGroupNumber"][0], lib.spacegroup))
        ck.ok(int(H["nColumns"][0]) == ncols and int(H["nRows"][0]) == -(-n // ncols), key + ":dims", "columns %s rows %s for %d points in %d columns" % (
            H["nColumns"][0], H["nRows"][0], n, ncols))
        ck.ok(abs(float(H["Step X"][0]) - xs) < 1e-6 and abs(float(H["Step Y"][0]) - ys) < 1e-6, key + ":step", "steps %s %s, expected %s %s" % (H["Step X"][0], H["Step Y"][0], xs, ys))
        ck.ok(abs(float(H["Sample Tilt"][0]) - 69.5) < 1e-9 and abs(float(H["Camera Elevation Angle"][0]) - 5.25) < 1e-9, key + ":geometry", "tilt/elevation")
        for a, v in zip(("x-star", "y-star", "z-star"), np.ravel(ix.PC)):
            ck.ok(abs(float(H["Pattern Center Calibration/" + a][0]) - v) < 1e-6, key + ":pc", "%s" % a)
        ck.ok(H["Grid Type"][0].decode().rstrip("\0") == kw.get("gridtype", "SqrGrid"), key + ":gridtype", str(H["Grid Type"][0]))


KINDS = (("ang", {}), ("oh5", {"version": "8.6"}), ("oh5", {"version": "9.1"}))


def body(ck):
    from pyebsdindex import tripletvote as tv
    fn = os.path.join(core.SCRATCH, "c22_export")
    ixs = {k: make_indexer(k) for k in (1, 2, 3)}
    big = 5 if core.THOROUGH else 4
    ck.section("shapes and phases")
    for (r, c), nph, (kind, kw) in itertools.product(itertools.product(range(1, 4), range(1, big + 1)), (1, 2, 3), KINDS):
        n = r * c
        ix, libs = ixs[nph]
        for how in ("both", "ncols", "none", "ragged", "numpy", "float"):
            nn, nc, k = n, c, {"ncols": c, "nrows": r}
            if how == "ncols":
                k = {"ncols": c}
            elif how == "none":
                k, nc = {}, 1
            elif how == "ragged":
                if r < 2 or c < 2:
                    continue
                nn = n - 1
                k = {"ncols": c}
            elif how == "numpy":
                k = {"ncols": np.uint64(c), "nrows": np.uint64(r)}
            elif how == "float":
                k = {"ncols": float(c), "nrows": float(r)}
            steps = {} if how == "none" else {"xstep": 0.25, "ystep": 0.4}
            for un in ((), (0,), (nn - 1,)):
                if un and how not in ("both", "none"):
                    continue
                ck.case((r, c, nph, kind, kw.get("version"), how, un))
                one(ck, how + ("" if not un else ":un"), ix, libs, result(ix, nn, nph, un, salt=r), nc, steps.get("xstep", 1.0), steps.get("ystep", 1.0), kind, dict(kw, **k, **steps), fn)
    ck.section("all subsets of unindexed points")
    for n, nph, (kind, kw) in itertools.product((1, 2, 4) if not core.THOROUGH else (1, 2, 4, 6), (1, 3), KINDS):
        ix, libs = ixs[nph]
        for m in range(n + 1):
            for un in itertools.combinations(range(n), m):
                ck.case((n, nph, kind, un))
                one(ck, "subset", ix, libs, result(ix, n, nph, un), n, 1.0, 1.0, kind, dict(kw, ncols=n, nrows=1), fn)
    ck.section("orientations")
    import math
    h = math.sqrt(0.5)
    grid = [q for q in itertools.product((0, 1, -1, 0.5), repeat=4) if any(q)]
    grid = [np.array(q) / np.linalg.norm(q) for q in grid] + [np.array(RR.ax2q([0.2, 1, -0.4, w])) for w in np.linspace(-np.pi, np.pi, 41)]
    for a, b in itertools.product(np.linspace(0, 2 * np.pi, 9), (0, 1e-4, 0.3, np.pi / 2, np.pi - 1e-4, np.pi)):
        grid.append(RR.m2q(RR.eu2m(np.array([a, b, 0.7]))))
    ix, libs = ixs[2]
    for (kind, kw) in KINDS:
        d = result(ix, len(grid), 2)
        d[-1]["quat"] = np.array(grid)
        ck.case(("orientations", kind, len(grid)))
        one(ck, "orientations", ix, libs, d, 7, 0.5, 0.5, kind, dict(kw, ncols=7, nrows=-(-len(grid) // 7), xstep=0.5, ystep=0.5), fn)
    ck.section("grid from the pattern file")

    class Scan:
        pass
    for (r, c), ver, nph, (kind, kw) in itertools.product(((1, 1), (1, 3), (3, 1), (2, 3), (3, 2)), (1, 3), (1, 2), KINDS):
        s = Scan()
        s.W = s.H = 16
        s.ncols, s.nrows, s.hex, s.xstep, s.ystep, s.n = c, r, 0, 0.35, 0.3, r * c
        s.pats = P.ramp(r * c, 16, 16, "u2")
        up = os.path.join(core.SCRATCH, "c22.up2")
        P.up_write(up, s, version=ver)
        good, got = ck.call("file-indexer", make_indexer, nph, up)
        if not good:
            continue
        ix, libs = got
        ck.case((r, c, ver, nph, kind))
        k = {} if ver == 3 else {"ncols": c, "nrows": r, "xstep": 0.35, "ystep": 0.3}
        one(ck, "file%d" % ver, ix, libs, result(ix, r * c, nph), c, 0.35, 0.3, kind, dict(kw, **k), fn)
    ck.section("phases")
    for label, spec in (("trigonal", dict(spacegroup=166, latticeparameter=(0.4, 0.4, 1.1, 90, 90, 120), polefamilies=[[1, 0, 2], [0, 0, 3], [1, 1, 0], [1, 0, -1]])),
                        ("hex6", dict(spacegroup=176, latticeparameter=(0.9, 0.9, 0.69, 90, 90, 120), polefamilies=[[1, 0, -1, 0], [0, 0, 0, 2], [1, 1, -2, 1], [2, -1, -1, 2]])),
                        ("tric", dict(spacegroup=2, latticeparameter=(0.81, 1.28, 0.71, 94, 116, 88), polefamilies=[[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 1, 0]])),
                        ("onefam", dict(spacegroup=225, latticeparameter=(0.4, 0.4, 0.4, 90, 90, 90), polefamilies=[[1, 1, 1]]))):
        good, lib = ck.call("phase:" + label, tv.addphase, phasename="Phase %s no. 1" % label, **spec)
        if not good:
            continue
        for libs, (kind, kw) in itertools.product(([lib], [tv.addphase("FCC"), lib], [lib, tv.addphase("BCC")]), KINDS):
            ix, _ = make_indexer(0, None, libs)
            ck.case((label, len(libs), kind))
            one(ck, "phase:" + label, ix, libs, result(ix, 6, len(libs), (2,)), 3, 0.1, 0.2, kind, dict(kw, ncols=3, nrows=2, xstep=0.1, ystep=0.2), fn)
    ck.section("names and overwriting")
    for (kind, kw), gridtype in itertools.product(KINDS, ("SqrGrid", "HexGrid")):
        ix, libs = ixs[2]
        k = dict(kw, ncols=2, nrows=2, gridtype=gridtype)
        if kind == "oh5":
            k["datasetname"] = "Area 3"
        ck.case(("names", kind, gridtype))
        one(ck, "names", ix, libs, result(ix, 4, 2), 2, 1.0, 1.0, kind, k, fn)
        # onto an older, longer file
        from pyebsdindex import ebsdfile
        with quiet():
            (ebsdfile.writeang if kind == "ang" else ebsdfile.writeoh5)(fn, ix, result(ix, 9, 2), ncols=3, nrows=3)
        d, d0 = result(ix, 4, 2), None
        import shutil
        old = fn + ".old"
        shutil.copyfile(fn, old)
        save = os.unlink
        good, _ = ck.call("overwrite:" + kind, ebsdfile.writeang if kind == "ang" else ebsdfile.writeoh5, old, ix, d, ncols=2, nrows=2)
        if good:
            if kind == "ang":
                ck.ok(len(parse_ang(old)[2]) == 4, "overwrite:ang", "rows left from the older file")
            else:
                import h5py
                with h5py.File(old, "r") as f:
                    ck.ok(f["Scan 1/EBSD/Data/CI"].shape == (4,), "overwrite:oh5", "data left from the older file")
        os.unlink(old)


core.main("C22", "exploration", "every scan shape up to 3x%d x phase count x way of giving the grid x file kind; every subset of unindexed points; a grid of orientations "
          "with all Euler singularities; distinct = distinct file contents" % (5 if core.THOROUGH else 4), body, max_violations=12)

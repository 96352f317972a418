"""C09: every way of requesting patterns from every supported file format returns exactly
what is stored, against an array model; the files come from independent writers."""
import itertools, os, hashlib
from pathlib import Path
import numpy as np
from vlib import core, patfiles as pf
from vlib.idx import quiet
from pyebsdindex import ebsd_pattern as ep


def sha(p):
    return hashlib.sha1(open(p, "rb").read()).hexdigest()


class Case:
    def __init__(self, name, path, scan, openers, head, xy=True, setup=None):
        self.name, self.path, self.scan, self.openers, self.head, self.xy = name, path, scan, openers, head, xy
        self.setup = setup


def std_openers(path, cls):
    def lazy():
        return cls(path)

    def viapath():
        o = cls()
        o.set_filepath(path)
        o.read_header()
        return o

    def up(ext):
        return lambda: ep.get_pattern_file_obj(path, file_type=ext)
    return {"auto": lambda: ep.get_pattern_file_obj(path), "Path": lambda: ep.get_pattern_file_obj(Path(path)),
            "lazy": lazy, "late path": viapath}


def head_of(s, **k):
    d = {"patternW": s.W, "patternH": s.H, "nPatterns": s.n, "nCols": s.ncols, "nRows": s.nrows, "xStep": s.xstep, "yStep": s.ystep}
    d.update(k)
    return {a: b for a, b in d.items() if b is not None}


def build(d, thorough):
    """All file cases."""
    shapes = [(1, 1, 3, 5), (1, 4, 4, 4), (3, 1, 5, 3), (2, 3, 3, 4), (3, 4, 2, 3)]
    if thorough:
        shapes += [(1, 2, 1, 1), (2, 2, 1, 4), (4, 2, 6, 2), (5, 3, 3, 3)]
    out = []
    for (nr, nc, h, w) in shapes:
        n = nr * nc
        tag = "%dx%d,%dx%d" % (nr, nc, h, w)
        fn = lambda ext: os.path.join(d, "f%d.%s" % (len(out), ext))
        for ext, dt in (("up1", "u1"), ("up2", "u2")):
            for hexf in (0, 1):
                s = pf.Scan(pf.ramp(n, h, w, dt), nr, nc, .5, .25, hexf)
                p = fn(ext); pf.up_write(p, s, 3)
                out.append(Case("%s v3 hex%d %s" % (ext, hexf, tag), p, s, std_openers(p, ep.UPFile), head_of(s, hexflag=hexf, version=3)))
            s = pf.Scan(pf.ramp(n, h, w, dt), nr, nc, .5, .25)
            p = fn(ext); pf.up_write(p, s, 3, filepos=64)
            out.append(Case("%s v3 data at 64 %s" % (ext, tag), p, s, std_openers(p, ep.UPFile), head_of(s)))
            for pos in (16, 48):
                s = pf.Scan(pf.ramp(n, h, w, dt), n, 1, 0.0, 0.0)
                p = fn(ext); pf.up_write(p, s, 1, filepos=pos)
                out.append(Case("%s v1 data at %d %s" % (ext, pos, tag), p, s, std_openers(p, ep.UPFile), head_of(s, version=1)))
                s2 = pf.Scan(s.pats, nr, nc, 0.0, 0.0)

                def rc(o, nr=nr, nc=nc):
                    if o.version is None:
                        o.read_header()
                    o.set_scan_rc((nr, nc))
                out.append(Case("%s v1 data at %d set_scan_rc %s" % (ext, pos, tag), p, s2, {"auto": lambda p=p: ep.get_pattern_file_obj(p)}, head_of(s2), setup=rc))
        # EBSP: any order of storage; y falls from row to row, as Oxford's microscope frame
        order = list(range(n))[::2][::-1] + list(range(n))[1::2]
        for ver in (1, 2, 4, 5):
            for dt in ("u1", "u2"):
                xyv = pf.grid(nr, nc, .5, -.25) + [3.25, 7.5]
                for havexy in ((True,) if ver == 1 else (True, False)):
                    s = pf.Scan(pf.ramp(n, h, w, dt), nr, nc, .5, .25, xy=xyv)
                    p = fn("ebsp"); pf.ebsp_write(p, s, ver, havexy, order)
                    if havexy:
                        hd = head_of(s, version=ver, xStep=.5 if nc > 1 else None, yStep=.25 if nr > 1 else None)
                    else:
                        s = pf.Scan(s.pats, n, 1, xy=np.zeros((n, 2)))
                        hd = head_of(s, xStep=None, yStep=None, version=ver)
                    out.append(Case("ebsp v%d %s xy%d %s" % (ver, dt, havexy, tag), p, s, std_openers(p, ep.EBSPFile), hd))
                    # some patterns were not stored by the microscope
                    if n > 2 and ver in (2, 4):
                        for miss in ([0], [n - 1], [1, n // 2 + 1] if n > 3 else [1]):
                            st = np.ones(n, bool); st[miss] = False
                            s3 = pf.Scan(np.where(st[:, None, None], s.pats, 0), s.nrows, s.ncols, xy=np.where(st[:, None], s.xy, 0), stored=st)
                            p = fn("ebsp"); pf.ebsp_write(p, s3, ver, havexy, order)
                            out.append(Case("ebsp v%d %s xy%d without %s %s" % (ver, dt, havexy, miss, tag), p, s3, {"auto": lambda p=p: ep.get_pattern_file_obj(p)},
                                            {"nPatterns": n, "patternW": w, "patternH": h}))
                            if havexy:
                                out[-1].head = None  # slabs need the whole grid, see below
        # ThermoFisher
        for back in (None, pf.ramp(1, h, w, "u2", 5)[0]):
            for step in (None, 0.75):
                s = pf.Scan(pf.ramp(n, h, w, "u2"), nr, nc, step or 1.0, step or 1.0)
                p = fn("pat"); pf.tf_write(p, s, background=back, ebsd_step=step)
                out.append(Case("pat back%d step%s %s" % (back is not None, step, tag), p, s, std_openers(p, ep.TFPatFile), head_of(s, background=back)))
        # selected points instead of a scan: the pixel positions are stored
        if n > 1:
            loc = [(2 * k % 5, 3 * k % 7) for k in range(n)]
            s = pf.Scan(pf.ramp(n, h, w, "u2"), 7, 5, 1.0, 1.0, xy=(np.array(loc) - [2.5, 3.5]) * 1.0)
            for back in (None, pf.ramp(1, h, w, "u2", 5)[0]):
                p = fn("pat"); pf.tf_write(p, s, loc=loc, isscan=False, background=back)
                out.append(Case("pat points back%d %s" % (back is not None, tag), p, s, std_openers(p, ep.TFPatFile),
                                {"nPatterns": n, "xypx": np.array(loc), "isscan": False, "patternW": w, "patternH": h, "background": back}))
                out[-1].noslab = True
        # HDF5 with a plain dataset
        for dt in ("u1", "u2", "i4", "f4"):
            s = pf.Scan(pf.ramp(n, h, w, dt), n, 1, 0.0, 0.0)
            p = fn("h5"); pf.h5_generic(p, {"/a/pats": s, "b": pf.Scan(pf.ramp(n, h, w, dt, 3), n, 1)})
            ops = {"auto": lambda p=p: ep.get_pattern_file_obj([p, "/a/pats"]), "lazy": lambda p=p: ep.HDF5PatFile([p, "/a/pats"]),
                   "h5 type": lambda p=p: ep.get_pattern_file_obj((p, "a/pats"), file_type="H5")}
            out.append(Case("h5 %s %s" % (dt, tag), p, s, ops, head_of(s)))
            s2 = pf.Scan(s.pats, nr, nc, 0.0, 0.0)
            out.append(Case("h5 %s set_scan_rc %s" % (dt, tag), p, s2, {"auto": ops["auto"]}, head_of(s2), setup=lambda o, nr=nr, nc=nc: o.set_scan_rc((nr, nc))))
        # vendor HDF5, with a second scan in the file
        for dt in ("u1", "u2"):
            for hexf in (0, 1):
                s = pf.Scan(pf.ramp(n, h, w, dt), nr, nc, .5, .25, hexf)
                t = pf.Scan(pf.ramp(nc * 2, w + 1, h, dt, 3), 2, nc, .75, .125, 1 - hexf)
                scans = {"Scan 1": s, "Scan 2": t}
                for ext in ("oh5", "h5"):
                    p = fn(ext); pf.oh5(p, scans)
                    out.append(Case("edax %s %s hex%d %s" % (ext, dt, hexf, tag), p, s, std_openers(p, ep.EDAXOH5), head_of(s, hexflag=hexf)))
                    out.append(Case("edax %s %s hex%d second scan %s" % (ext, dt, 1 - hexf, tag), p, t,
                                    {"auto": lambda p=p: ep.get_pattern_file_obj([p, "Scan 2/EBSD/Data/Pattern"])}, head_of(t, hexflag=1 - hexf)))
                p = fn("h5"); pf.kikuchipy(p, scans, "0.8.7" if hexf else "0.11.1")
                out.append(Case("kikuchipy %s hex%d %s" % (dt, hexf, tag), p, s, std_openers(p, ep.KIKUCHIPYH5), head_of(s, hexflag=hexf)))
                out.append(Case("kikuchipy %s hex%d second scan %s" % (dt, 1 - hexf, tag), p, t,
                                {"auto": lambda p=p: ep.get_pattern_file_obj([p, "Scan 2/EBSD/Data/patterns"])}, head_of(t, hexflag=1 - hexf)))
            p = fn("h5"); pf.bruker(p, scans)
            out.append(Case("bruker %s %s" % (dt, tag), p, s, std_openers(p, ep.BRUKERH5), head_of(s)))
            xyv = pf.grid(nr, nc, .5, .25) + [11.5, -2.25]
            s = pf.Scan(s.pats, nr, nc, .5, .25, xy=xyv)
            for which in (("Processed Patterns",), ("Raw Patterns",), ("Processed Patterns", "Raw Patterns")):
                p = fn("h5oina"); pf.oina(p, {"1": s}, which)
                out.append(Case("oina %s %s %s" % ("+".join(which), dt, tag), p, s, std_openers(p, ep.OXFORDOINA), head_of(s)))
            out.append(Case("oina raw by path %s %s" % (dt, tag), p, pf.Scan(255 - s.pats, nr, nc, .5, .25, xy=xyv),
                            {"auto": lambda p=p: ep.get_pattern_file_obj([p, "1/EBSD/Data/Raw Patterns"])}, head_of(s)))
    return out


def requests(s, slabs=True):
    n, out = s.n, []
    for a in range(n):
        for c in [-1] + list(range(0, n - a + 3)):
            stop = n if c == -1 else min(n, a + max(1, c))
            out.append(([a, c], list(range(a, stop))))
    if slabs:
        for c0 in range(s.ncols):
            for r0 in range(s.nrows):
                for nc in [-1] + list(range(1, s.ncols - c0 + 2)):
                    for nr in [-1] + list(range(1, s.nrows - r0 + 2)):
                        cs = range(c0, s.ncols if nc == -1 else min(s.ncols, c0 + nc))
                        rs = range(r0, s.nrows if nr == -1 else min(s.nrows, r0 + nr))
                        out.append(([[c0, r0], [nc, nr]], [r * s.ncols + c for r in rs for c in cs]))
    return out


def fmt(name):
    return name.split(" ")[0] + ("_" + name.split(" ")[1] if name.split(" ")[0] in ("up1", "up2", "ebsp") else "")


def body(ck):
    d = os.path.join(core.SCRATCH, "c09")
    os.makedirs(d)
    ck.split(4)
    cases = build(d, core.THOROUGH)
    if not ck.child:
        ck.extra["files"] = len(cases)
    forms = [("list", lambda r: r), ("array", lambda r: np.array(r))]
    for cs in cases:
        if not ck.mine():
            continue
        s, before, stat = cs.scan, sha(cs.path), os.stat(cs.path).st_mtime_ns
        ck.section(fmt(cs.name))
        key = cs.name.rsplit(" ", 1)[0].replace(" ", "_")
        xyexp = s.xy
        slabs = not getattr(cs, "noslab", False) and cs.head is not None

        def check(o, req, idx, fl, arr, how):
            ck.case({"file": cs.name, "request": req, "float": fl, "array_only": arr, "opened": how})
            ck.transitions += 1
            with quiet():
                ok, r = ck.call(key + ":read", lambda: o.read_data(patStartCount=req, convertToFloat=fl, returnArrayOnly=arr))
            if not ok:
                return
            if arr:
                P, xy = r
            else:
                P, xy = r.patterns, r.xyLocations
                want = [("patternW", s.W), ("patternH", s.H), ("xStep", o.xStep), ("nFileCols", o.nCols), ("nFileRows", o.nRows)]
                for a, b in want:
                    ck.ok(getattr(r, a) == b, key + ":object:" + a, lambda: "%s request %s: %s is %s, not %s" % (cs.name, req, a, getattr(r, a), b))
                ck.ok(int(np.prod(np.asarray(r.nPatterns, dtype=float))) == len(idx), key + ":object:nPatterns",
                      lambda: "%s request %s: nPatterns %s for %d patterns" % (cs.name, req, r.nPatterns, len(idx)))
            exp = s.pats[idx]
            ck.outcome((P, cs.name))
            if not ck.ok(P.shape == exp.shape, key + ":shape", lambda: "%s opened %s request %s: shape %s, should be %s" % (cs.name, how, req, P.shape, exp.shape)):
                return
            ty = np.float32 if fl else s.pats.dtype
            ck.ok(P.dtype == ty, key + ":type", lambda: "%s request %s float %s: type %s, should be %s" % (cs.name, req, fl, P.dtype, ty))
            good = P == exp.astype(ty)
            ck.ok(good.all(), key + ":values", lambda: "%s opened %s request %s: wrong pattern(s) at place(s) %s (patterns %s)" % (
                cs.name, how, req, np.nonzero(~good.all(axis=(1, 2)))[0].tolist(), [idx[k] for k in np.nonzero(~good.all(axis=(1, 2)))[0]]))
            gx = np.isclose(xy, xyexp[idx], rtol=1e-5, atol=1e-5)
            ck.ok(np.shape(xy) == (len(idx), 2) and gx.all(), key + ":positions", lambda: "%s opened %s request %s: positions %s, should be %s" % (
                cs.name, how, req, np.asarray(xy).tolist(), xyexp[idx].tolist()))

        R = requests(s, slabs)
        for how, opener in cs.openers.items():
            ck.case({"file": cs.name, "opened": how})
            with quiet():
                ok, o = ck.call(key + ":open", opener)
            if not ok:
                continue
            if cs.setup:
                cs.setup(o)
            if how == "lazy":
                # the first request on an object whose header has not been read
                req, idx = R[min(1, len(R) - 1)]
                check(o, req, idx, False, True, how + ", first")
            if cs.head is not None:
                for a, b in cs.head.items():
                    v = getattr(o, a, None)
                    if b is None:
                        continue
                    good = v is not None and np.shape(v) in (np.shape(b), (1,)) and np.all(np.isclose(np.asarray(v, dtype=float), np.asarray(b, dtype=float)))
                    ck.ok(good, key + ":header:" + a, lambda: "%s opened %s: %s is %s, stored %s" % (cs.name, how, a, v, b))
            # one live object through all requests, in both value forms
            full = how == "auto"
            for k, (req, idx) in enumerate(R if full else R[::max(1, len(R) // 6)]):
                fn_, conv = forms[k % 2]
                check(o, conv(req), idx, bool(k & 2), bool(k % 3), how)
        # every request as the first one of a new object, and with the other value forms
        if core.THOROUGH or s.n <= 6:
            for k, (req, idx) in enumerate(R):
                with quiet():
                    ok, o = ck.call(key + ":open", cs.openers["auto"])
                if not ok:
                    break
                if cs.setup:
                    cs.setup(o)
                check(o, req, idx, not (k & 2), not (k % 3), "new object")
        ck.ok(sha(cs.path) == before, key + ":changed", lambda: "%s: reading changed the file" % cs.name)
        ck.state(cs.name)
        ck.traces += 1
    # two objects on two files, interleaved; one object moved to another file
    ck.section("interleaved")
    with quiet():
        groups = {}
        for cs in cases:
            if cs.head is not None and "auto" in cs.openers and not cs.setup:
                groups.setdefault(cs.name.split(" ")[0], []).append(cs)
        picks = [g[k] for g in groups.values() for k in (0, len(g) // 2, -1)]
    for a, b in itertools.product(picks, picks):
        if a is b or not ck.mine():
            continue
        ck.case({"first": a.name, "second": b.name})
        with quiet():
            oa, ob = a.openers["auto"](), b.openers["auto"]()
            seq = [(oa, a), (ob, b), (oa, a)]
            for o, cs in seq:
                P, _ = o.read_data(patStartCount=[0, -1], returnArrayOnly=True)
                ck.ok(P.shape == cs.scan.pats.shape and (P == cs.scan.pats).all(), "interleaved", lambda: "%s read between %s" % (cs.name, [x[1].name for x in seq]))
            if type(oa) is type(ob) and not isinstance(oa, ep.HDF5PatFile) and a.scan.pats.dtype == b.scan.pats.dtype:
                ok, r = ck.call("path:" + a.name.split(" ")[0], lambda: oa.read_data(path=b.path, patStartCount=[0, -1], returnArrayOnly=True))
                if ok:
                    P = r[0]
                    ck.ok(P.shape == b.scan.pats.shape and (P == b.scan.pats).all(), "path:" + a.name.split(" ")[0],
                          lambda: "read_data(path=%s) on an object opened on %s gives other patterns" % (b.name, a.name))
    ck.assumptions += ["files are written by independent writers that follow the layouts documented in the code and the vendors' H5EBSD conventions"]


if __name__ == "__main__":
    core.main("C09", "model_checking", "a behaviour = one read request on one file in one opening state; all (start,count) windows and all rectangular slabs, clipped and unclipped, of every file variant", body)

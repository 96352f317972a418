"""C10: all short histories of writes, header rewrites, copies and re-openings of pattern
files against an array model; the bytes on disk are parsed by independent parsers."""
import itertools, os, shutil
import numpy as np
from vlib import core, patfiles as pf
from vlib.idx import quiet
from pyebsdindex import ebsd_pattern as ep


class F:
    """A file format variant: how to make a start file, open it, and what stands on disk."""

    def __init__(self, name, ext, make, parse, dtype, opener=None, blank=True, slabs=True, h5=False, pathof=None):
        self.name, self.ext, self.make, self.parse, self.dtype = name, ext, make, parse, np.dtype(dtype)
        self.opener = opener or (lambda p: ep.get_pattern_file_obj(p))
        self.blank, self.slabs, self.h5 = blank, slabs, h5


def up(ver, ext, pos=None, hexf=0):
    dt = "u1" if ext == "up1" else "u2"

    def make(p, s):
        s.hex = hexf
        if ver == 1:
            s.xstep = s.ystep = 0.0
        pf.up_write(p, s, ver, filepos=pos)

    def parse(p, s):
        d = pf.up_parse(p, dt)
        h = {k: d.get(k) for k in ("version", "W", "H", "pos", "ncols", "nrows", "hex", "xstep", "ystep", "extra", "gap", "rest")}
        return d["pats"], h

    def op(p):
        o = ep.get_pattern_file_obj(p)
        if ver == 1:
            o.set_scan_rc((2, 2))
        return o
    return F("%s v%d%s" % (ext, ver, "" if pos is None else " at %d" % pos), ext, make, parse, dt, opener=op)


def ebsp(ver, dt, xy=True, order=None, miss=()):
    def make(p, s):
        s.xy = pf.grid(s.nrows, s.ncols, .5, -.25) + [3.25, 7.5]
        s.stored = np.ones(s.n, bool)
        for m in miss:
            s.stored[m] = False
            s.pats[m] = 0
        pf.ebsp_write(p, s, ver, xy, order)

    def parse(p, s):
        d = pf.ebsp_parse(p, s.n, dt, ver, xy)
        a = np.array([np.zeros((s.H, s.W), dt) if v is None else v for v in d["pats"]])
        return a, {"version": d["version"], "offsets": d["offsets"], "positions": d["xy"], "heads": d["heads"], "size": d["size"]}

    def op(p):
        o = ep.get_pattern_file_obj(p)
        if not xy:
            o.set_scan_rc((2, 2))
        return o
    return F("ebsp v%d %s%s%s%s" % (ver, dt, "" if xy else " no positions", "" if order is None else " out of order", " without %s" % list(miss) if miss else ""),
             "ebsp", make, parse, dt, opener=op, blank=not miss)


def tf(back, points=False):
    def make(p, s):
        s.xstep = s.ystep = 1.0
        b = pf.ramp(1, s.H, s.W, "u2", 9)[0] if back else None
        loc = [(4, 1), (0, 2), (3, 3), (2, 0)] if points else None
        pf.tf_write(p, s, background=b, loc=loc, isscan=not points)
        if not points:
            with open(os.path.splitext(p)[0] + ".ebsd", "wb") as f:
                import struct
                f.write(b"x" * 30 + struct.pack("<d", .75) + b"y" * 37)

    def parse(p, s):
        d = pf.tf_parse(p)
        return d["pats"], {k: d[k] for k in ("version", "ncols", "nrows", "W", "H", "isscan", "bitdepth", "back", "loc", "rest")}
    return F("pat%s%s" % (" background" if back else "", " points" if points else ""), "pat", make, parse, "u2", slabs=not points)


def h5(kind, dt):
    name = {"generic": "/a/pats", "edax": "Scan 1/EBSD/Data/Pattern", "kikuchipy": "Scan 1/EBSD/Data/patterns",
            "bruker": "Scan 1/EBSD/Data/RawPatterns", "oina": "1/EBSD/Data/Processed Patterns"}[kind]

    def make(p, s):
        t = pf.Scan(pf.ramp(6, s.H, s.W, dt, 3), 2, 3, .75, .125)
        if kind == "generic":
            pf.h5_generic(p, {"/a/pats": s, "b": t})
        elif kind == "oina":
            pf.oina(p, {"1": s}, ("Processed Patterns", "Raw Patterns"))
        else:
            {"edax": pf.oh5, "kikuchipy": pf.kikuchipy, "bruker": pf.bruker}[kind](p, {"Scan 1": s, "Scan 2": t})

    def parse(p, s):
        import h5py
        with h5py.File(p, "r") as f:
            a = f[name][()]
        t = pf.h5_tree(p)
        t.pop(name.strip("/"))
        return a, t

    def op(p):
        o = ep.get_pattern_file_obj([p, name] if kind == "generic" else p)
        if kind == "generic":
            o.set_scan_rc((2, 2))
        return o
    return F("%s h5 %s" % (kind, dt), {"edax": "oh5", "oina": "h5oina"}.get(kind, "h5"), make, parse, dt, opener=op, blank=False, h5=True)


def formats():
    out = [up(3, "up1"), up(3, "up2", hexf=1), up(3, "up2", 64), up(1, "up1"), up(1, "up2", 48)]
    out += [ebsp(2, "u1"), ebsp(2, "u2", order=[2, 0, 3, 1]), ebsp(1, "u2"), ebsp(4, "u1", xy=False), ebsp(5, "u2", order=[3, 1, 0, 2]), ebsp(4, "u2", miss=(2,)),
            ebsp(2, "u1", xy=False, miss=(0,))]
    out += [tf(False), tf(True), tf(True, True)]
    out += [h5("generic", "u1"), h5("generic", "u2"), h5("edax", "u1"), h5("edax", "u2"), h5("kikuchipy", "u1"), h5("bruker", "u1"), h5("oina", "u2")]
    return out


def eq(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == np.shape(b) and bool(np.all(a == b))
    return a == b


def differs(a, b):
    return [k for k in sorted(set(a) | set(b)) if not eq(a.get(k), b.get(k))]


OPS = ["one", "run", "clip", "slab", "slab1", "all", "head", "copy", "empty", "switch", "reopen", "newpath", "object", "objslab", "float"]


class World:
    def __init__(self, f, d, shape=(2, 2, 3, 4)):
        self.f, self.d = f, d
        nr, nc, h, w = shape
        for x in os.listdir(d):
            p = os.path.join(d, x)
            os.remove(p)
        s = pf.Scan(pf.ramp(nr * nc, h, w, f.dtype), nr, nc, .5, .25)
        p = os.path.join(d, "a." + f.ext)
        f.make(p, s)
        self.shape = shape
        self.stored = s.stored
        self.scan = s
        a, hd = f.parse(p, s)
        assert (a == s.pats).all()
        self.model = {p: [s.pats.copy(), hd, np.zeros(s.n, bool), True]}  # patterns, header, unknown patterns, header bytes known
        self.side = {x: open(os.path.join(d, x), "rb").read() for x in os.listdir(d) if x.endswith(".ebsd")}
        self.cur = self.first = p
        self.obj = f.opener(p)
        self.obj.nCols, self.obj.nRows = (self.obj.nCols, self.obj.nRows)
        self.k = 0

    def fresh(self, n, dtype=None):
        self.k += 1
        a = pf.ramp(n, self.shape[2], self.shape[3], self.f.dtype, 17 * self.k)
        if self.f.dtype.kind == "u" and self.f.ext == "pat":
            pass
        return a

    def put(self, idx, a):
        m = self.model[self.cur]
        for i, v in zip(idx, a):
            if self.stored[i]:
                m[0][i] = v
                m[2][i] = False

    def write(self, req, idx, **k):
        a = self.fresh(len(idx))
        keep = a.copy()
        self.obj.write_data(newpatterns=a, patStartCount=req, **k)
        assert_eq(a, keep)
        self.put(idx, a)

    def apply(self, op):
        """Returns False if the operation does not apply in this state."""
        nr, nc, h, w = self.shape
        n = nr * nc
        if op == "one":
            a = self.fresh(1)
            self.obj.write_data(newpatterns=a[0], patStartCount=[1, 1])
            self.put([1], a)
        elif op == "run":
            self.write([1, 2], [1, 2])
        elif op == "clip":  # two patterns offered, room for one
            a = self.fresh(2)
            self.obj.write_data(newpatterns=a, patStartCount=np.array([n - 1, 2]))
            self.put([n - 1], a[:1])
        elif op == "slab":  # the second column
            if not self.f.slabs:
                return False
            self.write([[1, 0], [1, -1]], [r * nc + 1 for r in range(nr)])
        elif op == "slab1":  # the last row, reaching over the end
            if not self.f.slabs:
                return False
            a = self.fresh(nc)
            self.obj.write_data(newpatterns=a, patStartCount=np.array([[0, nr - 1], [-1, 3]]))
            self.put(range((nr - 1) * nc, n), a)
        elif op == "all":
            self.write([0, -1], list(range(n)))
        elif op == "float":  # floating point patterns whose values fit, clipped
            a = self.fresh(n)
            b = a.astype(np.float64) if self.f.dtype.itemsize > 2 else a.astype(np.float32)
            self.obj.write_data(newpatterns=b, patStartCount=[0, n])
            self.put(range(n), a)
        elif op == "object":  # patterns held in an object that was read from the file
            r = self.obj.read_data(patStartCount=[2, 1])
            r.patterns = r.patterns + 1
            a = r.patterns.copy()
            self.obj.write_data(newpatterns=r, patStartCount=[0, 1])
            if self.model[self.cur][2][2]:
                m = self.model[self.cur]
                if self.stored[0]:
                    m[2][0] = True
            else:
                self.put([0], a)
        elif op == "objslab":  # patterns read as a slab, written as a run
            if not self.f.slabs:
                return False
            r = self.obj.read_data(patStartCount=[[0, nr - 1], [-1, 1]])
            m = self.model[self.cur]
            if m[2][(nr - 1) * nc:].any():
                return False
            r.patterns = r.patterns // 2
            a = r.patterns.copy()
            self.obj.write_data(newpatterns=r, patStartCount=[0, -1])
            self.put(range(nc), a)
        elif op == "head":
            self.write([0, 1], [0], writeHead=True)
        elif op in ("copy", "empty"):
            dst = os.path.join(self.d, ("b." if op == "copy" else "c.") + self.f.ext)
            if dst in self.model:
                return False
            if op == "copy":
                self.obj.copy_file(dst)
            else:
                self.obj.copy_file(dst, empty_data=True)
            m = self.model[self.cur]
            self.model[dst] = [m[0].copy(), m[1], m[2].copy() if op == "copy" else (self.stored.copy()), m[3] if op == "copy" else False]
            x = os.path.splitext(os.path.basename(self.cur))[0] + ".ebsd"
            if x in self.side:
                self.side[os.path.splitext(os.path.basename(dst))[0] + ".ebsd"] = self.side[x]
        elif op == "switch":
            if len(self.model) < 2:
                return False
            ks = list(self.model)
            self.cur = ks[(ks.index(self.cur) + 1) % len(ks)]
            self.obj = self.open(self.cur)
        elif op == "reopen":
            self.obj = self.open(self.cur)
        elif op == "newpath":  # the object is pointed to a file that does not exist yet
            if not self.f.blank:
                return False
            dst = os.path.join(self.d, "n." + self.f.ext)
            if dst in self.model:
                return False
            self.obj.set_filepath(dst)
            m = self.model[self.cur]
            self.cur = dst
            self.model[dst] = [np.zeros_like(m[0]), m[1], np.zeros(n, bool), "new"]
            self.write([1, 1], [1])
        return True

    def open(self, p):
        if self.f.ext == "pat" and p.endswith(".pat"):
            pass
        return self.f.opener(p)

    def verify(self, ck, key, hist):
        seen = set(os.listdir(self.d))
        want = {os.path.basename(p) for p in self.model} | set(self.side)
        ck.ok(seen == want, key + ":files", lambda: "%s after %s: files %s, should be %s" % (self.f.name, hist, sorted(seen), sorted(want)))
        for x, b in self.side.items():
            ck.ok(open(os.path.join(self.d, x), "rb").read() == b, key + ":side", lambda: "%s after %s: %s changed" % (self.f.name, hist, x))
        for p, (a, hd, unk, mode) in self.model.items():
            ok, r = ck.call(key + ":parse", lambda: self.f.parse(p, self.scan))
            if not ok:
                continue
            got, gh = r
            name = os.path.basename(p)
            if not ck.ok(got.shape == a.shape, key + ":number", lambda: "%s after %s: %s holds %s patterns, should be %s" % (self.f.name, hist, name, got.shape, a.shape)):
                continue
            good = (got == a).all(axis=(1, 2)) | unk
            ck.ok(good.all(), key + ":patterns", lambda: "%s after %s: patterns %s of %s are wrong (on disk %s, should be %s)" % (
                self.f.name, hist, np.nonzero(~good)[0].tolist(), name, got[~good][0].ravel()[:4].tolist(), a[~good][0].ravel()[:4].tolist()))
            bad = differs(gh, hd)
            if mode == "new":  # a new file has its own layout
                bad = [k for k in bad if k not in ("offsets", "positions", "heads", "size", "loc", "gap", "pos") or (k == "loc" and self.f.slabs)]
            elif mode is False or (unk.any() and not self.f.h5):
                bad = [k for k in bad if k not in ("positions", "heads", "loc")] if mode is False else bad
            ck.ok(not bad, key + ":header", lambda: "%s after %s: %s of %s changed: %s, should be %s" % (
                self.f.name, hist, bad, name, [gh.get(k) for k in bad], [hd.get(k) for k in bad]))
            # a later operation must keep what this file now holds
            if mode == "new":
                ok, o = ck.call(key + ":open new", lambda: (self.open(p), self.open(self.first)))
                if ok:
                    bad = [k for k in ("nCols", "nRows", "xStep", "yStep", "patternW", "patternH", "nPatterns", "filedatatype") if not (self.side and "Step" in k) and not eq(getattr(o[0], k), getattr(o[1], k))
                           and not (k in ("xStep", "yStep") and np.isclose(getattr(o[0], k), getattr(o[1], k)))]
                    ck.ok(not bad, key + ":new header", lambda: "%s after %s: the new file has %s, the first %s" % (
                        self.f.name, hist, {k: getattr(o[0], k) for k in bad}, {k: getattr(o[1], k) for k in bad}))
                self.model[p][1], self.model[p][3] = gh, True
        # the code's own reading agrees: through the live object and through a new one
        a, hd, unk, mode = self.model[self.cur]
        for how in ("live", "new"):
            ok, r = ck.call(key + ":read back", lambda: (self.obj if how == "live" else self.open(self.cur)).read_data(patStartCount=[0, -1], returnArrayOnly=True))
            if ok:
                good = r[0].shape == a.shape and ((r[0] == a).all(axis=(1, 2)) | unk).all()
                ck.ok(good, key + ":read back", lambda: "%s after %s: reading with the %s object gives other patterns" % (self.f.name, hist, how))
        ck.outcome([self.model[p][0] for p in sorted(self.model)])
        ck.state((self.f.name, [(os.path.basename(p), self.model[p][0], self.model[p][2]) for p in sorted(self.model)], self.cur))


def assert_eq(a, b):
    assert (a == b).all(), "the caller's patterns were changed"


def run(ck, f, d, hist, key):
    with quiet():
        w = World(f, d)
        for k, op in enumerate(hist):
            ck._case = {"format": f.name, "history": hist}
            ok, r = ck.call(key + ":" + op, lambda: w.apply(op))
            if not ok:
                return "error"
            if r is False:
                return False
            ck.transitions += 1
            if k < len(hist) - 1 and w.model[w.cur][3] == "new":
                a, hd = f.parse(w.cur, w.scan)
                w.model[w.cur][1], w.model[w.cur][3] = hd, True
        w.verify(ck, key, "+".join(hist))
    return True


def body(ck):
    d = os.path.join(core.SCRATCH, "c10")
    os.makedirs(d)
    only = os.environ.get("C10_ONLY")
    deep = ("up2 v3 at 64", "ebsp v2 u2 out of order", "ebsp v5 u2 out of order", "pat background")
    for f in formats():
        if only and only not in f.name:
            continue
        depth = (4 if core.THOROUGH else 3) if f.name in deep else (3 if core.THOROUGH else 2)
        ck.section(f.name)
        key = f.name.replace(" ", "_")
        done = [()]
        for lev in range(1, depth + 1):
            nxt = []
            for h in done:
                for op in OPS:
                    hist = h + (op,)
                    r = run(ck, f, d, hist, key)
                    if r is True:
                        ck.case({"format": f.name, "history": "+".join(hist)})
                        nxt.append(hist)
            done = nxt
        ck.traces += 1
    ck.section("new file from patterns")
    for ext, dt in (("up1", "u1"), ("up2", "u2")):
        for n in (1, 2, 5):
            for kind in ("array", "2d", "object"):
                if kind == "2d" and n > 1:
                    continue
                for where in ("attribute", "argument"):
                    P = pf.ramp(n, 3, 4, dt)
                    for req, idx in (([0, -1], range(n)), ([n - 1, 1], [n - 1])):
                        p = os.path.join(d, "new_%d.%s" % (ck.evaluations, ext))
                        ck.case({"new file": ext, "n": n, "from": kind, "path as": where, "request": req})
                        o = ep.UPFile()
                        if where == "attribute":
                            o.set_filepath(p)
                        src = P[0] if kind == "2d" else P
                        if kind == "object":
                            src = ep.EBSDPatterns(); src.patterns = P; src.nPatterns = np.array([n]); src.patternH, src.patternW = 3, 4
                        with quiet():
                            ok, _ = ck.call("new:header", lambda: o.file_from_pattern_obj(src) if where == "attribute" else o.file_from_pattern_obj(src, filepath=p))
                            if ok:
                                ok, _ = ck.call("new:write", lambda: o.write_data(newpatterns=P[list(idx)], patStartCount=req))
                        if not ok:
                            continue
                        ck.transitions += 2
                        exp = np.zeros_like(P); exp[list(idx)] = P[list(idx)]
                        okf = ck.ok(os.path.exists(p), "new:file", lambda: "no file %s was written" % p)
                        if okf:
                            g = pf.up_parse(p, dt)
                            ck.ok(g["pats"].shape == exp.shape and (g["pats"] == exp).all() and (g["W"], g["H"]) == (4, 3) and g["ncols"] * g["nrows"] == n and g["rest"] == 0, "new:content",
                                  lambda: "new %s of %d patterns (%s), written %s: on disk %s" % (ext, n, kind, req, {k: v for k, v in g.items() if k != "pats"}))
    if not only:
        h5copies(ck, d)


def h5copies(ck, d):
    """Copies of one dataset within a file and into another file."""
    ck.section("h5 dataset copies")
    for kind, dt in (("edax", "u1"), ("edax", "u2"), ("kikuchipy", "u1"), ("bruker", "u1")):
        f = h5(kind, dt)
        pn = {"edax": "Pattern", "kikuchipy": "patterns", "bruker": "RawPatterns"}[kind]
        for where, newname, there in itertools.product(("same file", "new file", "existing file"), (None, "Copy 1"), (0, 1)):
            for x in os.listdir(d):
                os.remove(os.path.join(d, x))
            w = World(f, d)
            src = w.cur
            before = pf.h5_tree(src)
            dst = src if where == "same file" else os.path.join(d, "z." + f.ext)
            if where == "existing file":
                import h5py
                with h5py.File(dst, "w") as g:
                    g["mine"] = np.arange(3)
                    if there:
                        g["Scan 1/old"] = np.arange(2)
            elif there:
                continue
            kw = {} if newname is None else {"newh5path": newname}
            ck.case({"format": f.name, "copy": where, "to": newname, "group there": there})
            ck.transitions += 1
            with quiet():
                ok, _ = ck.call("h5copy", lambda: w.obj.copy_file([dst, "Scan 1"], **kw))
            if not ok:
                continue
            after = pf.h5_tree(src)
            ck.ok(all(eq(after.get(k), v) for k, v in before.items()), "h5copy:source", lambda: "copying (%s) changed the source" % where)
            t = pf.h5_tree(dst)
            grp = {k[len("Scan 1/"):]: v for k, v in before.items() if k.startswith("Scan 1/")}
            names = [newname] if newname else (["Scan 1"] if where != "same file" else sorted({k.split("/")[0] for k in t} - {k.split("/")[0] for k in before}))
            ck.ok(len(names) == 1, "h5copy:name", lambda: "copy in the same file made groups %s" % names)
            for nm in names[:1]:
                got = {k[len(nm) + 1:]: v for k, v in t.items() if k.startswith(nm + "/")}
                ck.ok(eq(got, grp), "h5copy:content", lambda: "copy (%s, %s): the copied group differs in %s" % (where, newname, differs(got, grp)))
            if where == "existing file":
                ck.ok("mine" in t, "h5copy:other", lambda: "copying removed other data of the target")
            ck.outcome((where, newname, sorted(t)))


core.main("C10", "model_checking", "a behaviour = one operation history on one format variant, replayed from a newly made file; after it every file on disk is parsed by an independent parser and compared with the array model", body)

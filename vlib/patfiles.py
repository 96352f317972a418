"""Independent writers and parsers of the pattern file formats (struct/numpy/h5py
only; nothing of the code under test).  A Scan is the array model of a file."""
import os, struct
import numpy as np


class Scan:
    def __init__(self, pats, nrows, ncols, xstep=0.5, ystep=0.25, hex=0, xy=None, stored=None, **extra):
        self.pats = np.asarray(pats)
        self.nrows, self.ncols, self.xstep, self.ystep, self.hex = nrows, ncols, xstep, ystep, hex
        self.n, self.H, self.W = self.pats.shape
        self.xy = xy if xy is not None else grid(nrows, ncols, xstep, ystep)[:self.n]
        self.stored = np.ones(self.n, bool) if stored is None else np.asarray(stored, bool)
        self.extra = extra

    def copy(self):
        s = Scan(self.pats.copy(), self.nrows, self.ncols, self.xstep, self.ystep, self.hex, self.xy.copy(), self.stored.copy())
        s.extra = dict(self.extra)
        return s


def grid(nrows, ncols, xs, ys):
    r, c = np.divmod(np.arange(nrows * ncols), ncols)
    return np.stack([(c - 0.5 * ncols) * xs, (r - 0.5 * nrows) * ys], 1)


def ramp(n, h, w, dtype, salt=0):
    """Patterns in which every pixel value identifies pattern and pixel, up to the largest value."""
    dt = np.dtype(dtype)
    if dt.kind == "f":
        return (np.arange(n * h * w, dtype=np.float64) * 0.37 - 3 + salt).reshape(n, h, w).astype(dt)
    top = int(np.iinfo(dt).max)
    v = (np.arange(n * h * w, dtype=object) * 7919 + 13 + 101 * salt) % (top + 1)
    v = np.array(v, dtype=dt).reshape(n, h, w)
    v[0, 0, 0] = top
    v[-1, -1, -1] = 0 if n * h * w > 1 else v[-1, -1, -1]
    return v


# ---------------------------------------------------------------- EDAX UP
def up_write(path, s, version=3, filepos=None, gap=b""):
    with open(path, "wb") as f:
        if version == 1:
            pos = 16 if filepos is None else filepos
            f.write(struct.pack("<4I", 1, s.W, s.H, pos))
        else:
            pos = 42 if filepos is None else filepos
            f.write(struct.pack("<4IB2IB2d", version, s.W, s.H, pos, 0, s.ncols, s.nrows, s.hex, s.xstep, s.ystep))
        f.write(b"\xa5" * (pos - f.tell()))
        f.write(s.pats.astype(s.pats.dtype.newbyteorder("<")).tobytes())


def up_parse(path, dtype):
    b = open(path, "rb").read()
    ver, w, h, pos = struct.unpack_from("<4I", b, 0)
    d = {"version": ver, "W": w, "H": h, "pos": pos}
    if ver >= 3:
        d["extra"], d["ncols"], d["nrows"], d["hex"], d["xstep"], d["ystep"] = struct.unpack_from("<B2IB2d", b, 16)
    body = np.frombuffer(b, np.dtype(dtype).newbyteorder("<"), offset=pos)
    d["n"] = body.size // (w * h)
    d["pats"] = body[:d["n"] * w * h].reshape(d["n"], h, w).astype(dtype)
    d["rest"] = len(b) - pos - d["n"] * w * h * np.dtype(dtype).itemsize
    d["gap"] = b[16 if ver == 1 else 42:pos]
    return d


# ---------------------------------------------------------------- Oxford EBSP
def ebsp_write(path, s, version=2, havexy=True, order=None):
    """order: order in which the patterns stand in the file (default reversed pairs)."""
    n = s.n
    order = list(range(n)) if order is None else list(order)
    head = b""
    if version >= 1:
        head += struct.pack("<q", -version)
    if version >= 4:
        head += b"\x00"
    extra = struct.pack("<2I", s.H, s.W) if version >= 5 else b""
    off = len(head) + 8 * n + len(extra)
    offsets = [0] * n
    body = b""
    for i in order:
        if not s.stored[i]:
            continue
        offsets[i] = off + len(body)
        data = s.pats[i].astype(s.pats.dtype.newbyteorder("<")).tobytes()
        if version >= 5:
            ph = struct.pack("<6I", 0, 0, 0, s.H, s.W, len(data))
        else:
            ph = struct.pack("<4I", 0, s.H, s.W, len(data))
        foot = b""
        if version == 1:
            foot = struct.pack("<2d", *s.xy[i])
        elif version >= 2:
            foot = struct.pack("<BdBd", 1, s.xy[i][0], 1, s.xy[i][1]) if havexy else b"\x00"
        body += ph + data + foot
    with open(path, "wb") as f:
        f.write(head + struct.pack("<%dQ" % n, *offsets) + extra + body)


def ebsp_parse(path, n, dtype, version, havexy):
    """Parse knowing what should be there; returns pats, xy, headers."""
    b = open(path, "rb").read()
    p = 0
    if version >= 1:
        ver = -struct.unpack_from("<q", b, 0)[0]
        p = 8
    else:
        ver = 0
    if version >= 4:
        p += 1
    offs = struct.unpack_from("<%dQ" % n, b, p)
    hd = 24 if version >= 5 else 16
    pats, xy, heads, spans = [], [], [], []
    for o in offs:
        if o == 0:
            pats.append(None); xy.append(None); heads.append(None)
            continue
        h = struct.unpack_from("<%dI" % (hd // 4), b, o)
        H, W, nb = h[-3], h[-2], h[-1]
        a = np.frombuffer(b, np.dtype(dtype).newbyteorder("<"), H * W, o + hd).reshape(H, W).astype(dtype)
        q = o + hd + nb
        pos, end = None, q
        if version == 1:
            pos = struct.unpack_from("<2d", b, q); end = q + 16
        elif version >= 2:
            flag = b[q]
            if flag:
                _, x, f2, y = struct.unpack_from("<BdBd", b, q)
                pos = (x, y); end = q + 18
            else:
                end = q + 1
        pats.append(a); xy.append(pos); heads.append((h[0], H, W, nb))
        spans.append((o, end))
    return {"version": ver, "offsets": offs, "pats": pats, "xy": xy, "heads": heads, "spans": sorted(spans), "size": len(b)}


# ---------------------------------------------------------------- ThermoFisher .pat
def tf_write(path, s, loc=None, isscan=True, bitdepth=16, background=None, ebsd_step=None):
    r, c = np.divmod(np.arange(s.n), s.ncols)
    loc = np.stack([c, r], 1) if loc is None else np.asarray(loc)
    with open(path, "wb") as f:
        f.write(struct.pack("<5I", 1, s.ncols, s.nrows, s.W, s.H))
        f.write(struct.pack("<hBh", -1 if isscan else 0, bitdepth, 0 if background is None else -1))
        if background is not None:
            f.write(np.asarray(background).astype("<u2").tobytes())
        for i in range(s.n):
            f.write(struct.pack("<2I", *[int(v) for v in loc[i]]))
            f.write(s.pats[i].astype("<u2").tobytes())
    if ebsd_step is not None:
        with open(os.path.splitext(path)[0] + ".ebsd", "wb") as f:
            f.write(b"x" * 30 + struct.pack("<d", ebsd_step) + b"y" * 37)


def tf_parse(path):
    b = open(path, "rb").read()
    ver, nc, nr, w, h = struct.unpack_from("<5I", b, 0)
    isscan, bd, hb = struct.unpack_from("<hBh", b, 20)
    p = 25
    back = None
    if hb < 0:
        back = np.frombuffer(b, "<u2", w * h, p).reshape(h, w).astype(np.uint16)
        p += 2 * w * h
    per = 8 + 2 * w * h
    n = (len(b) - p) // per
    pats, loc = [], []
    for i in range(n):
        loc.append(struct.unpack_from("<2I", b, p + i * per))
        pats.append(np.frombuffer(b, "<u2", w * h, p + i * per + 8).reshape(h, w).astype(np.uint16))
    return {"version": ver, "ncols": nc, "nrows": nr, "W": w, "H": h, "isscan": isscan < 0, "bitdepth": bd, "back": back,
            "n": n, "pats": np.array(pats).reshape(n, h, w), "loc": np.array(loc).reshape(n, 2), "rest": len(b) - p - n * per}


# ---------------------------------------------------------------- HDF5 family
def h5_generic(path, scans):
    import h5py
    with h5py.File(path, "w") as f:
        f["note"] = "other things"
        for name, s in scans.items():
            f.create_dataset(name, data=s.pats)


def _group(f, name, s, patname, header):
    g = f.create_group(name + "/EBSD")
    g.create_group("Data").create_dataset(patname, data=s.pats)
    h = g.create_group("Header")
    for k, v in header.items():
        h[k] = v
    return g


def oh5(path, scans, hexnames=True, version="OIM Analysis 8.6.00", manufacturer="EDAX"):
    import h5py
    with h5py.File(path, "w") as f:
        f["Version"] = np.array([version.encode()])
        f["Manufacturer"] = np.array([manufacturer.encode()])
        for name, s in scans.items():
            _group(f, name, s, "Pattern", {
                "nColumns": np.array([s.ncols], "i4"), "nRows": np.array([s.nrows], "i4"),
                "Grid Type": np.array([b"HexGrid" if s.hex else b"SqrGrid"]),
                "Step X": np.array([s.xstep], "f4"), "Step Y": np.array([s.ystep], "f4")})


def kikuchipy(path, scans, version="0.8.7"):
    import h5py
    with h5py.File(path, "w") as f:
        f["version"] = np.array([version.encode()])
        f["manufacturer"] = np.array([b"kikuchipy"])
        for name, s in scans.items():
            _group(f, name, s, "patterns", {
                "n_columns": np.array([s.ncols], "i8"), "n_rows": np.array([s.nrows], "i8"),
                "grid_type": np.array([b"hexagonal" if s.hex else b"isometric"]),
                "step_x": np.array([s.xstep], "f8"), "step_y": np.array([s.ystep], "f8")})


def bruker(path, scans, version="Esprit 2.X"):
    import h5py
    with h5py.File(path, "w") as f:
        f["Version"] = version.encode()
        f["Manufacturer"] = b"Bruker Nano"
        for name, s in scans.items():
            _group(f, name, s, "RawPatterns", {"NCOLS": s.ncols, "NROWS": s.nrows, "XSTEP": float(s.xstep), "YSTEP": float(s.ystep)})


def oina(path, scans, which=("Processed Patterns",), version="5.0"):
    import h5py
    with h5py.File(path, "w") as f:
        f["Format Version"] = np.array([version.encode()])
        f["Manufacturer"] = np.array([b"Oxford Instruments"])
        for name, s in scans.items():
            g = _group(f, name, s, which[0], {
                "X Cells": np.array([s.ncols], "i4"), "Y Cells": np.array([s.nrows], "i4"),
                "X Step": np.array([s.xstep], "f4"), "Y Step": np.array([s.ystep], "f4")})
            for w in which[1:]:
                g["Data"].create_dataset(w, data=255 - s.pats)
            g["Data"]["Beam Position X"] = s.xy[:, 0].astype("f4")
            g["Data"]["Beam Position Y"] = s.xy[:, 1].astype("f4")


def h5_tree(path):
    """Everything in an HDF5 file: {dataset path: (dtype, shape, bytes)}."""
    import h5py
    out = {}
    with h5py.File(path, "r") as f:
        def visit(name, o):
            if isinstance(o, h5py.Dataset):
                v = o[()]
                out[name] = (str(o.dtype), o.shape, v.tobytes() if isinstance(v, np.ndarray) and v.dtype != object else repr(v))
        f.visititems(visit)
    return out

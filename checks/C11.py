"""C11: conversion of patterns for storage, over all small arrays of a boundary-value
alphabet x all option combinations, against a reference in exact real arithmetic; and the
same through write_data for every way of addressing patterns."""
import itertools, os
import numpy as np
from vlib import core, patfiles as pf
from vlib.idx import quiet
from pyebsdindex import ebsd_pattern as ep

VALUES = [-1e6, -300.25, -1.0, -0.6, 0.0, 0.4, 0.5, 1.0, 1.5, 127.5, 254.6, 255.0, 255.4, 256.0, 258.5, 1000.75, 65534.5, 65535.0, 65536.0, 1e6, 4294967295.0, 1e10]
INTS = {"u1": [0, 1, 127, 254, 255], "u2": [0, 1, 255, 256, 65535], "i4": [-70000, -1, 0, 3, 256, 65536, 2 ** 31 - 1], "i8": [-2 ** 40, 0, 7, 65535, 2 ** 33],
        "u4": [0, 1, 255, 65536, 2 ** 32 - 1]}


def ref(x, method, top, scale, mx):
    """Expected values (before rounding to an integer), as float64."""
    x = x.astype(np.float64)
    if method == "clip":
        return np.clip(x, 0, top if mx is None else min(mx, top))
    lo = x.min() if method == "fullscale" else min(x.min(), 0.0)
    b = x - lo
    span = b.max() if mx is None else float(mx)
    if span == 0:
        return np.zeros_like(b)
    return np.clip(b * (scale * top / span), 0, top)


def judge(ck, out, x, method, target, scale, mx, key, what):
    top = np.iinfo(target).max
    if not ck.ok(isinstance(out, np.ndarray) and out.dtype == target and out.size == x.size, key + ":type", lambda: "%s: result %s %s" % (what, getattr(out, "dtype", None), np.shape(out))):
        return
    o, e = out.ravel().astype(np.float64), ref(x, method, top, scale, mx).ravel()
    # single precision of the values themselves and of their scaling is granted
    rel = 0.0 if method == "clip" and x.dtype.kind != "f" else 4e-7
    base = np.abs(x.ravel().astype(np.float64)).max() if method != "clip" else np.abs(e)
    span = 1.0 if method == "clip" else (scale * top / max(1e-300, (np.ptp(x) if method == "fullscale" else max(x.max(), np.ptp(np.append(x, 0)))) if mx is None else mx))
    tol = (1.0 if method == "clip" else 0.5) + rel * (np.abs(e) + base * span) + 1e-9
    bad = np.abs(o - e) > tol
    if method == "clip":
        whole = (e == np.round(e)) & (e <= 2 ** 24)
        bad |= whole & (o != e)
    ck.ok(not bad.any(), key + ":value", lambda: "%s: %s -> %s, should be near %s" % (what, x.ravel().tolist(), out.ravel().tolist(), e.tolist()))
    k = np.argsort(x.ravel(), kind="stable")
    ck.ok(np.all(np.diff(o[k]) >= 0), key + ":order", lambda: "%s: order not kept, %s -> %s" % (what, x.ravel().tolist(), out.ravel().tolist()))


def one(ck, x, shape, target, method, scale, mx, key="convert", wrap=False):
    a = x.reshape(shape)
    given = a
    if wrap:
        given = ep.EBSDPatterns()
        given.patterns, given.nPatterns = a, a.shape[0]
    keep = a.copy()
    what = "%s %s to %s, method %s, scalevalue %s, maxScale %s" % (a.dtype, shape, getattr(target, "__name__", target), method, scale, mx)
    ck.case({"values": x, "shape": shape, "to": getattr(target, "__name__", str(target)), "method": method, "scalevalue": scale, "maxScale": mx, "object": wrap})
    ok, out = ck.call(key, lambda: ep.pat_flt2int(given, typeout=target, method=method, scalevalue=scale, maxScale=mx))
    if not ok:
        return
    ck.ok((a == keep).all() and a.dtype == keep.dtype, key + ":input", lambda: "%s: the input was changed" % what)
    ck.ok(not np.shares_memory(out, a), key + ":alias", lambda: "%s: the result is the input array" % what)
    want3 = shape if len(shape) == 3 else (1,) + tuple(shape)
    ck.ok(out.shape == want3, key + ":shape", lambda: "%s: shape %s" % (what, out.shape))
    ck.outcome(out)
    if target is not None and np.issubdtype(target, np.floating):
        ck.ok(out.dtype == target and (out.ravel() == x.astype(target)).all(), key + ":float", lambda: "%s: %s -> %s" % (what, x.tolist(), out.tolist()))
        return
    t = target
    if target is None:  # the guess is documented as 8 or 16 bit by the largest value
        ck.ok(out.dtype in (np.uint8, np.uint16) and (out.dtype == np.uint8 or x.max() > 255) and (out.dtype == np.uint16 or x.max() < 260), key + ":guess",
              lambda: "%s: largest value %s stored as %s" % (what, x.max(), out.dtype))
        t = out.dtype.type
    judge(ck, out, x, method, t, scale, mx, key, what)


def body(ck):
    import warnings
    warnings.simplefilter("ignore")
    T = (None, np.uint8, np.uint16, np.uint32, np.float32)
    M = ("clip", "fullscale", "scale")
    S = (0.98, 1.0) if not core.THOROUGH else (0.98, 1.0, 0.25)
    X = (None, 100, 255, 300.5, 65535, 7e4)
    ck.section("pairs of values")
    for dt in ("f4", "f8"):
        for a, b in itertools.product(VALUES, VALUES):
            x = np.array([a, b], dt)
            for t, m, s, mx in itertools.product(T, M, S, X):
                if dt == "f8" and not core.THOROUGH and (s != 1.0 or mx in (255, 7e4)):
                    continue
                one(ck, x, (1, 2), t, m, s, mx)
    ck.section("triples of values")
    V3 = VALUES if core.THOROUGH else VALUES[1:-2:2]
    for tr in itertools.product(V3, V3, V3):
        x = np.array(tr, "f4")
        for t, m in itertools.product((np.uint8, np.uint16, np.uint32), M):
            for s, mx in ((0.98, None), (1.0, 255)):
                one(ck, x, (3, 1, 1), t, m, s, mx)
    ck.section("integer input")
    for dt, vs in INTS.items():
        for a, b in itertools.product(vs, vs):
            x = np.array([a, b], dt)
            for t, m, s, mx in itertools.product(T, M, S, X):
                if t is np.float32 and abs(x.astype(object)).max() > 2 ** 24:
                    continue
                one(ck, x, (2, 1), t, m, s, mx, key="integers")
    ck.section("shapes")
    for shape in [(1, 1), (2, 3), (1, 2, 3), (2, 3, 1), (3, 1, 2), (4, 2, 2), (1, 1, 1)]:
        n = int(np.prod(shape))
        for shift in (-40.0, 0.0, 9.5):
            x = ((np.arange(n) * 37) % 41 * 11.3 + shift).astype("f4")
            for t, m, s, mx in itertools.product(T, M, S, X):
                one(ck, x, shape, t, m, s, mx)
                if len(shape) == 3:
                    one(ck, x, shape, t, m, s, mx, wrap=True)
    # the conversion as write_data applies it: one scale for all the patterns that are given
    d = os.path.join(core.SCRATCH, "c11")
    os.makedirs(d)
    nr, nc, h, w = 3, 2, 2, 3
    n = nr * nc

    def files():
        for ext, dt in (("up1", "u1"), ("up2", "u2")):
            p = os.path.join(d, "f." + ext)
            yield ext, dt, p, lambda s, p=p: pf.up_write(p, s, 3), lambda p=p, dt=dt: pf.up_parse(p, dt)["pats"], lambda p=p: ep.get_pattern_file_obj(p)
        p2 = os.path.join(d, "f.ebsp")
        yield "ebsp", "u2", p2, lambda s: pf.ebsp_write(p2, s, 2, True), lambda: np.array(pf.ebsp_parse(p2, n, "u2", 2, True)["pats"]), lambda: ep.get_pattern_file_obj(p2)
        p3 = os.path.join(d, "f.pat")
        yield "pat", "u2", p3, lambda s: pf.tf_write(p3, s), lambda: pf.tf_parse(p3)["pats"], lambda: ep.get_pattern_file_obj(p3)
        for dt in ("u1", "u2"):
            p4 = os.path.join(d, "f_%s.oh5" % dt)

            def rd(p4=p4):
                import h5py
                with h5py.File(p4, "r") as f:
                    return f["Scan 1/EBSD/Data/Pattern"][()]
            yield "oh5 " + dt, dt, p4, lambda s, p4=p4: pf.oh5(p4, {"Scan 1": s}), rd, lambda p4=p4: ep.get_pattern_file_obj(p4)
    for name, dt, p, mk, parse, op in files():
        ck.section("write_data " + name)
        t = np.dtype(dt).type
        mk(pf.Scan(pf.ramp(n, h, w, dt), nr, nc))
        with quiet():
            o = op()
        reqs = [([0, -1], list(range(n))), ([1, 3], [1, 2, 3]), ([[0, 0], [-1, -1]], list(range(n))), ([[1, 0], [1, 3]], [1, 3, 5]), ([[0, 1], [2, 2]], [2, 3, 4, 5])]
        for req, idx in reqs:
            for kind in ("f4", "f8", "u1", "u2"):
                # every pattern has its own brightness
                x = np.arange(len(idx) * h * w).reshape(len(idx), h, w) * 1.0
                x = x * 9.7 + 40 * np.arange(len(idx))[:, None, None] - (30 if kind[0] == "f" else 0)
                x = x.astype(kind) if kind != "u1" else np.clip(x, 0, 255).astype("u1")
                for m, s, mx in itertools.product(M, (0.98, 1.0), (None, 200, 900.0)):
                    keep = x.copy()
                    before = parse().copy()
                    what = "%s request %s of %s patterns, %s, scalevalue %s, maxScale %s" % (name, req, kind, m, s, mx)
                    ck.case({"file": name, "request": req, "from": kind, "method": m, "scalevalue": s, "maxScale": mx})
                    with quiet():
                        ok, _ = ck.call("write", lambda: o.write_data(newpatterns=x, patStartCount=req, flt2int=m, scalevalue=s, maxScale=mx))
                    if not ok:
                        continue
                    ck.ok((x == keep).all(), "write:input", lambda: what + ": the input was changed")
                    after = parse()
                    rest = [i for i in range(n) if i not in idx]
                    ck.ok((after[rest] == before[rest]).all(), "write:other", lambda: what + ": other patterns changed")
                    judge(ck, after[idx], x, m, t, s, mx, "write", what)
                    ck.outcome(after)


core.main("C11", "exploration", "a behaviour = one conversion: one array over the value alphabet with one option combination", body)

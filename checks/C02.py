"""C02: indexing a window (start, count) of a scan returns the same rows as indexing all
of it.  All windows of a small scan, every kind of input, both entry points."""
import os
import numpy as np
from vlib import core
from vlib import dist
from vlib.idx import pool, same, quiet, up_file, PC


def body(ck):
    import h5py
    from pyebsdindex import ebsd_index, ebsd_pattern
    N, shape = (8, (40, 44)) if core.THOROUGH else (6, (40, 44))
    P, _ = pool(N, shape, flat=3)
    P = np.rint(P * (250 / P.max())).astype(np.float32)
    kw = dict(PC=PC, vendor="EDAX", nRho=45, nTheta=60, nBands=7)
    S = core.SCRATCH
    up_file(os.path.join(S, "a.up2"), P)
    up_file(os.path.join(S, "a.up1"), P.clip(0, 255), 8)
    h5 = h5py.File(os.path.join(S, "d.h5"), "w")
    h5["p"] = P.astype(np.uint16)
    h5["one"] = P[4].astype(np.uint8)
    h5.close()
    hr = h5py.File(os.path.join(S, "d.h5"), "r")
    big = np.zeros((2 * N, shape[0], 2 * shape[1]), np.float32)
    big[::2, :, ::2] = P
    cont = ebsd_pattern.EBSDPatterns()
    cont.patterns = P.astype(np.float32)
    ro = P.copy()
    ro.setflags(write=False)
    kinds = {
        "uint8": P.clip(0, 255).astype(np.uint8), "uint16": P.astype(np.uint16), "float32": P, "float64": P.astype(float),
        "int32": P.astype(np.int32), "strided": big[::2, :, ::2], "fortran": np.asfortranarray(P), "readonly": ro,
        "dataset": hr["p"], "container": cont}
    files = {"up2": os.path.join(S, "a.up2"), "up1": os.path.join(S, "a.up1")}
    phases = ["FCC", "BCC"]
    assert np.all(P <= 255) and np.all(P >= 0)

    def indexer(**k):
        return ebsd_index.EBSDIndexer(phaselist=phases, **kw, **k)

    # reference: every pattern alone
    ix0 = indexer(patDim=shape)
    rows, brows = [], []
    for i in range(N):
        d, b = ebsd_index.index_pats(P[i], ebsd_indexer_obj=ix0)
        rows.append(d)
        brows.append(b)
    D, B = np.concatenate(rows, axis=1), np.concatenate(brows, axis=0)
    ck.outcome([D, B])
    good = np.flatnonzero(D[-1]["phase"] >= 0)
    if len(good) < N - 1:
        raise RuntimeError("the reference patterns do not index: %s" % D[-1]["phase"])
    if len({tuple(np.round(q, 3)) for q in D[-1]["quat"]}) < N:
        raise RuntimeError("reference rows are not distinct")

    windows = [(s, c) for s in range(N) for c in [-1] + list(range(1, N - s + 2))]

    def expect(ok, r, s, c, key, desc):
        if not ok:
            return
        e = N if c < 0 else min(s + c, N)
        if r is None:
            ck.fail(key + ":none", "%s returned None" % (desc,))
            return
        d, b = r[:2]
        bad = same(d, D[:, s:e], "indexing data") or same(b, B[s:e], "band data")
        ck.outcome([d["quat"], d["phase"]])
        over = "over" if c > 0 and s + c > N else "in"
        if bad:
            ck.fail("%s:%s:%s" % (key, over, bad.split(" index")[0][:40]), "%s: %s" % (desc, bad))

    ck.section("serial arrays")
    ixs = {k: indexer(patDim=shape) for k in kinds}
    for k, src in kinds.items():
        for s, c in windows:
            ck.case([k, s, c])
            with quiet():
                ok, r = ck.call("serial:" + k, ebsd_index.index_pats, src, patstart=s, npats=c, ebsd_indexer_obj=ixs[k])
            expect(ok, r, s, c, "serial:" + k, (k, s, c))
            if k in ("uint16", "dataset"):
                for chunk in (1, 2, 5):
                    ck.case([k, s, c, chunk])
                    with quiet():
                        ok, r = ck.call("serial:" + k, ebsd_index.index_pats, src, patstart=s, npats=c,
                                        ebsd_indexer_obj=ixs[k], chunksize=chunk)
                    expect(ok, r, s, c, "serial-chunk:" + k, (k, s, c, chunk))
    ck.section("one pattern, two dimensional")
    for k, src in {"array": P[4].astype(np.uint16), "dataset": hr["one"], "f8": P[4].astype(float)}.items():
        for c in (-1, 1):
            ck.case([k, c])
            with quiet():
                ok, r = ck.call("serial2d:" + k, ebsd_index.index_pats, src, npats=c, ebsd_indexer_obj=indexer(patDim=shape))
            if ok:
                bad = same(r[0], D[:, 4:5], "indexing data") or same(r[1], B[4:5], "band data")
                ck.ok(bad is None, "serial2d:" + k, "%s %s" % (k, bad))
    ck.section("serial files")
    for k, path in files.items():
        held = indexer(filename=path)
        obj = ebsd_pattern.get_pattern_file_obj(path)
        heldobj = indexer(filename=obj)
        for s, c in windows:
            for how, call in (("held", dict(ebsd_indexer_obj=held)), ("given", dict(filename=path, ebsd_indexer_obj=heldobj)),
                              ("object", dict(filename=obj, ebsd_indexer_obj=held))) + \
                    ((("fresh", dict(filename=path, phaselist=phases, tSigma=1.0, rSigma=1.2, rhoMaskFrac=0.15, **kw)),) if (s, c) in ((0, -1), (2, 3)) else ()):
                ck.case([k, how, s, c])
                with quiet():
                    ok, r = ck.call("file:%s:%s" % (k, how), ebsd_index.index_pats, patstart=s, npats=c, **call)
                expect(ok, r, s, c, "file:%s:%s" % (k, how), (k, how, s, c))
    ck.section("background corrected scans")
    y, x = np.mgrid[0:shape[0], 0:shape[1]] / float(shape[0])
    lit = np.array([P[i] + 400 * i * np.exp(-((x - 0.2 * i) ** 2 + (y - 0.5) ** 2) / 0.1) for i in range(N)]).astype(np.uint16)
    up_file(os.path.join(S, "lit.up2"), lit)
    fobj = ebsd_pattern.get_pattern_file_obj(os.path.join(S, "lit.up2"))
    full = None
    for k, a in (("array", dict(patsin=lit)), ("float array", dict(patsin=lit.astype(np.float32))), ("file", dict(filename=os.path.join(S, "lit.up2"))),
                 ("file object", dict(filename=fobj))):
        own = None
        ixb = indexer(patDim=shape) if "array" in k else indexer(filename=os.path.join(S, "lit.up2"))
        for s, c in [(0, -1)] + windows:
            for chunk in ((1, 3, 528) if (s, c) in ((0, -1), (1, 3)) else (528,)):
                ck.case([k, s, c, chunk])
                with quiet():
                    ok, r = ck.call("background:" + k, ebsd_index.index_pats, patstart=s, npats=c, ebsd_indexer_obj=ixb, chunksize=chunk,
                                    backgroundSub=True, **a)
                if not ok:
                    continue
                if full is None:
                    full = r[0], r[1]
                    if (r[0][-1]["phase"] < 0).sum() > 1:
                        raise RuntimeError("the lit patterns do not index")
                if own is None:
                    own = r[0][-1]["quat"]
                e = N if c < 0 else min(s + c, N)
                g = r[0][-1]
                w = full[0][-1][s:e]
                # the background is the same image whatever the window; allow rounding of its mean (integer/float input)
                close = g.shape == w.shape and np.array_equal(g["phase"], w["phase"]) and all(
                    np.allclose(g[n], w[n], rtol=2e-3, atol=2e-3) for n in ("fit", "pq", "iq")) and np.allclose(
                    g["quat"], own[s:e], atol=1e-5) and np.array_equal(g["nmatch"], w["nmatch"])
                ck.ok(close, "background:%s:%s" % (k, "whole" if (s, c) == (0, -1) else "window"), lambda: "%s window %s chunk %s: %s" % (
                    k, (s, c), chunk, [(n, g[n].tolist(), w[n].tolist()) for n in ("phase", "nmatch", "fit", "pq", "iq", "quat")]))
    ck.section("EBSDIndexer.index_pats")
    for s, c in windows:
        for k, src in (("array", P), ("file", None), ("dataset", hr["p"])):
            ix = held if k == "file" else ixs["float32"]
            ck.case([k, s, c])
            ok, r = ck.call("method:" + k, ix.index_pats, src, patstart=s, npats=c)
            expect(ok, r, s, c, "method:" + k, (k, s, c))
    ck.section("distributed arrays and files")
    dk = {"uint16": dict(patsin=kinds["uint16"]), "float32": dict(patsin=P), "container": dict(patsin=cont),
          "strided": dict(patsin=kinds["strided"]),
          "file": dict(filename=files["up2"]), "held": dict(), "fileobj": dict(filename=ebsd_pattern.get_pattern_file_obj(files["up2"]))}
    for k, a in dk.items():
        for s, c in windows:
            for chunk in ((1, 2, 4) if core.THOROUGH else (2,)):
                ix = indexer(filename=files["up2"]) if k == "held" else ixs["uint16"]
                ck.case([k, s, c, chunk])
                try:
                    ok, r = ck.call("dist:" + k, dist.distributed, patstart=s, npats=c, ebsd_indexer_obj=ix, chunksize=chunk, ncpu=2, **a)
                except BaseException as e:
                    if type(e).__name__ not in ("Livelock", "Deadlock"):
                        raise
                    ck.fail("dist:%s:%s" % (k, type(e).__name__), "%s does not terminate: %s" % ((k, s, c, chunk), e))
                    continue
                expect(ok, r, s, c, "dist:" + k, (k, s, c, chunk))
    ck.assumptions = ["patterns hold whole numbers 0-255, so every dtype stores the same pattern",
                      "windows that start inside the scan; a count past the end is clipped to the scan"]


if __name__ == "__main__":
    core.main("C02", "exploration",
              "every window (start, count) of a scan x input kind x entry point on the real code; each must return the rows "
              "obtained by indexing every pattern of the window alone", body)

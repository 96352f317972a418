"""C03: the bands of a pattern do not depend on its neighbours, the batch, the chunking, the
order, the memory layout or earlier calls.  All ordered selections of a pool of dissimilar
patterns, all chunk sizes, all short call histories, against each pattern processed alone
by a fresh detector."""
import itertools
import numpy as np
from vlib import core, simpat
from vlib.idx import pool, quiet, PC, rots

FIELDS = ("max", "normmax", "avemax", "maxloc", "aveloc", "width", "valid")


def differs(a, b):
    """First field in which two band lists differ (a: got, b: expected)."""
    if a.shape != b.shape:
        return "shape %s != %s" % (a.shape, b.shape)
    for n in FIELDS:
        if n == "width":
            # 1/(1 + something that cancels): compare loosely, it is only a display size
            good = np.isclose(a[n], b[n], rtol=2e-2, atol=1e-4)
        else:
            good = np.isclose(a[n], b[n], rtol=5e-4, atol=2e-4)
        good |= b["valid"].reshape(b["valid"].shape + (1,) * (good.ndim - b["valid"].ndim)) == 0
        if n == "valid":
            good = a[n] == b[n]
        if not good.all():
            i = tuple(np.argwhere(~good)[0])
            return "field %s band %s: got %s, alone %s" % (n, list(i), a[n][i], b[n][i])
    return None


def body(ck, configs=None):
    from pyebsdindex import ebsd_index
    T = core.THOROUGH
    CF = [dict(shape=(40, 44), nRho=45, nTheta=60, nBands=7, rhoMaskFrac=0.15),
          dict(shape=(36, 52), nRho=40, nTheta=90, nBands=9, rhoMaskFrac=0.1, mask=True),
          dict(shape=(40, 40), nRho=60, nTheta=36, nBands=5, rhoMaskFrac=0.15, back=True),
          dict(shape=(52, 36), nRho=30, nTheta=60, nBands=12, rhoMaskFrac=0.3, tSigma=None, rSigma=None),
          dict(shape=(44, 40), nRho=45, nTheta=60, nBands=7, rhoMaskFrac=2)]

    def detector(c):
        kw = {k: c[k] for k in ("nRho", "nTheta", "nBands", "rhoMaskFrac") if k in c}
        for k in ("tSigma", "rSigma"):
            kw[k] = c.get(k, 1.0)
        m = None
        if c.get("mask"):
            H, W = c["shape"]
            y, x = np.mgrid[:H, :W]
            m = ((y - H / 2) ** 2 + (x - W / 2) ** 2 < (0.48 * min(H, W)) ** 2).astype(int)
        d = ebsd_index.EBSDIndexer(phaselist=["FCC"], PC=PC, vendor="EDAX", patDim=c["shape"], patternmask=m, **kw).bandDetectPlan
        if c.get("back"):
            p, _ = pool(8, c["shape"])
            d.collect_background(patsIn=p)
        return d

    for ci, c in enumerate(CF):
        if configs is not None and ci not in configs:
            continue
        shape = c["shape"]
        R = rots(3)
        noise = np.random.RandomState(5).randint(0, 255, shape).astype(np.float32)
        hot = np.zeros(shape, np.float32)
        hot[shape[0] // 2, shape[1] // 3] = 1e6
        wide = simpat.pattern(R[2], shape, PC, gain=300.0, base=3e4)
        pats = {
            "fcc0": simpat.pattern(R[0], shape, PC, gain=60), "fcc1": simpat.pattern(R[1], shape, PC, gain=90),
            "faint": simpat.pattern(R[1], shape, PC, gain=1.0), "bcc": simpat.pattern(R[2], shape, PC, reflectors=simpat.BCC),
            "bright": wide, "noise": noise, "zero": np.zeros(shape), "const": np.full(shape, 77.0), "hot": hot,
            "negative": -simpat.pattern(R[0], shape, PC)}
        if c.get("rhoMaskFrac") == 2 and not T:
            pats = {k: pats[k] for k in ("fcc0", "zero", "noise", "hot")}
        elif ci and not T:
            pats = {k: pats[k] for k in ("fcc0", "faint", "zero", "noise", "hot", "const")}
        # rows whose values are rounding noise are used as neighbours only
        skip = {"const"} | ({"zero", "hot", "faint"} if c.get("back") else set())
        pats = {k: np.rint(v * 4).astype(np.float32) / 4 for k, v in pats.items()}
        names = list(pats)
        pats["nan"] = np.full(shape, np.nan, np.float32)
        skip.add("nan")
        tag = "config%d" % ci
        ck.section(tag + " alone")
        ref = {}
        for n in names:
            keep = pats[n].copy()
            with quiet():
                ok, ref[n] = ck.call(tag + ":alone", detector(c).find_bands, pats[n])
            if not ok:
                return
            ck.case([tag, n], ref[n])
            ck.ok(np.array_equal(keep, pats[n]), tag + ":input-modified", "find_bands modified its input " + n)
            ck.ok(ref[n].shape == (1, c["nBands"]), tag + ":shape", "shape %s" % (ref[n].shape,))
        if len({ck.digest(ref[n]["aveloc"]) for n in ("fcc0", "noise", "hot")}) < 3:
            raise RuntimeError("pool patterns do not differ")
        det = detector(c)

        def batch(seq, chunk, key, d=None, cast=None, desc=None):
            arr = np.array([pats[n] for n in seq], dtype=np.float32)
            if cast:
                arr = cast(arr)
            keep = arr.copy()
            ck.case([tag, list(seq), chunk, desc])
            with quiet():
                ok, b = ck.call("%s:%s" % (tag, key), (d or det).find_bands, arr, chunksize=chunk)
            if not ok:
                return
            if arr.dtype.kind == "f":
                ck.ok(np.array_equal(keep, arr, equal_nan=True), "%s:%s:input-modified" % (tag, key), "input modified %s" % (seq,))
            else:
                ck.ok(np.array_equal(keep, arr), "%s:%s:input-modified" % (tag, key), "input modified %s" % (seq,))
            ck.outcome(b["maxloc"])
            if not ck.ok(b.shape == (len(seq), c["nBands"]), "%s:%s:shape" % (tag, key), "shape %s for %s" % (b.shape, seq)):
                return
            for i, n in enumerate(seq):
                if n in skip:
                    continue
                bad = differs(b[i], ref[n][0])
                if bad:
                    ck.fail("%s:%s:%s" % (tag, key, bad.split()[1]), "pattern %r at place %d of %s, chunk size %s %s: %s" % (
                        n, i, list(seq), chunk, desc or "", bad))

        ck.section(tag + " ordered pairs and triples")
        both = names + ["nan"]
        for seq in itertools.product(both, repeat=2):
            for chunk in (-1, 1, 2):
                batch(seq, chunk, "pair")
        for seq in itertools.permutations(both if T and ci == 0 else both[:4] + ["zero", "nan"], 3):
            for chunk in (-1, 2):
                batch(seq, chunk, "triple")
        ck.section(tag + " chunk sizes")
        for n in (1, 4, 7) + ((10, 13) if T else ()):
            for start in range(len(names) if T else 2):
                seq = [names[(start + i * (1 + n % 2)) % len(names)] for i in range(n)]
                for chunk in [-1] + list(range(1, n + 3)):
                    batch(seq, chunk, "chunk")
        ck.section(tag + " container and number type")
        base = [n for n in ("fcc0", "noise", "zero", "fcc1") if n in names]
        ref2 = dict(ref)
        whole = {n: np.rint(pats[n].clip(0, 255)) for n in base}
        old = {n: pats[n] for n in base}
        for n in base:
            pats[n] = whole[n].astype(np.float32)
            with quiet():
                ref[n] = detector(c).find_bands(pats[n])
        casts = {"u1": lambda a: a.astype(np.uint8), "u2": lambda a: a.astype(np.uint16), "i4": lambda a: a.astype(np.int32),
                 "f8": lambda a: a.astype(float), "i8": lambda a: a.astype(np.int64), "F": np.asfortranarray,
                 "view": lambda a: np.repeat(np.repeat(a, 2, 0), 2, 2)[::2, :, ::2],
                 "rev": lambda a: a[::-1].copy()[::-1], "be": lambda a: a.astype(">f4"), "u4": lambda a: a.astype(np.uint32)}
        for k, f in casts.items():
            for chunk in (-1, 1, 3):
                batch(base, chunk, "type-" + k, cast=f, desc=k)
        for n in base:
            pats[n] = old[n]
        ref = ref2
        ck.section(tag + " call histories")
        calls = [("one", lambda d: d.find_bands(pats["fcc0"])),
                 ("batch", lambda d: d.find_bands(np.array([pats[n] for n in names]))),
                 ("chunked", lambda d: d.find_bands(np.array([pats[n] for n in names]), chunksize=2)),
                 ("nan", lambda d: d.find_bands(np.array([pats["nan"], pats["fcc0"]]))),
                 ("bytes", lambda d: d.find_bands(np.array([pats["fcc0"]]).clip(0, 255).astype(np.uint8)))]
        for hist in itertools.product(calls, repeat=3 if T else 2):
            d = detector(c) if T else det
            for _, f in hist:
                with quiet():
                    ck.call(tag + ":history", f, d)
            batch([names[1], names[0]], -1, "history", d=d, desc="after " + "+".join(h[0] for h in hist))
            ck.transitions += len(hist)
    ck.assumptions = ["band values compared to 5e-4 (batched sums round differently); rows made of rounding noise (constant pattern) are neighbours only",
                      "CPU implementation (on an OpenCL device: C27)"]


if __name__ == "__main__":
    core.main("C03", "exploration",
              "ordered selections of a pool of dissimilar patterns x chunk size x container x call history on the real band "
              "detector; every row must equal the row of the pattern processed alone by a fresh detector", body)

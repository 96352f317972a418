"""C08: histories.  All call sequences up to a depth over an alphabet of operations on one
indexer (and on two indexers in turn), and all sequences of setting changes on one band
detector; after every call the answer must be that of a newly built object with the same
settings.  States = settings a fresh object would need (the reference model)."""
import itertools, os
import numpy as np
from vlib import core, dist, idx, simpat as S


def eqb(a, b):
    if a.shape != b.shape:
        return "shape %s != %s" % (a.shape, b.shape)
    for n in ("valid", "maxloc", "aveloc", "max", "normmax", "avemax", "width"):
        v = (a["valid"] > 0) & (b["valid"] > 0)
        x, y = (a[n], b[n]) if n == "valid" else (a[n][v], b[n][v])
        if not np.allclose(x, y, rtol=3e-4, atol=1e-4, equal_nan=True):
            i = np.argwhere(~np.isclose(x, y, rtol=3e-4, atol=1e-4))[0]
            return "%s: %s != %s" % (n, x[tuple(i)], y[tuple(i)])
    return None


def body(ck):
    from pyebsdindex import ebsd_index, band_detect, pcopt, tripletvote as tv, ebsd_pattern
    A, _ = idx.pool(3, (40, 44))
    B = np.array([S.pattern(r, (60, 50), idx.PC) for r in idx.rots(4)])
    C, _ = idx.pool(5, (44, 40))
    A, B, C = (np.clip(np.rint(x), 0, 255).astype(np.float32) for x in (A, B, C))
    D = np.clip(np.rint(np.array([S.pattern(r, (52, 52), idx.PC) for r in idx.rots(6)[3:]])), 0, 255)
    sc = core.SCRATCH
    ck.split()
    f1, f2 = os.path.join(sc, "one.up1"), os.path.join(sc, "two.up2")
    idx.up_file(f1, C, 8)
    idx.up_file(f2, D, 16)
    libs = {"FCC": tv.addphase("FCC"), "BCC": tv.addphase("BCC")}

    # ------------------------------------------------------------------ band detector
    pats = {(40, 44): A, (60, 50): B[:3], (44, 40): C[:2]}
    disk = {s: np.hypot(*(np.mgrid[0:s[0], 0:s[1]] - np.array(s).reshape(2, 1, 1) / 2)) < 0.47 * min(s) for s in pats}
    ops = [("patDim", (40, 44)), ("patDim", (60, 50)), ("patDim", (44, 40)), ("nTheta", 90), ("nTheta", 60), ("nRho", 45), ("nRho", 64),
           ("rhoMaskFrac", 0.1), ("rhoMaskFrac", 0.3), ("rhoMaskFrac", -0.3), ("tSigma", 2.0), ("tSigma", 1.0), ("rSigma", 1.2), ("rSigma", 2.9), ("nBands", 5), ("nBands", 9)]
    starts = [dict(nTheta=90, nRho=45, tSigma=1.0, rSigma=1.2, rhoMaskFrac=0.1, nBands=9, patDim=(40, 44)),
              dict(nTheta=90, nRho=45, tSigma=None, rSigma=None, rhoMaskFrac=0.2, nBands=7, patDim=(60, 50)),
              dict(nTheta=90, nRho=45, tSigma=1.0, rSigma=1.2, rhoMaskFrac=0.15, nBands=8, patDim=None)]
    memo = {}

    def fresh(s):
        k = tuple(sorted(s.items(), key=str))
        if k not in memo:
            memo[k] = band_detect.BandDetect(**s).find_bands(pats[s["patDim"]])
        return memo[k]
    depth = 3 if core.THOROUGH else 2
    for si, st in enumerate(starts):
        ck.section("band detector, start %d" % si)
        seqs = [q for d in range(1, depth + 1) for q in itertools.product(ops, repeat=d)]
        for q in seqs:
            if si and depth == 3 and len(q) == 3 and not any(o[0] == "patDim" for o in q):
                continue
            if not ck.mine():
                continue
            s = dict(st)
            pl = band_detect.BandDetect(**s)
            if s["patDim"]:
                pl.find_bands(pats[s["patDim"]])
            for k, (name, val) in enumerate(q):
                ok, _ = ck.call("replan:" + name, pl.band_detect_setup, **{name: val})
                if not ok:
                    break
                s[name] = val
                if s["patDim"] is None:
                    continue
                ck.transitions += 1
                ok, got = ck.call("find:" + name, pl.find_bands, pats[s["patDim"]])
                if not ok:
                    break
                ck.case([si, [list(map(str, o)) for o in q[:k + 1]]], got["aveloc"])
                ck.state(sorted(s.items(), key=str))
                d = eqb(got, fresh(s))
                ck.ok(d is None, "replan:after-%s" % name, "after %s on a detector built with %s: %s (fresh detector with the final settings)" % (list(q[:k + 1]), st, d))
                ck.traces += 1
    ck.section("masks on a detector that knows its dimensions")
    for s0 in pats:
        if not ck.mine():
            continue
        for order in itertools.permutations(("mask", "nTheta", "frac"), 3):
            pl = band_detect.BandDetect(nTheta=60, nRho=45, tSigma=1.0, rSigma=1.2, rhoMaskFrac=0.1, patDim=s0)
            s = dict(nTheta=60, nRho=45, tSigma=1.0, rSigma=1.2, rhoMaskFrac=0.1, patDim=s0)
            for o in order:
                kw = {"mask": {"patternmask": disk[s0]}, "nTheta": {"nTheta": 90}, "frac": {"rhoMaskFrac": 0.25}}[o]
                pl.band_detect_setup(**kw)
                s.update(kw)
                want = band_detect.BandDetect(**s).find_bands(pats[s0])
                got = pl.find_bands(pats[s0])
                ck.transitions += 1
                ck.case([list(s0), order, o], got["aveloc"])
                d = eqb(got, want)
                ck.ok(d is None, "replan:%s" % o, "setting %s in the order %s on a %s detector: %s" % (o, order, s0, d))

    # ------------------------------------------------------------------ indexer
    settings = {"plain": dict(tSigma=1.0, rSigma=1.2, nTheta=90, nRho=45, nBands=7, vendor="EDAX", PC=list(idx.PC)),
                "auto": dict(tSigma=None, rSigma=None, nTheta=90, nRho=45, nBands=7, vendor="EDAX", PC=list(idx.PC), phaselist=["FCC"], rhoMaskFrac=0.1)}

    def make(kind, **k):
        kw = dict(settings[kind])
        kw["phaselist"] = [libs[p] for p in kw.get("phaselist", ["FCC", "BCC"])]
        kw.update(k)
        return ebsd_index.EBSDIndexer(**kw)

    def call(ix, op):
        with idx.quiet():
            if op == "A":
                return ebsd_index.index_pats(A, ebsd_indexer_obj=ix)
            if op == "B8":
                return ebsd_index.index_pats(B.astype(np.uint8), ebsd_indexer_obj=ix, chunksize=2)
            if op == "B1":
                return ebsd_index.index_pats(B[2], ebsd_indexer_obj=ix)
            if op == "mA":
                return ix.index_pats(patsin=A[1:])[:2]
            if op == "mB":
                return ix.index_pats(patsin=B, chunksize=1)[:2]
            if op == "pc":
                return ix.index_pats(patsin=A, PC=[0.3, 0.9, 0.5])[:2]
            if op == "f1":
                return ebsd_index.index_pats(filename=f1, ebsd_indexer_obj=ix)
            if op == "f2":
                return ebsd_index.index_pats(filename=f2, ebsd_indexer_obj=ix, patstart=1, npats=2)
            if op == "fo":
                return ebsd_index.index_pats(filename=ebsd_pattern.get_pattern_file_obj(f1), ebsd_indexer_obj=ix, patstart=2)
            if op == "opt":
                ix.index_pats(patsin=A)
                pcopt.optimize(A[:1], ix)
                return None
            if op == "held":
                return ebsd_index.index_pats(ebsd_indexer_obj=ix)
            if op == "heldm":
                return ix.index_pats(patstart=1, npats=2)[:2]
            if op == "dA":
                return dist.distributed(patsin=A, ebsd_indexer_obj=ix, ncpu=2, chunksize=2)
            if op == "dB":
                return dist.distributed(patsin=B.astype(np.uint8), ebsd_indexer_obj=ix, ncpu=2, chunksize=3)
            if op == "df":
                return dist.distributed(filename=f2, ebsd_indexer_obj=ix, ncpu=2, chunksize=2)
    refs = {}

    def ref(kind, op, held):
        k = (kind, op, held)
        if k not in refs:
            ix = make(kind)
            if op in ("held", "heldm"):
                ix = make(kind, filename=held)
            refs[k] = call(ix, op)
        return refs[k]

    def check(ix, kind, op, held, seq, tag):
        if op == "opt":
            ck.call(tag + ":opt", call, ix, op)
            return True
        want = ref(kind, op, held)
        ck.transitions += 1
        ok, got = ck.call("%s:%s" % (tag, op), call, ix, op)
        if not ok:
            return False
        ck.case([tag, kind, list(seq), op], got[0]["quat"])
        ck.state([kind, op, held])
        d = (None if got[0].shape == want[0].shape else "shape %s != %s" % (got[0].shape, want[0].shape)) or idx.same(got[0], want[0], "results") or eqb(got[1], want[1])
        ck.traces += 1
        return ck.ok(d is None, "%s:%s" % (tag, op), "%s indexer, calls %s: the last call does not give what a new indexer gives: %s" % (kind, list(seq), d))

    allops = ["A", "B8", "B1", "mA", "mB", "pc", "f1", "f2", "fo", "held", "heldm", "opt", "dA", "df", "dB"]
    newheld = {"f1": f1, "f2": f2, "fo": f1, "df": f2}
    for kind in settings:
        ck.section("one indexer, %s settings" % kind)
        use = allops if core.THOROUGH else [o for o in allops if o not in ("dB", "B1", "pc")]
        if kind == "auto" and not core.THOROUGH:
            use = ["A", "B8", "mB", "f1", "f2", "held"]
        long = [o for o in use if o not in ("opt", "B1", "heldm", "dB")] if core.THOROUGH else ["A", "mB", "f1", "f2", "held"]
        seqs = [q for q in itertools.product(use, repeat=2)] + [q for q in itertools.product(long, repeat=3)]
        seqs += [(o,) * 3 for o in use]
        for q in seqs:
            held, h, valid = None, None, True
            for o in q:
                if o in ("held", "heldm") and h is None:
                    valid = False
                h = newheld.get(o, h)
            if not valid or not ck.mine():
                continue
            for start in ("none", "A", "f2") if len(q) == 1 or core.THOROUGH else ("none",):
                ok, ix = ck.call("new", lambda: make(kind) if start == "none" else make(kind, patDim=(40, 44)) if start == "A" else make(kind, filename=f2))
                if not ok:
                    return
                held = f2 if start == "f2" else None
                for k, o in enumerate(q):
                    held = newheld.get(o, held)
                    if not check(ix, kind, o, held, q[:k + 1], "history"):
                        break
    ck.section("two indexers")
    phase_lists = [["FCC", "BCC"], ["BCC"]]
    two = ["A", "mB", "f1", "f2", "held", "dA", "opt"] if core.THOROUGH else ["A", "f1", "f2", "held"]
    for q in itertools.product(itertools.product((0, 1), two), repeat=3):
        if len({i for i, _ in q}) < 2 or not ck.mine():
            continue
        h = [f1, f2]
        ixs = [make("plain", filename=f1), make("auto", filename=f2)]
        for k, (i, o) in enumerate(q):
            h[i] = newheld.get(o, h[i])
            if not check(ixs[i], ("plain", "auto")[i], o, h[i], ["%s on indexer %d" % (b, a) for a, b in q[:k + 1]], "two"):
                break
    ck.section("arguments are left alone")
    for o in ("f1", "f2"):
        if not ck.mine():
            continue
        ix = make("plain", patDim=(40, 44))
        pd = np.array([1, 2])
        ck.case(["update_file", o])
        ck.call("update_file", ix.update_file, f1 if o == "f1" else f2, patDim=pd)
        ck.ok(list(pd) == [1, 2], "update_file:argument", "update_file(filename, patDim=...) changed the array it was given to %s" % pd)
    pl = ["FCC"]
    pc = [0.4, 0.6, 0.7]
    ix = ebsd_index.EBSDIndexer(phaselist=pl, PC=pc, patDim=(40, 44))
    call(ix, "A")
    ck.ok(pl == ["FCC"] and pc == [0.4, 0.6, 0.7], "ctor:argument", "EBSDIndexer changed its arguments")


core.main("C08", "model_checking", "all operation sequences to the stated depth on one and two indexers and all setting-change sequences on one band detector; "
          "the model state is the settings (and held file) a fresh object would need", body)

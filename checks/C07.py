"""C07: result records.  All ordered phase lists up to length 3 x all early-exit thresholds x
band counts on a pool of patterns of each phase and unsolvable ones, against a reference model of
the record built from the single-phase runs, plus consistency of every layer with the bands."""
import itertools
import numpy as np
from vlib import core, idx, simpat as S

TOL = 3.0
SHAPE = (60, 64)


def mis_frame(tilt=70.0, elev=5.3):
    a = -np.radians(90 - tilt + elev)
    return S.q2m([np.cos(a / 2), np.sin(a / 2), 0, 0]) @ S.q2m([np.sqrt(.5), 0, 0, -np.sqrt(.5)])


def hexfam(hkil, rots, ca=1.63):
    h, k, l = hkil[0], hkil[1], hkil[3]
    v = np.array([h, (h + 2 * k) / np.sqrt(3), l / ca])
    return v / np.linalg.norm(v)


def body(ck):
    from pyebsdindex import ebsd_index, tripletvote as tv
    ck.split()
    R = idx.rots(8)
    hexr = S.hex_rots()
    HCP = [(hexfam(f, None), s, w) for f, s, w in (([1, 0, -1, 0], 1.0, 2.2), ([0, 0, 0, 2], 0.9, 2.5), ([1, 0, -1, 1], .8, 2.6), ([1, 0, -1, 2], .5, 3.0), ([1, 1, -2, 0], .4, 3.4))]
    pats = [S.pattern(R[0], SHAPE, idx.PC), S.pattern(R[1], SHAPE, idx.PC, reflectors=S.BCC), S.pattern(R[2], SHAPE, idx.PC, reflectors=HCP, rots=hexr)]
    names = ["fcc0", "bcc0", "hcp0"]
    rs = np.random.RandomState(2)
    pats += [np.full(SHAPE, 50.0), rs.randint(0, 255, SHAPE).astype(float), np.zeros(SHAPE)]
    names += ["flat", "noise", "zero"]
    pats += [S.pattern(R[3], SHAPE, idx.PC), S.pattern(R[4], SHAPE, idx.PC, reflectors=S.BCC), S.pattern(R[5], SHAPE, idx.PC) + 40 * rs.normal(size=SHAPE)]
    names += ["fcc1", "bcc1", "noisy"]
    pats += [0.5 * (S.pattern(R[0], SHAPE, idx.PC) + S.pattern(R[6], SHAPE, idx.PC, reflectors=S.BCC)), rs.randint(0, 9, SHAPE).astype(float)]
    names += ["overlap", "noise2"]
    pats = np.array(pats, np.float32)
    n = len(pats)
    F = mis_frame()
    ph = {"FCC": lambda: tv.addphase("FCC"), "BCC": lambda: tv.addphase("BCC"), "HCP": lambda: tv.addphase("HCP"),
          "TET": lambda: tv.addphase(phasename="tet", spacegroup=139, latticeparameter=(3, 3, 4.4, 90, 90, 90), polefamilies=[[0, 0, 2], [1, 0, 1], [1, 1, 0], [1, 1, 2]])}
    ph = {k: v() for k, v in ph.items()}
    cfgs = [dict(nBands=9), dict(nBands=6)] + ([dict(nBands=12), dict(nBands=8, rhoMaskFrac=0.2), dict(nBands=2), dict(nBands=3)] if core.THOROUGH else [dict(nBands=3)])
    bigexit = 1000

    def run(lst, e, cfg, src=pats):
        ind = ebsd_index.EBSDIndexer(phaselist=[ph[p] for p in lst], vendor="EDAX", PC=idx.PC, patDim=SHAPE, nband_earlyexit=e, **cfg)
        ok, r = ck.call("index", ind.index_pats, patsin=src)
        return ind, r if ok else None

    def consistent(ind, d, b, lst, desc):
        """Every layer agrees with the bands and the library."""
        nb = b.shape[1]
        norm = ind.bandDetectPlan.radonPlan.radon2pole(b.copy(), PC=idx.PC, vendor="EDAX").astype(float)
        if not ck.ok(d.shape == (len(lst) + 1, len(b)), "shape", "%s: results have shape %s" % (desc, d.shape)):
            return
        for j in range(len(lst)):
            mp = {fl: ind.getmatchedpole(d, b, phasenumber=j, float_out=fl) for fl in (False, True)}
            lib = ph[lst[j]].completelib
            for i in range(len(b)):
                r = d[j, i]
                idxs = b["band_match_index"][i, :, j]
                m = np.flatnonzero(idxs >= 0)
                if r["phase"] == -1:
                    ck.ok(r["nmatch"] == 0 and r["fit"] == 180 and len(m) == 0, "unsolved-layer", "%s: layer %d of pattern %d is unsolved but has nmatch %s, fit %s, %d matched bands" % (
                        desc, j, i, r["nmatch"], r["fit"], len(m)))
                else:
                    q = r["quat"]
                    ck.ok(r["phase"] == j, "phase-number", "%s: layer %d of pattern %d carries phase %s" % (desc, j, i, r["phase"]))
                    ck.ok(abs(np.linalg.norm(q) - 1) < 1e-5 and q[0] >= 0, "quat", "%s: layer %d of pattern %d has quaternion %s" % (desc, j, i, q))
                    ck.ok(r["nmatch"] == len(m) and r["nmatch"] >= 3, "nmatch", "%s: layer %d of pattern %d: nmatch %s but %d bands have a matched plane" % (desc, j, i, r["nmatch"], len(m)))
                    ck.ok(0 <= r["fit"] < TOL + 0.1, "fit", "%s: layer %d of pattern %d: fit %s" % (desc, j, i, r["fit"]))
                    ck.ok(not np.any(b["valid"][i][m] == 0), "invalid-matched", "%s: an undetected band of pattern %d is matched" % (desc, i))
                    D = S.q2m(q) @ F.T
                    for k in m:
                        p = np.asarray(lib["polesCart"][idxs[k]], float)
                        a = np.degrees(np.arccos(np.clip(abs(p @ (D @ norm[i, k])), 0, 1)))
                        ck.ok(a < TOL + 0.3, "matched-plane", "%s: layer %d of pattern %d: band %d is %.2f degrees from its matched plane" % (desc, j, i, k, a))
                for k in range(nb):
                    want = (np.round(lib["poles"][idxs[k]]).astype(int), lib["polesCart"][idxs[k]]) if idxs[k] >= 0 else (np.zeros(3, int), np.zeros(3))
                    for fl in (False, True):
                        ck.ok(np.allclose(mp[fl][i, k], want[int(fl)], atol=1e-6), "getmatchedpole", "%s: getmatchedpole(phasenumber=%d, float_out=%s)[%d, %d] is %s, the library has %s" % (
                            desc, j, fl, i, k, mp[fl][i, k], want[int(fl)]))
        fin = {fl: ind.getmatchedpole(d, b, float_out=fl) for fl in (False, True)}
        for fl in (False, True):
            per = [ind.getmatchedpole(d, b, phasenumber=j, float_out=fl) for j in range(len(lst))]
            for i in range(len(b)):
                want = per[d["phase"][-1, i]][i] if d["phase"][-1, i] >= 0 else np.zeros_like(per[0][i])
                ck.ok(np.array_equal(fin[fl][i], want), "getmatchedpole:final", "%s: getmatchedpole of the final layer, pattern %d: %s, its phase's layer has %s" % (desc, i, fin[fl][i], want))

    exits = [None, 1, 3, 4, 5, 6, 7, 8, 9, 10, bigexit] if core.THOROUGH else [None, 1, 4, 6, 8, bigexit]
    lists = [l for k in (1, 2, 3) for l in itertools.permutations(("FCC", "BCC", "HCP"), k)] + [("FCC", "FCC"), ("BCC", "FCC", "BCC")]
    if core.THOROUGH:
        lists += [l for l in itertools.permutations(("FCC", "BCC", "HCP", "TET"), 4)][::3] + [("TET", "FCC"), ("FCC", "TET")]
    solved = 0
    for cfg in cfgs:
        ck.section("%s: single phases" % cfg)
        ref = {}
        for p in ph:
            ind, r = run((p,), bigexit, cfg)
            if r is None:
                return
            d, b = r[:2]
            ref[p] = (d, b)
            consistent(ind, d, b, (p,), "%s %s" % (p, cfg))
            ck.case([cfg, p], np.round(d["quat"], 4))
            solved += int((d["phase"][-1] >= 0).sum())
            ck.ok(all((d[f][0] == d[f][1]).all() for f in d.dtype.names), "final:single", "%s: the final layer differs from the only phase's layer" % p)
        ck.section("%s: phase lists and early exits" % cfg)
        for lst in lists if cfg == cfgs[0] or core.THOROUGH else lists[3:9]:
            for e in exits:
                if not ck.mine():
                    continue
                ind, r = run(lst, e, cfg)
                if r is None:
                    return
                d, b = r[:2]
                desc = "phases %s, early exit %s, %s" % (lst, e, cfg)
                ck.case([cfg, list(lst), e], [d["phase"], np.round(d["quat"], 4)])
                consistent(ind, d, b, lst, desc)
                for i in range(n):
                    best, bestv = None, None
                    mx = 0
                    for j, p in enumerate(lst):
                        x, y = d[j, i], ref[p][0][0, i]
                        tried = e is None or mx < e
                        if e is None and x["phase"] == -1 and j > 0:
                            tried = False  # default threshold: only ask that an untried layer is empty
                        if tried:
                            good = ((x["phase"] == j) == (y["phase"] == 0)) and all(np.allclose(x[f], y[f], rtol=1e-5, atol=1e-6) for f in ("quat", "fit", "cm", "nmatch", "pq", "iq", "totvotes", "matchattempts"))
                            good = good and np.array_equal(np.maximum(b["band_match_index"][i, :, j], -1), np.maximum(ref[p][1]["band_match_index"][i, :, 0], -1))
                            ck.ok(good, "layer", "%s: layer %d (%s) of pattern %d (%s) is %s; indexed alone %s" % (desc, j, p, i, names[i], x, y))
                        else:
                            ck.ok(x["phase"] == -1 and x["nmatch"] == 0 and x["fit"] == 180, "exit-layer", "%s: layer %d of pattern %d must be empty after the early exit: %s" % (desc, j, i, x))
                        mx = max(mx, int(x["nmatch"]))
                        v = (3.0 - float(x["fit"])) * int(x["nmatch"])
                        if best is None or v > bestv + 1e-5:
                            best, bestv = j, v
                        elif abs(v - bestv) <= 1e-5 and v != 0 and abs(v - bestv) > 0:
                            best = -9  # numerically tied: either is right
                    if best == -9:
                        continue
                    x, y = d[-1, i], d[best, i]
                    ck.ok(all(np.array_equal(x[f], y[f]) for f in d.dtype.names), "final", "%s: pattern %d (%s): the final layer is %s, the best phase is %d: %s" % (desc, i, names[i], x, best, y))
        ck.section("%s: subsets of patterns" % cfg)
        for lst in (("BCC", "FCC", "HCP"), ("HCP", "BCC")):
            for e in (6, bigexit):
                if not ck.mine():
                    continue
                ind, r = run(lst, e, cfg)
                if r is None:
                    return
                for sub in [[i] for i in range(n)] + [[3, 4, 5], [3, 0], [1, 1], [5, 2, 3]]:
                    ok, s = ck.call("subset", ind.index_pats, patsin=pats[sub])
                    if not ok:
                        return
                    ck.case([cfg, list(lst), e, sub])
                    dd = idx.same(s[0], r[0][:, sub], "results")
                    ck.ok(dd is None and np.array_equal(np.maximum(s[1]["band_match_index"], -1), np.maximum(r[1][sub]["band_match_index"], -1)), "subset", "patterns %s alone: %s" % (sub, dd))
    if solved < 3 * len(cfgs):
        raise RuntimeError("the pool is hardly solved: %d" % solved)


core.main("C07", "exploration", "all ordered phase lists to length 3 x early-exit thresholds x band counts on a pattern pool; distinct = distinct record sets", body)

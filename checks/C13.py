"""C13: all short histories of operations on one NLPAR object over files of different scan
and pattern shapes; every run must give what a fresh object gives, and inputs stay intact."""
import copy, hashlib, itertools, os, shutil
import numpy as np
from vlib import core, patfiles as pf
from vlib.idx import quiet
import numba
from pyebsdindex import ebsd_pattern as ep
from pyebsdindex.nlpar_cpu import NLPAR


def pats(n, h, w, dt, salt):
    x, out = 99 + salt, np.zeros(n * h * w)
    for k in range(out.size):
        x = (x * 1103515245 + 12345) % 2 ** 31
        out[k] = 60 + 40 * ((k % (h * w)) % 5) + (x >> 16) % (14 + salt)
    return out.reshape(n, h, w).astype(dt)


def sha(p):
    return hashlib.sha1(open(p, "rb").read()).hexdigest()


SET = {"s1": dict(lam=0.9, searchradius=1, dthresh=0.0, diff_offset=0.0, automask=True, saturation_protect=True),
       "s2": dict(lam=1.4, searchradius=2, dthresh=0.2, diff_offset=0.3, automask=False, saturation_protect=False, reset_sigma=True),
       "s3": dict(lam=0.6, searchradius=1, dthresh=0.1, diff_offset=0.0, automask=True, saturation_protect=True, reset_sigma=True, chunksize=1)}


class W:
    def __init__(self, d):
        self.d = d
        self.f = {}
        def up(name, nr, nc, h, w, dt, salt, ver=3):
            p = os.path.join(d, name + (".up1" if dt == "u1" else ".up2"))
            pf.up_write(p, pf.Scan(pats(nr * nc, h, w, dt, salt), nr, nc, .5, .25, 0), ver)
            self.f[name] = p
        up("a", 3, 4, 5, 4, "u1", 0)
        up("b", 2, 4, 5, 4, "u1", 1)     # other number of rows
        up("c", 3, 4, 6, 5, "u2", 2)     # other pattern size
        p = os.path.join(d, "h.oh5")
        pf.oh5(p, {"S1": pf.Scan(pats(6, 5, 4, "u1", 3), 3, 2), "S2": pf.Scan(pats(4, 5, 4, "u1", 4), 1, 4)})
        self.f["h"] = p
        self.f["h2"] = [p, "S2/EBSD/Data/Pattern"]
        p = os.path.join(d, "e.ebsp")
        pf.ebsp_write(p, pf.Scan(pats(8, 5, 4, "u1", 5), 4, 2, xy=pf.grid(4, 2, .5, -.25)), 2, True)
        self.f["e"] = p
        self.sha = {self.path(k): sha(self.path(k)) for k in self.f}
        self.src = {k: self.read(v) for k, v in self.f.items()}

    def path(self, k):
        v = self.f[k]
        return v[0] if isinstance(v, list) else v

    def read(self, v):
        with quiet():
            o = ep.get_pattern_file_obj(v)
            return o.read_data(patStartCount=[0, -1], returnArrayOnly=True)[0], (int(o.nRows), int(o.nCols), int(o.patternH), int(o.patternW), float(o.xStep), float(o.yStep))


class State:
    """The object under test and what is known about it."""

    def __init__(self, w, k):
        self.obj = NLPAR(w.f[k])
        self.file = k
        self.sig = None  # (file, settings of the noise estimate) that is cached


def fresh(w, memo, k, s):
    if (k, s) not in memo:
        with quiet():
            n = NLPAR(w.f[k])
            out = os.path.join(w.d, "fresh" + os.path.splitext(w.path(k))[1])
            if os.path.exists(out):
                os.remove(out)
            n.calcnlpar(fileout=out, verbose=0, **SET[s])
            memo[(k, s)] = w.read([out, w.f[k][1]] if isinstance(w.f[k], list) else out)
            os.remove(out)
    return memo[(k, s)]


def noise(s):
    return (SET[s]["automask"], SET[s]["saturation_protect"])


OPS = [("run", "a", "s1"), ("run", "b", "s1"), ("run", "c", "s2"), ("run", "a", "s2"), ("run", "h", "s1"), ("run", "h2", "s3"), ("run", "e", "s3"), ("run", "b", "s3"),
       ("here", None, "s1"), ("here", None, "s2"), ("here", None, "s3"), ("default", None, "s3"), ("set", "a", None), ("set", "b", None), ("set", "c", None), ("sigma", None, None), ("mask", None, None)]


def apply(ck, w, memo, st, op, hist):
    """Apply one operation and check it.  False: does not apply."""
    kind, k, s = op
    n = st.obj
    what = "history " + " ".join("-".join(x for x in o if x) for o in hist)
    key = kind
    ck.transitions += 1
    if kind == "set":
        n.setfile(w.f[k])
        if k != st.file:
            st.sig = None
        st.file = k
        return True
    if kind == "sigma":
        with quiet():
            ok, r = ck.call("sigma", lambda: n.calcsigma(chunksize=2))
            ok2, e = ck.call("sigma", lambda: NLPAR(w.f[st.file]).calcsigma(chunksize=2))
        if ok and ok2:
            ck.ok(np.shape(r) == np.shape(e) and np.allclose(r, e), "sigma", lambda: "%s: the noise of %s differs from a fresh object's: %s and %s" % (what, st.file, np.shape(r), np.shape(e)))
        return True
    if kind == "mask":
        # nothing but the strength may change
        keep = dict(lam=n.lam, searchradius=n.searchradius, dthresh=n.dthresh, file=n.filepath)
        with quiet():
            n.automask(5, 4)
        ck.ok(keep == dict(lam=n.lam, searchradius=n.searchradius, dthresh=n.dthresh, file=n.filepath), "mask", lambda: what + ": settings changed")
        return True
    if kind in ("here", "default"):
        k = st.file
    if k != st.file:
        st.sig = None
    st.file = k
    reset = SET[s].get("reset_sigma", False)
    if not reset and st.sig is not None and st.sig != (k, noise(s)):
        return False  # by design the cached noise estimate is used
    st.sig = (k, noise(s))
    e = fresh(w, memo, k, s)
    before = set(os.listdir(w.d))
    ext = os.path.splitext(w.path(k))[1]
    out = None if kind == "default" else os.path.join(w.d, "out" + ext)
    kw = dict(SET[s])
    if kind == "run":
        kw["filename"] = w.f[k]
    with quiet():
        ok, r = ck.call(key, lambda: n.calcnlpar(fileout=out, verbose=0, **kw))
    made = sorted(set(os.listdir(w.d)) - before)
    ck.ok(len(made) == 1, key + ":files", lambda: "%s: files made: %s" % (what, made))
    if ok and made:
        m = os.path.join(w.d, made[0])
        ck.ok(os.path.realpath(str(r)) == os.path.realpath(m), key + ":name", lambda: "%s: returned %s, wrote %s" % (what, r, m))
        ok, g = ck.call(key + ":read", lambda: w.read([m, w.f[k][1]] if isinstance(w.f[k], list) else m))
        if ok:
            ck.ok(g[1] == e[1] == w.src[k][1], key + ":shape", lambda: "%s: output of %s has rows, columns, height, width, steps %s, the input %s" % (what, k, g[1], w.src[k][1]))
            ck.ok(g[0].shape == e[0].shape and (g[0] == e[0]).all(), key + ":patterns", lambda: "%s: NLPAR of %s with %s gives other patterns than with a fresh object" % (what, k, s))
            ck.outcome(g[0])
            if isinstance(w.f[k], list) or k == "h":  # the other scan of the file is as in the input
                o = "h" if isinstance(w.f[k], list) else "h2"
                x = w.read(m if o == "h" else [m, w.f["h2"][1]])
                ck.ok(x[0].shape == w.src[o][0].shape and (x[0] == w.src[o][0]).all(), key + ":other scan", lambda: what + ": the other scan of the file is changed")
    for x in made:
        os.remove(os.path.join(w.d, x))
    for p, h in w.sha.items():
        ck.ok(sha(p) == h, key + ":input", lambda: "%s: %s was changed" % (what, os.path.basename(p)))
    return True


def body(ck):
    numba.set_num_threads(2)
    d = os.path.join(core.SCRATCH, "c13")
    os.makedirs(d)
    w, memo = W(d), {}
    for start in ("a", "c", "h"):
        depth = (4 if core.THOROUGH else 3) if start == "a" else (3 if core.THOROUGH else 2)
        ck.section("from " + start)
        with quiet():
            todo = [((), State(w, start))]
        while todo:
            hist, st = todo.pop()
            if len(hist) == depth:
                continue
            for op in OPS:
                if len(hist) == depth - 1 and op[0] in ("set", "mask"):
                    continue  # nothing to see after it
                s2 = copy.deepcopy(st)
                h2 = hist + (op,)
                ck._case = {"start": start, "history": h2}
                r = apply(ck, w, memo, s2, op, h2)
                if r:
                    ck.case({"start": start, "history": h2})
                    ck.state((start, s2.file, s2.sig, s2.obj.nrows, s2.obj.ncols, None if s2.obj.sigma is None else np.shape(s2.obj.sigma), s2.obj.lam))
                    todo.append((h2, s2))
        ck.traces += 1
    ck.section("strength search")
    for k, s, chunk in itertools.product(("a", "c", "h", "e"), ("s1", "s3"), (0, 2)):
        for auto, before in itertools.product((True, False), (False, True)):
            ck.case({"file": k, "settings": s, "chunk": chunk, "autoupdate": auto, "after a run": before})
            with quiet():
                n = NLPAR(w.f[k], lam=0.33, searchradius=2, dthresh=0.05)
                if before:
                    n.calcnlpar(fileout=os.path.join(d, "pre" + os.path.splitext(w.path(k))[1]), verbose=0, **SET["s3"])
                keep = (n.searchradius, n.dthresh, n.filepath, n.hdfdatapath, np.asarray(n.diff_offset).tolist())
                lam0 = n.lam
                ok, v = ck.call("search", lambda: n.opt_lambda(chunksize=chunk, autoupdate=auto, verbose=0))
                if not ok:
                    continue
                ck.transitions += 1
                ck.ok(keep == (n.searchradius, n.dthresh, n.filepath, n.hdfdatapath, np.asarray(n.diff_offset).tolist()), "search:settings", lambda: "the strength search changed settings")
                ck.ok(np.shape(v) == (3,) and np.all(np.isfinite(v)) and (v >= .001).all() and (v <= 10).all() and v[0] <= v[1] + 1e-3 and v[1] <= v[2] + 1e-3, "search:values", lambda: "strengths %s" % (v,))
                ck.ok(np.isclose(n.lam, np.median(v)) if auto else n.lam == lam0, "search:lam", lambda: "autoupdate %s: lam %s from %s, values %s" % (auto, n.lam, lam0, v))
                ck.outcome(np.round(v, 3))
                # and the run after it is that of a fresh object
                e = fresh(w, memo, k, "s1")
                out = os.path.join(d, "out" + os.path.splitext(w.path(k))[1])
                ok, r = ck.call("search:run", lambda: n.calcnlpar(fileout=out, verbose=0, **SET["s1"]))
                if ok:
                    g = w.read(out)
                    ck.ok(g[0].shape == e[0].shape and (g[0] == e[0]).all(), "search:run", lambda: "NLPAR of %s after a strength search (chunksize %d) gives other patterns than without" % (k, chunk))
                    os.remove(out)
            for p, h in w.sha.items():
                ck.ok(sha(p) == h, "search:input", lambda: "%s was changed" % os.path.basename(p))
    ck.section("output on the input")
    for k in ("a", "c", "h", "e"):
        p = w.path(k)
        base, ext = os.path.splitext(p)
        for how in ("same", "relative", "dotted", "symlink", "hard link"):
            q = p
            if how == "relative":
                q = os.path.relpath(p)
            elif how == "dotted":
                q = os.path.join(d, "..", os.path.basename(d), os.path.basename(p))
            elif how in ("symlink", "hard link"):
                q = os.path.join(d, "link" + ext)
                (os.symlink if how == "symlink" else os.link)(p, q)
            ck.case({"file": k, "output": how})
            ck.transitions += 1
            raised = None
            with quiet():
                try:
                    NLPAR(w.f[k]).calcnlpar(fileout=q, verbose=0, **SET["s1"])
                except Exception as e:
                    raised = type(e).__name__
            ck.ok(sha(p) == w.sha[p], "onto input", lambda: "NLPAR with the output path equal to the input (%s) overwrote the input" % how)
            ck.outcome((k, how, raised))
            if q != p and os.path.lexists(q) and how in ("symlink", "hard link"):
                os.remove(q)
            if sha(p) != w.sha[p]:
                return


core.main("C13", "model_checking", "a behaviour = one history of operations on one NLPAR object; after every run the output is compared with a fresh object's and every input file with its first bytes", body)

"""C21: pattern-centre optimisation.  The swarm optimiser is run under every sequence of
extreme random draws (random numbers are a choice point) over small objectives, and the
drivers over all vendors x batch modes x kinds of starting point x interruption points."""
import itertools
import numpy as np
from vlib import core, explore, simpat as S
from vlib.idx import quiet, rots

TRUE = (0.47, 0.62, 0.66)      # EDAX convention
OFF = np.array([0.02, -0.015, 0.012])
SHAPES = {"square": (60, 60), "wide": (48, 72), "tall": (72, 48)}
DELTA = 50.0


# ---- conversions, from the documented conventions (independent of the code) ----------
def to_edax(pc, vendor, shape):
    h, w = shape
    m = min(h, w)
    pc = np.asarray(pc, float)
    x, y, z = pc[..., 0], pc[..., 1], pc[..., 2]
    if vendor == "EDAX":
        px = (x * w, y * h, z * m)
    elif vendor == "OXFORD":
        px = (x * w, y * w, z * w)
    elif vendor == "EMSOFT":
        px = (w / 2 - x, h / 2 + y, z / pc[..., 3])
    else:
        px = (x * w, h - y * h, z * h)
    return np.stack([px[0] / w, px[1] / h, px[2] / m], -1)


def from_edax(e, vendor, shape):
    h, w = shape
    m = min(h, w)
    px = (e[0] * w, e[1] * h, e[2] * m)
    if vendor == "EDAX":
        return np.array([px[0] / w, px[1] / h, px[2] / m])
    if vendor == "OXFORD":
        return np.array([px[0] / w, px[1] / w, px[2] / w])
    if vendor == "EMSOFT":
        return np.array([w / 2 - px[0], px[1] - h / 2, px[2] * DELTA, DELTA])
    return np.array([px[0] / w, (h - px[1]) / h, px[2] / h])


# ---- the swarm under controlled random draws ------------------------------------------
class Draws:
    """numpy.random.uniform/normal/random answered from a script over finite alphabets; past
    its end the draws follow a fixed rule."""
    def __init__(self, script):
        self.script, self.n, self.used = list(script), 0, []

    def pick(self, alphabet):
        c = self.script[self.n] if self.n < len(self.script) else 0
        self.n += 1
        self.used.append(len(alphabet))
        return alphabet[c % len(alphabet)]

    def uniform(self, low=0.0, high=1.0, size=None):
        low, high = np.asarray(low, float), np.asarray(high, float)
        out = np.empty(size if size is not None else np.broadcast(low, high).shape)
        flat = np.empty(out.shape)
        for i in np.ndindex(*out.shape):
            flat[i] = self.pick((1.0, 0.0, 0.625)) if i[-1] == 0 else 0.25
        out[...] = low + (high - low) * flat
        return out

    def normal(self, loc=0.0, scale=1.0, size=None):
        out = np.empty(size)
        for i in np.ndindex(*out.shape):
            out[i] = loc + scale * (self.pick((1.0, -1.0)) if i[-1] == 0 else 0.4)
        return out

    def random(self, size=None):
        out = np.empty(size)
        for i in np.ndindex(*out.shape):
            out[i] = self.pick((0.999, 0.0))
        return out

    def __enter__(self):
        self.saved = {k: getattr(np.random, k) for k in ("uniform", "normal", "random")}
        for k in self.saved:
            setattr(np.random, k, getattr(self, k))
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)


OBJ = {
    "bowl": lambda x: float(np.sum((x - 0.3) ** 2)),
    "edge": lambda x: float(-np.sum(x)),
    "steps": lambda x: float(np.floor(4 * abs(x[0] - 0.1))),
    "const": lambda x: 2.0,
    "twowells": lambda x: float(min(abs(x[0] + 0.4), 0.05 + abs(x[0] - 0.45))),
    "wall": lambda x: float(1000.0 if x[0] < 0 else 1 - x[0]),
    "spike": lambda x: float(-5.0 if abs(x[0] - 1.0) < 1e-9 else abs(x[0])),
    "vector": lambda x: np.array([np.sum(np.abs(x))]),
}


def swarm_run(ck, key, opt, fun, start, bounds, niter, script=None, seed=None):
    ev = []

    def f(x, **k):
        v = fun(np.array(x, float))
        ev.append((np.array(x, float), float(np.ravel(v)[0])))
        return v
    s0 = None if start is None else np.array(start)
    b0 = None if bounds is None else [np.array(b) for b in bounds]
    if seed is not None:
        np.random.seed(seed)
        with quiet():
            good, r = ck.call(key, opt.optimize, f, start=start, bounds=bounds, niter=niter, verbose=0)
        used = []
    else:
        with Draws(script) as d, quiet():
            good, r = ck.call(key, opt.optimize, f, start=start, bounds=bounds, niter=niter, verbose=0)
        used = d.used
    if not good:
        return used
    cost, loc = float(np.ravel(r[0])[0]), np.array(r[1], float)
    vals = np.array([v for _, v in ev])
    pos = np.array([p for p, _ in ev])
    ck.transitions += len(ev)
    for p in pos:
        ck.state(np.round(p, 9))
    if not ck.ok(len(ev) > 0, key + ":none", "nothing evaluated"):
        return used
    i = int(np.argmin(vals))
    ck.ok(cost == vals[i], key + ":cost", "returned cost %r, best evaluated %r (evaluations %s)" % (cost, vals[i], list(zip(pos.tolist(), vals))[:12]))
    at = [v for p, v in ev if np.allclose(p, loc, rtol=0, atol=1e-12)]
    ck.ok(bool(at) and min(at) == cost, key + ":loc", "returned position %s: evaluated there %s, returned cost %r" % (loc, at[:3], cost))
    if bounds is not None:
        lo, hi = np.asarray(bounds[0]) - 1e-12, np.asarray(bounds[1]) + 1e-12
        ck.ok(((pos >= lo) & (pos <= hi)).all(), key + ":bounds", lambda: "evaluated outside of the bounds: %s" % pos[((pos < lo) | (pos > hi)).any(1)][:3])
    if start is not None:
        ck.ok(any(np.allclose(p, s0, rtol=0, atol=1e-12) for p in pos), key + ":start", "the starting position was never tried")
        ck.ok(np.array_equal(np.asarray(start), s0), key + ":startmut", "starting position changed")
    if bounds is not None:
        ck.ok(all(np.array_equal(a, b) for a, b in zip(bounds, b0)), key + ":boundmut", "bounds changed")
    ck.outcome((cost, loc))
    return used


def swarms(ck):
    from pyebsdindex import pcopt
    ck.section("swarm: all draw sequences")
    B = (np.array([-1.0]), np.array([1.0]))
    # 1-d, 2 particles: all initial draws, then all draws of the iterations
    names = list(OBJ) if core.THOROUGH else ["bowl", "edge", "twowells", "spike", "wall"]
    niter = 3 if core.THOROUGH else 2
    for name in names:
        for method in ("auto", "static"):
            if not ck.mine():
                continue
            ndraw = 2 + 2 + 4 * (niter if core.THOROUGH else niter)
            alpha = [3, 3, 2, 2] + [2] * (ndraw - 4)
            # the draws after the last evaluation cannot matter
            alpha = alpha[:4 + 4 * (niter - 1)]
            for script in itertools.product(*[range(a) for a in alpha]):
                opt = pcopt.PSOOpt(dimensions=1, n_particles=2, c1=3.5, c2=3.5, w=0.8, hyperparammethod=method, early_exit=0.0001)
                ck.case((name, method, script))
                swarm_run(ck, "swarm:%s:%s" % (name, method), opt, OBJ[name], np.array([0.25]), B, niter, script=script)
    ck.section("swarm: seeds")
    for dims, npart, niter, early in itertools.product((1, 2, 3), (1, 2, 5), (1, 2, 7, 25), (None, 0.0001, 0.2)):
        if not ck.mine():
            continue
        for name, method in itertools.product(OBJ, ("auto", "static")):
            for seed in range(6 if core.THOROUGH else 1):
                opt = pcopt.PSOOpt(dimensions=dims, n_particles=npart, hyperparammethod=method, early_exit=early)
                b = (np.full(dims, -0.8), np.full(dims, 1.2))
                ck.case((dims, npart, niter, early, name, method, seed))
                swarm_run(ck, "seed:%s:%s" % (name, method), opt, OBJ[name], np.full(dims, 0.1), b, niter, seed=seed + 1)
    ck.section("swarm: defaults and history")
    for dims in (1, 3):
        if not ck.mine():
            continue
        opt = pcopt.PSOOpt(dimensions=dims, n_particles=3, hyperparammethod="auto", early_exit=0.0001)
        fresh = {}
        for name, (st, bd) in itertools.product(OBJ, ((None, None), (None, (np.full(dims, 2.0), np.full(dims, 3.0))))):
            ck.case(("default", dims, name, bd is None))
            swarm_run(ck, "default:%s" % name, opt, OBJ[name], st, bd, 4, seed=3)
        # the same optimiser object again: no memory of earlier functions
        for n1, n2 in itertools.product(OBJ, OBJ):
            ck.case(("history", dims, n1, n2))
            b = (np.full(dims, -1.0), np.full(dims, 1.0))
            res = []
            for reuse in (True, False):
                o = pcopt.PSOOpt(dimensions=dims, n_particles=3, hyperparammethod="auto", early_exit=0.0001)
                if reuse:
                    np.random.seed(9)
                    with quiet():
                        o.optimize(OBJ[n1], start=np.full(dims, -0.5), bounds=b, niter=3, verbose=0)
                np.random.seed(4)
                with quiet():
                    good, r = ck.call("history", o.optimize, OBJ[n2], start=np.full(dims, 0.5), bounds=b, niter=3, verbose=0)
                if good:
                    res.append((float(np.ravel(r[0])[0]), np.array(r[1])))
            ck.ok(len(res) == 2 and res[0][0] == res[1][0] and np.array_equal(res[0][1], res[1][1]), "history:%s" % n2,
                  "after optimising %s, %s gives %s; a fresh optimiser gives %s" % (n1, n2, res[:1], res[1:]))


# ---- the drivers -----------------------------------------------------------------------
ATTR = ("vendor", "sampleTilt", "camElev")
PLAN = ("nBands", "tSigma", "rSigma", "rhoMaskFrac", "nTheta", "nRho", "backgroundsub")


def snap(ix):
    pc = ix.PC
    out = {"PC": (type(pc).__name__, None if pc is None else np.array(pc, dtype=float).copy())}
    for a in ATTR:
        out[a] = getattr(ix, a)
    for a in PLAN:
        v = getattr(ix.bandDetectPlan, a, None)
        out["plan." + a] = None if v is None else np.array(v).copy()
    out["phases"] = [p.phasename for p in ix.phaseLib]
    return out


def differs(a, b):
    for k in a:
        x, y = a[k], b[k]
        if k == "PC":
            if not (np.shape(x[1]) == np.shape(y[1]) and np.array_equal(x[1], y[1])):
                return "PC was %s, is %s" % (x[1], y[1])
        elif not np.array_equal(np.asarray(x, dtype=object if isinstance(x, list) else None), np.asarray(y, dtype=object if isinstance(y, list) else None)):
            return "%s was %s, is %s" % (k, x, y)
    return None


def make(vendor, shape, pc):
    from pyebsdindex import ebsd_index
    with quiet():
        return ebsd_index.EBSDIndexer(phaselist=["FCC"], vendor=vendor, PC=pc, sampleTilt=70.0, camElev=5.0,
                                      patDim=np.array(shape), nBands=8, rhoMaskFrac=0.1)


class Tap:
    """Record the pattern centres tried, optionally interrupt at the k-th."""
    class Stop(BaseException):
        pass

    def __init__(self, ix, stop=None, exc=None):
        self.plan, self.seen, self.stop, self.exc = ix.bandDetectPlan.radonPlan, [], stop, exc

    def __enter__(self):
        orig = self.plan.radon2pole

        def tap(bandData, PC=None, vendor="EDAX", **k):
            self.seen.append((None if PC is None else np.array(PC, float), vendor))
            if self.stop is not None and len(self.seen) == self.stop:
                raise self.exc("stop")
            return orig(bandData, PC=PC, vendor=vendor, **k)
        self.plan.radon2pole = tap
        return self

    def __exit__(self, *a):
        self.plan.__dict__.pop("radon2pole", None)


def cost_at(pcopt, pats, ix, pc):
    """Cost of one position, from a swarm that has nowhere else to go."""
    with quiet():
        return float(np.ravel(pcopt.optimize_pso(pats, ix, PC0=np.array(pc, float), search_limit=0.0, niter=1, nswarmparticles=5, return_cost=True, verbose=0)[1])[0])


def index_rows(ix, pats, pc=None):
    with quiet():
        return ix.index_pats(pats, PC=pc)[0]


def drivers(ck):
    from pyebsdindex import pcopt
    R = rots(3)
    edaxref = {}
    for sname, shape in SHAPES.items():
        pats = np.array([S.pattern(r, shape, TRUE, gain=50 + 5 * k) for k, r in enumerate(R)]).astype(np.float32)
        p0 = pats.copy()
        for vendor in ("EDAX", "EMSOFT", "OXFORD", "BRUKER", "KIKUCHIPY"):
            ck.section("drivers %s %s" % (sname, vendor))
            own = ck.mine() if vendor != "EMSOFT" else own  # needs the EDAX results
            if not own:
                continue
            start = from_edax(np.array(TRUE) + OFF, vendor, shape)
            true = from_edax(np.array(TRUE), vendor, shape)
            far = from_edax(np.array(TRUE) + 3 * OFF, vendor, shape)
            whole = np.round(start).astype(int) if vendor == "EMSOFT" else None
            kinds = {"none": None, "list": start.tolist(), "tuple": tuple(start.tolist()), "array": start.copy(), "float32": start.astype(np.float32)}
            if whole is not None:
                kinds["ints"] = whole.copy()
                kinds["intlist"] = [int(v) for v in whole]
            if sname != "square" and not core.THOROUGH:
                kinds = {k: kinds[k] for k in ("none", "array", "ints") if k in kinds}
            # the indexer's own centre is the start where none is given, and must be left alone where one is
            ixs = {"own": make(vendor, shape, start.copy()), "ownlist": make(vendor, shape, start.tolist()), "far": make(vendor, shape, far.copy())}
            before = index_rows(ixs["far"], pats)
            ctrue, cstart = cost_at(pcopt, pats, ixs["own"], true), cost_at(pcopt, pats, ixs["own"], start)
            cfar = cost_at(pcopt, pats, ixs["own"], far)
            ck.ok(ctrue < cstart < cfar, "order:%s:%s" % (vendor, sname), "cost at the true centre %.3f, a little off %.3f, far off %.3f" % (ctrue, cstart, cfar))
            first = None
            for kname, pc0 in kinds.items():
                for iname in (("own", "ownlist") if pc0 is None else ("far",)):
                    ix = ixs[iname]
                    for algo, batch, which in itertools.product(("nm", "pso"), (False, True), ("three", "one", "single")):
                        if (which == "single" or (which == "one" and batch)) and kname not in ("none", "array"):
                            continue
                        if algo == "pso" and (which != "three") and (sname != "square"):
                            continue
                        P = {"three": pats, "one": pats[1:2], "single": pats[2]}[which]
                        key = "%s:%s:%s%s:%s:%s" % (algo, vendor, "batch-" if batch else "", which, kname, sname)
                        arg = None if pc0 is None else (pc0.copy() if isinstance(pc0, np.ndarray) else type(pc0)(pc0))
                        s = snap(ix)
                        np.random.seed(5)
                        with Tap(ix) as tap, quiet():
                            if algo == "nm":
                                good, r = ck.call(key, pcopt.optimize, P, ix, PC0=arg, batch=batch)
                                cost = None
                            else:
                                good, r = ck.call(key, pcopt.optimize_pso, P, ix, PC0=arg, batch=batch, search_limit=0.05, nswarmparticles=6,
                                                  niter=3, return_cost=True, verbose=0)
                                if good:
                                    r, cost = r
                        ck.case(key)
                        d = differs(s, snap(ix))
                        ck.ok(d is None, key + ":indexer", "indexer changed: %s" % d)
                        ck.ok(arg is None or (type(arg) is type(pc0) and np.array_equal(arg, pc0)), key + ":pc0", "starting point given %s became %s" % (pc0, arg))
                        ck.ok(np.array_equal(pats, p0), key + ":pats", "patterns changed")
                        if not good:
                            continue
                        r = np.asarray(r, float)
                        n = 1 if which != "three" else 3
                        want = ((n, len(start)) if batch else (len(start),))
                        if not ck.ok(r.shape == want, key + ":shape", "result shape %s, expected %s" % (r.shape, want)):
                            continue
                        ck.outcome(np.round(r, 6))
                        if vendor == "EMSOFT":
                            ck.ok(np.all(r[..., 3] == DELTA), key + ":pixel", "pixel size %s, given %s" % (r[..., 3], DELTA))
                        s0 = start if (arg is None) else np.asarray(arg, float)
                        e = to_edax(r, vendor, shape)
                        rows = np.atleast_2d(r)
                        groups = [P] if not batch else [np.atleast_3d(P).reshape((-1,) + shape)[i:i + 1] for i in range(n)]
                        for i, (row, g) in enumerate(zip(rows, groups)):
                            got, c0 = cost_at(pcopt, g, ix, row), cost_at(pcopt, g, ix, s0)
                            ck.ok(got <= c0 + 1e-4, key + ":best", "row %d: cost %.5f at the result %s, %.5f at the start %s" % (i, got, row, c0, s0))
                            if cost is not None:
                                c = float(np.ravel(cost)[i])
                                ck.ok(abs(c - got) < 2e-3 * max(1, got), key + ":cost", "row %d: returned cost %.5f, cost at the returned position %.5f" % (i, c, got))
                        if algo == "nm" and not batch and which == "three":
                            ck.ok(np.abs(e - TRUE).max() < 0.012, key + ":true", "optimum %s (EDAX %s), patterns made with EDAX %s" % (r.tolist(), e.tolist(), TRUE))
                        elif algo == "pso":
                            lim = 0.05
                            e0 = to_edax(s0, vendor, shape)
                            dd = np.abs(e - e0) if vendor == "EMSOFT" else np.abs(r - s0)
                            ck.ok(dd.max() <= lim + 1e-5, key + ":limit", "optimum %s is more than the search limit %s from the start %s" % (r.tolist(), lim, s0))
                            inb = [p for p, v in tap.seen if p is not None and v == ("EDAX" if vendor == "EMSOFT" else vendor)]
                            if inb:
                                q = np.array([p.ravel()[:3] for p in inb])
                                c = e0 if vendor == "EMSOFT" else s0
                                ck.ok(np.abs(q - c).max() <= lim + 1e-5, key + ":tried", "a position outside of the search limit was tried")
                                if not batch and which == "three" and kname == "array":
                                    cs = [cost_at(pcopt, P, ix, from_edax(p, vendor, shape) if vendor == "EMSOFT" else p) for p in q]
                                    ck.ok(float(np.ravel(cost)[0]) <= min(cs) + 2e-3, key + ":least", "returned cost %.5f; %.5f was tried at %s" % (
                                        float(np.ravel(cost)[0]), min(cs), q[int(np.argmin(cs))]))
                        # one by one
                        if batch and which == "three" and kname in ("none", "array"):
                            np.random.seed(5)
                            for i in range(3):
                                with quiet():
                                    if algo == "nm":
                                        good, r1 = ck.call(key, pcopt.optimize, pats[i], ix, PC0=arg)
                                    else:
                                        good, r1 = ck.call(key, pcopt.optimize_pso, pats[i], ix, PC0=arg, search_limit=0.05, nswarmparticles=6, niter=3, verbose=0)
                                if good:
                                    e1 = to_edax(np.asarray(r1, float), vendor, shape)
                                    ck.ok(np.abs(e1 - e[i]).max() < 1e-4, key + ":onebyone", "pattern %d: EDAX centre %s in a batch, %s alone" % (i, e[i], e1))
                        # the EMSOFT search runs in EDAX units: same swarm, same simplex
                        if which == "three" and not batch and kname == "array":
                            if vendor == "EDAX":
                                edaxref[(sname, algo)] = e
                            elif vendor == "EMSOFT":
                                ck.ok(np.abs(e - edaxref[(sname, algo)]).max() < 2e-3, key + ":convention", "EMSOFT optimum is EDAX %s, the EDAX optimum is %s" % (e, edaxref[(sname, algo)]))
            after = index_rows(ixs["far"], pats)
            ck.ok(all(np.array_equal(before[n], after[n], equal_nan=before[n].dtype.kind == "f") for n in before.dtype.names), "later:%s:%s" % (vendor, sname),
                  "indexing gives another result after optimisations")
            # interruptions
            if sname != "tall" or core.THOROUGH:
                ck.section("interrupted %s %s" % (sname, vendor))
                for algo, batch, k, exc in itertools.product(("nm", "pso"), (False, True), (1, 2, 5, 9), (KeyboardInterrupt, ValueError)):
                    for pc0 in (None, start.copy()):
                        ix = ixs["own"] if pc0 is None else ixs["far"]
                        arg = None if pc0 is None else pc0.copy()
                        s = snap(ix)
                        key = "stop:%s:%s:%s" % (algo, vendor, exc.__name__)
                        ck.case((key, batch, k, pc0 is None, sname))
                        raised = False
                        with Tap(ix, stop=k, exc=exc), quiet():
                            try:
                                if algo == "nm":
                                    pcopt.optimize(pats, ix, PC0=arg, batch=batch)
                                else:
                                    pcopt.optimize_pso(pats, ix, PC0=arg, batch=batch, nswarmparticles=6, niter=2, verbose=0)
                            except exc:
                                raised = True
                            except Exception as e:
                                ck.fail(key + ":other", "%s: %s" % (type(e).__name__, e))
                        d = differs(s, snap(ix))
                        ck.ok(d is None, key + ":indexer", "after an interruption at evaluation %d the indexer is changed: %s" % (k, d))
                        ck.ok(arg is None or np.array_equal(arg, pc0), key + ":pc0", "after an interruption the starting point is %s, was %s" % (arg, pc0))
                        ck.transitions += k


def body(ck):
    ck.split()
    swarms(ck)
    drivers(ck)
    ck.extra["bounds"] = "swarm: 2 particles, 1 dimension, every sequence of extreme draws over the iterations; drivers: 3 shapes x 5 conventions"
    ck.traces = ck.evaluations


if __name__ == "__main__":
    core.main("C21", "model_checking", "every sequence of random draws of the swarm from a finite alphabet; every vendor, shape, batch mode, kind of start and "
          "interruption point; states = distinct swarm positions, transitions = evaluations", body, max_violations=12)

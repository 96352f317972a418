"""C25: the misorientation of two cubic crystals is the smallest rotation that takes one
into the other over all 24 x 24 symmetry variants.  The states are pairs of orientations
of a finite set, the transitions all symmetry operators applied to either of them; the
reference minimises over the operators by brute force."""
import itertools
import numpy as np
from vlib import core, rotref as RR
from vlib import simpat as S
from vlib.idx import quiet

CUB = S.cubic_rots()


def mul(p, q):
    w = p[..., 0] * q[..., 0] - (p[..., 1:] * q[..., 1:]).sum(-1)
    v = p[..., :1] * q[..., 1:] + q[..., :1] * p[..., 1:] + np.cross(p[..., 1:], q[..., 1:])
    return np.concatenate([w[..., None], v], -1)


def body(ck):
    from pyebsdindex import misorientation as M
    ops = np.array([RR.m2q(m) for m in CUB])
    conj = np.array([1, -1, -1, -1.0])
    # orientations: all the special ones, multiples of small steps, general ones
    grid = {}
    rng = (-1, 0, 1) if not core.THOROUGH else (-2, -1, 0, 1, 2)
    for q in itertools.product(rng, repeat=4):
        if any(q):
            q = np.array(q, float)
            q /= np.linalg.norm(q)
            grid.setdefault(tuple(np.round(q, 6)), q)
    for d in ((0, 0, 1), (1, 1, 0), (1, 1, 1), (1, 2, 3), (-3, 1, 2)):
        for w in (0.01, 1, 5, 15, 30, 44.9, 45, 45.1, 60, 62.7, 62.8, 90, 119, 179):
            q = RR.ax2q(np.append(d, np.radians(w)))
            grid.setdefault(tuple(np.round(q, 6)), q)
    qs = np.array(list(grid.values()))

    def ref(p, q):
        """the angle (radian), and the axis of the smallest one with sorted indices, nan where there are several"""
        d = mul(p, q * conj)                       # p q*: from q to p
        # every operator on both sides: S1 d S2; the angle needs one side only
        c = np.abs(mul(ops[:, None], d[None])[..., 0]).max(0)
        return 2 * np.arccos(np.minimum(c, 1))

    def axes(p, q):
        d = mul(p, q * conj)
        e = mul(ops[:, None], d[None])            # (24, n, 4)
        k = np.abs(e[..., 0]).argmax(0)
        b = e[k, np.arange(len(d))]
        return np.sort(np.abs(b[:, 1:]), axis=-1)[:, ::-1]

    TOL = {"f8": 6e-4, "f4": 2e-3}

    def check(key, p, q, out, dt):
        out = np.asarray(out, float)
        if not ck.ok(out.shape == (len(p), 4), key + ":shape", "result %s for %d pairs" % (out.shape, len(p))):
            return
        want = ref(p, q)
        ck.transitions += len(p)
        nrm = np.linalg.norm(out, axis=1)
        got = 2 * np.arctan2(np.linalg.norm(out[:, 1:], axis=1), out[:, 0])
        bad = ~((np.abs(got - want) < TOL[dt]) & (np.abs(nrm - 1) < 1e-4))
        if not ck.ok(not bad.any(), key + ":angle", lambda: "misorientation of %s and %s: %s, %.5f degrees, the smallest one is %.5f" % (
                p[bad][0].tolist(), q[bad][0].tolist(), out[bad][0].tolist(), np.degrees(got[bad][0]), np.degrees(want[bad][0]))):
            return
        s = out[:, 1:]
        bad = ~((np.diff(s, axis=1) <= 1e-6).all(1) & (s >= -1e-6).all(1))
        ck.ok(not bad.any(), key + ":triangle", lambda: "axis of %s is not in the standard triangle" % out[bad][0].tolist())
        # the sorted axis of the smallest rotation
        a = axes(p, q)
        bad = np.abs(a - s).max(1) > 5 * TOL[dt]
        # several variants can have the smallest angle; any of them is fine
        for i in np.flatnonzero(bad):
            e = mul(ops, (mul(p[i], q[i] * conj))[None])
            m = np.abs(e[:, 0]) > np.abs(e[:, 0]).max() - 1e-3
            c = np.sort(np.abs(e[m, 1:]), axis=-1)[:, ::-1]
            if not ck.ok(np.abs(c - s[i]).max(1).min() < 5 * TOL[dt], key + ":axis", lambda: "misorientation of %s and %s: %s, its axis should be one of %s" % (
                    p[i].tolist(), q[i].tolist(), out[i].tolist(), c.tolist())):
                return
        ck.outcome(np.round(out, 3))

    ck.section("all pairs")
    for dt in ("f8", "f4"):
        Q = qs.astype(dt)
        for i in range(len(Q)):
            p = np.repeat(Q[i:i + 1], len(Q), 0)
            ck.case((dt, i))
            ck.state((dt, i))
            p0, q0 = p.copy(), Q.copy()
            good, o = ck.call("pairs:" + dt, M.misorientcubic_quick, p, Q)
            if not good:
                return
            check("pairs:" + dt, p.astype(float), Q.astype(float), o, dt)
            ck.ok(np.array_equal(p, p0) and np.array_equal(Q, q0), "input:" + dt, "inputs changed")
            good, o1 = ck.call("one-many:" + dt, M.misorientcubic_quick, Q[i], Q)
            if good:
                ck.ok(np.allclose(o1, o, atol=1e-6), "one-many:" + dt, "one orientation against many differs from the pairs")
            good, o2 = ck.call("many-one:" + dt, M.misorientcubic_quick, Q, Q[i:i + 1])
            if good:
                check("many-one:" + dt, Q.astype(float), p.astype(float), o2, dt)
    ck.section("symmetry variants, sign, order")
    gen = qs[:: max(1, len(qs) // 24)]
    for i, j in itertools.product(range(len(gen)), repeat=2):
        p, q = gen[i], gen[j]
        base = ref(p[None], q[None])[0]
        for side in (0, 1):
            P = np.repeat(p[None], 24, 0) if side else mul(ops, p[None])
            Qq = mul(ops, q[None]) if side else np.repeat(q[None], 24, 0)
            ck.case((i, j, side))
            for sp, sq in ((1, 1), (-1, 1), (1, -1)):
                good, o = ck.call("variants", M.misorientcubic_quick, sp * P, sq * Qq)
                if good:
                    check("variants", sp * P, sq * Qq, o, "f8")
        good, a = ck.call("order", M.misorientcubic_quick, p, q)
        good2, b = ck.call("order", M.misorientcubic_quick, q, p)
        if good and good2:
            ck.ok(a.shape == (4,) and np.allclose(a, b, atol=2e-3), "order", lambda: "%s and %s: %s, the other way round %s" % (p, q, a, b))
    ck.section("shapes and mixed precision")
    for n in (1, 2, 3, 5):
        for st in range(0, len(qs) - n, 7):
            p, q = qs[st:st + n], np.roll(qs, 5, 0)[st:st + n]
            ck.case((n, st))
            for a, b in (("f4", "f8"), ("f8", "f4")):
                good, o = ck.call("mixed", M.misorientcubic_quick, p.astype(a), q.astype(b))
                if good:
                    check("mixed", p, q, np.atleast_2d(o), "f4")
            good, o = ck.call("strided", M.misorientcubic_quick, np.repeat(p, 2, 0)[::2], np.asfortranarray(q))
            if good:
                check("strided", p, q, np.atleast_2d(o), "f8")
            good, o = ck.call("list", M.misorientcubic_quick, p.reshape(1, n, 4), q.reshape(n, 1, 4))
            if good:
                check("nd", p, q, np.atleast_2d(o), "f8")
    ck.traces = ck.evaluations
    ck.extra["orientations"] = len(qs)


if __name__ == "__main__":
    core.main("C25", "model_checking", "a state is a pair of orientations of a finite set that contains all special ones, the transitions are the 24 operators on either side; the real function is compared with the minimum over all operators", body, max_violations=8)

"""C15: quaternion algebra.  Alphabet: all sign/zero patterns {-1,0,1}^4 (normalised, both
signs), plus generic and nearly degenerate quaternions; every ordered pair (and every triple
of a smaller set), in every calling form (one-one, one-many, many-one, pairwise), in single
and double precision, against plain numpy."""
import itertools
import numpy as np
from vlib import core, rotref as R


def mul(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    w = a[..., 0] * b[..., 0] - np.sum(a[..., 1:] * b[..., 1:], axis=-1)
    v = a[..., :1] * b[..., 1:] + b[..., :1] * a[..., 1:] + np.cross(a[..., 1:], b[..., 1:])
    return np.concatenate([w[..., None], v], axis=-1)


def body(ck):
    from pyebsdindex import rotlib as rl
    base = [np.array(q, float) / np.linalg.norm(q) for q in itertools.product((-1, 0, 1), repeat=4) if any(q)]
    rng = np.random.RandomState(7)  # fixed alphabet, not sampling per seed
    extra = [R.ax2q([1, 2, 3, w]) for w in (1e-3, 0.7, 2.0, np.pi - 1e-3, np.pi + 0.4)] + \
            [R.ax2q([-3, 1, 0.5, 1.3]), -R.ax2q([0.1, -1, 2, 2.2])]
    if core.THOROUGH:
        base = [np.array(q, float) / np.linalg.norm(q) for q in itertools.product((-2, -1, 0, 1, 2), repeat=4) if any(q)]
    Q = np.array(base + extra)
    n = len(Q)
    ii, jj = [x.ravel() for x in np.meshgrid(range(n), range(n), indexing="ij")]
    dirs = np.array([d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)], float)
    dirs = np.concatenate([dirs, [[0.3, -2.0, 5.0], [0, 0, 0.0], [1e-3, 0, 2e3]]])

    def near(key, got, want, dt, scale=1.0, desc=""):
        got = np.asarray(got)
        ck.outcome(np.round(got.astype(float), 3))
        tol = (1e-12 if dt == "f8" else 3e-6) * scale
        if got.shape != np.shape(want):
            return ck.fail(key, "shape %s, expected %s %s" % (got.shape, np.shape(want), desc))
        bad = ~(np.abs(got - want) <= tol)
        if np.any(bad):
            i = np.argwhere(bad)[0]
            k = tuple(i)
            ck.fail(key, "entry %s is %r, expected %r %s" % (i.tolist(), got[k], np.asarray(want)[k], desc))
        return None

    for dt in ("f8", "f4"):
        q = Q.astype(dt)
        ck.section("products of all ordered pairs " + dt)
        a, b = np.ascontiguousarray(q[ii]), np.ascontiguousarray(q[jj])
        ka, kb = a.copy(), b.copy()
        want = mul(a, b)
        ok, got = ck.call("mul_nn:" + dt, rl.quat_multiply, a, b)
        ck.evaluations += len(ii)
        ck.case(["pairs", dt, len(ii)], np.round(np.asarray(got, float), 2) if ok else None)
        if ok:
            near("mul_nn:" + dt, got, want, dt)
            ck.ok(np.asarray(got).dtype == a.dtype, "mul_nn:%s:dtype" % dt, "result type %s" % np.asarray(got).dtype)
        ck.ok(np.array_equal(a, ka) and np.array_equal(b, kb), "mul_nn:%s:input" % dt, "inputs changed")
        want = want.reshape(n, n, 4)
        for i in range(n):
            ok, got = ck.call("mul_1n:" + dt, rl.quat_multiply, q[i], q)
            ok and near("mul_1n:" + dt, got, want[i], dt, desc="(one %s x many)" % q[i].tolist())
            ok, got = ck.call("mul_n1:" + dt, rl.quat_multiply, q, q[i])
            ok and near("mul_n1:" + dt, got, want[:, i], dt, desc="(many x one %s)" % q[i].tolist())
            ck.case(["one-many", dt, i])
            ck.evaluations += 2 * n
            for m in (1, 2, 3, 4):
                s = np.ascontiguousarray(q[i:i + m]) if i + m <= n else q[:m].copy()
                t = np.roll(q, 3, axis=0)[:len(s)].copy()
                ok, got = ck.call("mul_small:" + dt, rl.quat_multiply, s, t)
                w = mul(s, t)
                ok and near("mul_small:" + dt, got, w[0] if len(s) == 1 else w, dt, desc="(%d pairs)" % len(s))
                ok, got = ck.call("mul_small1n:" + dt, rl.quat_multiply, s[:1], t)
                w = mul(s[:1], t)
                ok and near("mul_small1n:" + dt, got, w[0] if len(s) == 1 else w, dt)
                ok, got = ck.call("mul_smalln1:" + dt, rl.quat_multiply, s, t[:1])
                w = mul(s, t[:1])
                ok and near("mul_smalln1:" + dt, got, w[0] if len(s) == 1 else w, dt)
                ck.evaluations += 3
            ok, got = ck.call("mul_11:" + dt, rl.quat_multiply, q[i], q[(5 * i + 3) % n])
            ok and near("mul_11:" + dt, got, mul(q[i], q[(5 * i + 3) % n]), dt)
        ok, got = ck.call("mul_strided:" + dt, rl.quat_multiply, q[::3], np.asfortranarray(q)[1:1 + len(q[::3])])
        ok and near("mul_strided:" + dt, got, mul(q[::3], q[1:1 + len(q[::3])]), dt)

        ck.section("associativity, inverse, identity " + dt)
        sub = q[:: max(1, n // 30)]
        m = len(sub)
        x, y, z = [v.ravel() for v in np.meshgrid(range(m), range(m), range(m), indexing="ij")]
        left = rl.quat_multiply(rl.quat_multiply(sub[x], sub[y]), sub[z])
        right = rl.quat_multiply(sub[x], rl.quat_multiply(sub[y], sub[z]))
        near("assoc:" + dt, left, right, dt, 2)
        ck.case(["triples", dt, m ** 3])
        ck.evaluations += m ** 3
        keep = q.copy()
        ok, c = ck.call("conj:" + dt, rl.quatconj, q)
        if ok:
            near("conj:" + dt, c, q * np.array([1, -1, -1, -1]), dt)
            near("inverse:" + dt, rl.quat_multiply(q, np.asarray(c)), np.tile([1.0, 0, 0, 0], (n, 1)), dt)
            near("conjconj:" + dt, rl.quatconj(c), q, dt)
        for i in range(0, n, 5):
            ok, c1 = ck.call("conj1:" + dt, rl.quatconj, q[i])
            ok and near("conj1:" + dt, c1, q[i] * np.array([1, -1, -1, -1]), dt)
        e = np.array([1.0, 0, 0, 0], dt)
        near("left_identity:" + dt, rl.quat_multiply(e, q), q, dt)
        near("right_identity:" + dt, rl.quat_multiply(q, e), q, dt)
        ck.ok(np.array_equal(q, keep), "conj:%s:input" % dt, "inputs changed")

        ck.section("normalisation " + dt)
        for s in (1.0, -1.0, 0.5, 3.0, -7.0, 1e-3, 1e3):
            keep = (q * s).astype(dt)
            qs = keep.copy()
            ok, g = ck.call("norm:" + dt, rl.quatnorm, qs)
            sg = np.where(keep[:, :1] >= 0, 1.0, -1.0)
            w = keep.astype(float) * sg / np.linalg.norm(keep.astype(float), axis=1, keepdims=True)
            ok and near("norm:" + dt, g, w, dt, desc="scale %g" % s)
            ck.ok(np.array_equal(qs, keep), "norm:%s:input" % dt, "input changed")
            for i in range(0, n, 7):
                ok, g = ck.call("norm1:" + dt, rl.quatnorm, qs[i])
                ok and near("norm1:" + dt, g, w[i], dt)
            ck.case(["norm", dt, s])
            ck.evaluations += n

        ck.section("vector rotation " + dt)
        v = dirs.astype(dt)
        m = len(v)
        mats = np.array([R.q2m(x) for x in q])
        want = np.einsum("nij,mj->nmi", mats, v.astype(float))
        sc = np.maximum(1.0, np.linalg.norm(v, axis=1))
        kq, kv = q.copy(), v.copy()
        for i in range(n):
            ok, g = ck.call("rot_1n:" + dt, rl.quat_vector, q[i], v)
            ok and near("rot_1n:" + dt, np.asarray(g) / sc[:, None], want[i] / sc[:, None], dt, 4, "(one rotation %s)" % q[i].tolist())
            ck.evaluations += m
        for k in range(m):
            ok, g = ck.call("rot_n1:" + dt, rl.quat_vector, q, v[k])
            ok and near("rot_n1:" + dt, np.asarray(g) / sc[k], want[:, k] / sc[k], dt, 4, "(one vector %s)" % v[k].tolist())
            ck.case(["rot_n1", dt, k])
            ck.evaluations += n
        a, b = [x.ravel() for x in np.meshgrid(range(n), range(m), indexing="ij")]
        ok, g = ck.call("rot_nn:" + dt, rl.quat_vector, q[a], v[b])
        if ok:
            near("rot_nn:" + dt, np.asarray(g) / sc[b, None], want.reshape(-1, 3) / sc[b, None], dt, 4)
            g2 = rl.quat_vector(-q[a], v[b])
            near("rot_sign:" + dt, np.asarray(g2) / sc[b, None], np.asarray(g) / sc[b, None], dt, 4)
            back = rl.quat_vector(rl.quatconj(q[a]), np.asarray(g))
            near("rot_back:" + dt, np.asarray(back) / sc[b, None], v[b].astype(float) / sc[b, None], dt, 8)
        for i, k in itertools.product(range(0, n, 9), range(m)):
            ok, g = ck.call("rot_11:" + dt, rl.quat_vector, q[i], v[k])
            ok and near("rot_11:" + dt, np.asarray(g) / sc[k], want[i, k] / sc[k], dt, 4)
        for s in (2, 3, 4):
            ok, g = ck.call("rot_small:" + dt, rl.quat_vector, q[3:3 + s], v[5:5 + s])
            ok and near("rot_small:" + dt, np.asarray(g), np.array([mats[3 + t] @ v[5 + t] for t in range(s)]), dt, 4)
        ck.ok(np.array_equal(q, kq) and np.array_equal(v, kv), "rot:%s:input" % dt, "inputs changed")
        ck.section("product = composition of rotations " + dt)
        gen = v[[0, 7, 19]]
        p = rl.quat_multiply(q[ii], q[jj])
        for g3 in gen:
            one = rl.quat_vector(p, g3)
            two = rl.quat_vector(q[ii], rl.quat_vector(q[jj], g3))
            near("compose:" + dt, one, two, dt, 8, "vector %s" % g3.tolist())
            ck.case(["compose", dt, g3.tolist()])
            ck.evaluations += len(ii)
        # om of a product = product of oms
        near("om_product:" + dt, rl.qu2om(p[::17]), np.einsum("nij,njk->nik", mats[ii[::17]], mats[jj[::17]]), dt, 10)

        ck.section("average " + dt)
        deltas = [R.ax2q(np.append(d, 0.02)) for d in np.eye(3)]
        for i in range(n):
            grp = [mul(q[i], d) for d in deltas] + [mul(q[i], d * [1, -1, -1, -1]) for d in deltas]
            ref = q[i].astype(float)
            ref = ref if ref[0] >= 0 else -ref
            for signs in itertools.product((1, -1), repeat=3):
                s = np.array(signs + tuple(-x for x in signs))[:, None]
                arr = np.ascontiguousarray((np.array(grp) * s).astype(dt))
                keep = arr.copy()
                ok, g = ck.call("ave:" + dt, rl.quatave, arr)
                ck.evaluations += 1
                if ok:
                    g = np.asarray(g)
                    ck.ok(g.shape == (4,), "ave:%s:shape" % dt, "shape %s" % (g.shape,))
                    ck.ok(g[0] >= 0 and abs(np.linalg.norm(g) - 1) < 1e-5, "ave:%s:unit" % dt, "average %s" % g)
                    d = R.misor(g.astype(float), ref)
                    ck.ok(d < (1e-9 if dt == "f8" else 1e-5), "ave:" + dt,
                          lambda: "average of %s is %s, expected +-%s (off by %.3g rad)" % (arr.tolist(), g.tolist(), ref.tolist(), d))
                ck.ok(np.array_equal(arr, keep), "ave:%s:input" % dt, "input changed")
            ck.case(["ave", dt, i])
            for m in (1, 2, 3):
                arr = np.ascontiguousarray(np.tile(q[i], (m, 1)))
                if m > 1:
                    arr[-1] *= -1
                ok, g = ck.call("ave_rep:" + dt, rl.quatave, arr)
                ok and ck.ok(R.misor(np.asarray(g, float), ref) < (1e-9 if dt == "f8" else 1e-5), "ave_rep:" + dt,
                             "average of %d copies of %s is %s" % (m, q[i], g))
    ck.section("mixed precision")
    for i in range(0, n, 3):
        for da, db in (("f4", "f8"), ("f8", "f4")):
            for A, B in ((Q[i], Q), (Q, Q[i]), (Q, np.roll(Q, 1, axis=0))):
                ok, g = ck.call("mixed", rl.quat_multiply, A.astype(da), B.astype(db))
                ok and near("mixed_mul:%s:%s" % (da, db), g, mul(A, B), "f4")
            ok, g = ck.call("mixed", rl.quat_vector, Q[i].astype(da), dirs[:10].astype(db))
            ok and near("mixed_rot:%s:%s" % (da, db), g, (R.q2m(Q[i]) @ dirs[:10].T).T, "f4", 4)
            ck.case(["mixed", i, da, db])
    ck.section("whole numbers")
    qi = np.array([q for q in itertools.product((-1, 0, 1), repeat=4) if sum(map(abs, q)) == 1])
    vi = np.array([d for d in itertools.product((-1, 0, 2), repeat=3) if any(d)])
    for it in ("i8", "i4", list):
        def cast(x):
            return x.tolist() if it is list else x.astype(it)
        for k in range(len(qi)):
            e = qi[k].astype(float)
            ck.case(["whole", str(it), k])
            for nm, got, want in (("mul_1n", ck.call("whole_mul", rl.quat_multiply, cast(qi[k]), Q), mul(e, Q)), ("mul_n1", ck.call("whole_mul", rl.quat_multiply, Q, cast(qi[k])), mul(Q, e)),
                                  ("mul_ii", ck.call("whole_mul", rl.quat_multiply, cast(qi), cast(qi[k])), mul(qi, e)),
                                  ("conj", ck.call("whole_conj", rl.quatconj, cast(qi[k])), e * [1, -1, -1, -1]),
                                  ("rot", ck.call("whole_rot", rl.quat_vector, cast(qi[k]), cast(vi)), (R.q2m(e) @ vi.T).T)):
                if got[0]:
                    near("whole_%s" % nm, got[1], want, "f8", 4)
        for k in range(len(vi)):
            ok, g = ck.call("whole_rot", rl.quat_vector, Q, cast(vi[k]))
            ok and near("whole_rot_n1", g, np.einsum("nij,j->ni", np.array([R.q2m(x) for x in Q]), vi[k].astype(float)), "f8", 8)
            ck.case(["whole_rot", str(it), k])
        qq = np.array([q for q in itertools.product((-1, 0, 1), repeat=4) if any(q)])
        ok, g = ck.call("whole_norm", rl.quatnorm, cast(qq))
        ok and near("whole_norm", g, qq * np.where(qq[:, :1] >= 0, 1.0, -1.0) / np.linalg.norm(qq, axis=1)[:, None], "f8")
        ok, g = ck.call("whole_ave", rl.quatave, cast(np.array([[1, 1, 0, 0], [-1, -1, 0, 0]])))
        ok and near("whole_ave", g, np.array([1, 1, 0, 0]) / np.sqrt(2), "f8", 10)
    ck.section("random rotations are rotations")
    for m in (1, 2, 3, 10, 500):
        np.random.seed(core.SEED)
        g = np.atleast_2d(rl.randomquat(m))
        ck.case(["randomquat", m])
        ck.ok(g.shape == (m, 4) and np.abs(np.linalg.norm(g, axis=1) - 1).max() < 1e-6 and g[:, 0].min() >= -1e-9,
              "randomquat", "randomquat(%d) gives shape %s, norms %s" % (m, g.shape, np.linalg.norm(g, axis=1)[:5]))


if __name__ == "__main__":
    core.main("C15", "exploration",
              "every ordered pair (and every triple of a subset) of a finite alphabet of unit quaternions that contains all "
              "sign/zero patterns, in every calling form and precision, against plain numpy; distinct = distinct result arrays", body)

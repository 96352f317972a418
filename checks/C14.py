"""C14: every conversion between orientation representations preserves the rotation.

State: (representation, rotation).  Transition: one of the 42 conversion functions of
rotlib.  All paths up to a depth are taken from every member of a finite set of rotations
that contains the degenerate ones, in both precisions, alone and in arrays."""
import itertools
import numpy as np
from vlib import core, rotref as R

REPS = ("qu", "om", "eu", "ax", "ro", "ho", "cu")


def rotations():
    out = {}

    def add(q):
        q = np.asarray(q, float) / np.linalg.norm(q)
        q = q if q[0] > 1e-12 or (abs(q[0]) <= 1e-12 and q[np.flatnonzero(np.abs(q) > 1e-12)[0]] > 0) else -q
        out.setdefault(tuple(np.round(q, 9) + 0.0), q)
    for q in itertools.product((-1, 0, 1), repeat=4):
        if any(q):
            add(q)
    n_deg = len(out)
    step = (0, 60, 90, 180, 270, 330) if not core.THOROUGH else range(0, 360, 30)
    phi = (0, 45, 90, 120, 180) if not core.THOROUGH else range(0, 181, 15)
    for e in itertools.product(step, phi, step):
        add(R.m2q(R.eu2m(np.radians(e))))
    dirs = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)]
    for d in dirs:
        for w in (1e-4, 1e-2, np.pi - 1e-2, np.pi - 1e-4, 1.0, 2.5):
            add(R.ax2q(np.append(d, w)))
    for q in itertools.product((-2, -1, 0, 1, 2) if not core.THOROUGH else range(-3, 4), repeat=4):
        if any(q):
            add(q)
    return list(out.values()), n_deg


def body(ck):
    from pyebsdindex import rotlib
    fn = {(a, b): getattr(rotlib, a + "2" + b) for a in REPS for b in REPS if a != b}
    qs, n_deg = rotations()
    # extra coordinates of the same rotation: 2 pi wrapped Euler angles, both signs of q
    val = {}
    for r in REPS:
        if r == "cu":
            # cubochoric values enumerated in their own space: grid over the closed cube
            g = np.linspace(-1, 1, 7 if not core.THOROUGH else 11) * R.AP2
            val[r] = np.array([c for c in itertools.product(g, repeat=3)])
            val[r] = np.concatenate([val[r], 0.37 * val[r][::3], np.eye(3) * 0.2, -np.eye(3) * 1e-3])
        else:
            val[r] = np.array([R.from_q(r, q) for q in qs])
    val["qu"] = np.concatenate([val["qu"], -val["qu"]])
    wrap = val["eu"][val["eu"][:, 0] < 1e-9] + np.array([2 * np.pi, 0, 0])
    val["eu"] = np.concatenate([val["eu"], wrap, val["eu"][val["eu"][:, 2] < 1e-9] + np.array([0, 0, 2 * np.pi])])
    qref = {r: [R.to_q(r, v) for v in val[r]] for r in REPS}
    TOL = {"f8": 2e-5, "f4": 4e-3}
    RNG = {"f8": 1e-6, "f4": 2e-4}

    def check_rows(path, dt, vin, out, q, rep, depth=1):
        if out.shape != ((len(q), 3, 3) if rep == "om" else (len(q), 4 if rep in ("qu", "ax", "ro") else 3)):
            ck.fail("%s:%s:shape" % (path, dt), "output shape %s for %d inputs" % (out.shape, len(q)))
            return
        for i in range(len(q)):
            why = R.in_range(rep, out[i], RNG[dt])
            err = R.misor(R.to_q(rep, out[i]), q[i]) if why is None else 9
            ck.transitions += 1
            if why or not err <= TOL[dt] * depth:
                ck.fail("%s:%s" % (path, dt), "%s of %s (rotation %s) gives %s: %s" % (
                    path, np.asarray(vin[i]).tolist(), q[i].round(6).tolist(), out[i].tolist(),
                    why or "rotation differs by %.3g rad" % err))
                return

    ck.section("all rotations x all conversions, batch")
    base = {}
    for dt in ("f8", "f4"):
        for (a, b), f in fn.items():
            v = np.ascontiguousarray(val[a].astype(dt))
            keep = v.copy()
            q = qref[a] if dt == "f8" else [R.to_q(a, x) for x in v]
            ok, out = ck.call("%s2%s:%s" % (a, b, dt), f, v)
            ck.case([a, b, dt, len(v)])
            if not ok:
                continue
            ck.ok(np.array_equal(keep, v), "%s2%s:%s:input" % (a, b, dt), "input array changed")
            out = np.asarray(out)
            ck.ok(out.dtype == v.dtype, "%s2%s:%s:dtype" % (a, b, dt), "result type %s for input %s" % (out.dtype, v.dtype))
            check_rows("%s2%s" % (a, b), dt, v, out, q, b)
            base[a, b, dt] = out
            for o in out[:: max(1, len(out) // 50)]:
                ck.state((b, dt, np.round(o, 3)))
            ck.outcome(np.round(out, 2))

    ck.section("one orientation, arrays of length 1-5, degenerate entry in every slot, strided input")
    nsel = 14 if not core.THOROUGH else 60
    for dt in ("f8", "f4"):
        for (a, b), f in fn.items():
            if (a, b, dt) not in base:
                continue
            v = np.ascontiguousarray(val[a].astype(dt))
            B = base[a, b, dt]
            sel = np.unique(np.concatenate([np.linspace(0, len(v) - 1, nsel).astype(int),
                                            [int(np.argmin([R.misor(q, [1, 0, 0, 0]) for q in qref[a]]))]]))

            def same(out, idx, what):
                out = np.asarray(out)
                want = B[idx]
                if len(idx) == 1 and out.shape == want.shape[1:]:
                    out = out[None]
                ck.case([a, b, dt, what, [int(i) for i in idx]])
                if out.shape != want.shape:
                    ck.fail("%s2%s:%s:%s" % (a, b, dt, what), "shape %s, want %s" % (out.shape, want.shape))
                    return
                fin = np.isfinite(want) & (np.abs(want) < 1e3)
                tol = 1e-9 if dt == "f8" else 1e-4
                bad = np.any(np.abs(np.where(fin, out - want, 0)) > tol)
                if bad:  # a branch may legitimately flip at a degenerate point: compare rotations
                    for o, i in zip(out, idx):
                        if R.in_range(b, o, RNG[dt]) or R.misor(R.to_q(b, o), R.to_q(b, B[i])) > TOL[dt]:
                            ck.fail("%s2%s:%s:%s" % (a, b, dt, what), "entry %d converts to %s here and %s in the full array"
                                    % (i, o.tolist(), B[i].tolist()))
                            return
            for i in sel:
                ok, o = ck.call("%s2%s:%s:single" % (a, b, dt), f, v[i].copy())
                ok and same(o, [i], "single")
            ident = sel[int(np.argmin([R.misor(qref[a][i], [1, 0, 0, 0]) for i in sel]))]
            for n in (1, 2, 3, 5):
                for slot in range(n):
                    idx = [int(sel[(3 * k + slot) % len(sel)]) for k in range(n)]
                    idx[slot] = int(ident)
                    ok, o = ck.call("%s2%s:%s:n%d" % (a, b, dt, n), f, np.ascontiguousarray(v[idx]))
                    ok and same(o, idx, "n%d" % n)
            idx = list(range(0, min(len(v), 12), 2))
            ok, o = ck.call("%s2%s:%s:strided" % (a, b, dt), f, v[0:12:2])
            ok and same(o, idx, "strided")

    ck.section("whole numbers")
    whole = {"qu": [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, -1, 0], [0, 0, 0, 1]], "eu": [[0, 0, 0], [1, 2, 3], [0, 1, 0], [6, 3, 5]],
             "om": [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[-1, 0, 0], [0, 0, -1], [0, -1, 0]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]]],
             "ax": [[0, 0, 1, 1], [0, 1, 0, 3], [-1, 0, 0, 2], [0, 0, -1, 1]], "ro": [[0, 0, 1, 1], [0, 1, 0, 3], [-1, 0, 0, 2], [0, 0, -1, 1]],
             "ho": [[1, 0, 0], [0, -1, 0], [0, 0, 1], [0, 1, 0]], "cu": [[1, 0, 0], [0, -1, 0], [0, 0, 1], [0, 1, 0]]}
    for (a, b), f in fn.items():
        for it in ("i8", "i4"):
            for v in (np.array(whole[a], it), np.array(whole[a][1], it)):
                ck.case([a, b, it, v.ndim])
                ok, o = ck.call("%s2%s:whole" % (a, b), f, v)
                ok2, w = ck.call("%s2%s:whole" % (a, b), f, v.astype("f8"))
                if ok and ok2:
                    o, w = np.asarray(o), np.asarray(w)
                    ck.ok(o.shape == w.shape and np.allclose(o, w, rtol=1e-6, atol=1e-6, equal_nan=True), "%s2%s:whole" % (a, b),
                          lambda: "%s %s converts to %s, as floats to %s" % (a, v.tolist(), o.tolist(), w.tolist()))

    depth = 4 if core.THOROUGH else 3
    ck.section("all conversion chains up to length %d" % depth)
    seeds = qs[:n_deg]
    for dt in ("f8", "f4"):
        for a in REPS[:-1]:
            v0 = np.array([R.from_q(a, q) for q in seeds]).astype(dt)
            q0 = [R.to_q(a, x) for x in v0]
            stack = [((a,), v0)]
            while stack:
                path, v = stack.pop()
                for b in REPS:
                    if b == path[-1]:
                        continue
                    name = "2".join(path + (b,))
                    ok, o = ck.call(name + ":" + dt, fn[path[-1], b], np.ascontiguousarray(v))
                    if not ok:
                        continue
                    o = np.asarray(o)
                    ck.case([name, dt])
                    if len(path) == depth or len(path) > 1 and (len(path) == 2 or core.THOROUGH):
                        check_rows(name, dt, v0, o, q0, b, depth=len(path))
                    if len(path) < depth:
                        stack.append((path + (b,), o))
    plain_python(ck, val, qref, seeds)
    ck.traces = ck.evaluations
    ck.extra["rotations"] = len(qs)


def plain_python(ck, val, qref, seeds):
    """The plain numpy versions of the same conversions; they take arrays of any shape."""
    import warnings
    from pyebsdindex import rotations as M
    warnings.simplefilter("ignore")
    fn = {(a, b): getattr(M, a + "2" + b) for a in REPS for b in REPS if a != b}
    tail = {"om": (3, 3), "qu": (4,), "ax": (4,), "ro": (4,)}
    TOL = 2.5e-4  # rotations of less than 1e-4 are taken for no rotation

    def rows(name, a, b, vin, out, q, depth=1):
        if not ck.ok(out.shape == (len(q),) + tail.get(b, (3,)), name + ":shape", "output shape %s for %d inputs" % (out.shape, len(q))):
            return
        for i in range(len(q)):
            why = R.in_range(b, out[i], 1e-6)
            err = R.misor(R.to_q(b, out[i]), q[i]) if why is None else 9
            ck.transitions += 1
            if not ck.ok(why is None and err <= TOL * depth, name, lambda: "%s of %s (rotation %s) gives %s: %s" % (
                    name, np.asarray(vin[i]).tolist(), q[i].round(6).tolist(), out[i].tolist(), why or "rotation differs by %.3g rad" % err)):
                return

    ck.section("plain python conversions")
    for (a, b), f in fn.items():
        name = "rotations.%s2%s" % (a, b)
        v, q = val[a], qref[a]
        if a == "qu":  # positive scalar part
            v, q = v[:len(v) // 2], q[:len(q) // 2]
        if a == "eu":
            k = (v < 2 * np.pi).all(1)
            v, q = v[k], [x for x, y in zip(q, k) if y]
        v = np.array(v, float)
        keep = v.copy()
        ok, out = ck.call(name, f, v)
        ck.case([name, len(v)])
        if not ok:
            continue
        out = np.asarray(out)
        ck.ok(np.array_equal(keep, v), name + ":input", "input array changed")
        rows(name, a, b, v, out, q)
        ck.outcome(np.round(out, 2))
        for i in list(range(0, len(v), max(1, len(v) // 40))) + [int(np.argmin([R.misor(x, [1, 0, 0, 0]) for x in q]))]:
            ok, o = ck.call(name + ":single", f, v[i].copy())
            if ok:
                rows(name + ":single", a, b, v[i][None], np.asarray(o)[None], [q[i]])
        for sh in ((1,), (2, 3), (1, 2, 2)):
            n = int(np.prod(sh))
            for st in range(0, len(v) - n, max(n, len(v) // 12)):
                ok, o = ck.call(name + ":nd", f, v[st:st + n].reshape(sh + v.shape[1:]).copy())
                if ok and ck.ok(np.asarray(o).shape == sh + tail.get(b, (3,)), name + ":nd", lambda: "output shape %s for %s" % (np.asarray(o).shape, sh)):
                    rows(name + ":nd", a, b, v[st:st + n], np.asarray(o).reshape((n,) + tail.get(b, (3,))), q[st:st + n])
    for a, b, c in itertools.product(REPS[:-1], REPS, REPS):
        if a != b and b != c:
            v = np.array([R.from_q(a, q) for q in seeds])
            ok, o = ck.call("rotations.%s2%s2%s" % (a, b, c), lambda: fn[b, c](np.asarray(fn[a, b](v.copy()))))
            ck.case(["rotations", a, b, c])
            if ok:
                rows("rotations.%s2%s2%s" % (a, b, c), a, c, v, np.asarray(o), [R.to_q(a, x) for x in v], 2)


if __name__ == "__main__":
    core.main("C14", "model_checking",
              "a state is (representation, rotation); a transition is one conversion function of rotlib applied to it and "
              "compared with an independent double precision model; all chains up to the stated length are run on the real code",
              body)

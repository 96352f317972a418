"""C16: symmetry operators.  Reference: groups generated here by closure from textbook
generators (axes and folds), and the space-group -> Laue-class table of the International
Tables."""
import itertools
import numpy as np
from vlib import core, rotref as R

TABLE = [(1, 2, 1), (3, 15, 2), (16, 74, 22), (75, 88, 4), (89, 142, 42), (143, 148, 3), (149, 167, 32),
         (168, 176, 6), (177, 194, 62), (195, 206, 23), (207, 230, 43)]
# generators: (axis, fold)
GEN = {1: [], 2: [((0, 1, 0), 2)], 22: [((0, 0, 1), 2), ((1, 0, 0), 2)], 4: [((0, 0, 1), 4)],
       42: [((0, 0, 1), 4), ((1, 0, 0), 2)], 3: [((0, 0, 1), 3)], 32: [((0, 0, 1), 3), ((1, 0, 0), 2)],
       6: [((0, 0, 1), 6)], 62: [((0, 0, 1), 6), ((1, 0, 0), 2)], 23: [((0, 0, 1), 2), ((1, 0, 0), 2), ((1, 1, 1), 3)],
       43: [((0, 0, 1), 4), ((1, 1, 1), 3), ((1, 1, 0), 2)]}
ORDER = {1: 1, 2: 2, 22: 4, 4: 4, 42: 8, 3: 3, 32: 6, 6: 6, 62: 12, 23: 12, 43: 24}


def mul(a, b):
    return np.concatenate([[a[0] * b[0] - a[1:] @ b[1:]], a[0] * b[1:] + b[0] * a[1:] + np.cross(a[1:], b[1:])])


def canon(q):
    q = np.asarray(q, float)
    nz = q[np.flatnonzero(np.abs(q) > 1e-5)[0]]
    return tuple(np.round(q if nz > 0 else -q, 4) + 0.0)


def closure(gens):
    els = {canon([1, 0, 0, 0]): np.array([1.0, 0, 0, 0])}
    front = list(els.values())
    ntrans = 0
    while front:
        nxt = []
        for x in front:
            for g in gens:
                y = mul(x, g)
                ntrans += 1
                k = canon(y)
                if k not in els:
                    els[k] = y
                    nxt.append(y)
        front = nxt
    return els, ntrans


def body(ck):
    from pyebsdindex import crystal_sym as cs
    from pyebsdindex import tripletvote as tv
    groups = {}
    ck.section("operators of every Laue class")
    for laue, gens in GEN.items():
        ref, nt = closure([R.ax2q(np.append(a, 2 * np.pi / f)) for a, f in gens])
        groups[laue] = ref
        assert len(ref) == ORDER[laue]
        ck.transitions += nt
        first = None
        for rep in range(2):
            ok, ops = ck.call("ops:%d" % laue, cs.laueid2symops, laue)
            if not ok:
                break
            ops = np.asarray(ops)
            ck.case([laue, rep], np.round(ops, 3))
            if not ck.ok(ops.shape == (ORDER[laue], 4), "ops:%d:shape" % laue, "Laue %d: operators of shape %s" % (laue, ops.shape)):
                break
            ck.ok(np.abs(np.linalg.norm(ops, axis=1) - 1).max() < 1e-5, "ops:%d:unit" % laue,
                  "Laue %d: operator norms %s" % (laue, np.linalg.norm(ops, axis=1)))
            got = {canon(o) for o in ops}
            for o in ops:
                ck.state((laue, canon(o)))
            ck.ok(len(got) == ORDER[laue], "ops:%d:distinct" % laue, "Laue %d: only %d distinct operators" % (laue, len(got)))
            ck.ok(got == set(ref), "ops:%d:group" % laue, lambda: "Laue %d: not the group generated by %s: extra %s missing %s"
                  % (laue, gens, sorted(got - set(ref))[:3], sorted(set(ref) - got)[:3]))
            for a, b in itertools.product(ops.astype(float), repeat=2):
                ck.transitions += 1
                if min(min(np.abs(mul(a, b) - r).max(), np.abs(mul(a, b) + r).max()) for r in ops) > 1e-5:
                    ck.fail("ops:%d:closed" % laue, "Laue %d: product of %s and %s is not an operator" % (laue, a, b))
            ck.ok(first is None or np.array_equal(first, ops), "ops:%d:repeat" % laue, "second call differs")
            first = ops.copy()
            ops[...] = 7.0  # the caller's own array: a later call must not see this
    ck.section("the 230 space groups")
    for lo, hi, laue in TABLE:
        for sg in range(lo, hi + 1):
            for conv in (int, np.int32, np.int64, float):
                ok, got = ck.call("sg:%d" % sg, cs.spacegroup2lauenumber, conv(sg))
                ck.case([sg, conv.__name__], int(got) if ok else None)
                ok and ck.ok(int(got) == laue, "sg:%d" % sg, "space group %d -> Laue %s, should be %d" % (sg, got, laue))
            ok, ops = ck.call("sgops:%d" % sg, cs.spacegroupnum2symops, sg)
            if ok:
                ck.ok(ops is not None and {canon(o) for o in ops} == set(groups[laue]), "sgops:%d" % sg,
                      "space group %d: operators are not those of Laue class %d" % (sg, laue))
            ck.state(("sg", sg, laue))
            bi = tv.BandIndexer(phasename="x", spacegroup=sg, latticeparameter=[1, 1, 1, 90, 90, 90])
            ck.ok(int(bi.lauecode) == laue and {canon(o) for o in bi.qsymops} == set(groups[laue]), "phase:%d" % sg,
                  "phase built with space group %d has Laue code %s with %d operators" % (sg, bi.lauecode, len(bi.qsymops)))
            ck.transitions += 6
    ck.section("changing a phase's space group")
    seq = [225, 2, 194, 14, 167, 62, 141, 88, 147, 176, 204]
    bi = tv.BandIndexer(phasename="x", spacegroup=225, latticeparameter=[1, 1, 1, 90, 90, 90])
    for a, b in itertools.permutations(seq, 2):
        for sg in (a, b):
            bi.setspacegroup(sg)
            laue = [l for lo, hi, l in TABLE if lo <= sg <= hi][0]
            ck.case([a, b, sg])
            ck.transitions += 1
            ck.ok(int(bi.lauecode) == laue and bi.spacegroup == sg and {canon(o) for o in bi.qsymops} == set(groups[laue]),
                  "setspacegroup", "after setspacegroup %d, %d: Laue code %s" % (a, b, bi.lauecode))
    ck.section("symmetry-equivalent orientations")
    fns = {43: (cs.cubicsym_q, False), 23: (cs.cubicsym_q, True), 62: (cs.hexsym_q, False), 6: (cs.hexsym_q, True),
           32: (cs.trigonal_q, False), 3: (cs.trigonal_q, True), 42: (cs.tetragonal_q, False), 4: (cs.tetragonal_q, True),
           22: (cs.orthorhombic_q, False), 2: (cs.monoclinic_q, False), 1: (cs.triclinic_q, False)}
    qs = [np.array(q, float) / np.linalg.norm(q) for q in itertools.product((-1, 0, 1), repeat=4) if any(q)][:: 1 if core.THOROUGH else 4]
    qs += [R.ax2q([1, 2, 3, 0.7]), R.ax2q([-1, 0.2, 0.3, 2.9])]
    for laue, (fn, low) in fns.items():
        for q in qs:
            keep = q.copy()
            ok, eq = ck.call("equiv:%d" % laue, fn, q, low=low)
            if not ok:
                break
            eq = np.atleast_2d(np.asarray(eq))
            ck.case([laue, q], np.round(eq, 3))
            want = {canon(mul(s, q)) for s in groups[laue].values()}
            ck.ok(np.array_equal(q, keep), "equiv:%d:input" % laue, "input quaternion changed")
            ck.ok(eq.shape == (ORDER[laue], 4), "equiv:%d:shape" % laue, "shape %s" % (eq.shape,))
            close = all(min(min(np.abs(e - np.array(w)).max(), np.abs(e + np.array(w)).max()) for w in want) < 3e-4 for e in eq)
            ck.ok(close, "equiv:%d" % laue, "Laue %d: equivalents of %s are %s" % (laue, q, eq.round(4).tolist()))
            for e in eq[::5]:
                eq2 = np.atleast_2d(np.asarray(fn(np.ascontiguousarray(e), low=low)))
                ck.transitions += 1
                close = all(np.min(np.minimum(np.abs(x - eq).max(axis=1), np.abs(x + eq).max(axis=1))) < 3e-4 for x in eq2)
                ck.ok(close, "equiv2:%d" % laue, "Laue %d: equivalents of an equivalent of %s are different" % (laue, q))
    ck.traces = ck.evaluations


if __name__ == "__main__":
    core.main("C16", "model_checking",
              "states: group elements reached by closure from textbook generators, and all 230 space groups; transitions: "
              "group products and calls of the symmetry functions", body)

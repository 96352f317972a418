"""C27: band detection on an OpenCL device.  The device's kernels, compiled from the tree by clang as
OpenCL C, run on the CPU under a stand-in for pyopencl in which everything a device or driver may
choose is a knob: order of the work items, when queued commands run, what memory holds before it is
written, which call fails.  All combinations are explored; the answer must be the same for all of
them, for all batch sizes and number types, independent of the other patterns, where the bands are,
and the CPU's answer whenever the device fails."""
import contextlib, io, itertools, os
from vlib import core, dist, explore, fakecl, fakeray
fakecl.install(devices=((1 << 28, False), (1 << 28, False)))
import numpy as np
from checks import C03, C26
from vlib import simpat
from vlib.idx import PC, pool, quiet, rots, same as samerec, up_file

FIELDS = ("max", "normmax", "avemax", "maxloc", "aveloc", "width", "valid")


def gpu(shape, nT=60, nR=45, frac=.15, mask=None, nBands=7, back=None, **kw):
    from pyebsdindex.opencl import band_detect_cl
    d = band_detect_cl.BandDetect(patDim=np.array(shape), nTheta=nT, nRho=nR, rhoMaskFrac=frac, nBands=nBands, patternmask=mask, **kw)
    if back is not None:
        d.collect_background(patsIn=back)
    return d


class Fallback(Exception):
    pass


@contextlib.contextmanager
def watch():
    """Number of times the device was given up for the CPU, and what it printed."""
    from pyebsdindex import band_detect
    o = band_detect.BandDetect.find_bands
    n = []

    def fb(self, *a, **k):
        n.append(1)
        return o(self, *a, **k)
    band_detect.BandDetect.find_bands = fb
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            yield n, out
    finally:
        band_detect.BandDetect.find_bands = o


@contextlib.contextmanager
def knobs(**k):
    old = {n: getattr(fakecl.K, n) for n in k}
    for n, v in k.items():
        setattr(fakecl.K, n, v)
    try:
        yield
    finally:
        for n, v in old.items():
            setattr(fakecl.K, n, v)


CONFIGS = [dict(shape=(40, 44)), dict(shape=(36, 52), nT=90, nR=40, frac=.1, mask="disk", nBands=9), dict(shape=(40, 40), nT=36, nR=60, back=True, nBands=5),
           dict(shape=(52, 36), nT=60, nR=30, frac=.3, nBands=12, tSigma=None, rSigma=None), dict(shape=(44, 40), frac=2), dict(shape=(40, 40), frac=0),
           dict(shape=(48, 40), nT=45, nR=50, frac=.05, tSigma=2.0, rSigma=2.0)]


def build(i):
    c = dict(CONFIGS[i])
    if c.get("mask"):
        h, w = c["shape"]
        y, x = np.mgrid[:h, :w]
        c["mask"] = ((y - h / 2) ** 2 + (x - w / 2) ** 2 < (.48 * min(h, w)) ** 2).astype(int)
    if c.get("back"):
        c["back"] = pool(8, c["shape"])[0]
    return gpu(**c)


def patterns(shape, n):
    R = rots(6)
    rs = np.random.RandomState(3)
    out = []
    for k in range(n):
        p = simpat.pattern(R[k % 6], shape, PC, gain=60 + 10 * (k % 4), reflectors=simpat.BCC if k % 3 == 2 else simpat.FCC)
        if k % 5 == 4:
            p = rs.randint(0, 255, shape).astype(float)
        p = p - p.min()
        out.append(np.rint(p / p.max() * (200 + k % 3)))
    return np.array(out)


def same(a, b):
    for n in FIELDS:
        if not np.array_equal(a[n], b[n], equal_nan=True):
            i = tuple(np.argwhere(~((a[n] == b[n]) | ((a[n] != a[n]) & (b[n] != b[n]))))[0])
            return "%s%s is %r, not %r" % (n, list(map(int, i)), a[n][i], b[n][i])
    return None


def run(ck, key, d, p, **k):
    with watch() as (n, out):
        ok, b = ck.call(key, d.find_bands, p, **k)
    if not ok:
        return None
    if n and not fakecl.K.missing:
        ck.ok(False, key + ":fallback", "the device was given up for the CPU: %s" % out.getvalue()[:200])
    return b


def freedom(ck, ci):
    """Whatever a device may choose, the bands are the same."""
    d = build(ci)
    shape = CONFIGS[ci]["shape"]
    P = patterns(shape, 33)
    sizes = (1, 15, 16, 17, 33)
    types = {"u1": np.uint8, "u2": np.uint16, "f4": np.float32} if not core.THOROUGH else \
        {"u1": np.uint8, "u2": np.uint16, "f4": np.float32, "f8": float, "i4": np.int32}
    ref = {}
    for order, lazy, fill in itertools.product(("fwd", "rev", "inter"), (False, True), (0x00, 0xC3, 0xFF, 0x7F, 0x42)):
        for t, n in itertools.product(types, sizes):
            if not core.THOROUGH and (order == "inter" or fill == 0x42 or t != "u1" and fill in (0, 0xFF) or t == "u2" and lazy) and (t != "u1" or n not in (1, 17)):
                continue
            for chunk in ((528,) if n != 33 else (528, 16, 7)):
                with knobs(order=order, lazy=lazy, fill=fill):
                    b = run(ck, "device:config%d" % ci, d, P[:n].astype(types[t]), chunksize=chunk)
                case = [ci, order, lazy, fill, t, n, chunk]
                ck.state(case)
                ck.transitions += 1
                if b is None:
                    continue
                ck.case(case, b["maxloc"])
                # memory layout of the batch decides the order of a sum, so the reference is per batch
                r = ref.setdefault((n, chunk), b)
                bad = same(b, r)
                ck.ok(bad is None, "device:config%d:%s:%s:%02x" % (ci, order, "lazy" if lazy else "eager", fill),
                      "detector %d: work items %s, commands %s, unwritten memory 0x%02x, %s, batch of %d, chunks of %d: %s"
                      % (ci, order, "late" if lazy else "at once", fill, t, n, chunk, bad))


def types(ck, ci):
    """Numbers that all types can hold lead to the same bands in all of them, over the whole range of each type."""
    d = build(ci)
    P = patterns(CONFIGS[ci]["shape"], 17)
    for what, Q, kinds in (("0 to 255", P, ("u1", "u2", "i2", "i4", "u4", "i8", "f4", "f8", ">u2", ">f4", "f2")), ("0 to 60600", P * 300, ("u2", ">u2", "u4", "i4", "i8", "f4", "f8")),
                           ("200 to 65000", P * 320 + 200, ("u2", "i4", "f4", ">i4")), ("-100 to 102", P - 100, ("i2", "i4", "f4", "f8")), ("-32000 to 28000", P * 300 - 32000, ("i2", "i4", "f4"))):
        ref = None
        for t, lay, n in itertools.product(kinds, ("c", "f", "strided", "read only"), (1, 17)):
            q = Q[:n].astype(t)
            if lay == "f":
                q = np.asfortranarray(q)
            elif lay == "strided":
                q = np.repeat(np.repeat(q, 2, axis=0), 2, axis=2)[::2, :, ::2]
            elif lay == "read only":
                q.setflags(write=False)
            keep = q.copy()
            b = run(ck, "types:config%d" % ci, d, q)
            ck.case(["types", ci, what, t, lay, n])
            if b is None:
                continue
            ref = ref or {}
            bad = same(b, ref.setdefault(n, b))
            ck.ok(bad is None, "types:config%d" % ci, "detector %d: patterns of %s as %s (%s), batch of %d: %s" % (ci, what, t, lay, n, bad))
            ck.ok(np.array_equal(q, keep), "types:input", "the patterns given were changed")


def conflicts(ck, ci):
    """No two work items of a kernel touch the same memory: all their interleavings are the same."""
    d = build(ci)
    P = patterns(CONFIGS[ci]["shape"], 33)
    for t, n in itertools.product((np.uint8, np.uint16, np.float32, np.float64, np.int32), (1, 2, 15, 16, 17, 33)):
        for chunk in ((528,) if n != 33 else (528, 16, 7)):
            with knobs(watch=True, accesses=0, kernels=0):
                b = run(ck, "conflict:config%d" % ci, d, P[:n].astype(t), chunksize=chunk)
                ck.transitions += fakecl.K.accesses
                ck.state([ci, np.dtype(t).str, n, chunk, "watched"])
                ck.ok(fakecl.K.missing or fakecl.K.accesses > 1000, "watch", "no accesses recorded")
            if b is not None:
                ck.case([ci, np.dtype(t).str, n, chunk, "watched"], b["maxloc"])


def failures(ck, ci):
    """Any call to the device may fail: then the answer is the CPU's, and the next call is as ever."""
    d = build(ci)
    shape = CONFIGS[ci]["shape"]
    P = patterns(shape, 19).astype(np.uint8)
    for chunk in (528, 8):
        with quiet():
            cpu = d.find_bands(P, useCPU=True)
        good = run(ck, "fail:config%d" % ci, d, P, chunksize=chunk)
        count = [0]

        def counter(what, k):
            count[0] += 1
            return False
        with knobs(fail=counter), quiet():
            d.find_bands(P, chunksize=chunk)
        total = count[0]
        if total < 20:
            ck.fail("fail:few", "only %d device calls" % total)
        for k in range(1, total + 1):
            c = [0]

            def f(what, nr):
                c[0] += 1
                if c[0] == k:
                    f.what = what
                    return True
                return False
            f.what = None
            with knobs(fail=f), watch() as (n, out):
                ok, b = ck.call("fail:config%d:%d" % (ci, k), d.find_bands, P, chunksize=chunk)
            case = [ci, chunk, k, f.what]
            ck.state(case)
            ck.transitions += 1
            if not ok:
                continue
            ck.case(case, len(n))
            if f.what and n:
                bad = same(b, cpu)
                ck.ok(bad is None, "fail:config%d:%s" % (ci, f.what), "device call %d (%s) fails: not the CPU's answer: %s" % (k, f.what, bad))
            elif f.what:
                bad = same(b, good)
                ck.ok(bad is None, "fail:config%d:%s:kept" % (ci, f.what), "device call %d (%s) failed unnoticed: %s" % (k, f.what, bad))
            if k % 5 == 0:
                b = run(ck, "fail:after", d, P, chunksize=chunk)
                ck.ok(b is not None and same(b, good) is None, "fail:config%d:after" % ci, "after a failure of device call %d (%s) the answer is another" % (k, f.what))


def reuse(ck, ci):
    """An OpenCL context given by the caller, used again, on either device; the CPU on demand."""
    from pyebsdindex import band_detect
    from pyebsdindex.opencl import openclparam
    d = build(ci)
    shape = CONFIGS[ci]["shape"]
    P = patterns(shape, 5)
    ref = run(ck, "reuse", d, P.astype(np.uint8))
    c = {k: v for k, v in CONFIGS[ci].items()}
    for gid in (0, 1, 7, None):
        par = openclparam.OpenClParam()
        par.get_queue(gpu_id=gid)
        for k in range(3):
            b = run(ck, "reuse", d, P.astype((np.uint8, np.float32, np.uint16)[k]), clparams=par, gpu_id=gid)
            ck.state(["reuse", ci, gid, k])
            ck.ok(b is not None and same(b, ref) is None, "reuse:config%d" % ci, "detector %d, device %r, use %d of a context: another answer" % (ci, gid, k))
        b = run(ck, "reuse", d, P.astype(np.uint8), gpu_id=gid)
        ck.ok(b is not None and same(b, ref) is None, "reuse:config%d:gpu_id" % ci, "gpu_id %r: another answer" % (gid,))
    with quiet():
        cpu = band_detect.BandDetect.find_bands(d, P)
        b = d.find_bands(P, useCPU=True)
        ck.ok(same(b, cpu) is None, "usecpu", "useCPU=True is not the CPU's answer")
        d.useCPU = True
        b = d.find_bands(P)
        ck.ok(same(b, cpu) is None, "usecpu:attribute", "useCPU attribute: not the CPU's answer")
        d.useCPU = False
    # one pattern as an image, not a stack
    b = run(ck, "image", d, P[2].astype(np.uint8))
    b2 = run(ck, "image", d, P[2:3].astype(np.uint8))
    ck.ok(same(b, b2) is None, "image", "a single image gives another answer than a stack of one")
    # the device's bands are where the CPU's are: every band clearly above the rest is in both lists
    if 0 < CONFIGS[ci].get("frac", .15) < 1:
        for q in range(len(P)):
            for i in range(3):
                if not ref["valid"][q, i]:
                    continue
                dist = [abs(ref["aveloc"][q, i] - cpu["aveloc"][q, j]).max() for j in range(cpu.shape[1]) if cpu["valid"][q, j]]
                flip = [max(abs(d.nRho - 1 - ref["aveloc"][q, i, 0] - cpu["aveloc"][q, j, 0]), abs(abs(ref["aveloc"][q, i, 1] - cpu["aveloc"][q, j, 1]) - d.nTheta))
                        for j in range(cpu.shape[1]) if cpu["valid"][q, j]]
                ck.ok(min(dist + flip + [1e9]) < 1.5, "cpu:config%d" % ci, "detector %d, pattern %d: band %d of the device (%s) is no band of the CPU %s"
                      % (ci, q, i, ref["aveloc"][q, i].tolist(), cpu["aveloc"][q].tolist()))


def orientations(ck, vendor):
    """Simulated patterns indexed with the bands of the device: the true orientation."""
    from pyebsdindex import ebsd_index
    shape = (60, 60)
    R = rots(24 if core.THOROUGH else 12)
    pc = (0.5, 0.7, 0.6)
    P = np.array([simpat.pattern(r, shape, pc, gain=80) for r in R])
    P = (P - P.min()) / (P.max() - P.min())
    for t, q in (("u1", (P * 250).astype(np.uint8)), ("f4", (P * 3 - 1).astype(np.float32)), ("u2", (P * 60000).astype(np.uint16))):
        with watch() as (n, out):
            ok, ix = ck.call("orientations", ebsd_index.EBSDIndexer, phaselist=["FCC"], vendor="EDAX", PC=pc, patDim=np.array(shape), nTheta=180, nRho=90)
            if not ok:
                return
            k0 = fakecl.K.kernels
            ok, r = ck.call("orientations", ix.index_pats, q)
        if not ok:
            return
        if fakecl.K.kernels == k0 and not fakecl.K.missing:
            ck.ok(False, "orientations:device", "index_pats did not use the device")
        e = [off(d["quat"], m) for d, m in zip(r[0][-1], R)]
        ck.case(["orientations", t], [round(float(x), 2) for x in e])
        ck.ok(max(e) < 1.0, "orientations:" + t, "%s patterns on the device: off by %s degrees" % (t, np.round(e, 2).tolist()))


def records(ck, frac):
    """The record of a pattern, with bands found or not, is the same whatever the device chooses."""
    from pyebsdindex import ebsd_index
    shape = (40, 44)
    P = patterns(shape, 6)
    P = np.concatenate([P, np.zeros((1,) + shape), np.full((1,) + shape, 9.), P[:1] * 0 + np.eye(*shape)]).astype(np.uint8)
    ref = None
    for order, lazy, fill in itertools.product(("fwd", "rev"), (False, True), (0x00, 0xC3, 0xFF, 0x7F)):
        with knobs(order=order, lazy=lazy, fill=fill), watch() as (n, out):
            ok, ix = ck.call("records", ebsd_index.EBSDIndexer, phaselist=["FCC", "BCC"], vendor="EDAX", PC=PC, patDim=np.array(shape), nTheta=60, nRho=45,
                             nBands=12, rhoMaskFrac=frac)
            if not ok:
                return
            ok, r = ck.call("records", ix.index_pats, P)
        if not ok:
            return
        case = [frac, order, lazy, fill]
        ck.state(["records"] + case)
        if ref is None:
            ref = r
            continue
        for ph in range(len(r[0])):
            for f in r[0].dtype.names:
                a, b = r[0][f][ph], ref[0][f][ph]
                ck.ok(bool(np.array_equal(a, b, equal_nan=True)), "records:%s" % f, "trim %g, work items %s, commands %s, unwritten memory 0x%02x: %s is %s, was %s"
                      % (frac, order, "late" if lazy else "at once", fill, f, a.tolist(), b.tolist()))
        for f in r[1].dtype.names:
            a, b = r[1][f], ref[1][f]
            ck.ok(bool(np.array_equal(a, b, equal_nan=True)), "records:band:%s" % f, "%s: band field %s differs" % (case, f))


DIST = [  # devices, gpu_id, ncpu, chunksize, first pattern, number of patterns, source, phases
    (1, None, 2, 1, 0, 3, "mem", 1), (1, None, 1, 2, 1, 5, "mem", 2), (2, None, 2, 2, 0, 6, "file", 1), (2, [1], 2, 2, 1, 5, "mem", 1),
    (2, [1, 0], 3, 1, 0, 4, "mem", 1), (1, 0, 2, 2, 0, 5, "mem", 1), (1, [0], 8, 1, 0, 6, "file", 1), (2, np.array([0, 1]), 1, 4, 0, 6, "mem", 1),
    (1, None, 2, 0, 0, 6, "mem", 1), (1, None, -1, 0, 2, -1, "file", 1), (3, [2, 0], 2, 1, -3, -1, "mem", 1), (1, [0], 2, 2, 0, 5, "unified", 1)]


def distributed(ck, i, budgets, faults):
    """Workers that share the devices: the result of serial indexing, under every schedule and fault."""
    from pyebsdindex import ebsd_index
    ndev, gid, ncpu, chunk, start, num, src, nph = DIST[i]
    shape = (40, 44)
    P = pool(6, shape)[0]
    if src == "file":
        P = np.rint((P - P.min()) * 40).astype(np.uint16)
        up = os.path.join(core.SCRATCH, "c27_%d_%d.up2" % (i, len(budgets)))
        up_file(up, P)
    phases = ["FCC", "BCC"][:nph]
    kw = dict(PC=PC, vendor="EDAX", nRho=45, nTheta=60, nBands=7, tSigma=1.0, rSigma=1.2, rhoMaskFrac=0.15)
    devices = [fakecl.Device(1 << 28, src == "unified") for _ in range(ndev)]
    fakecl.PLATFORMS[:] = [fakecl.Platform(devices)]
    with watch() as (nfall, out):
        k0 = fakecl.K.kernels
        E, EB = ebsd_index.index_pats(P, ebsd_indexer_obj=ebsd_index.EBSDIndexer(phaselist=phases, patDim=shape, **kw))
        ck.ok(fakecl.K.kernels > k0 or bool(fakecl.K.missing), "distributed:device", "serial indexing did not use the device")
    first = start % 6
    last = 6 if num < 0 else first + num
    E, EB = E[:, first:last], EB[first:last]
    memo = {}

    def run(ch):
        fakeray.CUR = sess = fakeray.Session(dist.Sched(ch, faults), memo, 40000)
        before = os.environ.get("CUDA_VISIBLE_DEVICES")
        call = dict(filename=up) if src == "file" else dict(patsin=P)
        call.update(phaselist=phases, ncpu=ncpu, chunksize=chunk, patstart=start, npats=num, gpu_id=gid, **kw)
        try:
            with watch():
                r = ebsd_index.index_pats_distributed(**call)
        except (fakeray.Livelock, fakeray.Deadlock) as e:
            return "does not end: %s" % e, sess
        except Exception as e:
            return "raises %s: %s" % (type(e).__name__, e), sess
        finally:
            after = os.environ.get("CUDA_VISIBLE_DEVICES")
            os.environ.pop("CUDA_VISIBLE_DEVICES", None) if before is None else os.environ.__setitem__("CUDA_VISIBLE_DEVICES", before)
        if r is None:
            return "returned None", sess
        bad = samerec(r[0], E, "indexing data") or samerec(r[1], EB, "band data")
        if bad is None and after != before:
            bad = "CUDA_VISIBLE_DEVICES %r before, %r after" % (before, after)
        if bad is None and sess.inited:
            bad = "the cluster is left running"
        return bad, sess
    n = 0
    for ch, (bad, sess) in explore.explore(run, budgets, 40, 400 if not core.THOROUGH else 4000):
        n += 1
        dev = [(k, ch.points[k][0], c) for k, c in enumerate(ch.choices) if c]
        ck.case(["distributed", i, dev, faults], sess.ntask)
        ck.transitions += len(ch.choices)
        ck.traces += 1
        ck.state(["distributed", i, dev])
        hit = "+".join(sorted({t[4] for t in sess.trace if t[0] == "submit" and t[4]})) or "none"
        ck.ok(bad is None, "distributed:%d:%s" % (i, hit), "%d device(s), gpu_id %s, ncpu %d, chunks of %d, patterns %d on (%d) from %s, faults %s, deviations %s: %s" % (
            ndev, gid, ncpu, chunk, start, num, src, hit, dev, bad))


def platforms(ck):
    """Whatever platforms and devices there are, and whichever is asked for, the bands are the same."""
    from pyebsdindex.opencl import openclparam
    d = build(0)
    P = patterns(CONFIGS[0]["shape"], 3).astype(np.uint8)
    kinds = [(), ("i",), ("d",), ("i", "d"), ("d", "d"), ("i", "i")]
    ref = None
    for n in (1, 2, 3):
        for combo in itertools.product(kinds, repeat=n) if n < 3 else [((), ("d",), ("i",)), (("i",), (), ("d", "i")), ((), (), ("i",)), (("i",), ("d", "d"), ("d",))]:
            if not any(combo):
                continue
            plats = [fakecl.Platform([fakecl.Device(1 << 28, k == "i") for k in c]) for c in combo]
            fakecl.PLATFORMS[:] = plats
            with quiet():
                ok, par = ck.call("platforms", openclparam.OpenClParam)
            ck.state(["platforms", combo])
            if ok:
                got = par.gpu
                discrete = [sum(k == "d" for k in c) for c in combo]
                best = [c for c in plats if sum(not x.host_unified_memory for x in c.devices) == max(discrete)] if max(discrete) else [c for c in plats if c.devices]
                want = [[x for x in c.devices if not (max(discrete) and x.host_unified_memory)] for c in best]
                ck.ok(any(got == w for w in want) and par.ngpu == len(got), "platforms", "platforms %s: took %s" % (combo, ["%s" % ("i" if x.host_unified_memory else "d") for x in got]))
            for gid in (None, 0, 1, 5) if core.THOROUGH else (None, 1) if n == 1 else (None,) if n == 3 or combo in ((kinds[1], kinds[2]), (kinds[0], kinds[1]), (kinds[3], kinds[4])) else ():
                ck.case(["platforms", combo, gid])
                b = run(ck, "platforms", d, P, gpu_id=gid)
                ref = b if ref is None else ref
                ck.ok(b is not None and same(b, ref) is None, "platforms:bands", "platforms %s, device %r: another answer" % (combo, gid))


def off(quat, R):
    F = simpat.q2m(FA) @ simpat.q2m([.5 ** .5, 0, 0, -.5 ** .5])
    M = simpat.q2m(quat) @ F.T @ R
    return min(np.degrees(np.arccos(np.clip((np.trace(M @ s.T) - 1) / 2, -1, 1))) for s in simpat.cubic_rots())


FT = -np.radians(90 - 70 + 5.3)
FA = [np.cos(FT / 2), np.sin(FT / 2), 0, 0]


def body(ck):
    ck.unsure = lambda: fakecl.K.missing
    T = core.THOROUGH
    C26.detector = lambda shape, nT, nR, frac, mask=None, nBands=5: gpu(shape, nT, nR, frac, mask, nBands)
    C26.GPU = True
    jobs = []
    for ci in range(5):
        jobs.append(("independence", lambda ck, ci: C03.body(ck, (ci,)), (ci,)))
    for ci in range(len(CONFIGS)):
        jobs.append(("device freedom", freedom, (ci,)))
        jobs.append(("interference of work items", conflicts, (ci,)))
    for ci in range(len(CONFIGS) if T else 3):
        jobs.append(("device failures", failures, (ci,)))
    for ci in range(len(CONFIGS)):
        jobs.append(("number types", types, (ci,)))
    for ci in range(len(CONFIGS)):
        jobs.append(("contexts, CPU on demand", reuse, (ci,)))
    jobs.append(("platforms and devices", lambda ck, _: platforms(ck), (0,)))
    for i in range(len(DIST)) if not T else sorted(range(len(DIST)), key=lambda i: i not in (4, 6)):
        jobs.append(("workers: schedules", distributed, (i, {"sched": 1, "total": 1} if not T else {"sched": 2, "total": 2}, False)))
        jobs.append(("workers: faults", distributed, (i, {"fault": 1, "sched": 0, "total": 1} if not T else {"fault": 2, "sched": 0, "total": 2}, True)))
    for frac in (.15, .4, 0):
        jobs.append(("records", records, (frac,)))
    jobs.append(("orientations", orientations, ("EDAX",)))
    for shape, (nT, nR), frac in itertools.product([(60, 60), (48, 64)] + ([(40, 100), (33, 47)] if T else []), [(90, 60), (120, 120)], (.1, .3, 0, 1)):
        jobs.append(("lines", C26.single, (shape, nT, nR, frac, 2.3 if T else 5.3, 17 if T else 9, [(1., 0.), (1., -100.), (1000., 0.)])))
    for shape, frac in itertools.product([(60, 60), (48, 64)], (.1, .3)):
        jobs.append(("masks", C26.masks, (shape, 90, 60, frac)))
        jobs.append(("lines in the trimmed part", C26.trimmed, (shape, frac)))
    for frac in (.1, .15):
        jobs.append(("several lines", C26.several, (frac,)))
        jobs.append(("gain and offset", C26.offsets, (frac,)))

    def do(k):
        name, fn, a = jobs[k]
        ck.section(name)
        fn(ck, *a)
    ck.fanout(len(jobs), do)
    if not ck.child:
        ck.assumptions = ["no OpenCL device in the sandbox: the kernels of the tree, compiled by clang as OpenCL C for the CPU, under a pyopencl stand-in",
                          "work items of one kernel are run one at a time (forward, backward, interleaved order); that this stands for every interleaving is decided by recording all their loads and stores: no two work items conflict"]


if __name__ == "__main__":
    core.main("C27", "exploration",
              "device knobs (work item order, command delay, content of unwritten memory, failing call) x batch size x number type x detector; "
              "C03's selections and C26's lines on the device", body, max_violations=8)

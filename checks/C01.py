"""C01: distributed indexing returns the serial result under every schedule and fault."""
import contextlib, io, os, traceback

import numpy as np

from vlib import core, dist, explore, fakeray, simpat
from vlib.dist import Sched, ray
from vlib.idx import same


def sources(ck, mk, P, P16, upfile, expected, kw):
    """Every kind of source, the returned indexer, and reports of every length: the serial result."""
    import h5py, itertools
    from pyebsdindex import ebsd_index, ebsd_pattern
    h5 = h5py.File(os.path.join(core.SCRATCH, "c01.h5"), "w")
    h5.create_dataset("stack", data=P)
    h5.create_dataset("image", data=P[4])
    cont = ebsd_pattern.EBSDPatterns()
    cont.patterns = P.copy()
    srcs = {"array": P, "dataset": h5["stack"], "one image, dataset": h5["image"], "container": cont, "file": None, "integers": P16, "one image": P[4]}
    extra = dict(tSigma=1.0, rSigma=1.2, rhoMaskFrac=0.15)
    memo = {}
    sums = (ck.digest(P), ck.digest(P16), ck.digest(cont.patterns))
    for (name, src), how, ret, verbose, log, (first, num, chunk) in itertools.product(
            srcs.items(), ("new", "obj", "used"), (False, True), (0, 1, 2), (False, True), ((0, -1, 2), (1, 3, 2), (-2, -1, 1))):
        if (verbose == 1 or log) and (ret or how == "used") and not core.THOROUGH:
            continue
        one = name.startswith("one")
        if one and (first, num) != (0, -1):
            continue
        ref = P16 if name in ("file", "integers") else P
        E, EB = expected(["FCC"], ref)
        rows = slice(4, 5) if one else slice(first % 6, 6 if num < 0 else first + num)
        case = {"source": name, "indexer": how, "returned": ret, "verbose": verbose, "log": log, "window": [first, num, chunk]}
        ck.case(case)
        ck.traces += 1
        call = dict(filename=upfile) if src is None else dict(patsin=src)
        fakeray.CUR = sess = fakeray.Session(Sched(dist.Plain(), False), memo, 6000)
        before = os.environ.get("CUDA_VISIBLE_DEVICES")
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                if how == "new":
                    call.update(phaselist=["FCC"], **extra, **kw)
                else:
                    call["ebsd_indexer_obj"] = mk(["FCC"])
                    if how == "used":
                        ebsd_index.index_pats(P[3], ebsd_indexer_obj=call["ebsd_indexer_obj"])
                out = ebsd_index.index_pats_distributed(ncpu=2, chunksize=chunk, patstart=first, npats=num, verbose=verbose, keep_log=log, return_indexer_obj=ret, **call)
                bad = None
                if out is None or len(out) != (3 if ret else 2):
                    bad = "returned %s" % (type(out) if out is None else len(out))
                if bad is None:
                    bad = same(out[0], E[:, rows], "indexing data") or same(out[1], EB[rows], "band data")
                if bad is None and ret:
                    # the indexer that is returned indexes like the one that was used
                    d, b = ebsd_index.index_pats(P[:2], ebsd_indexer_obj=out[2])
                    E2, EB2 = expected(["FCC"], P)
                    bad = same(d, E2[:, :2], "indexing data of the returned indexer") or same(b, EB2[:2], "band data of the returned indexer")
                    if bad is None and how != "new" and out[2] is not call["ebsd_indexer_obj"]:
                        bad = "another indexer is returned than the one given"
        except Exception as e:
            bad = "raises %s: %s" % (type(e).__name__, e)
        finally:
            os.environ.pop("CUDA_VISIBLE_DEVICES", None) if before is None else os.environ.__setitem__("CUDA_VISIBLE_DEVICES", before)
        if bad is None and (ck.digest(P), ck.digest(P16), ck.digest(cont.patterns)) != sums:
            bad = "the patterns are changed"
        ck.ok(bad is None, "sources:%s" % name, "%s: %s" % (case, bad))
    h5.close()


def body(ck):
    from pyebsdindex import ebsd_index, ebsd_pattern
    import pyebsdindex._ebsd_index_parallel as par
    assert par.ray is ray
    PC = (0.47, 0.67, 0.63)
    shape = (40, 44)
    npat = 6
    rots = [simpat.q2m(simpat.axang([1, 2 + .3 * k, 3 - k], 20 + 23 * k)) for k in range(npat)]
    P = np.array([simpat.pattern(R, shape, PC, gain=40 + 5 * i) for i, R in enumerate(rots)])
    P = P.astype(np.float32)
    P[2] = simpat.pattern(rots[2], shape, PC, reflectors=simpat.BCC)
    P16 = (P * 40).astype(np.uint16)
    upfile = os.path.join(core.SCRATCH, "a.up2")
    with open(upfile, "wb") as f:
        f.write(np.array([1, shape[1], shape[0], 16], "<u4").tobytes())
        f.write(P16.astype("<u2").tobytes())

    kw = dict(PC=PC, vendor="EDAX", nRho=45, nTheta=60, nBands=7)

    def mk(phases):
        return ebsd_index.EBSDIndexer(phaselist=phases, patDim=shape, **kw)

    memo = {}

    def expected(phases, src):
        ix = mk(phases)
        d, b = ebsd_index.index_pats(src, ebsd_indexer_obj=ix)
        return d, b

    configs = [
        # name, source, phases, args, expected rows
        ("mem3x1/2cpu", P[:3], ["FCC"], dict(chunksize=1, ncpu=2), slice(0, 3)),
        ("mem5of6,c2/2cpu,2ph", P, ["FCC", "BCC"], dict(chunksize=2, ncpu=2, patstart=1, npats=5), slice(1, 6)),
        ("mem6x1/3cpu", P, ["FCC"], dict(chunksize=1, ncpu=3), slice(0, 6)),
        ("mem5of6,c2/1cpu", P, ["FCC"], dict(chunksize=2, ncpu=1, patstart=1, npats=5), slice(1, 6)),
        ("file5,c2/2cpu", "file", ["FCC"], dict(chunksize=2, ncpu=2, patstart=1, npats=5), slice(1, 6)),
        ("single", P[4], ["FCC"], dict(chunksize=0, ncpu=-1), slice(0, 1)),
        ("mem6/default", P, ["FCC"], dict(), slice(0, 6)),
        ("tail2", P, ["FCC"], dict(chunksize=1, ncpu=2, patstart=-2), slice(4, 6)),
    ]
    exp = {}

    def run_config(name, src, phases, args, rows, how, budgets, faults, maxpoints, horizon, limit=None):
        ek = (name, tuple(phases))
        if ek not in exp:
            s = P16 if isinstance(src, str) else src
            exp[ek] = expected(phases, s)
        E, EB = exp[ek]
        E, EB = E[:, rows] if rows is not None else E, EB[rows]
        tag = "%s/%s" % (name, how)
        outcomes = set()

        def run(ch):
            fakeray.CUR = sess = fakeray.Session(Sched(ch, faults), memo, horizon)
            ix = mk(phases) if how == "obj" else None
            before = os.environ.get("CUDA_VISIBLE_DEVICES")
            call = dict(args)
            if isinstance(src, str):
                call["filename"] = upfile
            else:
                call["patsin"] = src
            if ix is not None:
                call["ebsd_indexer_obj"] = ix
            else:
                call.update(phaselist=phases, tSigma=1.0, rSigma=1.2, rhoMaskFrac=0.15, **kw)
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    out = ebsd_index.index_pats_distributed(**call)
            except fakeray.Livelock as e:
                return "does not terminate: %s" % e, sess
            except fakeray.Deadlock as e:
                return "deadlock: %s" % e, sess
            except Exception as e:
                return "raises %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-900:]), sess
            finally:
                after = os.environ.get("CUDA_VISIBLE_DEVICES")
                if before is None:
                    os.environ.pop("CUDA_VISIBLE_DEVICES", None)
                else:
                    os.environ["CUDA_VISIBLE_DEVICES"] = before
            if before != after:
                return "CUDA_VISIBLE_DEVICES %r before, %r after the call" % (before, after), sess
            if out is None:
                return "returned None", sess
            d, b = out[:2]
            bad = same(d, E, "indexing data")
            if bad is None:
                bb = b.copy()
                bad = same(bb, EB, "band data")
            if bad is None and sess.inited:
                bad = "the cluster is left running"
            outcomes.add(ck.digest([d, b]))
            return bad, sess

        n = 0
        capped = False
        for ch, (bad, sess) in explore.explore(run, budgets, maxpoints, limit,
                                               deadline=lambda: ck.elapsed() > TLIM):
            n += 1
            capped |= ch.capped
            devs = [(i, ch.points[i][0], c) for i, c in enumerate(ch.choices) if c]
            ck.case({"config": tag, "deviations": devs, "tasks": sess.ntask})
            ck.transitions += len(ch.choices)
            ck.traces += 1
            ck.outcome(sess.trace)
            for i in range(len(ch.choices)):
                ck.states.add((tag, hash(tuple(ch.choices[:i + 1]))))
            if bad:
                kinds = sorted({k for _, k, _ in devs})
                first = [t for t in sess.trace if t[0] == "submit" and t[4]]
                faultkinds = "+".join(sorted({t[4] for t in first})) or "none"
                ck.fail("%s:fault=%s:%s" % (tag, faultkinds, bad.split(":")[0].split(" index")[0][:60]),
                        "config %s, deviations %s, faults %s: %s" % (tag, devs, first, bad),
                        replay={"config": tag, "choices": list(ch.choices), "faults": faults, "trace": sess.trace[:400]})
        if ck.elapsed() > TLIM:
            ck.cap("%s: stopped by the time limit after %d executions" % (tag, n))
        if capped:
            ck.caps.append("%s: alternatives offered at the first %d choice points only" % (tag, maxpoints))
        ck.extra.setdefault("per_config", []).append(
            {"config": tag, "faults": faults, "budgets": budgets, "executions": n, "distinct_results": len(outcomes)})

    T = core.THOROUGH
    TLIM = 820 if T else 420
    if not ck.child:
        # determinism of the harness: one recorded schedule, replayed twice, must agree
        ck.section("no deviation")
        for c in configs:
            for how in ("new", "obj"):
                run_config(*c, how, {}, False, 60, 4000)
                os.environ["CUDA_VISIBLE_DEVICES"] = "3"
                run_config(*c, how, {}, False, 60, 4000)
                os.environ.pop("CUDA_VISIBLE_DEVICES", None)
    jobs = []
    for i, c in enumerate(configs[:6] if T else configs[:2] + configs[3:5]):
        jobs.append(("one fault and one reordering", c, "new", {"fault": 1, "sched": 1, "total": 2}, True, 60 if T else 30, 40000))
    for i, c in enumerate(configs[:6] if T else [configs[0], configs[3], configs[4]]):
        jobs.append(("two faults", c, "new", {"fault": 2, "sched": 0, "total": 2}, True, 200, 80000))
    for i, c in enumerate(configs[:6]):
        d = (3 if i in (0, 3, 4) else 2) if T else 2
        jobs.append(("schedules", c, "new", {"sched": d, "total": d}, False, 60 if T else 40, 6000))
    for i, c in enumerate(configs[:6]):
        jobs.append(("one fault", c, "obj" if i % 2 else "new", {"fault": 1, "sched": 0, "total": 1}, True, 200, 40000))

    def do(k):
        if k == len(jobs):
            ck.section("sources and reports")
            cache = {}

            def exp1(phases, src):
                key = ck.digest(src)
                if key not in cache:
                    cache[key] = expected(phases, src)
                return cache[key]
            return sources(ck, mk, P, P16, upfile, exp1, kw)
        sec, c, how, budgets, faults, maxpoints, horizon = jobs[k]
        ck.section(sec)
        run_config(*c, how, budgets, faults, maxpoints, horizon)
    ck.fanout(len(jobs) + 1, do)
    ck.extra["memoised_worker_calls"] = len(memo)
    ck.assumptions = [
        "ray semantics as modelled in vlib/fakeray.py (by-value arguments, FIFO actors, wait/get/kill)",
        "CPU code path: no OpenCL device, so both worker kinds run on the CPU",
        "a hang is injected only in band-detection tasks (the code has a recovery path for those only)",
        "faults are transient: at most the stated number per execution"]


if __name__ == "__main__":
    core.main("C01", "model_checking",
              "stateless exploration of the real driver loop and workers; a state is a choice prefix, a transition a "
              "scheduler choice; each execution must equal the serial result", body)

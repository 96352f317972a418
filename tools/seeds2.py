import sys; sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)))
from mkseed import mkseed
import rayfake as S1
P = "pyebsdindex/"
PAR, SIN, BD, TV, RL, CS, RF, EP, NL, PC, CM, EF = [P + x for x in ("_ebsd_index_parallel.py", "_ebsd_index_single.py", "band_detect.py", "tripletvote.py", "rotlib.py", "crystal_sym.py", "radon_fast.py", "ebsd_pattern.py", "nlpar_cpu.py", "pcopt.py", "crystallometry.py", "ebsdfile.py")]
IPF, MB, SI = [P + "EBSDImage/" + x for x in ("IPFcolor.py", "micronbar.py", "scalarimage.py")]

mkseed("c01-restart-window", [(PAR, """                    if len(gpuworkers) == 0:

                        gpuworkers.append(  # make a new Ray Actor that can call the indexer defined in shared memory.
                            # These actors are read/write, thus can initialize the GPU queues
                            #GPUWorker.options(num_cpus=ncpugpu_per_wrker, num_gpus=0).remote(
                            GPUWorker.options(num_cpus=ncpugpu_per_wrker, num_gpus=ngpu_per_wrker).remote(
                                actorid=0, clparammodule=clparamfunction, gpu_id=gpu_id, cudavis=cudagpuvis
                            )
                        )
                        gjob = gpujobs.pop(0)
                        if inputmode == "filemode":
                            gputask.append(
                                gpuworkers[0].findbands.remote(gjob, pats=None,
                                   indexer=remote_indexer
                                )
                            )
                        else:
                            gputask.append(
                                gpuworkers[0].findbands.remote(gjob,
                                   pats=pats[gjob.pstart:gjob.pend, :, :],
""", """                    if len(gpuworkers) == 0:

                        gpuworkers.append(  # make a new Ray Actor that can call the indexer defined in shared memory.
                            # These actors are read/write, thus can initialize the GPU queues
                            #GPUWorker.options(num_cpus=ncpugpu_per_wrker, num_gpus=0).remote(
                            GPUWorker.options(num_cpus=ncpugpu_per_wrker, num_gpus=ngpu_per_wrker).remote(
                                actorid=0, clparammodule=clparamfunction, gpu_id=gpu_id, cudavis=cudagpuvis
                            )
                        )
                        gjob = gpujobs.pop(0)
                        if inputmode == "filemode":
                            gputask.append(
                                gpuworkers[0].findbands.remote(gjob, pats=None,
                                   indexer=remote_indexer
                                )
                            )
                        else:
                            gputask.append(
                                gpuworkers[0].findbands.remote(gjob,
                                   pats=pats[gjob.pstart - patstart:gjob.pend - patstart, :, :],
""")], "C01", "the last living band-detection worker dies while indexing an array from a starting pattern other than 0",
"the job restarted on a new worker gets the patterns of the scan start, so its rows belong to other patterns",
S1.RAY + '''
pats = np.array([simpat.pattern(simpat.q2m(simpat.axang([1, 2 + k, 3], 20 + 15 * k)), (40, 40)) for k in range(5)])
def run(kill):
    KILL[0] = kill
    return par.index_pats_distributed(pats, patstart=2, npats=3, phaselist=["FCC"], PC=[.47, .67, .63], ncpu=1, chunksize=1)[0]
ref, out = run(0), run(1)
assert KILL[0] == 0, "no band-detection worker was killed"
for i in range(3):
    if not np.allclose(ref["quat"][-1, i], out["quat"][-1, i], atol=1e-5):
        sys.exit("row %d is that of another pattern after the loss of the worker" % i)
print("ok")
''', sim=True)

mkseed("c02-background-window", [(SIN, "fileobj=indexer.fID, patsIn=pats, nsample=1000", "fileobj=indexer.fID, patsIn=pats if pats is None or npats < 1 else pats[patstart:patstart + npats], nsample=1000")], "C02",
"background correction switched on for an array of which only a window is indexed",
"the background, and with it every row, is that of the window instead of that of the scan",
'''import sys
import numpy as np
import simpat
from pyebsdindex import ebsd_index
y, x = np.mgrid[0:60, 0:60] / 60.0
pats = np.array([simpat.pattern(simpat.q2m(simpat.axang([1, 2 + k, 3], 20 + 15 * k)), (60, 60)) + (300 * k) * np.exp(-((x - .2 * k) ** 2 + (y - .5) ** 2) / .1) for k in range(5)])
a = dict(phaselist=["FCC"], PC=[.47, .67, .63], backgroundSub=True)
full = ebsd_index.index_pats(pats.copy(), **a)
win = ebsd_index.index_pats(pats.copy(), patstart=1, npats=2, **a)
for n in ("pq", "iq", "fit"):
    if not np.allclose(full[0][n][-1, 1:3], win[0][n][-1], rtol=1e-4, atol=1e-4):
        sys.exit("%s of the window %s, of the full scan %s" % (n, win[0][n][-1], full[0][n][-1, 1:3]))
if not np.allclose(full[1]["max"][1:3], win[1]["max"], rtol=1e-4):
    sys.exit("band maxima differ")
print("ok")
''', sim=True)

mkseed("c05-last-plane", [(TV, "libFamIndx[f2]:np.int64(libFamIndx[f2] + nFam[f2])]", "libFamIndx[f2]:np.int64(libFamIndx[f2] + nFam[f2] - 1)]")], "C05",
"families of few planes (the basal plane, a triclinic crystal)",
"the last plane of a family is never tried as the second plane of an orientation",
'''import sys
import numpy as np
import simpat
from pyebsdindex import tripletvote as tv
lib = tv.addphase(phasename="t", spacegroup=2, latticeparameter=(.5, .6, .8, 85, 105, 95),
                  polefamilies=[[1, 1, 1], [1, 1, 0], [1, 0, 2], [0, 2, 1], [1, 0, 0], [0, 1, -1], [-1, 1, 1], [0, 0, 1]])
p = np.asarray(lib.completelib["polesCart"])
p = np.array([v for i, v in enumerate(p) if not any(np.abs(v + w).max() < 1e-4 for w in p[:i])])
for k in range(12):
    R = simpat.q2m(simpat.axang([1, 2 + k, 3 - k], 17 + 11 * k))
    n = (p @ R.T * np.where((np.arange(len(p)) * (k + 3)) % 5 < 2, -1, 1)[:, None]).astype(np.float32)
    out = lib.bandindex(n[None], band_intensity=np.ones((1, len(n))))
    M = simpat.q2m(out[0][0]) @ R
    a = np.degrees(np.arccos(np.clip((np.trace(M) - 1) / 2, -1, 1)))
    if not a < 1 or out[4][0] < len(n):
        sys.exit("orientation %d: off by %g degrees, %d of %d bands" % (k, a, out[4][0], len(n)))
print("ok")
''', sim=True)

mkseed("c06-flip-first", [(RF, "      t[:, 1] = dimf[0] - t[:, 1]\n", "      t[:, 1] = dimf[0] - t[0, 1]\n")], "C06",
"one pattern centre per pattern in the Bruker or kikuchipy convention, with different y",
"all patterns are given the y of the first pattern",
'''import sys
import numpy as np
from pyebsdindex import band_detect
bd = band_detect.BandDetect(patDim=np.array([40, 50]), nBands=3)
d = np.zeros((2, 3), dtype=bd.dataType)
d["aveloc"] = d["maxloc"] = [[20., 11], [31, 50], [44, 97]]
d["valid"] = 1
pc = np.array([[.45, .3, .6], [.52, .4, .65]])
for ven in ("EDAX", "OXFORD", "BRUKER", "KIKUCHIPY"):
    both = bd.radonPlan.radon2pole(d, PC=pc.copy(), vendor=ven)
    for i in range(2):
        one = bd.radonPlan.radon2pole(d[i:i + 1], PC=pc[i].copy(), vendor=ven)
        if not np.allclose(both[i], one[0], atol=1e-5):
            sys.exit("%s pattern %d: %s with one centre per pattern, %s alone" % (ven, i, both[i], one[0]))
print("ok")
''')

mkseed("c08-transposed-detector", [(BD, "np.sum(np.abs(self.patDim[-2:]-p_dim[-2:]), dtype=np.int64) != 0", "np.sum(self.patDim[-2:]-p_dim[-2:], dtype=np.int64) != 0")], "C08",
"patterns of another size with the same sum of height and width (a rotated or re-cropped detector)",
"the Radon plan of the earlier detector is kept",
'''import sys
import numpy as np
import simpat
from pyebsdindex import band_detect
R = simpat.q2m(simpat.axang([1, 2, 3], 40))
for second in ((50, 50), (60, 40)):
    pat = simpat.pattern(R, second)
    fresh = band_detect.BandDetect(patDim=np.array(second), nBands=7)
    used = band_detect.BandDetect(patDim=np.array((40, 60)), nBands=7)
    used.band_detect_setup(patDim=np.array(second))
    try:
        a, b = fresh.find_bands(pat[None]), used.find_bands(pat[None])
    except Exception as e:
        sys.exit("reused detector plan fails: %r" % e)
    for n in ("rho", "theta", "max"):
        if not np.allclose(a[n], b[n], rtol=1e-4, atol=1e-4):
            sys.exit("%s of size %s after (40, 60): %s instead of %s" % (n, second, b[n], a[n]))
print("ok")
''', sim=True)

mkseed("c09-ebsp-order", [(EP, "            loc1 = min([loc1, loc_i])\n", "            loc1 = loc_i if counter == 0 else loc1\n")], "C09",
"an EBSP file of version 4 or earlier whose pattern blocks are not stored in scan order",
"the number of patterns is counted from the block of the first point",
'''import os, sys, struct
import numpy as np
from pyebsdindex import ebsd_pattern
n, h, w = 6, 5, 4
pats = (np.arange(n * h * w) % 251).astype(np.uint8).reshape(n, h, w)
blk = 16 + h * w + 1 + 8 + 1 + 8
for order in (range(n), [3, 0, 5, 1, 4, 2]):
    p = os.path.join(os.environ["SCRATCH"], "a.ebsp")
    order = list(order)
    head = 8 + 8 * n
    off = np.zeros(n, np.uint64)
    body = b""
    for k, i in enumerate(order):
        off[i] = head + k * blk
        body += struct.pack("<4I", 0, h, w, h * w) + pats[i].tobytes() + b"\\1" + struct.pack("<d", .5 * (i % 3)) + b"\\1" + struct.pack("<d", .5 * (i // 3))
    open(p, "wb").write(struct.pack("<q", -2) + off.tobytes() + body)
    try:
        f = ebsd_pattern.EBSPFile(p)
        f.read_header()
        assert int(f.nPatterns) == n, "nPatterns %s" % f.nPatterns
        got = f.read_data(patStartCount=[0, -1], returnArrayOnly=True)[0]
        assert np.array_equal(got, pats), "patterns differ"
    except Exception as e:
        sys.exit("blocks in the order %s: %r" % (order, e))
print("ok")
''')

mkseed("c10-overrun", [(EP, "        pat2write[0:nPatToWrite, :, :].tofile(f)\n", "        pat2write.tofile(f)\n")], "C10",
"more patterns handed to a UP file than are to be written (a count smaller than the array, or a run over the end of the scan)",
"patterns after the addressed ones are overwritten, or the file grows",
'''import os, sys
import numpy as np
from pyebsdindex import ebsd_pattern
p = os.path.join(os.environ["SCRATCH"], "a.up1")
f = ebsd_pattern.UPFile()
f.filepath = p
f.version, f.patternW, f.patternH, f.nCols, f.nRows, f.nPatterns = 3, 4, 5, 3, 2, 6
f.hexflag, f.xStep, f.yStep, f.extraPatterns, f.filedatatype, f.bitdepth = 0, 1.0, 1.0, 0, np.uint8, 8
base = (np.arange(6 * 20) % 200).astype(np.uint8).reshape(6, 5, 4)
f.write_data(base, patStartCount=[0, -1], writeHead=True)
size = os.path.getsize(p)
new = np.full((4, 5, 4), 77, np.uint8)
f.write_data(new, patStartCount=[1, 2])
want = base.copy(); want[1:3] = 77
got = ebsd_pattern.UPFile(p).read_data(returnArrayOnly=True)[0]
if not np.array_equal(got, want):
    sys.exit("patterns other than 1 and 2 changed: %s" % [i for i in range(6) if not np.array_equal(got[i], want[i])])
f.write_data(new, patStartCount=[4, -1])
if os.path.getsize(p) != size:
    sys.exit("the file grew from %d to %d bytes" % (size, os.path.getsize(p)))
print("ok")
''')

mkseed("c11-maxscale-type", [(EP, "      maxval = min(maxScale, maxval)\n", "      maxval = maxScale\n")], "C11",
"clip conversion with a requested maximum above the largest value of the type, and a pattern value between them",
"the value wraps around",
'''import sys
import numpy as np
from pyebsdindex.ebsd_pattern import pat_flt2int
p = np.array([[[0., 10.], [200., 300.]]])
for t, top in ((np.uint8, 255), (np.uint16, 65535)):
    for ms in (100, top, 2 * top):
        x = p * (top / 255.0)
        out = pat_flt2int(x.copy(), typeout=t, method="clip", maxScale=ms).astype(float)
        if (np.diff(out.ravel()[np.argsort(x.ravel())]) < 0).any():
            sys.exit("%s maxScale %s: %s becomes %s" % (t, ms, x.ravel(), out.ravel()))
print("ok")
''')

mkseed("c12-threshold-cache", [(NL, "                weights[counter] = d2\n                pairdict[pairid]", "                weights[counter] = d2 - dthresh\n                pairdict[pairid]"),
 (NL, "          weights[i_nn] = np.maximum(weights[i_nn]-dthresh, numba.float32(0.0))", "          weights[i_nn] = np.maximum(weights[i_nn], numba.float32(0.0))")], "C12",
"a distance threshold above 0, and a pair of points that is visited again from its other end",
"the threshold counts for the first visit of a pair only",
'''import sys
import numpy as np
from pyebsdindex import nlpar_cpu
n = nlpar_cpu.NLPAR
rng = np.random.RandomState(5)
nr, nc, npx = 4, 3, 12
P = (100 + rng.randint(0, 40, (nr * nc, npx))).astype(np.float32)
sig = np.full((nr, nc), 9.0, np.float32)
lam, sr = 1.3, 1
idx = np.arange(npx).astype(np.uint64)
for th in (0.0, 0.7):
    out = n.nlpar_nb(P, np.float32(lam), sr, np.float32(th), sig, nr, nc, idx, False)
    for y in range(nr):
        for x in range(nc):
            acc, tot = 0, 0
            ys = np.arange(3) + min(max(y - 1, 0), nr - 3)
            xs = np.arange(3) + min(max(x - 1, 0), nc - 3)
            for a in ys:
                for b in xs:
                    d = ((P[y * nc + x].astype(float) - P[a * nc + b]) ** 2).sum()
                    d = (d - npx * 162.0) / (162.0 * np.sqrt(2.0 * npx))
                    w = 1.0 if (a, b) == (y, x) else np.exp(-max(d - th, 0) / lam ** 2)
                    acc = acc + w * P[a * nc + b].astype(float); tot += w
            if not np.allclose(out[y * nc + x], acc / tot, rtol=1e-4):
                sys.exit("threshold %g point (%d, %d) is not the weighted average" % (th, y, x))
print("ok")
''')

mkseed("c13-hardlink", [(NL, "          pathok = not self.filepathout.samefile(patternfile.filepath)\n", "          pathok = str(self.filepathout) != str(Path(patternfile.filepath).expanduser().resolve())\n")], "C13",
"an output file that is the input file under another name (a hard link)",
"the input file is overwritten",
'''import os, sys
import numpy as np
from pyebsdindex import ebsd_pattern, nlpar_cpu
d = os.environ["SCRATCH"]
p = os.path.join(d, "a.up1")
f = ebsd_pattern.UPFile()
f.filepath = p
f.version, f.patternW, f.patternH, f.nCols, f.nRows, f.nPatterns = 3, 6, 5, 3, 3, 9
f.hexflag, f.xStep, f.yStep, f.extraPatterns, f.filedatatype, f.bitdepth = 0, 1.0, 1.0, 0, np.uint8, 8
rng = np.random.RandomState(3)
f.write_data(rng.randint(10, 200, (9, 5, 6)).astype(np.uint8), patStartCount=[0, -1], writeHead=True)
before = open(p, "rb").read()
out = os.path.join(d, "b.up1")
os.link(p, out)
n = nlpar_cpu.NLPAR(p, lam=1.0, searchradius=1)
try:
    n.calcnlpar(filename=p, fileout=out, searchradius=1, lam=1.0, saturation_protect=False, automask=False)
except BaseException as e:
    print(type(e), e)
if open(p, "rb").read() != before:
    sys.exit("the input file was changed")
print("ok")
''')

mkseed("c17-close-planes", [(TV, "wh = np.nonzero(unqang > 1.0)[0]", "wh = np.nonzero(unqang > 5*self.angTol)[0]")], "C17",
"reflecting planes less than ten degrees apart", "their angle, and every triplet with it, is left out of the library",
'''import sys
import numpy as np
from pyebsdindex import tripletvote as tv
for hkl, ang in (([1, 0, 2], 26.57), ([1, 0, 7], 8.13)):
    lib = tv.addphase(phasename="x", spacegroup=225, latticeparameter=[.4, .4, .4, 90, 90, 90], polefamilies=[[1, 0, 0], hkl])
    t = getattr(lib, "angtriplets", None)
    t = (lib.tripLib.angtriplets if t is None else t)["angles"]
    if np.abs(t - ang).min() > .1:
        sys.exit("no triplet with the angle %g between (100) and %s" % (ang, hkl))
print("ok")
''')

mkseed("c18-triclinic", [(CM, "self.directStructureMatrix[2,1] = -c*(cb*cg-ca)/sg", "self.directStructureMatrix[2,1] = -c*(cb*cg/sg-ca)")], "C18",
"a triclinic cell (alpha and gamma both away from 90 degrees)",
"the direct structure matrix does not belong to the cell",
'''import sys
import numpy as np
from pyebsdindex import crystallometry
for cell in ([1, 1, 1, 90, 90, 90], [.5, .6, .7, 90, 105, 90], [.3, .3, .5, 90, 90, 120], [.5, .6, .7, 75, 85, 105]):
    m = crystallometry.Crystal("x", *cell)
    A = np.asarray(m.directStructureMatrix)
    if not np.allclose(A.T @ A, m.metricTensor, atol=1e-9):
        sys.exit("cell %s: structure matrix and metric tensor differ" % cell)
print("ok")
''')

mkseed("c19-mask-after-reindex", [(RF, """    tempindx = np.where(mask[tempindx] > 0, tempindx, outofbounds)
    maskindex = np.concatenate((self.maskindex.flatten(), np.array([-1,-1]))).astype(np.int64)
    tempindx = np.where(maskindex[tempindx] >= 0, maskindex[tempindx], outofbounds)
""", """    maskindex = np.concatenate((self.maskindex.flatten(), np.array([-1,-1]))).astype(np.int64)
    tempindx = np.where(maskindex[tempindx] >= 0, maskindex[tempindx], outofbounds)
    tempindx = np.where(mask[tempindx] > 0, tempindx, outofbounds)
""")], "C19", "a mask together with a re-indexing that moves pixels",
"the mask is looked up at the source pixel instead of the position it masks",
'''import sys
import numpy as np
from pyebsdindex import radon_fast
h, w = 9, 11
mask = np.ones((h, w), int); mask[2:4, 3:7] = 0
ix = np.arange(h * w).reshape(h, w)[:, ::-1].copy()
r = radon_fast.Radon(imageDim=np.array([h, w]), nTheta=12, nRho=10, rhoMax=5, mask=mask, maskindex=ix)
plain = radon_fast.Radon(imageDim=np.array([h, w]), nTheta=12, nRho=10, rhoMax=5, mask=mask)
img = np.random.RandomState(0).rand(h, w)
a = r.radon_faster(img[:, ::-1].copy()).squeeze()
b = plain.radon_faster(img).squeeze()
if not np.allclose(a, b, atol=1e-5):
    sys.exit("masked and re-indexed transform differs from the masked transform of the re-indexed image")
print("ok")
''')

mkseed("c20-background-subset", [(BD, "back = pat1 / float(len(stride))", "back = pat1 / float(npats)")], "C20",
"a background collected from a file with fewer samples than patterns",
"the background is too dark by the ratio",
'''import os, sys
import numpy as np
from pyebsdindex import ebsd_pattern, band_detect
p = os.path.join(os.environ["SCRATCH"], "a.up1")
f = ebsd_pattern.UPFile()
f.filepath = p
f.version, f.patternW, f.patternH, f.nCols, f.nRows, f.nPatterns = 3, 24, 20, 3, 2, 6
f.hexflag, f.xStep, f.yStep, f.extraPatterns, f.filedatatype, f.bitdepth = 0, 1.0, 1.0, 0, np.uint8, 8
y, x = np.mgrid[0:20, 0:24]
one = (40 + 100 * np.exp(-((x - 12) ** 2 + (y - 9) ** 2) / 80.0)).astype(np.uint8)
f.write_data(np.array([one] * 6), patStartCount=[0, -1], writeHead=True)
back = []
for ns in (6, 3):
    bd = band_detect.BandDetect(patDim=np.array([20, 24]), nBands=5)
    g = ebsd_pattern.UPFile(p); g.read_header()
    bd.collect_background(fileobj=g, nsample=ns, method="evenStride")
    back.append(np.array(bd.backgroundsub))
if not np.allclose(back[0], back[1], rtol=1e-2):
    sys.exit("mean background of 6 equal patterns %.1f, of 3 of them %.1f" % (back[0].mean(), back[1].mean()))
print("ok")
''')

mkseed("c21-batch-best", [(PC, "        self.gbest = None # value of swarm global best", "        self.gbest = np.inf # value of swarm global best"),
 (PC, "        self.gbest = np.inf\n        self.gbest_loc = start\n", "        self.gbest_loc = start\n")], "C21",
"one-by-one optimisation in which a pattern has no better optimum than a pattern before it",
"the best cost of an earlier pattern stays, and the starting point is returned for the later one",
'''import sys
import numpy as np
from pyebsdindex import pcopt
o = pcopt.PSOOpt(dimensions=3, n_particles=8, hyperparammethod="auto")
b = (np.zeros(3), np.ones(3))
for c, off in ((np.array([.3, .6, .4]), 0.0), (np.array([.7, .2, .5]), 10.0)):
    np.random.seed(1)
    seen = []
    def f(x, **k):
        seen.append((float(off + np.sum((x - c) ** 2)), np.array(x)))
        return seen[-1][0]
    cost, loc = o.optimize(f, start=np.full(3, .5), bounds=b, niter=10, verbose=0)
    best = min(seen, key=lambda s: s[0])
    if abs(cost - best[0]) > 1e-12 or not np.allclose(loc, best[1]):
        sys.exit("best evaluated %s at %s, returned %s at %s" % (best[0], best[1], cost, loc))
print("ok")
''')

mkseed("c22-hex-families", [(EF, "          poles = poles[:,[0,1,3]]\n", "          poles = poles[:,[0,1,2]]\n")], "C22",
"a hexagonal phase with four-index plane families in a text file",
"the third index written is i instead of l",
'''import os, sys
import numpy as np
from pyebsdindex import ebsd_index, ebsdfile
ix = ebsd_index.EBSDIndexer(phaselist=["HCP"], PC=[.47, .67, .63], patDim=np.array([40, 40]))
d = np.zeros((2, 2), dtype=ix.dataTemplate)
d["quat"][..., 0] = 1
p = os.path.join(os.environ["SCRATCH"], "a.ang")
ebsdfile.writeang(p, ix, d, ncols=2)
got = [[int(v) for v in l.split()[2:5]] for l in open(p) if l.startswith("# hklFamilies")]
want = np.array(ix.phaseLib[0].polefamilies).astype(int)[:, [0, 1, 3]].tolist()
if got != want:
    sys.exit("families %s instead of %s" % (got, want))
print("ok")
''')

mkseed("c23-vector-length", [(IPF, """def ipf_color_cubic(xstalvect):
  xstalv = np.array(np.atleast_2d(xstalvect), dtype=float)
  npoints = xstalv.shape[0]

  xstalv /= np.sqrt((xstalv ** 2).sum(-1))[..., np.newaxis]
""", """def ipf_color_cubic(xstalvect):
  xstalv = np.array(np.atleast_2d(xstalvect), dtype=float)
  npoints = xstalv.shape[0]

""")], "C23", "a sample direction that is not a unit vector and a cubic phase", "the colour depends on the length of the direction",
'''import sys
import numpy as np
from pyebsdindex.EBSDImage import IPFcolor
q = np.array([[1, 0, 0, 0], [.8, .6, 0, 0], [.5, .5, .5, .5], [.8, 0, .36, .48]], float)
for f in (IPFcolor.qu2ipf_cubic, IPFcolor.qu2ipf_hex):
    for v in ([0, 0, 1.0], [1.0, 2, 3]):
        a, b = f(q, vector=np.array(v)), f(q, vector=3 * np.array(v))
        if not np.allclose(a, b, atol=1e-5):
            sys.exit("%s of %s and of three times that direction differ" % (f.__name__, v))
print("ok")
''')

mkseed("c24-inplace", [(MB, "  rescaleim = image.astype(np.float32)\n", "  rescaleim = np.asarray(image, dtype=np.float32)\n")], "C24",
"a single-precision image with the values rescaled", "the caller's image is rescaled too",
'''import sys
import numpy as np
from pyebsdindex.EBSDImage import micronbar
for t in (np.uint8, np.float64, np.float32):
    im = (np.arange(30 * 120).reshape(30, 120) % 200 + 20).astype(t)
    keep = im.copy()
    micronbar.addmicronbar(im, 0.5, rescale=True)
    if not np.array_equal(im, keep):
        sys.exit("the %s image was changed" % t.__name__)
print("ok")
''')

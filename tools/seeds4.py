import sys; sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)))
from mkseed import mkseed
O = "pyebsdindex/opencl/"
BC, CK, NC, NR = [O + x for x in ("band_detect_cl.py", "clkernels.cl", "nlpar_cl.py", "nlpar_clray.py")]

HEAD = '''import os, sys
os.environ["VERIF_SCRATCH"] = os.environ["SCRATCH"]
import fakecl
fakecl.install()
import numpy as np
'''
BANDS = HEAD + '''import contextlib, io
from pyebsdindex import band_detect
from pyebsdindex.opencl import band_detect_cl


def line(ang, dist, shape=(60, 60), amp=100.):
    y, x = np.indices(shape)
    a = np.deg2rad(ang)
    d = (x - (shape[1] - 1) / 2) * np.cos(a) + (y - (shape[0] - 1) / 2) * np.sin(a) - dist
    return amp * np.exp(-(d / 1.6) ** 2)


def find(P, **k):
    """Bands found on the device (never on the CPU)."""
    d = band_detect_cl.BandDetect(patDim=np.array(P.shape[1:]), nTheta=90, nRho=60, rhoMaskFrac=.15, **k)
    o = band_detect.BandDetect.find_bands
    band_detect.BandDetect.find_bands = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return d.find_bands(P)
    finally:
        band_detect.BandDetect.find_bands = o


'''

mkseed("c27-signed-pixels", [(CK, "  ushort imVal;\n  float imValflt;\n\n  imVal =  im1[indx1];\n", "  short imVal;\n  float imValflt;\n\n  imVal = (short) im1[indx1];\n".replace("float imValflt", "float imValflt")),
                            (CK, "  imVal = (short) im1[indx1];\n  imValflt = convert_float(imVal);\n", "  imVal = (short) im1[indx1];\n  imValflt = (float) imVal;\n")], "C27",
"16 bit patterns with pixels in the upper half of the range", "bright pixels are taken for dark ones on the device, so that other bands are found",
BANDS + '''P = (line(40, 5) + line(110, -8, amp=60.))[None]
a = find(P.astype(np.float32), nBands=2)
b = find((20000 + 200 * P).astype(np.uint16), nBands=2)
if np.abs(a["aveloc"] - b["aveloc"]).max() > .3:
    sys.exit("bands at %s, in the bright 16 bit pattern at %s" % (a["aveloc"].tolist(), b["aveloc"].tolist()))
print("ok")
''', extra=["fakecl.py"])

mkseed("c27-dilate-in-place", [(BC, "    prg.morphDilateKernelBF(queue, (np.uint32(nT), np.uint32(nR), nImChunk), None, lmaxX, lmaxXY,\n", "    prg.morphDilateKernelBF(queue, (np.uint32(nT), np.uint32(nR), nImChunk), None, lmaxX, lmaxX,\n"),
                               (BC, "    prg.im1EQim2(queue,(np.uint32(nT),np.uint32(nR),nImCL),None, lmaxXY, rdn_gpu, local_max_gpu,\n", "    prg.im1EQim2(queue,(np.uint32(nT),np.uint32(nR),nImCL),None, lmaxX, rdn_gpu, local_max_gpu,\n")], "C27",
"work items that run one after the other, and a weaker line beyond a stronger one at a similar angle", "the local maximum is computed in place: strong bands hide weaker ones, in the direction in which the device works",
BANDS + '''P = np.array([line(40, 10) + line(42, -10, amp=60.), line(40, -10) + line(42, 10, amp=60.), line(130, 10) + line(128, -10, amp=60.)]).astype(np.float32)
r = []
for order in ("fwd", "rev"):
    fakecl.K.order = order
    r.append(find(P, nBands=3))
for f in ("valid", "maxloc", "aveloc", "max"):
    if not np.array_equal(r[0][f], r[1][f]):
        sys.exit("%s depends on the order in which the device works: %s, %s" % (f, r[0][f].tolist(), r[1][f].tolist()))
print("ok")
''', extra=["fakecl.py"])

mkseed("c27-band-not-cleared", [(CK, "  for (i=0;i<lnmax;++i){\n    maxloc[i+lnmax*z] = 0;\n", "  for (i=0;i+1<lnmax;++i){\n    maxloc[i+lnmax*z] = 0;\n")], "C27",
"a pattern with fewer bands than are asked for, and device memory that holds ordinary numbers", "what the memory held before is reported as a band",
BANDS + '''P = (line(40, 5))[None].astype(np.float32)
r = []
for fill in (0x00, 0x3F, 0xFF, 0xC3):
    fakecl.K.fill = fill
    r.append(find(P, nBands=30))
for x in r:
    if not np.array_equal(x["valid"], r[0]["valid"]) or not np.array_equal(x["max"], r[0]["max"]):
        sys.exit("the bands depend on what the device memory held: %s / %s" % (r[0]["max"][0, -2:], x["max"][0, -2:]))
print("ok")
''', extra=["fakecl.py"])

NL = HEAD + '''import h5py
from pyebsdindex import ebsd_pattern
from pyebsdindex.opencl import nlpar_cl, nlpar_clray


def up2(name, P, nr, nc):
    """A minimal .up file (version 3) of 16 bit (.up2) patterns."""
    h, w = P.shape[1:]
    with open(name, "wb") as f:
        np.array([3, w, h, 42], np.int32).tofile(f)
        np.array([1], np.uint8).tofile(f)
        np.array([nc, nr], np.int32).tofile(f)
        np.array([0], np.uint8).tofile(f)
        np.array([1., 1.], np.float64).tofile(f)
        P.astype(np.uint16).tofile(f)
    return name


def scan(nr, nc, h=4, w=5):
    g = np.random.default_rng(5)
    P = 400 + 300 * np.sin(np.arange(h * w) * .7).reshape(h, w) + 30 * g.standard_normal((nr * nc, h, w))
    P[:, 1, 2] = 1200
    return P.astype(np.uint16)


def device(mem):
    fakecl.PLATFORMS[:] = [fakecl.Platform([fakecl.Device(mem, False)])]


def average(f, mem=1 << 28, **k):
    device(mem)
    n = nlpar_cl.NLPAR(f)
    n.calcnlpar(fileout=os.path.join(os.environ["SCRATCH"], "out.up2"), searchradius=1, lam=.8, verbose=0, **k)
    return ebsd_pattern.get_pattern_file_obj(os.path.join(os.environ["SCRATCH"], "out.up2")).read_data(patStartCount=[0, -1], returnArrayOnly=True)[0]


'''

mkseed("c28-tile-place", [(NC, "                                      patStartCount=[[np.int64(cstart + cstartcalc), np.int64(rstart + rstartcalc)],\n", "                                      patStartCount=[[np.int64(cstart + rstartcalc), np.int64(rstart + rstartcalc)],\n")], "C28",
"a device whose memory takes the whole height but not the whole width of the scan", "all tiles but the first are written shifted by the overlap",
NL + '''P = scan(4, 24)
f = up2(os.path.join(os.environ["SCRATCH"], "in.up2"), P, 4, 24)
a = average(f)
for npt in (30, 40, 50, 70):
    b = average(f, 20 * 8 * npt * 4)
    bad = np.nonzero(np.abs(a.astype(float) - b).max(axis=(1, 2)) > 1)[0]
    if len(bad):
        sys.exit("with memory for %d patterns other averages at %s" % (npt, bad.tolist()))
print("ok")
''', extra=["fakecl.py"])

mkseed("c28-give-up-early", [(NC, '          if (mxval0 < np.float32(1.e-8)) or ( mxtest < 0.5 ) or (j["nattempts"] >= 3):\n', '          if (mxval0 < np.float32(1.e-8)) or ( mxtest < 0.5 ) or (j["nattempts"] >= 1):\n')], "C28",
"a device that leaves the output of one tile empty twice in a row", "the empty patterns are written to the file",
NL + '''P = scan(5, 6)
f = up2(os.path.join(os.environ["SCRATCH"], "in.up2"), P, 5, 6)
a = average(f)
for n in (1, 2, 3):
    k = [0]

    def noop(kernel):
        k[0] += kernel == "calcnlpar"
        return kernel == "calcnlpar" and k[0] <= n
    fakecl.K.noop = noop
    b = average(f)
    fakecl.K.noop = None
    if np.abs(a.astype(float) - b).max() > 1:
        sys.exit("%d empty answers of the device and the file holds other patterns (maximum %d)" % (n, b.max()))
print("ok")
''', extra=["fakecl.py"])

mkseed("c28-noise-tile-edge", [(NC, "      rendcalc = nrowchunk - 1 if (rowchunk < (chunks[1] - 1)) else nrowchunk\n", "      rendcalc = nrowchunk - 1\n")], "C28",
"any scan (its last row) whose noise is estimated on a device", "", "", extra=["fakecl.py"]) if 0 else None

import sys; sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)))
from mkseed import mkseed
P = "pyebsdindex/"
PAR, SIN, BD, TV, RL, CS, RF, EP, NL, PC, CM, EF, MIS = [P + x for x in ("_ebsd_index_parallel.py", "_ebsd_index_single.py", "band_detect.py", "tripletvote.py", "rotlib.py", "crystal_sym.py", "radon_fast.py", "ebsd_pattern.py", "nlpar_cpu.py", "pcopt.py", "crystallometry.py", "ebsdfile.py", "misorientation.py")]

mkseed("c05-tall-bruker", [(RF, "      t *=  np.array([dimf[1], dimf[0], -dimf[0]])\n", "      t *=  np.array([dimf[1], dimf[0], -np.min(dimf[0:2])])\n")], "C05",
"a detector that is taller than wide, with a pattern centre in the Bruker convention", "the detector distance is scaled by the width, so orientations are off by degrees",
'''import sys
import numpy as np
import simpat
from pyebsdindex import ebsd_index
for shape in ((48, 64), (64, 48)):
    h, w = shape
    pc = np.array([0.47, 0.6, 0.7])                                   # EDAX
    br = [pc[0], 1 - pc[1], pc[2] * min(h, w) / h]
    rots = [simpat.q2m(simpat.axang([1, 2 + k, 3], 25 + 17 * k)) for k in range(3)]
    P = np.array([simpat.pattern(r, shape, pc) for r in rots]).astype(np.float32)
    a = ebsd_index.index_pats(P, phaselist=["FCC"], vendor="EDAX", PC=pc)[0][-1]
    b = ebsd_index.index_pats(P, phaselist=["FCC"], vendor="BRUKER", PC=br)[0][-1]
    if np.any(b["fit"] > a["fit"] + .2) or np.any(b["nmatch"] < a["nmatch"]):
        sys.exit("detector %s: fit %s with the Bruker centre, %s with the same centre for EDAX" % (shape, b["fit"], a["fit"]))
print("ok")
''', sim=True)

mkseed("c18-inverse-direct", [(CM, "        self.invDirectStructureMatrix[2, 1] = a*c*(cb*cg-ca)/(self.volume*sg)\n", "        self.invDirectStructureMatrix[2, 1] = -a*c*ca/(self.volume*sg)\n")], "C18",
"a triclinic cell", "directions of triclinic crystals are taken back to wrong indices",
'''import sys
import numpy as np
from pyebsdindex import crystallometry
for cell in ((.4, .4, .4, 90, 90, 90), (.3, .3, .5, 90, 90, 120), (.4, .5, .6, 90, 103, 90), (.4, .5, .6, 81, 103, 97)):
    X = crystallometry.Crystal("x", *cell)
    if not np.allclose(X.invDirectStructureMatrix @ X.directStructureMatrix, np.eye(3), atol=1e-9):
        sys.exit("cell %s: the inverse of the direct structure matrix is wrong" % (cell,))
print("ok")
''')

mkseed("c25-third-variant", [(MIS, "    if (qAB_t2[0] > qAB[0]):\n", "    if (qAB_t2[0] / sqrt2 > qAB[0]):\n")], "C25",
"two cubic orientations whose smallest rotation is found only by a three-fold symmetry operator", "the misorientation angle is not the smallest one",
'''import sys
import numpy as np
from pyebsdindex import misorientation, rotlib
a = np.radians(90) / 2
def mul(p, q):
    return np.array([p[0]*q[0]-p[1]*q[1]-p[2]*q[2]-p[3]*q[3], p[0]*q[1]+p[1]*q[0]+p[2]*q[3]-p[3]*q[2],
                     p[0]*q[2]-p[1]*q[3]+p[2]*q[0]+p[3]*q[1], p[0]*q[3]+p[1]*q[2]-p[2]*q[1]+p[3]*q[0]])
gens = [np.array([np.cos(a), np.sin(a), 0, 0]), np.array([np.cos(a), 0, np.sin(a), 0])]
ops = [np.array([1., 0, 0, 0])]
for o in ops:
    for g in gens:
        n = mul(o, g)
        if not any(abs(abs(n @ m) - 1) < 1e-9 for m in ops):
            ops.append(n)
assert len(ops) == 24
for k in range(60):
    w = np.radians(5 + k % 40)
    v = np.array([1, 1 + k % 7, 2 - k % 5], float); v /= np.linalg.norm(v)
    q = np.append(np.cos(w / 2), np.sin(w / 2) * v)
    for o in ops:
        m = misorientation.misorientcubic_quick(np.array([1., 0, 0, 0]), mul(o, q))
        best = max(abs(mul(p, q)[0]) for p in ops)
        if abs(m[0] - best) > 1e-5:
            sys.exit("angle %g instead of %g" % tuple(2 * np.degrees(np.arccos(np.clip([m[0], best], -1, 1)))))
print("ok")
''')

mkseed("c26-theta-wrap", [(BD, "      radon[:,-self.padding[1]:,:] = np.flip(radon[:,self.padding[1]:2 * self.padding[1],:],axis=0)\n",
"      radon[:,-self.padding[1]:,:] = radon[:,self.padding[1]:2 * self.padding[1],:]\n")], "C26",
"a band that is steep and does not go through the pattern centre, near the end of the angle range", "bands near 180 degrees get a wrong place",
'''import sys
import numpy as np
from pyebsdindex import band_detect
H = W = 60
y, x = np.mgrid[0:H, 0:W] - (H - 1) / 2
bd = band_detect.BandDetect(patDim=np.array([H, W]), nTheta=180, nRho=90, rhoMaskFrac=.1, tSigma=2., rSigma=2., nBands=5)
R = float(bd.rhoMax); d = 2 * R / 90
for th in np.arange(0, 180, .5):
    for rho in (-14., 0., 14.):
        t = np.radians(th)
        p = 100 + 60 * np.exp(-.5 * ((x * np.cos(t) + y * np.sin(t) - rho) / 1.4) ** 2)
        b = bd.find_bands(p[None].astype(np.float32))
        r, c = b["aveloc"][0, 0]
        s = 1
        if abs(c - th) > 90:
            s, c = -1, c - 180 * np.sign(c - th)
        if abs(c - th) > 1.5 or abs(r - (s * rho + R - d) / d) > .9:
            sys.exit("line at %g degrees, %g pixels found at %g degrees, %g pixels" % (th, s * rho, c, r * d - R + d))
print("ok")
''')

mkseed("c12-one-sided-saturation", [(NL, "                  if (d1 < mxval) and (d0 < mxval):\n                    n2 += np.float32(1.0)\n", "                  if (d0 < mxval):\n                    n2 += np.float32(1.0)\n")], "C12",
"saturation protection and a pixel that is saturated in a neighbour but not in the pattern itself", "saturated pixels of neighbours count in the distance",
'''import os, sys
import numpy as np
from pyebsdindex import nlpar_cpu
rs = np.random.RandomState(0)
n = 64
base = 100 + rs.normal(0, 4, (3, n))
base[1, 5] = base[2, 9] = 5000.0
base = base.astype(np.float32)
sig = np.full((1, 3), 4.0, np.float32)
idx = np.arange(n).astype(np.uint64)
out = nlpar_cpu.NLPAR.nlpar_nb(base.copy(), np.float32(.7), np.int64(1), np.float32(0), sig, np.uint64(1), np.uint64(3), idx, True)
w = np.zeros((3, 3))
mx = base.max() * .999
for i in range(3):
    for j in range(3):
        g = (base[i] < mx) & (base[j] < mx)
        g = (base[i] < mx) & (base[j] < mx)
        d = ((base[i] - base[j])[g] ** 2).sum() - g.sum() * 32
        w[i, j] = 1 if i == j else np.exp(-max(d / (32 * np.sqrt(2 * g.sum())), 0) / .7 ** 2)
# window of three columns for every column
w /= w.sum(1, keepdims=True)
if not np.allclose(out, w @ base, rtol=2e-3):
    sys.exit("average differs from the definition by %g" % np.abs(out - w @ base).max())
print("ok")
''')

mkseed("c06-lower-case", [(RF, "    ven = str.upper(vendor)\n", "    ven = str(vendor)\n")], "C06",
"a vendor that is not written in capitals", "the pattern centre is not taken into detector pixels",
'''import sys
import numpy as np
import simpat
from pyebsdindex import ebsd_index
pc = np.array([0.47, 0.6, 0.7])
P = np.array([simpat.pattern(simpat.q2m(simpat.axang([1, 2, 3], 25)), (60, 60), pc)]).astype(np.float32)
for v, p in (("EDAX", pc), ("BRUKER", [pc[0], 1 - pc[1], pc[2]]), ("OXFORD", pc)):
    a = ebsd_index.index_pats(P, phaselist=["FCC"], vendor=v, PC=p)[0][-1]
    b = ebsd_index.index_pats(P, phaselist=["FCC"], vendor=v.lower(), PC=p)[0][-1]
    if not np.allclose(a["quat"], b["quat"], atol=1e-6):
        sys.exit("%s gives %s, %s gives %s" % (v, a["quat"], v.lower(), b["quat"]))
print("ok")
''', sim=True)

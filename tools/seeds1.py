import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mkseed
PAR, SIN, BD, TV, RL, CS, RF = ["pyebsdindex/" + x for x in ("_ebsd_index_parallel.py", "_ebsd_index_single.py", "band_detect.py", "tripletvote.py", "rotlib.py", "crystal_sym.py", "radon_fast.py")]

mkseed("c01-idle-worker-death", [(PAR, """                        else: # there should be more to do, but waiting for work.
                            cputask[jid] = cpuworkers[jid].indexpoles.remote(None, None, None)
                            ctaskindex[jid] = None
""", """                        else: # there should be more to do, but waiting for work.
                            cputask[jid] = cpuworkers[jid].indexpoles.remote(None, None, None)
""")], "C01", "an indexing worker finishes a chunk, is polled while no chunk is ready, and dies during that idle poll",
"the finished chunk is queued and counted a second time, so the run ends before the last chunk is indexed and its rows stay empty",
'''"""A small deterministic stand-in for ray: a task runs when it is submitted."""
import sys, types
import numpy as np
import pyebsdindex._ebsd_index_parallel as par
import pyebsdindex.tripletvote as tv
from pyebsdindex import ebsd_index
import simpat

class Ref:
    def __init__(s, value=None, exc=None, ready=0): s.value, s.exc, s.ready = value, exc, ready
deaths = [0]
KILL = [False]
state = {"worked": set(), "killed": False, "hold": 0}
class Method:
    def __init__(s, actor, name): s.actor, s.name = actor, name
    def remote(s, *a, **k):
        a = [x.value if isinstance(x, Ref) else x for x in a]
        k = {n: (x.value if isinstance(x, Ref) else x) for n, x in k.items()}
        if s.name == "indexpoles":
            if a[0] is None:
                if KILL[0] and not state["killed"] and id(s.actor) in state["worked"]:
                    state["killed"] = True
                    return Ref(exc=RuntimeError("the worker died"))
            else:
                state["worked"].add(id(s.actor))
        if s.name == "findbands":
            state["hold"] += 1
            # the bands of the later chunks come late, so that indexing workers go idle
            return Ref(getattr(s.actor.obj, s.name)(*a, **k), ready=6 * state["hold"])
        return Ref(getattr(s.actor.obj, s.name)(*a, **k))
class Actor:
    def __init__(s, obj): s.obj = obj
    def __getattr__(s, n): return Method(s, n)
class ActorClass:
    def __init__(s, cls): s.cls = cls
    def options(s, **k): return s
    def remote(s, *a, **k): return Actor(s.cls(*a, **k))
def wait(refs, num_returns=1, timeout=None):
    for r in refs: r.ready -= 1
    return [r for r in refs if r.ready < 0], [r for r in refs if r.ready >= 0]
def get(r):
    if r.exc: raise r.exc
    return r.value
class Time:
    sleep = staticmethod(lambda s: None)
for n in ("GPUWorker", "CPUWorker"):
    setattr(par, n, ActorClass(getattr(par, n).__ray_metadata__.modified_class))
par.ray = types.SimpleNamespace(init=lambda **k: None, shutdown=lambda: None, put=Ref, wait=wait, get=get, kill=lambda a: None)

pats = np.array([simpat.pattern(simpat.q2m(simpat.axang([1, 2 + k, 3], 20 + 15 * k)), (40, 40)) for k in range(6)])
par.time = types.SimpleNamespace(sleep=lambda s: None)
def run(kill):
    KILL[0] = kill
    state.update(worked=set(), killed=False, hold=0)
    d, b = par.index_pats_distributed(pats, phaselist=["FCC"], PC=[.47, .67, .63], ncpu=2, chunksize=1)[:2]
    return d
ref = run(False)
out = run(True)
assert state["killed"], "no idle worker was found to kill"
assert (ref["nmatch"][-1] > 0).all()
bad = [i for i in range(6) if out["nmatch"][-1, i] != ref["nmatch"][-1, i]]
if bad:
    sys.exit("rows %s differ after the death of an idle worker" % bad)
print("ok")
''', sim=True)

mkseed("c03-relative-floor", [(BD, "bandDataChunk['normmax'] /= imageave.clip(1e-7).reshape(chnk[1]-chnk[0], 1)",
 "bandDataChunk['normmax'] /= imageave.clip(1e-4 * np.max(imageave)).reshape(chnk[1]-chnk[0], 1)")], "C03",
"a dim pattern in the same chunk as one that is more than four orders of magnitude brighter",
"the normalised band intensity (and image quality) of the dim pattern depends on its neighbour",
'''import sys
import numpy as np
import simpat
from pyebsdindex import band_detect
p = simpat.pattern(simpat.q2m(simpat.axang([1, 2, 3], 40)), (40, 44)).astype(np.float32)
bright = (p[::-1] * 1e6).astype(np.float32)
bd = band_detect.BandDetect(patDim=np.array([40, 44]), nBands=9)
alone = bd.find_bands(p[None])
both = bd.find_bands(np.array([bright, p]))
for n in ("normmax", "max", "maxloc"):
    if not np.allclose(alone[n][0], both[n][1], rtol=1e-4):
        sys.exit("field %s of a dim pattern changes next to a bright one: %s %s" % (n, alone[n][0], both[n][1]))
print("ok")
''', sim=True)

mkseed("c04-score-buffer", [(TV, """    for p in range(npats):
      score = np.full((nbands), -1.0, np.float32)
      pmatch = np.ravel""", """    score = np.full((nbands), -1.0, np.float32)
    for p in range(npats):
      pmatch = np.ravel""")], "C04",
"a band set with unmatched bands solved after another set in which those bands were matched with a high score",
"scores left over from the previous set select unmatched bands for the fit, which tilts the orientation",
'''import sys
import numpy as np
import simpat
from pyebsdindex import tripletvote as tv
lib = tv.addphase(libtype="FCC")
R = [simpat.q2m(simpat.axang([1, 2, 3], 40)), simpat.q2m(simpat.axang([3, -1, 2], 75))]
fam = np.concatenate([simpat.family(h, simpat.cubic_rots()) for h in ([1, 1, 1], [0, 0, 2], [0, 2, 2])])
sets = []
for k, r in enumerate(R):
    n = (r @ fam.T).T[[0, 4, 7, 1, 5, 8, 2, 6, 9]].astype(np.float32)
    if k == 1:
        # three spurious bands, and a wobble on the others that makes the fit depend on the weights
        n[[0, 3, 6]] = [[.9, .1, .42], [.2, .95, .24], [.63, .31, -.71]]
        n += np.array([[.004 * np.sin(3 * i + j) for j in range(3)] for i in range(9)], np.float32)
    sets.append(n / np.linalg.norm(n, axis=1)[:, None])
w = np.tile(np.linspace(1, .5, 9), (1, 1))
alone = lib.bandindex(sets[1][None], band_intensity=w)
both = lib.bandindex(np.array(sets, np.float32), band_intensity=np.tile(w, (2, 1)))
assert 3 <= alone[4][0] < 9, alone[4]
if not (np.allclose(alone[0][0], both[0][1], atol=1e-5) and np.allclose(alone[1][0], both[1][1], atol=1e-3)):
    sys.exit("alone %s fit %s, after another set %s fit %s" % (alone[0][0], alone[1][0], both[0][1], both[1][1]))
print("ok")
''', sim=True)

mkseed("c07-earlyexit-rows", [(SIN, "band_intensity=adj_intensity[p2do, ...],", "band_intensity=adj_intensity[:p2do.size, ...],")], "C07",
"two or more phases, an early-exit threshold and a pattern that reached it standing before one that did not",
"the second phase is solved with the band intensities of other patterns, so its layer (orientation weights, invalid bands) is not the one of that pattern",
'''import sys
import numpy as np
import simpat
from pyebsdindex import ebsd_index, tripletvote as tv
R = [simpat.q2m(simpat.axang([1, 2 + k, 3], 20 + 23 * k)) for k in range(3)]
pats = np.array([simpat.pattern(R[0], (60, 60)), simpat.pattern(R[1], (60, 60), reflectors=simpat.BCC), simpat.pattern(R[2], (60, 60), reflectors=simpat.BCC)])
def run(p, early):
    ix = ebsd_index.EBSDIndexer(phaselist=["FCC", "BCC"], PC=[.47, .67, .63], patDim=np.array([60, 60]), nband_earlyexit=early)
    return ix.index_pats(patsin=p)[0]
first = run(pats, 100)[0]["nmatch"]
# patterns in falling order of the matches of the first phase, the first of them reaches the threshold
pats = pats[np.argsort(-first, kind="stable")]
early = int(first.max())
assert (first == early).sum() < 3, first
every = run(pats, early)
assert every[1, 0]["phase"] == -1 and (every[1]["phase"] == 1).any()
for i in range(3):
    one = run(pats[i:i + 1], early)
    for lay in range(3):
        for n in ("nmatch", "phase"):
            if one[lay, 0][n] != every[lay, i][n]:
                sys.exit("pattern %d layer %d %s: %s alone, %s in the scan" % (i, lay, n, one[lay, 0][n], every[lay, i][n]))
        if not np.allclose(one[lay, 0]["quat"], every[lay, i]["quat"], atol=1e-5) or abs(one[lay, 0]["fit"] - every[lay, i]["fit"]) > 1e-4:
            sys.exit("pattern %d layer %d: another orientation or fit" % (i, lay))
print("ok")
''', sim=True)

mkseed("c14-near-degenerate", [(RL, "    if (chi == 0.0):\n      if (q12 == 0.0):", "    if (chi < 1.0e-3):\n      if (q12 < q03):")], "C14",
"an orientation whose second Euler angle is a tenth of a degree or less from 0 or 180, without being exactly there",
"the small tilt is dropped in the conversion to Euler angles",
'''import sys
import numpy as np
from pyebsdindex import rotlib
for Phi in (0.0, 1e-3, 1.5e-3, np.pi - 1.5e-3, np.pi):
    eu = np.array([0.4, Phi, 0.7])
    q = rotlib.eu2qu(eu)
    q2 = rotlib.eu2qu(rotlib.qu2eu(q))
    d = 2 * np.arccos(min(1.0, abs(float(np.dot(q, q2)))))
    if d > 2e-4:
        sys.exit("Phi %g: orientation moved by %g rad" % (Phi, d))
print("ok")
''')

mkseed("c15-average-sign", [(RL, """    sign = q0[0]*qu[i+1,0]
    for j in range(3):
      sign += q0[j+1]*qu[i+1,j+1]""", """    sign = qu[i,0]*qu[i+1,0]
    for j in range(3):
      sign += qu[i,j+1]*qu[i+1,j+1]""")], "C15",
"an average of three or more quaternions in which two consecutive ones have the opposite sign of the first",
"the average depends on the sign in which a rotation is written",
'''import sys
import numpy as np
from pyebsdindex import rotlib
q = np.array([.8, .4, .3, .33]); q /= np.linalg.norm(q)
for s in ([1, 1, 1], [1, -1, 1], [1, 1, -1], [1, -1, -1], [1, -1, -1, -1]):
    a = rotlib.quatave(q[None] * np.array(s, float)[:, None])
    if abs(abs(float(np.dot(a, q))) - 1) > 1e-6:
        sys.exit("average with signs %s is %s instead of %s" % (s, a, q))
print("ok")
''')

mkseed("c16-space-group-149", [(CS, "143, 147, 149, 156,", "143, 147, 150, 156,")], "C16",
"space group 149 only", "P312 is given the operators of the low trigonal Laue class",
'''import sys
from pyebsdindex import crystal_sym
for sg, laue, n in ((148, 3, 3), (149, 32, 6), (150, 32, 6), (156, 32, 6)):
    if crystal_sym.spacegroup2lauenumber(sg) != laue or len(crystal_sym.spacegroupnum2symops(sg)) != n:
        sys.exit("space group %d: Laue %s" % (sg, crystal_sym.spacegroup2lauenumber(sg)))
print("ok")
''')

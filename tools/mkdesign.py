head = '''# Design

Every property is decided by exhaustive enumeration of a bounded space, on the real code of
/repo's working tree: histories, schedules, inputs, configurations.  There is no model that
stands in for the code; where a model exists (array model of a file, reference NLPAR, group
closure, forward projection of planes, ...) it is the *oracle*, and it is compared with the code
on every state the enumeration reaches, so the binding between model and code is checked at every
step (evidence: `traces_validated_against_impl`).  No sampling: random draws of the code are choice
points (C21) or fixed seeds, and all test data are deterministic.

## How a check runs

`./run.sh Cxx [quick|thorough]` -> `vlib/driver.py` starts a child with /repo first on PYTHONPATH, a
private HOME and numba cache (the code writes `~/.pyebsdindex`), a private scratch directory, and ends
it when it sends no heartbeat for 300 s: a hang of the code is a violation of the property being
explored (the case being run is named), as is a crash of the process.  `vlib/core.py` counts cases,
states, transitions, distinct outcomes, writes evidence/<id>.json, replays/<id>_<n>.json and the
VIOLATION / KNOWN-FINDING lines.  `Check.fanout` spreads independent jobs over helper processes and
merges their counts; `Check.split` + `Check.mine` run one body in several processes that claim the units of
work (C05, C07-C09, C20, C21).  No hooks are needed in /repo: ray is replaced by the stand-in of `vlib/fakeray.py`
(`sys.modules`), random numbers by patched generators, files by scratch files of independent writers.

Reference code, none of it using the code under test: `vlib/simpat.py` (Kikuchi pattern simulator),
`vlib/rotref.py` (orientation representations), `vlib/patfiles.py` (writers and parsers of the pattern
formats), `vlib/nlparref.py` (NLPAR from its definition), C16's group closure from textbook generators.

Tolerances.  Batched sums and fast-math round differently, so equal bands/orientations are compared to
5e-4 (bands) and modulo crystal symmetry where equivalent inputs may give another variant.  All other
comparisons are exact or to the precision of the number type.

## Properties

`E` = enumerated space, `O` = oracle, `N` = why tests do not settle it.  Times are for quick, on 8 cores.

'''
P = [
("C01 distributed = serial", 120, "E: all completion orders of outstanding tasks (any subset finished at each wait), worker deaths, exceptions in the worker and hanging workers, up to a deviation budget (all schedules with <=2 reorderings, one fault, one fault + one reordering, two faults), on the real coordinator loop with a deterministic ray stand-in that runs the real worker classes (arguments by value, read-only arrays, dead actors fail at get, ...); array, dataset, container and file input, several job sizes, every report level, the indexer handed back, CPU counts, one and two phases, old/new indexer objects. O: the serial result, bit for bit up to rounding, and termination (horizon = livelock). Choice points beyond the first 200 (30 for two deviations) of an execution are not branched on (listed as caps). N: ray's scheduling is not controllable; tests see one schedule and no fault."),
("C02 windows", 76, "E: every (start, count) incl. negative and beyond-the-end of a small scan x kind of input (arrays of each type, one 2-D pattern, file, file object, dataset) x entry point (index_pats, EBSDIndexer.index_pats, index_pats_distributed), and the same windows with background correction. O: rows of every pattern indexed alone (with the same background)."),
("C03 band detection independence", 25, "E: all ordered pairs and triples (and runs) of a pool of dissimilar patterns (constant, dark, bright, noisy, saturated, band-rich) x chunk sizes x containers x call histories, for 5 detector configurations. O: the row of the pattern processed alone by a fresh detector."),
("C04 solving independence", 50, "E: orders, subsets, repetitions of a pool of band sets for six phases; every small set of invalid bands x left-over normals/intensities. O: the set solved alone, with zeroed invalid bands."),
("C05 true orientation", 80, "E: all symmetry-distinct subsets (n = 6..8) of the planes of fcc, bcc, hcp, tetragonal and 7 low-symmetry phases (Laue classes -1 to m-3) that determine the orientation, all orders and signs of chosen subsets, every place of spurious bands, an orientation lattice containing all 180-degree and boundary rotations, all 5^5 combinations of small displacements of the bands, simulated patterns x detector shapes x tilts through the whole pipeline. O: the orientation used to project. A set *determines* the orientation when a brute force over all pair assignments finds no other orientation explaining more than n-2 bands within 2.6 degrees, nor as many as the early-exit count (otherwise any answer is accepted). Orientation error allowed: 0.05 degrees for exact normals, twice the displacement otherwise."),
("C06 vendor conventions", 70, "E: Radon positions (incl. sub-pixel positions outside the first/last cell) x detector shapes x source points x 5 vendors, shared or per-pattern PC; simulated patterns indexed in every convention and tilt. O: an independent construction of the plane through source point and line."),
("C07 result records", 56, "E: all ordered phase lists to length 3 x early-exit thresholds x band counts x pattern pool, subsets of patterns. O: the record composed from single-phase runs: the last row is the phase with the best (3 - fit) * nmatch, counts, matched planes consistent with angles."),
("C08 reused indexer", 78, "E: all operation sequences to depth 3 (4 thorough) on one indexer and two in turn (index, other sizes, file, PC changes, phase changes, background, failed calls), all setting-change sequences of one band detector. O: a newly built object with the same settings; caller's arguments unchanged."),
("C09 reading files", 34, "E: 474 files (all formats, versions, bit depths, scan shapes, data offsets, missing patterns, hex flags, second scans) x all (start, count) runs and rectangular slabs incl. clipped ones x ways of opening; interleaved objects. O: array model; file bytes unchanged."),
("C10 writing files", 64, "E: all histories (depth 2-3) of write (runs/slabs/float/int), header writes, copies, re-opening for every format variant. O: array model, the file parsed by an independent parser after every history; other patterns and header fields untouched."),
("C11 float to integer", 21, "E: all arrays of 2-3 values over a boundary alphabet x targets x methods x scale options, through pat_flt2int and write_data of every format. O: the stated laws (monotone, clipped, exact for representable whole numbers, joint scaling)."),
("C12 NLPAR average", 70, "E: all small scan shapes x radii x chunk sizes x strengths x thresholds x masks x thread counts x formats. O: double precision reference from the definition, point by point. Restrictions: the saturation level is by design that of a chunk of rows, so data hold their largest value in every row when chunks differ; background subtraction is not compared."),
("C13 NLPAR input/state", 55, "E: all histories (depth 3) of setting changes, file changes, sigma estimates, runs, strength searches. O: fresh object; sha1 of the inputs; refusal to write onto the input."),
("C14 representations", 70, "E: 42 conversions of rotlib on ~535 rotations with all degenerate ones, single/double, singly/arrays with a degenerate entry in every slot, strided, whole numbers, all chains to length 3 (4); the 42 plain numpy conversions of rotations.py on the same set with arrays of any shape, chains of 2. O: double precision model."),
("C15 quaternion algebra", 41, "E: all pairs, and triples of a subset, of an alphabet with all sign/zero patterns x all calling forms x precisions, averages over sign choices. O: numpy model."),
("C16 symmetry operators", 9, "E: complete domain: 230 space groups, 11 Laue classes, closure of the groups. O: groups generated from textbook generators."),
("C17 phase library", 12, "E: all planes, pairs, triplets of phases for all Laue classes, incl. nearly parallel planes; equivalent inputs (every member of a family, inverse, 3/4 indices). O: orbit under the group and its inversion; every triplet must be in a bin that its angles can vote for, and conversely."),
("C18 crystal geometry", 1, "E: lattice of cells of all systems x units x all small indices. O: Cartesian construction."),
("C19 Radon mean", 9, "E: all single-pixel images (they decide a linear map) x shapes x resolutions x masks x index maps x paddings, both implementations. O: list of pixels on each line."),
("C20 masks/background", 64, "E: masks x fillings of masked pixels x types x entry points; all orders/subsets/containers of a pool for the background. O: invariance; fresh per-pattern runs."),
("C21 PC optimisation", 75, "E: all sequences of extreme random draws of the swarm over finite objectives; vendors x shapes x batch modes x starts x interruption at every evaluation. O: record of all evaluations (best position, bounds, cost), documented unit conversions, unchanged indexer and caller data."),
("C22 exported files", 43, "E: scan shapes to 3x4 x phase counts x subsets of unindexed points x ways of giving the grid x file kinds. O: independent parsers of .ang and oh5."),
("C23 colours/images", 35, "E: direction grid x all operators, signs, spins, sample directions; all scan shapes with every point singled out; scan shapes and steps taken from a file of every format. O: equality of colours over the orbit, injectivity inside the unit triangle, continuity; place of the singled-out pixel."),
("C24 scale bar", 9, "E: image sizes x channels x types x seven decades of pixel size x options. O: bar and label read back from the picture."),
("C25 misorientation", 20, "E: all pairs of 149 orientations (all special ones), all variants on either side, shapes, precisions. O: minimum over the 24 operators by brute force."),
("C26 band location", 75, "E: lines of known place (distance x angle lattice) x image shapes x resolutions x rim trims (0, negative, .1 to 4) x gains and offsets; masks; lines in trimmed rows; orders of several lines in a batch. O: the line that was drawn: the brightest band lies on it (distance and direction), no band where nothing is, and the record is the same for any gain and offset (near ties excluded). N: tests never draw a line of known place."),
("C27 band detection on a device", 85, "S: the real OpenCL kernels, compiled from the tree by clang as OpenCL C into a shared object, driven by the real host code through `vlib/fakecl.py`, a stand-in for pyopencl in which everything a device or driver may choose is a knob. E: order of work items x delay of queued commands x content of unwritten memory x batch size x number type x detector; every failing call; C26's lines and C03's selections on the device; distributed indexing with workers that share the devices (12 configurations of devices, `gpu_id`, workers and chunks, all schedules to one (two) preemption(s), all single (double) worker faults); platforms x devices x `gpu_id`. Every load and store of every work item is recorded (clang -fsanitize=kernel-address callbacks): no two work items of a kernel conflict and none leaves its buffers, so that any interleaving equals the one that was run (partial-order reduction with an empty dependence relation). O: the line drawn; the same bands for all choices; the CPU's bands and orientations. N: the tests are skipped without a device."),
("C28 NLPAR on a device", 27, "S: as C27, plus the ray stand-in of C01 for the workers. E: scan shapes x radii x settings x number types x file kinds x device memories (tiles); every division of a scan of up to 60 (130) places; all worker schedules to two preemptions with up to two failing tiles; all device choices; every failing call; sequences of two (three) runs of one object; settings given in four ways; devices x `gpu_id`. O: double precision average, noise and strength from the published definition; exact cover of the scan by tiles with their windows."),
]
import glob, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
tail = open("tools/design_tail.md").read()
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (m.split("/")[1], d.get("caught_by", d["property"]), d["needs"].replace("|", "/")))
tail = tail.replace("SEEDTABLE", "\n".join(rows))
open("DESIGN.md", "w").write(head + "\n".join("### %s  (quick about %d s)\n%s\n" % p for p in P) + "\n" + tail)
